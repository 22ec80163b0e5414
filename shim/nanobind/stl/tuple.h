#include "../nanobind.h"
