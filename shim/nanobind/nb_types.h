#include "nanobind.h"
