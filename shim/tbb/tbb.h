#include "_vtbb.h"
