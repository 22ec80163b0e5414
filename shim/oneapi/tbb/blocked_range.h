#include "../../tbb/_vtbb.h"
