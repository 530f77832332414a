#define LRA_PROP 11
#include "lra.h"
