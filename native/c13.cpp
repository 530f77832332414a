#define LRA_PROP 13
#include "lra.h"
