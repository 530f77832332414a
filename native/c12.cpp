#define LRA_PROP 12
#include "lra.h"
