#define P_CONSISTENCY
#include "flux.inc"
