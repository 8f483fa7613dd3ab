#define P_UPWIND
#include "flux.inc"
