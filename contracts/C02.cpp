#define P_CONSERVATION
#include "flux.inc"
