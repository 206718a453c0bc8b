#define LSECT(L) LIN_G5(L) LIN_SPIN(L)
#define LFN run_lin_gf
#include "vm_lin.inc"
