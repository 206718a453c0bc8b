#define LSECT(L) LIN_MAT(L) LIN_MISC(L)
#define LFN run_lin_mf
#include "vm_lin.inc"
