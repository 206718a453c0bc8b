#define LSECT(L) LIN_BLAS(L) LIN_CBLAS(L)
#define LFN run_lin_bf
#include "vm_lin.inc"
