#define LDBL
#define LSECT(L) LIN_MAT(L)
#define LFN run_lin_md
#include "vm_lin.inc"
