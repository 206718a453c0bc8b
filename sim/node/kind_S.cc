#include "qdp.h"
#define KT QDP::LatticeSpinMatrixF
#define KK sim::K_S
#define KN S
#include "vm_kind.inc"
