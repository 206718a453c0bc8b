#include "qdp.h"
#define KT QDP::LatticeComplexF
#define KK sim::K_C
#define KN C
#include "vm_kind.inc"
