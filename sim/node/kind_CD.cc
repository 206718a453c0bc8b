#include "qdp.h"
#define KT QDP::LatticeComplexD
#define KK sim::K_CD
#define KN CD
#include "vm_kind.inc"
