#include "qdp.h"
#define KT QDP::LatticeDiracFermionF
#define KK sim::K_F
#define KN F
#include "vm_kind.inc"
