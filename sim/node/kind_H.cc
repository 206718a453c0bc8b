#include "qdp.h"
#define KT QDP::LatticeHalfFermionF
#define KK sim::K_H
#define KN H
#include "vm_kind.inc"
