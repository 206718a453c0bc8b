#include "qdp.h"
#define KT QDP::LatticeHalfFermionD
#define KK sim::K_HD
#define KN HD
#define KLITE
#include "vm_kind.inc"
