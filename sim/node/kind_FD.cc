#include "qdp.h"
#define KT QDP::LatticeDiracFermionD
#define KK sim::K_FD
#define KN FD
#define KLITE
#include "vm_kind.inc"
