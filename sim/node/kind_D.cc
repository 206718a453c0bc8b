#include "qdp.h"
#define KT QDP::LatticeRealD
#define KK sim::K_D
#define KN D
#include "vm_kind.inc"
