#include "qdp.h"
#define KT QDP::LatticeBoolean
#define KK sim::K_B
#define KN B
#include "vm_kind.inc"
