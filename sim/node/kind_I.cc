#include "qdp.h"
#define KT QDP::LatticeInteger
#define KK sim::K_I
#define KN I
#include "vm_kind.inc"
