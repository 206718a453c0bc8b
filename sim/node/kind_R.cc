#include "qdp.h"
#define KT QDP::LatticeRealF
#define KK sim::K_R
#define KN R
#include "vm_kind.inc"
