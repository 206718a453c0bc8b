#include "qdp.h"
#define KT QDP::LatticeColorVectorF
#define KK sim::K_V
#define KN V
#include "vm_kind.inc"
