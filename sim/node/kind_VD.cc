#include "qdp.h"
#define KT QDP::LatticeColorVectorD
#define KK sim::K_VD
#define KN VD
#define KLITE
#include "vm_kind.inc"
