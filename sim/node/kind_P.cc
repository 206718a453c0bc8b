#include "qdp.h"
#define KT QDP::LatticeDiracPropagatorF
#define KK sim::K_P
#define KN P
#include "vm_kind.inc"
