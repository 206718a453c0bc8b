#include "qdp.h"
#define KT QDP::LatticeColorMatrixF
#define KK sim::K_M
#define KN M
#include "vm_kind.inc"
