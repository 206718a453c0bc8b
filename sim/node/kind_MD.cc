#include "qdp.h"
#define KT QDP::LatticeColorMatrixD
#define KK sim::K_MD
#define KN MD
#define KLITE
#include "vm_kind.inc"
