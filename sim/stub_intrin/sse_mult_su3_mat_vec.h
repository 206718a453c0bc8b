#include "su3_stub.h"
