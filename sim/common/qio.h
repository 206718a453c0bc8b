// Record files: constants shared by program and model.
#ifndef SIM_QIO_COMMON_H
#define SIM_QIO_COMMON_H
#include "spec.h"
namespace simqio {
enum { SINGLE, MULTI, PART };
enum { CREATE, TRUNC, APPEND };
// values of global data: small integers
inline int scalval(long pat, int i, int word) { return int((pat * 7 + i * 31 + word * 5) % 201) - 100; }
}
#endif
