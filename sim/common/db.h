// Keys and values of the disk map programs; shared by node program and model.
#ifndef SIM_DB_H
#define SIM_DB_H
#include "funcs.h"
#include <string>
namespace simdb {
enum { V_STR, V_DBL, V_ARR, V_LAT, V_TSL, V_N };        // value types
enum { KT_INT, KT_REC };                                // key types
inline int ikey(long k) { static const int v[] = {0, -1, 2147483647, 7, 256, 65536, -2147483647 - 1, 1}; return k < 8 ? v[k] : (int)k * 1000; }
inline std::string text(unsigned s, int maxlen) {
  int n = int(simf::hash3(s, 1, 9) % (maxlen + 1)); std::string r;
  for (int i = 0; i < n; ++i) r += (char)(simf::hash3(s, 2, i) % 256);
  return r;
}
inline int rkey_a(long k) { return int(k % 3); }
inline std::string rkey_s(long k) { std::string z((size_t)(k / 9), (char)0); return k / 3 % 3 == 0 ? z : (k / 3 % 3 == 1 ? "k\n" : "k") + z + "z"; }
inline std::string vstr(long p) { if (p % 5 == 0) return ""; if (p % 13 == 7) return text((unsigned)p, 20) + std::string(9000, (char)p); return text((unsigned)p, p % 3 ? 12 : 200); }
inline double vdbl(long p) { return p % 7 == 0 ? 0.0 : (double)(int)simf::hash3((unsigned)p, 3, 4) / 3; }
inline int varr_n(long p) { return int(p % 6); }
inline int varr(long p, int i) { return (int)simf::hash3((unsigned)p, 5, i); }
}
#endif
