// Workload functions shared by the node program and the reference model:
// colourings, site maps and data patterns.  Nothing here comes from QDP++.
#ifndef SIM_FUNCS_H
#define SIM_FUNCS_H
#include "spec.h"
namespace simf {

inline long lex(const int* c, const int* L) { return ((long(c[3]) * L[2] + c[2]) * L[1] + c[1]) * L[0] + c[0]; }
inline void unlex(long l, const int* L, int* c) { for (int i = 0; i < 4; ++i) { c[i] = int(l % L[i]); l /= L[i]; } }
inline unsigned hash3(unsigned a, unsigned b, unsigned c) {
  unsigned h = a * 2654435761u ^ (b + 0x9e3779b9u) * 2246822519u ^ (c + 77u) * 3266489917u;
  h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16; return h;
}
// patterns: small integers, different per site and word
inline int fillval(long pat, long site, int word, int kind) {
  if (kind == sim::K_B) return (hash3((unsigned)pat, (unsigned)site, 1) >> 7) & 1;
  switch (pat % 4) {
    case 0: return int(hash3((unsigned)pat, (unsigned)site, word) % 17) - 8;
    case 1: return int((site + 3 * word + pat) % 13) - 6;
    case 2: return int(hash3((unsigned)pat, (unsigned)site, word) % 4001) - 2000;   // wide
    default: { int v = int(hash3((unsigned)pat, (unsigned)site, word) % 5) + 1; return pat & 4 ? -v : v; }   // never zero, one sign
  }
}
// ---- colourings ---------------------------------------------------------------
enum { S_ALL, S_RB, S_RB3, S_MCB, S_TIME, S_LIN3, S_SPARSE, S_EMPTY, S_XHALF, S_THALF, S_SITE, S_ZCUT, S_XSTRIPE, S_N };
inline int set_ncol(int k, const int* L) {
  switch (k) {
    case S_ALL: return 1; case S_RB: case S_RB3: return 2; case S_MCB: return 32; case S_TIME: return L[3];
    case S_LIN3: return 3; case S_SPARSE: return 2; case S_EMPTY: return 3; case S_XHALF: case S_THALF: return 2;
    case S_SITE: return 2; case S_ZCUT: return 3; case S_XSTRIPE: return L[0];
  }
  return 1;
}
inline int set_color(int k, const int* c, const int* L) {
  switch (k) {
    case S_ALL: return 0;
    case S_RB: return (c[0] + c[1] + c[2] + c[3]) & 1;
    case S_RB3: return (c[0] + c[1] + c[2]) & 1;
    case S_MCB: { int x = 0; for (int m = 3; m >= 0; --m) x = x * 2 + (c[m] & 1); int cb = (c[0] >> 1) + (c[1] >> 1) + (c[2] >> 1) + (c[3] >> 1); return x + ((cb & 1) << 4); }
    case S_TIME: return c[3];
    case S_LIN3: return (c[0] + 2 * c[1] + 3 * c[2] + 5 * c[3]) % 3;
    case S_SPARSE: return lex(c, L) % 7 == 3 ? 1 : 0;
    case S_EMPTY: return c[0] & 1;
    case S_XHALF: return c[0] < L[0] / 2 ? 0 : 1;
    case S_THALF: return c[3] < (L[3] + 1) / 2 ? 0 : 1;
    case S_SITE: return lex(c, L) == (long(L[0]) * L[1] * L[2] * L[3]) / 2 ? 1 : 0;
    case S_ZCUT: return c[2] == 0 ? 0 : c[2] == L[2] - 1 ? 1 : 2;
    case S_XSTRIPE: return c[0];
  }
  return 0;
}
// ---- site maps: source coordinate of destination c; sign -1 gives the inverse ---
// 0: displacement by p[0..3] (applied with sign), 1: reflection of axis p[0],
// 2: transposition of axes p[0],p[1] (equal extents), 3: displacement after
// transposition, 4: knight-like displacement depending on another axis' parity
enum { M_DISP, M_REFL, M_TRANS, M_TRDISP, M_SHEAR, M_IDENT, M_N };
inline void map_fn(int k, const long* p, int sign, const int* c, const int* L, int* o) {
  int t[4];
  for (int i = 0; i < 4; ++i) t[i] = c[i];
  auto md = [](long a, int n) { long r = a % n; return int(r < 0 ? r + n : r); };
  switch (k) {
    case M_DISP: for (int i = 0; i < 4; ++i) t[i] = md(c[i] + sign * p[i], L[i]); break;
    case M_REFL: t[p[0]] = L[p[0]] - 1 - c[p[0]]; break;
    case M_TRANS: t[p[0]] = c[p[1]]; t[p[1]] = c[p[0]]; break;
    case M_TRDISP:
      if (sign > 0) { for (int i = 0; i < 4; ++i) o[i] = c[i]; int a = o[p[0]], b = o[p[1]]; t[p[0]] = b; t[p[1]] = a; t[p[2]] = md(t[p[2]] + p[3], L[p[2]]); }
      else { t[p[2]] = md(t[p[2]] - p[3], L[p[2]]); int a = t[p[0]], b = t[p[1]]; t[p[0]] = b; t[p[1]] = a; }
      break;
    case M_SHEAR: t[p[0]] = md(c[p[0]] + sign * p[2] * (c[p[1]] & 1), L[p[0]]); break;
    case M_IDENT: break;
  }
  for (int i = 0; i < 4; ++i) o[i] = t[i];
}
} // namespace simf
#endif
