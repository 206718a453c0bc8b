// Programs over objects that own memory: creation, copies, assignment, resizing, destruction.
#ifndef SIM_MEM_H
#define SIM_MEM_H
#include <vector>
#include <cstdint>
namespace simmem {
enum { T_LI, T_LR, T_LD, T_LM, T_LB, T_A1R, T_A2I, T_A3R, T_A1A1, T_I1, T_I2, T_I3, T_I4, T_I5, T_IN, T_J, T_SUB, T_MAP, T_A1M, T_RAW, T_N };
enum { O_NEW, O_COPY, O_ASSIGN, O_SELF, O_RESIZE, O_SET, O_TMP, O_VIEW, O_SWAP, O_DEL };
inline int ndims(int t, long seed) {
  switch (t) {
    case T_A1R: case T_I1: case T_A1A1: case T_J: case T_A1M: return 1;
    case T_A2I: case T_I2: return 2;
    case T_A3R: case T_I3: return 3;
    case T_I4: return 4; case T_I5: return 5;
    case T_IN: return 1 + (int)(seed % 4);
    default: return 0;
  }
}
struct MOp { int code = 0, a = 0, b = 0, type = 0; int nd = 0, d[5] = {1, 1, 1, 1, 1}; long seed = 0; int e = 0; };
struct Lcg { uint64_t s; explicit Lcg(uint64_t x) : s(x * 6364136223846793005ull + 1442695040888963407ull) { below(7); } int below(int n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (int)((s >> 33) % (uint64_t)n); } };
// a self-contained program: every object it creates is destroyed at its end.
// types: which of T_* may appear (bit mask)
inline std::vector<MOp> program(uint64_t seed, int n, long types) {
  Lcg r(seed); std::vector<MOp> v; std::vector<int> pool; for (int i = 0; i < T_N; ++i) if (types >> i & 1) pool.push_back(i);
  if (pool.empty()) pool.push_back(T_LI);
  struct Ob { int type; }; std::vector<int> live(6, -1);   // object -> type
  auto dims = [&](MOp& o) { o.nd = ndims(o.type, o.seed); bool zero = r.below(6) == 0; for (int i = 0; i < o.nd; ++i) o.d[i] = zero && r.below(2) ? 0 : 1 + r.below(o.nd > 3 ? 2 : 3); if (o.type == T_SUB) { o.d[0] = r.below(8); o.d[1] = r.below(4); } };
  auto pick = [&](int type) { std::vector<int> c; for (int i = 0; i < 6; ++i) if (live[i] >= 0 && (type < 0 || live[i] == type)) c.push_back(i); return c.empty() ? -1 : c[r.below((int)c.size())]; };
  for (int k = 0; k < n; ++k) {
    MOp o; o.code = r.below(10); o.seed = 1 + r.below(45); o.e = r.below(64);
    if (o.code != O_NEW && pick(-1) < 0) o.code = O_NEW;
    if (o.code == O_NEW) { o.a = r.below(6); o.type = pool[r.below((int)pool.size())]; dims(o); live[o.a] = o.type; }
    else {
      o.b = pick(-1); o.type = live[o.b];
      if (o.code == O_COPY) { o.a = r.below(6); live[o.a] = o.type; }
      else if (o.code == O_ASSIGN || o.code == O_TMP || o.code == O_SWAP) { o.a = pick(o.type); if (o.a == o.b) { int x = r.below(6); o.code = O_COPY; o.a = x; live[x] = o.type; } }
      else { o.a = o.b; if (o.code == O_RESIZE) dims(o); if (o.code == O_DEL) live[o.a] = -1; }
    }
    v.push_back(o);
  }
  for (int i = 0; i < 6; ++i) if (live[i] >= 0) { MOp o; o.code = O_DEL; o.a = o.b = i; o.type = live[i]; v.push_back(o); live[i] = -1; }
  return v;
}
}
#endif
