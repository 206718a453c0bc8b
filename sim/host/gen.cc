// Seeded workload generation.
#include "gen.h"
namespace sim {
using namespace simf;
const std::vector<int> ALLK = {K_I, K_B, K_R, K_D, K_C, K_V, K_M, K_S, K_F, K_H, K_P, K_CD};
const std::vector<int> NUMK = {K_I, K_R, K_D, K_C, K_V, K_M, K_S, K_F, K_H, K_P, K_CD};
const std::vector<int> FLTK = {K_R, K_D, K_C, K_V, K_M, K_S, K_F, K_H, K_P, K_CD};

void Gen::sched() {
  static const int st[] = {0, 1, 2, 2, 3, 4, 5};
  s.k["strat"] = st[r.below(7)];
  static const int po[] = {0xA5, 0x00, 0xFF, 0x7F, 0x01};
  s.k["poison"] = po[r.below(5)];
  s.k["eager"] = r.below(3) == 0 ? 0 : r.below(2) ? 100 : 50;
  s.k["bsync"] = r.below(2) ? 0 : 50;
  s.k["pct"] = r.below(6);
}
void Gen::machine(const std::string& variant, int maxnodes, long maxvol, bool multi) {
  scalar = variant.compare(0, 2, "sc") == 0;
  bool even = variant.find("-cb2") != std::string::npos || variant.find("-cb3d") != std::string::npos;
  bool c32 = variant.find("-cb32") != std::string::npos;   // hypercubes of 4 x 2 x 2 x 2 sites
  p->variant = variant;
  for (int tries = 0;; ++tries) {
    int g[4] = {1, 1, 1, 1}, n = 1;
    if (!scalar) {
      int want = multi ? r.range(2, maxnodes) : r.below(6) == 0 ? 1 : r.range(2, maxnodes);
      for (int t = 0; t < 8 && n < want; ++t) {
        int ax = r.below(4), f = r.below(4) == 0 ? 3 : 2;
        if (n * f <= want) { g[ax] *= f; n *= f; }
      }
      if (multi && n < 2) continue;
    }
    long v = 1; int L[4], lax = r.below(10) == 0 ? r.below(4) : -1;      // lax: one long axis
    if (!scalar && n > 1 && r.below(16) == 0) for (int i = 0; i < 4; ++i) if (g[i] == 2 && n / 2 * 5 <= maxnodes && r.below(2)) { g[i] = r.below(2) && n / 2 * 7 <= maxnodes ? 7 : 5; n = n / 2 * g[i]; }
    for (int i = 0; i < 4; ++i) {
      static const int loc[] = {1, 2, 2, 2, 3, 4, 4, 5, 6};
      int x = loc[r.below(9)];
      if (i == 0) { static const int lx[] = {2, 2, 4, 4, 6, 8}; x = even ? lx[r.below(6)] : loc[r.below(9)]; }
      if (c32) x = i == 0 ? (r.below(3) ? 4 : 8) : (r.below(4) ? 2 : r.below(3) ? 4 : 6);
      if (maxvol >= 1024) { static const int lb[] = {2, 4, 4, 6, 8, 8, 10, 12}; int y = lb[r.below(8)]; x = i == 0 && c32 ? y > 5 ? 8 : 4 : (i == 0 && even) || c32 || r.below(3) ? y : y + 1; }
      if (lax >= 0) {
        static const int la[] = {7, 8, 9, 10, 11, 12, 16, 17, 24, 31, 32, 33};
        if (i == lax) { x = la[r.below(12)]; if ((i == 0 && even) || c32) x += x % 2; if (i == 0 && c32) x = (x + 3) / 4 * 4; }
        else if (maxvol < 1024) x = c32 ? i ? 2 : 4 : i == 0 && even ? 2 : r.range(1, 2);
      }
      L[i] = g[i] * x; v *= L[i];
    }
    if (v > maxvol || (maxvol >= 1024 && v < 600 && tries < 50)) { if (tries < 500) continue; for (int i = 0; i < 4; ++i) { L[i] = g[i] * (c32 ? (i ? 2 : 4) : i == 0 ? 2 : 1); } v = 1; for (int i : L) v *= i; }
    p->nodes = n; vol = v;
    for (int i = 0; i < 4; ++i) { p->geom[i] = g[i]; p->latt[i] = L[i]; }
    break;
  }
  p->use_geom_arg = scalar ? 0 : 1;
  p->perm.clear();
  if (!scalar && p->nodes > 1 && r.below(2)) {   // ranks placed arbitrarily on the logical machine
    for (int i = 0; i < p->nodes; ++i) p->perm.push_back(i);
    for (int i = p->nodes - 1; i > 0; --i) std::swap(p->perm[i], p->perm[r.below(i + 1)]);
  }
  p->threads = 1;
  s.k["slow"] = r.below(p->nodes);
}
Phase& Gen::begin_phase(const std::string& variant, int maxnodes, long maxvol, bool multi) {
  s.phases.emplace_back(); p = &s.phases.back();
  sl.clear(); nextslot = 0; maps.clear(); bimaps.clear(); amaps.clear(); abmaps.clear(); sets.clear();
  if (bigvol && r.below(1000) < bigvol) { maxvol = std::max(maxvol * 8, 2048L); s.k["maxsteps"] = 8000000; }
  machine(variant, maxnodes, maxvol, multi);
  return *p;
}
Phase& Gen::same_phase() {
  Phase q = s.phases.back(); q.ops.clear(); s.phases.push_back(q); p = &s.phases.back();
  sl.clear(); maps.clear(); bimaps.clear(); amaps.clear(); abmaps.clear(); sets.clear();
  return *p;
}
long Gen::pick_pat(int kind, bool small) {
  long x = r.below(250) * 4; int m = r.below(4);
  if (m == 2 && (small || r.below(3))) m = r.below(2);
  (void)kind; return x + m;
}
int Gen::newslot(int kind, long pat) {
  int id = nextslot++;
  op("new", {id, kind});
  if (pat < 0) pat = pick_pat(kind);
  op("fill", {id, pat});
  sl[id] = {kind, patmag(kind, pat)};
  return id;
}
void Gen::refill(int id) { long pat = pick_pat(sl[id].kind, true); op("fill", {id, pat}); sl[id].mag = patmag(sl[id].kind, pat); }
void Gen::small(int id, double lim) { if (sl[id].mag > lim) refill(id); }
std::vector<int> Gen::slots_of(int k) { std::vector<int> v; for (auto& x : sl) if (k < 0 || x.second.kind == k) v.push_back(x.first); return v; }
int Gen::anyslot(int k) { auto v = slots_of(k); if (v.empty()) return newslot(k < 0 ? K_R : k); return v[r.below((int)v.size())]; }
int Gen::other(int k, int a, int b, int c) {
  std::vector<int> v; for (int x : slots_of(k)) if (x != a && x != b && x != c) v.push_back(x);
  if (v.empty() || (v.size() < 3 && r.below(5) == 0)) return newslot(k);
  return v[r.below((int)v.size())];
}
std::pair<long, long> Gen::subset(int none) {
  if (r.below(100) < none) return {-1, 0};
  int k = r.below(3) == 0 ? (int)S_RB : r.below(S_N);
  int nc = set_ncol(k, p->latt);
  return {k, r.below(nc)};
}
void Gen::addsub(Op& o, int none) { auto x = subset(none); if (x.first >= 0) { o.a.push_back(x.first); o.a.push_back(x.second); } }

void Gen::op_arith(const std::vector<int>& kinds) {
  int k = pickkind(kinds); int d = anyslot(k), a = other(k, d), b = other(k, d, a);
  auto& D = sl[d]; double ma = sl[a].mag, mb = sl[b].mag; double lim = maxmag(k);
  if (r.below(3) == 0) {      // less usual forms
    long pt = pick_pat(k);
    if (k == K_B) { addsub(op("sasg", {d, a, b, pt, 0})); return; }
    if (k != K_I && r.below(5) == 0) { small(a, 1e6); int f = r.below(4); Op& o = op("prec", {d, a, f}); if (f >= 2) addsub(o); else D.mag = sl[a].mag; D.mag = std::max(D.mag, sl[a].mag); return; }
    if (k == K_I && r.below(4) == 0) { double m = std::max(D.mag, ma); addsub(op("bits", {d, a, r.below(3)})); double q = 1; while (q <= m) q *= 2; D.mag = q; return; }
    bool one = k == K_I || k == K_R || k == K_D; int f = r.below(k == K_I ? 9 : 15);
    if (f >= 12 && k != K_I) f += 5;
    if (one && r.below(3) == 0) f = 12 + r.below(k == K_I ? 4 : 5);
    double m = D.mag, pm = patmag(k, pt);
    switch (f) {
      case 0: m = std::max(m, pm); break;
      case 1: case 2: m += pm; break;
      case 3: m = std::max(m, ma + mb); break;
      case 4: case 5: m += ma + mb; break;
      case 7: case 8: m = std::max(m, ma + pm); break;
      case 9: case 10: case 15: case 16: case 17: case 18: case 19: m *= 2; break;
      case 12: m = std::max(m, 3.0); break; case 13: case 14: m += 3; break;
    }
    if (m > lim) { refill(d); refill(a); refill(b); return; }
    addsub(op("sasg", {d, a, b, pt, f})); D.mag = m; return;
  }
  if (k == K_B) {
    switch (r.below(5)) {
      case 0: addsub(op("and", {d, a, b})); return;
      case 1: addsub(op("or", {d, a, b})); return;
      case 2: addsub(op("not", {d, a})); return;
      case 3: addsub(op("const", {d, pick_pat(k)})); return;
      default: addsub(op("copy", {d, a})); return;
    }
  }
  switch (r.below(11)) {
    case 0: addsub(op("copy", {d, a})); D.mag = std::max(D.mag, ma); break;
    case 1: op("ctor", {d, a}); D.mag = ma; break;
    case 2: { long pt = pick_pat(k); addsub(op("const", {d, pt})); D.mag = std::max(D.mag, patmag(k, pt)); break; }
    case 3: addsub(op("zero", {d})); break;
    case 4: if (ma + mb > lim) { refill(a); return; } addsub(op("add", {d, a, b})); D.mag = std::max(D.mag, ma + mb); break;
    case 5: if (ma + mb > lim) { refill(b); return; } addsub(op("sub", {d, a, b})); D.mag = std::max(D.mag, ma + mb); break;
    case 6: { int c = anyslot(k); if (c == d) c = a; if (ma + mb + sl[c].mag > lim) { refill(c); return; } addsub(op("add3", {d, a, b, c})); D.mag = std::max(D.mag, ma + mb + sl[c].mag); break; }
    case 7: addsub(op("neg", {d, a})); D.mag = std::max(D.mag, ma); break;
    case 8: case 9: if (D.mag + ma > lim) { refill(d); return; } addsub(op(r.below(2) ? "peq" : "meq", {d, a})); D.mag += ma; break;
    case 10: { if (D.mag + ma + mb > lim) { refill(d); return; } Op& o = op("pex", {d, a, b}); auto x = subset(20); o.a.push_back(x.first < 0 ? 0 : x.first); o.a.push_back(x.first < 0 ? 0 : x.second); D.mag += ma + mb; break; }
  }
}
static long fb(Rng& r) { return r.below(2) ? 1 : -1; }
void Gen::op_shift(const std::vector<int>& kinds) {
  int k = pickkind(kinds); int d = anyslot(k), a = other(k, d), b = other(k, d, a);
  auto& D = sl[d]; double ma = sl[a].mag, mb = sl[b].mag; double lim = maxmag(k);
  long i1 = fb(r), i2 = fb(r), i3 = fb(r), d1 = r.below(4), d2 = r.below(4), d3 = r.below(4);
  int c = k == K_B ? r.below(4) : r.below(9);
  switch (c) {
    case 0: case 1: addsub(op("sh", {d, a, i1, d1})); D.mag = std::max(D.mag, ma); break;
    case 2: addsub(op("sh2", {d, a, i1, d1, i2, d2})); D.mag = std::max(D.mag, ma); break;
    case 3: addsub(op("sh3", {d, a, i1, d1, i2, d2, i3, d3})); D.mag = std::max(D.mag, ma); break;
    case 4: if (ma + mb > lim) { refill(a); return; } addsub(op("shadd", {d, a, b, i1, d1})); D.mag = std::max(D.mag, ma + mb); break;
    case 5: if (ma + mb > lim) { refill(b); return; } addsub(op("shexpr", {d, a, b, i1, d1})); D.mag = std::max(D.mag, ma + mb); break;
    case 6: case 7: if (ma + mb > lim) { refill(b); return; } addsub(op("shcomb", {d, a, i1, d1, b, i2, d2})); D.mag = std::max(D.mag, ma + mb); break;
    case 8: { if (D.mag + ma > lim) { refill(d); return; } auto x = subset(30); op("shpeq", {d, a, i1, d1, x.first < 0 ? 0 : x.first, x.first < 0 ? 0 : x.second}); D.mag += ma; break; }
  }
}
void Gen::defmaps(int n) {
  for (int t = 0; t < n; ++t) {
    int id = nextid++;
    int what = r.below(4);
    Geo g(*p);
    if (what < 2) {
      int k = r.below(M_N); std::vector<long> q(4, 0);
      switch (k) {
        case M_DISP: for (int i = 0; i < 4; ++i) q[i] = r.below(3) ? 0 : r.range(-2, 2); if (r.below(2)) { for (int i = 0; i < 4; ++i) q[i] = 0; q[r.below(4)] = r.range(-3, 3); } break;
        case M_REFL: q[0] = r.below(4); break;
        case M_TRANS: case M_TRDISP: {
          std::vector<std::pair<int, int>> ok;
          for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j && p->latt[i] == p->latt[j]) ok.push_back({i, j});
          if (ok.empty()) { k = M_REFL; q[0] = r.below(4); break; }
          auto x = ok[r.below((int)ok.size())]; q[0] = x.first; q[1] = x.second;
          if (k == M_TRDISP) { q[2] = r.below(4); q[3] = r.range(-1, 1); }
          break;
        }
        case M_SHEAR: {
          q[0] = r.below(4); q[1] = r.below(4); if (q[1] == q[0]) q[1] = (q[0] + 1) % 4; q[2] = r.range(-1, 1);
          if (p->latt[q[1]] < 1) q[2] = 0;
          break;
        }
      }
      long qq[4] = {q[0], q[1], q[2], q[3]};
      // the library documents one remote partner per node; others abort
      if (map_multi_peer(g, k, qq, 1) || (what == 1 && map_multi_peer(g, k, qq, -1))) { --t; if (r.below(20) == 0) ++t; continue; }
      op(what == 0 ? "mapdef" : "bimapdef", {id, k, q[0], q[1], q[2], q[3]});
      (what == 0 ? maps : bimaps).push_back(id);
    } else {
      int nd = r.range(1, 4); std::vector<long> q(4, 0);
      for (int i = 0; i < nd; ++i) q[i] = r.range(-2, 2);
      bool bad = false;
      for (int i = 0; i < nd; ++i) { long qq[4] = {0, 0, 0, 0}; qq[i] = q[i]; if (map_multi_peer(g, M_DISP, qq, 1) || map_multi_peer(g, M_DISP, qq, -1)) bad = true; }
      if (bad) { for (int i = 0; i < 4; ++i) q[i] = r.range(-1, 1); if (nd < 4) for (int i = nd; i < 4; ++i) q[i] = 0; }
      op(what == 2 ? "amapdef" : "abmapdef", {id, nd, q[0], q[1], q[2], q[3]});
      (what == 2 ? amaps : abmaps).push_back({id, nd});
    }
  }
}
void Gen::op_map(const std::vector<int>& kinds) {
  int k = pickkind(kinds); int d = anyslot(k), a = other(k, d), b = other(k, d, a);
  auto& D = sl[d]; double ma = sl[a].mag, mb = sl[b].mag; double lim = maxmag(k);
  bool e = k != K_B && r.below(2);
  if (e && ma + mb > lim) { refill(a); return; }
  double m = e ? ma + mb : ma;
  switch (r.below(4)) {
    case 0: if (maps.empty()) { defmaps(1); return; } { long id = maps[r.below((int)maps.size())]; if (e) addsub(op(r.below(2) ? "mapadd" : "mapexpr", {d, a, b, id})); else addsub(op("map", {d, a, id})); } break;
    case 1: if (bimaps.empty()) { defmaps(1); return; } { long id = bimaps[r.below((int)bimaps.size())]; if (e) addsub(op("bimapexpr", {d, a, b, id, fb(r)})); else addsub(op("bimap", {d, a, id, fb(r)})); } break;
    case 2: if (amaps.empty()) { defmaps(1); return; } { auto x = amaps[r.below((int)amaps.size())]; long dr = r.below(x.second); if (e) addsub(op("amapexpr", {d, a, b, x.first, dr})); else addsub(op("amap", {d, a, x.first, dr})); } break;
    case 3: if (abmaps.empty()) { defmaps(1); return; } { auto x = abmaps[r.below((int)abmaps.size())]; long dr = r.below(x.second); if (e) addsub(op("abmapexpr", {d, a, b, x.first, fb(r), dr})); else addsub(op("abmap", {d, a, x.first, fb(r), dr})); } break;
  }
  D.mag = std::max(D.mag, m);
}
void Gen::op_mask(const std::vector<int>& kinds) {
  int k = pickkind(kinds); if (k == K_B) k = K_R;
  int m = anyslot(K_B); int d = anyslot(k), a = other(k, d), b = other(k, d, a);
  if (r.below(2)) { op("cmask", {d, m, a}); sl[d].mag = std::max(sl[d].mag, sl[a].mag); }
  else { addsub(op("where", {d, m, a, b})); sl[d].mag = std::max(sl[d].mag, std::max(sl[a].mag, sl[b].mag)); }
}
void Gen::op_site(const std::vector<int>& kinds) {
  int k = pickkind(kinds); int d = anyslot(k);
  auto c = coord(); long pt;
  if (r.below(4) == 0) {      // a field held on a subset
    int a = other(k, d), b = other(k, d, a); auto x = subset(10); if (x.first < 0) x = {0, 0}; pt = pick_pat(k);
    bool one = k == K_R || k == K_D; int f = k == K_B ? r.below(4) : r.below(k == K_I ? 14 : 20); if (one && r.below(3) == 0) f = 20 + r.below(5);
    double m = 2 * sl[a].mag + sl[b].mag + patmag(k, pt) + 3;
    if (m > maxmag(k)) { refill(a); refill(b); return; }
    op("subf", {d, a, b, f, x.first, x.second, pt}); sl[d].mag = std::max(sl[d].mag, m); return;
  }
  switch (k == K_B ? 2 + r.below(4) : r.below(7)) {
    case 0: op("peek", {d, c[0], c[1], c[2], c[3]}); break;
    case 1: { int b = other(k, d); if (sl[d].mag + sl[b].mag > maxmag(k)) { refill(d); return; } op("peekx", {d, c[0], c[1], c[2], c[3], b}); break; }
    case 2: case 3: pt = pick_pat(k); op("poke", {d, c[0], c[1], c[2], c[3], pt}); sl[d].mag = std::max(sl[d].mag, patmag(k, pt)); if (k != K_B && r.below(2)) op("peek", {d, c[0], c[1], c[2], c[3]}); break;
    case 4: { auto x = subset(25); if (x.first < 0) x = {0, 0}; op("ext", {d, pick_pat(k), x.first, x.second}); break; }
    default: { auto x = subset(25); if (x.first < 0) x = {0, 0}; pt = pick_pat(k); op("ins", {d, pt, x.first, x.second}); sl[d].mag = std::max(sl[d].mag, patmag(k, pt)); break; }
  }
}
void Gen::op_reduce(const std::vector<int>& kinds) {
  int k = pickkind(kinds); if (k == K_B) k = K_R;
  int d = anyslot(k), a = other(k, d), b = other(k, d, a), c = other(k, d, a, b);
  auto lim2 = [&](std::initializer_list<int> v) { for (int x : v) if (!sq_ok(k, sl[x].mag, sl[x].mag)) refill(x); };
  auto lim2a = [&](std::initializer_list<int> v) { for (int x : v) if (!sq_ok(k, 2 * sl[x].mag, 2 * sl[x].mag)) refill(x); };
  auto asize = [&] { return (long)(r.below(3) ? 2 : r.below(8)); };
  auto set1 = [&] { return (long)r.below(S_N); };
  if (r.below(8) == 0) {
    auto x = subset(10); if (x.first < 0) x = {0, 0}; int f = k == K_I ? 0 : r.below(3);
    if (f) lim2({d, a}); else small(d, k == K_I ? 1e6 : 4e6);
    op("subr", {d, a, f, x.first, x.second}); return;
  }
  int n = k == K_I ? r.below(5) : (k == K_R || k == K_D) ? r.below(17) : r.below(13);
  switch (n) {
    case 0: case 1: small(d, k == K_I ? 1e6 : 4e6); addsub(op("sum", {d})); break;
    case 2: small(d, k == K_I ? 1e6 : 2e6); small(a, k == K_I ? 1e6 : 2e6); addsub(op("sumx", {d, a})); break;
    case 3: small(d, k == K_I ? 1e6 : 4e6); op("smulti", {d, set1()}); break;
    case 4: small(d, k == K_I ? 1e6 : 2e6); small(a, k == K_I ? 1e6 : 2e6); if (!scalar && r.below(2)) op("smultia", {d, set1(), a, 1 + r.below(4)}); else op("smultix", {d, set1(), a}); break;
    case 5: lim2({d}); addsub(op("norm2", {d})); break;
    case 6: small(d, 64); small(a, 64); if (!sq_ok(k, sl[d].mag + sl[a].mag, sl[d].mag + sl[a].mag)) { refill(d); refill(a); if (!sq_ok(k, 16, 16)) return; } if (r.below(2)) addsub(op("norm2x", {d, a})); else addsub(op(r.below(2) ? "ipx" : "iprx", {d, a, r.below(3)})); break;
    case 7: lim2({d, a}); addsub(op("ip", {d, a})); break;
    case 8: lim2({d, a}); addsub(op("ipr", {d, a})); break;
    case 9: lim2({d}); op("ln2", {d, set1()}); break;
    case 10: lim2a({d, a}); addsub(op("norm2a", {d, a, asize()})); break;
    case 11: lim2a({d, a, b, c}); addsub(op("ipa", {d, a, b, c, asize()})); break;
    case 12: lim2a({d, a, b, c}); addsub(op("ipra", {d, a, b, c, asize()})); break;
    case 13: op("gmax", {d}); break;
    case 14: op("gmin", {d}); break;
    case 15: small(d, 2e6); small(a, 2e6); op("gmaxx", {d, a}); break;
    case 16: op("isf", {d, site(), r.below(6), r.below(4), r.below(2)}); break;
  }
  if (n >= 5 && n <= 12 && r.below(5) == 0) { if (r.below(2)) { op("fill", {d, r.below(250) * 4 + 3}); sl[d].mag = 8; } op("isf", {d, site(), r.below(6), r.below(30), r.below(2)}); }
}
}
