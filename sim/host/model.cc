// Reference model: plain arrays over the whole lattice in lexicographic order.
#include "host.h"
#include <cmath>
#include <cfloat>
#include <limits>
namespace sim {
using namespace simf;
Geo::Geo(const Phase& p) {
  nodes = p.nodes;
  for (int i = 0; i < 4; ++i) { L[i] = p.latt[i]; G[i] = p.geom[i]; S[i] = L[i] / G[i]; }
  perm = p.perm;
  if ((int)perm.size() != nodes) { perm.resize(nodes); for (int i = 0; i < nodes; ++i) perm[i] = i; }
  iperm.resize(nodes); for (int i = 0; i < nodes; ++i) iperm[perm[i]] = i;
}
int Geo::owner(const int* c) const {
  int l = 0; for (int i = 3; i >= 0; --i) l = l * G[i] + c[i] / S[i];
  return iperm[l];
}
bool map_multi_peer(const Geo& g, int k, const long* p, int sign) {
  long vol = (long)g.L[0] * g.L[1] * g.L[2] * g.L[3];
  std::vector<int> src(g.nodes, -1), dst(g.nodes, -1);
  for (long l = 0; l < vol; ++l) {
    int c[4], o[4]; unlex(l, g.L, c); map_fn(k, p, sign, c, g.L, o);
    int a = g.owner(c), b = g.owner(o);          // a receives from b
    if (a == b) continue;
    if (src[a] >= 0 && src[a] != b) return true;
    if (dst[b] >= 0 && dst[b] != a) return true;
    src[a] = b; dst[b] = a;
  }
  // mixed: a node with a remote source must send to exactly one node; covered above
  return false;
}
void Model::start(const Phase& p) {
  model_ext_start(); ph = &p; vol = 1; slots.clear(); maps.clear(); bimaps.clear(); amaps.clear(); abmaps.clear(); ex.clear();
  for (int i = 0; i < 4; ++i) { L[i] = p.latt[i]; vol *= L[i]; }
}
VP Model::get(int s) const { auto i = slots.find(s); if (i == slots.end()) sim_bug("model: slot %d missing", s); return i->second.v; }
void Model::set(int s, int kind, Vec v) { slots[s] = {kind, std::make_shared<const Vec>(std::move(v))}; }
bool Model::insub(long k, long col, long site) const {
  if (k < 0 || k == S_ALL) return true;
  int c[4]; unlex(site, L, c); return set_color((int)k, c, L) == col;
}
Vec Model::pattern(int kind, long pat) const {
  int w = words(kind); Vec v(vol * w);
  for (long s = 0; s < vol; ++s) for (int i = 0; i < w; ++i) v[s * w + i] = fillval(pat, s, i, kind);
  return v;
}
Vec Model::mapv(const Vec& a, int w, const MapDef& m, int sign) const {
  Vec r(a.size());
  for (long s = 0; s < vol; ++s) {
    int c[4], o[4]; unlex(s, L, c); map_fn(m.k, m.p, sign, c, L, o);
    long t = lex(o, L);
    for (int i = 0; i < w; ++i) r[s * w + i] = a[t * w + i];
  }
  return r;
}
Vec Model::shiftv(const Vec& a, int w, int isign, int dir) const {
  MapDef m; m.k = M_DISP; for (long& x : m.p) x = 0; m.p[dir] = 1;
  return mapv(a, w, m, isign > 0 ? 1 : -1);
}
Vec Model::amapv(const Vec& a, int w, const MapDef& d, int sign, int dir) const {
  MapDef m; m.k = M_DISP; for (long& x : m.p) x = 0; m.p[dir & 3] = d.p[dir];
  return mapv(a, w, m, sign);
}
void Model::assign(const Op& o, size_t i, int slot, Vec r, int add) {
  long k = o.arg(i, -1), col = o.arg(i + 1);
  int kind = slots.at(slot).kind, w = words(kind);
  if (k < 0 && !add) { set(slot, kind, std::move(r)); return; }
  Vec d = *get(slot);
  for (long s = 0; s < vol; ++s)
    if (insub(k, col, s)) for (int j = 0; j < w; ++j) { double& x = d[s * w + j]; x = add ? x + add * r[s * w + j] : r[s * w + j]; }
  set(slot, kind, std::move(d));
}
static Vec comb(const Vec& a, double x, const Vec& b, double y) { Vec r(a.size()); for (size_t i = 0; i < r.size(); ++i) r[i] = x * a[i] + y * b[i]; return r; }

bool Model::step(const Op& o, Expect& e) {
  const std::string& n = o.name;
  auto A = [&](size_t i) { return (int)o.arg(i); };
  if (n == "new") { set(A(0), A(1), Vec(vol * words(A(1)), 0.0)); return true; }
  if (n == "del") { slots.erase(A(0)); return true; }
  if (n == "audit") { e.fields = slots; return true; }
  if (n == "bcast") { e.has_values = true; e.values = {(double)(int)o.arg(0), o.arg(0) * 0.5}; return true; }
  if (n == "bcaststr") { e.has_string = true; e.str = o.s.at(0); return true; }
  if (n == "gsum") {
    double x = 0, y = 0, z = 0;
    for (int k = 0; k < ph->nodes; ++k) { x += (int)(k * o.arg(0) + 1); y += k * 0.25 + 1; z += k * 0.5 + 1; }
    e.has_values = true; e.values = {x, y, z}; return true;
  }
  if (n == "mkset" || n == "setcopy" || n == "subinfo" || n == "layinfo") return true;
  if (n == "mapdef" || n == "bimapdef" || n == "amapdef" || n == "abmapdef") {
    MapDef m; m.k = A(1); for (int i = 0; i < 4; ++i) m.p[i] = o.arg(2 + i);
    (n == "mapdef" ? maps : n == "bimapdef" ? bimaps : n == "amapdef" ? amaps : abmaps)[A(0)] = m; return true;
  }
  if (model_ext(*this, o, e)) return true;
  if (o.a.empty() || !slots.count(A(0))) return false;
  int d = A(0), kind = slots[d].kind, w = words(kind);
  bool cplx = kinfo(kind).cplx;
  auto F = [&](size_t i) -> const Vec& { return *get(A(i)); };
  auto out = [&](Vec v) { e.has_values = true; e.values = std::move(v); };
  auto done = [&] { e.fields[d] = slots[d]; return true; };
  if (n == "coord") { Vec v(vol); for (long s = 0; s < vol; ++s) { int c[4]; unlex(s, L, c); v[s] = c[A(1)]; } set(d, kind, v); return done(); }
  if (n == "fill") { set(d, kind, pattern(kind, o.arg(1))); return done(); }
  if (n == "copy") { assign(o, 2, d, F(1)); return done(); }
  if (n == "ctor") { set(d, kind, F(1)); return done(); }
  if (n == "const") { Vec v(vol * w); for (long s = 0; s < vol; ++s) for (int i = 0; i < w; ++i) v[s * w + i] = fillval(o.arg(1), 5, i, kind); assign(o, 2, d, v); return done(); }
  if (n == "zero") { assign(o, 1, d, Vec(vol * w, 0.0)); return done(); }
  if (n == "add") { assign(o, 3, d, comb(F(1), 1, F(2), 1)); return done(); }
  if (n == "sub") { assign(o, 3, d, comb(F(1), 1, F(2), -1)); return done(); }
  if (n == "add3") { assign(o, 4, d, comb(comb(F(1), 1, F(2), 1), 1, F(3), -1)); return done(); }
  if (n == "neg") { assign(o, 2, d, comb(F(1), -1, F(1), 0)); return done(); }
  if (n == "peq") { assign(o, 2, d, F(1), 1); return done(); }
  if (n == "meq") { assign(o, 2, d, F(1), -1); return done(); }
  if (n == "pex") { assign(o, 3, d, comb(F(1), 1, F(2), 1), 1); return done(); }
  if (n == "and" || n == "or") { Vec r(vol); for (long s = 0; s < vol; ++s) r[s] = n == "and" ? (F(1)[s] != 0 && F(2)[s] != 0) : (F(1)[s] != 0 || F(2)[s] != 0); assign(o, 3, d, r); return done(); }
  if (n == "not") { Vec r(vol); for (long s = 0; s < vol; ++s) r[s] = F(1)[s] == 0; assign(o, 2, d, r); return done(); }
  if (n == "sasg") {
    Vec c(vol * w); for (long s = 0; s < vol; ++s) for (int i = 0; i < w; ++i) c[s * w + i] = fillval(o.arg(3), 5, i, kind);
    switch (A(4)) {
      case 0: assign(o, 5, d, c); break;
      case 1: assign(o, 5, d, c, 1); break;
      case 2: assign(o, 5, d, c, -1); break;
      case 3: assign(o, 5, d, comb(F(1), 1, F(2), 1)); break;
      case 4: assign(o, 5, d, comb(F(1), 1, F(2), 1), 1); break;
      case 5: assign(o, 5, d, comb(F(1), 1, F(2), 1), -1); break;
      case 6: assign(o, 5, d, Vec(vol * w, 0.0)); break;
      case 7: assign(o, 5, d, comb(c, 1, F(1), 1)); break;
      case 8: assign(o, 5, d, comb(F(1), 1, c, -1)); break;
      case 9: case 15: assign(o, 5, d, comb(F(0), 2, F(0), 0)); break;
      case 12: assign(o, 5, d, Vec(vol * w, 3.0)); break;
      case 13: assign(o, 5, d, Vec(vol * w, 3.0), 1); break;
      case 14: assign(o, 5, d, Vec(vol * w, 3.0), -1); break;
      case 11: assign(o, 5, d, comb(F(0), -1, F(0), 0)); break;
      default: assign(o, 5, d, comb(F(0), -2, F(0), 0)); break;
    }
    return done();
  }
  if (n == "bits") {
    Vec r(vol); for (long s = 0; s < vol; ++s) { int x = (int)F(0)[s], y = (int)F(1)[s]; r[s] = A(2) == 0 ? x | y : A(2) == 1 ? x & y : x ^ y; }
    assign(o, 3, d, r); return done();
  }
  if (n == "prec") { assign(o, 3, d, F(1)); return done(); }
  if (n == "subf") {
    Vec c(vol * w); for (long s = 0; s < vol; ++s) for (int i = 0; i < w; ++i) c[s * w + i] = fillval(o.arg(6), 5, i, kind);
    switch (A(3)) {
      case 0: assign(o, 4, d, F(1)); break;
      case 1: assign(o, 4, d, c); break;
      case 2: case 3: assign(o, 4, d, F(2)); break;
      case 4: case 8: assign(o, 4, d, comb(F(1), 1, F(2), 1)); break;
      case 5: assign(o, 4, d, comb(F(1), 1, F(2), -1)); break;
      case 6: assign(o, 4, d, Vec(vol * w, 0.0)); break;
      case 7: assign(o, 4, d, comb(F(1), 0, F(2), -1)); break;
      case 9: assign(o, 4, d, comb(F(1), 1, c, 1)); break;
      case 10: assign(o, 4, d, F(2)); break;
      case 11: assign(o, 4, d, comb(F(1), 1, c, -1)); break;
      case 12: assign(o, 4, d, comb(c, 1, F(2), 1)); break;
      case 13: assign(o, 4, d, comb(F(1), 1, F(2), -1)); break;
      case 20: assign(o, 4, d, Vec(vol * w, 3.0)); break;
      case 21: assign(o, 4, d, comb(F(1), 1, Vec(vol * w, 3.0), 1)); break;
      case 22: assign(o, 4, d, comb(F(1), 1, Vec(vol * w, 3.0), -1)); break;
      default: assign(o, 4, d, comb(F(1), -2, F(1), 0)); break;
    }
    return done();
  }
  if (n == "sh") { assign(o, 4, d, shiftv(F(1), w, A(2), A(3))); return done(); }
  if (n == "sh2") { assign(o, 6, d, shiftv(shiftv(F(1), w, A(2), A(3)), w, A(4), A(5))); return done(); }
  if (n == "sh3") { assign(o, 8, d, shiftv(shiftv(shiftv(F(1), w, A(2), A(3)), w, A(4), A(5)), w, A(6), A(7))); return done(); }
  if (n == "shadd") { assign(o, 5, d, comb(F(1), 1, shiftv(F(2), w, A(3), A(4)), 1)); return done(); }
  if (n == "shexpr") { assign(o, 5, d, shiftv(comb(F(1), 1, F(2), 1), w, A(3), A(4))); return done(); }
  if (n == "shcomb") { assign(o, 7, d, comb(shiftv(F(1), w, A(2), A(3)), 1, shiftv(F(4), w, A(5), A(6)), -1)); return done(); }
  if (n == "shpeq") { assign(o, 4, d, shiftv(F(1), w, A(2), A(3)), 1); return done(); }
  if (n == "map") { assign(o, 3, d, mapv(F(1), w, maps.at(A(2)), 1)); return done(); }
  if (n == "mapadd") { assign(o, 4, d, comb(F(1), 1, mapv(F(2), w, maps.at(A(3)), 1), 1)); return done(); }
  if (n == "mapexpr") { assign(o, 4, d, mapv(comb(F(1), 1, F(2), -1), w, maps.at(A(3)), 1)); return done(); }
  if (n == "bimap") { assign(o, 4, d, mapv(F(1), w, bimaps.at(A(2)), A(3))); return done(); }
  if (n == "bimapexpr") { assign(o, 5, d, mapv(comb(F(1), 1, F(2), -1), w, bimaps.at(A(3)), A(4))); return done(); }
  if (n == "amap") { assign(o, 4, d, amapv(F(1), w, amaps.at(A(2)), 1, A(3))); return done(); }
  if (n == "amapexpr") { assign(o, 5, d, amapv(comb(F(1), 1, F(2), 1), w, amaps.at(A(3)), 1, A(4))); return done(); }
  if (n == "abmap") { assign(o, 5, d, amapv(F(1), w, abmaps.at(A(2)), A(3), A(4))); return done(); }
  if (n == "abmapexpr") { assign(o, 6, d, amapv(comb(F(1), 1, F(2), 1), w, abmaps.at(A(3)), A(4), A(5))); return done(); }
  if (n == "cmask") {
    Vec r = F(0); const Vec& m = F(1); const Vec& s = F(2);
    for (long x = 0; x < vol; ++x) if (m[x] != 0) for (int j = 0; j < w; ++j) r[x * w + j] = s[x * w + j];
    set(d, kind, r); return done();
  }
  if (n == "where") {
    Vec r(vol * w); const Vec& m = F(1);
    for (long x = 0; x < vol; ++x) for (int j = 0; j < w; ++j) r[x * w + j] = m[x] != 0 ? F(2)[x * w + j] : F(3)[x * w + j];
    assign(o, 4, d, r); return done();
  }
  auto site = [&](size_t i) { int c[4]; for (int m = 0; m < 4; ++m) c[m] = A(i + m); return lex(c, L); };
  if (n == "peek") { long s = site(1); out(Vec(F(0).begin() + s * w, F(0).begin() + (s + 1) * w)); return done(); }
  if (n == "peekx") { long s = site(1); Vec v(w); for (int j = 0; j < w; ++j) v[j] = F(0)[s * w + j] + F(5)[s * w + j]; out(v); return done(); }
  if (n == "poke") { long s = site(1); Vec v = F(0); for (int j = 0; j < w; ++j) v[s * w + j] = fillval(o.arg(5), 3, j, kind); set(d, kind, v); return done(); }
  if (n == "ext") {
    Vec v = pattern(kind, o.arg(1));
    for (long s = 0; s < vol; ++s) if (insub(o.arg(2), o.arg(3), s)) for (int j = 0; j < w; ++j) v[s * w + j] = F(0)[s * w + j];
    e.fields[-1] = {kind, std::make_shared<const Vec>(std::move(v))}; return done();
  }
  if (n == "ins") {
    Vec p = pattern(kind, o.arg(1)), v = F(0);
    for (long s = 0; s < vol; ++s) if (insub(o.arg(2), o.arg(3), s)) for (int j = 0; j < w; ++j) v[s * w + j] = p[s * w + j];
    set(d, kind, v); return done();
  }
  // ---- reductions
  auto sumk = [&](const Vec& a, long k, long c) { Vec r(w, 0.0); for (long s = 0; s < vol; ++s) if (insub(k, c, s)) for (int j = 0; j < w; ++j) r[j] += a[s * w + j]; return r; };
  auto ipk = [&](const Vec& a, const Vec& b, long k, long c) {
    double re = 0, im = 0;
    for (long s = 0; s < vol; ++s) if (insub(k, c, s)) {
      if (!cplx) for (int j = 0; j < w; ++j) re += a[s * w + j] * b[s * w + j];
      else for (int j = 0; j < w; j += 2) {
        double ar = a[s * w + j], ai = a[s * w + j + 1], br = b[s * w + j], bi = b[s * w + j + 1];
        re += ar * br + ai * bi; im += ar * bi - ai * br;
      }
    }
    Vec r{re}; if (cplx) r.push_back(im); return r;
  };
  if (n == "sum") { out(sumk(F(0), o.arg(1, -1), o.arg(2))); return done(); }
  if (n == "sumx") { out(sumk(comb(F(0), 1, F(1), -1), o.arg(2, -1), o.arg(3))); return done(); }
  if (n == "smulti" || n == "smultix") {
    Vec r, a = n == "smulti" ? F(0) : comb(F(0), 1, F(2), 1);
    for (int c = 0; c < set_ncol(A(1), L); ++c) { Vec t = sumk(a, o.arg(1), c); r.insert(r.end(), t.begin(), t.end()); }
    out(r); return done();
  }
  if (n == "smultia") {
    int nc = set_ncol(A(1), L); Vec r{(double)nc, (double)A(3)};
    for (int c = 0; c < nc; ++c) for (int k = 0; k < A(3); ++k) { Vec t = sumk(k % 2 ? F(2) : F(0), o.arg(1), c); r.insert(r.end(), t.begin(), t.end()); }
    out(r); return done();
  }
  if (n == "norm2") { out({ipk(F(0), F(0), o.arg(1, -1), o.arg(2))[0]}); return done(); }
  if (n == "norm2x") { Vec a = comb(F(0), 1, F(1), -1); out({ipk(a, a, o.arg(2, -1), o.arg(3))[0]}); return done(); }
  if (n == "ipx" || n == "iprx") {
    Vec m = comb(F(0), 1, F(1), -1), p = comb(F(0), 1, F(1), 1); long k = o.arg(3, -1), c = o.arg(4);
    Vec v = A(2) == 0 ? ipk(F(0), m, k, c) : A(2) == 1 ? ipk(m, F(1), k, c) : ipk(m, p, k, c);
    if (n == "iprx") v.resize(1);
    out(v); return done();
  }
  if (n == "subr") {
    if (A(2) == 0) out(sumk(F(0), o.arg(3), o.arg(4))); else out(A(2) == 1 ? ipk(F(0), F(1), o.arg(3), o.arg(4)) : ipk(F(1), F(0), o.arg(3), o.arg(4)));
    return done();
  }
  if (n == "ip") { out(ipk(F(0), F(1), o.arg(2, -1), o.arg(3))); return done(); }
  if (n == "ipr") { out({ipk(F(0), F(1), o.arg(2, -1), o.arg(3))[0]}); return done(); }
  if (n == "ln2") { Vec r; for (int c = 0; c < set_ncol(A(1), L); ++c) r.push_back(ipk(F(0), F(0), o.arg(1), c)[0]); out(r); return done(); }
  if (n == "norm2a") { out({(A(2) + 1) / 2 * ipk(F(0), F(0), o.arg(3, -1), o.arg(4))[0] + A(2) / 2 * ipk(F(1), F(1), o.arg(3, -1), o.arg(4))[0]}); return done(); }
  if (n == "ipa" || n == "ipra") {
    Vec a = ipk(F(0), F(2), o.arg(5, -1), o.arg(6)), b = ipk(F(1), F(3), o.arg(5, -1), o.arg(6));
    for (size_t i = 0; i < a.size(); ++i) a[i] = (A(4) + 1) / 2 * a[i] + A(4) / 2 * b[i];
    if (n == "ipra") a.resize(1);
    out(a); return done();
  }
  if (n == "gmax" || n == "gmin" || n == "gmaxx") {
    Vec a = n == "gmaxx" ? comb(F(0), 1, F(1), -1) : F(0); double x = a[0];
    for (double y : a) x = n == "gmin" ? std::min(x, y) : std::max(x, y);
    out({x}); return done();
  }
  if (n == "isf") {
    bool an = false, ai = false, af = true, am = true;
    long st = o.arg(1); int wd = A(3) % w; bool f32 = kinfo(kind).w == W_FLOAT;
    for (long s = 0; s < vol; ++s) for (int j = 0; j < w; ++j) {
      double x = F(0)[s * w + j];
      if (s == st && j == wd) switch (A(2)) {
        case 1: x = NAN; break; case 2: x = INFINITY; break; case 3: x = -INFINITY; break;
        case 4: x = f32 ? (double)std::numeric_limits<float>::denorm_min() : std::numeric_limits<double>::denorm_min(); break;
        case 5: x = 0; break; }
      int c = f32 ? std::fpclassify((float)x) : std::fpclassify(x);
      an |= c == FP_NAN; ai |= c == FP_INFINITE; af &= c != FP_NAN && c != FP_INFINITE; am &= c == FP_NORMAL;
    }
    out({(double)an, (double)ai, (double)af, (double)am}); return done();
  }
  return false;
}
void Model::run_all() {
  ex.resize(ph->ops.size());
  for (size_t i = 0; i < ph->ops.size(); ++i)
    if (!step(ph->ops[i], ex[i])) sim_bug("model cannot handle op %zu %s", i, ph->ops[i].name.c_str());
}
}
