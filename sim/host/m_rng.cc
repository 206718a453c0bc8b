// Random numbers: exact model of the congruential generator's documented
// definition, relational model of the second (RANNYU) generator.
#include "ext.h"
#include <cmath>
namespace sim {
using namespace simf;
static const uint64_t MASK = (1ull << 47) - 1;
static const uint64_t A = (1222ull << 36) | (1498ull << 24) | (712ull << 12) | 1645ull;
static uint64_t g_state;
static std::map<long, uint64_t> g_saved;          // survives lives of the machine, like the user's checkpoint
static uint64_t mulm(uint64_t a, uint64_t b) { return (a * b) & MASK; }
static uint64_t powm(uint64_t a, uint64_t n) { uint64_t r = 1; for (; n; n >>= 1, a = mulm(a, a)) if (n & 1) r = mulm(r, a); return r; }
static float tofloat(uint64_t s) {
  volatile float t12 = 1.0f / 4096, x = t12 * (float)(s & 4095);
  x = t12 * ((float)((s >> 12) & 4095) + x);
  x = t12 * ((float)((s >> 24) & 4095) + x);
  return (float)(1.0 / 2048.0) * ((float)(s >> 36) + x);
}
// uniform numbers for every site; advances the state
static Vec uniform(Model& m, int w) {
  uint64_t an = powm(A, m.vol + 1);
  Vec v(m.vol * w); uint64_t a = A;
  for (long s = 0; s < m.vol; ++s, a = mulm(a, A)) {
    uint64_t k = mulm(g_state, a);
    for (int j = 0; j < w; ++j, k = mulm(k, an)) v[s * w + j] = tofloat(k);
  }
  g_state = mulm(g_state, powm(an, w));
  return v;
}
static Vec words4(uint64_t s) { return {(double)(s & 4095), (double)((s >> 12) & 4095), (double)((s >> 24) & 4095), (double)(s >> 36)}; }
void model_rng_start() { g_state = 11; }
bool model_rng(Model& m, const Op& o, Expect& e) {
  const std::string& n = o.name;
  if (n == "setrn") { g_state = 0; for (int i = 3; i >= 0; --i) g_state = (g_state << 12) | (uint64_t)o.arg(i); return true; }
  if (n == "setrni") { g_state = (uint64_t)o.arg(0); return true; }
  if (n == "savern") { e.has_values = true; e.values = words4(g_state); return true; }
  if (n == "rnsave" || n == "rnbsave" || n == "rnxsave") { g_saved[o.arg(0)] = g_state; return true; }
  if (n == "rnload" || n == "rnbload" || n == "rnxload") { g_state = g_saved.at(o.arg(0)); return true; }
  if (n == "rndsc") {
    int w = Model::words((int)o.arg(0)); e.has_values = true;
    for (int j = 0; j < w; ++j) { g_state = mulm(g_state, A); e.values.push_back(tofloat(g_state)); }
    return true;
  }
  if (n == "rnd" || n == "gau") {
    int d = (int)o.arg(0); MField& f = m.slots.at(d); int kind = f.kind, w = Model::words(kind); double tol = f.tol;
    Vec r;
    if (n == "rnd") r = uniform(m, w);
    else {
      Vec a = uniform(m, w), b = uniform(m, w); r.resize(a.size()); tol = 1e-4;
      bool dbl = kinfo(kind).w == W_DOUBLE;
      int st = kinfo(kind).cplx ? 2 : 1;
      for (size_t i = 0; i < r.size(); i += st) {
        double q = dbl ? std::sqrt(-2.0 * std::log(a[i])) : (double)std::sqrt(-2.0f * std::log((float)a[i]));
        double t = dbl ? b[i] * 6.283185307 : (double)((float)b[i] * 6.283185307f);
        r[i] = q * std::cos(t); if (st == 2) r[i + 1] = q * std::sin(t);
      }
    }
    m.assign(o, 1, d, r); m.slots.at(d).tol = tol; e.fields[d] = m.slots.at(d);
    return true;
  }
  return n == "nyset" || n == "nysave" || n == "nyload" || n == "nyrnd" || n == "nystate";
}
// The second generator: what matters is that equal positions in a stream give equal
// numbers, on every node, through every interface, after every save and restore.
struct RngOracle : PlainOracle {
  struct Pos { std::string origin; long n = 0; };
  struct At { Pos p; long cnt = 0; bool state = false; };
  std::vector<At> at; std::map<long, Pos> saved;
  std::map<std::pair<std::string, long>, double> val;
  std::map<std::pair<std::string, long>, Vec> st;
  void phase_begin(int ph) override {
    PlainOracle::phase_begin(ph);
    at.clear(); Pos cur; cur.origin = "default";
    for (const Op& o : g_spec->phases[ph].ops) {
      At a; a.p = cur;
      if (o.name == "nyset") {
        char b[80]; snprintf(b, sizeof b, "%ld,%ld,%ld,%ld", o.arg(0), o.arg(1), o.arg(2), o.arg(3)); cur.origin = b; cur.n = 0;
        Vec v; for (int i = 0; i < 4; ++i) v.push_back((double)o.arg(i)); st[{b, 0}] = v;
      }
      else if (o.name == "nysave") { saved[o.arg(0)] = cur; a.state = true; }
      else if (o.name == "nyload") cur = saved.at(o.arg(0));
      else if (o.name == "nyrnd") { a.cnt = o.arg(0); cur.n += a.cnt; }
      else if (o.name == "nystate") { a.p = saved.at(o.arg(0)); a.cnt = o.arg(1); }
      at.push_back(a);
    }
  }
  void on_values(int node, int op, const double* v, int n) override {
    const At& a = at.at(op);
    if (a.state) {
      Vec x(v, v + n);
      auto i = st.emplace(std::make_pair(a.p.origin, a.p.n), x);
      if (n != 4) violation("rng.state", "saved generator state has %d numbers", n);
      if (i.first->second != x) violation("rng.state", "saved state %ld draws after %s is %g %g %g %g, expected %g %g %g %g", a.p.n, a.p.origin.c_str(), x[0], x[1], x[2], x[3],
        i.first->second[0], i.first->second[1], i.first->second[2], i.first->second[3]);
      return;
    }
    if (a.cnt) {
      if (n != a.cnt) sim_bug("rannyu values");
      for (int k = 0; k < n; ++k) {
        auto i = val.emplace(std::make_pair(a.p.origin, a.p.n + k), v[k]);
        if (i.first->second != v[k]) violation("rng.stream", "draw %ld after %s is %.17g, was %.17g before", a.p.n + k + 1, a.p.origin.c_str(), v[k], i.first->second);
      }
      return;
    }
    PlainOracle::on_values(node, op, v, n);
  }
};
Oracle* rng_oracle() { return new RngOracle; }

// ---- generators ---------------------------------------------------------------------
static void threads(Gen& g) { if (g.p->variant.find("omp") != std::string::npos || g.p->variant.find("qmt") != std::string::npos) g.p->threads = g.r.range(1, 5); }
static void op_draw(Gen& g, const std::vector<int>& k) {
  switch (g.r.below(8)) {
    case 0: g.op("rndsc", {(long)g.pickkind({K_R, K_D, K_C, K_V, K_M, K_S, K_F, K_CD})}); break;
    case 1: case 2: { Op& o = g.op("gau", {g.anyslot(g.pickkind(k))}); g.addsub(o); break; }
    default: { Op& o = g.op("rnd", {g.anyslot(g.pickkind(k))}); g.addsub(o); }
  }
}
static void setseed(Gen& g) {
  if (g.r.below(3) == 0) { static const long s[] = {11, 0, 1, 2147483647, 4096, 16777216, 1234567}; g.op("setrni", {s[g.r.below(7)]}); return; }
  std::vector<long> w;
  for (int i = 0; i < 4; ++i) { long top = i == 3 ? 2047 : 4095; w.push_back(g.r.below(6) == 0 ? (g.r.below(2) ? top : 0) : g.r.below((int)top + 1)); }
  g.op("setrn", w);
}
Spec g_C07(Gen& g) {
  g.sched(); g.bigvol = 30;
  g.begin_phase(pickv(g, {"ps-cb2", "ps-lex", "ps-cb3d", "ps-cb2-omp", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32", "sc-cb2-omp"}), 12, g.tier ? 512 : 256);
  threads(g);
  auto k = somekinds(g, FLTK, 3);
  if (g.vol > 64) for (int& x : k) if (x == K_P) x = K_F;
  for (int x : k) g.newslot(x);
  int n = g.r.range(5, g.tier ? 20 : 12);
  if (g.r.below(3)) setseed(g);
  for (int i = 0; i < n; ++i) { op_draw(g, k); if (g.r.below(3) == 0) g.op("savern"); else if (g.r.below(12) == 0) setseed(g); }
  g.op("savern"); finish(g); return g.s;
}
Spec g_C08(Gen& g) {
  g.sched();
  int np = g.r.range(1, 3); std::map<long, char> saved; std::set<long> ny; long next = 0;
  for (int ph = 0; ph < np; ++ph) {
    g.begin_phase(pickv(g, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-cb2", "sc-cb2-omp"}), 8, 128);
    threads(g);
    auto k = somekinds(g, {K_R, K_D, K_C, K_V, K_M, K_F}, 2);
    for (int x : k) g.newslot(x);
    int n = g.r.range(8, g.tier ? 30 : 18);
    for (int i = 0; i < n; ++i) switch (g.r.below(12)) {
      case 0: setseed(g); break;
      case 1: case 2: { long id = next++ % 6; char how = "mbx"[g.r.below(g.scalar ? 2 : 3)]; g.op(how == 'm' ? "rnsave" : how == 'b' ? "rnbsave" : "rnxsave", {id}); saved[id] = how; break; }
      case 3: case 4: {
        std::vector<long> c; for (auto& x : saved) if (x.second != 'x' || !g.scalar) c.push_back(x.first);
        if (c.empty()) break;
        long id = c[g.r.below((int)c.size())]; char how = saved[id];
        g.op(how == 'm' ? "rnload" : how == 'b' ? "rnbload" : "rnxload", {id}); g.op("savern"); break;
      }
      case 5: g.op("nyrnd", {g.r.range(1, 5)}); break;
      case 6: { long id = g.r.below(4); g.op("nysave", {id}); ny.insert(id); break; }
      case 7: if (!ny.empty()) { auto it = ny.begin(); std::advance(it, g.r.below((int)ny.size())); if (g.r.below(2)) g.op("nyload", {*it}); else g.op("nystate", {*it, g.r.range(1, 6)}); } break;
      case 8: if (g.r.below(2)) g.op("nyset", {g.r.below(4096), g.r.below(4096), g.r.below(4096), g.r.below(4096)}); else g.op("nyrnd", {g.r.range(1, 5)}); break;
      default: op_draw(g, k);
    }
    g.op("savern"); g.op("nyrnd", {2}); finish(g);
  }
  return g.s;
}
}
