// Linear-algebra statements: reference interpreter of the postfix programs in
// common/lin.h, and the workload of C10.
#include "ext.h"
#include "gen.h"
#include "../common/lin.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <sstream>
namespace sim {
namespace {
typedef std::complex<double> Z;
struct Form { const char* name; char d; const char* asg; std::vector<std::string> prog; std::string opnd; bool single; int sect; };
std::vector<std::string> split(const char* s) { std::vector<std::string> v; std::istringstream i(s); std::string t; while (i >> t) v.push_back(t); return v; }
const char LET[] = "?xyuvhkwrpqstAC";             // operand letters by argument position
const char LETK[] = "?FFMMHHVVPPSSAC";
const std::vector<Form>& forms() {
  static std::vector<Form> f;
  if (f.empty()) {
    int sect = 0; bool single = false;
    auto add = [&](const char* n, const char* d, const char* asg, const char* rpn) {
      Form x; x.name = n; x.d = d[0]; x.asg = asg; x.prog = split(rpn); x.single = single; x.sect = sect;
      for (auto& t : x.prog) if (t.size() == 1 && strchr(LET, t[0]) && x.opnd.find(t[0]) == std::string::npos) x.opnd += t[0];
      f.push_back(x);
    };
#define FA(name, D, asg, expr, rpn) add(#name, #D, #asg, rpn);
    LIN_BLAS(FA) sect = 1; LIN_CBLAS(FA) sect = 2; LIN_G5(FA) sect = 3; LIN_MAT(FA) sect = 4; LIN_SPIN(FA) sect = 5; single = true; LIN_MISC(FA)
  }
  return f;
}
const Form& form(const std::string& n) { for (auto& f : forms()) if (n == f.name) return f; sim_bug("no linear algebra form %s", n.c_str()); }

struct Shape { int sr, sc, cr, cc; bool real; };
Shape shape(char l) {
  switch (l) { case 'F': return {4, 1, 3, 1, false}; case 'H': return {2, 1, 3, 1, false}; case 'V': return {1, 1, 3, 1, false}; case 'M': return {1, 1, 3, 3, false};
    case 'P': return {4, 4, 3, 3, false}; case 'S': return {4, 4, 1, 1, false}; case 'A': return {1, 1, 1, 1, true}; default: return {1, 1, 1, 1, false}; }
}
int kind_of(char l, bool dbl) {
  switch (l) { case 'F': return dbl ? K_FD : K_F; case 'H': return dbl ? K_HD : K_H; case 'V': return dbl ? K_VD : K_V; case 'M': return dbl ? K_MD : K_M;
    case 'A': return dbl ? K_D : K_R; case 'C': return dbl ? K_CD : K_C; case 'P': return K_P; default: return K_S; }
}
struct Val {
  int sr = 1, sc = 1, cr = 1, cc = 1; std::vector<Z> m;
  Val() : m(1) {}
  Val(int a, int b, int c, int d) : sr(a), sc(b), cr(c), cc(d), m(size_t(a) * b * c * d) {}
  Z& at(int i, int j, int k, int l) { return m[((size_t(i) * sc + j) * cr + k) * cc + l]; }
  const Z& at(int i, int j, int k, int l) const { return m[((size_t(i) * sc + j) * cr + k) * cc + l]; }
  bool scalar() const { return m.size() == 1; }
};
Val mul(const Val& a, const Val& b) {
  if (a.scalar()) { Val r = b; for (auto& z : r.m) z = a.m[0] * z; return r; }
  if (b.scalar()) { Val r = a; for (auto& z : r.m) z = z * b.m[0]; return r; }
  bool as = a.sr * a.sc == 1, bs = b.sr * b.sc == 1, ac = a.cr * a.cc == 1, bc = b.cr * b.cc == 1;
  int ns = as || bs ? 1 : a.sc, nc = ac || bc ? 1 : a.cc;
  Val r(as ? b.sr : a.sr, bs ? a.sc : b.sc, ac ? b.cr : a.cr, bc ? a.cc : b.cc);
  for (int i = 0; i < r.sr; ++i) for (int j = 0; j < r.sc; ++j) for (int k = 0; k < r.cr; ++k) for (int l = 0; l < r.cc; ++l) {
    Z t = 0;
    for (int n = 0; n < ns; ++n) for (int c = 0; c < nc; ++c)
      t += a.at(as ? 0 : i, as ? 0 : bs ? j : n, ac ? 0 : k, ac ? 0 : bc ? l : c) * b.at(bs ? 0 : as ? i : n, bs ? 0 : j, bc ? 0 : ac ? k : c, bc ? 0 : l);
    r.at(i, j, k, l) = t;
  }
  return r;
}
// gamma matrices in the chiral (DeGrand-Rossi) basis
const Z I_(0, 1);
typedef Z G4[4][4];
void gamma1(int mu, G4 g) {
  static const int col[4][4] = {{3, 2, 1, 0}, {3, 2, 1, 0}, {2, 3, 0, 1}, {2, 3, 0, 1}};
  static const Z val[4][4] = {{I_, I_, -I_, -I_}, {-1, 1, 1, -1}, {I_, -I_, -I_, I_}, {1, 1, 1, 1}};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] = col[mu][i] == j ? val[mu][i] : Z(0);
}
void gammaN(int n, G4 g) {
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] = i == j;
  for (int mu = 0; mu < 4; ++mu) if (n >> mu & 1) {
    G4 h, t; gamma1(mu, h);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { t[i][j] = 0; for (int k = 0; k < 4; ++k) t[i][j] += g[i][k] * h[k][j]; }
    memcpy((void*)g, (void*)t, sizeof t);
  }
}
Val spinl(const G4 g, const Val& a, int rows) {
  Val r(rows, a.sc, a.cr, a.cc);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < a.sc; ++j) for (int k = 0; k < a.cr; ++k) for (int l = 0; l < a.cc; ++l) {
    Z t = 0; for (int n = 0; n < a.sr; ++n) t += g[i][n] * a.at(n, j, k, l); r.at(i, j, k, l) = t;
  }
  return r;
}
Val unary(const std::string& t, const Val& a) {
  if (t == "neg" || t == "ti" || t == "cj" || t == "re" || t == "im" || t == "i*") {
    Val r = a; for (auto& z : r.m) z = t == "neg" ? -z : t == "cj" ? std::conj(z) : t == "re" ? Z(z.real()) : t == "im" ? Z(z.imag()) : Z(-z.imag(), z.real()); return r;
  }
  if (t == "adj" || t == "tp") {
    Val r(a.sc, a.sr, a.cc, a.cr);
    for (int i = 0; i < r.sr; ++i) for (int j = 0; j < r.sc; ++j) for (int k = 0; k < r.cr; ++k) for (int l = 0; l < r.cc; ++l) r.at(i, j, k, l) = t == "adj" ? std::conj(a.at(j, i, l, k)) : a.at(j, i, l, k);
    return r;
  }
  if (t == "tr" || t == "trc" || t == "trs") {
    bool s = t != "trc", c = t != "trs"; Val r(s ? 1 : a.sr, s ? 1 : a.sc, c ? 1 : a.cr, c ? 1 : a.cc);
    for (int i = 0; i < a.sr; ++i) for (int j = 0; j < a.sc; ++j) for (int k = 0; k < a.cr; ++k) for (int l = 0; l < a.cc; ++l)
      if ((!s || i == j) && (!c || k == l)) r.at(s ? 0 : i, s ? 0 : j, c ? 0 : k, c ? 0 : l) += a.at(i, j, k, l);
    return r;
  }
  G4 g;
  if (t == "chp" || t == "chm") {
    gammaN(15, g); Val r = a, b = spinl(g, a, 4);
    for (size_t i = 0; i < r.m.size(); ++i) r.m[i] = 0.5 * (t == "chp" ? a.m[i] + b.m[i] : a.m[i] - b.m[i]);
    return r;
  }
  if (t[0] == 'g') { gammaN(atoi(t.c_str() + 1), g); return spinl(g, a, 4); }
  double sg = t.find("Plus") != std::string::npos ? 1 : -1; int mu = t[2] - '0'; gamma1(mu, g);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) g[i][j] = Z(i == j) + sg * g[i][j];
  if (t[0] == 'p') return spinl(g, a, 2);                       // upper half of (1 +- gamma) a
  // the vector whose upper half is a and which (1 +- gamma)/2 leaves alone
  Val r(4, a.sc, a.cr, a.cc);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < a.sc; ++j) for (int k = 0; k < a.cr; ++k) for (int l = 0; l < a.cc; ++l) {
    if (i < 2) { r.at(i, j, k, l) = a.at(i, j, k, l); continue; }
    Z z = 0; for (int n = 0; n < 2; ++n) z += g[i][n] * a.at(n, j, k, l);
    r.at(i, j, k, l) = z;
  }
  return r;
}
const std::string OPS2 = "+-*";
bool binary(const std::string& t) { return t == "+" || t == "-" || t == "*" || t == "lip"; }
Val apply2(const std::string& t, const Val& a, const Val& b) {
  if (t == "*") return mul(a, b);
  if (t == "lip") { Val r; for (size_t i = 0; i < a.m.size(); ++i) r.m[0] += std::conj(a.m[i]) * b.m[i]; return r; }
  if (a.m.size() != b.m.size()) sim_bug("linear algebra form adds different objects");
  Val r = a; for (size_t i = 0; i < r.m.size(); ++i) r.m[i] = t == "+" ? a.m[i] + b.m[i] : a.m[i] - b.m[i]; return r;
}
Val load(const Vec& v, long site, char l) {
  Shape s = shape(l); Val r(s.sr, s.sc, s.cr, s.cc); size_t n = r.m.size();
  for (size_t i = 0; i < n; ++i) r.m[i] = s.real ? Z(v[site]) : Z(v[(site * n + i) * 2], v[(site * n + i) * 2 + 1]);
  return r;
}
int argpos(char c) { return int(strchr(LET, c) - LET); }

bool lin_step(Model& md, const Op& o, Expect& e) {
  if (o.name != "lin") return false;
  const Form& f = form(o.s.at(0)); int d = (int)o.arg(0), kind = md.slots.at(d).kind; Shape ds = shape(f.d);
  Vec out = *md.get(d); std::map<char, VP> in;
  for (char c : f.opnd) in[c] = md.get((int)o.arg(argpos(c)));
  VP old = md.get(d); int nw = Model::words(kind);
  for (long s = 0; s < md.vol; ++s) {
    if (!md.insub(o.arg(15, -1), o.arg(16), s)) continue;
    std::vector<Val> st;
    for (auto& t : f.prog) {
      if (t.size() == 1 && in.count(t[0])) st.push_back(load(*in[t[0]], s, LETK[argpos(t[0])]));
      else if (t == "d") st.push_back(load(*old, s, f.d));
      else if (t == "a" || t == "b") { Val v; v.m[0] = o.arg(t == "a" ? 17 : 18) * 0.5; st.push_back(v); }
      else if (t == "c" || t == "e") { int i = t == "c" ? 19 : 21; Val v; v.m[0] = Z(o.arg(i) * 0.5, o.arg(i + 1) * 0.5); st.push_back(v); }
      else if (binary(t)) { Val b = st.back(); st.pop_back(); st.back() = apply2(t, st.back(), b); }
      else st.back() = unary(t, st.back());
    }
    Val r = st.back();
    if (f.asg[0] != '=') {
      Val x = load(*old, s, f.d);
      if (f.asg[0] == '*') r = mul(x, r);
      else if (f.asg[0] == '/') { Val y = x; for (auto& z : y.m) z /= r.m[0].real(); r = y; }
      else r = apply2(std::string(1, f.asg[0]), x, r);
    }
    for (size_t i = 0; i < r.m.size(); ++i) if (ds.real) out[s] = r.m[i].real(); else { out[s * nw + 2 * i] = r.m[i].real(); out[s * nw + 2 * i + 1] = r.m[i].imag(); }
  }
  md.set(d, kind, std::move(out)); e.fields[d] = md.slots[d]; return true;
}

// ---- workload ---------------------------------------------------------------------
struct Mg { double mag, gran; int inner_s, inner_c; bool sc, cplx; Shape sh; };
struct LG {
  Gen& g; std::map<int, double> gran; bool dbl; std::vector<int> sects; double limit;
  LG(Gen& g_) : g(g_) {}
  int slot(char l, int d, bool alias) {
    int k = kind_of(l, dbl); auto v = g.slots_of(k); std::vector<int> w;
    for (int x : v) if (alias || x != d) w.push_back(x);
    if (w.empty() || (w.size() < 3 && g.r.below(4) == 0)) return g.newslot(k);
    return w[g.r.below((int)w.size())];
  }
  void fresh(int id) { g.op("fill", {id, g.pick_pat(g.sl[id].kind, true)}); g.sl[id].mag = 8; gran[id] = 0; }
  static bool big(const Mg& m, double lim) { return m.mag * std::pow(2.0, m.gran) > lim; }
  bool emit();
};
bool LG::emit() {
  const Form* f;
  do f = &forms()[g.r.below((int)forms().size())]; while ((f->single && dbl) || (sects.size() && std::find(sects.begin(), sects.end(), f->sect) == sects.end()));
  limit = dbl ? 4e15 : 8e6;
  bool alias = g.r.below(4) == 0;
  std::vector<long> a(23, -1); a[0] = slot(f->d, -1, true);
  for (char c : f->opnd) a[argpos(c)] = slot(LETK[argpos(c)], (int)a[0], alias);
  auto sub = g.subset(45); a[15] = sub.first; a[16] = sub.second < 0 ? 0 : sub.second;
  static const int cf[] = {1, 2, 3, 4, -1, -2, -3, -4, 2, -2, 6, 0}; static const int pw[] = {1, 2, 4, -1, -2, -4};
  for (int i = 17; i < 23; ++i) a[i] = f->asg[0] == '/' ? pw[g.r.below(6)] : cf[g.r.below(12)];
  // bound every intermediate so that all arithmetic is exact
  for (int tries = 0; tries < 3; ++tries) {
    std::vector<Mg> st; bool bad = false; auto S1 = shape('C');
    auto ld = [&](int id, char l) { Shape s = shape(l); return Mg{g.sl[id].mag, gran[id], 1, 1, s.sr * s.sc * s.cr * s.cc == 1, !s.real, s}; };
    auto gr = [&](int i) { return a[i] % 2 ? 1.0 : 0.0; };
    auto mulm = [&](const Mg& x, const Mg& y) {
      Mg r = x.sc ? y : x; double in = 1;
      if (!x.sc && !y.sc) {
        bool xs = x.sh.sr * x.sh.sc == 1, ys = y.sh.sr * y.sh.sc == 1, xc = x.sh.cr * x.sh.cc == 1, yc = y.sh.cr * y.sh.cc == 1;
        in = (xs || ys ? 1 : x.sh.sc) * (xc || yc ? 1 : x.sh.cc);
        r.sh = {xs ? y.sh.sr : x.sh.sr, ys ? x.sh.sc : y.sh.sc, xc ? y.sh.cr : x.sh.cr, yc ? x.sh.cc : y.sh.cc, false};
      }
      r.mag = x.mag * y.mag * in * (x.cplx && y.cplx ? 2 : 1); r.gran = x.gran + y.gran; r.cplx = x.cplx || y.cplx; r.sc = x.sc && y.sc; return r;
    };
    auto addm = [&](Mg x, const Mg& y) { x.mag += y.mag; x.gran = std::max(x.gran, y.gran); return x; };
    for (auto& t : f->prog) {
      if (t.size() == 1 && f->opnd.find(t[0]) != std::string::npos) st.push_back(ld((int)a[argpos(t[0])], LETK[argpos(t[0])]));
      else if (t == "d") st.push_back(ld((int)a[0], f->d));
      else if (t == "a" || t == "b") { int i = t == "a" ? 17 : 18; st.push_back({std::abs(a[i]) * 0.5, gr(i), 1, 1, true, false, S1}); }
      else if (t == "c" || t == "e") { int i = t == "c" ? 19 : 21; st.push_back({std::max(std::abs(a[i]), std::abs(a[i + 1])) * 0.5, std::max(gr(i), gr(i + 1)), 1, 1, true, true, S1}); }
      else if (binary(t)) {
        Mg y = st.back(); st.pop_back(); Mg& x = st.back();
        if (t == "*") x = mulm(x, y);
        else if (t == "lip") { double n = x.sh.sr * x.sh.sc * x.sh.cr * x.sh.cc * 2; x.mag = x.mag * y.mag * n; x.gran += y.gran; x.sc = true; x.sh = S1; }
        else x = addm(x, y);
      } else {
        Mg& x = st.back();
        if (t[0] == 'p') { x.mag *= 2; x.sh.sr = 2; }
        else if (t[0] == 'r' && t[1] == 'c') x.sh.sr = 4;
        else if (t == "adj" || t == "tp") { if (t != "tpx") { std::swap(x.sh.sr, x.sh.sc); std::swap(x.sh.cr, x.sh.cc); } }
        else if (t == "tr") { x.mag *= x.sh.sr * x.sh.cr; x.sh = S1; x.sc = true; }
        else if (t == "trs") { x.mag *= x.sh.sr; x.sh.sr = x.sh.sc = 1; }
        else if (t == "trc") { x.mag *= x.sh.cr; x.sh.cr = x.sh.cc = 1; }
        else if (t == "ch" || t == "chp" || t == "chm") x.gran += 0;
      }
      if (big(st.back(), limit)) bad = true;
    }
    Mg r = st.back(), o = ld((int)a[0], f->d);
    if (f->asg[0] == '*') r = mulm(o, r);
    else if (f->asg[0] == '/') { r = o; r.mag *= a[17] % 2 ? 2 : 1; if (std::abs(a[17]) == 4) r.gran += 1; }
    else if (f->asg[0] != '=') r = addm(o, r);
    if (big(r, limit)) bad = true;
    if (bad) {        // start again from small operands
      if (f->asg[0] != '=' || std::find(f->prog.begin(), f->prog.end(), "d") != f->prog.end()) fresh((int)a[0]);
      for (char c : f->opnd) { int id = (int)a[argpos(c)]; if (g.sl[id].mag * std::pow(2.0, gran[id]) > 8) fresh(id); }
      if (tries == 2) return false;
      continue;
    }
    int id = (int)a[0];
    if (sub.first >= 0) { r.mag = std::max(r.mag, g.sl[id].mag); r.gran = std::max(r.gran, gran[id]); }
    g.op("lin", a).s = {f->name}; g.sl[id].mag = r.mag; gran[id] = r.gran; return true;
  }
  return false;
}
} // namespace
bool model_lin(Model& m, const Op& o, Expect& e) { return lin_step(m, o, e); }

Spec g_C10(Gen& g) {
  g.sched(); g.bigvol = 25;
  static const char* var[] = {"sc-cb2", "sc-cb2-sse", "sc-lex-sse-omp", "ps-cb2-omp"};
  std::string v = var[g.r.below(4)];
  g.begin_phase(v, 4, g.tier ? 192 : 96);
  bool th = v.find("omp") != std::string::npos; g.p->threads = th ? g.r.range(1, 6) : 1;
  LG l(g); l.dbl = g.r.below(3) == 0;
  if (g.r.below(2)) { l.sects = {g.r.below(l.dbl ? 5 : 6)}; if (g.r.below(2)) l.sects.push_back(3); }
  int n = g.r.range(6, g.tier ? 40 : 22);
  if (v == "sc-cb2-sse" && g.r.below(10) == 0) {     // long vectors: some kernels take another way from a cache size on (1365 sites)
    static const int big[3][4] = {{8, 8, 8, 4}, {8, 8, 6, 4}, {8, 8, 8, 6}};
    const int* L = big[g.r.below(3)];
    g.vol = 1; for (int i = 0; i < 4; ++i) { g.p->latt[i] = L[i]; g.vol *= L[i]; }
    l.dbl = true; l.sects = {0}; n = g.r.range(6, 12);
  }
  for (int i = 0; i < n; ++i) {
    if (g.r.below(6) == 0) {
      // sums need whole numbers small enough to be summed exactly
      int k = kind_of("FFFMMHVC"[g.r.below(8)], l.dbl); int id = g.anyslot(k);
      for (int s : g.slots_of(k)) if (l.gran[s] > 0 || g.sl[s].mag > 1000) l.fresh(s);
      (void)id; g.op_reduce({k});
      continue;
    }
    l.emit();
  }
  g.op("audit");
  return g.s;
}
}
