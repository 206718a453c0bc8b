// One generator and one oracle per property.
#include "ext.h"
namespace sim {
using namespace simf;
std::string pickv(Gen& g, std::initializer_list<const char*> v) { std::vector<const char*> x(v); return x[g.r.below((int)x.size())]; }
std::vector<int> somekinds(Gen& g, const std::vector<int>& from, int n) {
  std::vector<int> v = from;
  for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[g.r.below(i + 1)]);
  v.resize(std::min<size_t>(n, v.size()));
  return v;
}
void finish(Gen& g) { g.op("audit"); }

static Spec g_C01(Gen& g) {
  g.sched(); g.bigvol = 25;
  g.begin_phase(pickv(g, {"ps-cb2", "ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}), 16, g.tier ? 768 : 384);
  if (g.r.below(4) == 0) g.s.k["grid"] = 1;
  auto k = somekinds(g, ALLK, 3);
  if (g.vol > 200) for (int& x : k) if (x == K_P) x = K_F;
  for (int x : k) { g.newslot(x); g.newslot(x); }
  g.defmaps(g.r.range(1, 4));
  int n = g.r.range(8, g.tier ? 40 : 24);
  for (int i = 0; i < n; ++i) { int w = g.r.below(10); if (w < 5) g.op_shift(k); else if (w < 9) g.op_map(k); else g.op_arith(k); }
  finish(g); return g.s;
}
static Spec g_C02(Gen& g) {
  g.sched(); g.bigvol = 25;
  g.begin_phase(pickv(g, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}), 16, g.tier ? 768 : 384);
  g.op("layinfo");
  auto k = somekinds(g, NUMK, 2); k.push_back(K_B);
  if (g.vol > 200) for (int& x : k) if (x == K_P) x = K_F;
  for (int x : k) { g.newslot(x); g.newslot(x); }
  int lc = g.newslot(K_I);
  int n = g.r.range(8, g.tier ? 30 : 20);
  for (int i = 0; i < n; ++i) {
    switch (g.r.below(6)) {
      case 0: case 1: g.op("subinfo", {g.r.below(S_N)}); break;
      case 2: g.op("coord", {lc, g.r.below(4)}); g.sl[lc].mag = 512; break;
      case 3: g.op_mask(k); break;
      default: g.op_arith(k);
    }
  }
  g.op("layinfo"); finish(g); return g.s;
}
static Spec g_C03(Gen& g) {
  g.sched(); g.bigvol = 25;
  g.begin_phase(pickv(g, {"ps-cb2", "ps-cb2", "ps-lex", "sc-cb2", "sc-cb2-sse", "sc-cb2-sse", "sc-cb32"}), 16, g.tier ? 768 : 384);
  auto k = somekinds(g, NUMK, 3);
  if (g.vol > 128) for (int& x : k) if (x == K_P) x = K_F;
  for (int x : k) { g.newslot(x); g.newslot(x); }
  int n = g.r.range(8, g.tier ? 40 : 24);
  for (int i = 0; i < n; ++i) { int w = g.r.below(10); if (w < 8) g.op_reduce(k); else if (w < 9) g.op("gsum", {g.r.below(1000)}); else g.op_arith(k); }
  finish(g); return g.s;
}
static Spec g_C04(Gen& g) {
  g.sched(); g.bigvol = 25;
  g.begin_phase(pickv(g, {"ps-cb2", "ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}), 16, g.tier ? 768 : 384);
  auto k = somekinds(g, ALLK, 4);
  if (g.vol > 200) for (int& x : k) if (x == K_P) x = K_F;
  for (int x : k) g.newslot(x);
  int n = g.r.range(10, g.tier ? 50 : 30);
  for (int i = 0; i < n; ++i) { if (g.r.below(8)) g.op_site(k); else g.op_arith(k); }
  finish(g); return g.s;
}
static void collective_mix(Gen& g, int lo, int hi) {
  auto k = somekinds(g, ALLK, 3);
  if (g.vol > 128) for (int& x : k) if (x == K_P) x = K_F;
  for (int x : k) { g.newslot(x); g.newslot(x); }
  g.defmaps(g.r.range(1, 3));
  int n = g.r.range(lo, hi);
  for (int i = 0; i < n; ++i) switch (g.r.below(10)) {
    case 0: case 1: g.op_shift(k); break;
    case 2: g.op_map(k); break;
    case 3: case 4: g.op_reduce(k); break;
    case 5: case 6: g.op_site(k); break;
    case 7: g.op("bcast", {g.r.below(100000)}); break;
    case 8: { Op& o = g.op("bcaststr"); std::string t; int l = g.r.below(3) ? g.r.below(40) : 0; for (int j = 0; j < l; ++j) t += (char)g.r.range(1, 255); o.s.push_back(t); break; }
    case 9: g.op("gsum", {g.r.below(1000)}); break;
  }
  finish(g);
}
static Spec g_C05(Gen& g) {     // everything collective, mixed, always many nodes
  g.sched();
  g.begin_phase(pickv(g, {"ps-cb2", "ps-lex", "ps-cb3d"}), 16, g.tier ? 512 : 256, true);
  if (g.r.below(3) == 0) g.s.k["grid"] = 1;
  collective_mix(g, 12, g.tier ? 50 : 30);
  return g.s;
}
static Spec g_C06(Gen& g) {     // the same programs under failures reported by the message layer
  g.sched();
  g.begin_phase(pickv(g, {"ps-cb2", "ps-lex", "ps-cb3d"}), 8, g.tier ? 256 : 128, true);
  if (g.r.below(4) == 0) g.s.k["grid"] = 1;
  collective_mix(g, 6, g.tier ? 30 : 16);
  static const char* kinds[] = {"net.send", "net.recv", "net.null", "net.coll", "net.coll", "net.start", "net.topo", "net.init"};
  int w = g.r.below(20);
  if (w == 0) return g.s;                       // no fault: the same program must succeed
  std::string kd = kinds[g.r.below(w < 3 ? 8 : 6)];
  if (g.r.below(3) == 0) g.s.k["fat." + kd] = 1 + g.r.below(g.r.below(2) ? 10 : 150);
  else { static const int pm[] = {3, 10, 30, 100}; g.s.k["f." + kd] = pm[g.r.below(4)]; g.s.k["f.max"] = g.r.below(4) ? 1 : 3; }
  return g.s;
}
Spec g_C09(Gen& g) {     // data-parallel statements on thread teams
  g.sched(); g.bigvol = 8;
  std::string v = pickv(g, {"sc-cb2-omp-tsan", "sc-lex-qmt-tsan", "ps-cb2-omp-tsan", "sc-cb2-sse-omp-tsan"});
  g.begin_phase(v, 4, g.tier ? 256 : 96);
  g.p->threads = g.r.below(8) ? g.r.range(2, 6) : g.r.range(7, 12);
  static const int gap[] = {0, 5, 20, 60, 200, 400, 2000}; g.s.k["gap"] = gap[g.r.below(7)];
  static const std::vector<int> K = {K_I, K_B, K_R, K_D, K_C, K_V, K_M, K_F};
  auto k = somekinds(g, K, 2);
  bool num = false; for (int x : k) if (x != K_B) num = true;
  if (!num) k.push_back(K_R);
  std::vector<int> nk; for (int x : k) if (x != K_B) nk.push_back(x);
  for (int x : k) { g.newslot(x); g.newslot(x); }
  if (g.r.below(2)) g.defmaps(g.r.range(1, 2));
  int n = g.r.range(4, g.tier ? 20 : 12);
  for (int i = 0; i < n; ++i) switch (g.r.below(12)) {
    case 0: case 1: case 2: g.op_arith(k); break;
    case 3: case 4: g.op_mask(k); break;
    case 5: g.op_shift(k); break;
    case 6: g.op_map(k); break;
    case 7: g.op_site(k); break;
    case 8: g.op("subinfo", {g.r.below(S_N)}); break;
    default: g.op_reduce(nk);
  }
  finish(g); return g.s;
}

typedef Spec (*GenFn)(Gen& g);
typedef Oracle* (*OracleFn)();
static Oracle* plain() { return new PlainOracle; }
struct PropDef { const char* id; GenFn gen; std::vector<std::string> variants; OracleFn oracle; };
static const std::vector<PropDef>& props() {
  static const std::vector<PropDef> p = {
    {"C01", g_C01, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, plain},
    {"C02", g_C02, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, plain},
    {"C03", g_C03, {"ps-cb2", "ps-lex", "sc-cb2", "sc-cb2-sse", "sc-cb32"}, plain},
    {"C04", g_C04, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, plain},
    {"C05", g_C05, {"ps-cb2", "ps-lex", "ps-cb3d"}, plain},
    {"C06", g_C06, {"ps-cb2", "ps-lex", "ps-cb3d"}, plain},
    {"C07", g_C07, {"ps-cb2", "ps-lex", "ps-cb3d", "ps-cb2-omp", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32", "sc-cb2-omp"}, rng_oracle},
    {"C09", g_C09, {"sc-cb2-omp-tsan", "sc-lex-qmt-tsan", "ps-cb2-omp-tsan", "sc-cb2-sse-omp-tsan"}, plain},
    {"C10", g_C10, {"sc-cb2", "sc-cb2-sse", "sc-lex-sse-omp", "ps-cb2-omp"}, plain},
    {"C11", g_C11, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, io_oracle},
    {"C12", g_C12, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, io_oracle},
    {"C13", g_C13, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, io_oracle},
    {"C14", g_C14, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, io_oracle},
    {"C15", g_C15, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"}, arch_oracle},
    {"C16", g_C16, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"}, db_oracle},
    {"C17", g_C17, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"}, db_oracle},
    {"C18", g_C18, {"ps-cb2-al64", "ps-lex-al128-pool", "sc-cb2-xml-al128", "sc-lex-al64", "sc-cb2-pool"}, mem_oracle},
    {"C20", g_C20, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"}, io_oracle},
    {"C21", g_C21, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml"}, xml_oracle},
    {"C22", g_C22, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml"}, qio_oracle},
    {"C19", g_C19, {"ps-cb2", "sc-cb2", "sc-lex"}, watch_oracle},
    {"C08", g_C08, {"ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-cb2-omp"}, rng_oracle},
  };
  return p;
}
static const PropDef& def(const std::string& id) { for (auto& p : props()) if (p.id == id) return p; fprintf(stderr, "unknown property %s\n", id.c_str()); raw_exit(2); }
Spec generate(const std::string& prop, uint64_t seed, int tier) { Gen g(prop, seed, tier); return def(prop).gen(g); }
std::vector<std::string> variants_of(const std::string& prop, int) { return def(prop).variants; }
Oracle* make_oracle(const Spec& s) { return def(s.prop).oracle(); }
bool model_ext(Model& m, const Op& o, Expect& e) {
  static const ModelFn f[] = {model_rng, model_lin, model_misc, model_arch, model_db, model_xml, model_qio, model_io};
  for (ModelFn x : f) if (x(m, o, e)) return true;
  return false;
}
void model_ext_start() { model_rng_start(); model_arch_start(); model_db_start(); model_xml_start(); model_qio_start(); model_io_start(); }
}
