// Objects that own memory under failing allocations (C18); stopwatches (C19).
#include "ext.h"
#include "../common/mem.h"
namespace sim {
using namespace simf; using namespace simmem;
bool model_misc(Model&, const Op& o, Expect&) { return o.name.compare(0, 2, "m.") == 0 || o.name.compare(0, 3, "sw.") == 0; }   // these check themselves
struct MemOracle : PlainOracle {
  void on_note(int n, int op, const std::string& w, long v) override {
    if (w == "pool.exhausted") faulted("pool"); else PlainOracle::on_note(n, op, w, v);
  }
};
struct WatchOracle : PlainOracle { bool may_stop(int) override { return false; } };   // a bad clock never stops a program
Oracle* watch_oracle() { return new WatchOracle; }
Oracle* mem_oracle() { return new MemOracle; }
static long logu(Gen& g, long lo, long hi) { long n = 0; for (long x = lo; x * 2 <= hi; x *= 2) ++n; long a = lo << g.r.below((int)n + 1); return a + (a > 1 ? g.r.below((int)a) : 0); }
Spec g_C18(Gen& g) {
  g.sched();
  std::string v = pickv(g, {"ps-cb2-al64", "ps-lex-al128-pool", "sc-cb2-xml-al128", "sc-lex-al64", "sc-cb2-pool"});
  g.begin_phase(v, 8, g.tier ? 256 : 128);
  bool pool = v.find("pool") != std::string::npos;
  int mode = g.r.below(8);            // 0-2: healthy, else memory fails
  if (pool) { g.s.k["pool"] = mode < 3 ? 16384 : 1024; if (mode >= 3) g.op("m.ballast", {1024 * (1024 - logu(g, 4, 512))}); }   // KB
  static const std::vector<int> K = {K_I, K_B, K_R, K_C, K_M, K_V};
  auto k = somekinds(g, K, 2);
  bool fields = g.r.below(3) > 0;
  if (fields) { for (int x : k) { g.newslot(x); g.newslot(x); } g.defmaps(g.r.below(3)); }
  std::vector<int> nk; for (int x : k) if (x != K_B) nk.push_back(x); if (nk.empty() && fields) { nk.push_back(K_R); g.newslot(K_R); }
  int n = g.r.range(2, g.tier ? 16 : 8);
  for (int i = 0; i < n; ++i) {
    if (!fields || g.r.below(2)) {
      long types = (1L << T_N) - 1; if (g.r.below(2)) { types = 0; for (int j = 0, m = g.r.range(1, 3); j < m; ++j) types |= 1L << g.r.below(T_N); }
      g.op("m.block", {g.r.below(1 << 20), g.r.range(3, g.tier ? 40 : 25), types});
    } else switch (g.r.below(6)) {
      case 0: g.op_arith(k); break;
      case 1: g.op_shift(k); break;
      case 2: g.op_map(k); break;
      case 3: g.op_mask(k); break;
      case 4: g.op_site(k); break;
      default: g.op_reduce(nk);
    }
  }
  finish(g);
  if (mode >= 3) {
    int w = g.r.below(pool ? 6 : 4);
    if (w == 0) g.s.k["fat.oom"] = logu(g, 1, 16384);
    else if (w == 1) { g.s.k["oom.op"] = g.r.below((int)g.p->ops.size()); g.s.k["fat.oom"] = logu(g, 1, 1024); }
    else if (w == 2) { g.s.k["f.oom"] = g.r.below(2) ? 1 : 5; if (g.r.below(2)) g.s.k["oom.op"] = g.r.below((int)g.p->ops.size()); g.s.k["f.skip"] = logu(g, 1, 4096); g.s.k["f.max"] = g.r.below(2) ? 1 : 5; }
    else if (w == 3) g.s.k["mem.cap"] = logu(g, 16384, 1 << 21);
  }
  return g.s;
}
Spec g_C19(Gen& g) {
  g.sched();
  std::string v = pickv(g, {"ps-cb2", "sc-cb2", "sc-lex"});
  g.begin_phase(v, 4, 64);
  g.newslot(K_I); g.newslot(K_I);
  long nw = g.r.range(1, 4), n = g.r.range(8, g.tier ? 120 : 60);
  int mis = g.r.below(3) ? 1 : 4;                   // how often misuse
  for (long i = 0; i < n; ++i) {
    long w = g.r.below((int)nw);
    int k = g.r.below(22 + 2 * mis);
    if (k < 9) { g.op("sw.start", {w}); if (g.r.below(4)) { if (g.r.below(3) == 0) g.op("sw.wait", {w, logu(g, 1, 1 << 20)}); if (g.r.below(6) == 0) g.op_arith({K_I}); g.op("sw.stop", {w}); } }
    else if (k < 14) g.op("sw.stop", {w});
    else if (k < 17) g.op("sw.wait", {w, logu(g, 1, 4 << 20)});
    else if (k < 18) g.op("sw.copy", {w, g.r.below((int)nw)});
    else if (k < 19) g.op("sw.reset", {w});
    else if (k < 20) g.op("sw.new", {w});
    else if (k < 21) g.op_arith({K_I});
    else if (k < 22) g.op_reduce({K_I});
    else g.op(g.r.below(2) ? "sw.stop" : "sw.start", {w});
  }
  finish(g);
  int mode = g.r.below(6);                          // 0: plain clock; healthy but uneven; jumps; failures; all
  static const int M[] = {0, 1, 3, 5, 7, 7};
  g.s.k["clk"] = M[mode]; g.s.k["f.max"] = 1000;
  if (M[mode] & 2) g.s.k["f.clock.back"] = g.r.below(2) ? 50 : 300;
  if (M[mode] & 4) g.s.k["f.clock.fail"] = g.r.below(2) ? 30 : 200;
  return g.s;
}
}
