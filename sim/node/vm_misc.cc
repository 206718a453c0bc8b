// Objects that own memory; stopwatches.
#include "vm.h"
#ifdef QDP_USE_LIBXML2
#include "qdp_map_obj_memory.h"
#endif
#include "../common/mem.h"
#include "tbb/memory_pool.h"
#include <memory>
#include <unistd.h>
using namespace simmem;
static VM* V;
static long unitval(long seed, long lex, int w) { return (seed * 3 + lex * 7 + w * 5) % 61; }
[[noreturn]] static void bad(const char* cls, const std::string& m) { sim_fail(cls, m.c_str()); abort(); }
static void aligned(const void* p, const char* what) {
  if (((uintptr_t)p) % QDP_ALIGNMENT_SIZE) bad("memory.align", std::string(what) + " is not aligned to " + std::to_string(QDP_ALIGNMENT_SIZE) + " bytes");
}
// ---- elements: put a seed in, and see whether an element still holds a seed ------------------
template <class T> void put(OLattice<T>& f, long seed) {
  typedef typename WordType<T>::Type_t W; int nw = sizeof(T) / sizeof(W);
  for (long i = 0; i < V->nloc; ++i) { W* p = (W*)&f.elem((int)i); for (int j = 0; j < nw; ++j) p[j] = (W)(std::is_same<W, bool>::value ? unitval(seed, V->lexs[i], j) % 2 : unitval(seed, V->lexs[i], j)); }
}
template <class T> bool has(const OLattice<T>& f, long seed) {
  typedef typename WordType<T>::Type_t W; int nw = sizeof(T) / sizeof(W);
  aligned(f.getF(), "a lattice field");
  for (long i = 0; i < V->nloc; ++i) { const W* p = (const W*)&f.elem((int)i); for (int j = 0; j < nw; ++j) if (p[j] != (W)(std::is_same<W, bool>::value ? unitval(seed, V->lexs[i], j) % 2 : unitval(seed, V->lexs[i], j))) return false; }
  return true;
}
static void put(int& x, long seed) { x = (int)seed; }
static bool has(const int& x, long seed) { return x == (int)seed; }
template <class T> void put(multi1d<T>& x, long seed) { x.resize(1 + (int)(seed % 3)); for (int i = 0; i < x.size(); ++i) put(x[i], seed + i); }
template <class T> bool has(const multi1d<T>& x, long seed) { if (x.size() != 1 + (int)(seed % 3)) return false; for (int i = 0; i < x.size(); ++i) if (!has(x[i], seed + i)) return false; return true; }
// ---- one value made by expressions and returned by value ------------------------------------------
template <class T> T roundtrip(const T& x) { T t(x); T u = t; return u; }
template <class T> OLattice<T> roundtrip(const OLattice<T>& x) { OLattice<T> t(x); OLattice<T> u = t + x; u -= t; return u; }
static LatticeBoolean roundtrip(const LatticeBoolean& x) { LatticeBoolean t = x || x; return t; }
static multi1d<int> roundtrip(const multi1d<int>& x) { multi1d<int> t(x); if (x.size()) { t = t + x; return t - x; } return t; }

struct MObj {
  int type = 0; std::vector<long> seeds;            // what every element should hold
  std::vector<int> dims;                            // the extents it should have
  virtual ~MObj() {}
  virtual MObj* clone() = 0;
  virtual void assign(MObj& o) = 0;
  virtual void tmp(MObj& o) = 0;
  virtual void resize(const MOp& o) = 0;
  virtual int count() = 0;
  virtual std::vector<int> shape() { return dims; }
  virtual void set(int e, long seed) = 0;
  virtual bool ok(int e, long seed) = 0;
  virtual void view(int e, long seed) { set(e, seed); }
  void refill(long seed) { seeds.assign(count(), 0); for (int e = 0; e < (int)seeds.size(); ++e) { seeds[e] = 1 + (seed + e * 3) % 50; set(e, seeds[e]); } }
  void verify(const char* when) {
    std::vector<int> sh = shape();
    if (sh != dims) { std::string a, b; for (int x : sh) a += " " + std::to_string(x); for (int x : dims) b += " " + std::to_string(x); bad("memory.size", std::string("an object of type ") + std::to_string(type) + " has the extents" + a + " instead of" + b + " after " + when); }
    if (count() != (int)seeds.size()) bad("memory.size", std::string("an object of type ") + std::to_string(type) + " has " + std::to_string(count()) + " elements instead of " + std::to_string(seeds.size()) + " after " + when);
    for (int e = 0; e < (int)seeds.size(); ++e) if (!ok(e, seeds[e])) bad("memory.content", std::string("element ") + std::to_string(e) + " of an object of type " + std::to_string(type) + " does not hold what was stored (after " + when + ")");
  }
};
template <class T> struct One : MObj {             // a single lattice field
  T f; One() {} One(const One& o) : MObj(o), f(o.f) {}
  MObj* clone() { return new One(*this); }
  void assign(MObj& o) { f = static_cast<One&>(o).f; seeds = o.seeds; dims = o.dims; }
  void tmp(MObj& o) { f = roundtrip(static_cast<One&>(o).f); seeds = o.seeds; dims = o.dims; }
  void resize(const MOp&) {} int count() { return 1; }
  void set(int, long s) { put(f, s); } bool ok(int, long s) { return has(f, s); }
};
template <class T> void rs(multi1d<T>& a, const int* d) { a.resize(d[0]); }
template <class T> void rs(multi2d<T>& a, const int* d) { a.resize(d[0], d[1]); }
template <class T> void rs(multi3d<T>& a, const int* d) { a.resize(d[0], d[1], d[2]); }
template <class T> void rs(multi4d<T>& a, const int* d) { a.resize(d[0], d[1], d[2], d[3]); }
template <class T> void rs(multi5d<T>& a, const int* d) { a.resize(d[0], d[1], d[2], d[3], d[4]); }
template <class T> int cn(multi1d<T>& a) { return a.size(); }
template <class T> int cn(multi2d<T>& a) { return a.size1() * a.size2(); }
template <class T> int cn(multi3d<T>& a) { return a.size1() * a.size2() * a.size3(); }
template <class T> int cn(multi4d<T>& a) { return a.size1() * a.size2() * a.size3() * a.size4(); }
template <class T> int cn(multi5d<T>& a) { return a.size1() * a.size2() * a.size3() * a.size4() * a.size5(); }
template <class T> std::vector<int> sh(multi1d<T>& a) { return {a.size()}; }
template <class T> std::vector<int> sh(multi2d<T>& a) { return {a.size2(), a.size1()}; }
template <class T> std::vector<int> sh(multi3d<T>& a) { return {a.size3(), a.size2(), a.size1()}; }
template <class T> std::vector<int> sh(multi4d<T>& a) { return {a.size4(), a.size3(), a.size2(), a.size1()}; }
template <class T> std::vector<int> sh(multi5d<T>& a) { return {a.size5(), a.size4(), a.size3(), a.size2(), a.size1()}; }
template <class T> T& el(multi1d<T>& a, int e) { return a[e]; }
template <class T> T& el(multi2d<T>& a, int e) { return a(e / a.size1(), e % a.size1()); }
template <class T> T& el(multi3d<T>& a, int e) { int x = e % a.size1(); e /= a.size1(); return a(e / a.size2(), e % a.size2(), x); }
template <class T> T& el(multi4d<T>& a, int e) { int x = e % a.size1(); e /= a.size1(); int y = e % a.size2(); e /= a.size2(); return a(e / a.size3(), e % a.size3(), y, x); }
template <class T> T& el(multi5d<T>& a, int e) { int x = e % a.size1(); e /= a.size1(); int y = e % a.size2(); e /= a.size2(); int z = e % a.size3(); e /= a.size3(); return a(e / a.size4(), e % a.size4(), z, y, x); }
// the same elements reached through slices and views that do not own memory
template <class T> void vw(multi1d<T>& a, int e, long s) { multi1d<T> v(&a[0], a.size()); put(v[e], s); }
template <class T> void vw(multi2d<T>& a, int e, long s) { multi2d<T> v(&a(0, 0), a.size2(), a.size1()); put(v[e / a.size1()][e % a.size1()], s); }
template <class T> void vw(multi3d<T>& a, int e, long s) { int x = e % a.size1(); e /= a.size1(); put(a[e / a.size2()][e % a.size2()][x], s); }
template <class A> void vw(A& a, int e, long s) { put(el(a, e), s); }
template <class A> struct Arr2 : MObj {
  A a; Arr2() {} Arr2(const Arr2& o) : MObj(o), a(o.a) {}
  MObj* clone() { return new Arr2(*this); }
  void assign(MObj& o) { a = static_cast<Arr2&>(o).a; seeds = o.seeds; dims = o.dims; }
  void tmp(MObj& o) { a = roundtrip(static_cast<Arr2&>(o).a); seeds = o.seeds; dims = o.dims; }
  void resize(const MOp& o) { rs(a, o.d); dims.assign(o.d, o.d + o.nd); } int count() { return cn(a); }
  std::vector<int> shape() { return sh(a); }
  void set(int e, long s) { put(el(a, e), s); } bool ok(int e, long s) { return has(el(a, e), s); }
  void view(int e, long s) { vw(a, e, s); }
};
struct ArrN : MObj {
  multiNd<int> a; ArrN() { multi1d<int> z(1); z[0] = 0; a.resize(z); } ArrN(const ArrN& o) : MObj(o), a(o.a) {}
  MObj* clone() { return new ArrN(*this); }
  void assign(MObj& o) { a = static_cast<ArrN&>(o).a; seeds = o.seeds; dims = o.dims; }
  void tmp(MObj& o) { a = roundtrip(static_cast<ArrN&>(o).a); seeds = o.seeds; dims = o.dims; }
  void resize(const MOp& o) { multi1d<int> z(o.nd); for (int i = 0; i < o.nd; ++i) z[i] = o.d[i]; a.resize(z); dims.assign(o.d, o.d + o.nd); }
  std::vector<int> shape() { const multi1d<int>& z = a.size(); std::vector<int> v; for (int i = 0; i < z.size(); ++i) v.push_back(z[i]); return v; }
  int count() { return a.numElem(); }
  int& at(int e) { return a.getElem(e); }
  void set(int e, long s) { put(at(e), s); } bool ok(int e, long s) { return has(at(e), s); }
};
struct SubF : MObj {                                  // a field stored on a subset only
  OSubLattice<PScalar<PScalar<RScalar<REAL>>>> f; int k = -2, col = 0;
  SubF() {} SubF(const SubF& o) : MObj(o), f(o.f), k(o.k), col(o.col) {}
  MObj* clone() { return new SubF(*this); }
  void assign(MObj& o) { SubF& x = static_cast<SubF&>(o); if (k != x.k || col != x.col) { f.setSubset(x.f.subset()); k = x.k; col = x.col; } f = x.f; seeds = o.seeds; dims = o.dims; }
  void tmp(MObj& o) { SubF t(static_cast<SubF&>(o)); SubF u(t); assign(u); }
  void resize(const MOp& o) { k = simf::S_ALL + o.d[0] % simf::S_N; col = 0; const Set& s = V->set(k); col = o.d[1] % s.numSubsets(); if (k == simf::S_ALL && o.seed % 2) f.setSubset(all); else f.setSubset(s[col]); }
  int count() { return 1; }
  void set(int, long s) { const Subset& b = f.subset(); for (int j = 0; j < b.numSiteTable(); ++j) f.getF()[j].elem().elem().elem() = (REAL)unitval(s, V->lexs[b.siteTable()[j]], 0); }
  bool ok(int, long s) { const Subset& b = f.subset(); aligned(f.getF(), "a subset field"); for (int j = 0; j < b.numSiteTable(); ++j) if (f.getF()[j].elem().elem().elem() != (REAL)unitval(s, V->lexs[b.siteTable()[j]], 0)) return false; return true; }
};
struct Raw : MObj {                                   // blocks straight from the lattice allocator
  std::vector<std::pair<unsigned char*, size_t>> b;
  Raw() {} Raw(const Raw& o) : MObj(o) { for (auto& x : o.b) { get(x.second); memcpy(b.back().first, x.first, x.second); } }
  ~Raw() { drop(); }
  void get(size_t n) {
    unsigned char* p = (unsigned char*)QDP::Allocator::theQDPAllocator::Instance().allocate(n, QDP::Allocator::DEFAULT);
    if (!p) bad("memory.null", "the allocator handed out a null pointer");
    aligned(p, "a block of the lattice allocator"); b.push_back({p, n});
  }
  void drop() { for (size_t i = 0; i < b.size(); ++i) QDP::Allocator::theQDPAllocator::Instance().free(b[b.size() > 2 && i < 2 ? 1 - i : i].first); b.clear(); }
  MObj* clone() { return new Raw(*this); }
  void assign(MObj& o) { Raw& x = static_cast<Raw&>(o); if (&x == this) return; drop(); for (auto& y : x.b) { get(y.second); memcpy(b.back().first, y.first, y.second); } seeds = o.seeds; dims = o.dims; }
  void tmp(MObj& o) { Raw t(static_cast<Raw&>(o)); assign(t); }
  void resize(const MOp& o) {
    drop(); simmem::Lcg r(o.seed * 977 + o.e); int n = r.below(5);
    for (int i = 0; i < n; ++i) switch (r.below(4)) {
      case 0: get((size_t)(1 + r.below(2)) << 15); break;                                    // whole multiples of 32 KB
      case 1: get((size_t)QDP_ALIGNMENT_SIZE * (size_t)r.below(20)); break;
      default: get((size_t)r.below(3000));
    }
  }
  int count() { return (int)b.size(); }
  void set(int e, long s) { for (size_t i = 0; i < b[e].second; ++i) b[e].first[i] = (unsigned char)(s + i * 3); }
  bool ok(int e, long s) { for (size_t i = 0; i < b[e].second; ++i) if (b[e].first[i] != (unsigned char)(s + i * 3)) return false; return true; }
};
#ifdef QDP_USE_LIBXML2
struct MapF : MObj {                                  // keys 0..2 -> fields, held in memory
  typedef LatticeReal T; static multi1d<int> key(int e) { multi1d<int> k(5); for (int i = 0; i < 5; ++i) k[i] = i * 7; k[e % 5] += 1 + e; return k; }
  MapObjectMemory<multi1d<int>, T> m;
  MapF() {} MapF(const MapF& o) : MObj(o), m(o.m) {}
  MObj* clone() { return new MapF(*this); }
  void assign(MObj& o) { m = static_cast<MapF&>(o).m; seeds = o.seeds; dims = o.dims; }
  void tmp(MObj& o) { MapObjectMemory<multi1d<int>, T> t(static_cast<MapF&>(o).m); MapObjectMemory<multi1d<int>, T> u; u.insert(t.begin(), t.end()); m = u; seeds = o.seeds; dims = o.dims; }
  void resize(const MOp&) { m.clear(); } int count() { return 3; }
  void set(int e, long s) { if (s % 2 == 0) m.erase(key(e)); else { T f; put(f, s); m.insert(key(e), f); } }
  bool ok(int e, long s) {
    bool want = s % 2 != 0;
    if (m.exist(key(e)) != want) return false;
    int n = 0; for (long q : seeds) if (q % 2) ++n; if ((int)m.size() != n) return false;
    std::vector<multi1d<int>> k; m.keys(k); if ((int)k.size() != n) return false; for (auto& q : k) { int x = -1; for (int i = 0; i < 3; ++i) if (q == key(i)) x = i; if (x < 0 || seeds[x] % 2 == 0) return false; }
    T g; put(g, 1); int r = m.get(key(e), g); if ((r == 0) != want) return false;
    return want ? has(g, s) && has(m[key(e)], s) : true;
  }
};
#else
typedef One<LatticeReal> MapF;
#endif
static MObj* make(int t) {
  switch (t) {
    case T_LI: return new One<LatticeInteger>; case T_LR: return new One<LatticeReal>; case T_LD: return new One<LatticeRealD>; case T_LM: return new One<LatticeColorMatrix>; case T_LB: return new One<LatticeBoolean>;
    case T_A1R: return new Arr2<multi1d<LatticeReal>>; case T_A2I: return new Arr2<multi2d<LatticeInteger>>; case T_A3R: return new Arr2<multi3d<LatticeReal>>;
    case T_A1A1: return new Arr2<multi1d<multi1d<LatticeReal>>>; case T_A1M: return new Arr2<multi1d<LatticeColorMatrix>>;
    case T_I1: return new Arr2<multi1d<int>>; case T_I2: return new Arr2<multi2d<int>>; case T_I3: return new Arr2<multi3d<int>>; case T_I4: return new Arr2<multi4d<int>>; case T_I5: return new Arr2<multi5d<int>>;
    case T_IN: return new ArrN; case T_J: return new Arr2<multi1d<multi1d<int>>>;
    case T_SUB: return new SubF; case T_RAW: return new Raw; default: return new MapF;
  }
}
static void runblock(const std::vector<MOp>& prog) {
  static const char* nm[] = {"create", "copy", "assign", "self-assign", "resize", "store", "temporaries", "store through a view", "swap", "destroy"};
  std::vector<std::unique_ptr<MObj>> ob(6);
  for (const MOp& o : prog) {
    switch (o.code) {
      case O_NEW: { std::unique_ptr<MObj> x(make(o.type)); x->type = o.type; x->resize(o); x->refill(o.seed); ob[o.a] = std::move(x); break; }
      case O_COPY: { std::unique_ptr<MObj> x(ob[o.b]->clone()); ob[o.a] = std::move(x); break; }
      case O_ASSIGN: ob[o.a]->assign(*ob[o.b]); break;
      case O_SELF: ob[o.a]->assign(*ob[o.a]); break;
      case O_TMP: ob[o.a]->tmp(*ob[o.b]); break;
      case O_SWAP: { std::unique_ptr<MObj> x(ob[o.a]->clone()); ob[o.a]->assign(*ob[o.b]); ob[o.b]->assign(*x); break; }
      case O_RESIZE: ob[o.a]->resize(o); ob[o.a]->refill(o.seed); break;
      case O_SET: case O_VIEW: if (int n = ob[o.a]->count()) { int e = o.e % n; ob[o.a]->seeds[e] = o.seed; if (o.code == O_SET) ob[o.a]->set(e, o.seed); else ob[o.a]->view(e, o.seed); } break;
      case O_DEL: ob[o.a].reset(); break;
    }
    for (auto& x : ob) if (x) x->verify(nm[o.code]);
  }
}
// ---- stopwatches -----------------------------------------------------------------------------------
struct Watch { StopWatch w; bool running = false, ok = false; long from = 0, total = 0; };
static std::map<long, Watch>* watches;
static void sw_check(long i, const std::string& after) {
  Watch& x = (*watches)[i];
  double us = x.w.getTimeInMicroseconds(), s = x.w.getTimeInSeconds();
  char b[200];
  if (!(std::fabs(us - (double)x.total) <= 0.5)) { snprintf(b, sizeof b, "stopwatch %ld shows %.1f microseconds instead of %ld after %s", i, us, x.total, after.c_str()); bad("stopwatch.time", b); }
  if (!(std::fabs(s - x.total * 1e-6) <= 0.5e-6 + std::fabs(s) * 4e-16)) { snprintf(b, sizeof b, "stopwatch %ld shows %.7f seconds instead of %.6f after %s", i, s, x.total * 1e-6, after.c_str()); bad("stopwatch.time", b); }
}
static bool run_watch(const Op& o) {
  if (o.name.compare(0, 3, "sw.")) return false;
  if (!watches) watches = new std::map<long, Watch>;
  long i = o.arg(0); Watch& x = (*watches)[i];
  int ok; long us, n0 = sim_clock_reads(&ok, &us);
  bool still = x.total >= 0;
  if (o.name == "sw.start") {
    x.w.start();
    if (sim_clock_reads(&ok, &us) == n0) bad("stopwatch.clock", "start() did not read the clock");
    x.running = true; x.ok = ok; x.from = us;
  } else if (o.name == "sw.stop") {
    x.w.stop();
    if (x.running) {
      if (sim_clock_reads(&ok, &us) == n0) bad("stopwatch.clock", "stop() did not read the clock");
      if (x.ok && ok && us >= x.from) { x.total += us - x.from; sim_note("sw.interval", 1); }
      else if (x.ok && ok) sim_note("sw.backwards", 1);
      else sim_note("sw.unread", 1);
    } else sim_note("sw.misuse", 1);
    x.running = false;
  } else if (o.name == "sw.reset") { x.w.reset(); x.running = false; x.total = 0; }
  else if (o.name == "sw.copy") { if (i != o.arg(1)) x = (*watches)[o.arg(1)]; }
  else if (o.name == "sw.new") { watches->erase(i); (*watches)[i]; }
  else if (o.name == "sw.wait") { usleep((useconds_t)o.arg(1)); return still; }
  for (auto& w : *watches) sw_check(w.first, o.name + " " + std::to_string(i));
  double v[1] = {x.w.getTimeInMicroseconds()}; (void)v;
  return true;
}
bool run_misc(VM& vm, const Op& o) {
  V = &vm;
  if (run_watch(o)) return true;
  if (o.name == "m.block") {            // seed, n, types: the same program again and again; memory must not grow
    auto prog = program((uint64_t)o.arg(0), (int)o.arg(1), o.arg(2));
    long left[3];
    for (int k = 0; k < 3; ++k) { long mark = sim_mem_mark(), pool = tbb::live_blocks(); runblock(prog); left[k] = sim_mem_live(mark) + (tbb::live_blocks() - pool); }
    if (left[1] > 0 && left[2] > 0) bad("memory.leak", std::to_string(left[2]) + " blocks are left each time all objects of a program were destroyed");
    return true;
  }
  if (o.name == "m.ballast") {          // bytes taken from the lattice memory for the whole life
    char* p = (char*)QDP::Allocator::theQDPAllocator::Instance().allocate((size_t)o.arg(0), QDP::Allocator::DEFAULT);
    p[0] = 1; p[o.arg(0) - 1] = 1; return true;
  }
  return false;
}
