// The program every simulated node runs: a small interpreter over the QDP++ API.
#ifndef SIM_VM_H
#define SIM_VM_H
#include "qdp.h"
#include "../common/api.h"
#include "../common/funcs.h"
#include <map>
#include <vector>

using namespace QDP;
typedef sim::Op Op;

#ifdef VM_IO
#include "qdp_disk_map_slice.h"
#include <set>
#include "vm_io.h"
#endif
struct SlotBase { int kind; virtual ~SlotBase() {} };
template <class T> struct Slot : SlotBase { T f; };

struct VM;
struct KindRunner {                 // one per element kind
  virtual SlotBase* make() = 0;
  virtual bool run(VM&, const Op&) = 0;
  virtual void report(VM&, int slot) = 0;
};

struct VM {
  const sim::Phase* ph = nullptr;
  int node = 0;
  long nloc = 0;
  std::vector<int> coords;          // nloc*4
  std::vector<long> lexs;
  int L[4];
  std::map<int, SlotBase*> slots;
  std::map<int, Set*> sets;
  std::map<int, Map*> maps;
  std::map<int, BiDirectionalMap*> bimaps;
  std::map<int, ArrayMap*> amaps;
  std::map<int, ArrayBiDirectionalMap*> abmaps;
#ifdef VM_IO
  std::map<int, IoH*> io;
  std::map<std::pair<int, int>, long> marks;
#endif
  int setOf(const Op& o, size_t i) { return (int)o.arg(i, -1); }
  const Set& set(int k);
  const Subset& subset(int k, int col) { return k < 0 || k == simf::S_ALL ? QDP::all : set(k)[col]; }
  template <class T> T& f(long s) { return static_cast<Slot<T>*>(slots.at((int)s))->f; }
  int kind(long s) { auto i = slots.find((int)s); return i == slots.end() ? -1 : i->second->kind; }
  void report(long s);
  multi1d<int> coord(const Op& o, size_t i) { multi1d<int> c(4); for (int m = 0; m < 4; ++m) c[m] = (int)o.arg(i + m); return c; }
};

KindRunner* kind_runner(int k);
typedef bool (*OpGroup)(VM&, const Op&);
// special groups, each in its own file; return false when the op is not theirs
bool run_basic(VM&, const Op&);
#ifdef VM_LIN
bool run_lin(VM&, const Op&);
#endif
#ifdef VM_RNG
bool run_rng(VM&, const Op&);
#endif
#ifdef VM_IO
bool run_io(VM&, const Op&);
#endif
#ifdef VM_ARCH
bool run_arch(VM&, const Op&);
#endif
#ifdef VM_DB
bool run_db(VM&, const Op&);
#endif
#ifdef VM_XML
bool run_xml(VM&, const Op&);
#endif
#ifdef VM_QIO
bool run_qio(VM&, const Op&);
bool qio_gives_up(const Op&);
#endif
#ifdef VM_MISC
bool run_misc(VM&, const Op&);
#endif

// word access
template <class T> struct Words {
  typedef typename WordType<T>::Type_t W;
  static int n() { return int(sizeof(T) / sizeof(W)); }
  static W* p(T& x) { return reinterpret_cast<W*>(&x); }
  static const W* p(const T& x) { return reinterpret_cast<const W*>(&x); }
};
template <class T> void put_words(std::vector<double>& v, const T& x) {
  const typename Words<T>::W* p = Words<T>::p(x);
  for (int i = 0; i < Words<T>::n(); ++i) v.push_back((double)p[i]);
}
template <class T> void values(const T& x) { std::vector<double> v; put_words(v, x); sim_values(v.data(), (int)v.size()); }
inline void values_v(const std::vector<double>& v) { sim_values(v.data(), (int)v.size()); }

struct SFunc : public SetFunc {
  int k; const int* L;
  SFunc(int k_, const int* L_) : k(k_), L(L_) {}
  int operator()(const multi1d<int>& c) const { int x[4]; for (int i = 0; i < 4; ++i) x[i] = c[i]; return simf::set_color(k, x, L); }
  int numSubsets() const { return simf::set_ncol(k, L); }
};
struct MFunc : public MapFunc {
  int k; long p[4]; const int* L;
  multi1d<int> operator()(const multi1d<int>& c, int sign) const {
    int x[4], o[4]; for (int i = 0; i < 4; ++i) x[i] = c[i];
    simf::map_fn(k, p, sign, x, L, o);
    multi1d<int> r(4); for (int i = 0; i < 4; ++i) r[i] = o[i]; return r;
  }
};
// array of displacements: dir d moves p[d] sites along axis d
struct AFunc : public ArrayMapFunc {
  int n; long p[4]; const int* L;
  multi1d<int> operator()(const multi1d<int>& c, int sign, int dir) const {
    int x[4], o[4]; for (int i = 0; i < 4; ++i) x[i] = c[i];
    long q[4] = {0, 0, 0, 0}; q[dir & 3] = p[dir];
    simf::map_fn(simf::M_DISP, q, sign, x, L, o);
    multi1d<int> r(4); for (int i = 0; i < 4; ++i) r[i] = o[i]; return r;
  }
  int numArray() const { return n; }
};
#endif
