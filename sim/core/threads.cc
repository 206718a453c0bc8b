// Simulated thread teams (OpenMP runtime, QMT) and the memory-access runtime
// behind -fsanitize=thread: race detection and preemption points.
#include "internal.h"
#include "sys.h"
#include <cstring>
#include <cstdlib>
#include <unordered_map>
#include <deque>
#include <dlfcn.h>

namespace sim {
namespace {
struct Team {
  Node* node; int n; int left; int barrier_in = 0; long barrier_gen = 0;
  long region; int single_gen = 0;
  struct Loop { long next, end, incr, chunk; int left; bool up; };
  std::map<long, Loop> loops;
};
struct Thr { Team* team = nullptr; int tid = 0; int locks = 0; uint64_t lockmask = 0; long singles = 0; long loopno = 0; int guard = 0; };

std::map<int, Thr> g_thr;                 // by fiber id
Thr g_none;
long g_region = 0;
int g_teams = 0;                          // active teams with n>1
int g_icv[64];                            // omp_set_num_threads per node
int g_qmt[64];                            // QMT: 0 not started, 1 running, 2 shut down

Thr& thr() {
  if (!g_cur) return g_none;
  return g_thr[fiber_id()];
}

// ---- shadow memory: last accesses in the current region, per byte ----------
struct Cell { int region; signed char wt, rt; unsigned char wa : 1, ra : 1, multi : 1; unsigned char wl : 4, rl : 4; };
// page table keyed by address >> 12
struct Page { Cell c[4096]; };
std::unordered_map<uint64_t, Page*>* g_shadow;
uint64_t g_lastpn = ~0ull; Page* g_lastpg = nullptr;
Page* page(uint64_t pn) {
  if (pn == g_lastpn) return g_lastpg;
  if (!g_shadow) g_shadow = new std::unordered_map<uint64_t, Page*>;
  Page*& p = (*g_shadow)[pn];
  if (!p) p = (Page*)calloc(1, sizeof(Page));
  g_lastpn = pn; g_lastpg = p;
  return p;
}
long g_gap = -1;          // accesses until the next preemption
long g_access = 0;

[[noreturn]] void race(const char* what, void* addr, size_t n, int other) {
  size_t bs = 0; int nd = 0; const char* b = (const char*)mem_block_of(addr, &bs, &nd);
  violation("thread.race", "%s: threads %d and %d access the same %zu bytes%s without ordering", what, other, thr().tid, n,
            b ? (" at offset " + std::to_string((char*)addr - b) + " of a " + std::to_string(bs) + " byte block").c_str() : " of static or stack data");
}

inline void access(void* a, size_t n, bool wr, bool atomic) {
  if (!g_teams || !g_cur || g_host_depth) return;
  HostScope h;
  Thr& t = thr();
  if (!t.team || t.team->n < 2 || t.guard) return;
  ++g_access;
  int reg = (int)t.team->region;
  uint64_t p = (uint64_t)a;
  for (size_t i = 0; i < n; ++i, ++p) {
    Cell& c = page(p >> 12)->c[p & 4095];
    if (c.region != reg) { c.region = reg; c.wt = c.rt = -1; c.multi = false; c.wl = c.rl = 0; c.wa = c.ra = false; }
    if (wr) {
      if (c.wt >= 0 && c.wt != t.tid && !(c.wa && atomic) && !(c.wl & t.lockmask)) race("write/write", a, n, c.wt);
      if (c.rt >= 0 && (c.rt != t.tid || c.multi) && !(c.ra && atomic) && !(c.rl & t.lockmask)) race("read/write", a, n, c.rt != t.tid ? c.rt : -1);
      c.wt = (signed char)t.tid; c.wa = atomic; c.wl = t.lockmask;
    } else {
      if (c.wt >= 0 && c.wt != t.tid && !(c.wa && atomic) && !(c.wl & t.lockmask)) race("write/read", a, n, c.wt);
      if (c.rt >= 0 && c.rt != t.tid) { c.multi = true; c.ra = c.ra && atomic; c.rl &= t.lockmask; }
      else if (c.rt < 0) { c.ra = atomic; c.rl = t.lockmask; }
      else { c.ra = c.ra && atomic; c.rl &= t.lockmask; }
      c.rt = (signed char)t.tid;
    }
  }
  if (g_gap < 0) {
    int mean = (int)g_spec->knob("gap", 400);
    g_gap = mean ? choose_w(1 << 20, "gap", [mean](Rng& r) { return 1 + r.below(r.below(4) ? mean : mean * 20); }) : 0;
    if (g_gap == 0) g_gap = 1L << 40;
  }
  if (--g_gap == 0) { g_gap = -1; count("thread.preempt"); yield_point("access"); }
}
} // namespace

void threads_reset() { g_thr.clear(); g_teams = 0; g_gap = -1; for (int& i : g_icv) i = 0; for (int& i : g_qmt) i = 0; }
void threads_end_of_phase(bool clean) {
  if (clean) for (int i = 0; i < 64; ++i) if (g_qmt[i] == 1) violation("thread.not-finalized", "node %d shut the library down but left its thread pool running", i);
}
void threads_guard(int d) { if (g_cur) { HostScope h; thr().guard += d; } }
void shadow_clear(void* p, size_t n) {
  if (!g_teams || !g_shadow) return;
  HostScope h;
  uint64_t a = (uint64_t)p;
  for (size_t i = 0; i < n; ++i) page((a + i) >> 12)->c[(a + i) & 4095].region = 0;
}
long thread_accesses() { return g_access; }

static int maxthreads() { int i = cur_node_id(); if (i < 0) return 1; return g_icv[i & 63] ? g_icv[i & 63] : cur_node()->nthreads; }

// run fn(tid) on n threads of the current node
static void parallel(int n, const std::function<void(int)>& fn) {
  HostScope h;
  Thr& me = thr();
  if (me.team && me.team->n > 1) n = 1;         // nested regions are serialised
  Team* t = new Team; t->node = cur_node(); t->n = n; t->left = n; t->region = ++g_region;
  Thr saved = me;
  if (n > 1) ++g_teams;
  count("thread.regions"); count("thread.workers", n);
  for (int k = 1; k < n; ++k)
    spawn(t->node, k, [t, k, &fn] {
      { Thr& x = thr(); x.team = t; x.tid = k; x.lockmask = 0; }
      int d = g_host_depth; g_host_depth = 0;
      fn(k);
      g_host_depth = d;
      --t->left;
    });
  { Thr& x = thr(); x.team = t; x.tid = 0; x.lockmask = 0; x.singles = 0; x.loopno = 0; }
  if (n > 1) yield_point("fork");
  int d = g_host_depth; g_host_depth = 0;
  fn(0);
  g_host_depth = d;
  --t->left;
  block_until("join", [t] { return t->left == 0; });
  if (n > 1) --g_teams;
  thr() = saved;
  delete t;
}
static void barrier() {
  Thr& x = thr(); Team* t = x.team;
  if (!t || t->n < 2) return;
  HostScope h;
  long gen = t->barrier_gen;
  if (++t->barrier_in == t->n) { t->barrier_in = 0; ++t->barrier_gen; t->region = ++g_region; }
  else block_until("barrier", [t, gen] { return t->barrier_gen != gen; });
}
static std::map<std::pair<int, void*>, int> g_locks;   // (node, lock) -> holder fiber
static uint64_t lockbit(void* l) { static std::map<void*, int> id; auto it = id.find(l); if (it == id.end()) it = id.insert({l, (int)id.size()}).first; return 1ull << (it->second & 3); }
static void lock(void* l) {
  if (!g_cur) return;
  HostScope h;
  auto key = std::make_pair(cur_node_id(), l);
  block_until("critical", [key] { return !g_locks.count(key); });
  g_locks[key] = fiber_id();
  thr().lockmask |= lockbit(l);
}
static void unlock(void* l) {
  if (!g_cur) return;
  HostScope h;
  g_locks.erase(std::make_pair(cur_node_id(), l));
  thr().lockmask &= ~(lockbit(l));
  yield_point("unlock");
}
} // namespace sim

using namespace sim;
#define VIS __attribute__((visibility("default")))
extern "C" {
// ---------------------------------------------------------------- OpenMP
VIS void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  int n = nt ? (int)nt : maxthreads();
  parallel(n, [fn, data](int) { fn(data); });
}
VIS unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned f) { GOMP_parallel(fn, data, nt, f); return nt; }
VIS int omp_get_thread_num() { return g_cur ? thr().tid : 0; }
VIS int omp_get_num_threads() { if (!g_cur) return 1; Thr& t = thr(); return t.team ? t.team->n : 1; }
VIS int omp_get_max_threads() { return maxthreads(); }
VIS int omp_get_num_procs() { return 8; }
VIS void omp_set_num_threads(int n) { int i = cur_node_id(); if (i >= 0) g_icv[i & 63] = n; }
VIS int omp_in_parallel() { return g_cur && thr().team && thr().team->n > 1; }
VIS int omp_get_dynamic() { return 0; }
VIS void omp_set_dynamic(int) {}
VIS int omp_get_level() { return omp_in_parallel(); }
VIS double omp_get_wtime() { return g_now_us * 1e-6; }
VIS void GOMP_barrier() { barrier(); }
static int g_crit, g_atom;
VIS void GOMP_critical_start() { lock(&g_crit); }
VIS void GOMP_critical_end() { unlock(&g_crit); }
VIS void GOMP_critical_name_start(void** p) { lock(p); }
VIS void GOMP_critical_name_end(void** p) { unlock(p); }
VIS void GOMP_atomic_start() { lock(&g_atom); }
VIS void GOMP_atomic_end() { unlock(&g_atom); }
VIS bool GOMP_single_start() {
  Thr& x = thr(); Team* t = x.team; if (!t || t->n < 2) return true;
  HostScope h;
  long mine = x.singles++;
  if (t->single_gen == mine) { ++t->single_gen; return true; }
  return false;
}
static bool loop_next(long* a, long* b) {
  HostScope h; Thr& x = thr(); Team* t = x.team;
  if (!t) return false;
  yield_point("loop-chunk");
  auto& l = t->loops[x.loopno];
  if (l.up ? l.next >= l.end : l.next <= l.end) return false;
  long c = l.chunk < 1 ? 1 : l.chunk;
  *a = l.next; l.next += c * l.incr;
  if (l.up ? l.next > l.end : l.next < l.end) l.next = l.end;
  *b = l.next; return true;
}
static bool loop_start(long s, long e, long i, long c, long* a, long* b) {
  Thr& x = thr(); Team* t = x.team;
  if (!t) { *a = s; *b = e; return s != e; }
  { HostScope h; ++x.loopno; if (!t->loops.count(x.loopno)) t->loops[x.loopno] = {s, e, i, c, t->n, i > 0}; }
  return loop_next(a, b);
}
#define LOOP(k) \
  VIS bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
  VIS bool GOMP_loop_##k##_next(long* a, long* b) { return loop_next(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
VIS bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
VIS bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return loop_next(a, b); }
VIS bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); }
VIS bool GOMP_loop_runtime_next(long* a, long* b) { return loop_next(a, b); }
VIS void GOMP_loop_end() { barrier(); }
VIS void GOMP_loop_end_nowait() {}
#define PLOOP(k) VIS void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { \
    int n = nt ? (int)nt : maxthreads(); \
    parallel(n, [=](int) { { HostScope h; Thr& x = thr(); x.loopno = 1; if (!x.team->loops.count(1)) x.team->loops[1] = {s, e, i, c, n, i > 0}; } fn(d); }); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
// ---------------------------------------------------------------- QMT
VIS int qmt_init() {
  HostScope h; logf("qmt_init"); int& s = g_qmt[cur_node_id() & 63];
  if (s == 1) violation("thread.qmt-twice", "the thread pool is started twice");
  s = 1; return 0;
}
VIS void qmt_finalize() {
  HostScope h; logf("qmt_finalize"); int& s = g_qmt[cur_node_id() & 63];
  if (s != 1) violation("thread.qmt-finalize", "the thread pool is shut down but not running");
  s = 2;
}
VIS int qmt_num_threads() { return maxthreads(); }
VIS int qmt_thread_num() { return g_cur ? thr().tid : 0; }
VIS void qmt_call(void (*f)(int, int, int, const void*), int count, const void* arg) {
  int n = maxthreads();
  if (g_cur && g_qmt[cur_node_id() & 63] != 1) { HostScope h; violation("thread.qmt-call", "the thread pool is used while it is not running"); }
  // the QMT contract: [0,count) in n consecutive chunks
  parallel(n, [=](int k) { long lo = (long)count * k / n, hi = (long)count * (k + 1) / n; if (hi > lo) f((int)lo, (int)hi, k, arg); });
}
// ---------------------------------------------------------------- access runtime
VIS void __tsan_init() {}
VIS void __tsan_func_entry(void*) {}
VIS void __tsan_func_exit() {}
VIS void __tsan_ignore_thread_begin() {}
VIS void __tsan_ignore_thread_end() {}
#define RW(n) \
  VIS void __tsan_read##n(void* a) { access(a, n, false, false); } \
  VIS void __tsan_write##n(void* a) { access(a, n, true, false); } \
  VIS void __tsan_unaligned_read##n(void* a) { access(a, n, false, false); } \
  VIS void __tsan_unaligned_write##n(void* a) { access(a, n, true, false); } \
  VIS void __tsan_read_write##n(void* a) { access(a, n, true, false); } \
  VIS void __tsan_volatile_read##n(void* a) { access(a, n, false, false); } \
  VIS void __tsan_volatile_write##n(void* a) { access(a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
VIS void __tsan_read_range(void* a, size_t n) { access(a, n, false, false); }
VIS void __tsan_write_range(void* a, size_t n) { access(a, n, true, false); }
VIS void __tsan_vptr_read(void** a) { access(a, 8, false, false); }
VIS void __tsan_vptr_update(void** a, void*) { access(a, 8, true, false); }
#define ATOM(bits, T) \
  VIS T __tsan_atomic##bits##_load(const volatile T* a, int) { access((void*)a, sizeof(T), false, true); return *a; } \
  VIS void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, true); *a = v; } \
  VIS T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, true); T o = *a; *a = v; return o; } \
  VIS T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, true); T o = *a; *a = (T)(o + v); return o; } \
  VIS T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, true); T o = *a; *a = (T)(o - v); return o; } \
  VIS T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, true); T o = *a; *a = (T)(o & v); return o; } \
  VIS T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, true); T o = *a; *a = (T)(o | v); return o; } \
  VIS T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access((void*)a, sizeof(T), true, true); T o = *a; *a = (T)(o ^ v); return o; } \
  VIS bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((void*)a, sizeof(T), true, true); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
  VIS bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((void*)a, sizeof(T), true, true); if (*a == *e) { *a = v; return true; } *e = *a; return false; } \
  VIS T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((void*)a, sizeof(T), true, true); T o = *a; if (o == e) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
VIS void __tsan_atomic_thread_fence(int) {}
VIS void __tsan_atomic_signal_fence(int) {}
// the calls the instrumentation turns copies into / leaves as calls
VIS void* __tsan_memcpy(void* d, const void* s, size_t n) { access(d, n, true, false); access((void*)s, n, false, false); return memcpy(d, s, n); }
VIS void* __tsan_memmove(void* d, const void* s, size_t n) { access(d, n, true, false); access((void*)s, n, false, false); return memmove(d, s, n); }
VIS void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
// libc copies called by node code
VIS void* __wrap_memcpy(void* d, const void* s, size_t n) { access((void*)s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
VIS void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
VIS void* __wrap_memmove(void* d, const void* s, size_t n) { access((void*)s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
}
