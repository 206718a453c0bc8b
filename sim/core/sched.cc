// Choices, fibers, scheduler, outcome reporting.
#include "sim.h"
#include "internal.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <unistd.h>
#include <sys/mman.h>
#include <cxxabi.h>

extern "C" void* __libc_malloc(size_t);

namespace sim {

const Spec* g_spec = nullptr;
int g_phase = 0;
bool g_verbose = false;
bool g_replay_done = false;
Fault g_fault;
Fiber* g_cur = nullptr;
long g_steps = 0;
long g_now_us = 1000000000L * 1000;
std::vector<Node*> g_nodes;
int g_result_fd = -1;

// ---------------------------------------------------------------- choices
static Rng g_rng;
static bool g_replay = false;
static std::vector<std::pair<long, int>> g_in, g_out;
static size_t g_inpos = 0;
static long g_nchoice = 0;
static uint64_t g_hash = 1469598103934665603ull;
static uint64_t g_sig = 0;
static std::map<std::string, long> g_counts;

void choices_init(uint64_t seed, bool replay, const std::vector<std::pair<long, int>>& tr) {
  g_rng = Rng(seed); g_replay = replay; g_in = tr; g_inpos = 0; g_out.clear(); g_nchoice = 0;
}
static int record(int n, const char* tag, int v) {
  if (v) g_out.push_back({g_nchoice, v});
  ++g_nchoice;
  g_hash = (g_hash ^ (uint64_t)(v + 1) ^ ((uint64_t)n << 20)) * 1099511628211ull;
  (void)tag;
  return v;
}
int choose_w(int n, const char* tag, const std::function<int(Rng&)>& pick) {
  if (n <= 1) return 0;
  int v = 0;
  if (g_replay) {
    while (g_inpos < g_in.size() && g_in[g_inpos].first < g_nchoice) ++g_inpos;
    if (g_inpos < g_in.size() && g_in[g_inpos].first == g_nchoice) v = g_in[g_inpos].second % n;
    else if (g_inpos >= g_in.size()) g_replay_done = true;
  } else {
    v = pick(g_rng);
    if (v < 0 || v >= n) v = 0;
  }
  return record(n, tag, v);
}
int choose(int n, const char* tag) { return choose_w(n, tag, [n](Rng& r) { return r.below(n); }); }
int choose_pct(int pct, const char* tag) {
  if (pct <= 0) return 0;
  return choose_w(2, tag, [pct](Rng& r) { return r.below(100) < pct ? 1 : 0; });
}

// ---------------------------------------------------------------- log
void logmix(uint64_t v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
void logf(const char* fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  for (int i = 0; i < n; ++i) g_hash = (g_hash ^ (unsigned char)b[i]) * 1099511628211ull;
  if (g_verbose) {
    char h[64]; int m = snprintf(h, sizeof h, "%8ld n%d.%d ", g_steps, cur_node_id(), cur_thread_id());
    std::string s(h, m); s.append(b, n); s += '\n';
    raw_write(2, s.data(), s.size());
  }
}
void count(const char* what, long n) { g_counts[what] += n; }

bool inject(const char* kind) {
  auto& k = g_spec->k;
  std::string ks(kind);
  auto at = k.find("fat." + ks);
  long site = ++g_counts["site." + ks];
  bool fire = false;
  if (at != k.end()) fire = (site == at->second);
  else {
    auto r = k.find("f." + ks);
    if (r == k.end() || r->second <= 0) return false;
    long mx = g_spec->knob("f.max", 1);
    if (g_fault.injected >= mx) return false;
    if (site <= g_spec->knob("f.skip", 0)) return false;
    long pm = r->second;
    fire = choose_w(2, kind, [pm](Rng& g) { return (long)(g.next() % 1000) < pm ? 1 : 0; });
  }
  if (fire) { faulted(kind); logf("FAULT %s site %ld", kind, site); }
  return fire;
}
void faulted(const char* kind) {
  ++g_fault.injected; if (!strcmp(kind, "crash")) ++g_fault.crashes;
  ++g_counts["fault." + std::string(kind)];
  if (cur_node()) cur_node()->fault_seen++;
}

// ---------------------------------------------------------------- outcome
static void put_result(const char* status, const char* cls, const char* msg) {
  std::string s;
  s += "status "; s += status; s += "\nclass "; s += cls; s += "\nmsg ";
  for (const char* p = msg; *p; ++p) s += (*p == '\n' ? '|' : *p);
  char b[256];
  snprintf(b, sizeof b, "\nhash %016lx\nsteps %ld\nsimus %ld\nchoices %ld\nsig %016lx\n", (long)g_hash, g_steps,
           g_now_us - 1000000000L * 1000, g_nchoice, (long)g_sig);
  s += b;
  for (auto& c : g_counts) { snprintf(b, sizeof b, "count %s %ld\n", c.first.c_str(), c.second); s += b; }
  s += "trace";
  for (auto& t : g_out) { snprintf(b, sizeof b, " %ld:%d", t.first, t.second); s += b; }
  s += "\nend\n";
  if (g_result_fd >= 0) raw_write(g_result_fd, s.data(), s.size());
}
void note_sig(uint64_t v) { g_sig = mix(g_sig, v); }

static bool g_ending = false;
void violation(const char* cls, const char* fmt, ...) {
  if (g_ending) raw_exit(9);
  g_ending = true;
  g_host_depth++;
  char b[8000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  std::string m(b);
  if (cur_node()) {
    Node* n = cur_node();
    char h[200]; snprintf(h, sizeof h, " [phase %d node %d op %d", g_phase, n->id, n->opidx);
    m += h;
    if (g_spec && g_phase < (int)g_spec->phases.size() && n->opidx >= 0 && n->opidx < (int)g_spec->phases[g_phase].ops.size()) {
      const Op& o = g_spec->phases[g_phase].ops[n->opidx];
      m += ": " + o.name;
      for (long a : o.a) { m += ' '; m += std::to_string(a); }
      for (auto& w : o.s) { m += " |"; for (char c : w.substr(0, 40)) m += c >= 32 && c < 127 ? c : '?'; }
    }
    m += "]";
  }
  logf("VIOLATION %s: %s", cls, m.c_str());
  put_result("violation", cls, m.c_str());
  raw_exit(1);
}
void sim_bug(const char* fmt, ...) {
  if (g_ending) raw_exit(9);
  g_ending = true;
  g_host_depth++;
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  put_result("simbug", "simbug", b);
  raw_exit(3);
}
void finish_ok() {
  g_host_depth++;
  put_result("ok", "-", "-");
  raw_exit(0);
}

// ---------------------------------------------------------------- fibers
struct Fiber {
  void* sp = nullptr;
  void* stack = nullptr; size_t ssize = 0;
  Node* node = nullptr;
  int tid = 0, fid = 0;
  enum { READY, BLOCKED, DONE } st = READY;
  const char* why = "";
  std::function<bool()> pred;
  std::function<void()> fn;
  char ehg[16];               // __cxa_eh_globals
  int err = 0;
  int hd = 1;                 // host depth while switched out
  void* user = nullptr;       // thread-runtime data
  int prio = 0;
};
static std::vector<Fiber*> g_fibers;
static std::vector<std::pair<void*, size_t>> g_freestacks;
static void* g_sched_sp;
static int g_host_eh_saved;
static char g_host_eh[16];
static std::vector<EventSource> g_sources;
static int g_nextfid = 0;
static int g_last_fid = -1;
static int g_changepts_left = 0;

Node* cur_node() { return g_cur ? g_cur->node : nullptr; }
int cur_node_id() { return g_cur ? g_cur->node->id : -1; }
int cur_thread_id() { return g_cur ? g_cur->tid : 0; }
void*& fiber_user() { return g_cur->user; }
int fiber_id() { return g_cur ? g_cur->fid : -1; }

extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $16, %rsp
  stmxcsr (%rsp)
  fnstcw 8(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 8(%rsp)
  addq $16, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void to_sched() {
  Fiber* f = g_cur;
  memcpy(f->ehg, abi::__cxa_get_globals(), 16);
  f->err = errno; f->hd = g_host_depth; g_host_depth = 1;
  g_cur = nullptr;
  sim_switch(&f->sp, g_sched_sp);
}

extern "C" void sim_fiber_main() {
  Fiber* f = g_cur;
  f->fn();
  f->st = Fiber::DONE;
  to_sched();
  abort();
}

void spawn(Node* n, int tid, std::function<void()> fn) {
  g_host_depth++;
  Fiber* f = new Fiber;
  f->node = n; f->tid = tid; f->fid = g_nextfid++; f->fn = std::move(fn);
  size_t ss = tid ? (512 << 10) : (2 << 20);
  for (size_t i = 0; i < g_freestacks.size(); ++i)
    if (g_freestacks[i].second == ss) { f->stack = g_freestacks[i].first; f->ssize = ss; g_freestacks.erase(g_freestacks.begin() + i); break; }
  if (!f->stack) {
    f->stack = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    f->ssize = ss;
    if (f->stack == MAP_FAILED) sim_bug("mmap stack");
    mprotect(f->stack, 4096, PROT_NONE);
  }
  size_t fill = tid ? 16384 : 131072;
  memset((char*)f->stack + ss - fill, g_stack_poison, fill);
  uint64_t* sp = (uint64_t*)((char*)f->stack + ss - 64);
  *--sp = 0;                       // fake return, keeps alignment
  *--sp = (uint64_t)&sim_fiber_main;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  sp -= 2;
  uint32_t mx; asm volatile("stmxcsr %0" : "=m"(mx));
  uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw));
  ((uint32_t*)sp)[0] = mx; ((uint32_t*)sp)[1] = 0; ((uint32_t*)sp)[2] = cw; ((uint32_t*)sp)[3] = 0;
  f->sp = sp;
  memset(f->ehg, 0, 16);
  f->prio = (g_spec->knob("strat") == 2) ? choose(1000, "prio") : 0;
  g_fibers.push_back(f);
  g_host_depth--;
}

void add_event_source(const EventSource& e) { g_sources.push_back(e); }
void clear_event_sources() { g_sources.clear(); }

void yield_point(const char* why) {
  if (!g_cur) return;
  g_cur->why = why;
  to_sched();
}
void block_until(const char* why, const std::function<bool()>& pred) {
  if (!g_cur) { if (!pred()) sim_bug("host blocked in %s", why); return; }
  if (pred()) { yield_point(why); if (pred()) return; }
  Fiber* f = g_cur;
  f->why = why; f->pred = pred; f->st = Fiber::BLOCKED;
  to_sched();
}

void end_current_node(NodeEnd e, int code, const std::string& why) {
  Node* n = cur_node();
  if (!n) sim_bug("end_current_node in host: %s", why.c_str());
  g_host_depth++;
  n->end = e; n->exit_code = code; n->why = why;
  logf("node end %d code %d %s", (int)e, code, why.c_str());
  // all fibers of the node stop here
  for (Fiber* f : g_fibers) if (f->node == n && f != g_cur) f->st = Fiber::DONE;
  g_cur->st = Fiber::DONE;
  to_sched();
  abort();
}

void kill_all_fibers() {
  for (Fiber* f : g_fibers) { g_freestacks.push_back({f->stack, f->ssize}); delete f; }
  g_fibers.clear();
}

std::string blocked_report() {
  std::string s;
  for (Fiber* f : g_fibers)
    if (f->st != Fiber::DONE) {
      char b[256]; snprintf(b, sizeof b, "node %d.%d %s in %s (op %d); ", f->node->id, f->tid, f->st == Fiber::BLOCKED ? "blocked" : "ready", f->why, f->node->opidx);
      s += b;
    }
  return s;
}

bool (*g_long_ok)() = nullptr;
bool run_scheduler() {
  long maxsteps = g_spec->knob("maxsteps", 400000);
  int strat = (int)g_spec->knob("strat", 0);
  int slow = (int)g_spec->knob("slow", 0);
  long grace = -1;
  g_changepts_left = (int)g_spec->knob("pct", 3);
  long g_start = g_steps;
  for (;;) {
    // a stopped machine: remaining nodes get a bounded number of further steps
    bool stopped = false;
    for (Node* n : g_nodes) if (n->end == NE_EXIT || n->end == NE_ABORT || n->end == NE_EXCEPTION || n->end == NE_CRASHED) stopped = true;
    if (stopped) {
      if (grace < 0) {
        bool crashed = false; for (Node* n : g_nodes) if (n->end == NE_CRASHED) crashed = true;
        grace = crashed ? 0 : choose(4, "grace") * 15;
      }
      if (grace-- == 0) return false;
    }
    std::vector<Fiber*> cand; int alive = 0;
    size_t base = 0;
    for (size_t i = 0; i < g_fibers.size(); ++i) if (g_fibers[i]->fid == g_last_fid) base = i;
    for (size_t k = 0; k < g_fibers.size(); ++k) {
      Fiber* f = g_fibers[(base + k) % g_fibers.size()];
      if (f->st == Fiber::DONE) continue;
      ++alive;
      if (f->st == Fiber::BLOCKED && !f->pred()) continue;
      cand.push_back(f);
    }
    if (!alive) return true;
    int nev = 0; std::vector<int> evn;
    for (auto& s : g_sources) { int r = s.ready(); evn.push_back(r); nev += r; }
    int nf = (int)cand.size(), n = nf + nev;
    if (!n) {
      if (stopped) return false;
      violation("deadlock", "no node can make progress: %s", blocked_report().c_str());
    }
    if (++g_steps - g_start > maxsteps && g_long_ok && g_long_ok()) { count("env.long-run"); return false; }
    if (g_steps - g_start > maxsteps) violation("livelock", "no end after %ld steps: %s", maxsteps, blocked_report().c_str());
    g_now_us += 1;
    int pick = 0;
    if (n > 1)
      pick = choose_w(n, "sched", [&](Rng& r) -> int {
        switch (strat) {
          default: return r.below(n);
          case 1:  // run to block
            if (r.below(100) < 85) return 0;
            return r.below(n);
          case 2: { // priorities with a few change points
            if (g_changepts_left > 0 && r.below(40) == 0 && nf) { --g_changepts_left; cand[r.below(nf)]->prio = -(int)g_steps; }
            int best = 0, bp = INT32_MIN;
            for (int i = 0; i < nf; ++i) if (cand[i]->prio > bp) { bp = cand[i]->prio; best = i; }
            if (nev && (nf == 0 || r.below(100) < 20)) return nf + r.below(nev);
            return best;
          }
          case 3: { // one slow node
            for (int t = 0; t < 8; ++t) {
              int i = r.below(n);
              if (i >= nf || cand[i]->node->id != slow || r.below(30) == 0) return i;
            }
            return r.below(n);
          }
          case 4:  // slow network: deliver only rarely
            if (nf && nev && r.below(30)) return r.below(nf);
            return r.below(n);
          case 5:  // eager network
            if (nev && r.below(10)) return nf + r.below(nev);
            return r.below(n);
        }
      });
    if (pick >= nf) {
      int e = pick - nf;
      for (size_t s = 0; s < g_sources.size(); ++s) {
        if (e < evn[s]) { g_sources[s].fire(e); break; }
        e -= evn[s];
      }
      continue;
    }
    Fiber* f = cand[pick];
    if (f->fid != g_last_fid) { note_sig(((uint64_t)f->node->id << 40) ^ ((uint64_t)f->tid << 32) ^ (uint64_t)(f->node->opidx + 1)); g_counts["switches"]++; }
    g_last_fid = f->fid;
    f->st = Fiber::READY; f->pred = nullptr;
    memcpy(g_host_eh, abi::__cxa_get_globals(), 16);
    memcpy(abi::__cxa_get_globals(), f->ehg, 16);
    errno = f->err; g_host_depth = f->hd;
    g_cur = f;
    sim_switch(&g_sched_sp, f->sp);
    memcpy(abi::__cxa_get_globals(), g_host_eh, 16);
    if (f->st == Fiber::DONE) {
      g_freestacks.push_back({f->stack, f->ssize});
      g_fibers.erase(std::find(g_fibers.begin(), g_fibers.end(), f));
      delete f;
    }
  }
}

} // namespace sim
