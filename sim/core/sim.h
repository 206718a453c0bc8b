// Core of the simulator: choices, scheduler, event log, outcome.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include "../common/spec.h"

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 0) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : int(next() % (uint64_t)n); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }   // inclusive
  bool chance(int pct) { return below(100) < pct; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9E3779B97F4A7C15ull)); r.next(); return r.next() ^ b; }

// ---- choices ----------------------------------------------------------------
// Every nondeterministic decision of a run.  weights==nullptr: uniform.
int choose(int n, const char* tag);
int choose_pct(int pct, const char* tag);       // 0/1, 1 with pct percent
int choose_w(int n, const char* tag, const std::function<int(Rng&)>& pick);

// ---- event log / counters ------------------------------------------------------
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char* what, long n = 1);   // reach probes / fault counters
void logmix(uint64_t v);

// ---- outcome -------------------------------------------------------------------
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_bug(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();

// ---- fibers ---------------------------------------------------------------------
struct Fiber;
extern Fiber* g_cur;          // nullptr when host code runs
struct Node;
Node* cur_node();
int cur_node_id();            // -1 in host context
int cur_thread_id();          // thread number inside the node's team

void spawn(Node* n, int tid, std::function<void()> fn);
void yield_point(const char* why);                                  // preemption point
void block_until(const char* why, const std::function<bool()>& pred); // wait in simulated time
extern long g_steps;          // scheduling steps so far
extern long g_now_us;         // simulated clock (microseconds)
extern bool g_replay_done;

// Events offered by components (network deliveries): each returns number of
// deliverable events; fire(i) performs one.
struct EventSource { std::function<int()> ready; std::function<void(int)> fire; };
void add_event_source(const EventSource& e);
void clear_event_sources();

enum NodeEnd { NE_RUNNING, NE_DONE, NE_EXIT, NE_ABORT, NE_EXCEPTION, NE_CRASHED };
struct Node {
  int id = 0;
  void* dso = nullptr;
  NodeEnd end = NE_RUNNING;
  int exit_code = 0;
  std::string why;
  int opidx = -1;             // op being executed
  int nthreads = 1;
  std::string out, err;       // captured output
  long fault_seen = 0;
};
extern std::vector<Node*> g_nodes;

// Runs fibers until all are done/blocked.  Returns true when all fibers ended.
bool run_scheduler();
void kill_all_fibers();       // forget all fibers (crash / abort)
std::string blocked_report();
// called by a fiber that must never continue (exit, abort, crash)
[[noreturn]] void end_current_node(NodeEnd e, int code, const std::string& why);

extern bool (*g_long_ok)();           // a run that reaches the step limit is acceptable
struct Fault {                 // budget and bookkeeping of injected faults
  long injected = 0;           // number of faults injected so far in this run
  long crashes = 0;            // of which crashes of the whole machine
};
extern Fault g_fault;
bool inject(const char* kind); // asks the fault plan; records if fired
void faulted(const char* kind); // records a fault that was decided elsewhere

extern const Spec* g_spec;
extern int g_phase;
extern bool g_verbose;

} // namespace sim
#endif
