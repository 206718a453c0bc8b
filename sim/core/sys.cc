// Clock, process exit, assertion failures, static-guard, host name.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include "sys.h"
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cstring>
#include <cstdlib>
#include <signal.h>

namespace sim {
static std::vector<ClockRead> g_reads;
std::vector<ClockRead>& clock_reads() { return g_reads; }
static bool mine() { return g_cur && g_host_depth == 0; }

// the clock node code sees
static bool sim_clock(long* us) {
  HostScope h;
  int mode = (int)g_spec->knob("clk", 0);
  if (mode == 0) { g_now_us += 1; *us = g_now_us; }
  else {
    // 0 small step, 1 sub-second, 2 seconds, 3 hours, 4 no advance, 5 back inside the second, 6 back across seconds, 7 failure
    int k = choose_w(8, "clock", [](Rng& r) {
      static const int w[] = {25, 25, 15, 5, 10, 0, 0, 0};
      int x = r.below(80); for (int i = 0; i < 8; ++i) { if (x < w[i]) return i; x -= w[i]; } return 0; });
    if (mode & 2) { if (inject("clock.back")) k = 5 + choose(2, "back"); }
    if (mode & 4) { if (inject("clock.fail")) k = 7; }
    switch (k) {
      case 0: g_now_us += 1 + choose(20, "clk-us"); break;
      case 1: g_now_us += 1 + choose(999999, "clk-us"); break;
      case 2: g_now_us += 1 + choose(10000000, "clk-us"); break;
      case 3: g_now_us += 1000000L * choose(2000000000, "clk-s") / 100 + choose(1000000, "clk-us"); break;
      case 4: break;
      case 5: { long f = g_now_us % 1000000; if (f) g_now_us -= 1 + choose((int)f, "clk-us"); break; }
      case 6: g_now_us -= 1 + choose(500000000, "clk-us"); break;
      case 7: g_reads.push_back({cur_node_id(), false, 0}); logf("clock fails"); return false;
    }
    *us = g_now_us;
  }
  g_reads.push_back({cur_node_id(), true, *us});
  logf("clock %ld", *us);
  return true;
}
} // namespace sim
using namespace sim;
#define VIS __attribute__((visibility("default")))
extern "C" {
VIS long sim_clock_reads(int* ok, long* us) {
  HostScope h; long n = 0; *ok = 0; *us = 0;
  for (auto& r : g_reads) if (r.node == cur_node_id()) { ++n; *ok = r.ok; *us = r.us; }
  return n;
}
VIS int gettimeofday(struct timeval* tv, void*) {
  if (!mine()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  long us; if (!sim_clock(&us)) { errno = EFAULT; return -1; }
  tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000; return 0;
}
VIS int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!mine()) return (int)syscall(SYS_clock_gettime, id, ts);
  long us; if (!sim_clock(&us)) { errno = EFAULT; return -1; }
  ts->tv_sec = us / 1000000; ts->tv_nsec = us % 1000000 * 1000; return 0;
}
VIS time_t time(time_t* t) {
  if (!mine()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  time_t v = g_now_us / 1000000; if (t) *t = v; return v;
}
VIS clock_t clock() { return (clock_t)(mine() ? g_now_us : 0); }
VIS int usleep(useconds_t us) { if (mine()) { g_now_us += us; yield_point("sleep"); } return 0; }
VIS unsigned sleep(unsigned s) { if (mine()) { g_now_us += s * 1000000L; yield_point("sleep"); } return 0; }
VIS int nanosleep(const struct timespec* t, struct timespec*) { if (mine()) { g_now_us += t->tv_sec * 1000000L + t->tv_nsec / 1000; yield_point("sleep"); } return 0; }
VIS int gethostname(char* b, size_t n) { strncpy(b, "simhost", n); return 0; }
VIS int rand() { if (mine()) { HostScope h; return choose(1 << 30, "rand"); } return 0; }

typedef void (*exit_fn)(int) __attribute__((noreturn));
VIS void exit(int c) {
  if (mine()) end_current_node(NE_EXIT, c, "exit(" + std::to_string(c) + ")");
  raw_exit(c);
}
VIS void _exit(int c) { if (mine()) end_current_node(NE_EXIT, c, "_exit"); raw_exit(c); }
VIS void abort() {
  if (mine()) end_current_node(NE_ABORT, 134, "abort()");
  raw_exit(134);
}
VIS void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
  if (mine()) end_current_node(NE_ABORT, 134, std::string("assert ") + e + " at " + (strrchr(f, '/') ? strrchr(f, '/') + 1 : f) + ":" + std::to_string(l));
  raw_exit(134);
}
VIS void __stack_chk_fail() { g_host_depth++; violation("memory.stack", "stack smashing detected"); }

// function-local statics: a fiber waiting for another one's initialiser yields
VIS int __cxa_guard_acquire(char* g) {
  if (g[0]) return 0;
  if (g_cur) { char* gg = g; if (g[1]) { HostScope h; block_until("static-guard", [gg] { return gg[1] == 0; }); if (g[0]) return 0; } }
  g[1] = 1; threads_guard(+1);
  return 1;
}
VIS void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; threads_guard(-1); }
VIS void __cxa_guard_abort(char* g) { g[1] = 0; threads_guard(-1); }
}
