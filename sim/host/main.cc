// Command line of the simulator.
//   simhost gen PROP SEED TIER                          print a spec
//   simhost run FILE LIBS [-v]                          run one spec (or replay file) and print the result
//   simhost batch PROP TIER FIRST STRIDE COUNT SECONDS LIBS   run many seeds
// LIBS: comma separated variant=path
#include "host.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <time.h>
using namespace sim;
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::map<std::string, std::string> libs(const char* a) {
  std::map<std::string, std::string> m; std::string s(a); size_t p = 0;
  while (p < s.size()) { size_t e = s.find(',', p); if (e == std::string::npos) e = s.size(); std::string x = s.substr(p, e - p); size_t q = x.find('='); m[x.substr(0, q)] = x.substr(q + 1); p = e + 1; }
  return m;
}
static std::string slurp(const char* f) {
  int fd = !strcmp(f, "-") ? 0 : ::open(f, O_RDONLY); std::string s; char b[65536]; long n;
  if (fd < 0) { fprintf(stderr, "cannot read %s\n", f); exit(2); }
  while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n);
  if (fd) ::close(fd);
  return s;
}
static void out(const std::string& s) { raw_write(1, s.data(), s.size()); }
// run in a child; returns result text
static std::string child(const Spec& s, bool replay, const Trace& tr, bool verbose) {
  int p[2]; if (pipe(p)) exit(2);
  pid_t pid = fork();
  if (pid == 0) {
    ::close(p[0]);
    g_verbose = verbose;
    run_spec(s, replay, tr, p[1]);
  }
  ::close(p[1]);
  std::string r; char b[65536]; double t0 = wall();
  for (;;) {
    struct pollfd f = {p[0], POLLIN, 0};
    int k = (int)syscall(SYS_poll, &f, 1, 1000);
    if (k > 0) { long n = ::read(p[0], b, sizeof b); if (n <= 0) break; r.append(b, n); }
    if (wall() - t0 > 300) { kill(pid, SIGKILL); break; }
  }
  ::close(p[0]);
  int st; waitpid(pid, &st, 0);
  if (r.find("\nend\n") == std::string::npos) {
    char m[200]; snprintf(m, sizeof m, "status lost\nclass lost\nmsg run ended without a result (wait status %x)\nhash 0\nsteps 0\nsimus 0\nchoices 0\nsig 0\ntrace\nend\n", st);
    r = m;
  }
  return r;
}
int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1); setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1);
    unsetenv("LD_PRELOAD");
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc >= 4 && !strcmp(argv[1], "gen")) { out(spec_text(generate(argv[2], strtoull(argv[3], 0, 10), argc > 4 ? atoi(argv[4]) : 0))); return 0; }
  if (argc >= 3 && !strcmp(argv[1], "variants")) { for (auto& v : variants_of(argv[2], argc > 3 ? atoi(argv[3]) : 0)) out(v + "\n"); return 0; }
  if (argc >= 4 && !strcmp(argv[1], "run")) {
    Spec s; Trace tr; bool has;
    if (!spec_parse(slurp(argv[2]), s, tr, has)) { out("bad spec\n"); return 2; }
    libs_load(s, libs(argv[3]));
    out(child(s, has, tr, argc > 4 && !strcmp(argv[4], "-v")));
    return 0;
  }
  if (argc >= 9 && !strcmp(argv[1], "batch")) {
    std::string prop = argv[2]; int tier = atoi(argv[3]);
    uint64_t first = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10); long cnt = atol(argv[6]); double secs = atof(argv[7]);
    auto lb = libs(argv[8]);
    double t0 = wall();
    for (long i = 0; i < cnt && wall() - t0 < secs; ++i) {
      uint64_t seed = first + i * stride;
      Spec s = generate(prop, seed, tier);
      bool have = true; for (auto& ph : s.phases) if (!lb.count(ph.variant)) have = false;
      if (!have) { char h[100]; snprintf(h, sizeof h, "skip %lu\n", seed); out(h); continue; }
      libs_load(s, lb);
      double a = wall();
      std::string r = child(s, false, Trace(), false);
      char h[100]; snprintf(h, sizeof h, "run %lu %.4f\n", seed, wall() - a);
      out(h + r);
    }
    out("batch-end\n");
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 2;
}
