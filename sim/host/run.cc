// Runs a spec: boots the simulated machine for every phase, drives the scheduler,
// forwards what nodes report to the oracle.
#include <ucontext.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include "host.h"
#include "../common/api.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
#include <cxxabi.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace sim {
void logmix(uint64_t);
Rt* g_rt = nullptr;
Oracle* g_oracle = nullptr;

// ---------------------------------------------------------------- node libraries
typedef void (*NodeMain)(const Phase*, int);
struct Copy { void* h; NodeMain fn; };
static std::map<std::string, std::vector<Copy>> g_copies;
static void add_copy(const std::string& variant, const std::string& path) {
  int in = (int)::open(path.c_str(), O_RDONLY);
  if (in < 0) { fprintf(stderr, "cannot open %s\n", path.c_str()); raw_exit(2); }
  int fd = memfd_create("node", 0);
  static char buf[1 << 16]; long n;
  while ((n = ::read(in, buf, sizeof buf)) > 0) raw_write(fd, buf, n);
  ::close(in);
  char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  Copy c;
  c.h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
  if (!c.h) { std::string e = dlerror(); e += "\n"; raw_write(2, e.data(), e.size()); raw_exit(2); }
  c.fn = (NodeMain)dlsym(c.h, "sim_node_main");
  if (!c.fn) raw_exit(2);
  g_copies[variant].push_back(c);
  // the descriptor stays open: a later memfd under the same number would be taken for the same file
}
void libs_load(const Spec& s, const std::map<std::string, std::string>& so) {
  std::map<std::string, int> need;
  for (auto& p : s.phases) need[p.variant] += p.nodes;
  for (auto& n : need) {
    auto i = so.find(n.first);
    if (i == so.end()) { std::string e = "no library for variant " + n.first + "\n"; raw_write(2, e.data(), e.size()); raw_exit(2); }
    while ((int)g_copies[n.first].size() < n.second) add_copy(n.first, i->second);
  }
}

// ---------------------------------------------------------------- node output
struct NodeBuf : std::streambuf {
  bool err;
  explicit NodeBuf(bool e) : err(e) {}
  void put(const char* p, size_t n) {
    HostScope h;
    Node* nd = cur_node();
    if (!nd) { raw_write(2, p, n); return; }
    (err ? nd->err : nd->out).append(p, n);
    if (g_verbose) { std::string t(p, n); while (!t.empty() && t.back() == '\n') t.pop_back(); if (!t.empty()) logf("%s: %s", err ? "stderr" : "stdout", t.c_str()); }
  }
  int overflow(int c) override { if (c != EOF) { if (lost()) return EOF; char b = (char)c; put(&b, 1); } return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { if (lost()) return 0; put(p, (size_t)n); return n; }
  bool lost() { HostScope h; return cur_node() && inject("out.fail"); }
};
static ssize_t std_write(void* c, const char* b, size_t n) {
  HostScope h;
  Node* nd = cur_node();
  if (!nd) { raw_write(2, b, n); return n; }
  (c ? nd->err : nd->out).append(b, n);
  return n;
}
extern "C" __attribute__((visibility("default"))) long sim_output(int err, long from, const char** p) {
  Node* nd = cur_node(); std::string& s = err ? nd->err : nd->out;
  if (p) *p = s.data() + from;
  return (long)s.size() - from;
}
static void redirect_std() {
  static NodeBuf o(false), e(true);
  std::cout.rdbuf(&o); std::cerr.rdbuf(&e); std::clog.rdbuf(&e);
  std::ios_base::sync_with_stdio(true);
  cookie_io_functions_t f = {nullptr, std_write, nullptr, nullptr};
  FILE* fo = fopencookie(nullptr, "w", f); FILE* fe = fopencookie((void*)1, "w", f);
  setvbuf(fo, nullptr, _IONBF, 0); setvbuf(fe, nullptr, _IONBF, 0);
  stdout = fo; stderr = fe;
}

static void on_signal(int sig, siginfo_t*, void* uc) {
  g_host_depth++;
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT (library detected corruption)" : sig == SIGXCPU ? "SIGXCPU" : "signal";
  if (!cur_node()) { char b[100]; snprintf(b, sizeof b, "host received %s", n); sim_bug("%s", b); }
  if (sig == SIGXCPU) violation("hang", "processor time limit reached without the node making progress");
  Dl_info di; void* ip = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; std::string in;
  if (dladdr(ip, &di) && di.dli_sname) { int st = 0; char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st); in = std::string(" in ") + (d && !st ? d : di.dli_sname); if (in.size() > 200) in.resize(200); }
  violation("crash.signal", "node received %s%s", n, in.c_str());
}
static void signals() {
  static char st[1 << 16];
  stack_t ss{}; ss.ss_sp = st; ss.ss_size = sizeof st; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGABRT}) sigaction(s, &sa, nullptr);
  long cpu = 40;
  struct rlimit cur; getrlimit(RLIMIT_CPU, &cur);
  struct rlimit r; r.rlim_cur = cpu; r.rlim_max = cpu + 10; setrlimit(RLIMIT_CPU, &r);
}

// ---------------------------------------------------------------- oracle defaults
static const Op& op_at(int op) {
  static const Op none;
  const Phase& p = g_spec->phases[g_phase];
  return op >= 0 && op < (int)p.ops.size() ? p.ops[op] : none;
}
double elem_of(int kind, const void* w, size_t i) {
  switch (kinfo(kind).w) {
    case W_INT: return ((const int*)w)[i];
    case W_BOOL: return ((const unsigned char*)w)[i];
    case W_FLOAT: return ((const float*)w)[i];
    case W_DOUBLE: return ((const double*)w)[i];
  }
  return 0;
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string site_text(const int* L, long l) { int c[4]; simf::unlex(l, L, c); char b[80]; snprintf(b, sizeof b, "(%d,%d,%d,%d)", c[0], c[1], c[2], c[3]); return b; }

void Oracle::on_layout(int node) {
  Geo& g = *g_rt->geo; NodeRt& r = g_rt->node[node];
  long vol = g_rt->model.vol, nl = (long)r.site.size();
  if (nl * g.nodes != vol) violation("layout.count", "node %d holds %ld of %ld sites", node, nl, vol);
  r.at.assign(vol, -1);
  for (long i = 0; i < nl; ++i) {
    long s = r.site[i];
    if (s < 0 || s >= vol) violation("layout.range", "site %ld of node %d has coordinates outside the lattice", i, node);
    if (r.at[s] >= 0) violation("layout.duplicate", "lattice site %s appears twice on node %d", site_text(g.L, s).c_str(), node);
    r.at[s] = (int)i;
    if (g.owner(s) != node) violation("layout.owner", "lattice site %s is held by node %d, not by node %d", site_text(g.L, s).c_str(), node, g.owner(s));
  }
}
void Oracle::mismatch(int, int, const char* cls, const char* msg) { violation(cls, "%s", msg); }
static void bad(int node, int op, const char* cls, const char* f, ...) {
  char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  g_oracle->mismatch(node, op, cls, b);
}
void Oracle::on_field(int node, int op, int slot, int kind, const void* w, long ns) {
  auto& ex = g_rt->model.ex.at(op);
  auto it = ex.fields.find(slot);
  if (it == ex.fields.end()) return;
  NodeRt& r = g_rt->node[node];
  if (it->second.kind != kind || ns != (long)r.site.size()) sim_bug("field report mismatch slot %d", slot);
  const Vec& v = *it->second.v; int nw = kinfo(kind).words;
  for (long i = 0; i < ns; ++i) {
    long s = r.site[i];
    if (!ex.mask.empty() && slot == -1 && !ex.mask[s]) continue;
    for (int j = 0; j < nw; ++j) {
      if (it->second.mask && !(*it->second.mask)[s * nw + j]) continue;
      double got = elem_of(kind, w, (size_t)i * nw + j), want = v[s * nw + j];
      if (!same(got, want) && !(std::fabs(got - want) <= it->second.tol * (1 + std::fabs(want)))) {
        bad(node, op, "result.field", "field %d (%s) wrong at site %s word %d: got %.17g, expected %.17g", slot, kinfo(kind).name, site_text(g_rt->model.L, s).c_str(), j, got, want);
        return;
      }
    }
  }
}
static void cmp_values(int node, int op, const Vec& want, const double* v, int n, const char* what) {
  if (n != (int)want.size()) { bad(node, op, "result.count", "%d values returned, %zu expected", n, want.size()); return; }
  for (int i = 0; i < n; ++i) if (!same(v[i], want[i])) { bad(node, op, what, "value %d of %d: got %.17g, expected %.17g", i, n, v[i], want[i]); return; }
}
static void check_layinfo(int node, const double* v, int n) {
  Geo& g = *g_rt->geo; long vol = g_rt->model.vol; long S = (long)g.S[0] * g.S[1] * g.S[2] * g.S[3];
  if (n != 20 + 2 * vol + vol) sim_bug("layinfo size");
  int nc[4]; { int l = g.perm[node]; for (int i = 0; i < 4; ++i) { nc[i] = l % g.G[i]; l /= g.G[i]; } }
  auto eq = [&](int i, double w, const char* t) { if (v[i] != w) violation("layout.query", "%s is %g, expected %g", t, v[i], w); };
  eq(0, S, "sitesOnNode"); eq(1, vol, "vol"); eq(2, g.nodes, "numNodes"); eq(3, node, "nodeNumber");
  for (int m = 0; m < 4; ++m) { eq(4 + 4 * m, g.L[m], "lattSize"); eq(5 + 4 * m, g.S[m], "subgridLattSize"); eq(6 + 4 * m, g.G[m], "logicalSize"); eq(7 + 4 * m, nc[m], "nodeCoord"); }
  const double* inv = v + 20 + 2 * vol;
  for (long l = 0; l < vol; ++l) {
    int nd = (int)v[20 + 2 * l]; long li = (long)v[21 + 2 * l];
    if (nd != g.owner(l)) violation("layout.owner", "nodeNumber of site %s is %d, expected %d", site_text(g.L, l).c_str(), nd, g.owner(l));
    if (li < 0 || li >= S) violation("layout.index", "linearSiteIndex of site %s is %ld", site_text(g.L, l).c_str(), li);
    if (inv[nd * S + li] != l) violation("layout.inverse", "siteCoords(%d,%ld) is not site %s", nd, li, site_text(g.L, l).c_str());
    if (nd == node && g_rt->node[node].at[l] != li) violation("layout.index", "site %s is stored at %d, its index is %ld", site_text(g.L, l).c_str(), g_rt->node[node].at[l], li);
  }
}
static void check_subinfo(int node, int k, const double* v, int n) {
  const Model& m = g_rt->model; NodeRt& r = g_rt->node[node]; int p = 0;
  auto nx = [&]() -> double { if (p >= n) violation("subset.shape", "truncated description"); return v[p++]; };
  int nc = (int)nx();
  int want = simf::set_ncol(k, m.L);
  if (nc != want) violation("subset.count", "set %d has %d subsets, expected %d", k, nc, want);
  std::vector<int> seen(r.site.size(), -1);
  for (int c = 0; c < nc; ++c) {
    int ord = (int)nx(), st = (int)nx(), en = (int)nx(), col = (int)nx(), ns = (int)nx();
    if (col != c) violation("subset.color", "subset %d says its colour is %d", c, col);
    std::vector<int> tab(ns);
    for (int i = 0; i < ns; ++i) tab[i] = (int)nx();
    for (int i = 0; i < ns; ++i) {
      int s = tab[i];
      if (s < 0 || s >= (int)r.site.size()) violation("subset.range", "subset %d of set %d lists site %d", c, k, s);
      if (seen[s] >= 0) violation("subset.duplicate", "site %d is in subsets %d and %d of set %d", s, seen[s], c, k);
      if (!m.insub(k, c, r.site[s])) violation("subset.member", "site %s is in subset %d of set %d", site_text(m.L, r.site[s]).c_str(), c, k);
      seen[s] = c;
    }
    if (ord) {
      if (!ns || en - st + 1 != ns) violation("subset.ordered", "subset %d of set %d claims to be contiguous [%d,%d] with %d sites", c, k, st, en, ns);
      std::set<int> t(tab.begin(), tab.end());
      if (*t.begin() != st || *t.rbegin() != en) violation("subset.ordered", "subset %d of set %d claims [%d,%d]", c, k, st, en);
    }
  }
  for (size_t i = 0; i < seen.size(); ++i) if (seen[i] < 0) violation("subset.missing", "site %s is in no subset of set %d", site_text(m.L, r.site[i]).c_str(), k);
  int nl = (int)nx();
  if (nl != (int)r.site.size()) violation("subset.coloring", "latticeColoring has %d entries", nl);
  for (int i = 0; i < nl; ++i) { int c = (int)nx(); if (seen[i] != c) violation("subset.coloring", "latticeColoring of site %d is %d, expected %d", i, c, seen[i]); }
}
void Oracle::on_values(int node, int op, const double* v, int n) {
  const Op& o = op_at(op);
  if (o.name == "layinfo") { check_layinfo(node, v, n); return; }
  if (o.name == "subinfo") { check_subinfo(node, (int)o.arg(0), v, n); return; }
  auto& ex = g_rt->model.ex.at(op);
  auto it = ex.node_values.find(node);
  if (it != ex.node_values.end()) { cmp_values(node, op, it->second, v, n, "result.value"); return; }
  if (ex.has_values) cmp_values(node, op, ex.values, v, n, "result.value");
}
void Oracle::on_string(int node, int op, const std::string& s) {
  auto& ex = g_rt->model.ex.at(op);
  if (ex.has_string && ex.str != s) bad(node, op, "result.string", "got %zu bytes \"%.60s\", expected %zu bytes \"%.60s\"", s.size(), s.c_str(), ex.str.size(), ex.str.c_str());
}
void Oracle::on_note(int node, int op, const std::string& w, long v) { g_rt->node[node].notes[w] = v; }
void Oracle::phase_end(int, bool clean) {
  for (Node* n : g_nodes) {
    if (n->end == NE_DONE) continue;
    if (may_stop(n->id)) continue;
    if (n->end == NE_RUNNING) {   // only possible after another node stopped, which is reported instead
      bool other = false; for (Node* m : g_nodes) if (m->end != NE_RUNNING && m->end != NE_DONE) other = true;
      if (other) continue;
    }
    static const char* en[] = {"running", "done", "exit", "abort", "exception", "crashed"};
    std::string t = n->err.size() > 300 ? n->err.substr(n->err.size() - 300) : n->err;
    violation("end.unexpected", "node %d ended its program early (%s, code %d, %s) at op %d %s; stderr: %s", n->id, en[n->end], n->exit_code, n->why.c_str(), n->opidx, op_at(n->opidx).name.c_str(), t.c_str());
  }
}

// ---------------------------------------------------------------- machine
static void node_body(const Phase* ph, Node* n, NodeMain fn) {
  std::string what;
  g_host_depth = 0;
  try { fn(ph, n->id); g_host_depth = 1; n->end = NE_DONE; logf("node done"); return; }
  catch (const std::string& s) { g_host_depth = 1; what = "std::string: " + s; }
  catch (const char* s) { g_host_depth = 1; what = std::string("char*: ") + s; }
  catch (const std::exception& e) { g_host_depth = 1; what = std::string(typeid(e).name()) + ": " + e.what(); }
  catch (...) { g_host_depth = 1; auto* t = abi::__cxa_current_exception_type(); what = t ? t->name() : "exception"; }
  end_current_node(NE_EXCEPTION, 1, "uncaught exception " + what);
}

void run_spec(const Spec& s, bool replay, const Trace& tr, int fd) {
  g_result_fd = fd;
  g_spec = &s;
  signals();
  redirect_std();
  choices_init(s.seed * 0x9E3779B97F4A7C15ull + 12345, replay, tr);
  fs_reset();
  g_oracle = make_oracle(s); g_long_ok = [] { return g_oracle->may_run_long(); };
  mem_run_begin((unsigned char)s.knob("poison", 0xA5));
  std::map<std::string, int> used;
  for (size_t p = 0; p < s.phases.size(); ++p) {
    const Phase& ph = s.phases[p];
    g_phase = (int)p;
    Rt* old = g_rt;
    g_rt = new Rt;
    if (old) g_rt->blobs = old->blobs;
    g_rt->model.start(ph); g_rt->geo.reset(new Geo(ph)); g_rt->node.resize(ph.nodes);
    clear_event_sources(); threads_reset();
    qmp_reset(ph.nodes);
    g_nodes.clear();
    g_oracle->phase_begin((int)p);
    logf("PHASE %zu %s nodes %d", p, ph.variant.c_str(), ph.nodes);
    for (int i = 0; i < ph.nodes; ++i) {
      Node* n = new Node; n->id = i; n->nthreads = ph.threads > 0 ? ph.threads : 1;
      Copy& c = g_copies[ph.variant].at(used[ph.variant]++);
      n->dso = c.h;
      g_nodes.push_back(n);
      NodeMain fn = c.fn;
      spawn(n, 0, [&ph, n, fn] { node_body(&ph, n, fn); });
    }
    bool all = run_scheduler();
    bool clean = all;
    for (Node* n : g_nodes) if (n->end != NE_DONE) clean = false;
    mem_check_all("end of phase");
    qmp_end_of_phase(clean);
    threads_end_of_phase(clean);
    g_oracle->phase_end((int)p, clean);
    bool crashed = false; for (Node* n : g_nodes) if (n->end == NE_CRASHED) crashed = true;
    if (crashed) count("phase.crashed");
    if (!clean) count("phase.stopped");
    kill_all_fibers();
    for (Node* n : g_nodes) mem_node_gone(n->id);
    fs_node_gone();
    fs().crashed = false;
    if (!g_oracle->goes_on()) break;
  }
  g_oracle->run_end();
  finish_ok();
}
} // namespace sim

using namespace sim;
#define VIS __attribute__((visibility("default")))
static uint64_t hashbytes(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p; uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
extern "C" {
VIS void sim_op_begin(int i) { HostScope h; cur_node()->opidx = i; logf("op %d", i); if (i >= 0) { yield_point("op"); g_oracle->op_begin(cur_node_id(), i); } }
VIS void sim_op_end(int i) { HostScope h; if (i >= 0) { g_oracle->op_end(cur_node_id(), i); count("ops"); } }
VIS void sim_layout(long n, const int* c) {
  HostScope h; NodeRt& r = g_rt->node[cur_node_id()];
  const int* L = g_rt->model.L;
  r.site.resize(n);
  for (long i = 0; i < n; ++i) { const int* x = c + 4 * i; bool ok = true; for (int m = 0; m < 4; ++m) if (x[m] < 0 || x[m] >= L[m]) ok = false; r.site[i] = ok ? simf::lex(x, L) : -1; }
  logmix(hashbytes(c, n * 16));
  g_oracle->on_layout(cur_node_id());
}
VIS void sim_field(int slot, int kind, const void* w, long ns) {
  HostScope h; Node* n = cur_node();
  logmix(hashbytes(w, (size_t)ns * kinfo(kind).words * kinfo(kind).wsize));
  count("reports"); count("words", ns * kinfo(kind).words);
  g_oracle->on_field(n->id, n->opidx, slot, kind, w, ns);
}
VIS void sim_values(const double* v, int k) {
  HostScope h; Node* n = cur_node();
  logmix(hashbytes(v, k * 8)); count("reports"); count("words", k);
  if (g_verbose) for (int i = 0; i < k && i < 24; ++i) logf("value %d %.17g", i, v[i]);
  g_oracle->on_values(n->id, n->opidx, v, k);
}
VIS void sim_string(const char* p, long k) {
  HostScope h; Node* n = cur_node(); std::string s(p, k);
  logmix(hashbytes(p, k)); count("reports");
  g_oracle->on_string(n->id, n->opidx, s);
}
VIS void sim_note(const char* w, long v) { HostScope h; Node* n = cur_node(); logf("note %s %ld", w, v); g_oracle->on_note(n->id, n->opidx, w, v); }
VIS void sim_fail(const char* c, const char* m) {
  HostScope h;
  if (!strcmp(c, "simbug")) sim_bug("%s", m);
  violation(c, "%s", m);
}
VIS const Spec* sim_spec(void) { return g_spec; }
VIS int sim_phase_no(void) { return g_phase; }
VIS long sim_mem_mark(void) { return mem_mark(); }
VIS long sim_mem_live(long m) { HostScope h; return mem_live_since(cur_node_id(), m, nullptr); }
VIS int sim_rand(int n, const char* tag) { HostScope h; return choose(n, tag); }
VIS void sim_blob(const char* n, const void* p, long k) { HostScope h; g_rt->blobs[n].assign((const char*)p, k); logmix(hashbytes(p, k)); }
VIS long sim_get_blob(const char* n, void* p, long k) {
  HostScope h; auto i = g_rt->blobs.find(n); if (i == g_rt->blobs.end()) return -1;
  memcpy(p, i->second.data(), std::min<long>(k, i->second.size())); return (long)i->second.size();
}
}
