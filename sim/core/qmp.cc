// Simulated message layer: point-to-point, collectives, topology.
#include "internal.h"
#include "../include/qmp.h"
#include <cstring>
#include <cstdlib>
#include <deque>
#include <memory>
#include <list>

namespace sim {
namespace {
struct Msg {
  int src, dst; size_t size; bool eager; std::vector<char> data; const char* sbuf;
  struct QMP_msghandle_struct* sh; long serial;
};
}
}
struct QMP_mem_struct { void* base; void* p; int node; size_t n; };
struct QMP_msgmem_struct { char* p; size_t n; int node; int uses = 0; };
struct QMP_msghandle_struct {
  int kind;                 // 0 send, 1 recv, 2 multiple
  int node, peer = -1;
  QMP_msgmem_struct* mm = nullptr;
  std::vector<QMP_msghandle_struct*> sub;
  bool started = false, done = false;
  bool failed = false;      // complete, but with an error
  bool owned = false;       // part of a multiple handle
};
namespace sim {
namespace {
typedef QMP_msghandle_struct H;
struct Net {
  int n = 0;
  std::vector<bool> inited;
  // (src,dst) -> queues in start order
  std::map<std::pair<int, int>, std::deque<Msg*>> sends;
  std::map<std::pair<int, int>, std::deque<H*>> recvs;
  std::set<H*> handles; std::set<QMP_msgmem_struct*> mems; std::set<QMP_mem_struct*> bufs;
  long serial = 0;
  // collectives
  struct Coll {
    std::string kind; size_t size = 0; int arrived = 0, left = 0; bool ready = false;
    std::vector<std::vector<char>> in; std::vector<bool> here; std::vector<char> out;
    std::vector<QMP_binary_func> fn; int root_seen = 0;
  };
  std::vector<long> seq;
  std::map<long, std::unique_ptr<Coll>> colls;
  // topology
  std::vector<int> dims; std::vector<std::vector<int>> declared; std::vector<bool> have;
  std::vector<int> perm, iperm;
  std::vector<std::vector<int>> mycoord;
};
Net* net = nullptr;

int N() { return net->n; }
int me() {
  int i = cur_node_id();
  if (i < 0) sim_bug("message layer called outside a node");
  return i;
}
void lex2c(int l, const std::vector<int>& d, int* c) { for (size_t i = 0; i < d.size(); ++i) { c[i] = l % d[i]; l /= d[i]; } }
int c2lex(const int* c, const std::vector<int>& d) {
  int l = 0; for (int i = (int)d.size() - 1; i >= 0; --i) { int x = c[i] % d[i]; if (x < 0) x += d[i]; l = l * d[i] + x; } return l;
}
void check_range(const void* p, size_t n, const char* what) {
  if (!n) return;
  size_t bs; int nd; const char* b = (const char*)mem_block_of(p, &bs, &nd);
  if (b && (const char*)p + n > b + bs) violation("memory.comm-overrun", "%s of %zu bytes runs over a block of %zu bytes (starting at +%zu)", what, n, bs, (size_t)((const char*)p - b));
}
// deliverable pairs: both queues non-empty
std::vector<std::pair<int, int>> deliverable() {
  std::vector<std::pair<int, int>> v;
  for (auto& s : net->sends) {
    if (s.second.empty()) continue;
    auto r = net->recvs.find(s.first);
    if (r != net->recvs.end() && !r->second.empty()) v.push_back(s.first);
  }
  return v;
}
void deliver(std::pair<int, int> key) {
  Msg* m = net->sends[key].front(); net->sends[key].pop_front();
  H* r = net->recvs[key].front(); net->recvs[key].pop_front();
  count("net.delivered");
  if (m->size != r->mm->n)
    violation("net.size-mismatch", "node %d sent %zu bytes to node %d, which receives %zu", m->src, m->size, m->dst, r->mm->n);
  if (!r->failed) memcpy(r->mm->p, m->eager ? m->data.data() : m->sbuf, m->size);
  r->done = true;
  if (m->sh) m->sh->done = true;
  logf("deliver %d->%d %zu bytes%s", key.first, key.second, m->size, m->eager ? " eager" : "");
  delete m;
}
bool complete(H* h) {
  if (h->kind == 2) {
    for (H* s : h->sub) if (s->done && s->failed) return true;      // a failed part ends the wait with an error
    for (H* s : h->sub) if (!complete(s)) return false;
    return true;
  }
  return h->done;
}
bool failed(H* h) {
  if (h->kind == 2) { for (H* s : h->sub) if (failed(s)) return true; return false; }
  return h->failed;
}
void start1(H* h) {
  if (h->started) violation("net.misuse", "QMP_start on a handle already started");
  h->started = true; h->done = false; h->failed = false;
  if (h->kind == 2) { for (H* s : h->sub) start1(s); return; }
  if (h->peer < 0 || h->peer >= N()) violation("net.misuse", "bad peer %d", h->peer);
  if (h->kind == 0) {
    check_range(h->mm->p, h->mm->n, "send");
    if (inject("net.send")) { h->failed = true; h->done = true; count("net.send-lost"); return; }
    Msg* m = new Msg;
    m->src = h->node; m->dst = h->peer; m->size = h->mm->n; m->sbuf = h->mm->p; m->sh = h; m->serial = ++net->serial;
    m->eager = choose_pct((int)g_spec->knob("eager", 50), "eager");
    logf("send %d->%d %zu%s", m->src, m->dst, m->size, m->eager ? " eager" : "");
    if (m->eager) { m->data.assign(h->mm->p, h->mm->p + h->mm->n); m->sh = nullptr; h->done = true; }
    net->sends[{m->src, m->dst}].push_back(m);
  } else {
    check_range(h->mm->p, h->mm->n, "receive");
    memset(h->mm->p, 0xEE, h->mm->n);
    if (inject("net.recv")) h->failed = true;    // message consumed, data never arrives
    logf("recv %d<-%d %zu", h->node, h->peer, h->mm->n);
    net->recvs[{h->peer, h->node}].push_back(h);
  }
}
void clear_started(H* h) { h->started = false; for (H* s : h->sub) clear_started(s); }
H* newh(int kind, QMP_msgmem_struct* mm, int peer) {
  if (!mm) violation("net.null-used", "declare with a NULL message memory");
  if (!net->mems.count(mm)) violation("net.misuse", "declare with a message memory that is not live");
  if (inject("net.null")) return nullptr;
  H* h = new H; h->kind = kind; h->node = me(); h->mm = mm; h->peer = peer; mm->uses++;
  net->handles.insert(h);
  return h;
}

QMP_status_t collective(const char* kind, void* p, size_t n, QMP_binary_func fn,
                        const std::function<void(char*, const char*)>& comb) {
  int i = me();
  HostScope hs;
  yield_point(kind);
  check_range(p, n, kind);
  long s = net->seq[i]++;
  auto& cp = net->colls[s];
  bool bc = !strcmp(kind, "broadcast");
  if (!cp) {
    cp.reset(new Net::Coll); cp->kind = kind; cp->size = n;
    cp->in.resize(N()); cp->here.assign(N(), false); cp->fn.assign(N(), nullptr);
  }
  Net::Coll* c = cp.get();
  if (c->kind != kind || c->size != n)
    violation("net.collective-mismatch", "collective %ld: node %d calls %s(%zu bytes) while another node called %s(%zu bytes)", s, i, kind, n, c->kind.c_str(), c->size);
  c->here[i] = true; c->arrived++;
  c->in[i].assign((char*)p, (char*)p + n);
  c->fn[i] = fn;
  logf("coll %ld %s %zu", s, kind, n);
  count("net.collectives");
  bool bad = inject("net.coll");
  if (bc) {
    if (i == 0) { c->out = c->in[0]; c->ready = true; }
    bool sync = choose_pct((int)g_spec->knob("bsync", 30), "bcast-sync");   // root may or may not wait
    if (i != 0) { memset(p, 0xEE, n); block_until("broadcast", [c] { return c->ready; }); }
    else if (sync) { int nn = N(); block_until("broadcast", [c, nn] { return c->arrived == nn; }); }
    if (!bad) memcpy(p, c->out.data(), n);
  } else {
    if (c->arrived == N()) {
      // combine in a random tree
      std::vector<int> live; for (int k = 0; k < N(); ++k) live.push_back(k);
      std::vector<std::vector<char>> v = c->in;
      std::vector<char> ga(n + 64), gbuf(n + 64);
      while (live.size() > 1) {
        int a = choose((int)live.size(), "combine-a");
        int b = choose((int)live.size() - 1, "combine-b");
        if (b >= a) ++b;
        int x = live[a], y = live[b];
        if (c->fn[x]) {
          // user function: exact-size buffers with guards on both sides
          char* A = ga.data() + 32; char* B = gbuf.data() + 32;
          auto pat = [](size_t k) { return (char)(0x91 + k * 3); };
          for (size_t k = 0; k < 32; ++k) { ga[k] = pat(k); ga[32 + n + k] = pat(k); gbuf[k] = pat(k + 5); gbuf[32 + n + k] = pat(k + 5); }
          memcpy(A, v[x].data(), n); memcpy(B, v[y].data(), n);
          c->fn[x](A, B);
          for (size_t k = 0; k < 32; ++k)
            if (ga[k] != pat(k) || ga[32 + n + k] != pat(k) || gbuf[k] != pat(k + 5) || gbuf[32 + n + k] != pat(k + 5))
              violation("memory.reduction-overrun", "reduction function writes outside its %zu byte buffers", n);
          memcpy(v[x].data(), A, n);
        } else comb(v[x].data(), v[y].data());
        live.erase(live.begin() + b);
      }
      c->out = v[live[0]]; c->ready = true;
    }
    memset(p, 0xEE, n);
    block_until(kind, [c] { return c->ready; });
    if (!bad) memcpy(p, c->out.data(), n);
  }
  if (++c->left == N()) net->colls.erase(s);
  return bad ? QMP_ERROR : QMP_SUCCESS;
}
template <class T, class F> QMP_status_t creduce(const char* kind, T* v, int n, F f) {
  return collective(kind, v, n * sizeof(T), nullptr, [n, f](char* a, const char* b) {
    for (int i = 0; i < n; ++i) { T x, y; memcpy(&x, a + i * sizeof(T), sizeof(T)); memcpy(&y, b + i * sizeof(T), sizeof(T)); x = f(x, y); memcpy(a + i * sizeof(T), &x, sizeof(T)); }
  });
}
} // namespace

void qmp_reset(int nodes) {
  delete net; net = new Net; net->n = nodes;
  net->inited.assign(nodes, false); net->seq.assign(nodes, 0);
  net->declared.resize(nodes); net->have.assign(nodes, false); net->mycoord.resize(nodes);
  const Phase& ph = g_spec->phases[g_phase];
  net->perm = ph.perm;
  if ((int)net->perm.size() != nodes) { net->perm.resize(nodes); for (int i = 0; i < nodes; ++i) net->perm[i] = i; }
  net->iperm.assign(nodes, 0);
  for (int i = 0; i < nodes; ++i) net->iperm[net->perm[i]] = i;
  net->dims.assign(ph.geom, ph.geom + 4);
  EventSource e;
  e.ready = [] { return (int)deliverable().size(); };
  e.fire = [](int i) { deliver(deliverable()[i]); };
  add_event_source(e);
}
void qmp_end_of_phase(bool clean) {
  if (!clean) return;
  for (auto& s : net->sends) if (!s.second.empty()) violation("net.stray-message", "%zu message(s) from node %d to node %d never received", s.second.size(), s.first.first, s.first.second);
  for (auto& s : net->recvs) if (!s.second.empty()) violation("net.stray-receive", "receive posted by node %d from node %d never matched", s.first.second, s.first.first);
  if (!net->colls.empty()) violation("net.collective-unfinished", "a collective (%s) was left by %d of %d nodes", net->colls.begin()->second->kind.c_str(), net->colls.begin()->second->left, N());
  if (!net->handles.empty()) violation("net.leak", "%zu message handle(s) never freed", net->handles.size());
  if (!net->mems.empty()) violation("net.leak", "%zu message memories never freed", net->mems.size());
  if (!net->bufs.empty()) violation("net.leak", "%zu communication buffers never freed", net->bufs.size());
  for (int i = 1; i < N(); ++i) if (net->seq[i] != net->seq[0]) violation("net.collective-mismatch", "node %d took part in %ld collectives, node 0 in %ld", i, net->seq[i], net->seq[0]);
}
} // namespace sim

using namespace sim;
extern "C" {
QMP_status_t QMP_init_msg_passing(int*, char***, QMP_thread_level_t req, QMP_thread_level_t* prov) {
  if (prov) *prov = req;
  if (inject("net.init")) return QMP_ERROR;
  net->inited[me()] = true; return QMP_SUCCESS;
}
QMP_bool_t QMP_is_initialized(void) { return net->inited[me()] ? QMP_TRUE : QMP_FALSE; }
void QMP_finalize_msg_passing(void) { HostScope h; logf("finalize"); net->inited[me()] = false; }
void QMP_abort(int code) { end_current_node(NE_ABORT, code, "QMP_abort"); }
void QMP_abort_string(int code, char*) { QMP_abort(code); }
int QMP_verbose(int) { return QMP_FALSE; }
const char* QMP_error_string(QMP_status_t) { return "simulated error"; }
QMP_status_t QMP_declare_logical_topology(const int* d, int nd) {
  HostScope h;
  long p = 1; for (int i = 0; i < nd; ++i) p *= d[i];
  if (inject("net.topo")) return QMP_INVALID_TOPOLOGY;
  if (p != N()) return QMP_INVALID_TOPOLOGY;
  net->declared[me()].assign(d, d + nd); net->have[me()] = true;
  for (int i = 0; i < nd; ++i) if (d[i] != net->dims[i]) violation("net.misuse", "declared topology differs from the command line");
  return QMP_SUCCESS;
}
QMP_bool_t QMP_logical_topology_is_declared(void) { return net->have[me()] ? QMP_TRUE : QMP_FALSE; }
QMP_status_t QMP_layout_grid(int* dims, int nd) {
  HostScope h;
  if (net->have[me()]) return QMP_SUCCESS;
  if (inject("net.topo")) return QMP_INVALID_TOPOLOGY;
  for (int i = 0; i < nd; ++i) if (dims[i] % net->dims[i]) return QMP_INVALID_TOPOLOGY;
  net->have[me()] = true;
  return QMP_SUCCESS;
}
int QMP_get_logical_number_of_dimensions(void) { return 4; }
const int* QMP_get_logical_dimensions(void) { return net->dims.data(); }
const int* QMP_get_logical_coordinates(void) {
  HostScope h; int i = me();
  net->mycoord[i].resize(4); lex2c(net->perm[i], net->dims, net->mycoord[i].data());
  return net->mycoord[i].data();
}
int* QMP_get_logical_coordinates_from(int node) {
  int* c = (int*)malloc(4 * sizeof(int));
  if (!c) return nullptr;
  if (node < 0 || node >= N()) violation("net.misuse", "QMP_get_logical_coordinates_from(%d)", node);
  lex2c(net->perm[node], net->dims, c); return c;
}
int QMP_get_node_number(void) { return me(); }
int QMP_get_node_number_from(const int* c) { return net->iperm[c2lex(c, net->dims)]; }
int QMP_get_number_of_nodes(void) { return N(); }
QMP_ictype_t QMP_get_msg_passing_type(void) { return g_spec->knob("grid", 0) ? QMP_GRID : QMP_SWITCH; }
QMP_bool_t QMP_is_primary_node(void) { return me() == 0 ? QMP_TRUE : QMP_FALSE; }
QMP_mem_t* QMP_allocate_aligned_memory(size_t n, size_t al, int) {
  {
    HostScope h;
    if (inject("net.null")) return nullptr;
  }
  if (al < 16) al = 16;
  void* base = malloc(n + al + 8);
  if (!base) return nullptr;
  // place the buffer so that it ends close to the end of the block (guarded there)
  char* p = (char*)(((uintptr_t)base + al - 1) & ~(uintptr_t)(al - 1));
  HostScope h;
  QMP_mem_struct* m = new QMP_mem_struct{base, p, me(), n};
  for (int i = 0; i < 8; ++i) p[n + i] = (char)(0x77 + i);
  memset(p, 0xEB, n);
  net->bufs.insert(m);
  return m;
}
QMP_mem_t* QMP_allocate_memory(size_t n) { return QMP_allocate_aligned_memory(n, 16, 0); }
void* QMP_get_memory_pointer(QMP_mem_t* m) { if (!m) { HostScope h; violation("net.null-used", "QMP_get_memory_pointer(NULL)"); } return m->p; }
void QMP_free_memory(QMP_mem_t* m) {
  void* b;
  {
    HostScope h;
    if (!m || !net->bufs.erase(m)) violation("net.misuse", "QMP_free_memory of something not allocated");
    for (int i = 0; i < 8; ++i) if (((char*)m->p)[m->n + i] != (char)(0x77 + i)) violation("memory.overrun", "write beyond a %zu byte communication buffer", m->n);
    b = m->base; delete m;
  }
  free(b);
}
QMP_msgmem_t QMP_declare_msgmem(const void* p, size_t n) {
  HostScope h;
  if (inject("net.null")) return nullptr;
  if (!p && n) violation("net.null-used", "QMP_declare_msgmem(NULL, %zu)", n);
  QMP_msgmem_struct* m = new QMP_msgmem_struct; m->p = (char*)p; m->n = n; m->node = me();
  net->mems.insert(m); return m;
}
void QMP_free_msgmem(QMP_msgmem_t m) {
  HostScope h;
  if (!m || !net->mems.erase(m)) violation("net.misuse", "QMP_free_msgmem of something not live");
  delete m;
}
QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int node, int) { HostScope h; return newh(0, m, node); }
QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int node, int) { HostScope h; return newh(1, m, node); }
static int relative(int axis, int dir) {
  int c[4]; lex2c(net->perm[me()], net->dims, c);
  c[axis] += dir > 0 ? 1 : -1; return QMP_get_node_number_from(c);
}
QMP_msghandle_t QMP_declare_send_relative(QMP_msgmem_t m, int a, int d, int) { HostScope h; return newh(0, m, relative(a, d)); }
QMP_msghandle_t QMP_declare_receive_relative(QMP_msgmem_t m, int a, int d, int) { HostScope h; return newh(1, m, relative(a, d)); }
QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* hs, int n) {
  HostScope h;
  if (inject("net.null")) return nullptr;
  H* m = new H; m->kind = 2; m->node = me();
  for (int i = 0; i < n; ++i) {
    if (!hs[i]) violation("net.null-used", "QMP_declare_multiple with a NULL handle");
    if (!net->handles.count(hs[i])) violation("net.misuse", "QMP_declare_multiple with a dead handle");
    net->handles.erase(hs[i]); hs[i]->owned = true; m->sub.push_back(hs[i]);
  }
  net->handles.insert(m);
  return m;
}
void QMP_free_msghandle(QMP_msghandle_t m) {
  HostScope h;
  if (!m || !net->handles.erase(m)) violation("net.misuse", "QMP_free_msghandle of something not live");
  if (m->started && !complete(m)) violation("net.misuse", "message handle freed while the transfer is in progress");
  for (H* s : m->sub) delete s;
  delete m;
}
QMP_status_t QMP_start(QMP_msghandle_t m) {
  HostScope h;
  if (!m) violation("net.null-used", "QMP_start(NULL)");
  if (!net->handles.count(m)) violation("net.misuse", "QMP_start on a dead handle");
  yield_point("QMP_start");
  if (inject("net.start")) return QMP_ERROR;
  start1(m);
  count("net.started");
  yield_point("QMP_started");
  return QMP_SUCCESS;
}
QMP_bool_t QMP_is_complete(QMP_msghandle_t m) { HostScope h; yield_point("QMP_is_complete"); return complete(m) ? QMP_TRUE : QMP_FALSE; }
QMP_status_t QMP_wait(QMP_msghandle_t m) {
  HostScope h;
  if (!m) violation("net.null-used", "QMP_wait(NULL)");
  if (!net->handles.count(m)) violation("net.misuse", "QMP_wait on a dead handle");
  if (!m->started) violation("net.misuse", "QMP_wait on a handle that was not started");
  block_until("QMP_wait", [m] { return complete(m); });
  bool bad = failed(m);
  clear_started(m);
  return bad ? QMP_ERROR : QMP_SUCCESS;
}
QMP_status_t QMP_barrier(void) { return collective("barrier", nullptr, 0, nullptr, [](char*, const char*) {}); }
QMP_status_t QMP_broadcast(void* p, size_t n) { return collective("broadcast", p, n, nullptr, nullptr); }
QMP_status_t QMP_sum_int(int* v) { return creduce("sum_int", v, 1, [](int a, int b) { return (int)((unsigned)a + (unsigned)b); }); }
QMP_status_t QMP_sum_float(float* v) { return creduce("sum_float", v, 1, [](float a, float b) { return a + b; }); }
QMP_status_t QMP_sum_double(double* v) { return creduce("sum_double", v, 1, [](double a, double b) { return a + b; }); }
QMP_status_t QMP_sum_float_array(float* v, int n) { return creduce("sum_float_array", v, n, [](float a, float b) { return a + b; }); }
QMP_status_t QMP_sum_double_array(double* v, int n) { return creduce("sum_double_array", v, n, [](double a, double b) { return a + b; }); }
QMP_status_t QMP_max_float(float* v) { return creduce("max_float", v, 1, [](float a, float b) { return a > b ? a : b; }); }
QMP_status_t QMP_max_double(double* v) { return creduce("max_double", v, 1, [](double a, double b) { return a > b ? a : b; }); }
QMP_status_t QMP_min_float(float* v) { return creduce("min_float", v, 1, [](float a, float b) { return a < b ? a : b; }); }
QMP_status_t QMP_min_double(double* v) { return creduce("min_double", v, 1, [](double a, double b) { return a < b ? a : b; }); }
QMP_status_t QMP_xor_ulong(unsigned long* v) { return creduce("xor_ulong", v, 1, [](unsigned long a, unsigned long b) { return a ^ b; }); }
QMP_status_t QMP_binary_reduction(void* p, size_t n, QMP_binary_func f) { return collective("binary_reduction", p, n, f, nullptr); }
QMP_comm_t QMP_comm_get_default(void) { return nullptr; }
QMP_status_t QMP_get_hidden_comm(QMP_comm_t, void** h) { *h = nullptr; return QMP_NOTSUPPORTED; }

int DML_route_bytes(char* buf, size_t size, int from, int to) {
  if (from == to) return 0;
  int i = me();
  if (i == from) {
    QMP_msgmem_t mm = QMP_declare_msgmem(buf, size); if (!mm) return 1;
    QMP_msghandle_t h = QMP_declare_send_to(mm, to, 0); if (!h) { QMP_free_msgmem(mm); return 1; }
    int st = QMP_start(h) != QMP_SUCCESS; if (!st) st = QMP_wait(h) != QMP_SUCCESS;
    QMP_free_msghandle(h); QMP_free_msgmem(mm); return st;
  }
  if (i == to) {
    QMP_msgmem_t mm = QMP_declare_msgmem(buf, size); if (!mm) return 1;
    QMP_msghandle_t h = QMP_declare_receive_from(mm, from, 0); if (!h) { QMP_free_msgmem(mm); return 1; }
    int st = QMP_start(h) != QMP_SUCCESS; if (!st) st = QMP_wait(h) != QMP_SUCCESS;
    QMP_free_msghandle(h); QMP_free_msgmem(mm); return st;
  }
  return 0;
}
}
