// A small message layer for demonstrations: N forked processes joined by socket pairs.
// MINI_NODES processes; MINI_GEOM "a b c d" is the logical machine.  Per-pair order, blocking receives.
#include "qmp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unistd.h>
#include <errno.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <functional>
static int N = 1, me = 0, dims[8] = {1, 1, 1, 1}, nd = 4, coord[8];
static std::vector<std::vector<int>> fd;      // fd[i][j]: end of node i towards node j
static bool declared = false; static std::vector<pid_t> kids;
struct QMP_mem_struct { void* p; };
struct QMP_msgmem_struct { void* p; size_t n; };
struct QMP_msghandle_struct { int kind; QMP_msgmem_t m; int node; std::vector<QMP_msghandle_t> sub; bool started; };
static void die(const char* s) { fprintf(stderr, "miniqmp node %d: %s\n", me, s); _exit(97); }
static void wr(int to, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd[me][to], c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) die("peer gone (write)"); c += k; n -= k; } }
static void rd(int from, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd[me][from], c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) die("peer gone (read)"); c += k; n -= k; } }
extern "C" {
// to be called first in main: forks the other nodes
void mini_start(int n) {
  N = n; fd.assign(N, std::vector<int>(N, -1));
  for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) { int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) die("socketpair"); int b = 4 << 20; for (int k : s) { setsockopt(k, SOL_SOCKET, SO_SNDBUF, &b, sizeof b); setsockopt(k, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); } fd[i][j] = s[0]; fd[j][i] = s[1]; }
  for (int i = 1; i < N; ++i) { pid_t p = fork(); if (p == 0) { me = i; kids.clear(); break; } kids.push_back(p); }
  for (int i = 0; i < N; ++i) if (i != me) for (int j = 0; j < N; ++j) if (fd[i][j] >= 0) close(fd[i][j]);
}
// returns nonzero if any node failed; call at the end on every node with its own result
int mini_end(int rc) {
  if (me) _exit(rc);
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = rc ? rc : 1; }
  return rc;
}
int mini_node() { return me; }
QMP_status_t QMP_init_msg_passing(int*, char***, QMP_thread_level_t r, QMP_thread_level_t* p) { *p = r; return QMP_SUCCESS; }
QMP_bool_t QMP_is_initialized(void) { return QMP_TRUE; }
void QMP_finalize_msg_passing(void) {}
void QMP_abort(int c) { _exit(c ? c : 96); }
void QMP_abort_string(int c, char* s) { fprintf(stderr, "%s\n", s); _exit(c ? c : 96); }
int QMP_verbose(int) { return 0; }
const char* QMP_error_string(QMP_status_t) { return "?"; }
QMP_status_t QMP_declare_logical_topology(const int* d, int n) { nd = n; int l = me; for (int i = 0; i < n; ++i) { dims[i] = d[i]; coord[i] = l % d[i]; l /= d[i]; } declared = true; return QMP_SUCCESS; }
QMP_status_t QMP_layout_grid(int* d, int n) { int g[8]; for (int i = 0; i < n; ++i) g[i] = 1; int r = N; for (int i = n - 1; i >= 0 && r > 1; --i) while (r > 1 && d[i] % (g[i] * 2) == 0 && r % 2 == 0) { g[i] *= 2; r /= 2; } return QMP_declare_logical_topology(g, n); }
QMP_bool_t QMP_logical_topology_is_declared(void) { return declared ? QMP_TRUE : QMP_FALSE; }
int QMP_get_logical_number_of_dimensions(void) { return nd; }
const int* QMP_get_logical_dimensions(void) { return dims; }
const int* QMP_get_logical_coordinates(void) { return coord; }
int* QMP_get_logical_coordinates_from(int l) { int* c = (int*)malloc(8 * sizeof(int)); for (int i = 0; i < nd; ++i) { c[i] = l % dims[i]; l /= dims[i]; } return c; }
int QMP_get_node_number(void) { return me; }
int QMP_get_node_number_from(const int* c) { int l = 0; for (int i = nd - 1; i >= 0; --i) l = l * dims[i] + c[i]; return l; }
int QMP_get_number_of_nodes(void) { return N; }
QMP_ictype_t QMP_get_msg_passing_type(void) { return getenv("MINI_GRID") ? QMP_GRID : QMP_SWITCH; }
QMP_bool_t QMP_is_primary_node(void) { return me == 0 ? QMP_TRUE : QMP_FALSE; }
QMP_mem_t* QMP_allocate_aligned_memory(size_t n, size_t al, int) { QMP_mem_t* m = new QMP_mem_t; if (posix_memalign(&m->p, al < 16 ? 16 : al, n)) die("memory"); memset(m->p, 0xA5, n); return m; }
QMP_mem_t* QMP_allocate_memory(size_t n) { return QMP_allocate_aligned_memory(n, 16, 0); }
void* QMP_get_memory_pointer(QMP_mem_t* m) { return m->p; }
void QMP_free_memory(QMP_mem_t* m) { free(m->p); delete m; }
QMP_msgmem_t QMP_declare_msgmem(const void* p, size_t n) { return new QMP_msgmem_struct{(void*)p, n}; }
void QMP_free_msgmem(QMP_msgmem_t m) { delete m; }
static QMP_msghandle_t nh(int k, QMP_msgmem_t m, int n) { return new QMP_msghandle_struct{k, m, n, {}, false}; }
QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int n, int) { return nh(0, m, n); }
QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int n, int) { return nh(1, m, n); }
static int rel(int a, int d) { int c[8]; memcpy(c, coord, sizeof c); c[a] = (c[a] + d + dims[a]) % dims[a]; return QMP_get_node_number_from(c); }
QMP_msghandle_t QMP_declare_send_relative(QMP_msgmem_t m, int a, int d, int) { return nh(0, m, rel(a, d)); }
QMP_msghandle_t QMP_declare_receive_relative(QMP_msgmem_t m, int a, int d, int) { return nh(1, m, rel(a, d)); }
QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* h, int n) { QMP_msghandle_t r = nh(2, nullptr, -1); r->sub.assign(h, h + n); return r; }
void QMP_free_msghandle(QMP_msghandle_t h) { for (auto x : h->sub) delete x; delete h; }
QMP_status_t QMP_start(QMP_msghandle_t h) { if (h->kind == 2) for (auto x : h->sub) QMP_start(x); else if (h->kind == 0) { size_t n = h->m->n; wr(h->node, &n, sizeof n); wr(h->node, h->m->p, n); } h->started = true; return QMP_SUCCESS; }
QMP_status_t QMP_wait(QMP_msghandle_t h) { if (h->kind == 2) for (auto x : h->sub) QMP_wait(x); else if (h->kind == 1 && h->started) { size_t n; rd(h->node, &n, sizeof n); if (n != h->m->n) die("message length differs"); rd(h->node, h->m->p, n); } h->started = false; return QMP_SUCCESS; }
QMP_bool_t QMP_is_complete(QMP_msghandle_t h) { QMP_wait(h); return QMP_TRUE; }
}
static void reduce(void* p, size_t n, std::function<void(void*, void*)> f) {
  if (me) { wr(0, p, n); rd(0, p, n); return; }
  std::vector<char> b(n); for (int i = 1; i < N; ++i) { rd(i, b.data(), n); f(p, b.data()); } for (int i = 1; i < N; ++i) wr(i, p, n);
}
template <class T, class F> static QMP_status_t red(T* v, int n, F f) { reduce(v, n * sizeof(T), [&](void* a, void* b) { for (int i = 0; i < n; ++i) ((T*)a)[i] = f(((T*)a)[i], ((T*)b)[i]); }); return QMP_SUCCESS; }
#define ADD [](auto a, auto b) { return a + b; }
#define MX [](auto a, auto b) { return a > b ? a : b; }
#define MN [](auto a, auto b) { return a < b ? a : b; }
extern "C" {
QMP_status_t QMP_barrier(void) { char c = 0; reduce(&c, 1, [](void*, void*) {}); return QMP_SUCCESS; }
QMP_status_t QMP_broadcast(void* p, size_t n) { if (me) rd(0, p, n); else for (int i = 1; i < N; ++i) wr(i, p, n); return QMP_SUCCESS; }
QMP_status_t QMP_sum_int(int* v) { return red(v, 1, ADD); }
QMP_status_t QMP_sum_float(float* v) { return red(v, 1, ADD); }
QMP_status_t QMP_sum_double(double* v) { return red(v, 1, ADD); }
QMP_status_t QMP_sum_float_array(float* v, int n) { return red(v, n, ADD); }
QMP_status_t QMP_sum_double_array(double* v, int n) { return red(v, n, ADD); }
QMP_status_t QMP_max_float(float* v) { return red(v, 1, MX); }
QMP_status_t QMP_max_double(double* v) { return red(v, 1, MX); }
QMP_status_t QMP_min_float(float* v) { return red(v, 1, MN); }
QMP_status_t QMP_min_double(double* v) { return red(v, 1, MN); }
QMP_status_t QMP_xor_ulong(unsigned long* v) { return red(v, 1, [](auto a, auto b) { return a ^ b; }); }
QMP_status_t QMP_binary_reduction(void* p, size_t n, QMP_binary_func f) { reduce(p, n, [&](void* a, void* b) { f(a, b); }); return QMP_SUCCESS; }
QMP_comm_t QMP_comm_get_default(void) { return nullptr; }
QMP_status_t QMP_get_hidden_comm(QMP_comm_t, void** h) { *h = nullptr; return QMP_NOTSUPPORTED; }
int DML_route_bytes(char* b, size_t n, int from, int to) { if (from == to) return 0; if (me == from) wr(to, b, n); if (me == to) rd(from, b, n); return 0; }
}
