// malloc family: guards, poison, ownership, failing allocations.
#include "internal.h"
#include <cstring>
#include <cstdlib>
#include <new>
#include <unistd.h>
#include <malloc.h>
#include <dlfcn.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace sim {
int g_host_depth = 1;
unsigned char g_stack_poison = 0;

void shadow_clear(void* p, size_t n);
namespace {
struct Hdr {            // sits directly before the user pointer
  Hdr *prev, *next;     // live list of node-owned blocks
  void* base;
  size_t size;
  long serial;
  int node;
  uint32_t magic;
};
const uint32_t LIVE = 0x51B10C4Eu, DEAD = 0xDEADB10Cu;
const size_t G = 32;     // trailing guard
Hdr g_head = {&g_head, &g_head, nullptr, 0, 0, -1, 0};
Hdr g_quar = {&g_quar, &g_quar, nullptr, 0, 0, -1, 0};
size_t g_quar_bytes = 0;
long g_serial = 0;
unsigned char g_poison = 0xA5;
bool g_active = false;
long g_oom_op = -1;        // requests fail from this operation on only
long g_cap = 0;            // bytes a node may hold (0: no limit)
MemStat g_stat[64];

inline unsigned char gb(size_t i) { return (unsigned char)(0xC3 ^ (i * 7)); }

inline bool tracked() { return g_active && g_host_depth == 0 && g_cur; }

// no simulated node has memory for a block of this size (only a corrupt length asks for one)
const size_t NODE_BLOCK_MAX = (size_t)256 << 20;

void* alloc(size_t sz, size_t al) {
  bool tr = tracked();
  if (tr) {
    g_host_depth++;
    bool f = (g_oom_op < 0 || cur_node()->opidx >= g_oom_op) && inject("oom");
    g_host_depth--;
    if (f) { errno = ENOMEM; return nullptr; }
  }
  if (tr && g_cap && g_stat[cur_node_id() & 63].live_bytes + (long)sz > g_cap) {
    g_host_depth++;
    faulted("mem.cap"); logf("FAULT mem.cap %zu bytes", sz);
    g_host_depth--;
    errno = ENOMEM; return nullptr;
  }
  if (sz > (size_t)1 << 40) { errno = ENOMEM; return nullptr; }
  if (tr && sz > NODE_BLOCK_MAX) { errno = ENOMEM; return nullptr; }
  if (al < 16) al = 16;
  size_t off = (sizeof(Hdr) + al - 1) & ~(al - 1);
  // node-owned blocks start at changing multiples of 16 bytes, so that code
  // relying on a larger alignment has to establish it itself
  size_t extra = tr && al == 16 ? 16 : 0;
  char* base = (char*)(al > 16 || extra ? __libc_memalign(al > 16 ? al : 128, off + sz + G + extra + 128) : __libc_malloc(off + sz + G));
  if (!base) return nullptr;
  char* p = base + off;
  if (extra) { size_t r = 16 * (size_t)((g_stat[cur_node_id() & 63].allocs * 5 + 1) & 7); p += (r + 128 - ((size_t)p & 127)) & 127; }
  Hdr* h = (Hdr*)p - 1;
  h->base = base; h->size = sz; h->serial = ++g_serial; h->node = tr ? cur_node_id() : -1; h->magic = LIVE;
  if (tr) {
    h->next = &g_head; h->prev = g_head.prev; g_head.prev->next = h; g_head.prev = h;
    memset(p, g_poison, sz);
    shadow_clear(p, sz);
    MemStat& m = g_stat[h->node & 63];
    m.allocs++; m.live_bytes += sz; m.live_blocks++;
  } else { h->prev = h->next = nullptr; }
  for (size_t i = 0; i < G; ++i) ((unsigned char*)p)[sz + i] = gb(i);
  return p;
}
void check(Hdr* h, const char* when) {
  unsigned char* p = (unsigned char*)(h + 1);
  for (size_t i = 0; i < G; ++i)
    if (p[h->size + i] != gb(i)) {
      g_host_depth++;
      violation("memory.overrun", "write beyond a %zu byte block (offset +%zu) noticed at %s", h->size, i, when);
    }
}
void dealloc(void* v) {
  if (!v) return;
  Hdr* h = (Hdr*)v - 1;
  if (h->magic == DEAD) { g_host_depth++; violation("memory.double-free", "block of %zu bytes freed twice", h->size); }
  if (h->magic != LIVE) {
    g_host_depth++;
    if (cur_node()) violation("memory.bad-free", "free of a pointer that is not an allocated block (or its header was overwritten)");
    return;
  }
  if (h->node >= 0) {
    check(h, "free");
    h->prev->next = h->next; h->next->prev = h->prev;
    MemStat& m = g_stat[h->node & 63];
    m.frees++; m.live_bytes -= h->size; m.live_blocks--;
    h->magic = DEAD;
    memset(v, 0xDD, h->size);
    h->next = &g_quar; h->prev = g_quar.prev; g_quar.prev->next = h; g_quar.prev = h;
    g_quar_bytes += h->size;
    while (g_quar_bytes > (48u << 20)) {
      Hdr* q = g_quar.next;
      q->prev->next = q->next; q->next->prev = q->prev;
      g_quar_bytes -= q->size;
      unsigned char* p = (unsigned char*)(q + 1);
      for (size_t i = 0; i < q->size; ++i) if (p[i] != 0xDD) { g_host_depth++; violation("memory.use-after-free", "freed block of %zu bytes was written", q->size); }
      q->magic = 0;
      __libc_free(q->base);
    }
    return;
  }
  h->magic = 0;
  __libc_free(h->base);
}
} // namespace

void mem_run_begin(unsigned char poison) { g_poison = poison; g_stack_poison = poison; g_active = true; g_oom_op = g_spec->knob("oom.op", -1); g_cap = g_spec->knob("mem.cap", 0); memset(g_stat, 0, sizeof g_stat); }
void mem_check_all(const char* when) {
  for (Hdr* h = g_head.next; h != &g_head; h = h->next) check(h, when);
  for (Hdr* q = g_quar.next; q != &g_quar; q = q->next) {
    unsigned char* p = (unsigned char*)(q + 1);
    for (size_t i = 0; i < q->size; ++i) if (p[i] != 0xDD) violation("memory.use-after-free", "freed block of %zu bytes was written (noticed at %s)", q->size, when);
  }
}
MemStat mem_stat(int node) { return g_stat[node & 63]; }
long mem_mark() { return g_serial + 1; }
long mem_live_since(int node, long mark, size_t* bytes) {
  long n = 0; size_t b = 0;
  for (Hdr* h = g_head.next; h != &g_head; h = h->next) if (h->node == node && h->serial >= mark) { ++n; b += h->size; }
  if (bytes) *bytes = b;
  return n;
}
void mem_describe_live(int node, long mark, std::string& out) {
  int k = 0;
  for (Hdr* h = g_head.next; h != &g_head && k < 8; h = h->next) if (h->node == node && h->serial >= mark) { out += std::to_string(h->size) + " "; ++k; }
}
const void* mem_block_of(const void* p, size_t* size, int* node) {
  for (Hdr* h = g_head.next; h != &g_head; h = h->next) {
    char* b = (char*)(h + 1);
    if ((char*)p >= b && (char*)p < b + (h->size ? h->size : 1)) { *size = h->size; *node = h->node; return b; }
  }
  return nullptr;
}
void mem_node_gone(int node) {   // crash: the memory image vanishes
  for (Hdr* h = g_head.next; h != &g_head;) {
    Hdr* n = h->next;
    if (h->node == node) { h->prev->next = h->next; h->next->prev = h->prev; h->node = -1; }
    h = n;
  }
  memset(&g_stat[node & 63], 0, sizeof(MemStat));
}
} // namespace sim

using namespace sim;
extern "C" {
__attribute__((visibility("default"))) void* malloc(size_t n) { return alloc(n, 16); }
__attribute__((visibility("default"))) void free(void* p) { dealloc(p); }
__attribute__((visibility("default"))) void* calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = alloc(n, 16); if (p) memset(p, 0, n); return p;
}
__attribute__((visibility("default"))) void* realloc(void* p, size_t n) {
  if (!p) return alloc(n, 16);
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != LIVE) { g_host_depth++; violation("memory.bad-free", "realloc of a pointer that is not an allocated block"); }
  if (!n) { dealloc(p); return nullptr; }
  void* q = alloc(n, 16);
  if (!q) return nullptr;
  memcpy(q, p, n < h->size ? n : h->size);
  dealloc(p);
  return q;
}
__attribute__((visibility("default"))) void* memalign(size_t al, size_t n) { return alloc(n, al); }
__attribute__((visibility("default"))) void* aligned_alloc(size_t al, size_t n) { return alloc(n, al); }
__attribute__((visibility("default"))) int posix_memalign(void** r, size_t al, size_t n) {
  void* p = alloc(n, al); if (!p) return ENOMEM; *r = p; return 0;
}
__attribute__((visibility("default"))) void* valloc(size_t n) { return alloc(n, 4096); }
__attribute__((visibility("default"))) void* pvalloc(size_t n) { return alloc((n + 4095) & ~4095ul, 4096); }
__attribute__((visibility("default"))) size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}
