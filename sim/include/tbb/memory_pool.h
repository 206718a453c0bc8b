// Stand-in for the TBB fixed pool: first fit inside the given block.
#ifndef SIM_TBB_POOL_H
#define SIM_TBB_POOL_H
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include "common/api.h"
namespace tbb {
inline long& live_blocks() { static long n = 0; return n; }      // handed out and not returned
class fixed_pool {
  struct H { size_t size; uint64_t tag; };     // before every block; size includes the header and trailer
  enum : uint64_t { FREE = 0xF4EEF4EEF4EEF4EEull, USED = 0xA110CA7EDA110CA7ull };
  char *b, *e; unsigned turn = 0;
  size_t pad() const { return 16 * (size_t)(turn * 5 % 8); }
  static void die(const char* m) { sim_fail("memory.pool", m); abort(); }
public:
  fixed_pool(void* p, size_t n) {
    uintptr_t a = ((uintptr_t)p + 127) & ~(uintptr_t)127; b = (char*)a + 0; e = (char*)p + (n & ~(size_t)15);
    if (n < 512) { b = e; return; }
    H* h = (H*)b; h->size = (size_t)(e - b) & ~(size_t)15; e = b + h->size; h->tag = FREE;
  }
  ~fixed_pool() {}
  void* malloc(size_t n) {
    if (n == 0) n = 1;
    if (n > (size_t)1 << 40) return nullptr;
    size_t need = (n + sizeof(H) + 16 + 112 + 127) & ~(size_t)127; ++turn;
    for (char* p = b; p < e;) {
      H* h = (H*)p;
      if (h->tag != FREE && h->tag != USED) die("the bookkeeping of the memory pool was overwritten");
      if (h->tag == FREE) {
        for (char* q = p + h->size; q < e && ((H*)q)->tag == FREE; q = p + h->size) h->size += ((H*)q)->size;
        if (h->size >= need) {
          if (h->size >= need + 256) { H* r = (H*)(p + need); r->size = h->size - need; r->tag = FREE; h->size = need; }
          h->tag = USED; ++live_blocks(); memset(h + 1, 0xA5, h->size - sizeof(H)); return (char*)(h + 1) + pad();      // at changing multiples of 16
        }
      }
      p += h->size;
    }
    sim_note("pool.exhausted", 1);
    return nullptr;
  }
  void free(void* v) {
    if (!v) return;
    H* h = (H*)((uintptr_t)((char*)v - sizeof(H)) & ~(uintptr_t)127);
    if ((char*)h < b || (char*)h >= e) die("a block that is not from the pool is returned to it");
    if (h->tag != USED) die("a block is returned to the pool twice or was overwritten");
    h->tag = FREE; --live_blocks(); memset(h + 1, 0xDD, h->size - sizeof(H));
  }
};
}
#endif
