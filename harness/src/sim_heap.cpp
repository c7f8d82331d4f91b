// Deterministic heap: fixed addresses, seeded garbage in fresh blocks,
// seeded allocation failures.
#include "sim_heap.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

namespace {
  constexpr uintptr_t BASE = 0x200000000000ull;
  constexpr size_t SPAN = 24ull << 30;
  struct Header {
    uint32_t cls;
    uint32_t magic;
    size_t offset; // distance from block start to user pointer
  };
  static_assert(sizeof(Header) == 16);
  constexpr uint32_t MAGIC = 0xA110CA7E, FREED = 0xF4EEDF4E;
  struct FreeNode {
    FreeNode *next;
  };
  constexpr int NCLS = 64 + 4 * 30;
  FreeNode *freelist[NCLS];
  size_t brk_off = 0;
  // with a seeded layout small blocks come from one of these in any order, so that the order of
  // addresses says nothing about the order of allocations
  constexpr int NARENA = 8;
  constexpr size_t ARENA = 8u << 20, ARENAS_AT = SPAN - NARENA * ARENA;
  size_t arena_off[NARENA];
  bool inited = false;
  int lockword = 0;

  struct Lock {
    Lock() {
      while (__atomic_exchange_n(&lockword, 1, __ATOMIC_ACQUIRE)) {}
    }
    ~Lock() { __atomic_store_n(&lockword, 0, __ATOMIC_RELEASE); }
  };

  void init() {
    void *p = mmap(
        reinterpret_cast<void *>(BASE), SPAN, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(BASE)) {
      char const m[] = "gsim: cannot map arena\n";
      (void)!write(2, m, sizeof m - 1);
      _exit(97);
    }
    inited = true;
  }

  int cls_of(size_t n, size_t &rounded) { // n = total block size incl header
    if (n <= 1024) {
      int c = int((n + 15) / 16) - 1;
      if (c < 0) { c = 0; }
      rounded = size_t(c + 1) * 16;
      return c;
    }
    int e = 63 - __builtin_clzll(n - 1); // 2^e < n <= 2^(e+1), e>=10
    size_t base = size_t(1) << e, step = base / 4;
    size_t k = (n - base + step - 1) / step; // 1..4
    rounded = base + k * step;
    return 64 + (e - 10) * 4 + int(k - 1);
  }
} // namespace

namespace gsim::heap {
  int fill_mode = 0;
  uint64_t layout = 0;
  uint64_t fill_seed = 0;
  uint64_t count = 0;
  uint64_t fail_at = 0;
  uint64_t fail_len = 1;
  uint64_t fail_min = 0;
  uint64_t failed = 0;
  uint64_t filled_bytes = 0;
  thread_local bool active = false;

  void paint(void *p, size_t n) {
    if (!fill_mode || !n) { return; }
    if (n > (8u << 20)) { n = 8u << 20; }
    filled_bytes += n;
    unsigned char *c = static_cast<unsigned char *>(p);
    switch (fill_mode) {
    case 1: memset(c, 0, n); break;
    case 2: memset(c, 0xFF, n); break;
    default: {
      uint64_t v;
      if (fill_mode == 3) {
        double d = 1.7e+18;
        memcpy(&v, &d, 8);
      } else if (fill_mode == 4) {
        double d = -3.25;
        memcpy(&v, &d, 8);
      } else {
        v = fill_seed;
      }
      size_t i = 0;
      for (; i + 8 <= n; i += 8) {
        if (fill_mode >= 5) {
          v ^= v << 13;
          v ^= v >> 7;
          v ^= v << 17;
        }
        memcpy(c + i, &v, 8);
      }
      for (; i < n; ++i) { c[i] = (unsigned char)(v >> (8 * (i & 7))); }
      if (fill_mode >= 5) { fill_seed = v; }
    }
    }
  }
} // namespace gsim::heap

namespace {
  using namespace gsim::heap;
  void *allocate(size_t n, size_t align) {
    if (active) {
      ++count;
      if (fail_at && count >= fail_at && count < fail_at + fail_len && n >= fail_min) {
        ++failed;
        errno = ENOMEM;
        return nullptr;
      }
    }
    if (n > (SPAN >> 1)) {
      errno = ENOMEM;
      return nullptr;
    }
    size_t total = n + sizeof(Header) + (align > 16 ? align : 0);
    size_t rounded;
    int c = cls_of(total, rounded);
    char *block;
    {
      Lock l;
      if (!inited) { init(); }
      int a = -1;
      if (layout && active && rounded <= 1024) {
        layout ^= layout << 13;
        layout ^= layout >> 7;
        layout ^= layout << 17;
        if (layout & 0x100) {
          a = int(layout >> 40) & (NARENA - 1);
          if (arena_off[a] + rounded > ARENA) { a = -1; }
        }
      }
      if (a >= 0) {
        // every other arena grows downwards
        block = reinterpret_cast<char *>(BASE) + ARENAS_AT + size_t(a) * ARENA
                + ((a & 1) ? ARENA - arena_off[a] - rounded : arena_off[a]);
        arena_off[a] += rounded;
      } else if (freelist[c]) {
        block = reinterpret_cast<char *>(freelist[c]);
        freelist[c] = freelist[c]->next;
      } else {
        if (brk_off + rounded > ARENAS_AT) {
          errno = ENOMEM;
          return nullptr;
        }
        block = reinterpret_cast<char *>(BASE) + brk_off;
        brk_off += rounded;
      }
    }
    char *user = block + sizeof(Header);
    if (align > 16) {
      uintptr_t u = (reinterpret_cast<uintptr_t>(user) + align - 1) & ~(uintptr_t)(align - 1);
      user = reinterpret_cast<char *>(u);
    }
    Header *h = reinterpret_cast<Header *>(user) - 1;
    h->cls = c;
    h->magic = MAGIC;
    h->offset = size_t(user - block);
    if (active) { paint(user, n); }
    return user;
  }
  bool ours(void *p) {
    auto u = reinterpret_cast<uintptr_t>(p);
    return u >= BASE && u < BASE + SPAN;
  }
  size_t usable(void *p) {
    Header *h = reinterpret_cast<Header *>(p) - 1;
    size_t rounded;
    if (h->cls < 64) {
      rounded = (h->cls + 1) * 16;
    } else {
      int e = 10 + (h->cls - 64) / 4;
      rounded = (size_t(1) << e) + size_t((h->cls - 64) % 4 + 1) * ((size_t(1) << e) / 4);
    }
    return rounded - h->offset;
  }
} // namespace

extern "C" {
void *malloc(size_t n) { return allocate(n, 16); }
void free(void *p) {
  if (!p || !ours(p)) { return; }
  Header *h = reinterpret_cast<Header *>(p) - 1;
  if (h->magic != MAGIC) {
    char const m[] = "gsim: invalid or double free\n";
    (void)!write(2, m, sizeof m - 1);
    abort();
  }
  h->magic = FREED;
  int c = h->cls;
  FreeNode *f = reinterpret_cast<FreeNode *>(static_cast<char *>(p) - h->offset);
  if (active && fill_mode) { // stale content must not survive
    size_t u = usable(p);
    if (u > 4096) { u = 4096; }
    memset(p, 0xDB, u);
  }
  Lock l;
  f->next = freelist[c];
  freelist[c] = f;
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  int keep = fill_mode;
  fill_mode = 0;
  void *p = allocate(n, 16);
  fill_mode = keep;
  if (p) { memset(p, 0, n); }
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) { return malloc(n); }
  if (n == 0) {
    free(p);
    return nullptr;
  }
  if (!ours(p)) {
    void *q = malloc(n);
    return q; // cannot know the old size; never happens in practice
  }
  size_t u = usable(p);
  if (n <= u && n > u / 2) { return p; }
  void *q = allocate(n, 16);
  if (!q) { return nullptr; }
  memcpy(q, p, u < n ? u : n);
  free(p);
  return q;
}
void *memalign(size_t a, size_t n) { return allocate(n, a); }
void *aligned_alloc(size_t a, size_t n) { return allocate(n, a); }
int posix_memalign(void **out, size_t a, size_t n) {
  void *p = allocate(n, a);
  if (!p) { return ENOMEM; }
  *out = p;
  return 0;
}
void *valloc(size_t n) { return allocate(n, 4096); }
size_t malloc_usable_size(void *p) { return p && ours(p) ? usable(p) : 0; }
}
