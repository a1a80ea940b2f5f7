// Deterministic heap for C++ allocations: fixed address range, canaries, fill
// patterns, and a per-block hash salt (see the absl header patch).
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>

#include <new>

#include "internal.h"
#include "sim.h"

namespace sim {
namespace {

constexpr uintptr_t kBase = 0x600000000000ull;
constexpr size_t kArena = 24ull << 30;  // address space only
constexpr uint64_t kMagic = 0x5afe5afec0ffee11ull;
constexpr uint64_t kFreed = 0xdeadfeed00c0ffeeull;

struct Header {  // immediately before the user block; 32 bytes
  uint64_t magic;
  uint64_t size;
  uint32_t salt;
  uint16_t cls;
  uint16_t pad;  // bytes between the end of the size class and the next block
  uint64_t canary;
};
static_assert(sizeof(Header) == 32);

constexpr int kClasses = 64;
struct Queue {  // FIFO of freed blocks
  Header** ring;
  uint32_t head, count, cap;
};

uint8_t* g_next = nullptr;
uint8_t* g_end = nullptr;
Queue g_free[kClasses];
uint32_t g_salt = 0;
uint32_t g_counter = 0;
uint32_t g_pad = 0;
int g_layout = 0;
uint64_t g_live = 0;

size_t class_size(int c) {
  if (c < 32) return size_t(c + 1) * 32;
  return size_t(1024) << (c - 31);
}
int class_of(size_t n) {
  if (n <= 1024) return int((n + 31) / 32) - 1;
  int c = 32;
  while (class_size(c) < n) ++c;
  return c;
}

void init_arena() {
  void* p = mmap(reinterpret_cast<void*>(kBase), kArena, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) {
    fprintf(stderr, "cannot map the heap arena\n");
    __builtin_trap();
  }
  g_next = static_cast<uint8_t*>(p);
  g_end = g_next + kArena;
}

void tail_canary(Header* h, uint8_t out[8]) {
  uint64_t v = h->canary ^ 0x1122334455667788ull;
  memcpy(out, &v, 8);
}

bool ok(Header* h) {
  if (h->magic != kMagic) return false;
  if (h->canary != (kMagic ^ h->size * 0x9e3779b97f4a7c15ull)) return false;
  uint8_t want[8];
  tail_canary(h, want);
  return memcmp(reinterpret_cast<uint8_t*>(h + 1) + h->size, want, 8) == 0;
}

Header* first_block() { return reinterpret_cast<Header*>(kBase); }

void* allocate(size_t n) {
  if (!g_next) init_arena();
  if (n > (8ull << 30)) throw std::bad_alloc();
  size_t total = sizeof(Header) + n + 8;
  int c = class_of(total);
  Queue& q = g_free[c];
  Header* h = nullptr;
  // Layout 0: reuse after a quarantine of 32 blocks, oldest first.
  // Layout 1: reuse at once, newest first.  Layout 2: never reuse small blocks.
  if (q.count > 0 && (g_layout == 1 || (g_layout == 0 && q.count > 32) || total > 65536)) {
    if (g_layout == 1) {
      h = q.ring[(q.head + q.count - 1) % q.cap];
    } else {
      h = q.ring[q.head];
      q.head = (q.head + 1) % q.cap;
    }
    --q.count;
  } else {
    size_t sz = class_size(c);
    uint16_t pad = g_layout >= 3 ? 32 * (++g_pad * 7 % 5) : 0;
    sz += pad;
    if (g_next + sz + 64 > g_end) {
      SutPause p;
      harness_error("simulated heap exhausted");
    }
    h = reinterpret_cast<Header*>(g_next);
    h->pad = pad;
    g_next += sz;
  }
  h->magic = kMagic;
  h->size = n;
  h->cls = uint16_t(c);
  h->salt = (g_salt * 0x9e3779b9u) ^ (g_salt ? ++g_counter * 0x85ebca6bu : 0);
  h->canary = kMagic ^ n * 0x9e3779b97f4a7c15ull;
  uint8_t* u = reinterpret_cast<uint8_t*>(h + 1);
  tail_canary(h, u + n);
  if (n <= 65536) memset(u, 0xCD, n);
  ++g_live;
  return u;
}

void release(void* p) {
  if (!p) return;
  Header* h = static_cast<Header*>(p) - 1;
  if (reinterpret_cast<uintptr_t>(p) < kBase || reinterpret_cast<uintptr_t>(p) >= kBase + kArena) {
    SutPause s;
    bool sut = s.was;
    if (sut) violation("crash.heap", "delete of a pointer that was never allocated");
    harness_error("delete of a foreign pointer");
  }
  if (!ok(h)) {
    SutPause s;
    const char* m = h->magic == kFreed ? "double delete" : "write outside an allocated block";
    if (s.was || total_steps() > 0) violation("crash.heap", "heap corrupted: %s", m);
    harness_error("heap corrupted: %s", m);
  }
  if (h->size <= 65536) memset(p, 0xDD, h->size);
  h->magic = kFreed;
  --g_live;
  Queue& q = g_free[h->cls];
  if (g_layout == 2 && h->size < 65536) return;
  if (q.count == q.cap) {
    uint32_t nc = q.cap ? q.cap * 2 : 64;
    size_t bytes = nc * sizeof(Header*);
    auto** nr = static_cast<Header**>(__builtin_malloc(bytes));
    for (uint32_t i = 0; i < q.count; ++i) nr[i] = q.ring[(q.head + i) % q.cap];
    __builtin_free(q.ring);
    q.ring = nr;
    q.cap = nc;
    q.head = 0;
  }
  q.ring[(q.head + q.count) % q.cap] = h;
  ++q.count;
}

}  // namespace

void set_hash_salt(uint32_t salt) { g_salt = salt; }
void set_heap_layout(int v) { g_layout = v; }

// The salt of the block starting at `p`, or 0 if `p` is not the start of one.
uint32_t block_salt(const void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a < kBase + sizeof(Header) || a >= kBase + kArena) return 0;
  const Header* h = static_cast<const Header*>(p) - 1;
  return h->magic == kMagic ? h->salt : 0;
}

void check_heap() {
  uint8_t* p = reinterpret_cast<uint8_t*>(kBase);
  while (g_next && p < g_next) {
    Header* h = reinterpret_cast<Header*>(p);
    if (h->magic != kMagic && h->magic != kFreed) {
      violation("crash.heap", "heap corrupted: block header overwritten");
    }
    if (h->magic == kMagic && !ok(h)) {
      violation("crash.heap", "heap corrupted: write outside an allocated block");
    }
    p += class_size(int(h->cls)) + h->pad;
  }
  (void)first_block;
}

}  // namespace sim

void* operator new(size_t n) { return sim::allocate(n); }
void* operator new[](size_t n) { return sim::allocate(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n); }
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, size_t) noexcept { sim::release(p); }
void operator delete[](void* p, size_t) noexcept { sim::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::release(p); }
