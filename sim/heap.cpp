// simulated host memory: operator new/delete while inside the system under test
#include "core.h"

#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unordered_map>

namespace sim {
namespace heap {

namespace {

const uintptr_t BASE = 0x100000000000ull;
const size_t SIZE = 3ull << 30;
const uintptr_t FBASE = 0x110000000000ull;
const size_t FSIZE = 64ull << 30;
const size_t DEFAULT_LIMIT = 1ull << 30;

const uint32_t LIVE = 0x11FE11FE, DEAD = 0xDEADDEAD;

struct Block {
  uint32_t magic;
  uint32_t cls;
  size_t size;
  uint64_t serial;
  Block *prev, *next;
  uint64_t pad; // keep the user pointer 16 byte aligned
};
static_assert(sizeof(Block) == 48, "block header");
const size_t RED = 16;

struct Class {
  size_t slot;
  Block **items;
  size_t n, cap;
  size_t head; // for fifo
};

bool g_ready = false;
mode_t g_mode = LIFO;
Rng g_rng(1);
uint8_t g_junk = 0xA5;
uintptr_t g_bump = BASE;
uintptr_t g_fbump = FBASE;
Class g_cls[128];
Block g_list;
size_t g_live, g_bytes, g_peak, g_max;
uint64_t g_count, g_mark;
uint64_t g_arm_nth, g_arm_seen, g_arm_failed;
bool g_armed, g_persistent;
size_t g_limit = DEFAULT_LIMIT;
std::unordered_map<uintptr_t, Block *> *g_fence; // by user pointer

void init() {
  if (g_ready) {
    return;
  }
  g_ready = true;
  void *p = mmap((void *)BASE, SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  void *q = mmap((void *)FBASE, FSIZE, PROT_NONE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED) {
    perror("heap region");
    _Exit(2);
  }
  g_list.prev = g_list.next = &g_list;
}

// size classes: 4 steps per power of two, from 64 bytes
uint32_t class_of(size_t total, size_t &slot) {
  size_t base = 64;
  uint32_t c = 0;
  while (true) {
    for (int k = 0; k < 4; ++k) {
      const size_t s = base + base / 4 * size_t(k);
      if (total <= s) {
        slot = (s + 15) & ~size_t(15);
        return c;
      }
      ++c;
    }
    base *= 2;
  }
}

void push_item(Class &c, Block *b) {
  if (c.n == c.cap) {
    // compact or grow (plain libc memory)
    if (c.head > c.cap / 2 && c.head) {
      memmove(c.items, c.items + c.head, (c.n - c.head) * sizeof(Block *));
      c.n -= c.head;
      c.head = 0;
    } else {
      c.cap = c.cap ? c.cap * 2 : 64;
      c.items = (Block **)realloc(c.items, c.cap * sizeof(Block *));
    }
  }
  c.items[c.n++] = b;
}

Block *take_item(Class &c) {
  const size_t avail = c.n - c.head;
  size_t at;
  switch (g_mode) {
  case FIFO: at = c.head; break;
  case RANDOM: at = c.head + g_rng.below(uint32_t(avail)); break;
  default: at = c.n - 1; break;
  }
  Block *b = c.items[at];
  if (g_mode == FIFO) {
    c.head++;
    if (c.head == c.n) {
      c.head = c.n = 0;
    }
  } else {
    c.items[at] = c.items[--c.n];
    if (c.n == c.head) {
      c.head = c.n = 0;
    }
  }
  return b;
}

void link(Block *b) {
  b->next = &g_list;
  b->prev = g_list.prev;
  g_list.prev->next = b;
  g_list.prev = b;
}

void unlink(Block *b) {
  b->prev->next = b->next;
  b->next->prev = b->prev;
}

void account(size_t n) {
  ++g_live;
  g_bytes += n;
  if (g_bytes > g_peak) {
    g_peak = g_bytes;
  }
}

uint8_t red_byte(size_t i) { return uint8_t(0xC3 ^ (i * 29)); }

void fill_user(uint8_t *u, size_t n) {
  if (n <= 65536) {
    memset(u, g_junk, n);
  } else {
    memset(u, g_junk, 4096);
    memset(u + n - 4096, g_junk, 4096);
  }
}

bool check_red(const Block *b) {
  const uint8_t *u = (const uint8_t *)(b + 1);
  for (size_t i = 0; i < RED; ++i) {
    if (u[b->size + i] != red_byte(i)) {
      return false;
    }
  }
  return true;
}

void *alloc_fence(size_t n) {
  // [guard][header page ...user ends at the page end][guard]
  const size_t pg = 4096;
  size_t align = n & (~n + 1);
  if (align > 16 || n == 0) {
    align = 16;
  }
  const size_t user = (n + align - 1) / align * align;
  const size_t pages = (user + sizeof(Block) + 64 + pg - 1) / pg;
  const uintptr_t start = g_fbump;
  g_fbump += (pages + 1) * pg;
  if (g_fbump > FBASE + FSIZE) {
    give_up("fence region exhausted");
  }
  if (mprotect((void *)start, pages * pg, PROT_READ | PROT_WRITE) != 0) {
    give_up("mprotect");
  }
  uint8_t *u = (uint8_t *)(start + pages * pg - user);
  // the header is at the start of the first page
  Block *b = (Block *)start;
  b->magic = LIVE;
  b->cls = uint32_t(pages);
  b->size = n;
  b->serial = g_count;
  *(uintptr_t *)(start + sizeof(Block)) = (uintptr_t)u;
  link(b);
  fill_user(u, n);
  // the slack in front of the user data notices underflows
  uint8_t *s = (uint8_t *)(start + sizeof(Block) + 8);
  for (uint8_t *q = u - 1; q >= s && q >= u - 64; --q) {
    *q = 0xC3;
  }
  account(n);
  if (!g_fence) {
    g_fence = new std::unordered_map<uintptr_t, Block *>();
  }
  (*g_fence)[(uintptr_t)u] = b;
  return u;
}

Block *fence_header(void *p) {
  auto it = g_fence->find((uintptr_t)p);
  return it == g_fence->end() ? nullptr : it->second;
}

} // namespace

void configure(mode_t m, uint64_t seed) {
  init();
  g_mode = m;
  g_rng = Rng(seed);
  g_junk = uint8_t(seed ? (g_rng.next() >> 8) : 0xA5);
}

size_t live() { return g_live; }
size_t live_bytes() { return g_bytes; }
size_t peak_bytes() { return g_peak; }
size_t max_request() { return g_max; }
void reset_peak() {
  g_peak = g_bytes;
  g_max = 0;
}
uint64_t count() { return g_count; }

bool intact(std::string &what) {
  for (Block *b = g_list.next; b != &g_list; b = b->next) {
    if ((uintptr_t)b >= FBASE) {
      continue;
    }
    if (b->magic != LIVE || !check_red(b)) {
      what = format("block #%llu of %zu bytes was overrun", (unsigned long long)b->serial, b->size);
      return false;
    }
  }
  return true;
}

void arm(uint64_t nth, bool persistent) {
  g_armed = true;
  g_persistent = persistent;
  g_arm_nth = nth;
  g_arm_seen = 0;
  g_arm_failed = 0;
}

uint64_t disarm() {
  g_armed = false;
  return g_arm_failed;
}

uint64_t armed_count() { return g_arm_seen; }

void set_limit(size_t bytes) { g_limit = bytes ? bytes : DEFAULT_LIMIT; }

bool owns(const void *p) {
  uintptr_t a = (uintptr_t)p;
  return (a >= BASE && a < BASE + SIZE) || (a >= FBASE && a < FBASE + FSIZE);
}

void mark() { g_mark = g_count; }

std::string leak_report() {
  std::string out;
  int n = 0;
  for (Block *b = g_list.next; b != &g_list; b = b->next) {
    if (b->serial > g_mark) {
      if (n++ < 4) {
        out += format("%s%zu bytes (allocation #%llu)", out.empty() ? "" : ", ", b->size,
                      (unsigned long long)(b->serial - g_mark));
      }
    }
  }
  if (n > 4) {
    out += format(" and %d more", n - 4);
  }
  return out;
}

// returns nullptr on failure
static void *sut_alloc(size_t n) {
  init();
  ++g_count;
  if (n > g_max) {
    g_max = n;
  }
  if (g_armed) {
    ++g_arm_seen;
    if (g_arm_seen == g_arm_nth || (g_persistent && g_arm_seen > g_arm_nth)) {
      ++g_arm_failed;
      return nullptr;
    }
  }
  if (n > g_limit) {
    return nullptr;
  }
  if (g_mode == FENCE) {
    return alloc_fence(n);
  }
  size_t slot = 0;
  const uint32_t ci = class_of(sizeof(Block) + n + RED, slot);
  Class &c = g_cls[ci];
  c.slot = slot;
  if (c.n == c.head) {
    // carve more slots; small ones in batches so that random placement can
    // put any two blocks in any order
    const int batch = (g_mode == RANDOM && slot <= 4096) ? 32 : 1;
    for (int i = 0; i < batch; ++i) {
      if (g_bump + slot > BASE + SIZE) {
        give_up("heap region exhausted");
      }
      Block *b = (Block *)g_bump;
      b->magic = 0;
      g_bump += slot;
      push_item(c, b);
    }
  }
  Block *b = take_item(c);
  if (b->magic == DEAD) {
    const uint8_t *u = (const uint8_t *)(b + 1);
    for (size_t i = 0; i < b->size && i < 64; ++i) {
      if (u[i] != 0xDD) {
        violation("memory", "a freed block of %zu bytes was written to", b->size);
      }
    }
  }
  b->magic = LIVE;
  b->cls = ci;
  b->size = n;
  b->serial = g_count;
  link(b);
  uint8_t *u = (uint8_t *)(b + 1);
  fill_user(u, n);
  for (size_t i = 0; i < RED; ++i) {
    u[n + i] = red_byte(i);
  }
  account(n);
  return u;
}

static void sut_free(void *p) {
  uintptr_t a = (uintptr_t)p;
  if (a >= FBASE) {
    Block *b = fence_header(p);
    if (!b || b->magic != LIVE || *(uintptr_t *)((uintptr_t)b + sizeof(Block)) != a) {
      violation("memory", "delete of a pointer that is not live");
    }
    g_live--;
    g_bytes -= b->size;
    unlink(b);
    g_fence->erase(a);
    const size_t pages = b->cls;
    mprotect(b, pages * 4096, PROT_NONE);
    madvise(b, pages * 4096, MADV_DONTNEED);
    return;
  }
  Block *b = (Block *)p - 1;
  if (b->magic != LIVE) {
    violation("memory", b->magic == DEAD ? "double delete" : "delete of a bad pointer");
  }
  if (!check_red(b)) {
    violation("memory", "write beyond the end of a block of %zu bytes", b->size);
  }
  g_live--;
  g_bytes -= b->size;
  unlink(b);
  b->magic = DEAD;
  memset(p, 0xDD, b->size < 4096 ? b->size : 4096);
  push_item(g_cls[b->cls], b);
}

} // namespace heap
} // namespace sim

static void *new_imp(size_t n) {
  if (sim::g_sut) {
    sim::Host h;
    return sim::heap::sut_alloc(n);
  }
  return malloc(n ? n : 1);
}

static void delete_imp(void *p) noexcept {
  if (!p) {
    return;
  }
  if (sim::heap::owns(p)) {
    sim::Host h;
    sim::heap::sut_free(p);
    return;
  }
  free(p);
}

void *operator new(size_t n) {
  void *p = new_imp(n);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void *operator new[](size_t n) {
  void *p = new_imp(n);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_imp(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_imp(n); }
void operator delete(void *p) noexcept { delete_imp(p); }
void operator delete[](void *p) noexcept { delete_imp(p); }
void operator delete(void *p, size_t) noexcept { delete_imp(p); }
void operator delete[](void *p, size_t) noexcept { delete_imp(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { delete_imp(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { delete_imp(p); }
