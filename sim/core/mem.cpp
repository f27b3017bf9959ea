// Deterministic allocator, heap-validity shadow, happens-before race detector
// and the __tsan_* entry points that the instrumented code calls.
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include "internal.h"

extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
extern char __data_start, _end;
}

namespace simi {

static char* const APP = reinterpret_cast<char*>(0x100000000000ULL);
static constexpr size_t APP_SIZE = 1ULL << 30;
static char* const STK = reinterpret_cast<char*>(0x110000000000ULL);
static constexpr size_t STK_SIZE = STACK_SIZE * (MAXT + 1);
static char* const INT = reinterpret_cast<char*>(0x120000000000ULL);
static constexpr size_t INT_SIZE = 4ULL << 30;
static uint8_t* const ASH = reinterpret_cast<uint8_t*>(0x130000000000ULL);  // app / 8
struct Cell {
  uint32_t w, r, r2, wpc, rpc, r2pc;
  uint8_t wm, rm, r2m, pad[5];
};
static_assert(sizeof(Cell) == 32, "cell");
static Cell* const CSH_APP = reinterpret_cast<Cell*>(0x140000000000ULL);
static Cell* const CSH_STK = reinterpret_cast<Cell*>(0x150000000000ULL);
static Cell* const CSH_GLB = reinterpret_cast<Cell*>(0x160000000000ULL);
char* g_stacks = STK;
bool g_race_on = true;
int64_t g_preempt = -1;
uint64_t g_accesses = 0;

static bool g_mem_ready = false;
static size_t g_app_top = 0, g_int_top = 0;
static bool g_reuse = false;
static uint64_t g_nalloc = 0, g_nbytes = 0;
static uint64_t g_live_blocks = 0, g_live_bytes = 0, g_peak_bytes = 0;
static uint8_t g_fill = 0;
int64_t g_alloc_fail = -1;
static size_t g_glb_size = 0;

struct FreeNode { FreeNode* next; };
static FreeNode* int_free[64];
static FreeNode* app_free[64];

static void map_fixed(void* at, size_t n) {
  void* p = mmap(at, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != at) {
    const char m[] = "sim: cannot map arena\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
  }
}

void mem_init() {
  if (g_mem_ready) return;
  g_mem_ready = true;
  map_fixed(INT, INT_SIZE);
  map_fixed(APP, APP_SIZE);
  map_fixed(STK, STK_SIZE);
  map_fixed(ASH, APP_SIZE / 8);
  map_fixed(CSH_APP, APP_SIZE / 8 * sizeof(Cell));
  map_fixed(CSH_STK, STK_SIZE / 8 * sizeof(Cell));
  g_glb_size = (size_t)(&_end - &__data_start) + 64;
  map_fixed(CSH_GLB, (g_glb_size / 8 + 16) * sizeof(Cell));
}

void mem_begin_run(bool reuse, uint8_t fill) { g_reuse = reuse; g_fill = fill; }
void alloc_stats(uint64_t& n, uint64_t& b) { n = g_nalloc; b = g_nbytes; }

struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };  // 16 bytes before the block
static constexpr uint32_t MAGIC_LIVE = 0x51515151, MAGIC_FREE = 0xDEADDEAD;

static int size_class(size_t n, size_t* rounded) {
  // classes: 16,32,48,64, then powers of two with 4 steps
  size_t r = 16;
  int c = 0;
  if (n <= 64) {
    r = (n + 15) & ~size_t(15);
    if (r == 0) r = 16;
    c = (int)(r / 16) - 1;
    *rounded = r;
    return c;
  }
  r = 64; c = 3;
  while (r < n) { r <<= 1; ++c; }
  *rounded = r;
  return c;
}

static char* bump(char* base, size_t& top, size_t cap, size_t n, size_t align) {
  size_t t = (top + align - 1) & ~(align - 1);
  if (t + n > cap) return nullptr;
  top = t + n;
  return base + t;
}

static void* int_alloc(size_t n, size_t align) {
  if (!g_mem_ready) mem_init();
  size_t r;
  int c = size_class(n, &r);
  if (align <= 16 && c < 64 && int_free[c]) {
    FreeNode* f = int_free[c];
    int_free[c] = f->next;
    Hdr* h = reinterpret_cast<Hdr*>(f) - 1;
    h->size = n; h->magic = MAGIC_LIVE;
    return f;
  }
  size_t a = align < 16 ? 16 : align;
  char* p = bump(INT, g_int_top, INT_SIZE, r + a + 16, a);
  if (!p) { const char m[] = "sim: internal arena exhausted\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
  char* q = p + a;
  if ((size_t)a < sizeof(Hdr)) q = p + 16;
  Hdr* h = reinterpret_cast<Hdr*>(q) - 1;
  h->size = n; h->cls = c; h->magic = MAGIC_LIVE;
  return q;
}
void* internal_alloc(size_t n) { return int_alloc(n, 16); }

static void shadow_set(char* p, size_t n, uint8_t live) {
  uint8_t* s = ASH + (p - APP) / 8;
  if (live) {
    size_t full = n / 8;
    __real_memset(s, 1, full);            // 1 = all eight bytes live
    if (n % 8) s[full] = (uint8_t)(0x80 | (n % 8));
  } else {
    __real_memset(s, 2, (n + 7) / 8);     // 2 = freed
  }
}

static void clear_cells(char* p, size_t n) {
  Cell* c = CSH_APP + (p - APP) / 8;
  __real_memset(c, 0, (n + 7) / 8 * sizeof(Cell));
}

static void* app_alloc(size_t n, size_t align) {
  if (n > (256u << 20)) { errno = ENOMEM; return nullptr; }
  if (n == 0) n = 1;
  size_t r;
  int c = size_class(n, &r);
  ++g_nalloc; g_nbytes += n;
  char* q = nullptr;
  if (g_reuse && align <= 16 && c < 64 && app_free[c]) {
    FreeNode* f = app_free[c];
    app_free[c] = f->next;
    q = reinterpret_cast<char*>(f);
    clear_cells(q, r);
  } else {
    if (n > 4096) r = (n + 15) & ~size_t(15), c = 63;
    size_t a = align < 16 ? 16 : align;
    char* p = bump(APP, g_app_top, APP_SIZE, r + a + 32, a);
    if (!p) { errno = ENOMEM; return nullptr; }
    q = p + (a < 32 ? 32 : a);
    if (a > 32) {} // alignment kept: p aligned to a
    if (q + r > APP + g_app_top) g_app_top = (size_t)(q + r - APP);
  }
  Hdr* h = reinterpret_cast<Hdr*>(q) - 1;
  h->size = n; h->cls = c; h->magic = MAGIC_LIVE;
  shadow_set(q, n, 1);
  // What a fresh block holds is unspecified: never let a run rely on zeroes.
  __real_memset(q, g_fill, n);
  ++g_live_blocks; g_live_bytes += n;
  if (g_live_bytes > g_peak_bytes) g_peak_bytes = g_live_bytes;
  return q;
}

static inline bool in_app(const void* p) { return (const char*)p >= APP && (const char*)p < APP + APP_SIZE; }
static inline bool in_int(const void* p) { return (const char*)p >= INT && (const char*)p < INT + INT_SIZE; }

static void do_free(void* p, void* pc) {
  if (!p) return;
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (in_int(p)) {
    size_t r;
    int c = (int)h->cls;
    (void)r;
    FreeNode* f = (FreeNode*)p;
    h->magic = MAGIC_FREE;
    if (c < 64) { f->next = int_free[c]; int_free[c] = f; }
    return;
  }
  if (in_app(p)) {
    uint8_t s = ASH[((char*)p - APP) / 8];
    if (h->magic != MAGIC_LIVE || s == 0) {
      sim::fail(h->magic == MAGIC_FREE || s == 2 ? "double-free" : "bad-free",
                "free of %p which is not a live heap block pc=%p", p, pc);
    }
    h->magic = MAGIC_FREE;
    --g_live_blocks; g_live_bytes -= h->size;
    shadow_set((char*)p, h->size ? h->size : 1, 0);
    if (g_reuse && h->cls < 63) { FreeNode* f = (FreeNode*)p; f->next = app_free[h->cls]; app_free[h->cls] = f; }
    return;
  }
  // Not ours (memory from before interposition, e.g. ld.so): leak it.
}

static void* do_alloc(size_t n, size_t align) {
  if (on()) return app_alloc(n, align);
  return int_alloc(n, align);
}

void mem_addressable(const void* p, size_t n, const char* what, void* pc) {
  if (!in_app(p) || n == 0) return;
  const char* a = (const char*)p;
  const char* e = a + n;
  for (const char* q = (const char*)((uintptr_t)a & ~7ULL); q < e; q += 8) {
    uint8_t s = ASH[(q - APP) / 8];
    if (s == 1) continue;
    const char* hi = q + 8 < e ? q + 8 : e;
    if ((s & 0x80) && (size_t)(hi - q) <= (size_t)(s & 0x7f)) continue;
    InSim in;
    sim::fail(s == 2 ? "heap-use-after-free" : "heap-buffer-overflow", "%s of %zu bytes at %p%s pc=%p",
              what, n, p, s == 2 ? " (freed block)" : " (outside any live block)", pc);
  }
}

static inline Cell* cells_for(const char* a) {
  if (a >= APP && a < APP + APP_SIZE) return CSH_APP + (a - APP) / 8;
  if (a >= STK && a < STK + STK_SIZE) return CSH_STK + (a - STK) / 8;
  if (a >= &__data_start && a < &_end)
    return CSH_GLB + ((uintptr_t)a / 8 - (uintptr_t)&__data_start / 8);
  return nullptr;
}

static inline uint32_t epoch(int t, uint32_t c) { return ((uint32_t)t << 25) | c; }
static inline bool hb(uint32_t e, const VC& v) { return (e & 0x1ffffff) <= v.v[e >> 25]; }

[[noreturn]] static void race(const char* a, bool write, bool other_write, uint32_t oe, uint32_t opc, void* pc) {
  InSim in;
  sim::fail("data-race", "%s at %p by thread %d pc=%p conflicts with earlier %s by thread %d pc=%p",
            write ? "write" : "read", (const void*)a, g_cur->id, pc, other_write ? "write" : "read",
            (int)(oe >> 25), (void*)(uintptr_t)opc);
}

static inline void race_one(Cell* c, uint8_t m, bool write, const char* a, void* pc) {
  const VC& v = g_cur->vc;
  uint32_t me = epoch(g_cur->id, v.v[g_cur->id]);
  uint32_t p32 = (uint32_t)(uintptr_t)pc;
  if (write) {
    if (c->w == me && c->wm == m && !c->rm) { c->wpc = p32; return; }
    if (c->w && (c->wm & m) && !hb(c->w, v)) race(a, true, true, c->w, c->wpc, pc);
    if (c->rm & m && !hb(c->r, v)) race(a, true, false, c->r, c->rpc, pc);
    if (c->r2m & m && !hb(c->r2, v)) race(a, true, false, c->r2, c->r2pc, pc);
    if (c->w == me) c->wm |= m; else { c->w = me; c->wm = m; }
    c->wpc = p32;
    c->rm &= ~m; c->r2m &= ~m;
  } else {
    if (c->r == me && (c->rm & m) == m) return;
    if (c->w && (c->wm & m) && !hb(c->w, v)) race(a, false, true, c->w, c->wpc, pc);
    if (c->r == me && c->rm) { c->rm |= m; c->rpc = p32; return; }
    if (c->r2 == me && c->r2m) { c->r2m |= m; return; }
    if (!c->rm || hb(c->r, v)) { c->r = me; c->rm = m; c->rpc = p32; }
    else { c->r2 = me; c->r2m = m; c->r2pc = p32; }
  }
}

static inline void race_check(const char* a, size_t n, bool write, void* pc) {
  Cell* c = cells_for(a);
  if (!c) return;
  unsigned off = (uintptr_t)a & 7;
  while (n) {
    unsigned k = 8 - off < n ? 8 - off : (unsigned)n;
    uint8_t m = (uint8_t)(((1u << k) - 1) << off);
    race_one(c, m, write, a, pc);
    n -= k; a += k; off = 0; ++c;
  }
}

void mem_check(const void* p, size_t n, bool write, void* pc) {
  if (!n) return;
  if (in_app(p)) mem_addressable(p, n, write ? "write" : "read", pc);
  if (g_race_on) race_check((const char*)p, n, write, pc);
}

static inline __attribute__((always_inline)) void access(const void* p, size_t n, bool write, void* pc) {
  if (!g_active || t_in_sim) return;
  if (in_app(p)) {
    uint8_t s = ASH[((const char*)p - APP) / 8];
    if (__builtin_expect(s != 1 || (((uintptr_t)p & 7) + n > 8), 0))
      mem_addressable(p, n, write ? "write" : "read", pc);
  } else if (!((const char*)p >= STK && (const char*)p < STK + STK_SIZE) &&
             !((const char*)p >= &__data_start && (const char*)p < &_end)) {
    return;
  }
  ++g_accesses;
  if (__builtin_expect(g_preempt >= 0, 0) && g_preempt-- == 0) preempt_now(pc);
  if (__builtin_expect((g_accesses & 0xfffff) == 0 && g_accesses > 300000000ULL, 0)) {
    InSim in;
    sim::fail("livelock", "over 300M memory accesses in one run pc=%p", pc);
  }
  if (g_race_on) race_check((const char*)p, n, write, pc);
}

}  // namespace simi

using namespace simi;
#define PC __builtin_return_address(0)

extern "C" {
void* malloc(size_t n) { return do_alloc(n, 16); }
void free(void* p) { do_free(p, PC); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = do_alloc(n, 16);
  if (p) __real_memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return do_alloc(n, 16);
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  size_t old = h->size;
  void* q = do_alloc(n, 16);
  if (!q) return nullptr;
  __real_memcpy(q, p, old < n ? old : n);
  do_free(p, PC);
  return q;
}
void* memalign(size_t a, size_t n) { return do_alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return do_alloc(n, a); }
int posix_memalign(void** out, size_t a, size_t n) {
  void* p = do_alloc(n, a);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) { return p ? (reinterpret_cast<Hdr*>(p) - 1)->size : 0; }

void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (on() && n) { access(s, n, false, PC); access(d, n, true, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (on() && n) { access(s, n, false, PC); access(d, n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (on() && n) access(d, n, true, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (on() && n) { access(a, n, false, PC); access(b, n, false, PC); }
  return __real_memcmp(a, b, n);
}

// ---- __tsan interface ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                    \
  void __tsan_read##N(void* p) { access(p, N, false, PC); }                      \
  void __tsan_write##N(void* p) { access(p, N, true, PC); }                      \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }             \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }             \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }            \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }            \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); }   \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

static inline void atom_pre(volatile void* a, size_t n, bool w, void* pc) {
  if (!g_active || t_in_sim) return;
  ++g_accesses;
  if (g_preempt >= 0 && g_preempt-- == 0) preempt_now(pc);
  mem_addressable((const void*)a, n, w ? "atomic write" : "atomic read", pc);
}
static inline void atom_sync(volatile void* a, int mo, bool load, bool store) {
  if (!g_active || t_in_sim) return;
  if (!in_app((const void*)a) && !cells_for((const char*)a)) return;
  InSim in;
  if (mo == __ATOMIC_RELAXED) return;
  VC& v = sync_vc((const void*)a);
  if (load && mo != __ATOMIC_RELEASE) hb_acquire(v);
  if (store && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) hb_release(v);
}
#define ATOMICS(B, T)                                                                             \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                        \
    atom_pre((volatile void*)a, sizeof(T), false, PC); T r = *a;                                  \
    atom_sync((volatile void*)a, mo, true, false); return r; }                                    \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                     \
    atom_pre((volatile void*)a, sizeof(T), true, PC); atom_sync(a, mo, false, true); *a = v; }    \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                     \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a; *a = v; atom_sync(a, mo, true, true); return r; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {                                    \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a; *a = r + v; atom_sync(a, mo, true, true); return r; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {                                    \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a; *a = r - v; atom_sync(a, mo, true, true); return r; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {                                    \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a; *a = r & v; atom_sync(a, mo, true, true); return r; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {                                     \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a; *a = r | v; atom_sync(a, mo, true, true); return r; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {                                    \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a; *a = r ^ v; atom_sync(a, mo, true, true); return r; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) {     \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a;                                   \
    if (r == *e) { *a = v; atom_sync(a, mo, true, true); return 1; }                              \
    *e = r; atom_sync(a, fmo, true, false); return 0; }                                           \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) {       \
    atom_pre((volatile void*)a, sizeof(T), true, PC); T r = *a;                                   \
    if (r == *e) { *a = v; atom_sync(a, mo, true, true); return 1; }                              \
    *e = r; atom_sync(a, fmo, true, false); return 0; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// Sized deallocation: deleting through the wrong type shows here.
static void sized_free(void* p, size_t n, void* pc) {
  if (p && in_app(p) && on()) {
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    if (h->magic == MAGIC_LIVE && h->size != (n ? n : 1))
      sim::fail("delete-size-mismatch", "a block of %zu bytes deleted as one of %zu pc=%p", (size_t)h->size, n, pc);
  }
  do_free(p, pc);
}
void operator delete(void* p, size_t n) noexcept { sized_free(p, n, PC); }
void operator delete[](void* p, size_t n) noexcept { sized_free(p, n, PC); }

// Allocation failures and accounting.
void* operator new(size_t n) {
  if (on() && g_alloc_fail >= 0 && g_alloc_fail-- == 0) {
    { InSim in; sim::count_fault(sim::F_BADALLOC); }
    throw std::bad_alloc();
  }
  void* p = do_alloc(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
namespace sim {
void alloc_fail(int64_t after) { simi::g_alloc_fail = after; }
bool alloc_fail_pending() { return simi::g_alloc_fail >= 0; }
HeapStats heap_stats() { return {g_live_blocks, g_live_bytes, g_peak_bytes}; }
void heap_reset_peak() { g_peak_bytes = g_live_bytes; }
}
