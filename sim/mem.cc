// Simulated heap (operator new/delete), data race detector and the memory
// access hooks that the compiler inserts into the code under test.
#include "internal.h"

#include <iostream>
#include <new>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

void guardLoaded(uintptr_t);
void atomicSync(uintptr_t, bool acq, bool rel);
void objForget(uintptr_t lo, uintptr_t hi);

static const uintptr_t kBase = 0x10000000000ull;
static const size_t kSize = 1024ull << 20;
static const uintptr_t kShadow = 0x20000000000ull;   // one byte for each 8 bytes
static const uintptr_t kSlots = 0x30000000000ull;    // 4 slots for each 8 bytes
static const uintptr_t kGlobSlots = 0x40000000000ull;
static const size_t kGlobSize = 64ull << 20;

static uint8_t *shadowOf(uintptr_t p) { return (uint8_t *)(kShadow + ((p - kBase) >> 3)); }
static inline bool inArena(uintptr_t p) { return p - kBase < kSize; }

enum { SH_RED = 0xFA, SH_FREE = 0xFD };

struct Chunk { uint64_t magic; uint64_t size; uint32_t cls; uint32_t sut; uint64_t next; };
static const size_t kHead = 64;
static uintptr_t top = kBase;
static constexpr int NCLS = 96;
static uint64_t freeHead[NCLS];
static uint64_t qHead, qTail; static size_t qBytes;
static const size_t kQuarantine = 4u << 20;
static uint64_t live, peak;
static bool ready = false;

static size_t clsSize(int c) {
  // 4 classes for each power of two
  size_t b = size_t(128) << (c / 4);
  return (b + (c % 4) * (b / 4) + 63) & ~size_t(63);
}
static int clsOf(size_t n) {
  int c = 0;
  if (n > 128) { c = 4 * (63 - __builtin_clzll(n) - 7); if (c < 0) c = 0; }
  while (clsSize(c) < n) ++c;
  return c;
}
static void *mapAt(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { fprintf(stderr, "sim: can not map memory at %lx\n", (unsigned long)a); _exit(98); }
  return p;
}
static void setup() {
  ready = true;
  mapAt(kBase, kSize);
  mapAt(kShadow, kSize / 8);
  mapAt(kSlots, kSize * 4);
  mapAt(kGlobSlots, kGlobSize);
}
void memInit() { if (!ready) setup(); }
uint64_t liveHeap() { return live; }
uint64_t peakHeap() { return peak; }
void resetPeak() { peak = live; }

static void setShadow(uintptr_t user, size_t size, size_t total) {
  // user part addressable, rest redzone
  uint8_t *s = shadowOf(user);
  size_t full = size / 8, rest = size % 8, all = total / 8;
  memset(s, 0, full);
  if (rest) s[full++] = rest;
  memset(s + full, SH_RED, all - full);
}

static void *heapAlloc(size_t n, const void *pc, bool nothrow) {
  if (!ready) setup();
  if (n == 0) n = 1;
  const bool sut = g.active && inSut(pc);
  if (on()) {
    if (sut) {
      int64_t param;
      if (nextFault(OC_ALLOC, n, &param) == FK_BAD_ALLOC) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
  }
  if (n > kSize / 2) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  int c = clsOf(n + kHead + 16);
  size_t total = clsSize(c);
  uintptr_t base;
  if (freeHead[c]) { base = freeHead[c]; freeHead[c] = ((Chunk *)base)->next; }
  else {
    if (top + total > kBase + kSize) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    base = top; top += total;
    memset(shadowOf(base), SH_RED, total / 8);
  }
  Chunk *h = (Chunk *)base;
  h->magic = 0xA110CA7ED0C0FFEEull; h->size = n; h->cls = c; h->next = 0; h->sut = sut;
  uintptr_t user = base + kHead;
  setShadow(user, n, total - kHead);
  if (g.active) {
    memset((void *)user, g.cfg.fillAlloc, n);
    memClear((void *)user, n);
  }
  if (sut) { live += n; if (live > peak) peak = live; }   // only the code under test counts
  return (void *)user;
}

static void heapFree(void *p, const void *pc) {
  if (!p) return;
  uintptr_t user = (uintptr_t)p;
  if (!inArena(user)) { ::free(p); return; }
  Chunk *h = (Chunk *)(user - kHead);
  if (h->magic != 0xA110CA7ED0C0FFEEull || *shadowOf(user) >= SH_RED) {
    if (g.active) violation("heap", *shadowOf(user) == SH_FREE ? "memory is freed twice in " + where(pc) : "invalid free in " + where(pc));
    abort();
  }
  size_t n = h->size;
  if (h->sut) live -= n;
  if (on() && g.cfg.race && inSut(pc)) {
    // freeing conflicts with all accesses that are not ordered
    size_t m = n < 512 ? n : 512;
    for (size_t i = 0; i + 8 <= m; i += 8) memRecord((void *)(user + i), 8, true, pc);
  }
  if (g.active) {
    memset(p, g.cfg.fillFree, n);
    objForget(user, user + n);
  }
  memset(shadowOf(user), SH_FREE, (n + 7) / 8);
  h->magic = 0xDEADDEADDEADDEADull;
  h->next = 0;
  if (qTail) ((Chunk *)qTail)->next = user - kHead; else qHead = user - kHead;
  qTail = user - kHead;
  qBytes += clsSize(h->cls);
  while (qBytes > kQuarantine && qHead != qTail) {
    Chunk *q = (Chunk *)qHead;
    uint64_t nx = q->next;
    qBytes -= clsSize(q->cls);
    q->next = freeHead[q->cls]; freeHead[q->cls] = qHead;
    qHead = nx;
  }
}

// ---- races ---------------------------------------------------------------
// slot: clk 32 | tid 12 | mask 8 | write 1 | valid 1
static inline uint64_t mkSlot(uint32_t clk, unsigned tid, unsigned mask, bool wr) {
  return (uint64_t(clk) << 32) | (uint64_t(tid) << 16) | (uint64_t(mask) << 8) | (wr ? 2 : 0) | 1;
}
static uintptr_t globLo = 0, globHi = 0;
static inline uint64_t *slotsOf(uintptr_t p) {
  if (inArena(p)) return (uint64_t *)(kSlots + ((p - kBase) >> 3) * 32);
  if (p >= globLo && p < globHi) return (uint64_t *)(kGlobSlots + ((p - globLo) >> 3) * 32);
  return nullptr;
}
void memGlobals(uintptr_t lo, uintptr_t hi) {
  lo &= ~uintptr_t(7);
  if (!globLo) { globLo = lo; globHi = hi; }
  else { if (lo < globLo) globLo = lo; if (hi > globHi) globHi = hi; }
  if ((globHi - globLo) * 4 > kGlobSize) globHi = globLo + kGlobSize / 4;
}
void memClear(const void *p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (!g.cfg.race || !inArena(a)) return;
  memset((void *)(kSlots + ((a - kBase) >> 3) * 32), 0, ((n + 7) >> 3) * 32);
}

static inline void record8(uintptr_t p, unsigned mask, bool wr, const void *pc) {
  uint64_t *s = slotsOf(p);
  if (!s) return;
  const unsigned me = g.cur->id;
  const uint32_t *vc = g.vc[me];
  const uint64_t mine = mkSlot(vc[me], me, mask, wr);
  int put = -1;
  for (int i = 0; i < 4; ++i) {
    uint64_t v = s[i];
    if (!v) { if (put < 0) put = i; continue; }
    if (v == mine) { return; }
    unsigned t = (v >> 16) & 0xFFF, m = (v >> 8) & 0xFF;
    bool w = v & 2;
    if (t == me) {
      if ((m | mask) == mask && (wr || !w)) { if (put < 0 || s[put] == 0) put = i; else s[i] = 0; }
      else if ((m & mask) == mask && w >= wr && uint32_t(v >> 32) == vc[me]) return;
      continue;
    }
    if ((m & mask) && (wr || w) && uint32_t(v >> 32) > vc[t]) {
      violation("data-race", std::string("unsynchronised ") + (wr ? "write" : "read") + " in " + where(pc) + " by thread " + std::to_string(me) +
                                 " of memory " + (w ? "written" : "read") + " by thread " + std::to_string(t));
    }
    if ((m | mask) == mask && uint32_t(v >> 32) <= vc[t] && (wr || !w)) { if (put < 0 || s[put] == 0) put = i; }
  }
  if (put < 0) put = (p >> 3) & 3;
  s[put] = mine;
}
void memRecord(const volatile void *p, size_t n, bool wr, const void *pc) {
  uintptr_t a = (uintptr_t)p;
  while (n) {
    unsigned off = a & 7;
    size_t k = 8 - off; if (k > n) k = n;
    record8(a & ~uintptr_t(7), ((1u << k) - 1) << off, wr, pc);
    a += k; n -= k;
  }
}

static void badAccess(uintptr_t p, size_t n, bool wr, const void *pc) {
  const char *kind = "outside of an allocated block";
  for (size_t i = 0; i <= n / 8 + 1; ++i) if (inArena(p + i * 8) && *shadowOf(p + i * 8) == SH_FREE) kind = "after it was freed";
  violation("heap", std::string("heap memory is ") + (wr ? "written " : "read ") + kind + " in " + where(pc));
}
static inline void heapCheck(uintptr_t p, size_t n, bool wr, const void *pc) {
  if (!inArena(p) || !g.cfg.heapCheck) return;
  uintptr_t e = p + n - 1;
  for (uintptr_t q = p & ~uintptr_t(7); q <= e; q += 8) {
    uint8_t s = *shadowOf(q);
    if (s == 0) continue;
    uintptr_t last = e < q + 7 ? e : q + 7;
    if (s >= SH_RED || (last & 7) >= s) badAccess(p, n, wr, pc);
  }
}

static inline void access(const volatile void *ptr, size_t n, bool wr, const void *pc) {
  if (!g.active || g.paused) return;
  uintptr_t p = (uintptr_t)ptr;
  if (++g.step >= g.nextMem) memPoint();
  heapCheck(p, n, wr, pc);
  if (g.cfg.race && g.nth > 1) memRecord(ptr, n, wr, pc);
}
static void rangeAccess(const volatile void *ptr, size_t n, bool wr, const void *pc) {
  if (!g.active || g.paused || !n) return;
  if (++g.step >= g.nextMem) memPoint();
  heapCheck((uintptr_t)ptr, n, wr, pc);
  if (g.cfg.race && g.nth > 1) memRecord(ptr, n, wr, pc);
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ---- operator new / delete ---------------------------------------------------
void *operator new(size_t n) { return heapAlloc(n, PC, false); }
void *operator new[](size_t n) { return heapAlloc(n, PC, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heapAlloc(n, PC, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heapAlloc(n, PC, true); }
void operator delete(void *p) noexcept { heapFree(p, PC); }
void operator delete[](void *p) noexcept { heapFree(p, PC); }
void operator delete(void *p, size_t) noexcept { heapFree(p, PC); }
void operator delete[](void *p, size_t) noexcept { heapFree(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { heapFree(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { heapFree(p, PC); }
// blocks are aligned to 64 bytes, larger alignments are not used here
void *operator new(size_t n, std::align_val_t) { return heapAlloc(n, PC, false); }
void *operator new[](size_t n, std::align_val_t) { return heapAlloc(n, PC, false); }
void *operator new(size_t n, std::align_val_t, const std::nothrow_t &) noexcept { return heapAlloc(n, PC, true); }
void *operator new[](size_t n, std::align_val_t, const std::nothrow_t &) noexcept { return heapAlloc(n, PC, true); }
void operator delete(void *p, std::align_val_t) noexcept { heapFree(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { heapFree(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heapFree(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heapFree(p, PC); }

// ---- hooks --------------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
// a destructor of the most derived class stores the value that is there already
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_read_range(void *p, size_t n) { rangeAccess(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { rangeAccess(p, n, true, PC); }

static inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo >= __ATOMIC_ACQ_REL; }
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo >= __ATOMIC_ACQ_REL; }
static inline void atomicPoint(const volatile void *p, size_t n, bool wr, const void *pc) {
  if (!on()) return;
  heapCheck((uintptr_t)p, n, wr, pc);
  if (++g.step >= g.nextMem) memPoint();
}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) { \
    atomicPoint(p, B / 8, false, PC); \
    if (on()) { if (isAcq(mo)) { guardLoaded((uintptr_t)p); atomicSync((uintptr_t)p, true, false); } } \
    return *p; } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, false, isRel(mo)); *p = v; } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { \
    atomicPoint(p, B / 8, true, PC); if (on()) atomicSync((uintptr_t)p, isAcq(mo), isRel(mo)); \
    if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, f); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int f) { \
    __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, f); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- wrapped library functions (calls from the code under test) -----------------
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  rangeAccess(s, n, false, PC); rangeAccess(d, n, true, PC); return memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  rangeAccess(s, n, false, PC); rangeAccess(d, n, true, PC); return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) { rangeAccess(d, n, true, PC); return memset(d, c, n); }

static inline void touch(std::ios &s, const void *pc) {
  if (!on()) return;
  void *b = s.rdbuf();
  if (b && inArena((uintptr_t)b)) { heapCheck((uintptr_t)b, 8, true, pc); if (g.cfg.race && g.nth > 1) memRecord((char *)b + 8, 8, true, pc); if (++g.step >= g.nextMem) memPoint(); }
}
std::istream *__wrap__ZNSi5seekgElSt12_Ios_Seekdir(std::istream *s, std::streamoff o, std::ios_base::seekdir d) { touch(*s, PC); return &s->seekg(o, d); }
std::ostream *__wrap__ZNSo5seekpElSt12_Ios_Seekdir(std::ostream *s, std::streamoff o, std::ios_base::seekdir d) { touch(*s, PC); return &s->seekp(o, d); }
std::istream *__wrap__ZNSi4readEPcl(std::istream *s, char *p, std::streamsize n) { touch(*s, PC); rangeAccess(p, n, true, PC); return &s->read(p, n); }
std::ostream *__wrap__ZNSo5writeEPKcl(std::ostream *s, const char *p, std::streamsize n) { touch(*s, PC); rangeAccess(p, n, false, PC); return &s->write(p, n); }
std::ostream *__wrap__ZNSo5flushEv(std::ostream *s) { touch(*s, PC); return &s->flush(); }
}
