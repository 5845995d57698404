#ifndef VERIF_SIM_INTERNAL_H
#define VERIF_SIM_INTERNAL_H
#include "sim.h"
#include <pthread.h>
#include <stdlib.h>
#include <vector>

namespace sim {

// allocator that bypasses the simulated heap
template <typename T> struct RawAlloc {
  typedef T value_type;
  RawAlloc() {}
  template <typename U> RawAlloc(const RawAlloc<U> &) {}
  T *allocate(size_t n) { return static_cast<T *>(::malloc(n * sizeof(T))); }
  void deallocate(T *p, size_t) { ::free(p); }
  template <typename U> bool operator==(const RawAlloc<U> &) const { return true; }
  template <typename U> bool operator!=(const RawAlloc<U> &) const { return false; }
};
template <typename T> using RVec = std::vector<T, RawAlloc<T>>;

constexpr int MAXT = 1500;

enum State { S_NEW, S_RUN, S_MUTEX, S_COND, S_JOIN, S_SLEEP, S_FUTEX, S_RW_R, S_RW_W, S_ONCE, S_SEM, S_DONE };

struct Obj {
  int num = 0;
  int owner = -1, count = 0;       // mutex / rwlock writer
  int readers = 0;
  int once = 0;                    // 0 not started, 1 running, 2 done
  RVec<uint32_t> vc;
};

struct Th {
  int id; int state; uint32_t baton; Obj *obj, *mutex; uintptr_t addr;
  bool timed, signaled, timedout, began; uint64_t deadline; int joinTarget;
  pthread_t pt; bool joined, detached; int64_t prio;
  void *(*fn)(void *); void *arg; uint64_t seq;
};

enum EvKind {
  EV_LOCK = 1, EV_UNLOCK, EV_WAIT, EV_WAKE, EV_SIGNAL, EV_BROADCAST, EV_CREATE, EV_JOIN, EV_EXIT, EV_RW,
  EV_ONCE, EV_SLEEP, EV_YIELD, EV_FUTEX, EV_READ, EV_WRITE, EV_SEEK, EV_SYNC, EV_OPEN, EV_CLOSE, EV_TRUNC,
  EV_RND, EV_FAULT, EV_SWITCH, EV_USER, EV_GUARD, EV_ATOMIC, EV_START
};

struct Global {
  bool active = false;
  bool paused = false;
  Config cfg;
  Shared *sh = nullptr;
  Th *th[MAXT]; int nth = 0; Th *lv[MAXT]; int nlv = 0;   // all, and those that have not ended
  Th *cur = nullptr;
  uint32_t *vc[MAXT];
  uint64_t step = 0, points = 0, syncPoints = 0, nextMem = ~0ull, nowNs = 0, seq = 0, sameRun = 0;
  Rng sched, fault, entropy;
  const Dev *devs = nullptr; int ndev = 0, devIdx = 0;
  const Fault *faults = nullptr; int nfaults = 0;
  bool armed = true; int faultEvents = 0; int persistKind[OC_N];
  int pctLeft = 0; uint64_t pctNext = 0; int victim = -1;
  int objCount = 0;
  bool log = false;
};
extern Global g;

inline void hashMix(uint64_t v) {
  uint64_t h = g.sh->hash;
  h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  g.sh->hash = h;
}
inline void schedMix(uint64_t v) {
  uint64_t h = g.sh->schedHash;
  h = (h ^ v) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31;
  g.sh->schedHash = h;
}
inline bool on() { return g.active && !g.paused; }

void trace(int kind, uint64_t a, uint64_t b = 0);
Obj *obj(uintptr_t addr, int type);
void acquire(Obj *);
void release(Obj *);
void point(int kind, uint64_t a);      // scheduling point before an operation
void reschedule(bool yielding);        // pick the next thread
void memPoint();
// returns fault kind for the next operation of this class
int nextFault(int cls, uint64_t len, int64_t *param);
[[noreturn]] void crashNow(int kind);
void memRecord(const volatile void *p, size_t n, bool write, const void *pc);
void memClear(const void *p, size_t n);
void heapInit();
void memInit();
void filesInit();
bool callerInCasa(const void *pc);
bool inGlobals(uintptr_t p);
std::string where(const void *pc);
}
#endif
