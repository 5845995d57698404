// Deterministic simulator runtime: one process, real threads, one of which runs
// at a time; every scheduling decision, wake-up order, clock value, random
// number, file fault, allocation failure and crash point is decided here.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <string>

namespace sim {

// ---- faults -------------------------------------------------------------
// Operation classes on the file of the storage manager under test.
enum OpClass { OC_READ, OC_WRITE, OC_SEEK, OC_SYNC, OC_OPEN, OC_TRUNC, OC_ALLOC, OC_THREAD, OC_N };
enum FaultKind {
  FK_NONE = 0,
  FK_READ_EIO, FK_READ_SHORT, FK_READ_EINTR,
  FK_WRITE_EIO, FK_WRITE_ENOSPC, FK_WRITE_SHORT, FK_WRITE_EINTR,
  FK_SYNC_EIO, FK_OPEN_FAIL, FK_BAD_ALLOC, FK_THREAD_EAGAIN,
  FK_KILL, FK_POWER,          // crash at a file operation (param: torn bytes)
  FK_KILL_STEP,               // crash at a scheduler step
  FK_SPURIOUS, FK_CLOCKJUMP,  // counted in statistics only
  FK_N
};
extern const char *const faultNames[FK_N];

struct Fault { int kind; int cls; uint64_t idx; int64_t param; };
struct Dev { uint64_t step; int type; int arg; };  // type 0 switch, 1 spurious wake, 2 clock jump, 3 signal choice, 4 unused

struct Config {
  uint64_t schedSeed = 1, faultSeed = 1, entropySeed = 1;
  int policy = 0;           // 0 random 1 pct 2 main first 3 workers first 4 starve 5 round robin 6 explicit
  uint32_t pSwitch = 32768; // of 65536
  uint32_t memGap = 0;      // mean gap between preemptions at memory accesses (0 = none)
  uint32_t pSpurious = 0;   // of 65536 per step
  uint32_t pJump = 0;       // of 65536 per step
  int pctChanges = 3;
  int ncpu = 4;
  int fillAlloc = 0xA5, fillFree = 0xDD;
  bool race = true, heapCheck = true;
  uint64_t maxSteps = 1000000000;
  uint64_t maxPoints = 3000000;
  // faults, probabilities of 65536 for each operation of the class
  uint32_t rate[FK_N] = {};
  int maxFaults = 1;        // stop injecting after this many (persistent ones count once)
  bool persist = false;     // once an EIO/ENOSPC fault fired, all later ops of that class fail
  uint64_t faultFrom = 0;   // first eligible op index (all classes)
  bool explicitFaults = false, explicitSched = false;
};

constexpr int MAXDEV = 400000, MAXFIRED = 4096, MAXMSG = 4096;
constexpr size_t WLOG = 8u << 20;

enum Status { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_CRASHED, ST_TERMINATED, ST_SIGNAL, ST_TOOLFAIL };

struct WRec { uint64_t off; uint32_t len; int32_t kind; };  // kind 0 write, 1 sync, 2 truncate(len unused, off=new size); data follows

struct Shared {
  int status;
  int exitPhase;
  char vclass[64];
  char msg[MAXMSG];
  uint64_t hash;             // full event trace
  uint64_t schedHash;        // order of synchronisation events only
  uint64_t steps, points, switches, decisions, threadsCreated, maxRunnable;
  uint64_t simNs;
  uint64_t opCount[OC_N], fileOps;
  uint64_t fired[FK_N];
  uint64_t accesses;
  uint64_t ops[48], opsIdle[48];   // operations that had an effect (none)
  int nfired; Fault firedList[MAXFIRED];
  int ndev; Dev dev[MAXDEV]; int devOverflow;
  // operation progress (written by the harness)
  int64_t opStarted, opDone;
  uint64_t user[64];
  char note[512];
  size_t wlen; int wOverflow; unsigned char wlog[WLOG];
};

// Called once, before anything else is started (single threaded).
void init();
bool inSut(const void *pc);

void begin(const Config &, Shared *, const Dev *devs, int ndev, const Fault *faults, int nfaults);
// Ends the simulation of this process; returns number of threads that are alive.
int end();
bool active();
int liveThreads();

[[noreturn]] void violation(const char *cls, const std::string &msg);
[[noreturn]] void finish(int status, const char *cls, const std::string &msg);

// faults can be armed and disarmed by the workload
void armFaults(bool on);
bool faultsArmed();
uint64_t firedTotal();          // faults fired so far in this process
uint64_t firedKind(int k);
// bytes of heap in use
uint64_t liveHeap();
uint64_t peakHeap();
void resetPeak();
// sequence number of the last read (write) of a part of a file, 0 if there is none
void ioSession(int);   // reads belong to a session: lastIo() returns those of the current one
uint64_t lastIo(const char *path, bool write, uint64_t off, uint64_t len);
void forgetIo(const char *path);
void renameIo(const char *from, const char *to);
// the file system that has this directory is (not) mounted read-only
void readOnlyDir(const char *name, bool ro);
// harness events become part of the trace
void event(uint64_t kind, uint64_t v);
// from now on, no other thread may sleep while the first one does
void watchWorkers(bool on);
double busyWorkers(uint64_t &steps);
// yield point usable by the harness
void yieldPoint();
uint64_t nowNs();
// path of the files that are subject to faults; see sim.cc
void setPowerMode(bool);

struct Pause { Pause(); ~Pause(); bool old; };  // suspend interposition (harness internals)

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool p16(uint32_t p) { return (next() & 0xFFFF) < p; }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  int range(int a, int b) { return a + int(below(uint64_t(b - a + 1))); }
};

}  // namespace sim
#endif
