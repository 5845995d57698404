#include "internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <link.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

#include <cxxabi.h>
#include <exception>
#include <map>
#include <random>

namespace sim {

Global g;
const char *const faultNames[FK_N] = {
    "none", "read_eio", "read_short", "read_eintr", "write_eio", "write_enospc",
    "write_short", "write_eintr", "fsync_eio", "open_fail", "bad_alloc",
    "thread_eagain", "kill_at_file_op", "power_loss_at_file_op", "kill_at_step",
    "spurious_wakeup", "clock_jump"};

// ---- raw system calls (never interposed) --------------------------------
static long rawSyscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void futexWait(uint32_t *p, uint32_t v) { rawSyscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
static void futexWake(uint32_t *p) { rawSyscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

template <typename F> static F realFn(const char *name, const char *ver = nullptr) {
  void *p = ver ? dlvsym(RTLD_NEXT, name, ver) : dlsym(RTLD_NEXT, name);
  if (!p) p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "sim: no symbol %s\n", name); _exit(99); }
  return reinterpret_cast<F>(p);
}
#define REAL(name, ...) \
  static auto real = realFn<decltype(&name)>(#name, ##__VA_ARGS__)

// ---- images ----------------------------------------------------------------
struct Range { uintptr_t lo, hi; };
static Range sutText[4], sutAll[4], casaText[8], sutData[8]; static int nSut = 0, nSutAll = 0, nCasa = 0, nSutData = 0;
static uintptr_t sutBase = 0;
static char sutPath[512];
static int phdrCb(dl_phdr_info *info, size_t, void *) {
  const char *n = info->dlpi_name ? info->dlpi_name : "";
  bool sut = strstr(n, "libsut.so"), casa = strstr(n, "libcasa_");
  if (!sut && !casa) return 0;
  if (sut) { sutBase = info->dlpi_addr; snprintf(sutPath, sizeof sutPath, "%s", n); }
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    const auto &ph = info->dlpi_phdr[i];
    if (ph.p_type != PT_LOAD) continue;
    Range r{info->dlpi_addr + ph.p_vaddr, info->dlpi_addr + ph.p_vaddr + ph.p_memsz};
    if (sut) {
      if (ph.p_flags & PF_X) { if (nSut < 4) sutText[nSut++] = r; }
      else if (ph.p_flags & PF_W) { if (nSutData < 8) sutData[nSutData++] = r; }
      (void)nSutAll; (void)sutAll;
    } else if (ph.p_flags & PF_X) { if (nCasa < 8) casaText[nCasa++] = r; }
  }
  return 0;
}
bool inSut(const void *pc) {
  uintptr_t p = (uintptr_t)pc;
  for (int i = 0; i < nSut; ++i) if (p >= sutText[i].lo && p < sutText[i].hi) return true;
  return false;
}
bool callerInCasa(const void *pc) {
  uintptr_t p = (uintptr_t)pc;
  for (int i = 0; i < nCasa; ++i) if (p >= casaText[i].lo && p < casaText[i].hi) return true;
  return false;
}
bool inGlobals(uintptr_t p) {
  for (int i = 0; i < nSutData; ++i) if (p >= sutData[i].lo && p < sutData[i].hi) return true;
  return false;
}
std::string where(const void *pc) {
  Dl_info di;
  char buf[700];
  if (pc && dladdr(pc, &di) && di.dli_sname) {
    int st = 0;
    char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, sizeof buf, "%s", d ? d : di.dli_sname);
    free(d);
    char *paren = strchr(buf, '(');
    if (paren && paren != buf) *paren = 0;
    return buf;
  }
  if (inSut(pc)) snprintf(buf, sizeof buf, "sut+0x%lx", (unsigned long)((uintptr_t)pc - sutBase));
  else snprintf(buf, sizeof buf, "?");
  return buf;
}

// ---- ending ------------------------------------------------------------
void finish(int status, const char *cls, const std::string &msg) {
  if (g.sh) {
    g.sh->status = status;
    snprintf(g.sh->vclass, sizeof g.sh->vclass, "%s", cls);
    snprintf(g.sh->msg, sizeof g.sh->msg, "%s", msg.c_str());
    g.sh->steps = g.step; g.sh->points = g.points; g.sh->simNs = g.nowNs;
  }
  g.active = false;
  rawSyscall(SYS_exit_group, 40 + status);
  __builtin_unreachable();
}
void violation(const char *cls, const std::string &msg) { finish(ST_VIOLATION, cls, msg); }
void crashNow(int kind) {
  g.sh->fired[kind]++;
  finish(ST_CRASHED, kind == FK_POWER ? "power" : "kill", "simulated crash");
}

static void onTerminate() {
  g.active = false;
  std::string what = "terminate";
  if (std::exception_ptr e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (std::exception &ex) { what = std::string("uncaught exception: ") + ex.what(); }
    catch (...) { what = "uncaught exception of unknown type"; }
  }
  finish(ST_TERMINATED, "terminate", what);
}
static void onSignal(int sig, siginfo_t *si, void *uc) {
  uintptr_t ip = 0;
#ifdef __x86_64__
  ip = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
  bool wasActive = g.active;
  g.active = false;
  char buf[400];
  // the nearest frame of the code under test, by a scan of the stack
  std::string fn = inSut((void *)ip) ? where((void *)ip) : "";
  if (fn.empty()) {
    uintptr_t sp = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP];
    for (int i = 0; i < 400 && fn.empty(); ++i) {
      void *v = ((void **)sp)[i];
      if (inSut(v)) fn = where(v);
    }
  }
  snprintf(buf, sizeof buf, "signal %d (%s) in %s%s", sig, strsignal(sig), fn.empty() ? "?" : fn.c_str(), wasActive ? "" : " (outside the simulation)");
  (void)si;
  if (sig == SIGABRT) finish(ST_TERMINATED, "abort", buf);
  finish(ST_SIGNAL, "signal", buf);
}

// ---- objects ---------------------------------------------------------------
typedef std::map<uint64_t, Obj *, std::less<uint64_t>, RawAlloc<std::pair<const uint64_t, Obj *>>> ObjMap;
static ObjMap *objMap;
Obj *obj(uintptr_t addr, int type) {
  uint64_t key = (uint64_t(addr) << 4) | unsigned(type);
  auto it = objMap->find(key);
  if (it != objMap->end()) return it->second;
  Obj *o = new (::malloc(sizeof(Obj))) Obj();
  o->num = ++g.objCount;
  objMap->emplace(key, o);
  return o;
}
static Obj *findObj(uintptr_t addr, int type) {
  auto it = objMap->find((uint64_t(addr) << 4) | unsigned(type));
  return it == objMap->end() ? nullptr : it->second;
}
void objForget(uintptr_t lo, uintptr_t hi) {
  if (!objMap) return;
  auto it = objMap->lower_bound(uint64_t(lo) << 4), end = objMap->lower_bound(uint64_t(hi) << 4);
  while (it != end) {
    for (int i = 0; i < g.nth; ++i)
      if (g.th[i]->obj == it->second && g.th[i]->state != S_DONE && g.th[i]->state != S_RUN)
        violation("sync-destroy", "a synchronisation object is destroyed while a thread waits for it");
    it = objMap->erase(it);
  }
}
enum { T_MUTEX = 1, T_COND, T_RW, T_ONCE, T_GUARD, T_ATOMIC, T_FUTEX, T_SEM };

void acquire(Obj *o) {
  if (o->vc.empty()) return;
  uint32_t *v = g.vc[g.cur->id];
  size_t n = o->vc.size();
  for (size_t i = 0; i < n; ++i) if (o->vc[i] > v[i]) v[i] = o->vc[i];
}
void release(Obj *o) {
  uint32_t *v = g.vc[g.cur->id];
  if ((int)o->vc.size() < g.nth) o->vc.resize(g.nth, 0);
  for (int i = 0; i < g.nth; ++i) if (v[i] > o->vc[i]) o->vc[i] = v[i];
  v[g.cur->id]++;
}

void trace(int kind, uint64_t a, uint64_t b) {
  hashMix((uint64_t(kind) << 56) ^ (uint64_t(g.cur->id) << 40) ^ (a << 8) ^ b * 1000003);
  if (kind < EV_READ || kind == EV_SWITCH) schedMix((uint64_t(kind) << 32) ^ (uint64_t(g.cur->id) << 16) ^ a);
  if (g.log) {
    static const char *names[] = {"?", "lock", "unlock", "wait", "wake", "signal", "broadcast", "create", "join", "exit", "rw", "once", "sleep", "yield", "futex", "read", "write", "seek", "sync", "open", "close", "trunc", "rnd", "fault", "switch", "user", "guard", "atomic", "start"};
    char buf[160];
    int n = snprintf(buf, sizeof buf, "%10lu T%d %s %lu %lu\n", (unsigned long)g.step, g.cur->id, names[kind], (unsigned long)a, (unsigned long)b);
    rawSyscall(SYS_write, 2, (long)buf, n);
  }
}
void event(uint64_t kind, uint64_t v) { if (g.active) trace(EV_USER, kind, v); }

// ---- scheduler --------------------------------------------------------------
static bool runnable(Th *t) {
  if (t->timed && t->state != S_DONE && t->state != S_RUN && g.nowNs >= t->deadline) return true;
  switch (t->state) {
    case S_RUN: return true;
    case S_MUTEX: return t->obj->owner < 0;
    case S_COND: case S_FUTEX: return t->signaled;
    case S_JOIN: return g.th[t->joinTarget]->state == S_DONE;
    case S_RW_R: return t->obj->owner < 0;
    case S_RW_W: return t->obj->owner < 0 && t->obj->readers == 0;
    case S_ONCE: return t->obj->once != 1;
    case S_SEM: return t->obj->count > 0;
    default: return false;
  }
}
static const char *stateName(int s) {
  static const char *n[] = {"new", "running", "waiting for a mutex", "waiting for a condition", "joining a thread", "sleeping", "in futex wait", "waiting for a read lock", "waiting for a write lock", "waiting for once", "waiting for a semaphore", "finished"};
  return n[s];
}
static void recordDev(int type, int arg) {
  Shared *s = g.sh;
  if (s->ndev < MAXDEV) s->dev[s->ndev++] = Dev{g.step, type, arg};
  else s->devOverflow = 1;
}
static void switchTo(Th *t) {
  Th *me = g.cur;
  if (t == me) return;
  g.sh->switches++;
  g.sameRun = 0;
  trace(EV_SWITCH, t->id);
  g.cur = t;
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  futexWake(&t->baton);
  if (me->state == S_DONE) return;
  while (__atomic_load_n(&me->baton, __ATOMIC_ACQUIRE) == 0) futexWait(&me->baton, 0);
  me->baton = 0;
}
static std::string describe() {
  std::string s;
  for (int i = 0; i < g.nth; ++i) if (g.th[i]->state != S_DONE) {
    if (!s.empty()) s += ", ";
    s += (i ? "worker " + std::to_string(i) : std::string("main thread"));
    s += " "; s += stateName(g.th[i]->state);
    if (s.size() > 600) { s += ", ..."; break; }
  }
  return s;
}
static Th *pick(Th **r, int n, Th *def, bool curRunnable, bool yielding) {
  Config &c = g.cfg;
  if (n == 1) return r[0];
  g.sh->decisions++;
  if ((uint64_t)n > g.sh->maxRunnable) g.sh->maxRunnable = n;
  Rng &rg = g.sched;
  if (g.sameRun > 60000) { g.sameRun = 0; return r[rg.below(n)]; }
  switch (c.policy) {
    case 1: {  // PCT: highest priority, with a few priority changes
      if (g.pctLeft > 0 && g.points >= g.pctNext) {
        --g.pctLeft; g.pctNext = g.points + 1 + rg.below(400);
        if (curRunnable) g.cur->prio = -(int64_t)g.points;
      }
      if (yielding) g.cur->prio = -(int64_t)g.points;
      Th *b = r[0];
      for (int i = 1; i < n; ++i) if (r[i]->prio > b->prio) b = r[i];
      return b;
    }
    case 2:  // main thread first
      if (r[0]->id == 0 && !(yielding && g.cur->id == 0)) return r[0];
      if (curRunnable && !yielding && !rg.p16(c.pSwitch)) return def;
      return r[rg.below(n)];
    case 3: {  // workers first
      int k = r[0]->id == 0 ? 1 : 0;
      if (curRunnable && !yielding && g.cur->id != 0 && !rg.p16(c.pSwitch)) return def;
      return r[k + rg.below(n - k)];
    }
    case 4: {  // one thread is stalled as long as possible
      Th *q[MAXT]; int m = 0;
      for (int i = 0; i < n; ++i) if (r[i]->id != g.victim) q[m++] = r[i];
      if (rg.below(200) == 0) g.victim = g.lv[rg.below(g.nlv)]->id;
      if (m == 0) return r[0];
      if (curRunnable && !yielding && g.cur->id != g.victim && !rg.p16(c.pSwitch)) return def;
      return q[rg.below(m)];
    }
    case 5: {  // round robin
      for (int i = 0; i < n; ++i) if (r[i]->id > g.cur->id) return r[i];
      return r[0];
    }
    default:
      if (curRunnable && !yielding && !rg.p16(c.pSwitch)) return def;
      return r[rg.below(n)];
  }
}

static void applyExtras() {
  // spurious wake-ups and jumps of the clock
  Config &c = g.cfg;
  if (c.explicitSched) return;
  if (c.pSpurious && g.sched.p16(c.pSpurious)) {
    Th *w[MAXT]; int m = 0;
    for (int i = 0; i < g.nlv; ++i) if (g.lv[i]->state == S_COND && !g.lv[i]->signaled) w[m++] = g.lv[i];
    if (m) {
      Th *t = w[g.sched.below(m)];
      t->signaled = true; g.sh->fired[FK_SPURIOUS]++;
      recordDev(1, t->id);
    }
  }
  if (c.pJump && g.sched.p16(c.pJump)) {
    int ms = 1 + g.sched.below(5000);
    g.nowNs += uint64_t(ms) * 1000000; g.sh->fired[FK_CLOCKJUMP]++;
    recordDev(2, ms);
  }
}

void reschedule(bool yielding) {
  Th *me = g.cur;
  applyExtras();
  Th *forced = nullptr;
  if (g.cfg.explicitSched) {
    while (g.devIdx < g.ndev && g.devs[g.devIdx].step < g.step) ++g.devIdx;
    while (g.devIdx < g.ndev && g.devs[g.devIdx].step == g.step && g.devs[g.devIdx].type != 3) {
      const Dev &d = g.devs[g.devIdx++];
      if (d.type == 0) { if (d.arg >= 0 && d.arg < g.nth && runnable(g.th[d.arg])) forced = g.th[d.arg]; }
      else if (d.type == 1) { if (d.arg < g.nth && g.th[d.arg]->state == S_COND) { g.th[d.arg]->signaled = true; g.sh->fired[FK_SPURIOUS]++; } }
      else if (d.type == 2) { g.nowNs += uint64_t(d.arg) * 1000000; g.sh->fired[FK_CLOCKJUMP]++; }
    }
    g.nextMem = g.devIdx < g.ndev ? g.devs[g.devIdx].step : g.cfg.maxSteps + 1;
  }
  Th *r[MAXT]; int n = 0;
  for (;;) {
    n = 0;
    for (int i = 0; i < g.nlv; ++i) if (runnable(g.lv[i])) r[n++] = g.lv[i];
    if (n) break;
    uint64_t best = ~0ull;
    for (int i = 0; i < g.nlv; ++i) if (g.lv[i]->timed && g.lv[i]->state != S_DONE && g.lv[i]->state != S_RUN && g.lv[i]->deadline < best) best = g.lv[i]->deadline;
    if (best == ~0ull) {
      bool allDone = true;
      for (int i = 0; i < g.nlv; ++i) if (g.lv[i]->state != S_DONE) allDone = false;
      if (allDone) return;
      violation("deadlock", "no thread can make progress: " + describe());
    }
    g.nowNs = best;
  }
  bool curRun = me->state != S_DONE && runnable(me);
  Th *def = nullptr;
  if (curRun && !yielding) def = me;
  else {
    if (yielding) for (int i = 0; i < n && !def; ++i) if (r[i]->id > me->id) def = r[i];
    if (!def) def = r[0];
  }
  Th *t;
  if (g.cfg.explicitSched) {
    if (n > 1) g.sh->decisions++;
    t = forced ? forced : def;
  } else {
    t = pick(r, n, def, curRun, yielding);
    if (t != def) recordDev(0, t->id);
  }
  switchTo(t);
}

static void count() {
  ++g.step; ++g.points; ++g.syncPoints; ++g.sameRun; g.nowNs += 1000;
  // preemptions between memory accesses do not count: they do not tell whether there is progress
  if (g.step > g.cfg.maxSteps || g.syncPoints > g.cfg.maxPoints)
    violation("livelock", "step limit reached without finishing: " + describe());
  if (!g.cfg.explicitFaults && g.armed && g.cfg.rate[FK_KILL_STEP] && g.faultEvents < g.cfg.maxFaults &&
      g.fault.below(1u << 22) < g.cfg.rate[FK_KILL_STEP]) {
    Shared *s = g.sh;
    if (s->nfired < MAXFIRED) s->firedList[s->nfired++] = Fault{FK_KILL_STEP, -1, g.points, 0};
    crashNow(FK_KILL_STEP);
  }
  if (g.cfg.explicitFaults)
    for (int i = 0; i < g.nfaults; ++i)
      if (g.faults[i].kind == FK_KILL_STEP && g.faults[i].idx == g.points) crashNow(FK_KILL_STEP);
}
void point(int kind, uint64_t a) {
  trace(kind, a);
  count();
  reschedule(kind == EV_YIELD);
}
void yieldPoint() { if (on()) point(EV_YIELD, 0); }

void memPoint() {
  // a preemption between two memory accesses
  ++g.points;
  if (g.step > g.cfg.maxSteps) violation("livelock", "step limit reached without finishing: " + describe());
  if (g.cfg.explicitSched) { reschedule(false); return; }
  g.nextMem = g.step + 1 + g.sched.below(2 * uint64_t(g.cfg.memGap));
  Th *r[MAXT]; int n = 0;
  for (int i = 0; i < g.nlv; ++i) if (runnable(g.lv[i])) r[n++] = g.lv[i];
  g.sh->decisions++;
  Th *t = r[0];
  if (g.cfg.policy != 2 || t->id != 0) t = r[g.sched.below(n)];   // main first: others only when it can not run
  if (t != g.cur) { recordDev(0, t->id); switchTo(t); }
}

// What the other threads do while the first one waits for a notification: the number
// that is not blocked, integrated over the steps.
static bool watching; static uint64_t watchStep, watchBusy, watchSteps;
static bool sleeps(Th *t) { return t->state == S_COND && !t->signaled && !t->timed; }
static bool canRun(Th *t) { return runnable(t) && !(t->state == S_COND && t->mutex->owner >= 0); }
static void integrate() {
  if (sleeps(g.th[0])) {
    int n = 0;
    bool all = true;   // while threads prepare themselves, one after the other, they do not count
    for (int i = 0; i < g.nlv; ++i) { if (canRun(g.lv[i])) ++n; if (!g.lv[i]->began) all = false; }
    if (!all) { watchStep = g.step; return; }
    watchBusy += n * (g.step - watchStep); watchSteps += g.step - watchStep;
  }
  watchStep = g.step;
}
void watchWorkers(bool on) { watching = on; watchStep = g.step; if (on) watchBusy = watchSteps = 0; }
double busyWorkers(uint64_t &steps) { steps = watchSteps; return watchSteps ? double(watchBusy) / watchSteps : 0; }

static void block(Th *me, int state, Obj *o) {
  if (watching) integrate();
  me->state = state; me->obj = o;
  if (watching && sleeps(me) && sleeps(g.th[0]))
    for (int i = 1; i < g.nlv; ++i) if (sleeps(g.lv[i])) violation("idle", "the writer waits for room in the queue, while a thread that should encode sleeps");
  count();
  reschedule(false);
  if (watching) integrate();
  me->state = S_RUN; me->obj = nullptr;
}

// choose one waiter (signal)
static Th *chooseWaiter(Th **w, int m) {
  if (m == 1) return w[0];
  // default: the one that waits longest
  int d = 0;
  for (int i = 1; i < m; ++i) if (w[i]->seq < w[d]->seq) d = i;
  ++g.step;
  if (g.cfg.explicitSched) {
    while (g.devIdx < g.ndev && g.devs[g.devIdx].step < g.step) ++g.devIdx;
    if (g.devIdx < g.ndev && g.devs[g.devIdx].step == g.step && g.devs[g.devIdx].type == 3) {
      int a = g.devs[g.devIdx++].arg;
      for (int i = 0; i < m; ++i) if (w[i]->id == a) return w[i];
    }
    return w[d];
  }
  int k = g.sched.below(m);
  if (k != d) recordDev(3, w[k]->id);
  return w[k];
}

// ---- threads -----------------------------------------------------------------
static pthread_key_t exitKey;
static Th *thSelf() {
  return g.cur;
}
static void onThreadExit(void *p) {
  intptr_t round = (intptr_t)p;
  if (round < 3) { pthread_setspecific(exitKey, (void *)(round + 1)); return; }
  if (!g.active) return;
  Th *me = g.cur;
  trace(EV_EXIT, me->id);
  // everything this thread did happens before whoever joins it
  me->state = S_DONE;
  { int k = 0; for (int i = 0; i < g.nlv; ++i) if (g.lv[i] != me) g.lv[k++] = g.lv[i]; g.nlv = k; }
  reschedule(false);
}
void memGlobals(uintptr_t lo, uintptr_t hi);
static void *threadMain(void *p) {
  Th *me = static_cast<Th *>(p);
  while (__atomic_load_n(&me->baton, __ATOMIC_ACQUIRE) == 0) futexWait(&me->baton, 0);
  me->baton = 0;
  pthread_setspecific(exitKey, (void *)1);
  stack_t ss; memset(&ss, 0, sizeof ss);
  static thread_local char alt[32768];
  ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  trace(EV_START, me->id);
  return me->fn(me->arg);
}

int liveThreads() {
  int n = 0;
  for (int i = 1; i < g.nth; ++i) if (g.th[i]->state != S_DONE) ++n;
  return n;
}
void setKnobs(int ncpu, int fill) { if (ncpu > 0) g.cfg.ncpu = ncpu; if (fill >= 0) { g.cfg.fillAlloc = fill & 255; g.cfg.fillFree = (fill * 7 + 3) & 255; } }
bool active() { return g.active; }
void armFaults(bool onOff) { g.armed = onOff; if (!onOff) for (int i = 0; i < OC_N; ++i) g.persistKind[i] = 0; }
bool faultsArmed() { return g.armed; }
uint64_t firedKind(int k) { return g.sh ? g.sh->fired[k] : 0; }
uint64_t firedTotal() { uint64_t n = 0; if (g.sh) for (int i = FK_READ_EIO; i <= FK_THREAD_EAGAIN; ++i) n += g.sh->fired[i]; return n; }
uint64_t nowNs() { return g.nowNs; }
Pause::Pause() : old(g.paused) { g.paused = true; }
Pause::~Pause() { g.paused = old; }

static Th *newThread() {
  if (g.nth >= MAXT) finish(ST_TOOLFAIL, "threads", "too many simulated threads");
  Th *t = new (::malloc(sizeof(Th))) Th();
  memset((void *)t, 0, sizeof *t);
  t->id = g.nth; t->state = S_RUN;
  t->prio = 1000000 + (int64_t)g.sched.below(1000000);
  g.vc[g.nth] = (uint32_t *)::calloc(MAXT, 4);
  g.vc[g.nth][t->id] = 1;
  g.th[g.nth++] = t; g.lv[g.nlv++] = t;
  return t;
}

void init() {
  static bool done = false;
  if (done) return;
  done = true;
  dl_iterate_phdr(phdrCb, nullptr);
  pthread_key_create(&exitKey, onThreadExit);
  objMap = new (::malloc(sizeof(ObjMap))) ObjMap();
  memInit();
  for (int i = 0; i < nSutData; ++i) memGlobals(sutData[i].lo, sutData[i].hi);
  filesInit();
  std::set_terminate(onTerminate);
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  if (getenv("SIM_LOG")) g.log = true;
}

void begin(const Config &c, Shared *sh, const Dev *devs, int ndev, const Fault *faults, int nfaults) {
  g.cfg = c; g.sh = sh; g.devs = devs; g.ndev = ndev; g.devIdx = 0; g.faults = faults; g.nfaults = nfaults;
  g.sched = Rng(c.schedSeed); g.fault = Rng(c.faultSeed ^ 0x5151); g.entropy = Rng(c.entropySeed ^ 0x77);
  g.nth = g.nlv = 0; g.step = g.points = g.syncPoints = 0; g.nowNs = 0; g.armed = true; g.faultEvents = 0; g.victim = -1;
  for (int i = 0; i < OC_N; ++i) g.persistKind[i] = 0;
  g.pctLeft = c.pctChanges; g.pctNext = 1 + g.sched.below(300);
  if (c.policy == 4) g.victim = g.sched.below(4);
  g.nextMem = c.explicitSched ? (ndev ? devs[0].step : c.maxSteps + 1) : (c.memGap ? 1 + g.sched.below(2 * uint64_t(c.memGap)) : c.maxSteps + 1);
  sh->status = ST_RUNNING; sh->hash = 1469598103934665603ull; sh->schedHash = 1099511628211ull;
  Th *t = newThread();
  g.cur = t;
  t->pt = pthread_self();
  g.active = true;
}
int end() {
  if (!g.active) return 0;
  int live = liveThreads();
  g.sh->steps = g.step; g.sh->points = g.points; g.sh->simNs = g.nowNs;
  g.active = false;
  return live;
}

// ---- faults ------------------------------------------------------------------
static int classKinds[OC_N][4] = {
    {FK_READ_EIO, FK_READ_SHORT, FK_READ_EINTR, 0},
    {FK_WRITE_EIO, FK_WRITE_ENOSPC, FK_WRITE_SHORT, FK_WRITE_EINTR},
    {0, 0, 0, 0}, {FK_SYNC_EIO, 0, 0, 0}, {FK_OPEN_FAIL, 0, 0, 0}, {0, 0, 0, 0},
    {FK_BAD_ALLOC, 0, 0, 0}, {FK_THREAD_EAGAIN, 0, 0, 0}};

int nextFault(int cls, uint64_t len, int64_t *param) {
  Shared *s = g.sh;
  uint64_t idx = s->opCount[cls]++;
  bool file = cls < OC_ALLOC;
  uint64_t fidx = file ? s->fileOps++ : 0;
  *param = -1;
  int kind = 0;
  if (g.cfg.explicitFaults) {
    for (int i = 0; i < g.nfaults; ++i) {
      const Fault &f = g.faults[i];
      if ((f.kind == FK_KILL || f.kind == FK_POWER) ? (file && f.idx == fidx) : (f.cls == cls && f.idx == idx)) { kind = f.kind; *param = f.param; break; }
    }
    if (kind) { s->fired[kind]++; trace(EV_FAULT, kind, idx); }
    return kind;
  }
  if (!g.armed) return 0;
  if (g.persistKind[cls]) kind = g.persistKind[cls];
  else if (g.faultEvents < g.cfg.maxFaults && (!file || fidx >= g.cfg.faultFrom)) {
    if (file && g.cfg.rate[FK_KILL] && g.fault.p16(g.cfg.rate[FK_KILL])) kind = FK_KILL;
    else if (file && g.cfg.rate[FK_POWER] && g.fault.p16(g.cfg.rate[FK_POWER])) kind = FK_POWER;
    else
      for (int k = 0; k < 4 && !kind; ++k) {
        int q = classKinds[cls][k];
        if (q && g.cfg.rate[q] && g.fault.p16(g.cfg.rate[q])) kind = q;
      }
    if (kind) {
      ++g.faultEvents;
      if (kind == FK_READ_SHORT || kind == FK_WRITE_SHORT) {
        if (len < 2) { kind = 0; --g.faultEvents; }
        else *param = 1 + g.fault.below(len - 1);
      }
      if ((kind == FK_KILL || kind == FK_POWER)) *param = len ? (int64_t)g.fault.below(len + 1) : 0;
      if (kind && g.cfg.persist && (kind == FK_READ_EIO || kind == FK_WRITE_EIO || kind == FK_WRITE_ENOSPC || kind == FK_SYNC_EIO || kind == FK_BAD_ALLOC || kind == FK_THREAD_EAGAIN || kind == FK_OPEN_FAIL)) g.persistKind[cls] = kind;
    }
  }
  if (kind) {
    s->fired[kind]++;
    if (s->nfired < MAXFIRED) s->firedList[s->nfired++] = Fault{kind, (kind == FK_KILL || kind == FK_POWER) ? -1 : cls, (kind == FK_KILL || kind == FK_POWER) ? fidx : idx, *param};
    trace(EV_FAULT, kind, idx);
    if (kind == FK_KILL || kind == FK_POWER) s->fired[kind]--;  // counted when it happens
  }
  return kind;
}

}  // namespace sim

using namespace sim;

// =============================================================================
// interposed functions
// =============================================================================
extern "C" {

// ---- mutex -------------------------------------------------------------------
static int mutexKind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

static int simLock(pthread_mutex_t *m, bool timed, uint64_t deadline) {
  Obj *o = obj((uintptr_t)m, T_MUTEX);
  point(EV_LOCK, o->num);
  Th *me = g.cur;
  if (o->owner == me->id) {
    if (mutexKind(m) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
    if (mutexKind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (o->owner >= 0) {
    me->timed = timed; me->deadline = deadline;
    block(me, S_MUTEX, o);
    me->timed = false;
    if (o->owner >= 0 && timed && g.nowNs >= deadline) return ETIMEDOUT;
  }
  if (watching) integrate();
  o->owner = me->id; o->count = 1;
  acquire(o);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on()) { REAL(pthread_mutex_lock); return real(m); }
  return simLock(m, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on()) { REAL(pthread_mutex_trylock); return real(m); }
  Obj *o = obj((uintptr_t)m, T_MUTEX);
  point(EV_LOCK, o->num);
  if (o->owner == g.cur->id && mutexKind(m) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
  if (o->owner >= 0) return EBUSY;
  if (watching) integrate();
  o->owner = g.cur->id; o->count = 1; acquire(o);
  return 0;
}
static uint64_t absNs(const timespec *ts, clockid_t) {
  uint64_t t = uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
  const uint64_t base = 1700000000ull * 1000000000ull;
  return t > base ? t - base : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) {
  if (!on()) { REAL(pthread_mutex_timedlock); return real(m, ts); }
  return simLock(m, true, absNs(ts, CLOCK_REALTIME));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts) {
  if (!on()) { REAL(pthread_mutex_clocklock); return real(m, c, ts); }
  return simLock(m, true, absNs(ts, c));
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on()) { REAL(pthread_mutex_unlock); return real(m); }
  Obj *o = findObj((uintptr_t)m, T_MUTEX);
  if (!o || o->owner < 0) {
    // locked before the simulation started
    REAL(pthread_mutex_unlock);
    if (m->__data.__lock) return real(m);
    return 0;
  }
  if (o->owner != g.cur->id) violation("mutex", "a mutex is unlocked by a thread that does not hold it");
  if (--o->count == 0) { if (watching) integrate(); release(o); o->owner = -1; g.cur->began = true; }
  point(EV_UNLOCK, o->num);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  REAL(pthread_mutex_init);
  if (g.active) { Obj *o = findObj((uintptr_t)m, T_MUTEX); if (o) { o->owner = -1; o->count = 0; } }
  return real(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  REAL(pthread_mutex_destroy);
  if (g.active) {
    Obj *o = findObj((uintptr_t)m, T_MUTEX);
    if (o) { if (o->owner >= 0) return EBUSY; return 0; }
  }
  return real(m);
}

// ---- condition ---------------------------------------------------------------
static int simWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t deadline) {
  Obj *oc = obj((uintptr_t)c, T_COND), *om = obj((uintptr_t)m, T_MUTEX);
  Th *me = g.cur;
  if (om->owner != me->id) violation("mutex", "a condition is waited for without holding its mutex");
  point(EV_WAIT, oc->num);   // between the test of the condition and the wait: a notification without the mutex gets lost
  trace(EV_WAIT, oc->num);
  int cnt = om->count;
  if (watching) integrate();
  release(om); om->owner = -1; om->count = 0; me->began = true;
  me->signaled = false; me->timed = timed; me->deadline = deadline; me->addr = (uintptr_t)c; me->mutex = om; me->seq = ++g.seq;
  block(me, S_COND, oc);
  bool sig = me->signaled;
  me->timed = false; me->signaled = false; me->addr = 0;
  trace(EV_WAKE, oc->num);
  while (om->owner >= 0) block(me, S_MUTEX, om);
  if (watching) integrate();
  om->owner = me->id; om->count = cnt;
  acquire(om);
  return (!sig && timed) ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on()) { REAL(pthread_cond_wait, "GLIBC_2.3.2"); return real(c, m); }
  return simWait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  if (!on()) { REAL(pthread_cond_timedwait, "GLIBC_2.3.2"); return real(c, m, ts); }
  return simWait(c, m, true, absNs(ts, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
  if (!on()) { REAL(pthread_cond_clockwait); return real(c, m, k, ts); }
  return simWait(c, m, true, absNs(ts, k));
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!on()) { REAL(pthread_cond_signal, "GLIBC_2.3.2"); return real(c); }
  Obj *o = obj((uintptr_t)c, T_COND);
  point(EV_SIGNAL, o->num);
  Th *w[MAXT]; int m = 0;
  for (int i = 0; i < g.nlv; ++i) if (g.lv[i]->state == S_COND && g.lv[i]->obj == o && !g.lv[i]->signaled) w[m++] = g.lv[i];
  if (watching) integrate();
  if (m) chooseWaiter(w, m)->signaled = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!on()) { REAL(pthread_cond_broadcast, "GLIBC_2.3.2"); return real(c); }
  Obj *o = obj((uintptr_t)c, T_COND);
  point(EV_BROADCAST, o->num);
  if (watching) integrate();
  for (int i = 0; i < g.nlv; ++i) if (g.lv[i]->state == S_COND && g.lv[i]->obj == o) g.lv[i]->signaled = true;
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { REAL(pthread_cond_init, "GLIBC_2.3.2"); return real(c, a); }
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!on()) { REAL(pthread_cond_destroy, "GLIBC_2.3.2"); return real(c); }
  Obj *o = findObj((uintptr_t)c, T_COND);
  if (o)
    for (int i = 0; i < g.nlv; ++i)
      if (g.lv[i]->state == S_COND && g.lv[i]->obj == o && !g.lv[i]->signaled)
        violation("cond-destroy", "a condition variable is destroyed while a thread waits for it");
  return 0;
}

// ---- rwlock -------------------------------------------------------------------
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!on()) { REAL(pthread_rwlock_rdlock); return real(l); }
  Obj *o = obj((uintptr_t)l, T_RW);
  point(EV_RW, o->num);
  while (o->owner >= 0) block(g.cur, S_RW_R, o);
  o->readers++; acquire(o);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!on()) { REAL(pthread_rwlock_wrlock); return real(l); }
  Obj *o = obj((uintptr_t)l, T_RW);
  point(EV_RW, o->num);
  while (o->owner >= 0 || o->readers) block(g.cur, S_RW_W, o);
  if (watching) integrate();
  o->owner = g.cur->id; acquire(o);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!on()) { REAL(pthread_rwlock_tryrdlock); return real(l); }
  Obj *o = obj((uintptr_t)l, T_RW);
  point(EV_RW, o->num);
  if (o->owner >= 0) return EBUSY;
  o->readers++; acquire(o);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!on()) { REAL(pthread_rwlock_trywrlock); return real(l); }
  Obj *o = obj((uintptr_t)l, T_RW);
  point(EV_RW, o->num);
  if (o->owner >= 0 || o->readers) return EBUSY;
  if (watching) integrate();
  o->owner = g.cur->id; acquire(o);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!on()) { REAL(pthread_rwlock_unlock); return real(l); }
  Obj *o = obj((uintptr_t)l, T_RW);
  release(o);
  if (watching) integrate();
  if (o->owner == g.cur->id) o->owner = -1; else if (o->readers > 0) o->readers--;
  point(EV_RW, o->num);
  return 0;
}

// ---- once, static initialisation ------------------------------------------------
int pthread_once(pthread_once_t *ctl, void (*fn)(void)) {
  if (!on()) { REAL(pthread_once); return real(ctl, fn); }
  Obj *o = obj((uintptr_t)ctl, T_ONCE);
  if (*(volatile int *)ctl & 2) { acquire(o); return 0; }
  point(EV_ONCE, o->num);
  while (o->once == 1) block(g.cur, S_ONCE, o);
  if (*(volatile int *)ctl & 2) { acquire(o); return 0; }
  o->once = 1;
  try { fn(); } catch (...) { o->once = 0; throw; }
  release(o);
  o->once = 2;
  *(volatile int *)ctl = 2;
  return 0;
}

}  // extern "C"
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(__guard *gd) {
  static auto real = realFn<int (*)(__guard *)>("__cxa_guard_acquire");
  if (!on()) return real(gd);
  Obj *o = obj((uintptr_t)gd, T_GUARD);
  if (*(volatile char *)gd) { acquire(o); return 0; }
  point(EV_GUARD, o->num);
  while (o->once == 1) block(g.cur, S_ONCE, o);
  if (*(volatile char *)gd) { acquire(o); return 0; }
  o->once = 1;
  return 1;
}
extern "C" void __cxa_guard_release(__guard *gd) noexcept {
  static auto real = realFn<void (*)(__guard *)>("__cxa_guard_release");
  if (!g.active) { real(gd); return; }
  Obj *o = obj((uintptr_t)gd, T_GUARD);
  if (o->once != 1) { real(gd); return; }
  release(o); o->once = 2;
  *(volatile char *)gd = 1;
}
extern "C" void __cxa_guard_abort(__guard *gd) noexcept {
  static auto real = realFn<void (*)(__guard *)>("__cxa_guard_abort");
  if (!g.active) { real(gd); return; }
  Obj *o = obj((uintptr_t)gd, T_GUARD);
  if (o->once != 1) { real(gd); return; }
  o->once = 0;
}
}
namespace sim { void guardLoaded(uintptr_t p) { Obj *o = findObj(p, T_GUARD); if (o) acquire(o); } 
void atomicSync(uintptr_t p, bool acq, bool rel) {
  Obj *o = obj(p, T_ATOMIC);
  if (acq) acquire(o);
  if (rel) release(o);
} }
extern "C" {

// ---- threads --------------------------------------------------------------------
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  REAL(pthread_create);
  if (!on()) return real(pt, attr, fn, arg);
  int64_t param;
  g.sh->threadsCreated++;
  if (nextFault(OC_THREAD, 0, &param) == FK_THREAD_EAGAIN) return EAGAIN;
  Th *t = newThread();
  t->fn = fn; t->arg = arg;
  int me = g.cur->id;
  for (int i = 0; i < g.nth; ++i) if (i != t->id && g.vc[me][i] > g.vc[t->id][i]) g.vc[t->id][i] = g.vc[me][i];
  g.vc[me][me]++;
  int rc = real(pt, attr, threadMain, t);
  if (rc) { t->state = S_DONE; finish(ST_TOOLFAIL, "pthread_create", "the real pthread_create failed"); }
  t->pt = *pt;
  point(EV_CREATE, t->id);
  return 0;
}
static Th *findThread(pthread_t pt) {
  for (int i = g.nth - 1; i >= 0; --i) if (g.th[i]->pt == pt && !g.th[i]->joined) return g.th[i];
  return nullptr;
}
int pthread_join(pthread_t pt, void **ret) {
  REAL(pthread_join);
  if (!on()) return real(pt, ret);
  Th *t = findThread(pt);
  if (!t || t->id == 0) return ESRCH;
  point(EV_JOIN, t->id);
  Th *me = g.cur;
  while (t->state != S_DONE) { me->joinTarget = t->id; block(me, S_JOIN, nullptr); }
  for (int i = 0; i < g.nth; ++i) if (g.vc[t->id][i] > g.vc[me->id][i]) g.vc[me->id][i] = g.vc[t->id][i];
  t->joined = true;
  return real(pt, ret);
}
int pthread_detach(pthread_t pt) {
  REAL(pthread_detach);
  if (g.active) { Th *t = findThread(pt); if (t) { t->joined = true; t->detached = true; } }
  return real(pt);
}

// ---- time -------------------------------------------------------------------------
static const uint64_t kBase = 1700000000ull * 1000000000ull;
int clock_gettime(clockid_t c, timespec *ts) {
  if (!g.active) { REAL(clock_gettime); return real(c, ts); }
  uint64_t t = kBase + g.nowNs;
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(timeval *tv, void *tz) noexcept {
  if (!g.active) { static auto real = realFn<int (*)(timeval *, void *)>("gettimeofday"); return real(tv, tz); }
  uint64_t t = kBase + g.nowNs;
  tv->tv_sec = t / 1000000000ull; tv->tv_usec = (t % 1000000000ull) / 1000;
  return 0;
}
time_t time(time_t *p) noexcept {
  time_t t;
  if (!g.active) { timespec ts; REAL(clock_gettime); real(CLOCK_REALTIME, &ts); t = ts.tv_sec; }
  else t = (kBase + g.nowNs) / 1000000000ull;
  if (p) *p = t;
  return t;
}
clock_t clock() noexcept {
  if (!g.active) { static auto real = realFn<clock_t (*)()>("clock"); return real(); }
  return g.nowNs / 1000;
}
clock_t times(struct tms *b) noexcept {
  if (!g.active) { static auto real = realFn<clock_t (*)(struct tms *)>("times"); return real(b); }
  memset(b, 0, sizeof *b); b->tms_utime = g.nowNs / 10000000; return b->tms_utime;
}
static void simSleep(uint64_t ns) {
  Th *me = g.cur;
  trace(EV_SLEEP, ns / 1000);
  me->timed = true; me->deadline = g.nowNs + ns;
  block(me, S_SLEEP, nullptr);
  me->timed = false;
}
int nanosleep(const timespec *ts, timespec *rem) {
  if (!on()) { REAL(nanosleep); return real(ts, rem); }
  simSleep(uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *rem) {
  if (!on()) { REAL(clock_nanosleep); return real(c, flags, ts, rem); }
  uint64_t t = uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
  if (flags & TIMER_ABSTIME) { uint64_t a = absNs(ts, c); t = a > g.nowNs ? a - g.nowNs : 0; }
  simSleep(t);
  return 0;
}
int usleep(useconds_t us) {
  if (!on()) { REAL(usleep); return real(us); }
  simSleep(uint64_t(us) * 1000);
  return 0;
}
unsigned sleep(unsigned s) {
  if (!on()) { REAL(sleep); return real(s); }
  simSleep(uint64_t(s) * 1000000000ull);
  return 0;
}
int sched_yield() noexcept {
  if (!on()) { static auto real = realFn<int (*)()>("sched_yield"); return real(); }
  point(EV_YIELD, 0);
  return 0;
}

// ---- processors, randomness ----------------------------------------------------------
long sysconf(int n) noexcept {
  static auto real = realFn<long (*)(int)>("sysconf");
  if (g.active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return g.cfg.ncpu;
  return real(n);
}
int get_nprocs() noexcept {
  if (g.active) return g.cfg.ncpu;
  static auto real = realFn<int (*)()>("get_nprocs");
  return real();
}
int get_nprocs_conf() noexcept {
  if (g.active) return g.cfg.ncpu;
  static auto real = realFn<int (*)()>("get_nprocs_conf");
  return real();
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!g.active) { static auto real = realFn<ssize_t (*)(void *, size_t, unsigned)>("getrandom"); return real(buf, n, fl); }
  for (size_t i = 0; i < n; ++i) ((unsigned char *)buf)[i] = g.entropy.next() >> 33;
  return n;
}
int getentropy(void *buf, size_t n) {
  getrandom(buf, n, 0);
  return 0;
}
uint32_t arc4random() noexcept { uint32_t v; getrandom(&v, sizeof v, 0); return v; }
int rand() noexcept {
  if (!g.active) { static auto real = realFn<int (*)()>("rand"); return real(); }
  return g.entropy.next() >> 33;
}
pid_t getpid() noexcept { return g.active ? 4242 : (pid_t)rawSyscall(SYS_getpid); }

// ---- futex ------------------------------------------------------------------------
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on() && n == SYS_futex) {
    int op = b & 127;
    uint32_t *u = (uint32_t *)a;
    Obj *o = obj((uintptr_t)u, T_FUTEX);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(EV_FUTEX, o->num);
      if (*(volatile uint32_t *)u != (uint32_t)c) { errno = EAGAIN; return -1; }
      Th *me = g.cur;
      me->signaled = false; me->addr = (uintptr_t)u; me->seq = ++g.seq;
      const timespec *ts = (const timespec *)d;
      me->timed = ts != nullptr;
      if (ts) { uint64_t t = uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec; me->deadline = op == FUTEX_WAIT ? g.nowNs + t : absNs(ts, CLOCK_REALTIME); }
      block(me, S_FUTEX, o);
      bool sig = me->signaled; bool timed = me->timed;
      me->timed = me->signaled = false;
      if (!sig && timed) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int woken = 0;
      point(EV_FUTEX, o->num);
      for (int i = 0; i < g.nlv && woken < (int)c; ++i) if (g.lv[i]->state == S_FUTEX && g.lv[i]->obj == o && !g.lv[i]->signaled) { g.lv[i]->signaled = true; ++woken; }
      return woken;
    }
  }
  if (g.active && n == SYS_getrandom) return getrandom((void *)a, b, c);
  long r = rawSyscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

}  // extern "C"

// std::random_device
namespace std {
void random_device::_M_init(const std::string &) { trace(EV_RND, 0); }
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  if (!g.active) return 12345;
  return (result_type)(g.entropy.next() >> 16);
}
}
