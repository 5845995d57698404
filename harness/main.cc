// Runner: every run is a process forked from a pristine parent, so that a run
// depends on its plan only.
#include "exec.h"
#include "model.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

struct Area {
  size_t planLen; int genOk; char plan[12 << 20];
  Shared a, b;
};
static Area *area;
static char scratch[64];
static int devnull = -1;
static unsigned hangSeconds = 60;

static void resetShared(Shared *s) {
  memset((void *)s, 0, offsetof(Shared, firedList));
  s->ndev = 0; s->devOverflow = 0;
  s->opStarted = s->opDone = -1; memset(s->user, 0, sizeof s->user); s->note[0] = 0;
  s->wlen = 0; s->wOverflow = 0;
}
static void wipe(const char *dir) {
  DIR *d = opendir(dir);
  if (!d) return;
  while (dirent *e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char p[600]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
    struct stat st;
    if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p); } else unlink(p);
  }
  closedir(d);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static bool forkRun(int phase, int how, Shared *sh) {
  resetShared(sh);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(hangSeconds);
    if (chdir(scratch)) _exit(97);
    if (!getenv("SIM_STDOUT")) { dup2(devnull, 1); if (!getenv("SIM_LOG")) dup2(devnull, 2); }
    Plan *plan = new Plan(Plan::parse(std::string(area->plan, area->planLen)));
    execute(*plan, sh, phase, how, area->a.wlog, area->a.wlen, area->a.opStarted, area->a.opDone);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGALRM) { sh->status = ST_VIOLATION; strcpy(sh->vclass, "hang"); snprintf(sh->msg, sizeof sh->msg, "the process does not finish"); }
    else { sh->status = ST_SIGNAL; strcpy(sh->vclass, "signal"); snprintf(sh->msg, sizeof sh->msg, "the process is killed by signal %d", WTERMSIG(st)); }
    return false;
  }
  if (sh->status == ST_RUNNING) { sh->status = ST_TOOLFAIL; snprintf(sh->vclass, sizeof sh->vclass, "exit"); snprintf(sh->msg, sizeof sh->msg, "the run ended without a result (status %x)", st); }
  return true;
}
static uint64_t faultsOf(Shared *s) { uint64_t n = 0; for (int i = FK_READ_EIO; i <= FK_THREAD_EAGAIN; ++i) n += s->fired[i]; return n; }
static bool planHas(const char *w) { area->plan[area->planLen] = 0; return strstr(area->plan, w) != nullptr; }

struct Out { bool violation, toolfail, reported, crashed, second; char cls[64]; char msg[MAXMSG]; uint64_t hash; };
static void runPlan(Out &o) {
  memset(&o, 0, sizeof o);
  wipe(scratch);
  Shared *s = &area->a;
  forkRun(0, 0, s);
  o.hash = s->hash ^ (s->steps * 31);
  int how = 0;
  auto take = [&](Shared *x) { snprintf(o.cls, sizeof o.cls, "%s", x->vclass); snprintf(o.msg, sizeof o.msg, "%s", x->msg); };
  switch (s->status) {
    case ST_OK: return;
    case ST_CRASHED: o.crashed = true; how = !strcmp(s->vclass, "power") ? 2 : 1; break;
    case ST_TERMINATED:
      o.reported = true;
      if (strcmp(s->vclass, "reported")) {
        // uncaught exception in a thread or destructor: ends the process, so nothing is hidden, provided that there was a reason
        if (!(planHas("\nmode loud") && faultsOf(s))) { take(s); o.violation = true; return; }
      }
      how = 3; break;
    case ST_VIOLATION: case ST_SIGNAL: take(s); o.violation = true; return;
    default: take(s); o.toolfail = true; return;
  }
  char side[100]; snprintf(side, sizeof side, "%s/side.names", scratch);
  if (access(side, R_OK)) return;
  if (s->wOverflow && how == 2) return;
  // the last write of a power loss decides the image, see Plan::crashSeed
  o.second = true;
  forkRun(1, how, &area->b);
  s = &area->b;
  o.hash ^= s->hash * 3;
  switch (s->status) {
    case ST_OK: return;
    case ST_VIOLATION: case ST_SIGNAL: case ST_TERMINATED: take(s); o.violation = true; return;
    default: take(s); o.toolfail = true;
  }
}
static bool genPlan(const char *prop, uint64_t seed, bool thorough) {
  area->genOk = 0;
  pid_t pid = fork();
  if (pid == 0) {
    std::string t = generate(prop, seed, thorough).serialize();
    if (t.size() < sizeof area->plan) { memcpy(area->plan, t.data(), t.size()); area->planLen = t.size(); area->genOk = 1; }
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return area->genOk;
}
// the plan with the faults and the schedule of the last run made explicit
static void capture(const char *file) {
  pid_t pid = fork();
  if (pid == 0) {
    Plan p = Plan::parse(std::string(area->plan, area->planLen));
    Shared *s = &area->a;
    if (!p.cfg.explicitFaults) {
      p.cfg.explicitFaults = true; p.faults.assign(s->firedList, s->firedList + s->nfired);
    }
    if (!p.cfg.explicitSched && !s->devOverflow) { p.cfg.explicitSched = true; p.devs.assign(s->dev, s->dev + s->ndev); }
    std::string t = p.serialize();
    FILE *f = fopen(file, "w");
    if (!f) _exit(1);
    fwrite(t.data(), 1, t.size(), f); fclose(f);
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
}
static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fputc(' ', f); else fputc(c, f); }
  fputc('"', f);
}
static void printOut(FILE *f, const Out &o) {
  Shared *s = &area->a;
  fprintf(f, "{\"violation\":%d,\"toolfail\":%d,\"reported\":%d,\"crashed\":%d,\"class\":", o.violation, o.toolfail, o.reported, o.crashed); jstr(f, o.cls);
  fprintf(f, ",\"msg\":"); jstr(f, o.msg);
  fprintf(f, ",\"hash\":\"%016lx\",\"steps\":%lu,\"points\":%lu,\"switches\":%lu,\"ndev\":%d,\"nfired\":%d,\"status\":%d,\"status2\":%d,\"vclass\":", (unsigned long)o.hash, (unsigned long)s->steps, (unsigned long)s->points, (unsigned long)s->switches, s->ndev, s->nfired, s->status, o.second ? area->b.status : 0);
  jstr(f, s->vclass); fprintf(f, ",\"smsg\":"); jstr(f, s->msg);
  fprintf(f, ",\"user\":["); for (int k = 0; k < 64; ++k) fprintf(f, "%s%lu", k ? "," : "", (unsigned long)s->user[k]);
  fprintf(f, "]}\n");
}

static volatile sig_atomic_t stopNow = 0;
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  const char *cmd = argc > 1 ? argv[1] : "";
  auto opt = [&](const char *n, const char *d) { for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return (const char *)argv[i + 1]; return d; };
  auto has = [&](const char *n) { for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], n)) return true; return false; };
  area = (Area *)mmap((void *)0x50000000000ull, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (area == MAP_FAILED) { fprintf(stderr, "no memory\n"); return 3; }
  devnull = open("/dev/null", O_RDWR);
  hangSeconds = atoi(opt("--hang", "60"));
  const char *base = "/dev/shm";
  if (access(base, W_OK)) base = "/tmp";
  snprintf(scratch, sizeof scratch, "%s/dysco-sim-%08x", base, (unsigned)getpid());
  if (mkdir(scratch, 0755) && errno != EEXIST) { fprintf(stderr, "can not create %s\n", scratch); return 3; }
  int cpu = atoi(opt("--cpu", "-1"));
  if (cpu < 0) { cpu_set_t all; if (sched_getaffinity(0, sizeof all, &all) == 0) { int n = CPU_COUNT(&all), k = n ? getpid() % n : 0; for (int i = 0; i < 1024; ++i) if (CPU_ISSET(i, &all) && k-- == 0) { cpu = i; break; } } }
  if (cpu >= 0) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(cpu, &c); sched_setaffinity(0, sizeof c, &c); }
  levelsInit();
  init();
  int rc = 0;
  static Out out, out2;
  if (!strcmp(cmd, "gen")) {
    if (!genPlan(argv[2], strtoull(argv[3], 0, 10), has("--thorough"))) rc = 3;
    else fwrite(area->plan, 1, area->planLen, stdout);
  } else if (!strcmp(cmd, "replay")) {
    FILE *f = fopen(argv[2], "r");
    if (!f) { fprintf(stderr, "can not open %s\n", argv[2]); rc = 3; }
    else {
      area->planLen = fread(area->plan, 1, sizeof area->plan - 1, f); fclose(f);
      runPlan(out);
      printOut(stdout, out);
      if (*opt("--capture", "")) capture(opt("--capture", ""));
      rc = out.toolfail ? 3 : out.violation ? 1 : 0;
    }
  } else if (!strcmp(cmd, "twice")) {  // determinism
    const char *prop = argv[2]; uint64_t s0 = strtoull(argv[3], 0, 10); int n = atoi(argv[4]), bad = 0;
    for (int i = 0; i < n; ++i) {
      genPlan(prop, s0 + i, has("--thorough"));
      runPlan(out); runPlan(out2);
      printf("%lu %016lx\n", (unsigned long)(s0 + i), (unsigned long)out.hash);
      if (out.hash != out2.hash || strcmp(out.cls, out2.cls)) { ++bad; fprintf(stderr, "seed %lu: not deterministic\n", (unsigned long)(s0 + i)); }
    }
    rc = bad ? 3 : 0;
  } else if (!strcmp(cmd, "one")) {
    if (!genPlan(argv[2], strtoull(argv[3], 0, 10), has("--thorough"))) rc = 3;
    else {
      runPlan(out); printOut(stdout, out);
      if (*opt("--capture", "")) capture(opt("--capture", ""));
      rc = out.toolfail ? 3 : out.violation ? 1 : 0;
    }
  } else if (!strcmp(cmd, "batch")) {
    signal(SIGTERM, [](int) { stopNow = 1; });
    const char *prop = opt("--prop", "C01");
    uint64_t seed = strtoull(opt("--seed", "1"), 0, 10), start = strtoull(opt("--start", "0"), 0, 10), stride = strtoull(opt("--stride", "1"), 0, 10), maxRuns = strtoull(opt("--runs", "1000000000"), 0, 10);
    double seconds = atof(opt("--seconds", "10")), t0 = now();
    const char *failFile = opt("--fail", "/tmp/fail.plan"), *outFile = opt("--out", "/dev/stdout");
    uint64_t ops[48] = {}, idle[48] = {};
    uint64_t runs = 0, steps = 0, points = 0, switches = 0, decisions = 0, threads = 0, simNs = 0, fired[FK_N] = {}, crashed = 0, reported = 0, second = 0, user[64] = {}, fileOps = 0, maxRunnable = 0, withFault = 0, spoiled = 0, multi = 0;
    uint64_t umax[64] = {};
    const size_t HN = 1 << 22; uint64_t *hs = (uint64_t *)calloc(HN, 8), nh = 0, *ht = (uint64_t *)calloc(HN, 8), nt = 0, *hx = (uint64_t *)calloc(HN, 8), nx = 0;
    auto ins = [&](uint64_t *t, uint64_t v, uint64_t &n) { if (n > HN * 3 / 4) return; if (!v) v = 1; size_t i = (v * 0x9E3779B97F4A7C15ull) >> 42; while (t[i] && t[i] != v) i = (i + 1) & (HN - 1); if (!t[i]) { t[i] = v; ++n; } };
    bool viol = false; uint64_t failSeed = 0;
    for (uint64_t i = start; !stopNow && runs < maxRuns && now() - t0 < seconds; i += stride) {
      uint64_t s = seed * 1000003ull + i;
      if (!genPlan(prop, s, has("--thorough"))) { fprintf(stderr, "no plan for seed %lu\n", (unsigned long)s); rc = 3; break; }
      runPlan(out);
      Shared *x = &area->a;
      if (has("--verbose")) fprintf(stderr, "seed %lu steps %lu points %lu %s %s\n", (unsigned long)s, (unsigned long)x->steps, (unsigned long)x->points, out.cls, out.msg);
      if (out.toolfail) { fprintf(stderr, "seed %lu: %s: %s\n", (unsigned long)s, out.cls, out.msg); rc = 3; failSeed = s; break; }
      ++runs; steps += x->steps; points += x->points; switches += x->switches; decisions += x->decisions; threads += x->threadsCreated; simNs += x->simNs; fileOps += x->fileOps;
      if (x->maxRunnable > maxRunnable) maxRunnable = x->maxRunnable;
      uint64_t f = 0;
      for (int k = 0; k < FK_N; ++k) { fired[k] += x->fired[k]; f += x->fired[k]; }
      if (f) ++withFault;
      if (x->devOverflow) ++spoiled;
      if (x->threadsCreated && x->switches > 2) ++multi;
      crashed += out.crashed; reported += out.reported; second += out.second;
      for (int k = 0; k < 64; ++k) { uint64_t v = x->user[k] + (out.second ? area->b.user[k] : 0); user[k] += v; if (v > umax[k]) umax[k] = v; }
      for (int k = 0; k < O_N; ++k) { ops[k] += x->ops[k]; idle[k] += x->opsIdle[k]; }
      ins(hs, x->schedHash, nh); ins(ht, out.hash, nt);
      if ((x->threadsCreated && x->switches > 2) || f || out.crashed) ins(hx, out.hash, nx);   // not trivial
      if (out.violation) {
        viol = true; failSeed = s;
        FILE *pf = fopen(failFile, "w"); if (pf) { fwrite(area->plan, 1, area->planLen, pf); fclose(pf); }
        break;
      }
    }
    if (*opt("--hashes", "")) {
      FILE *hf = fopen(opt("--hashes", ""), "w");
      if (hf) { for (size_t k = 0; k < HN; ++k) if (hx[k]) fwrite(&hx[k], 8, 1, hf); for (uint64_t z = 0, k = 0; k < 1; ++k) fwrite(&z, 8, 1, hf); for (size_t k = 0; k < HN; ++k) if (hs[k]) fwrite(&hs[k], 8, 1, hf); fclose(hf); }
    }
    FILE *f = fopen(outFile, "w");
    fprintf(f, "{\"runs\":%lu,\"seconds\":%.3f,\"steps\":%lu,\"points\":%lu,\"switches\":%lu,\"decisions\":%lu,\"threads\":%lu,\"simNs\":%lu,\"fileOps\":%lu,\"maxRunnable\":%lu,\"distinctSched\":%lu,\"distinctTrace\":%lu,\"crashed\":%lu,\"reported\":%lu,\"second\":%lu,\"withFault\":%lu,\"multi\":%lu,\"devOverflow\":%lu,",
            (unsigned long)runs, now() - t0, (unsigned long)steps, (unsigned long)points, (unsigned long)switches, (unsigned long)decisions, (unsigned long)threads, (unsigned long)simNs, (unsigned long)fileOps, (unsigned long)maxRunnable, (unsigned long)nh, (unsigned long)nt, (unsigned long)crashed, (unsigned long)reported, (unsigned long)second, (unsigned long)withFault, (unsigned long)multi, (unsigned long)spoiled);
    fprintf(f, "\"fired\":{"); bool first = true;
    for (int k = 1; k < FK_N; ++k) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", faultNames[k], (unsigned long)fired[k]); first = false; }
    fprintf(f, "},\"ops\":{"); first = true;
    for (int k = 0; k < O_N; ++k) if (ops[k] + idle[k]) { fprintf(f, "%s\"%s\":[%lu,%lu]", first ? "" : ",", opNames[k], (unsigned long)ops[k], (unsigned long)idle[k]); first = false; }
    fprintf(f, "},\"user\":["); for (int k = 0; k < 64; ++k) fprintf(f, "%s%lu", k ? "," : "", (unsigned long)user[k]);
    fprintf(f, "],\"userMax\":["); for (int k = 0; k < 64; ++k) fprintf(f, "%s%lu", k ? "," : "", (unsigned long)umax[k]);
    fprintf(f, "],\"violation\":%d,\"failSeed\":%lu,\"class\":", viol, (unsigned long)failSeed); jstr(f, out.cls); fprintf(f, ",\"msg\":"); jstr(f, out.msg);
    fprintf(f, "}\n"); fclose(f);
    if (viol) rc = 1;
  } else { fprintf(stderr, "usage: simrun gen|one|replay|twice|batch ...\n"); rc = 3; }
  wipe(scratch); rmdir(scratch);
  return rc;
}
