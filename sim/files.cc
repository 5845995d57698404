// File system seam. Operations on the files of the storage manager under test
// are scheduling points, can be made to fail, and are logged; everything else
// passes through.
#include "internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
static char dfd[4096];           // fd refers to a storage manager file
template <typename F> static F realF(const char *name) {
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "sim: no symbol %s\n", name); _exit(99); }
  return reinterpret_cast<F>(p);
}
#define REALF(name, type) static auto real = sim::realF<type>(#name)

void filesInit() {}

static bool isDataFile(const char *path) {
  const char *b = strrchr(path, '/');
  b = b ? b + 1 : path;
  const char *d = strrchr(b, '.');
  if (!d || d[1] != 'f' || !d[2]) return false;
  for (const char *p = d + 2; *p; ++p) if (*p < '0' || *p > '9') return false;
  return true;
}
static bool subject(const char *path, const void *pc) { return on() && path && !callerInCasa(pc) && isDataFile(path); }
static uint64_t fnv(const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *)p;
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
static int fileNo(const char *path) {
  const char *d = strrchr(path, '.');
  return d ? atoi(d + 2) : 0;
}
static unsigned char dnum[4096];
static void logRec(int fd, int kind, uint64_t off, const void *data, size_t n) {
  Shared *s = g.sh;
  size_t need = sizeof(WRec) + (kind == 0 ? ((n + 7) & ~size_t(7)) : 0);
  if (s->wlen + need > WLOG) { s->wOverflow = 1; return; }
  WRec r; r.off = off; r.len = n; r.kind = kind | (dnum[fd] << 8);
  memcpy(s->wlog + s->wlen, &r, sizeof r);
  if (kind == 0) memcpy(s->wlog + s->wlen + sizeof r, data, n);
  s->wlen += need;
}
// all transfers, for the reference model
struct IoRec { uint64_t path, off; uint32_t len; bool write; char session; };
static constexpr uint64_t NIO = 1 << 18;
static IoRec io[NIO];
static uint64_t nio, dpath[4096];
static char ioNow;
void ioSession(int s) { ioNow = s; }
static void noteIo(int fd, bool write, uint64_t off, ssize_t n) {
  if (n < 0 || (write && n == 0)) return;   // a read at the end of the file counts
  IoRec &r = io[nio++ % NIO];
  r.path = dpath[fd]; r.off = off; r.len = n; r.write = write; r.session = ioNow;
}
uint64_t lastIo(const char *path, bool write, uint64_t off, uint64_t len) {
  const uint64_t p = fnv(path, strlen(path));
  for (uint64_t i = nio, k = 0; i > 0 && k < NIO; --i, ++k) {
    const IoRec &r = io[(i - 1) % NIO];
    // streams read ahead: what counts is where a read starts
    if (r.path == p && r.write == write && (write || r.session == ioNow) && r.off < off + len && off < (write ? r.off + r.len : r.off + 1)) return i;
  }
  return 0;
}
// the file does not exist any more
void forgetIo(const char *path) {
  const uint64_t p = fnv(path, strlen(path));
  for (IoRec &r : io) if (r.path == p) r.path = 0;
}
void renameIo(const char *from, const char *to) {
  const uint64_t p = fnv(from, strlen(from)), q = fnv(to, strlen(to));
  for (IoRec &r : io) if (r.path == p) r.path = q;
  for (uint64_t &d : dpath) if (d == p) d = q;
}
// directories that are on a read-only file system
static char roDir[8][32];
void readOnlyDir(const char *name, bool ro) {
  for (auto &d : roDir) if (!strcmp(d, name)) { if (!ro) d[0] = 0; return; }
  if (ro) for (auto &d : roDir) if (!d[0]) { strncpy(d, name, sizeof d - 1); return; }
}
static bool readOnly(const char *path) {
  if (g.paused) return false;
  const char *b = strrchr(path, '/');
  if (!b) return false;
  const char *e = b;
  while (b > path && b[-1] != '/') --b;
  for (auto &d : roDir) if (d[0] && strlen(d) == size_t(e - b) && !strncmp(d, b, e - b)) { ++g.sh->user[45]; errno = EROFS; return true; }
  return false;
}
// before any operation on a data file; returns fault kind
static int dpoint(int ev, int cls, int fd, uint64_t len, int64_t *param) {
  if (g.paused) return 0;
  point(ev, (uint64_t(fd & 0xFF) << 32) ^ len);
  return nextFault(cls, len, param);
}
static void mark(int fd, const char *path, bool data) {
  if (fd >= 0 && fd < 4096) { dfd[fd] = data; dnum[fd] = data ? fileNo(path) : 0; dpath[fd] = data ? fnv(path, strlen(path)) : 0; }
}
static bool isD(int fd) { return g.active && fd >= 0 && fd < 4096 && dfd[fd]; }

static ssize_t rawRead(int fd, void *p, size_t n) { REALF(read, ssize_t (*)(int, void *, size_t)); return real(fd, p, n); }
static ssize_t rawWrite(int fd, const void *p, size_t n) { REALF(write, ssize_t (*)(int, const void *, size_t)); return real(fd, p, n); }
static ssize_t rawPread(int fd, void *p, size_t n, off_t o) { REALF(pread64, ssize_t (*)(int, void *, size_t, off_t)); return real(fd, p, n, o); }
static ssize_t rawPwrite(int fd, const void *p, size_t n, off_t o) { REALF(pwrite64, ssize_t (*)(int, const void *, size_t, off_t)); return real(fd, p, n, o); }
static off_t rawSeek(int fd, off_t o, int w) { REALF(lseek64, off_t (*)(int, off_t, int)); return real(fd, o, w); }

static ssize_t doRead(int fd, void *p, size_t n, bool pos, off_t off) {
  int64_t param;
  int k = dpoint(EV_READ, OC_READ, fd, n, &param);
  if (k == FK_READ_EIO) { errno = EIO; return -1; }
  if (k == FK_READ_EINTR) { errno = EINTR; return -1; }
  if (k == FK_READ_SHORT && param > 0 && (size_t)param < n) n = param;
  if (k == FK_KILL || k == FK_POWER) crashNow(k);
  if (!pos) off = rawSeek(fd, 0, SEEK_CUR);
  ssize_t r = pos ? rawPread(fd, p, n, off) : rawRead(fd, p, n);
  noteIo(fd, false, off, r);
  trace(EV_READ, r >= 0 ? fnv(p, r) & 0xFFFFFFFF : 0, r);
  return r;
}
static ssize_t doWrite(int fd, const void *p, size_t n, bool pos, off_t off) {
  int64_t param;
  int k = dpoint(EV_WRITE, OC_WRITE, fd, n, &param);
  if (!pos) off = rawSeek(fd, 0, SEEK_CUR);
  if (k == FK_WRITE_EIO) { errno = EIO; return -1; }
  if (k == FK_WRITE_ENOSPC) { errno = ENOSPC; return -1; }
  if (k == FK_WRITE_EINTR) { errno = EINTR; return -1; }
  if (k == FK_WRITE_SHORT && param > 0 && (size_t)param < n) n = param;
  if (k == FK_KILL || k == FK_POWER) {
    size_t t = param < 0 ? 0 : ((size_t)param > n ? n : param);
    if (t) { rawPwrite(fd, p, t, off); logRec(fd, 0, off, p, t); }
    crashNow(k);
  }
  trace(EV_WRITE, fnv(p, n) & 0xFFFFFFFF, off);
  ssize_t r = pos ? rawPwrite(fd, p, n, off) : rawWrite(fd, p, n);
  if (r > 0) { logRec(fd, 0, off, p, r); noteIo(fd, true, off, r); }
  return r;
}
static off_t doSeek(int fd, off_t o, int w) {
  int64_t param;
  int k = dpoint(EV_SEEK, OC_SEEK, fd, 0, &param);
  if (k == FK_KILL || k == FK_POWER) crashNow(k);
  return rawSeek(fd, o, w);
}
static int doSync(int fd) {
  int64_t param;
  int k = dpoint(EV_SYNC, OC_SYNC, fd, 0, &param);
  if (k == FK_SYNC_EIO) { errno = EIO; return -1; }
  if (k == FK_KILL || k == FK_POWER) crashNow(k);
  logRec(fd, 1, 0, nullptr, 0);
  g.sh->user[46]++;
  return 0;
}
// returns true if the open has to fail
static bool doOpen(const char *path) {
  int64_t param;
  if (g.paused) return false;
  (void)path;
  point(EV_OPEN, 0);
  int k = nextFault(OC_OPEN, 0, &param);
  if (k == FK_KILL || k == FK_POWER) crashNow(k);
  if (k == FK_OPEN_FAIL) { errno = EMFILE; return true; }
  return false;
}
}  // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)

extern "C" {
static int openCommon(int (*real)(const char *, int, ...), const char *path, int flags, mode_t mode, const void *pc) {
  bool d = subject(path, pc);
  if (d && doOpen(path)) return -1;
  if (d && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_CREAT))) && readOnly(path)) return -1;
  int fd = real(path, flags, mode);
  mark(fd, path, d);
  if (d && fd >= 0 && (flags & O_TRUNC)) logRec(fd, 2, 0, nullptr, 0);
  return fd;
}
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  REALF(open, int (*)(const char *, int, ...));
  return openCommon(real, path, flags, m, PC);
}
int open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
  REALF(open64, int (*)(const char *, int, ...));
  return openCommon(real, path, flags, m, PC);
}
static FILE *fopenCommon(FILE *(*real)(const char *, const char *), const char *path, const char *mode, const void *pc) {
  bool d = subject(path, pc);
  if (d && doOpen(path)) return nullptr;
  if (d && (mode[0] != 'r' || strchr(mode, '+')) && readOnly(path)) return nullptr;
  FILE *f = real(path, mode);
  if (f) { mark(fileno(f), path, d); if (d && mode[0] == 'w') logRec(fileno(f), 2, 0, nullptr, 0); }
  return f;
}
FILE *fopen(const char *path, const char *mode) { REALF(fopen, FILE *(*)(const char *, const char *)); return fopenCommon(real, path, mode, PC); }
FILE *fopen64(const char *path, const char *mode) { REALF(fopen64, FILE *(*)(const char *, const char *)); return fopenCommon(real, path, mode, PC); }
int close(int fd) {
  REALF(close, int (*)(int));
  if (isD(fd)) { if (!g.paused) point(EV_CLOSE, fd); dfd[fd] = 0; }
  return real(fd);
}
int fclose(FILE *f) {
  REALF(fclose, int (*)(FILE *));
  int fd = fileno(f);
  if (isD(fd)) { if (!g.paused) point(EV_CLOSE, fd); dfd[fd] = 0; }
  return real(f);
}
ssize_t read(int fd, void *p, size_t n) { if (!isD(fd)) return rawRead(fd, p, n); return doRead(fd, p, n, false, 0); }
ssize_t write(int fd, const void *p, size_t n) { if (!isD(fd)) return rawWrite(fd, p, n); return doWrite(fd, p, n, false, 0); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  REALF(readv, ssize_t (*)(int, const struct iovec *, int));
  if (!isD(fd)) return real(fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) {
    ssize_t r = doRead(fd, v[i].iov_base, v[i].iov_len, false, 0);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REALF(writev, ssize_t (*)(int, const struct iovec *, int));
  if (!isD(fd)) return real(fd, v, c);
  size_t n = 0;
  for (int i = 0; i < c; ++i) n += v[i].iov_len;
  char *b = (char *)::malloc(n + 1);
  size_t o = 0;
  for (int i = 0; i < c; ++i) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t r = doWrite(fd, b, n, false, 0);
  int e = errno; ::free(b); errno = e;
  return r;
}
ssize_t pread(int fd, void *p, size_t n, off_t o) { if (!isD(fd)) return rawPread(fd, p, n, o); return doRead(fd, p, n, true, o); }
ssize_t pread64(int fd, void *p, size_t n, off64_t o) { if (!isD(fd)) return rawPread(fd, p, n, o); return doRead(fd, p, n, true, o); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { if (!isD(fd)) return rawPwrite(fd, p, n, o); return doWrite(fd, p, n, true, o); }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { if (!isD(fd)) return rawPwrite(fd, p, n, o); return doWrite(fd, p, n, true, o); }
off_t lseek(int fd, off_t o, int w) noexcept { if (!isD(fd)) return rawSeek(fd, o, w); return doSeek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (!isD(fd)) return rawSeek(fd, o, w); return doSeek(fd, o, w); }
int fsync(int fd) {
  REALF(fsync, int (*)(int));
  if (!g.active) return real(fd);
  return isD(fd) ? doSync(fd) : 0;
}
int fdatasync(int fd) {
  REALF(fdatasync, int (*)(int));
  if (!g.active) return real(fd);
  return isD(fd) ? doSync(fd) : 0;
}
static int truncFault(int num, off_t len) {
  int64_t param;
  point(EV_TRUNC, len);
  int k = nextFault(OC_TRUNC, 0, &param);
  if (k == FK_KILL || k == FK_POWER) crashNow(k);
  (void)num;
  return 0;
}
int ftruncate64(int fd, off64_t n) noexcept {
  REALF(ftruncate64, int (*)(int, off64_t));
  if (isD(fd) && !g.paused) { truncFault(fd, n); logRec(fd, 2, n, nullptr, 0); }
  return real(fd, n);
}
int ftruncate(int fd, off_t n) noexcept { return ftruncate64(fd, n); }
int truncate64(const char *path, off64_t n) noexcept {
  REALF(truncate64, int (*)(const char *, off64_t));
  if (subject(path, PC) && !g.paused) {
    truncFault(0, n);
    if (readOnly(path)) return -1;
    dnum[4095] = fileNo(path); logRec(4095, 2, n, nullptr, 0);
  }
  return real(path, n);
}
int truncate(const char *path, off_t n) noexcept {
  REALF(truncate64, int (*)(const char *, off64_t));
  if (subject(path, PC) && !g.paused) {
    truncFault(0, n);
    if (readOnly(path)) return -1;
    dnum[4095] = fileNo(path); logRec(4095, 2, n, nullptr, 0);
  }
  return real(path, n);
}
}
