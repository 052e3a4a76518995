// LD_PRELOAD shim: numbers every file-system operation of the process that touches SHIM_DIR and applies one planned action.
// SHIM_DIR   scratch prefix; SHIM_LOG  operation log (appended)
// SHIM_PLAN  "<n>:<action>[:<arg>]": before operation n
//   fail:<errno>       the operation fails with errno (only once)
//   failall:<errno>    this and every later write operation fails with errno
//   short              a write transfers only 1 byte
//   kill               SIGKILL (crash)
//   create:<path>      a competitor exclusively creates <path>
//   pause:<path>       creates <path>.paused and waits until <path>.go exists
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_int counter;
static _Atomic unsigned char infd[4096];
static char *dir, *logp;
static size_t dirlen;
static int plan_n = -1, plan_errno;
static char plan_act[16], *plan_arg;
static int logfd = -1;

__attribute__((constructor)) static void init(void) {
  dir = getenv("SHIM_DIR");
  logp = getenv("SHIM_LOG");
  dirlen = dir ? strlen(dir) : 0;
  if (logp) logfd = syscall(SYS_openat, AT_FDCWD, logp, O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
  char *p = getenv("SHIM_PLAN");
  if (p && *p) {
    p = strdup(p);
    plan_n = atoi(p);
    char *a = strchr(p, ':');
    if (a) {
      a++;
      char *b = strchr(a, ':');
      if (b) *b++ = 0;
      plan_arg = b ? b : "";
      strncpy(plan_act, a, 15);
      plan_errno = atoi(plan_arg);
    }
  }
}
static int scoped(const char *path) { return dirlen && path && path[0] == '/' && strncmp(path, dir, dirlen) == 0; }
static int scopedfd(int fd) { return fd >= 0 && fd < 4096 && infd[fd]; }

enum { K_READ = 0, K_MUT = 1, K_WRITE = 2 };
// returns: 0 proceed, >0 errno to fail with, -1 short write
static int op(const char *name, const char *path, int kind) {
  int n = atomic_fetch_add(&counter, 1);
  if (logfd >= 0) {
    char buf[600];
    int l = snprintf(buf, sizeof buf, "%d %s %d %s\n", n, name, kind, path ? path : "");
    if (l > (int)sizeof buf) l = sizeof buf;
    syscall(SYS_write, logfd, buf, l);
  }
  if (plan_n < 0) return 0;
  if (!strcmp(plan_act, "failall")) return (n >= plan_n && kind == K_WRITE) ? plan_errno : 0;
  if (n != plan_n) return 0;
  if (!strcmp(plan_act, "fail")) return kind >= K_MUT ? plan_errno : 0;
  if (!strcmp(plan_act, "short")) return kind == K_WRITE ? -1 : 0;
  if (!strcmp(plan_act, "kill")) {
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) ;
  }
  if (!strcmp(plan_act, "create")) {
    int fd = syscall(SYS_openat, AT_FDCWD, plan_arg, O_CREAT | O_EXCL | O_WRONLY, 0644);
    const char *r = "refused";
    if (fd >= 0) {
      syscall(SYS_write, fd, "COMPETITOR", 10);
      syscall(SYS_close, fd);
      r = "created";
    }
    if (logfd >= 0) {
      char buf[64];
      int l = snprintf(buf, sizeof buf, "%d competitor %s\n", n, r);
      syscall(SYS_write, logfd, buf, l);
    }
    return 0;
  }
  if (!strcmp(plan_act, "pause")) {
    char a[4096], b[4096];
    snprintf(a, sizeof a, "%s.paused", plan_arg);
    snprintf(b, sizeof b, "%s.go", plan_arg);
    int fd = syscall(SYS_openat, AT_FDCWD, a, O_CREAT | O_WRONLY, 0644);
    if (fd >= 0) syscall(SYS_close, fd);
    while (syscall(SYS_faccessat, AT_FDCWD, b, F_OK) != 0) usleep(500);
  }
  return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name);
#define CHECK(nm, path, kind) do { int e = op(nm, path, kind); if (e > 0) { errno = e; return -1; } } while (0)

static void mark(int fd, int on) { if (fd >= 0 && fd < 4096) infd[fd] = on; }
#define OPENBODY(call) \
  int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
  int s = scoped(path); \
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); \
  if (s) CHECK((flags & O_CREAT) ? "create" : (w ? "openw" : "open"), path, w ? K_MUT : K_READ); \
  int fd = call; \
  if (fd >= 0) mark(fd, s && w); \
  return fd;
int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...) OPENBODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...) OPENBODY(real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...) OPENBODY(real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...) OPENBODY(real(d, path, flags, mode)) }
int close(int fd) { REAL(int, close, int) mark(fd, 0); return real(fd); }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t)
  if (scopedfd(fd)) { int e = op("write", 0, K_WRITE); if (e > 0) { errno = e; return -1; } if (e < 0 && n > 1) n = 1; }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int)
  if (scopedfd(fd)) { int e = op("writev", 0, K_WRITE); if (e > 0) { errno = e; return -1; }
    if (e < 0) for (int i = 0; i < c; i++) if (v[i].iov_len > 1) return write(fd, v[i].iov_base, 1); }
  return real(fd, v, c);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
  if (scopedfd(fd)) { int e = op("pwrite", 0, K_WRITE); if (e > 0) { errno = e; return -1; } if (e < 0 && n > 1) n = 1; }
  return real(fd, b, n, o);
}
int ftruncate64(int fd, off64_t l) { REAL(int, ftruncate64, int, off64_t) if (scopedfd(fd)) CHECK("ftruncate", 0, K_MUT); return real(fd, l); }
int ftruncate(int fd, off_t l) { REAL(int, ftruncate, int, off_t) if (scopedfd(fd)) CHECK("ftruncate", 0, K_MUT); return real(fd, l); }
int fsync(int fd) { REAL(int, fsync, int) if (scopedfd(fd)) CHECK("fsync", 0, K_MUT); return real(fd); }
int fdatasync(int fd) { REAL(int, fdatasync, int) if (scopedfd(fd)) CHECK("fdatasync", 0, K_MUT); return real(fd); }
int flock(int fd, int o) { REAL(int, flock, int, int) if (scopedfd(fd)) CHECK("flock", 0, K_MUT); return real(fd, o); }
int futimens(int fd, const struct timespec t[2]) { REAL(int, futimens, int, const struct timespec *) if (scopedfd(fd)) CHECK("futimens", 0, K_MUT); return real(fd, t); }
int unlink(const char *p) { REAL(int, unlink, const char *) if (scoped(p)) CHECK("unlink", p, K_MUT); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int) if (scoped(p)) CHECK("unlinkat", p, K_MUT); return real(d, p, f); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *) if (scoped(a) || scoped(b)) CHECK("rename", b, K_MUT); return real(a, b); }
int renameat2(int d, const char *a, int e2, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned) if (scoped(a) || scoped(b)) CHECK("renameat2", b, K_MUT); return real(d, a, e2, b, f); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t) if (scoped(p)) CHECK("mkdir", p, K_MUT); return real(p, m); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b) {
  REAL(int, statx, int, const char *, int, unsigned, struct statx *)
  if (scoped(p)) CHECK("statx", p, K_READ);
  return real(d, p, f, m, b);
}
char *realpath(const char *restrict p, char *restrict r) {
  REAL(char *, realpath, const char *, char *)
  if (scoped(p)) op("realpath", p, K_READ);
  return real(p, r);
}
