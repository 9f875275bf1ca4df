// LD_PRELOAD shim: at the n-th file operation on a path below FAULT_DIR, fail or end the process.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static long at = -2, count = 0;
static int kind, err = ENOSPC, armed = 0;
static char dir[4096];
static void init(void) {
  if (at != -2) return;
  const char *d = getenv("FAULT_DIR"), *a = getenv("FAULT_AT"), *k = getenv("FAULT_KIND"), *e = getenv("FAULT_ERRNO");
  at = a ? atol(a) : -1;
  kind = k ? atoi(k) : 0;
  if (e) err = atoi(e);
  if (d) { strncpy(dir, d, sizeof dir - 1); armed = 1; }
}
// called by the child when the operation under test begins
void fault_arm(int on) { init(); armed = on; count = 0; }
long fault_count(void) { return count; }
static int mine(const char *p) { init(); return armed && dir[0] && p && strncmp(p, dir, strlen(dir)) == 0; }
static int mine_fd(int fd) {
  char l[64], b[4096];
  init();
  if (!armed || !dir[0]) return 0;
  int save = errno;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  errno = save;
  if (n <= 0) return 0;
  b[n] = 0;
  return strncmp(b, dir, strlen(dir)) == 0;
}
// 0: proceed, 1: fail with errno, 2: short then die (writes only), 3: do it, then die
static int now(void) {
  long c = count++;
  if (c != at) return 0;
  if (kind == 0) return 1;
  if (kind == 1) _exit(77);          // die before the operation
  if (kind == 2) return 2;
  return 3;
}
#define REAL(name) ((typeof(&name))dlsym(RTLD_NEXT, #name))
static ssize_t (*rw)(int, const void *, size_t);
ssize_t write(int fd, const void *b, size_t n) {
  if (!rw) rw = REAL(write);
  if (!mine_fd(fd)) return rw(fd, b, n);
  int r = now();
  if (r == 1) {
    // a full disk: part of the data is written, the rest fails
    static int part = 0;
    if (!part && n > 1) { part = 1; count--; return rw(fd, b, n / 2); }
    errno = err; return -1;
  }
  if (r == 2) { if (n > 1) rw(fd, b, n / 2); _exit(77); }
  ssize_t v = rw(fd, b, n);
  if (r == 3) _exit(77);
  return v;
}
#define TWO(name, decl, call, pa) \
  int name decl { \
    int r = (mine(pa)) ? now() : 0; \
    if (r == 1) { errno = err; return -1; } \
    if (r == 2) _exit(77); \
    int v = REAL(name) call; \
    if (r == 3) _exit(77); \
    return v; \
  }
TWO(rename, (const char *a, const char *b), (a, b), b)
TWO(renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), b)
TWO(link, (const char *a, const char *b), (a, b), b)
TWO(linkat, (int x, const char *a, int y, const char *b, int f), (x, a, y, b, f), b)
TWO(unlink, (const char *a), (a), a)
TWO(unlinkat, (int x, const char *a, int f), (x, a, f), a)
TWO(truncate, (const char *a, off_t n), (a, n), a)
#define FD(name, decl, call) \
  int name decl { \
    int r = mine_fd(fd) ? now() : 0; \
    if (r == 1) { errno = err; return -1; } \
    if (r == 2) _exit(77); \
    int v = REAL(name) call; \
    if (r == 3) _exit(77); \
    return v; \
  }
FD(fsync, (int fd), (fd))
FD(fdatasync, (int fd), (fd))
FD(ftruncate, (int fd, off_t n), (fd, n))
FD(ftruncate64, (int fd, off64_t n), (fd, n))
static int op(int which, int d, const char *p, int fl, mode_t m) {
  int writes = (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
  int r = (writes && mine(p)) ? now() : 0;
  if (r == 1) { errno = err; return -1; }
  if (r == 2) _exit(77);
  int v = which == 0   ? REAL(open)(p, fl, m)
          : which == 1 ? REAL(open64)(p, fl, m)
          : which == 2 ? REAL(openat)(d, p, fl, m)
                       : REAL(openat64)(d, p, fl, m);
  if (r == 3) _exit(77);
  return v;
}
#define OP(name, which, decl, d) \
  int name decl { \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    return op(which, d, p, fl, m); \
  }
OP(open, 0, (const char *p, int fl, ...), -1)
OP(open64, 1, (const char *p, int fl, ...), -1)
OP(openat, 2, (int d, const char *p, int fl, ...), d)
OP(openat64, 3, (int d, const char *p, int fl, ...), d)
