// LD_PRELOAD: faults at chosen system calls on chosen files.
//   VF_OP    comma separated: open write rename read fsync close fopen
//   VF_PATH  substring of the path (default: every path), with a $ behind it: its end; "!1" stands for file
//            descriptor 1
//   VF_N     the first such call which is hit (from 1)
//   VF_ACT   kill | errno number | short (writes VF_BYTES bytes, then kills or fails) | delay
//            | part (the first write writes VF_BYTES bytes and waits VF_US; the others are left alone)
//   VF_BYTES bytes written before the fault (for short)
//   VF_US    delay in microseconds
//   VF_WAIT  the delay ends when this file exists
//   VF_ONCE  1: only the n-th call, otherwise all from the n-th on
//   VF_LOG   file to which each matching write is appended as "<requested> <result>"
//   VF_NET   file to which "dial <address> <port>" and "listen <address> <port>" are appended
//   VF_CA    file which is opened in the place of the system's certificates
//   VF_COUNT file to which the number of matching calls is appended when each happens
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static atomic_int calls;

static int has_op(const char* op) {
  const char* e = getenv("VF_OP");
  size_t      n = strlen(op);
  while (e && *e) {
    const char* c = strchr(e, ',');
    size_t      m = c ? (size_t)(c - e) : strlen(e);
    if (m == n && !strncmp(e, op, n)) return 1;
    e = c ? c + 1 : 0;
  }
  return 0;
}
static int path_ok(const char* p) {
  const char* e = getenv("VF_PATH");
  size_t      n = e ? strlen(e) : 0, m = p ? strlen(p) : 0;
  if (n && e[n - 1] == '$') return m >= n - 1 && !strncmp(p + m - (n - 1), e, n - 1);
  return !n || (p && strstr(p, e));
}
static int fd_ok(int fd) {
  const char* e = getenv("VF_PATH");
  char        l[64], b[4096];
  if (e && e[0] == '!') return fd == atoi(e + 1);
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  if (n < 0) return 0;
  b[n] = 0;
  if (b[0] != '/') return 0; // pipes, sockets
  return path_ok(b);
}
// 0: carry on, 1: fault now
static int hit(void) {
  int         n = atomic_fetch_add(&calls, 1) + 1;
  const char *e = getenv("VF_N"), *o = getenv("VF_ONCE"), *c = getenv("VF_COUNT");
  int         k = e ? atoi(e) : 1;
  if (c) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, c, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) {
      syscall(SYS_write, fd, "x", 1);
      syscall(SYS_close, fd);
    }
  }
  if (k <= 0) return 0;
  return o && *o == '1' ? n == k : n >= k;
}
static const char* act(void) {
  const char* a = getenv("VF_ACT");
  return a ? a : "0";
}
static void snooze(void) {
  const char *u = getenv("VF_US"), *w = getenv("VF_WAIT");
  long        t = u ? atol(u) : 1000;
  if (!w) {
    usleep(t);
    return;
  }
  for (; t > 0 && syscall(SYS_faccessat, AT_FDCWD, w, F_OK) != 0; t -= 1000) usleep(1000);
}
static int fault(void) { // returns the errno, 0: none
  const char* a = act();
  if (!strcmp(a, "kill")) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
  }
  if (!strcmp(a, "delay")) {
    snooze();
    return 0;
  }
  return atoi(a);
}
#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = dlsym(RTLD_NEXT, #name);

static void note_read(ssize_t r) { // VF_READS: file to which the result of each matching read is appended
  const char* c = getenv("VF_READS");
  char        l[32];
  int         e = errno;
  if (!c) return;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, c, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) {
    syscall(SYS_write, fd, l, snprintf(l, sizeof l, "%zd\n", r));
    syscall(SYS_close, fd);
  }
  errno = e;
}
static void note(size_t n, ssize_t w) {
  const char* c = getenv("VF_LOG");
  char        l[64];
  int         e = errno;
  if (!c) return;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, c, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) {
    syscall(SYS_write, fd, l, snprintf(l, sizeof l, "%zu %zd\n", n, w));
    syscall(SYS_close, fd);
  }
  errno = e;
}
static ssize_t do_write2(int fd, const void* p, size_t n, ssize_t (*real)(int, const void*, size_t)) {
  if (has_op("write") && fd_ok(fd) && hit()) {
    if (!strcmp(act(), "part")) {
      const char*       b = getenv("VF_BYTES");
      size_t            m = b ? (size_t)atol(b) : 0;
      static atomic_int once;
      if (atomic_exchange(&once, 1) == 0 && m > 0) {
        ssize_t w = real(fd, p, m < n ? m : n);
        snooze();
        return w;
      }
      return real(fd, p, n);
    }
    if (!strncmp(act(), "short", 5)) {
      const char* b = getenv("VF_BYTES");
      size_t      m = b ? (size_t)atol(b) : 0;
      static atomic_int done;
      if (atomic_exchange(&done, 1) == 0 && m > 0 && m < n) {
        ssize_t w = real(fd, p, m);
        if (!strcmp(act(), "shortkill")) {
          syscall(SYS_kill, getpid(), SIGKILL);
          for (;;) pause();
        }
        return w;
      }
      if (!strcmp(act(), "shortkill")) {
        syscall(SYS_kill, getpid(), SIGKILL);
        for (;;) pause();
      }
      errno = ENOSPC;
      return -1;
    }
    int e = fault();
    if (e) {
      errno = e;
      return -1;
    }
  }
  return real(fd, p, n);
}
static ssize_t do_write(int fd, const void* p, size_t n, ssize_t (*real)(int, const void*, size_t)) {
  int     log = getenv("VF_LOG") && has_op("write") && fd_ok(fd);
  ssize_t w   = do_write2(fd, p, n, real);
  if (log) note(n, w);
  return w;
}
ssize_t write(int fd, const void* p, size_t n) {
  REAL(ssize_t, write, int, const void*, size_t)
  return do_write(fd, p, n, real);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(ssize_t, writev, int, const struct iovec*, int)
  if (has_op("write") && fd_ok(fd)) {
    // one after the other
    ssize_t sum = 0;
    for (int i = 0; i < c; i++) {
      if (!v[i].iov_len) continue;
      ssize_t w = write(fd, v[i].iov_base, v[i].iov_len);
      if (w < 0) return sum ? sum : -1;
      sum += w;
      if ((size_t)w < v[i].iov_len) break;
    }
    return sum;
  }
  return real(fd, v, c);
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) {
  REAL(ssize_t, pwrite, int, const void*, size_t, off_t)
  if (has_op("write") && fd_ok(fd) && hit()) {
    int e = fault();
    if (e) {
      errno = e;
      return -1;
    }
  }
  return real(fd, p, n, o);
}
ssize_t read(int fd, void* p, size_t n) {
  REAL(ssize_t, read, int, void*, size_t)
  if (has_op("read") && fd_ok(fd) && hit()) {
    int e = fault();
    if (e) {
      errno = e;
      return -1;
    }
  }
  ssize_t r = real(fd, p, n);
  if (getenv("VF_READS") && has_op("read") && fd_ok(fd)) note_read(r);
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  REAL(ssize_t, readv, int, const struct iovec*, int)
  if (has_op("read") && fd_ok(fd) && hit()) {
    int e = fault();
    if (e) {
      errno = e;
      return -1;
    }
  }
  ssize_t r = real(fd, v, c);
  if (getenv("VF_READS") && has_op("read") && fd_ok(fd)) note_read(r);
  return r;
}
int rename(const char* a, const char* b) {
  REAL(int, rename, const char*, const char*)
  if (has_op("rename") && (path_ok(a) || path_ok(b)) && hit()) {
    int e = fault();
    if (e) {
      errno = e;
      return -1;
    }
  }
  return real(a, b);
}
static int open_fault(const char* p, const char* op) {
  if (has_op(op) && path_ok(p) && hit()) return fault();
  return 0;
}
static const char* ca(const char* p) {
  const char *e = getenv("VF_CA"), *n = "ca-certificates.crt";
  return e && p && strlen(p) > strlen(n) && !strcmp(p + strlen(p) - strlen(n), n) ? e : p;
}
#define OPENBODY(name) \
  int mode = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { \
    va_list ap; \
    va_start(ap, fl); \
    mode = va_arg(ap, int); \
    va_end(ap); \
  } \
  if ((fl & O_ACCMODE) != O_RDONLY) { \
    int e = open_fault(p, "open"); \
    if (e) { \
      errno = e; \
      return -1; \
    } \
  }
int open(const char* p, int fl, ...) {
  REAL(int, open, const char*, int, ...)
  OPENBODY(open)
  return real(ca(p), fl, mode);
}
int open64(const char* p, int fl, ...) {
  REAL(int, open64, const char*, int, ...)
  OPENBODY(open64)
  return real(ca(p), fl, mode);
}
FILE* fopen(const char* p, const char* m) {
  REAL(FILE*, fopen, const char*, const char*)
  if (m[0] != 'r' || strchr(m, '+')) {
    int e = open_fault(p, "open");
    if (e) {
      errno = e;
      return 0;
    }
  }
  return real(ca(p), m);
}
FILE* fopen64(const char* p, const char* m) {
  REAL(FILE*, fopen64, const char*, const char*)
  if (m[0] != 'r' || strchr(m, '+')) {
    int e = open_fault(p, "open");
    if (e) {
      errno = e;
      return 0;
    }
  }
  return real(ca(p), m);
}
int close(int fd) {
  REAL(int, close, int)
  if (has_op("close") && fd_ok(fd) && hit()) {
    int e = fault();
    if (e) {
      real(fd);
      errno = e;
      return -1;
    }
  }
  return real(fd);
}

static void note_net(const char* what, const struct sockaddr* a) {
  const char* c = getenv("VF_NET");
  char        h[64] = "?", l[128];
  int         e = errno, port = 0;
  if (!c || !a) return;
  if (a->sa_family == AF_INET) {
    inet_ntop(AF_INET, &((const struct sockaddr_in*)a)->sin_addr, h, sizeof h);
    port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  } else if (a->sa_family == AF_INET6) {
    inet_ntop(AF_INET6, &((const struct sockaddr_in6*)a)->sin6_addr, h, sizeof h);
    port = ntohs(((const struct sockaddr_in6*)a)->sin6_port);
  } else {
    return; // within this machine
  }
  int fd = (int)syscall(SYS_openat, AT_FDCWD, c, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) {
    syscall(SYS_write, fd, l, snprintf(l, sizeof l, "%s %s %d\n", what, h, port));
    syscall(SYS_close, fd);
  }
  errno = e;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
  REAL(int, connect, int, const struct sockaddr*, socklen_t)
  note_net("dial", a);
  return real(fd, a, n);
}
ssize_t sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr* a, socklen_t m) {
  REAL(ssize_t, sendto, int, const void*, size_t, int, const struct sockaddr*, socklen_t)
  note_net("dial", a);
  return real(fd, p, n, fl, a, m);
}
int listen(int fd, int n) {
  REAL(int, listen, int, int)
  int r = real(fd, n);
  if (r == 0) {
    struct sockaddr_storage a;
    socklen_t               m = sizeof a;
    if (getsockname(fd, (struct sockaddr*)&a, &m) == 0) note_net("listen", (struct sockaddr*)&a);
  }
  return r;
}
