#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>
static const char *dir; static long at = -1; static int mode, err, sticky; static long n; static char mine[4096]; static int logfd = -1;
__attribute__((constructor)) static void init(void) {
  dir = getenv("VP_FAULT_DIR"); const char *s = getenv("VP_FAULT_AT"); if (s) at = atol(s);
  s = getenv("VP_FAULT_MODE"); if (s) { mode = s[0]; sticky = s[1] == 's'; }
  err = mode == 'e' ? EIO : ENOSPC;
  s = getenv("VP_FAULT_LOG"); if (s) { int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); logfd = o(s, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
}
static int hit(const char *what) {
  long k = __sync_fetch_and_add(&n, 1);
  if (logfd >= 0) { char b[64]; int l = snprintf(b, sizeof b, "%ld %s\n", k, what); ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write"); w(logfd, b, l); }
  return k == at || (sticky && at >= 0 && k > at);
}
static int ours(const char *p) { return dir && p && !strncmp(p, dir, strlen(dir)); }
static int opn(const char *name, int dfd, const char *p, int fl, mode_t m) {
  int (*o)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat");
  int w = ours(p) && (fl & (O_WRONLY | O_RDWR | O_CREAT));
  if (w && hit("open")) { errno = err; return -1; }
  int fd = o(dfd, p, fl, m);
  if (w && fd >= 0 && fd < 4096) mine[fd] = 1;
  return fd;
}
#define ARG mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { ARG return opn("open", AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { ARG return opn("open", AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { ARG return opn("open", d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { ARG return opn("open", d, p, fl, m); }
int close(int fd) { int (*c)(int) = dlsym(RTLD_NEXT, "close"); if (fd >= 0 && fd < 4096) mine[fd] = 0; return c(fd); }
ssize_t write(int fd, const void *b, size_t l) {
  ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  if (fd >= 0 && fd < 4096 && mine[fd] && hit("write")) { if (mode == 'p' && l > 1) return w(fd, b, l / 2); errno = err; return -1; }
  return w(fd, b, l);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  ssize_t (*w)(int, const struct iovec *, int) = dlsym(RTLD_NEXT, "writev");
  if (fd >= 0 && fd < 4096 && mine[fd] && hit("writev")) { if (mode == 'p') return write(fd, v[0].iov_base, v[0].iov_len); errno = err; return -1; }
  return w(fd, v, c);
}
int mkdir(const char *p, mode_t m) {
  int (*f)(const char *, mode_t) = dlsym(RTLD_NEXT, "mkdir");
  if (ours(p) && hit("mkdir")) { errno = err; return -1; }
  return f(p, m);
}
off_t lseek64(int fd, off_t o, int w) {
  off_t (*f)(int, off_t, int) = dlsym(RTLD_NEXT, "lseek64");
  if (fd >= 0 && fd < 4096 && mine[fd] && hit("lseek")) { errno = EIO; return -1; }
  return f(fd, o, w);
}
