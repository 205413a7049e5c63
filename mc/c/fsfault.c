/* File-system fault injection: counts the operations on files under a prefix (mkdir, open for writing, write, close of such a
   file, rename, unlink) and makes chosen ones fail.  Controlled through the fsf_* functions (ctypes). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#define NFD 4096
static char prefix[4096];
static size_t plen;
static int armed;
static long count, hits;
static long at[8];
static int kind[8]; /* 0 fail, 1 torn write, 2 this and everything after fails, 3 mkdir: another process was first */
static int nat, sticky;
static char tracked[NFD];
static char logbuf[1 << 16]; /* one letter per operation */

void fsf_prefix(const char *p) { strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix); }
void fsf_arm(const long *a, const int *k, int n) {
  nat = n > 8 ? 8 : n;
  for (int i = 0; i < nat; i++) { at[i] = a[i]; kind[i] = k[i]; }
  count = hits = 0; sticky = 0; armed = 1;
}
void fsf_disarm(void) { armed = 0; sticky = 0; memset(tracked, 0, sizeof tracked); }
long fsf_count(void) { return count; }
long fsf_hits(void) { return hits; }
const char *fsf_log(void) { logbuf[count < (long)sizeof logbuf - 1 ? count : (long)sizeof logbuf - 1] = 0; return logbuf; }

static int under(const char *p) {
  char b[8192];
  if (!armed || !plen || !p) return 0;
  if (p[0] != '/') {
    if (!getcwd(b, 4096)) return 0;
    size_t n = strlen(b);
    snprintf(b + n, sizeof b - n, "/%s", p);
    p = b;
  }
  return strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || p[plen] == 0);
}

/* -1: go on; otherwise the kind of the fault */
static int step(char c) {
  long i = count++;
  if (i < (long)sizeof logbuf - 1) logbuf[i] = c;
  if (sticky) { hits++; return 0; }
  for (int k = 0; k < nat; k++)
    if (at[k] == i) { hits++; if (kind[k] == 2) sticky = 1; return kind[k] == 2 ? 0 : kind[k]; }
  return -1;
}

#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

static void track(int fd) { if (fd >= 0 && fd < NFD) tracked[fd] = 1; }

#define OPENBODY(name, callreal)                                   \
  va_list ap; va_start(ap, fl);                                    \
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
  va_end(ap);                                                      \
  REAL(name);                                                      \
  int w = (fl & (O_WRONLY | O_RDWR | O_CREAT)) && under(p);        \
  if (w && step('o') >= 0) { errno = ENOSPC; return -1; }          \
  int fd = callreal;                                               \
  if (w) track(fd);                                                \
  return fd;

int open(const char *p, int fl, ...) { OPENBODY(open, real(p, fl, m)) }
int open64(const char *p, int fl, ...) { OPENBODY(open64, real(p, fl, m)) }
int openat(int d, const char *p, int fl, ...) { OPENBODY(openat, real(d, p, fl, m)) }
int openat64(int d, const char *p, int fl, ...) { OPENBODY(openat64, real(d, p, fl, m)) }
int mkdir(const char *p, mode_t m) {
  REAL(mkdir);
  int k = under(p) ? step('d') : -1;
  if (k == 3) { if (!real(p, m)) errno = EEXIST; return -1; }
  if (k >= 0) { errno = EACCES; return -1; }
  return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL(mkdirat);
  int k = under(p) ? step('d') : -1;
  if (k == 3) { if (!real(d, p, m)) errno = EEXIST; return -1; }
  if (k >= 0) { errno = EACCES; return -1; }
  return real(d, p, m);
}
int rename(const char *a, const char *b) {
  REAL(rename);
  if (under(b) && step('r') >= 0) { errno = ENOSPC; return -1; }
  return real(a, b);
}
int unlink(const char *p) {
  REAL(unlink);
  if (under(p) && step('u') >= 0) { errno = EACCES; return -1; }
  return real(p);
}
ssize_t write(int fd, const void *buf, size_t n) {
  REAL(write);
  if (armed && fd >= 0 && fd < NFD && tracked[fd]) {
    if (tracked[fd] == 2) { errno = ENOSPC; return -1; } /* after a torn write */
    int k = step('w');
    if (k == 1) { tracked[fd] = 2; n = n / 2; if (!n) { errno = ENOSPC; return -1; } }
    else if (k == 0) { errno = ENOSPC; return -1; }
  }
  return real(fd, buf, n);
}
int close(int fd) {
  REAL(close);
  if (fd >= 0 && fd < NFD && tracked[fd]) {
    tracked[fd] = 0;
    if (armed && step('c') >= 0) { real(fd); errno = EIO; return -1; }
  }
  return real(fd);
}
