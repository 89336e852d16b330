/* LD_PRELOAD file system shim: journal, fault injection, scheduling points.
 *
 * Only calls on paths below a configured root directory are touched.  Driven
 * from Python through ctypes (fsshim_* functions).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096

static char g_root[PATH_MAX];
static size_t g_root_len;
static int g_mode;            /* bit 0 journal, bit 1 fault, bit 2 schedule */
static int g_jfd = -1;        /* journal file */
static long g_count;          /* fault-countable operations seen */
static long g_fail_at = -1;   /* index of the operation to fail */
static int g_fail_errno = EIO;
static int g_fail_reads;      /* count opens for reading as well */
static long g_short;          /* failing write first writes this many bytes */
static char g_failed_op[64 + PATH_MAX];
static int g_ctl_w = -1, g_ctl_r = -1;
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;
static char *g_fdpath[MAXFD]; /* paths of descriptors open for writing */
static char *g_rdpath[MAXFD]; /* ... for reading, while reads can fail */

#define REAL(ret, name, ...)                                   \
  static ret (*real_##name)(__VA_ARGS__);                      \
  if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ---- control interface ---- */
void fsshim_root(const char *root) {
  pthread_mutex_lock(&g_mu);
  snprintf(g_root, sizeof g_root, "%s", root);
  g_root_len = strlen(g_root);
  pthread_mutex_unlock(&g_mu);
}
void fsshim_off(void) { g_mode = 0; }
static int raw_open(const char *p, int fl, int m) {
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
void fsshim_journal(const char *file) {
  g_jfd = raw_open(file, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  g_mode |= 1;
}
void fsshim_journal_stop(void) {
  if (g_jfd >= 0) syscall(SYS_close, g_jfd);
  g_jfd = -1;
  g_mode &= ~1;
}
void fsshim_fault(long at, int err, int reads, long short_bytes) {
  g_count = 0; g_fail_at = at; g_fail_errno = err; g_fail_reads = reads;
  g_short = short_bytes; g_failed_op[0] = 0;
  g_mode |= 2;
}
long fsshim_fault_stop(void) { g_mode &= ~2; return g_count; }
const char *fsshim_failed_op(void) { return g_failed_op; }
void fsshim_sched(int w, int r) { g_ctl_w = w; g_ctl_r = r; g_mode |= 4; }
void fsshim_sched_stop(void) { g_mode &= ~4; }
int fsshim_present(void) { return 1; }

/* ---- helpers ---- */
static int resolve(int dirfd, const char *path, char *out) {
  if (!g_mode || !path || !g_root_len) return 0;
  char tmp[PATH_MAX * 2];
  if (path[0] == '/') {
    snprintf(tmp, sizeof tmp, "%s", path);
  } else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
      if (!getcwd(base, sizeof base)) return 0;
    } else {
      char link[64];
      snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
      ssize_t n = readlink(link, base, sizeof base - 1);
      if (n < 0) return 0;
      base[n] = 0;
    }
    snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  /* Lexical normalisation. */
  size_t o = 0;
  const char *p = tmp;
  out[0] = 0;
  while (*p) {
    while (*p == '/') p++;
    if (!*p) break;
    const char *e = strchrnul(p, '/');
    size_t n = (size_t)(e - p);
    if (n == 1 && p[0] == '.') { p = e; continue; }
    if (n == 2 && p[0] == '.' && p[1] == '.') {
      while (o > 0 && out[o - 1] != '/') o--;
      if (o > 0) o--;
      out[o] = 0; p = e; continue;
    }
    if (o + n + 2 >= PATH_MAX) return 0;
    out[o++] = '/';
    memcpy(out + o, p, n);
    o += n; out[o] = 0; p = e;
  }
  return strncmp(out, g_root, g_root_len) == 0 &&
         (out[g_root_len] == '/' || out[g_root_len] == 0);
}

static void jput(const void *p, size_t n) {
  const char *c = p;
  while (n) {
    ssize_t w = syscall(SYS_write, g_jfd, c, n);
    if (w <= 0) return;
    c += w; n -= (size_t)w;
  }
}
/* Record: u8 kind, u32 len1, path1, u32 len2, path2/data, i64 offset. */
static void jrec(char kind, const char *p1, const void *p2, size_t n2, int64_t off) {
  if (!(g_mode & 1) || g_jfd < 0) return;
  int e = errno;
  uint32_t l1 = (uint32_t)strlen(p1), l2 = (uint32_t)n2;
  pthread_mutex_lock(&g_mu);
  jput(&kind, 1); jput(&l1, 4); jput(p1, l1); jput(&l2, 4);
  if (l2) jput(p2, l2);
  jput(&off, 8);
  pthread_mutex_unlock(&g_mu);
  errno = e;
}

/* Returns 1 if the operation must fail now (errno set). */
static int fault(const char *what, const char *path) {
  if (!(g_mode & 2)) return 0;
  pthread_mutex_lock(&g_mu);
  long i = g_count++;
  int hit = i == g_fail_at;
  if (hit) snprintf(g_failed_op, sizeof g_failed_op, "%s %s", what, path);
  pthread_mutex_unlock(&g_mu);
  if (hit) errno = g_fail_errno;
  return hit;
}

static void sched2(const char *what, const char *path, const char *path2) {
  if (!(g_mode & 4)) return;
  int e = errno;
  pthread_mutex_lock(&g_mu);
  static char buf[2 * PATH_MAX + 64];
  int n = snprintf(buf, sizeof buf, "@%s\t%s\t%s\n", what, path + g_root_len,
                   path2 ? path2 + g_root_len : "");
  if (syscall(SYS_write, g_ctl_w, buf, (size_t)n) == n) {
    char c;
    while (syscall(SYS_read, g_ctl_r, &c, 1) < 0 && errno == EINTR) {}
  }
  pthread_mutex_unlock(&g_mu);
  errno = e;
}
static void sched(const char *what, const char *path) { sched2(what, path, NULL); }

static void track(int fd, const char *path) {
  if (fd < 0 || fd >= MAXFD) return;
  char *old = g_fdpath[fd];
  g_fdpath[fd] = strdup(path);
  free(old);
}
static const char *tracked(int fd) {
  return (fd >= 0 && fd < MAXFD) ? g_fdpath[fd] : NULL;
}

/* ---- open family ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char full[PATH_MAX];
  int in = resolve(dirfd, path, full);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (in) {
    sched(wr ? "create" : "read", full);
    if ((wr || g_fail_reads) && fault(wr ? "create" : "read", full)) return -1;
  }
  int existed = 1;
  struct stat st;
  if (in && wr) existed = syscall(SYS_newfstatat, dirfd, path, &st, 0) == 0;
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD && g_fdpath[fd]) { free(g_fdpath[fd]); g_fdpath[fd] = NULL; }
  if (fd >= 0 && fd < MAXFD && g_rdpath[fd]) { free(g_rdpath[fd]); g_rdpath[fd] = NULL; }
  if (fd >= 0 && fd < MAXFD && in && !wr && (g_mode & 2) && g_fail_reads)
    g_rdpath[fd] = strdup(full);
  if (fd >= 0 && in && wr) {
    track(fd, full);
    if (!existed || (flags & O_TRUNC)) jrec('c', full, NULL, 0, 0);
  }
  return fd;
}
#define OPEN_BODY(D)                                             \
  mode_t mode = 0;                                               \
  if (flags & (O_CREAT | O_TMPFILE)) {                           \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
  }                                                              \
  return do_open(D, path, flags, mode);
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(d) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(d) }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int creat(const char *path, mode_t m) {
  return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m);
}

FILE *fopen(const char *path, const char *m) {
  REAL(FILE *, fopen, const char *, const char *);
  char full[PATH_MAX];
  if (resolve(AT_FDCWD, path, full)) {
    int wr = strpbrk(m, "wa+") != NULL;
    sched(wr ? "create" : "read", full);
    if ((wr || g_fail_reads) && fault(wr ? "create" : "read", full)) return NULL;
    if (wr) {  /* Not expected from the code under test: marks the journal. */
      jrec('?', full, NULL, 0, 0);
    }
  }
  return real_fopen(path, m);
}
FILE *fopen64(const char *path, const char *m) { return fopen(path, m); }

int close(int fd) {
  const char *p = tracked(fd);
  int failed = 0;
  if (p) {
    jrec('x', p, NULL, 0, 0);
    failed = g_mode && fault("close", p);
    free(g_fdpath[fd]);
    g_fdpath[fd] = NULL;
  }
  if (fd >= 0 && fd < MAXFD && g_rdpath[fd]) { free(g_rdpath[fd]); g_rdpath[fd] = NULL; }
  int e = errno;
  int r = (int)syscall(SYS_close, fd);
  if (failed) { errno = e; return -1; }
  return r;
}

/* ---- reads ---- */
static int read_fault(int fd) {
  if (!(g_mode & 2) || !g_fail_reads || fd < 0 || fd >= MAXFD || !g_rdpath[fd]) return 0;
  return fault("pread", g_rdpath[fd]);
}
ssize_t read(int fd, void *b, size_t n) {
  if (read_fault(fd)) return -1;
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (read_fault(fd)) return -1;
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (read_fault(fd)) return -1;
  return syscall(SYS_pread64, fd, b, n, o);
}

/* ---- writes ---- */
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off) {
  const char *p = g_mode ? tracked(fd) : NULL;
  if (p) sched("write", p);
  if (p && fault("write", p)) {
    size_t s = g_short < (long)n ? (size_t)g_short : n;
    if (s) {
      int e = errno;
      if (off < 0) syscall(SYS_write, fd, buf, s); else syscall(SYS_pwrite64, fd, buf, s, off);
      errno = e;
    }
    return -1;
  }
  int64_t at = off;
  if (p && (g_mode & 1) && off < 0) {
    int fl = (int)syscall(SYS_fcntl, fd, F_GETFL);
    at = (fl & O_APPEND) ? (int64_t)syscall(SYS_lseek, fd, 0, SEEK_END)
                         : (int64_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
  }
  ssize_t r = off < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, off);
  if (p && r > 0) jrec('w', p, buf, (size_t)r, at);
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return do_write(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!(g_mode && tracked(fd))) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
static ssize_t do_pwritev(int fd, const struct iovec *v, int c, off_t o) {
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, o + t);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return do_pwritev(fd, v, c, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return do_pwritev(fd, v, c, o); }

/* Kernel side copies are refused so that callers fall back to write(). */
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
  if (g_mode && tracked(out)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  return sendfile(out, in, (off_t *)o, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
  if (g_mode && tracked(out)) { errno = EXDEV; return -1; }
  return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
}

static int do_ftruncate(int fd, off_t len) {
  const char *p = g_mode ? tracked(fd) : NULL;
  if (p && fault("truncate", p)) return -1;
  int r = (int)syscall(SYS_ftruncate, fd, len);
  if (p && r == 0) jrec('t', p, NULL, 0, len);
  return r;
}
int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_ftruncate(fd, len); }

/* ---- name space ---- */
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char fa[PATH_MAX], fb[PATH_MAX];
  int ia = resolve(d1, a, fa), ib = resolve(d2, b, fb);
  if (ia || ib) {
    if (ia && ib) sched2("rename", fb, fa);
    else sched("rename", ib ? fb : fa);
    if (fault("rename", ib ? fb : fa)) return -1;
  }
  int r = (int)syscall(SYS_renameat2, d1, a, d2, b, fl);
  if (r == 0 && (ia || ib)) jrec('r', fa, fb, strlen(fb), 0);
  return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d, const char *a, int e, const char *b) { return do_rename(d, a, e, b, 0); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return do_rename(d, a, e, b, f); }

static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
  char fa[PATH_MAX], fb[PATH_MAX];
  int ia = resolve(d1, a, fa), ib = resolve(d2, b, fb);
  if (ib) {
    sched("link", fb);
    if (fault("link", fb)) return -1;
  }
  int r = (int)syscall(SYS_linkat, d1, a, d2, b, fl);
  if (r == 0 && ia && ib) jrec('l', fa, fb, strlen(fb), 0);
  return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { return do_link(d, a, e, b, f); }

static int do_unlink(int d, const char *p, int fl) {
  char full[PATH_MAX];
  int in = resolve(d, p, full);
  if (in) {
    sched("unlink", full);
    if (fault("unlink", full)) return -1;
  }
  int r = (int)syscall(SYS_unlinkat, d, p, fl);
  if (r == 0 && in) jrec(fl & AT_REMOVEDIR ? 'R' : 'u', full, NULL, 0, 0);
  return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) {
  struct stat st;
  if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode))
    return do_unlink(AT_FDCWD, p, AT_REMOVEDIR);
  return do_unlink(AT_FDCWD, p, 0);
}
static int do_mkdir(int d, const char *p, mode_t m) {
  char full[PATH_MAX];
  int in = resolve(d, p, full);
  if (in) {
    sched("mkdir", full);
    if (fault("mkdir", full)) return -1;
  }
  int r = (int)syscall(SYS_mkdirat, d, p, m);
  if (r == 0 && in) jrec('m', full, NULL, 0, 0);
  return r;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }

/* ---- existence tests are scheduling points only ---- */
#define STAT_POINT(D, P)                        \
  if (g_mode & 4) {                             \
    char full[PATH_MAX];                        \
    if (resolve(D, P, full)) sched("stat", full); \
  }
int stat(const char *restrict p, struct stat *restrict st) {
  STAT_POINT(AT_FDCWD, p)
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int lstat(const char *restrict p, struct stat *restrict st) {
  STAT_POINT(AT_FDCWD, p)
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int fstatat(int d, const char *restrict p, struct stat *restrict st, int f) {
  STAT_POINT(d, p)
  return (int)syscall(SYS_newfstatat, d, p, st, f);
}
int access(const char *p, int m) {
  STAT_POINT(AT_FDCWD, p)
  return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}
/* Binaries built against old C libraries. */
int __xstat(int v, const char *p, struct stat *st) { (void)v; return stat(p, st); }
int __xstat64(int v, const char *p, struct stat *st) { (void)v; return stat(p, st); }
int __lxstat(int v, const char *p, struct stat *st) { (void)v; return lstat(p, st); }
int __lxstat64(int v, const char *p, struct stat *st) { (void)v; return lstat(p, st); }
int __fxstatat(int v, int d, const char *p, struct stat *st, int f) {
  (void)v; return fstatat(d, p, st, f);
}
int fsshim_stat64(const char *p, struct stat *st) __asm__("stat64");
int fsshim_stat64(const char *p, struct stat *st) { return stat(p, st); }
int fsshim_lstat64(const char *p, struct stat *st) __asm__("lstat64");
int fsshim_lstat64(const char *p, struct stat *st) { return lstat(p, st); }
int fsshim_fstatat64(int d, const char *p, struct stat *st, int f) __asm__("fstatat64");
int fsshim_fstatat64(int d, const char *p, struct stat *st, int f) { return fstatat(d, p, st, f); }
