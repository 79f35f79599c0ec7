/* libc interposer for the torchrir process simulator.
 *
 * Inactive until shim_activate() is called in a forked node. From then on every
 * file-system call on a path below the run's scratch root parks the calling
 * process: a request goes to the controller over a SOCK_SEQPACKET socket and
 * the call proceeds, fails, is cut short or kills the process as the reply
 * says. Mutations outside the scratch root are refused (EACCES) and reported.
 * Clock, pid, randomness and sleeping are virtual while active.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#ifndef __x86_64__
#error "shim.c is written for x86_64"
#endif

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) \
  raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static long ret_errno(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

enum {
  OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_FTRUNC, OP_RENAME,
  OP_UNLINK, OP_RMDIR, OP_MKDIR, OP_LINK, OP_SYMLINK, OP_MKNOD, OP_CHMOD,
  OP_CHOWN, OP_UTIME, OP_STAT, OP_OPENDIR, OP_LOCK, OP_FSYNC, OP_TRUNC,
  OP_READLINK, OP_ESCAPE, OP_SLEEP, OP_COPY, OP_MISC
};
enum { A_PROCEED = 0, A_FAIL, A_SHORT, A_CRASH, A_TORN, A_SEED };

struct req {
  uint32_t op;
  int32_t last_err; /* errno of the previous operation, 0 = ok */
  int64_t last_ret;
  int64_t a, b, c;
  uint32_t len1, len2;
};
struct rep {
  uint32_t action;
  uint32_t pad;
  int64_t arg;
  int64_t now_ns;
};

static volatile int g_active;
static int g_sock = -1;
static char g_root[PATH_MAX];
static size_t g_rootlen;
static int g_vpid;
static int64_t g_now_ns;
static uint64_t g_rand = 1;
static int64_t g_last_ret;
static int32_t g_last_err;
static pthread_mutex_t g_mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
#define MAXFD 4096
static char *g_fd[MAXFD];

static char *xstrdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}

static void die(const char *msg) {
  RAW(SYS_write, 2, msg, strlen(msg));
  RAW(SYS_exit_group, 97);
}

static struct rep call(int op, int64_t a, int64_t b, int64_t c, const char *p1,
                       const char *p2) {
  char buf[sizeof(struct req) + 2 * PATH_MAX];
  struct req q;
  struct rep r;
  size_t l1 = p1 ? strlen(p1) : 0, l2 = p2 ? strlen(p2) : 0;
  if (l1 >= PATH_MAX) l1 = PATH_MAX - 1;
  if (l2 >= PATH_MAX) l2 = PATH_MAX - 1;
  memset(&q, 0, sizeof q);
  q.op = op;
  q.last_err = g_last_err;
  q.last_ret = g_last_ret;
  q.a = a;
  q.b = b;
  q.c = c;
  q.len1 = l1;
  q.len2 = l2;
  memcpy(buf, &q, sizeof q);
  memcpy(buf + sizeof q, p1 ? p1 : "", l1);
  memcpy(buf + sizeof q + l1, p2 ? p2 : "", l2);
  long n = RAW(SYS_sendto, g_sock, buf, sizeof q + l1 + l2, MSG_NOSIGNAL, 0, 0);
  if (n < 0) die("shim: controller gone\n");
  do {
    n = RAW(SYS_recvfrom, g_sock, &r, sizeof r, 0, 0, 0);
  } while (n == -EINTR);
  if (n != (long)sizeof r) die("shim: bad reply\n");
  g_now_ns = r.now_ns;
  g_last_ret = 0;
  g_last_err = 0;
  if (r.action == A_CRASH) {
    { long self_ = RAW(SYS_getpid); RAW(SYS_kill, self_, SIGKILL); }
    for (;;) pause();
  }
  return r;
}

static void done(long r) {
  if (r < 0 && r > -4096) {
    g_last_err = (int32_t)-r;
    g_last_ret = -1;
  } else {
    g_last_err = 0;
    g_last_ret = r;
  }
}

/* ---- path resolution ---------------------------------------------------- */
static void lexnorm(char *p) {
  /* normalise an absolute path in place: drop //, /., /.. */
  char out[PATH_MAX];
  size_t o = 0;
  char *s = p;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 1 && s[0] == '.') {
    } else if (n == 2 && s[0] == '.' && s[1] == '.') {
      while (o > 0 && out[o - 1] != '/') o--;
      if (o > 0) o--;
    } else if (o + n + 2 < PATH_MAX) {
      out[o++] = '/';
      memcpy(out + o, s, n);
      o += n;
    }
    s = e;
  }
  if (o == 0) out[o++] = '/';
  out[o] = 0;
  strcpy(p, out);
}

static int has_prefix(const char *p) {
  return strncmp(p, g_root, g_rootlen) == 0 &&
         (p[g_rootlen] == 0 || p[g_rootlen] == '/');
}

/* Resolve (dirfd, path) to an absolute path with symlinks in the parent
 * resolved (and the last component too when follow != 0). */
static int resolve(int dirfd, const char *path, int follow, char *out) {
  char tmp[PATH_MAX * 2];
  if (!path) return -1;
  if (path[0] == '/') {
    snprintf(tmp, PATH_MAX, "%s", path);
  } else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
      long n = RAW(SYS_getcwd, base, sizeof base);
      if (n < 0) return -1;
    } else {
      char link[64];
      snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
      long n = RAW(SYS_readlinkat, AT_FDCWD, link, base, sizeof base - 1);
      if (n < 0) return -1;
      base[n] = 0;
      /* the kernel marks a removed directory; its path is still where it was */
      if (n > 10 && !strcmp(base + n - 10, " (deleted)")) base[n - 10] = 0;
    }
    if (path[0] == 0)
      snprintf(tmp, sizeof tmp, "%s", base);
    else
      snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  tmp[PATH_MAX - 1] = 0;
  if (follow) {
    if (realpath(tmp, out)) return 0;
  }
  /* split off the last component */
  size_t n = strlen(tmp);
  while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
  char *slash = strrchr(tmp, '/');
  const char *last = slash ? slash + 1 : tmp;
  if (slash && strcmp(last, "..") != 0 && strcmp(last, ".") != 0) {
    char parent[PATH_MAX], rp[PATH_MAX];
    size_t pn = slash - tmp;
    if (pn == 0) pn = 1;
    memcpy(parent, tmp, pn);
    parent[pn] = 0;
    if (realpath(parent, rp)) {
      int w = snprintf(out, PATH_MAX, "%s/%s", strcmp(rp, "/") ? rp : "", last);
      if (w < PATH_MAX) {
        if (follow) {
          /* dangling symlink: follow one level so creation through it is seen */
          char l[PATH_MAX];
          long k = RAW(SYS_readlinkat, AT_FDCWD, out, l, sizeof l - 1);
          if (k > 0) {
            l[k] = 0;
            char t2[PATH_MAX * 2];
            if (l[0] == '/')
              snprintf(t2, sizeof t2, "%s", l);
            else
              snprintf(t2, sizeof t2, "%s/%s", rp, l);
            t2[PATH_MAX - 1] = 0;
            lexnorm(t2);
            strcpy(out, t2);
          }
        }
        return 0;
      }
    }
  }
  /* nothing there yet: resolve the longest part that exists */
  char head[PATH_MAX], hp[PATH_MAX];
  snprintf(head, sizeof head, "%s", tmp);
  for (char *cut; (cut = strrchr(head, '/')) != NULL && cut != head;) {
    *cut = 0;
    if (realpath(head, hp)) {
      int w = snprintf(out, PATH_MAX, "%s%s", strcmp(hp, "/") ? hp : "", tmp + (cut - head));
      if (w < PATH_MAX) {
        lexnorm(out);
        return 0;
      }
      break;
    }
  }
  snprintf(out, PATH_MAX, "%s", tmp);
  lexnorm(out);
  return 0;
}

static int allowed_outside(const char *p) {
  return strncmp(p, "/dev/null", 9) == 0 || strncmp(p, "/proc/self/", 11) == 0 ||
         strncmp(p, "/dev/tty", 8) == 0;
}

static const char *fdpath(int fd) {
  return (fd >= 0 && fd < MAXFD) ? g_fd[fd] : NULL;
}
static void fdset_path(int fd, const char *p) {
  if (fd < 0 || fd >= MAXFD) return;
  free(g_fd[fd]);
  g_fd[fd] = p ? xstrdup(p) : NULL;
}

#define LOCK() pthread_mutex_lock(&g_mu)
#define UNLOCK() pthread_mutex_unlock(&g_mu)

/* kind: 0 = read-only op, 1 = mutation. Returns 1 if the op must be sent to
 * the controller, 0 for pass-through, -1 if it is refused. */
static int classify(int dirfd, const char *path, int follow, int mutate, int op,
                    char *out) {
  if (!g_active || !path) return 0;
  if (!mutate && path[0] == '/' && strncmp(path, g_root, g_rootlen) != 0) return 0;
  if (resolve(dirfd, path, follow, out) != 0) return 0;
  if (has_prefix(out)) return 1;
  if (!mutate || allowed_outside(out)) return 0;
  LOCK();
  call(OP_ESCAPE, op, 0, 0, out, NULL);
  UNLOCK();
  errno = EACCES;
  return -1;
}

/* ---- public control ------------------------------------------------------ */
int shim_activate(int sock, const char *root, int vpid, uint64_t seed,
                  int64_t now_ns) {
  for (int i = 0; i < MAXFD; i++) {
    free(g_fd[i]);
    g_fd[i] = NULL;
  }
  g_sock = sock;
  snprintf(g_root, sizeof g_root, "%s", root);
  g_rootlen = strlen(g_root);
  g_vpid = vpid;
  g_rand = seed ? seed : 1;
  g_now_ns = now_ns;
  g_last_ret = 0;
  g_last_err = 0;
  g_active = 1;
  return 0;
}
int shim_deactivate(void) {
  g_active = 0;
  return 0;
}
int shim_present(void) { return 1; }
void shim_set_now(int64_t ns) { g_now_ns = ns; }

/* ---- open family --------------------------------------------------------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char rp[PATH_MAX];
  int mutate = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0;
  int follow = !(flags & O_NOFOLLOW);
  if ((flags & O_CREAT) && (flags & O_EXCL)) follow = 0;
  int k = classify(dirfd, path, follow, mutate, OP_OPEN, rp);
  if (k < 0) return -1;
  if (k == 0) return (int)ret_errno(RAW(SYS_openat, dirfd, path, flags, mode));
  LOCK();
  struct rep r = call(OP_OPEN, flags, mode, 0, rp, NULL);
  long fd;
  if (r.action == A_FAIL)
    fd = -r.arg;
  else
    fd = RAW(SYS_openat, dirfd, path, flags, mode);
  done(fd < 0 ? fd : 0);
  if (fd >= 0) fdset_path((int)fd, rp);
  UNLOCK();
  return (int)ret_errno(fd);
}
#define GETMODE(flags)                              \
  mode_t mode = 0;                                  \
  if ((flags) & (O_CREAT | __O_TMPFILE)) {          \
    va_list ap;                                     \
    va_start(ap, flags);                            \
    mode = va_arg(ap, int);                         \
    va_end(ap);                                     \
  }
int open(const char *p, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE(flags) return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  const char *p = g_active ? fdpath(fd) : NULL;
  if (!p) return (int)ret_errno(RAW(SYS_close, fd));
  LOCK();
  struct rep r = call(OP_CLOSE, 0, 0, 0, p, NULL);
  long x = RAW(SYS_close, fd);
  if (r.action == A_FAIL) x = -r.arg; /* the descriptor is gone, the error is reported */
  done(x);
  fdset_path(fd, NULL);
  UNLOCK();
  return (int)ret_errno(x);
}

static ssize_t do_rw(int op, long nr, int fd, void *buf, size_t n, off_t off, int haspos) {
  const char *p = g_active ? fdpath(fd) : NULL;
  if (!p) return ret_errno(RAW(nr, fd, buf, n, off));
  LOCK();
  struct rep r = call(op, 0, (int64_t)n, haspos ? off : op == OP_WRITE ? RAW(SYS_lseek, fd, 0, SEEK_CUR) : -1, p, NULL);
  long x;
  if (r.action == A_FAIL)
    x = -r.arg;
  else {
    size_t m = n;
    if ((r.action == A_SHORT || r.action == A_TORN) && (size_t)r.arg < n) m = (size_t)r.arg;
    x = RAW(nr, fd, buf, m, off);
    if (r.action == A_TORN) {
      { long self_ = RAW(SYS_getpid); RAW(SYS_kill, self_, SIGKILL); }
      for (;;) pause();
    }
  }
  done(x);
  UNLOCK();
  return ret_errno(x);
}
ssize_t read(int fd, void *b, size_t n) { return do_rw(OP_READ, SYS_read, fd, b, n, 0, 0); }
ssize_t write(int fd, const void *b, size_t n) { return do_rw(OP_WRITE, SYS_write, fd, (void *)b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_rw(OP_READ, SYS_pread64, fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_rw(OP_READ, SYS_pread64, fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_rw(OP_WRITE, SYS_pwrite64, fd, (void *)b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_rw(OP_WRITE, SYS_pwrite64, fd, (void *)b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!(g_active && fdpath(fd))) return ret_errno(RAW(SYS_readv, fd, v, c));
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    ssize_t x = read(fd, v[i].iov_base, v[i].iov_len);
    if (x < 0) return t ? t : x;
    t += x;
    if ((size_t)x < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!(g_active && fdpath(fd))) return ret_errno(RAW(SYS_writev, fd, v, c));
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    ssize_t x = write(fd, v[i].iov_base, v[i].iov_len);
    if (x < 0) return t ? t : x;
    t += x;
    if ((size_t)x < v[i].iov_len) break;
  }
  return t;
}
off_t lseek(int fd, off_t o, int w) { return ret_errno(RAW(SYS_lseek, fd, o, w)); }
off_t lseek64(int fd, off_t o, int w) { return ret_errno(RAW(SYS_lseek, fd, o, w)); }

static int do_ftrunc(int fd, off_t len) {
  const char *p = g_active ? fdpath(fd) : NULL;
  if (!p) return (int)ret_errno(RAW(SYS_ftruncate, fd, len));
  LOCK();
  struct rep r = call(OP_FTRUNC, 0, len, 0, p, NULL);
  long x = r.action == A_FAIL ? -r.arg : RAW(SYS_ftruncate, fd, len);
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
int ftruncate(int fd, off_t l) { return do_ftrunc(fd, l); }
int ftruncate64(int fd, off_t l) { return do_ftrunc(fd, l); }
static int do_sync(int fd, long nr) {
  const char *p = g_active ? fdpath(fd) : NULL;
  if (!p) return (int)ret_errno(RAW(nr, fd));
  LOCK();
  struct rep r = call(OP_FSYNC, 0, 0, 0, p, NULL);
  long x = r.action == A_FAIL ? -r.arg : 0;
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

/* ---- one-path mutations -------------------------------------------------- */
static int one(int op, int dirfd, const char *path, int follow, long nr, long a1,
               long a2, long a3, long a4, long a5, int64_t info) {
  char rp[PATH_MAX];
  int k = classify(dirfd, path, follow, 1, op, rp);
  if (k < 0) return -1;
  if (k == 0) return (int)ret_errno(RAW(nr, a1, a2, a3, a4, a5));
  LOCK();
  struct rep r = call(op, info, 0, 0, rp, NULL);
  long x = r.action == A_FAIL ? -r.arg : RAW(nr, a1, a2, a3, a4, a5);
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
int mkdir(const char *p, mode_t m) { return one(OP_MKDIR, AT_FDCWD, p, 0, SYS_mkdirat, AT_FDCWD, (long)p, m, 0, 0, m); }
int mkdirat(int d, const char *p, mode_t m) { return one(OP_MKDIR, d, p, 0, SYS_mkdirat, d, (long)p, m, 0, 0, m); }
int unlink(const char *p) { return one(OP_UNLINK, AT_FDCWD, p, 0, SYS_unlinkat, AT_FDCWD, (long)p, 0, 0, 0, 0); }
int rmdir(const char *p) { return one(OP_RMDIR, AT_FDCWD, p, 0, SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR, 0, 0, 0); }
int unlinkat(int d, const char *p, int fl) {
  return one((fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, p, 0, SYS_unlinkat, d, (long)p, fl, 0, 0, fl);
}
int remove(const char *p) {
  int r = unlink(p);
  if (r != 0 && errno == EISDIR) r = rmdir(p);
  return r;
}
int chmod(const char *p, mode_t m) { return one(OP_CHMOD, AT_FDCWD, p, 1, SYS_fchmodat, AT_FDCWD, (long)p, m, 0, 0, m); }
int fchmodat(int d, const char *p, mode_t m, int fl) { return one(OP_CHMOD, d, p, 1, SYS_fchmodat, d, (long)p, m, 0, 0, m); }
int fchmod(int fd, mode_t m) {
  const char *p = g_active ? fdpath(fd) : NULL;
  if (!p) return (int)ret_errno(RAW(SYS_fchmod, fd, m));
  LOCK();
  struct rep r = call(OP_CHMOD, m, 0, 0, p, NULL);
  long x = r.action == A_FAIL ? -r.arg : RAW(SYS_fchmod, fd, m);
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
int chown(const char *p, uid_t u, gid_t g) { return one(OP_CHOWN, AT_FDCWD, p, 1, SYS_fchownat, AT_FDCWD, (long)p, u, g, 0, 0); }
int lchown(const char *p, uid_t u, gid_t g) { return one(OP_CHOWN, AT_FDCWD, p, 0, SYS_fchownat, AT_FDCWD, (long)p, u, g, AT_SYMLINK_NOFOLLOW, 0); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int fl) { return one(OP_CHOWN, d, p, !(fl & AT_SYMLINK_NOFOLLOW), SYS_fchownat, d, (long)p, u, g, fl, 0); }
int mknod(const char *p, mode_t m, dev_t d) { return one(OP_MKNOD, AT_FDCWD, p, 0, SYS_mknodat, AT_FDCWD, (long)p, m, d, 0, m); }
int mknodat(int dd, const char *p, mode_t m, dev_t d) { return one(OP_MKNOD, dd, p, 0, SYS_mknodat, dd, (long)p, m, d, 0, m); }
int __xmknod(int v, const char *p, mode_t m, dev_t *d) { return mknod(p, m, d ? *d : 0); }
int __xmknodat(int v, int dd, const char *p, mode_t m, dev_t *d) { return mknodat(dd, p, m, d ? *d : 0); }
int mkfifo(const char *p, mode_t m) { return mknod(p, (m & 07777) | S_IFIFO, 0); }
int mkfifoat(int d, const char *p, mode_t m) { return mknodat(d, p, (m & 07777) | S_IFIFO, 0); }
int utimensat(int d, const char *p, const struct timespec ts[2], int fl) {
  if (!p) return (int)ret_errno(RAW(SYS_utimensat, d, p, ts, fl));
  return one(OP_UTIME, d, p, !(fl & AT_SYMLINK_NOFOLLOW), SYS_utimensat, d, (long)p, (long)ts, fl, 0, 0);
}
int futimens(int fd, const struct timespec ts[2]) { return (int)ret_errno(RAW(SYS_utimensat, fd, 0, ts, 0)); }
int utimes(const char *p, const struct timeval tv[2]) {
  struct timespec ts[2];
  if (tv) for (int i = 0; i < 2; i++) { ts[i].tv_sec = tv[i].tv_sec; ts[i].tv_nsec = tv[i].tv_usec * 1000; }
  return utimensat(AT_FDCWD, p, tv ? ts : NULL, 0);
}
int truncate(const char *p, off_t l) { return one(OP_TRUNC, AT_FDCWD, p, 1, SYS_truncate, (long)p, l, 0, 0, 0, l); }
int truncate64(const char *p, off_t l) { return truncate(p, l); }

/* ---- two-path mutations -------------------------------------------------- */
static int two(int op, int d1, const char *p1, int chk1, int d2, const char *p2, long nr, long a1, long a2,
               long a3, long a4, long a5) {
  char r1[PATH_MAX], r2[PATH_MAX];
  int k1 = 0, k2;
  if (chk1) {
    k1 = classify(d1, p1, 0, 1, op, r1);
    if (k1 < 0) return -1;
  } else
    snprintf(r1, sizeof r1, "%s", p1 ? p1 : "");
  k2 = classify(d2, p2, 0, 1, op, r2);
  if (k2 < 0) return -1;
  if (k1 == 0 && k2 == 0) return (int)ret_errno(RAW(nr, a1, a2, a3, a4, a5));
  LOCK();
  struct rep r = call(op, 0, 0, 0, r1, r2);
  long x = r.action == A_FAIL ? -r.arg : RAW(nr, a1, a2, a3, a4, a5);
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
int rename(const char *a, const char *b) { return two(OP_RENAME, AT_FDCWD, a, 1, AT_FDCWD, b, SYS_renameat2, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return two(OP_RENAME, d1, a, 1, d2, b, SYS_renameat2, d1, (long)a, d2, (long)b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return two(OP_RENAME, d1, a, 1, d2, b, SYS_renameat2, d1, (long)a, d2, (long)b, fl); }
int link(const char *a, const char *b) { return two(OP_LINK, AT_FDCWD, a, 1, AT_FDCWD, b, SYS_linkat, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return two(OP_LINK, d1, a, 1, d2, b, SYS_linkat, d1, (long)a, d2, (long)b, fl); }
int symlink(const char *t, const char *p) { return two(OP_SYMLINK, AT_FDCWD, t, 0, AT_FDCWD, p, SYS_symlinkat, (long)t, AT_FDCWD, (long)p, 0, 0); }
int symlinkat(const char *t, int d, const char *p) { return two(OP_SYMLINK, AT_FDCWD, t, 0, d, p, SYS_symlinkat, (long)t, d, (long)p, 0, 0); }

/* ---- stat family --------------------------------------------------------- */
static int do_stat(int dirfd, const char *path, void *st, int fl) {
  char rp[PATH_MAX];
  if (!g_active || !path || (path[0] == 0 && (fl & AT_EMPTY_PATH)))
    return (int)ret_errno(RAW(SYS_newfstatat, dirfd, path, st, fl));
  int k = classify(dirfd, path, 0, 0, OP_STAT, rp);
  if (k <= 0) return (int)ret_errno(RAW(SYS_newfstatat, dirfd, path, st, fl));
  LOCK();
  struct rep r = call(OP_STAT, fl, 0, 0, rp, NULL);
  long x = r.action == A_FAIL ? -r.arg : RAW(SYS_newfstatat, dirfd, path, st, fl);
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, s, f); }
int __xstat(int v, const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int __xstat64(int v, const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, 0); }
int __lxstat(int v, const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int __lxstat64(int v, const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int __fxstatat(int v, int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f); }
int __fxstatat64(int v, int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, s, f); }
static int do_access(int d, const char *p, int m, int fl) {
  char rp[PATH_MAX];
  int k = classify(d, p, 0, 0, OP_STAT, rp);
  if (k <= 0) return (int)ret_errno(RAW(SYS_faccessat, d, p, m));
  LOCK();
  struct rep r = call(OP_STAT, -1, m, 0, rp, NULL);
  long x = r.action == A_FAIL ? -r.arg : RAW(SYS_faccessat, d, p, m);
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
int access(const char *p, int m) { return do_access(AT_FDCWD, p, m, 0); }
int faccessat(int d, const char *p, int m, int f) { return do_access(d, p, m, f); }

/* ---- directory listing --------------------------------------------------- */
struct vdir {
  DIR *real;
  int n, pos, loaded;
  struct dirent64 **ents;
  char path[PATH_MAX];
  struct vdir *next;
};
static struct vdir *g_dirs;
static DIR *(*real_opendir)(const char *);
static DIR *(*real_fdopendir)(int);
static struct dirent64 *(*real_readdir64)(DIR *);
static int (*real_closedir)(DIR *);
static void (*real_rewinddir)(DIR *);
static void init_dir(void) {
  if (real_opendir) return;
  real_fdopendir = dlsym(RTLD_NEXT, "fdopendir");
  real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  real_closedir = dlsym(RTLD_NEXT, "closedir");
  real_rewinddir = dlsym(RTLD_NEXT, "rewinddir");
  real_opendir = dlsym(RTLD_NEXT, "opendir");
}
static struct vdir *vfind(DIR *d) {
  for (struct vdir *v = g_dirs; v; v = v->next)
    if (v->real == d) return v;
  return NULL;
}
static uint64_t rnd(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static int cmpent(const void *a, const void *b) {
  return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
static DIR *track_dir(DIR *d, const char *rp) {
  struct vdir *v = calloc(1, sizeof *v);
  v->real = d;
  snprintf(v->path, sizeof v->path, "%s", rp);
  v->next = g_dirs;
  g_dirs = v;
  return d;
}
static void load_dir(struct vdir *v) {
  int cap = 64;
  v->ents = malloc(cap * sizeof *v->ents);
  struct dirent64 *e;
  while ((e = real_readdir64(v->real))) {
    if (v->n == cap) v->ents = realloc(v->ents, (cap *= 2) * sizeof *v->ents);
    struct dirent64 *c = malloc(sizeof *c);
    memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
    v->ents[v->n++] = c;
  }
  qsort(v->ents, v->n, sizeof *v->ents, cmpent);
  v->loaded = 1;
}
DIR *opendir(const char *p) {
  char rp[PATH_MAX];
  init_dir();
  int k = classify(AT_FDCWD, p, 1, 0, OP_OPENDIR, rp);
  if (k <= 0) return real_opendir(p);
  LOCK();
  struct rep r = call(OP_OPENDIR, 0, 0, 0, rp, NULL);
  DIR *d = NULL;
  if (r.action == A_FAIL) {
    done(-r.arg);
    errno = (int)r.arg;
  } else {
    d = real_opendir(p);
    done(d ? 0 : -errno);
    if (d) {
      int e = errno;
      struct vdir *v;
      track_dir(d, rp);
      v = g_dirs;
      load_dir(v);
      if (r.action == A_SEED) {
        uint64_t s = (uint64_t)r.arg;
        for (int i = v->n - 1; i > 0; i--) {
          int j = (int)(rnd(&s) % (uint64_t)(i + 1));
          struct dirent64 *t = v->ents[i];
          v->ents[i] = v->ents[j];
          v->ents[j] = t;
        }
      }
      errno = e;
    }
  }
  UNLOCK();
  return d;
}
DIR *fdopendir(int fd) {
  init_dir();
  char link[64], base[PATH_MAX];
  long n = -1;
  if (g_active) {
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = RAW(SYS_readlinkat, AT_FDCWD, link, base, sizeof base - 1);
    if (n > 0) base[n] = 0;
  }
  if (n <= 0 || !has_prefix(base)) return real_fdopendir(fd);
  LOCK();
  struct rep r = call(OP_OPENDIR, 1, 0, 0, base, NULL);
  DIR *d = NULL;
  if (r.action == A_FAIL) {
    done(-r.arg);
    errno = (int)r.arg;
  } else {
    d = real_fdopendir(fd);
    done(d ? 0 : -errno);
    if (d) {
      fdset_path(fd, NULL);
      track_dir(d, base);
      load_dir(g_dirs);
      if (r.action == A_SEED) {
        struct vdir *v = g_dirs;
        uint64_t s = (uint64_t)r.arg;
        for (int i = v->n - 1; i > 0; i--) {
          int j = (int)(rnd(&s) % (uint64_t)(i + 1));
          struct dirent64 *t = v->ents[i];
          v->ents[i] = v->ents[j];
          v->ents[j] = t;
        }
      }
    }
  }
  UNLOCK();
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  init_dir();
  struct vdir *v = g_active ? vfind(d) : NULL;
  if (!v) return real_readdir64(d);
  if (v->pos >= v->n) return NULL;
  return v->ents[v->pos++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) {
  init_dir();
  struct vdir *v = vfind(d);
  if (v) v->pos = 0;
  real_rewinddir(d);
}
int closedir(DIR *d) {
  init_dir();
  struct vdir **pp = &g_dirs;
  while (*pp) {
    if ((*pp)->real == d) {
      struct vdir *v = *pp;
      *pp = v->next;
      for (int i = 0; i < v->n; i++) free(v->ents[i]);
      free(v->ents);
      free(v);
      break;
    }
    pp = &(*pp)->next;
  }
  return real_closedir(d);
}

/* ---- descriptors, locks, copies ----------------------------------------- */
int dup(int fd) {
  long x = RAW(SYS_dup, fd);
  if (g_active && x >= 0 && fdpath(fd)) fdset_path((int)x, fdpath(fd));
  return (int)ret_errno(x);
}
int dup2(int a, int b) {
  long x = RAW(SYS_dup2, a, b);
  if (g_active && x >= 0 && a != b) fdset_path((int)x, fdpath(a));
  return (int)ret_errno(x);
}
int dup3(int a, int b, int f) {
  long x = RAW(SYS_dup3, a, b, f);
  if (g_active && x >= 0) fdset_path((int)x, fdpath(a));
  return (int)ret_errno(x);
}
int flock(int fd, int op) {
  const char *p = g_active ? fdpath(fd) : NULL;
  if (!p) return (int)ret_errno(RAW(SYS_flock, fd, op));
  LOCK();
  int64_t tries = 0;
  long x;
  for (;;) {
    struct rep r = call(OP_LOCK, op, tries, 0, p, NULL);
    if (r.action == A_FAIL) {
      x = -r.arg;
      break;
    }
    x = RAW(SYS_flock, fd, op | LOCK_NB);
    done(x);
    if ((x == -EWOULDBLOCK) && !(op & LOCK_NB)) {
      tries++;
      continue;
    }
    break;
  }
  done(x);
  UNLOCK();
  return (int)ret_errno(x);
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (g_active && fdpath(fd)) {
    if (cmd == F_SETLKW || cmd == F_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_SETLK) {
      int wait = (cmd == F_SETLKW || cmd == F_OFD_SETLKW);
      int nb = (cmd == F_SETLKW) ? F_SETLK : (cmd == F_OFD_SETLKW) ? F_OFD_SETLK : cmd;
      struct flock *fl = (struct flock *)arg;
      int64_t tries = 0;
      long x;
      LOCK();
      for (;;) {
        struct rep r = call(OP_LOCK, fl->l_type == F_UNLCK ? LOCK_UN : fl->l_type == F_RDLCK ? LOCK_SH : LOCK_EX,
                            tries, 1, fdpath(fd), NULL);
        if (r.action == A_FAIL) {
          x = -r.arg;
          break;
        }
        x = RAW(SYS_fcntl, fd, nb, arg);
        done(x);
        if ((x == -EAGAIN || x == -EACCES) && wait) {
          tries++;
          continue;
        }
        break;
      }
      done(x);
      UNLOCK();
      return (int)ret_errno(x);
    }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
      long x = RAW(SYS_fcntl, fd, cmd, arg);
      if (x >= 0) fdset_path((int)x, fdpath(fd));
      return (int)ret_errno(x);
    }
  }
  return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg));
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, a);
}
int lockf(int fd, int cmd, off_t len) {
  struct flock fl;
  memset(&fl, 0, sizeof fl);
  fl.l_whence = SEEK_CUR;
  fl.l_len = len;
  fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return do_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, (long)&fl);
}
int lockf64(int fd, int cmd, off_t len) { return lockf(fd, cmd, len); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  if (g_active && (fdpath(o) || fdpath(i))) {
    errno = EINVAL; /* force the read/write fallback, which is observed */
    return -1;
  }
  return ret_errno(RAW(SYS_sendfile, o, i, off, n));
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned f) {
  if (g_active) {
    errno = EXDEV;
    return -1;
  }
  return ret_errno(RAW(SYS_copy_file_range, i, io, o, oo, n, f));
}

/* ---- clock, pid, randomness ---------------------------------------------- */
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (g_active && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE ||
                   c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME)) {
    int64_t t = g_now_ns;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += 1700000000LL * 1000000000LL;
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
  }
  return (int)ret_errno(RAW(SYS_clock_gettime, c, ts));
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) {
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
  }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static int vsleep(int64_t ns) {
  LOCK();
  call(OP_SLEEP, ns, 0, 0, NULL, NULL);
  UNLOCK();
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *rem) {
  if (g_active) {
    int64_t ns = q->tv_sec * 1000000000LL + q->tv_nsec;
    if (fl & TIMER_ABSTIME) {
      struct timespec now;
      clock_gettime(c, &now);
      ns -= now.tv_sec * 1000000000LL + now.tv_nsec;
      if (ns < 0) ns = 0;
    }
    return vsleep(ns);
  }
  long r = RAW(SYS_clock_nanosleep, c, fl, q, rem);
  return (int)-r;
}
int nanosleep(const struct timespec *q, struct timespec *rem) {
  if (g_active) return vsleep(q->tv_sec * 1000000000LL + q->tv_nsec);
  return (int)ret_errno(RAW(SYS_nanosleep, q, rem));
}
int usleep(useconds_t u) {
  struct timespec q = {u / 1000000, (u % 1000000) * 1000};
  return nanosleep(&q, NULL);
}
pid_t getpid(void) { return g_active ? g_vpid : (pid_t)RAW(SYS_getpid); }
int kill(pid_t p, int s) {
  if (g_active) {
    if (p == g_vpid) {
      long self_ = RAW(SYS_getpid);
      return (int)ret_errno(RAW(SYS_kill, self_, s));
    }
    errno = s == 0 ? ESRCH : EPERM;
    return -1;
  }
  return (int)ret_errno(RAW(SYS_kill, p, s));
}
static void fillrand(void *b, size_t n) {
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(rnd(&g_rand) >> 24);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (g_active) {
    fillrand(b, n);
    return (ssize_t)n;
  }
  return ret_errno(RAW(SYS_getrandom, b, n, f));
}
int getentropy(void *b, size_t n) {
  if (g_active) {
    fillrand(b, n);
    return 0;
  }
  return ret_errno(RAW(SYS_getrandom, b, n, 0)) < 0 ? -1 : 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_active && n == SYS_getrandom) {
    fillrand((void *)a, (size_t)b);
    return b;
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}
