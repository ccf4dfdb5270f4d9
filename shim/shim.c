/* Preloaded into git-branchless and the Git processes it starts: reports each
 * file operation of interest to a controller over a Unix socket before it is
 * carried out, and waits for permission.
 *
 *   GBSHIM_SOCK   the controller's socket
 *   GBSHIM_DIR    only files below this directory are of interest
 *   GBSHIM_MODE   "fs": everything that modifies files
 *                 "db": everything done with the event log's database
 *   GBSHIM_ACTOR  name under which the process and its children report
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int sock = -1;
static pid_t sock_pid = 0;
static const char *dir, *actor;
static size_t dir_len;
static int mode; /* 0 off, 1 fs, 2 db */
static int ready;
static __thread int uses_db;

#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void setup(void) {
  if (ready) return;
  ready = 1;
  dir = getenv("GBSHIM_DIR");
  actor = getenv("GBSHIM_ACTOR");
  const char *m = getenv("GBSHIM_MODE");
  if (dir && m && getenv("GBSHIM_SOCK")) {
    dir_len = strlen(dir);
    mode = !strcmp(m, "fs") ? 1 : !strcmp(m, "db") ? 2 : 0;
  }
  if (!actor) actor = "-";
}

static int connect_controller(void) {
  struct sockaddr_un a;
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, getenv("GBSHIM_SOCK"), sizeof a.sun_path - 1);
  int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (s < 0) return -1;
  /* out of the way of descriptors handed to children */
  int hi = fcntl(s, F_DUPFD_CLOEXEC, 200);
  if (hi >= 0) {
    syscall(SYS_close, s);
    s = hi;
  }
  if (connect(s, (struct sockaddr *)&a, sizeof a) < 0) {
    syscall(SYS_close, s);
    return -1;
  }
  return s;
}

static void report(const char *op, const char *path) {
  char buf[PATH_MAX + 128];
  int saved = errno;
  pthread_mutex_lock(&lock);
  if (sock < 0 || sock_pid != getpid()) {
    if (sock >= 0) syscall(SYS_close, sock);
    sock = connect_controller();
    sock_pid = getpid();
  }
  if (sock >= 0) {
    int n = snprintf(buf, sizeof buf, "%s %d %s %s\n", actor, (int)getpid(), op, path);
    if (syscall(SYS_write, sock, buf, n) == n) {
      char c;
      long r;
      do r = syscall(SYS_read, sock, &c, 1);
      while (r < 0 && errno == EINTR);
      if (r <= 0) _exit(137);
    }
  }
  pthread_mutex_unlock(&lock);
  errno = saved;
}

static int interesting(const char *p) {
  if (strncmp(p, dir, dir_len)) return 0;
  if (mode == 2) {
    const char *b = strrchr(p, '/');
    return b && !strncmp(b, "/db.sqlite3", 11);
  }
  return 1;
}

static const char *absolute(int at, const char *path, char *buf) {
  if (!path) return NULL;
  if (path[0] == '/') return path;
  char base[PATH_MAX];
  if (at == AT_FDCWD) {
    if (syscall(SYS_getcwd, base, sizeof base) < 0) return NULL;
  } else {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", at);
    ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1);
    if (n < 0) return NULL;
    base[n] = 0;
  }
  snprintf(buf, PATH_MAX, "%s/%s", base, path);
  return buf;
}

static void on_path(const char *op, int at, const char *path) {
  char buf[PATH_MAX];
  setup();
  if (!mode) return;
  const char *p = absolute(at, path, buf);
  if (p && interesting(p)) report(op, p);
}

static void on_fd(const char *op, int fd) {
  char l[64], buf[PATH_MAX];
  setup();
  if (!mode || fd == sock) return;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlink, l, buf, sizeof buf - 1);
  if (n <= 0) return;
  buf[n] = 0;
  if (buf[0] == '/' && interesting(buf)) report(op, buf);
}

static void on_open(int at, const char *path, int flags) {
  setup();
  if (mode == 2 || (mode == 1 && (flags & (O_CREAT | O_TRUNC))))
    on_path(flags & (O_CREAT | O_TRUNC) ? "create" : "open", at, path);
}

#define MODE_ARG(flags) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap; \
    va_start(ap, flags); \
    m = va_arg(ap, mode_t); \
    va_end(ap); \
  }

int open(const char *p, int f, ...) {
  REAL(open);
  MODE_ARG(f)
  on_open(AT_FDCWD, p, f);
  return real(p, f, m);
}
int open64(const char *p, int f, ...) {
  REAL(open64);
  MODE_ARG(f)
  on_open(AT_FDCWD, p, f);
  return real(p, f, m);
}
int openat(int d, const char *p, int f, ...) {
  REAL(openat);
  MODE_ARG(f)
  on_open(d, p, f);
  return real(d, p, f, m);
}
int openat64(int d, const char *p, int f, ...) {
  REAL(openat64);
  MODE_ARG(f)
  on_open(d, p, f);
  return real(d, p, f, m);
}
int creat(const char *p, mode_t m) {
  REAL(creat);
  on_open(AT_FDCWD, p, O_CREAT);
  return real(p, m);
}
FILE *fopen(const char *p, const char *m) {
  REAL(fopen);
  if (strpbrk(m, "wa+")) on_open(AT_FDCWD, p, O_CREAT);
  return real(p, m);
}
FILE *fopen64(const char *p, const char *m) {
  REAL(fopen64);
  if (strpbrk(m, "wa+")) on_open(AT_FDCWD, p, O_CREAT);
  return real(p, m);
}
int fclose(FILE *f) {
  REAL(fclose);
  setup();
  if (mode == 1 && f && fileno(f) >= 0) {
    int fl = fcntl(fileno(f), F_GETFL);
    if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) on_fd("fclose", fileno(f));
  }
  return real(f);
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(write);
  on_fd("write", fd);
  return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(pwrite);
  on_fd("pwrite", fd);
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(pwrite64);
  on_fd("pwrite", fd);
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(writev);
  on_fd("writev", fd);
  return real(fd, v, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
  REAL(copy_file_range);
  on_fd("copy", o);
  return real(i, io, o, oo, n, fl);
}
int ftruncate(int fd, off_t n) {
  REAL(ftruncate);
  on_fd("truncate", fd);
  return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
  REAL(ftruncate64);
  on_fd("truncate", fd);
  return real(fd, n);
}
int truncate(const char *p, off_t n) {
  REAL(truncate);
  on_path("truncate", AT_FDCWD, p);
  return real(p, n);
}
int rename(const char *a, const char *b) {
  REAL(rename);
  on_path("rename", AT_FDCWD, b);
  return real(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
  REAL(renameat);
  on_path("rename", y, b);
  return real(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned f) {
  REAL(renameat2);
  on_path("rename", y, b);
  return real(x, a, y, b, f);
}
int unlink(const char *p) {
  REAL(unlink);
  on_path("unlink", AT_FDCWD, p);
  return real(p);
}
int unlinkat(int d, const char *p, int f) {
  REAL(unlinkat);
  on_path("unlink", d, p);
  return real(d, p, f);
}
int remove(const char *p) {
  REAL(remove);
  on_path("unlink", AT_FDCWD, p);
  return real(p);
}
int mkdir(const char *p, mode_t m) {
  REAL(mkdir);
  on_path("mkdir", AT_FDCWD, p);
  return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL(mkdirat);
  on_path("mkdir", d, p);
  return real(d, p, m);
}
int rmdir(const char *p) {
  REAL(rmdir);
  on_path("rmdir", AT_FDCWD, p);
  return real(p);
}
int link(const char *a, const char *b) {
  REAL(link);
  on_path("link", AT_FDCWD, b);
  return real(a, b);
}
int linkat(int x, const char *a, int y, const char *b, int f) {
  REAL(linkat);
  on_path("link", y, b);
  return real(x, a, y, b, f);
}
int symlink(const char *a, const char *b) {
  REAL(symlink);
  on_path("symlink", AT_FDCWD, b);
  return real(a, b);
}
int symlinkat(const char *a, int d, const char *b) {
  REAL(symlinkat);
  on_path("symlink", d, b);
  return real(a, d, b);
}

/* only of interest for schedules */
static int lock_op(int cmd) { return cmd == F_SETLK || cmd == F_SETLKW; }
int fcntl(int fd, int cmd, ...) {
  REAL(fcntl);
  va_list ap;
  va_start(ap, cmd);
  void *a = va_arg(ap, void *);
  va_end(ap);
  setup();
  if (mode == 2) uses_db = 1;
  if (mode == 2 && lock_op(cmd))
    on_fd(((struct flock *)a)->l_type == F_UNLCK ? "unlock" : "lock", fd);
  return real(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
  REAL(fcntl64);
  va_list ap;
  va_start(ap, cmd);
  void *a = va_arg(ap, void *);
  va_end(ap);
  setup();
  if (mode == 2) uses_db = 1;
  if (mode == 2 && lock_op(cmd))
    on_fd(((struct flock *)a)->l_type == F_UNLCK ? "unlock" : "lock", fd);
  return real(fd, cmd, a);
}
int fsync(int fd) {
  REAL(fsync);
  setup();
  if (mode == 2) on_fd("fsync", fd);
  return mode ? 0 : real(fd);
}
int fdatasync(int fd) {
  REAL(fdatasync);
  setup();
  if (mode == 2) on_fd("fsync", fd);
  return mode ? 0 : real(fd);
}

/* SQLite waiting for a lock: let somebody else run instead */
static int waits(void) {
  setup();
  if (mode != 2 || !uses_db) return 0;
  report("sleep", "-");
  return 1;
}
int usleep(useconds_t n) {
  REAL(usleep);
  return waits() ? 0 : real(n);
}
unsigned sleep(unsigned n) {
  REAL(sleep);
  return waits() ? 0 : real(n);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  REAL(nanosleep);
  return waits() ? 0 : real(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  REAL(clock_nanosleep);
  return waits() ? 0 : real(c, f, a, b);
}
