// Preloaded into the simulator's Python (and into what it executes): every system call on a path below the scratch root
// or on standard output is numbered in one shared counter; the plan in shared memory says which numbers fail, and how.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

enum { OPEN, CREATE, READ, WRITE, CLOSE, OPENDIR, READDIR, STAT, RENAME, UNLINK, MKDIR, SYNC, TRUNC, LINK, CHMOD, KINDS };
enum { NOFAULT, FAIL, SHORT, INTR, KILL, KILL_AFTER, KILL_TORN };

struct plan {
  int op, action, err, fired;
};
struct shm {
  int on;          // the simulated process only
  int count;       // operations so far
  int stdout_too;  // standard output is counted as well
  int nplans;
  struct plan plan[8];
  int nlog;
  struct {
    unsigned char kind, what, action, pad;
    int err;
    char name[56];
  } log[4000];
  char root[256];
};

static struct shm* S;
static unsigned char tracked[4096];  // 1: read side, 2: written, 3: stdout
static char fdname[4096][56];
static __thread int inside;
static int quiet;  // a shell's subshells look at their working directory next to each other: not counted

#define REAL(name) ((__typeof__(&name))real(#name))
static void* real(const char* n) { return dlsym(RTLD_NEXT, n); }

struct shm* fault_map(const char* path) {
  int (*o)(const char*, int, ...) = real("open");
  int fd = o(path, O_RDWR | O_CREAT, 0600);
  if (fd < 0) return 0;
  if (ftruncate(fd, sizeof(struct shm)) != 0) return 0;
  struct shm* s = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  int (*c)(int) = real("close");
  c(fd);
  return S = s == MAP_FAILED ? 0 : s;
}
void fault_forget(void) { memset(tracked, 0, sizeof tracked); }
void fault_stdout(void) { tracked[1] = 3, strcpy(fdname[1], "stdout"); }
size_t fault_size(void) { return sizeof(struct shm); }

__attribute__((constructor)) static void init(void) {
  const char* p = getenv("SIM_FAULT_SHM");
  quiet = getenv("SIM_FAULT_QUIET") != 0;
  if (p && fault_map(p) && S->stdout_too && getenv("SIM_FAULT_STDOUT")) fault_stdout();
}

static int below(const char* p) {
  if (!S || !S->on || inside || !p) return 0;
  if (p[0] == '/') {
    size_t n = strlen(S->root);
    return strncmp(p, S->root, n) == 0 && (p[n] == '/' || !p[n]);
  }
  char cwd[512];
  if (!getcwd(cwd, sizeof cwd)) return 0;
  size_t n = strlen(S->root);
  return strncmp(cwd, S->root, n) == 0 && (cwd[n] == '/' || !cwd[n]);
}

// Returns the action for this operation; errno is set for FAIL.
static int step(int kind, int what, const char* name) {
  if (quiet && kind == STAT && (!name[0] || !strcmp(name, "."))) return NOFAULT;
  int n = atomic_fetch_add((_Atomic int*)&S->count, 1), act = NOFAULT, err = 0;
  for (int i = 0; i < S->nplans; ++i) {
    if (S->plan[i].op == n && !S->plan[i].fired) {
      act = S->plan[i].action, err = S->plan[i].err;
      // an action only makes sense on some operations
      if ((act == SHORT || act == KILL_TORN) && kind != WRITE && !(act == SHORT && kind == READ)) act = NOFAULT;
      if (act == INTR && kind != READ && kind != WRITE && kind != OPEN) act = NOFAULT;
      if (act == FAIL) {
        switch (kind) {
          case READ: case READDIR: err = EIO; break;
          case OPEN: err = (int[]){EIO, EACCES, EMFILE, EIO}[err & 3]; break;
          case CREATE: err = (int[]){EIO, EACCES, ENOSPC, EROFS}[err & 3]; break;
          case WRITE: err = what == 3 ? (int[]){ENOSPC, EIO, EPIPE, EIO}[err & 3] : (int[]){ENOSPC, EIO, EFBIG, EDQUOT}[err & 3]; break;
          case CLOSE: err = what == 2 || what == 3 ? (err & 1 ? EIO : ENOSPC) : 0; break;
          case OPENDIR: err = (int[]){EACCES, EIO, EMFILE, EACCES}[err & 3]; break;
          case STAT: err = err & 1 ? EIO : EACCES; break;
          case RENAME: case MKDIR: case LINK: err = (int[]){EIO, EACCES, ENOSPC, EROFS}[err & 3]; break;
          default: err = EIO;
        }
        if (!err) act = NOFAULT;
      }
      if (act) S->plan[i].fired = 1;
      break;
    }
  }
  int l = atomic_fetch_add((_Atomic int*)&S->nlog, 1);
  if (l < 4000) {
    S->log[l].kind = kind, S->log[l].what = what, S->log[l].action = act, S->log[l].err = err;
    snprintf(S->log[l].name, sizeof S->log[l].name, "%s", name);
  }
  if (act == KILL) kill(getpid(), SIGKILL);
  if (act == FAIL) errno = err;
  return act;
}
static void after(int act) {
  if (act == KILL_AFTER || act == KILL_TORN) kill(getpid(), SIGKILL);
}
static const char* tail(const char* p) {
  size_t n = S ? strlen(S->root) : 0;
  if (S && strncmp(p, S->root, n) == 0) p += n + (p[n] == '/');
  return p;
}

static int do_open(int dirfd, const char* path, int flags, mode_t mode) {
  int (*r)(int, const char*, int, ...) = real("openat");
  int isdir = (flags & O_DIRECTORY) != 0;
  int mine = below(path) && (dirfd == AT_FDCWD || path[0] == '/');
  int act = 0, wr = (flags & (O_WRONLY | O_RDWR)) != 0;
  if (mine && !isdir) {
    act = step(wr || (flags & O_CREAT) ? CREATE : OPEN, wr ? 2 : 1, tail(path));
    if (act == FAIL) return -1;
    if (act == INTR) return errno = EINTR, -1;
  }
  int fd = r(dirfd, path, flags, mode);
  if (mine && !isdir && fd >= 0 && fd < 4096) {
    tracked[fd] = wr ? 2 : 1;
    snprintf(fdname[fd], sizeof fdname[fd], "%s", tail(path));
  }
  after(act);
  return fd;
}
#define MODE                                    \
  mode_t m = 0;                                 \
  if (flags & (O_CREAT | O_TMPFILE)) {          \
    va_list a;                                  \
    va_start(a, flags), m = va_arg(a, mode_t);  \
    va_end(a);                                  \
  }
int open(const char* p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char* p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char* p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char* p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, m); }

// stdio users (sed, awk): the open is the only place to fail
FILE* fopen(const char* p, const char* m) {
  FILE* (*r)(const char*, const char*) = real("fopen");
  if (below(p) && step(strchr(m, 'r') ? OPEN : CREATE, strchr(m, 'r') ? 1 : 2, tail(p)) == FAIL) return 0;
  return r(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  FILE* (*r)(const char*, const char*) = real("fopen64");
  if (below(p) && step(strchr(m, 'r') ? OPEN : CREATE, strchr(m, 'r') ? 1 : 2, tail(p)) == FAIL) return 0;
  return r(p, m);
}

#define MINE(fd) (S && S->on && !inside && (fd) >= 0 && (fd) < 4096 && tracked[fd])
ssize_t read(int fd, void* b, size_t n) {
  ssize_t (*r)(int, void*, size_t) = real("read");
  if (!MINE(fd)) return r(fd, b, n);
  int act = step(READ, 1, fdname[fd]);
  if (act == FAIL) return -1;
  if (act == INTR) return errno = EINTR, -1;
  if (act == SHORT && n > 1) n = n > 40 ? 1 + n % 37 : 1;
  ssize_t k = r(fd, b, n);
  after(act);
  return k;
}
ssize_t write(int fd, const void* b, size_t n) {
  ssize_t (*r)(int, const void*, size_t) = real("write");
  if (!MINE(fd)) return r(fd, b, n);
  int act = step(WRITE, tracked[fd], fdname[fd]);
  if (act == FAIL) return -1;
  if (act == INTR) return errno = EINTR, -1;
  if ((act == SHORT || act == KILL_TORN) && n > 1) n /= 2;
  ssize_t k = r(fd, b, n);
  after(act);
  return k;
}
int close(int fd) {
  int (*r)(int) = real("close");
  if (!MINE(fd)) {
    if (fd >= 0 && fd < 4096) tracked[fd] = 0;
    return r(fd);
  }
  int what = tracked[fd];
  tracked[fd] = 0;
  int act = step(CLOSE, what, fdname[fd]);
  int k = r(fd);
  if (act == FAIL) return errno = S->log[S->nlog - 1].err, -1;
  after(act);
  return k;
}
int dup2(int a, int b) {
  int (*r)(int, int) = real("dup2");
  int k = r(a, b);
  if (k >= 0 && a != b && a >= 0 && a < 4096 && b < 4096) tracked[b] = tracked[a], memcpy(fdname[b], fdname[a], sizeof fdname[a]);
  return k;
}

struct dirent64;
DIR* opendir(const char* p) {
  DIR* (*r)(const char*) = real("opendir");
  if (below(p) && step(OPENDIR, 1, tail(p)) == FAIL) return 0;
  return r(p);
}
DIR* fdopendir(int fd) {
  DIR* (*r)(int) = real("fdopendir");
  return r(fd);
}
static int dirs(DIR* d) {
  if (!S || !S->on || inside) return 0;
  char link[64], buf[512];
  snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd(d));
  ssize_t k = readlink(link, buf, sizeof buf - 1);
  if (k < 0) return 0;
  buf[k] = 0;
  return below(buf);
}
struct dirent64* readdir64(DIR* d) {
  struct dirent64* (*r)(DIR*) = real("readdir64");
  if (dirs(d) && step(READDIR, 1, "") == FAIL) return 0;
  return r(d);
}
struct dirent* readdir(DIR* d) {
  struct dirent* (*r)(DIR*) = real("readdir");
  if (dirs(d) && step(READDIR, 1, "") == FAIL) return 0;
  return r(d);
}

#define STATS(name, type)                                          \
  int name(const char* p, struct type* b) {                        \
    int (*r)(const char*, struct type*) = real(#name);             \
    if (below(p) && step(STAT, 1, tail(p)) == FAIL) return -1;     \
    return r(p, b);                                                \
  }
STATS(stat, stat)
STATS(lstat, stat)
STATS(stat64, stat64)
STATS(lstat64, stat64)
int fstatat(int d, const char* p, struct stat* b, int f) {
  int (*r)(int, const char*, struct stat*, int) = real("fstatat");
  if (d == AT_FDCWD && below(p) && step(STAT, 1, tail(p)) == FAIL) return -1;
  return r(d, p, b, f);
}
int fstatat64(int d, const char* p, struct stat64* b, int f) {
  int (*r)(int, const char*, struct stat64*, int) = real("fstatat64");
  if (d == AT_FDCWD && below(p) && step(STAT, 1, tail(p)) == FAIL) return -1;
  return r(d, p, b, f);
}

#define TWO(name, kind, what, args, call, path)                       \
  int name args {                                                     \
    int(*r) args = real(#name);                                       \
    int act = 0;                                                      \
    if (below(path)) {                                                \
      act = step(kind, what, tail(path));                             \
      if (act == FAIL) return -1;                                     \
    }                                                                 \
    int k = r call;                                                   \
    after(act);                                                       \
    return k;                                                         \
  }
TWO(rename, RENAME, 2, (const char* a, const char* b), (a, b), b)
TWO(renameat, RENAME, 2, (int c, const char* a, int d, const char* b), (c, a, d, b), b)
TWO(unlink, UNLINK, 2, (const char* a), (a), a)
TWO(unlinkat, UNLINK, 2, (int d, const char* a, int f), (d, a, f), a)
TWO(mkdir, MKDIR, 2, (const char* a, mode_t m), (a, m), a)
TWO(mkdirat, MKDIR, 2, (int d, const char* a, mode_t m), (d, a, m), a)
TWO(symlink, LINK, 2, (const char* t, const char* a), (t, a), a)
TWO(symlinkat, LINK, 2, (const char* t, int d, const char* a), (t, d, a), a)
TWO(link, LINK, 2, (const char* t, const char* a), (t, a), a)
TWO(chmod, CHMOD, 2, (const char* a, mode_t m), (a, m), a)
TWO(truncate64, TRUNC, 2, (const char* a, off64_t n), (a, n), a)

#define FDOP(name, kind, args, call)                                      \
  int name args {                                                         \
    int(*r) args = real(#name);                                           \
    int act = 0;                                                          \
    if (MINE(fd) && (act = step(kind, 2, fdname[fd])) == FAIL) return -1; \
    int k = r call;                                                       \
    after(act);                                                           \
    return k;                                                             \
  }
FDOP(fsync, SYNC, (int fd), (fd))
FDOP(fdatasync, SYNC, (int fd), (fd))
FDOP(ftruncate64, TRUNC, (int fd, off64_t n), (fd, n))
FDOP(fchmod, CHMOD, (int fd, mode_t m), (fd, m))
