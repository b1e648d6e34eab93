// Stands in front of the commands a script calls (PATH): the n-th call of one role may be killed, fail, or lose half its output.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct helper {
  char role[64];  // "grep -nE"
  int nth, action, seen, fired;
  int ncalls;
  char calls[400][64];
};
enum { NONE, KILLED, STATUS2, AFTER, HALF, MISSING, EVENT, CRASH, CRASH_AFTER };

int main(int argc, char** argv) {
  const char* name = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  char role[64], path[512];
  snprintf(role, sizeof role, "%s %.40s", name, argc > 1 ? argv[1] : "");
  snprintf(path, sizeof path, "%s/%s", getenv("SIM_REAL_DIR"), name);
  if (access(path, X_OK) != 0) snprintf(path, sizeof path, "/usr/bin/%s", name);
  else unsetenv("SIM_FAULT_SHM");  // a stand-in's own files do not fail
  int fd = open(getenv("SIM_HELPER"), O_RDWR), action = NONE;
  struct helper* h = fd < 0 ? MAP_FAILED : mmap(0, sizeof *h, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (fd >= 0) close(fd);
  if (h != MAP_FAILED) {
    int k = __atomic_fetch_add(&h->ncalls, 1, __ATOMIC_SEQ_CST);
    if (k < 400) strcpy(h->calls[k], role);
    if (h->action && strcmp(h->role, role) == 0) {  // nth < 0: every call
      int n = __atomic_fetch_add(&h->seen, 1, __ATOMIC_SEQ_CST);
      if (h->nth < 0 || n == h->nth) action = h->action, h->fired = 1;
    }
  }
  if (action == KILLED) raise(SIGKILL);
  if (action == STATUS2) return fprintf(stderr, "%s: simulated failure\n", name), 2;
  if (action == MISSING) return fprintf(stderr, "%s: command not found\n", name), 127;
  if (action == CRASH) kill(0, SIGKILL);  // the whole script, which leads its own process group
  if (action == EVENT) {
    pid_t e = fork();
    if (e == 0) {
      int null = open("/dev/null", O_RDWR);
      dup2(null, 0), dup2(null, 1), dup2(null, 2);
      unsetenv("SIM_HELPER");
      execl(getenv("SIM_EVENT"), "event", (char*)0);
      _exit(127);
    }
    waitpid(e, 0, 0);
    action = NONE;
  }
  if (action == NONE) {
    execv(path, argv);
    return 127;
  }
  int p[2];
  if (pipe(p)) return 127;
  pid_t c = fork();
  if (c == 0) {
    dup2(p[1], 1), close(p[0]), close(p[1]);
    execv(path, argv);
    _exit(127);
  }
  close(p[1]);
  static char buf[1 << 20];
  size_t n = 0;
  ssize_t k;
  while (n < sizeof buf && (k = read(p[0], buf + n, sizeof buf - n)) > 0) n += k;
  int st;
  waitpid(c, &st, 0);
  if (action == CRASH_AFTER) kill(0, SIGKILL);
  if (action == HALF) n /= 2;
  for (size_t i = 0; i < n && (k = write(1, buf + i, n - i)) > 0; i += k) {}
  if (action == HALF) raise(SIGKILL);
  return 3;
}
