/* Processes that carry out single commands of a controller. */
#ifndef ACTORS_H
#define ACTORS_H
#include "common.h"
#include <grp.h>
#include <sched.h>
struct Cmd { int op, h, a, b, c, d; u64 x, y; };
struct Rep { long r, r2, r3; u64 x; };
struct Chan {              /* in shared memory */
  volatile unsigned req, ack; volatile int incall, open, dead;
  Cmd c; Rep r; unsigned char note[256]; char why[200];
};
struct Actor { pid_t pid; int pfd[2]; Chan *c; bool alive, zombie, reaped; int uid; };
typedef void (*actor_fn)(Chan *);
static Chan *chans; static int nchans;
static void actors_init(int n) {
  chans = (Chan *)mmap(0, n * sizeof(Chan), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (chans == MAP_FAILED) harness_error("mmap");
  nchans = n;
}
static std::vector<Actor> actors;
static std::vector<pid_t> extra_pids;
/* the child's side: f is called for each command */
static Actor &actor_start(int slot, actor_fn f, int uid) {
  Actor a; memset(&a, 0, sizeof a);
  if (slot >= nchans) harness_error("too many actors");
  a.c = &chans[slot]; memset((void *)a.c, 0, sizeof *a.c);
  if (pipe2(a.pfd, O_CLOEXEC)) harness_error("pipe");
  fflush(stdout);
  pid_t parent = getpid();
  a.pid = fork();
  if (a.pid < 0) harness_error("fork");
  if (a.pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(0);
    signal(SIGALRM, SIG_DFL); alarm(0);
    for (auto &o : actors) close(o.pfd[1]);
    close(a.pfd[1]);
    if (uid) { if (setgroups(0, NULL) || setresgid(uid, uid, uid) || setresuid(uid, uid, uid)) _exit(3); prctl(PR_SET_DUMPABLE, 1); prctl(PR_SET_PDEATHSIG, SIGKILL); }
    char b; int n;
    while ((n = read(a.pfd[0], &b, 1)) == 1 || (n < 0 && errno == EINTR)) {
      if (n < 0) continue;
      curcase++; fd0_step();
      f(a.c);
      __sync_synchronize();
      a.c->ack = a.c->req;
    }
    _exit(0);
  }
  close(a.pfd[0]);
  a.alive = true; a.uid = uid;
  actors.push_back(a);
  return actors.back();
}
static void actor_send(Actor &a, const Cmd &c) {
  a.c->c = c; a.c->why[0] = 0;
  __sync_synchronize();
  a.c->req++;
  if (write(a.pfd[1], "x", 1) != 1) harness_error("actor gone");
}
static bool actor_done(Actor &a) { return a.c->ack == a.c->req; }
static bool actor_wait(Actor &a, double s) {
  double t0 = now();
  for (int k = 0; !actor_done(a); k++) {
    if (k < 200) sched_yield(); else usleep(k < 1000 ? 50 : 300);
    if (k % 64 == 63) { if (now() - t0 > s) return false; int st; if (waitpid(a.pid, &st, WNOHANG) == a.pid) { a.alive = false; a.reaped = true; a.c->dead = st | 0x10000; return false; } }
  }
  return true;
}
static void actor_kill(Actor &a, bool reap) {
  if (!a.alive) return;
  kill(a.pid, SIGKILL); a.alive = false;
  siginfo_t si;
  if (reap) { int st; waitpid(a.pid, &st, 0); a.reaped = true; }
  else { waitid(P_PID, a.pid, &si, WEXITED | WNOWAIT); a.zombie = true; }
}
static void actor_reap(Actor &a) { if (!a.alive && !a.reaped) { int st; waitpid(a.pid, &st, 0); a.reaped = true; } }
static void actors_end() {
  for (auto &a : actors) { if (a.alive) kill(a.pid, SIGKILL); }
  for (auto &a : actors) { if (!a.reaped) { int st; waitpid(a.pid, &st, 0); } close(a.pfd[1]); }
  actors.clear();
  for (pid_t p : extra_pids) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); }
  extra_pids.clear();
}
/* asleep: state S, and no context switch between two looks */
static char proc_state(pid_t pid) {
  char b[600]; int fd = open(fmt("/proc/%d/stat", pid).c_str(), O_RDONLY);
  if (fd < 0) return 'X';
  int n = read(fd, b, 599); close(fd);
  if (n <= 0) return 'X';
  b[n] = 0; char *c = strrchr(b, ')');
  return c ? c[2] : '?';
}
static u64 proc_switches(pid_t pid) {
  char b[4000]; int fd = open(fmt("/proc/%d/status", pid).c_str(), O_RDONLY);
  if (fd < 0) return 0;
  int n = read(fd, b, 3999); close(fd);
  if (n <= 0) return 0;
  b[n] = 0;
  u64 v = 0, w = 0; char *c = strstr(b, "\nvoluntary_ctxt_switches:"); if (c) v = strtoull(c + 25, 0, 10);
  c = strstr(b, "nonvoluntary_ctxt_switches:"); if (c) w = strtoull(c + 27, 0, 10);
  return v * 1000003 + w;
}
static bool proc_asleep(pid_t pid) {
  if (proc_state(pid) != 'S') return false;
  u64 s = proc_switches(pid);
  usleep(300);
  return proc_state(pid) == 'S' && proc_switches(pid) == s;
}
/* wait until the actor's call sleeps (1) or is done (0); -1: neither */
static int actor_settle(Actor &a, double s) {
  double t0 = now();
  for (;;) {
    if (actor_done(a)) return 0;
    if (a.c->incall && proc_asleep(a.pid) && !actor_done(a)) return 1;
    if (now() - t0 > s) return -1;
    usleep(50);
  }
}
#endif
