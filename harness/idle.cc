/* What waiting costs. Processes block in reads, writes and flushes, or poll
 * their descriptors; a controller lets them make so many calls, moves
 * messages, makes calls that move none, stops and continues them, and looks
 * at what they use while nothing happens: processor time, and attempts at
 * the ring's lock. A waiter may try the lock only when something happened. */
#include "common.h"
#include "shr.h"
#include "vi.h"

#define MAXW 5
enum { BR = 0, BW, BBW, POLLER };
static const char *rname[] = {"blocking reader", "blocking writer", "buffered writer", "polling reader"};
struct W {
  volatile int role, incall, op;             /* op: 1 read 2 write 3 flush 4 buffered write that fits */
  volatile u64 calls, locks, moves, empties; /* calls entered; lock attempts; calls that moved messages; empty reads */
  volatile u64 fitcalls, bad; volatile u64 stops, fails; char badwhat[200];
};
struct Shm { volatile u64 ops; W w[MAXW]; };
static Shm *M; static W *me;
static std::string ring; static u64 rn, rmm;
static void op_done() { __sync_fetch_and_add(&M->ops, 1); }
static u64 third;
static void on_point(int point) { if (point == VI_fcntl_lock && me) { me->locks = ++third; } }
static std::vector<char> buf;
static unsigned rlen(Rng &g, u64 mx) { u64 m = g.pick<u64>({8, 64, 400, 1 << 20}); return g.range(1, std::max<u64>(1, std::min(mx, m))); }

/* being stopped and continued ends a sleeping call with an error */
static void failed(int code) { if (++me->fails > me->stops) _exit(code); op_done(); me->incall = 0; }
static void waiter(int id, int role, int fd, u64 seed, bool partial) {
  me = &M->w[id]; third = 0;
  Rng g(seed);
  int fl = role == BR || role == POLLER ? SHR_RDONLY : SHR_WRONLY;
  if (role == BBW) fl |= SHR_BUFFERED;
  if (role == POLLER) fl |= SHR_NONBLOCK;
  vi_delay = on_point;
  shr *s = shr_open(ring.c_str(), fl);
  if (!s) _exit(3);
  struct shr_stat st; if (shr_stat(s, &st, NULL)) _exit(4);
  u64 cn = st.cn, cm = std::min<u64>(st.mm, 100), hb = 0, hm = 0;
  int pf = role == POLLER ? shr_get_selectable_fd(s) : -1;
  __sync_fetch_and_add(&M->ops, 2);
  char b;
  while (read(fd, &b, 1) == 1) {
    if (role == BR || role == POLLER) {
      struct iovec v[8]; size_t n = partial ? 1 : g.range(1, 8);
      me->op = 1;
      for (;;) {
        if (pf >= 0) { me->incall = 1; struct pollfd p = {pf, POLLIN, 0}; if (poll(&p, 1, -1) < 0) { failed(5); continue; } }
        size_t k = n; __sync_fetch_and_add(&me->calls, 1); me->incall = 1;
        vi_inlib = 1; ssize_t r = shr_readv(s, buf.data(), rn, v, &k); vi_inlib = 0;
        if (r > 0) { me->moves++; op_done(); }
        if (pf < 0) me->incall = 0;
        if (r < 0) { failed(6); break; }
        if (r == 0) { me->empties++; if (pf < 0) _exit(7); continue; }
        break;
      }
      me->incall = 0;
      continue;
    }
    if (role == BBW) {
      unsigned len = rlen(g, g.p(70) ? std::max<u64>(1, cn / 4) : rn);
      bool fits = hb + len <= cn && hm + 1 <= cm;
      if (!fits && (hm >= cm || g.p(30))) { /* make room for it by hand */
        me->op = 3; __sync_fetch_and_add(&me->calls, 1); me->incall = 1;
        vi_inlib = 1; ssize_t r = shr_flush(s, 1); vi_inlib = 0; me->incall = 0;
        if (r < 0) { failed(8); continue; }
        if (r > 0) { me->moves++; op_done(); }
        hb = hm = 0; continue;
      }
      u64 l0 = me->locks;
      me->op = fits ? 4 : 2; if (!fits) __sync_fetch_and_add(&me->calls, 1); me->incall = 1;
      vi_inlib = 1; ssize_t r = shr_write(s, buf.data(), len); vi_inlib = 0; me->incall = 0;
      if (r < 0 && !fits) { failed(9); struct shr_stat t; if (shr_stat(s, &t, NULL)) _exit(4); hb = t.cb; hm = t.cm; continue; }
      if (r != (ssize_t)len) _exit(9);
      if (fits) {
        if (me->locks != l0 && !me->bad) { snprintf(me->badwhat, sizeof me->badwhat, "a buffered write of %u bytes, with %llu bytes and %llu messages in a buffer of %llu, took the lock", len, (unsigned long long)hb, (unsigned long long)hm, (unsigned long long)cn); me->bad = 1; }
        me->fitcalls++; hb += len; hm++;
      } else { me->moves++; op_done(); if (len <= cn) { hb = len; hm = 1; } else hb = hm = 0; }
      continue;
    }
    unsigned len = rlen(g, rn); struct iovec v[4]; size_t n = g.p(60) ? 1 : g.range(1, std::min<u64>(4, std::min<u64>(rmm, rn)));
    if (n > 1) len = std::max<u64>(1, std::min<u64>(len, rn / n));
    for (size_t k = 0; k < n; k++) { v[k].iov_base = buf.data(); v[k].iov_len = len; }
    me->op = 2; __sync_fetch_and_add(&me->calls, 1); me->incall = 1;
    vi_inlib = 1; ssize_t r = shr_writev(s, v, n); vi_inlib = 0; me->incall = 0;
    if (r < 0) { failed(10); continue; }
    if (r != (ssize_t)(len * n)) _exit(10);
    me->moves++; op_done();
  }
  _exit(0);
}

static u64 qlen = 512;
static Rng G(1);
static pid_t pid[MAXW]; static int pfd[MAXW]; static int nw;
static bool stopped[MAXW];
static void check_alive() {
  for (int k = 0; k < nw; k++) {
    int st;
    if (waitpid(pid[k], &st, WNOHANG) == pid[k]) {
      if (WIFSIGNALED(st)) violation("crash", fmt("a %s died from signal %d", rname[M->w[k].role], WTERMSIG(st)));
      violation("call-failed", fmt("a %s's call failed (%d)", rname[M->w[k].role], WEXITSTATUS(st)));
    }
  }
}
static u64 lockattempts(int k) { return (M->w[k].locks + 2) / 3; } /* the monitor sees each taken and released: three times */
static u64 bound(u64 ops, u64 calls) { return 8 + 2 * calls + 2 * ops; }
static void check_sums(const char *when) {
  for (int k = 0; k < nw; k++) {
    W *w = &M->w[k];
    u64 l = lockattempts(k), e = w->empties; __sync_synchronize(); u64 c = w->calls, o = M->ops;
    count("sum_checks");
    if (w->bad) violation("buffered-lock", w->badwhat);
    if (w->role == POLLER) { if (e > 8 + 2 * o) violation("spurious", fmt("a polling reader found nothing %llu times, with %llu calls by anyone that moved messages (%s)", (unsigned long long)e, (unsigned long long)o, when)); }
    else if (l > bound(o, c)) violation("lock-attempts", fmt("a %s tried the lock %llu times in %llu calls, with %llu calls by anyone that moved messages (%s)", rname[w->role], (unsigned long long)l, (unsigned long long)c, (unsigned long long)o, when));
  }
}
/* nothing happens: does any waiter use anything? */
static void quiet_window(unsigned us, const char *when) {
  struct Snap { int in; u64 calls, cpu, locks, fit, emp; } a[MAXW], b;
  u64 o = M->ops; double t0 = now();
  for (int k = 0; k < nw; k++) a[k] = {M->w[k].incall, M->w[k].calls, cpu_ns(pid[k]), lockattempts(k), M->w[k].fitcalls, M->w[k].empties};
  usleep(us);
  for (int k = 0; k < nw; k++) {
    W *w = &M->w[k];
    if (!a[k].in || stopped[k]) continue;
    u64 lim = (u64)((now() - t0) * 1e9 / 4); /* a quarter of the time */
    b = {w->incall, w->calls, cpu_ns(pid[k]), lockattempts(k), w->fitcalls, w->empties};
    __sync_synchronize();
    if (M->ops != o || !b.in || (w->role != POLLER && b.calls != a[k].calls) || b.fit != a[k].fit) continue;
    count("waiting_windows"); distinct("waiting_windows", mix(curcase, mix(k * 64 + w->op * 8 + w->role, o)));
    bool locky = w->role != POLLER && b.locks > a[k].locks + 2, empty = b.emp > a[k].emp + 2, busy = b.cpu - a[k].cpu > lim;
    if (!locky && !busy && !empty) continue;
    count("windows_looked_into");
    if (A.trace) printf("    window: waiter %d op %d: locks %d empties %d cpu %d us\n", k, (int)w->op, (int)(b.locks - a[k].locks), (int)(b.emp - a[k].emp), (int)((b.cpu - a[k].cpu) / 1000));
    /* wakeups sent before may still be under way: is there an end to it? */
    a[k] = b; t0 = now(); u64 cmid = 0, lmid = 0; double tm = 0;
    for (int x = 0; x < 20; x++) { usleep(20000); if (SP) SP->op++; if (x == 9) { cmid = cpu_ns(pid[k]); lmid = lockattempts(k); tm = now(); } if (M->ops != o) break; if (x == 2) { Snap c = {w->incall, w->calls, cpu_ns(pid[k]), lockattempts(k), w->fitcalls, w->empties}; if (c.locks - a[k].locks <= 2 && c.emp - a[k].emp <= 2 && c.cpu - a[k].cpu < 1000000) break; } }
    b = {w->incall, w->calls, cpu_ns(pid[k]), lockattempts(k), w->fitcalls, w->empties};
    __sync_synchronize();
    if (M->ops != o || !b.in || (w->role != POLLER && b.calls != a[k].calls) || b.fit != a[k].fit) continue;
    double t = now();
    u64 all = b.cpu - a[k].cpu, late = b.cpu - cmid;
    std::string who = fmt("a %s in %s, with nothing happening for %.2f s (%s)", rname[w->role], w->role == POLLER ? "poll and read" : w->op == 1 ? "read" : w->op == 3 ? "flush" : "write", t - t0, when);
    u64 e = lmid - a[k].locks, l = b.locks - lmid; /* what was under way is at most what a socket's queue holds */
    if (w->role != POLLER && (e + l > o + 8 || (e > 8 && l > 8 && e + l > qlen + 8))) violation("lock-attempts", who + fmt(", tried the lock %llu times", (unsigned long long)(b.locks - a[k].locks)));
    if (b.emp - a[k].emp > o + 8) violation("spurious", who + fmt(", found nothing %llu times", (unsigned long long)(b.emp - a[k].emp)));
    if (all > (t - t0) * 1e8 && late > (t - tm) * 1e8) violation("spins", who + fmt(", used %.3f s of processor time", all * 1e-9));
  }
}
static void one(u64 k) {
  G = Rng(mix(A.seed * 104729 + 11, k)); begin_case(k);
  bool farm = G.p(15), drop = farm || G.p(15);
  switch (G.below(4)) { case 0: rn = G.range(12, 80); break; case 1: rn = G.range(80, 600); break; case 2: rn = G.range(600, 12000); break; default: rn = G.range(10240, 60000); }
  u64 mm = G.p(50) ? G.range(1, 12) : G.p(50) ? G.range(1, 200) : 0;
  rmm = mm ? mm : 100 + rn / 100; buf.assign(rn + 64, 'x');
  ring = fmt("%s/i%llu", A.dir.c_str(), (unsigned long long)k); unlink(ring.c_str());
  if (shr_init((char *)ring.c_str(), rn, (farm ? SHR_FARM : drop ? SHR_DROP : 0) | (mm ? SHR_MAXMSGS_2 : 0), (size_t)mm)) harness_error("shr_init");
  memset((void *)M, 0, sizeof *M);
  nw = G.range(1, MAXW);
  casehdr = fmt("ring %llu bytes, %llu messages%s, waiters:", (unsigned long long)rn, (unsigned long long)rmm, farm ? " farm" : drop ? " drop" : "");
  fflush(stdout);
  bool rd = false, wr = false;
  for (int x = 0; x < nw; x++) {
    int role = drop ? G.pick({BR, POLLER, BBW}) : G.pick({BR, BW, BBW, POLLER});
    if (role == BW || role == BBW) wr = true; else rd = true;
    int pp[2]; if (pipe2(pp, O_CLOEXEC)) harness_error("pipe");
    u64 seed = G.next(); bool partial = G.p(50);
    M->w[x].role = role; casehdr += std::string(" ") + rname[role] + ",";
    pid[x] = fork(); if (pid[x] < 0) harness_error("fork");
    if (pid[x] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != main_pid) _exit(0); signal(SIGALRM, SIG_DFL); alarm(0); close(pp[1]); for (int y = 0; y < x; y++) close(pfd[y]); waiter(x, role, pp[0], seed, partial); }
    close(pp[0]); pfd[x] = pp[1]; stopped[x] = false;
  }
  if (A.trace) printf("case %llu: %s\n", (unsigned long long)k, casehdr.c_str());
  shr *cr = shr_open(ring.c_str(), SHR_RDONLY | SHR_NONBLOCK), *cw = shr_open(ring.c_str(), SHR_WRONLY | SHR_NONBLOCK);
  if (!cr || !cw) harness_error("open");
  M->ops += 2;
  int rounds = G.range(4, 14);
  auto moves = [&](int n) {
    for (int x = 0; x < n; x++) {
      ssize_t r;
      if (wr && (!rd || G.p(50))) r = shr_read(cr, buf.data(), rn);
      else if (G.p(80)) r = shr_write(cw, buf.data(), rlen(G, rn));
      else { struct iovec v[4]; size_t q = G.range(1, std::min<u64>(4, std::min(rn, rmm))); for (size_t y = 0; y < q; y++) { v[y].iov_base = buf.data(); v[y].iov_len = rlen(G, rn / q); } r = shr_writev(cw, v, q); }
      if (r < 0) harness_error("controller's call");
      if (r > 0) { op_done(); count("moves"); }
      if (SP) SP->op++;
    }
  };
  for (int q = 0; q < rounds; q++) {
    int act = G.below(9);
    check_alive();
    if (SP) SP->op++;
    if (q == 0 || act < 3) { /* let them make calls */
      for (int x = 0; x < nw; x++) if (q == 0 || G.p(50)) {
        char z[64]; memset(z, 'g', sizeof z); int n = q == 0 ? G.range(1, 60) : G.range(1, 10);
        if (write(pfd[x], z, n) != n) harness_error("grant");
      }
      logop("calls granted");
    } else if (act < 5) { int n = G.p(60) ? G.range(1, 6) : G.p(70) ? G.range(5, 60) : G.range(100, 700); logop("%d calls move messages", n); moves(n); }
    else if (act == 5) { /* a waiter is stopped while messages move */
      int x = G.below(nw); int n = G.range(1, 300); logop("%s %d stopped, %d calls move messages", rname[M->w[x].role], x, n);
      M->w[x].stops++; kill(pid[x], SIGSTOP); stopped[x] = true; int sst; if (waitpid(pid[x], &sst, WUNTRACED) != pid[x] || !WIFSTOPPED(sst)) violation("crash", fmt("a %s ended with status %x", rname[M->w[x].role], sst));
      int f = open(ring.c_str(), O_RDWR); struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK;
      bool free_ = false; for (int t = 0; t < 20 && !free_; t++) { fl.l_type = F_WRLCK; if (fcntl(f, F_GETLK, &fl)) harness_error("getlk"); free_ = fl.l_type == F_UNLCK || fl.l_pid != pid[x]; if (fl.l_type != F_UNLCK) usleep(200); }
      close(f);
      if (free_) moves(n);
      kill(pid[x], SIGCONT); stopped[x] = false; count("stops");
    } else if (act == 6) { /* calls that move nothing */
      for (int t = 0; t < 100 && G.p(97); t++) { u64 o = M->ops; usleep(2000); if (M->ops == o) break; } /* let it become quiet */
      int n = G.range(20, 200); logop("%d calls that move nothing", n);
      struct shr_stat st;
      for (int x = 0; x < n; x++) {
        switch (G.below(5)) {
          case 0: if (shr_stat(cr, &st, NULL)) harness_error("stat"); break;
          case 1: { ssize_t r = shr_read(cr, buf.data(), rn); if (r > 0) { op_done(); count("moves"); } break; }
          case 2: if (shr_write(cw, buf.data(), rn + 1) != -1) harness_error("oversize"); break;
          case 3: { void *g = NULL; size_t z = 0; shr_appdata(cw, &g, NULL, &z); free(g); break; }
          case 4: if (!drop) { ssize_t r = shr_write(cw, buf.data(), rn); if (r > 0) { op_done(); count("moves"); } } else shr_farm_stat(cr, 0); break;
        }
        count("idle_calls");
      }
    } else if (act == 7) { /* another comes and goes */
      shr *s = shr_open(ring.c_str(), G.p(50) ? SHR_RDONLY | (G.p(50) ? SHR_NONBLOCK : 0) : SHR_WRONLY);
      if (!s) harness_error("open");
      shr_close(s); M->ops += 2; logop("another opens and closes the ring");
    } else { /* somebody holds the lock: buffered writes that fit go on */
      std::vector<int> v; for (int x = 0; x < nw; x++) if (M->w[x].role == BBW) v.push_back(x);
      if (v.empty()) { q--; rounds--; continue; }
      int x = v[G.below(v.size())]; W *w = &M->w[x];
      int hold[2]; if (pipe(hold)) harness_error("pipe");
      pid_t h = fork(); if (h < 0) harness_error("fork");
      if (h == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int f = open(ring.c_str(), O_RDWR); struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK; vi_delay = NULL; if (fcntl(f, F_SETLKW, &fl)) _exit(1); if (write(hold[1], "h", 1) != 1) _exit(1); pause(); _exit(0); }
      char z; if (read(hold[0], &z, 1) != 1) harness_error("holder");
      if (write(pfd[x], "ggggg", 5) != 5) harness_error("grant");
      double t0 = now(); u64 f0 = w->fitcalls;
      for (;;) { /* op 4 in a call that stays: it waits for the lock */
        usleep(500); check_alive();
        if (w->incall && w->op == 4) { u64 f1 = w->fitcalls; usleep(1000); if (w->incall && w->op == 4 && w->fitcalls == f1) { if (now() - t0 > 3.0 * A.slow) violation("buffered-blocks", "a buffered write that fits does not return while another process holds the lock"); continue; } continue; }
        if (w->incall || now() - t0 > 0.01) break;
      }
      count("held_lock_checks"); if (w->fitcalls > f0) count("writes_beside_held_lock", w->fitcalls - f0);
      logop("the lock held, %llu buffered writes", (unsigned long long)(w->fitcalls - f0));
      kill(h, SIGKILL); waitpid(h, 0, 0); close(hold[0]); close(hold[1]);
    }
    check_sums("running");
    if (G.p(60)) quiet_window(G.p(80) ? 8000 : 40000, oplog.empty() ? "" : oplog.back().c_str());
  }
  /* let all go quiet */
  for (int t = 0; t < 400; t++) { u64 o = M->ops; usleep(3000); if (M->ops == o) break; }
  quiet_window(G.p(70) ? 20000 : 100000, "at the end");
  check_alive(); check_sums("at the end");
  u64 fc = 0, wl = 0; for (int x = 0; x < nw; x++) { fc += M->w[x].fitcalls; wl += lockattempts(x); }
  count("buffered_fits", fc); count("lock_attempts", wl); count("ops", M->ops); count("cases");
  for (int x = 0; x < nw; x++) { kill(pid[x], SIGKILL); waitpid(pid[x], 0, 0); close(pfd[x]); }
  shr_close(cr); shr_close(cw); unlink(ring.c_str());
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  if (!getenv("DBG") && !freopen("/dev/null", "w", stderr)) {}
  M = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (M == MAP_FAILED) harness_error("mmap");
  if (FILE *f = fopen("/proc/sys/net/unix/max_dgram_qlen", "r")) { unsigned long q; if (fscanf(f, "%lu", &q) == 1) qlen = q; fclose(f); }
  signal(SIGALRM, on_alarm); signal(SIGPIPE, SIG_IGN);
  for (u64 k = A.from; k < A.to; k++) { alarm(120 * A.slow); one(k); alarm(0); }
  write_out(NULL, "", 0);
  return 0;
}
