/* Blocked calls, descriptors given with the poll control, and signals. A
 * controller keeps the content of the ring, has processes make calls, sees
 * whether they sleep, and then makes a descriptor readable, sends a signal,
 * or has another process provide what is waited for. */
#include "actors.h"
#include "shr.h"
#include "vi.h"
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>

enum { S_OPEN = 1, S_CLOSE, S_CTL, S_WRITE, S_READ, S_FLUSH, S_STAT, S_STORM, S_APPDATA, S_OPEN2 };
struct Got { unsigned len; unsigned pad; u64 hash; };
#define MAXGOT 10
#define MAXIOV 6
static std::string ring; static u64 rn, rmm; static bool rfarm, rdrop; static unsigned rapp;
#define NFD 24
static struct { int rd, wr, kind; int n; } F[NFD]; /* descriptors to give: pipes, eventfds, sockets */
static shr *sh[8];
static char big[200000];
static volatile sig_atomic_t nsig;
static void on_sig(int) { nsig++; }
static u64 hash(const char *b, size_t n) { u64 h = 1469598103934665603ULL + n; for (size_t k = 0; k < n; k++) h = (h ^ (unsigned char)b[k]) * 1099511628211ULL; return h; }
static void serve(Chan *c) {
  static bool init;
  if (!init) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig;
    sigaction(SIGUSR1, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
    sa.sa_flags = SA_RESTART; sigaction(SIGUSR2, &sa, NULL); init = true;
  }
  Cmd &m = c->c; Rep &r = c->r; r.r = -99; r.r2 = r.r3 = 0;
  struct iovec v[MAXGOT];
  c->incall = 1;
  switch (m.op) {
    case S_OPEN: sh[m.h] = shr_open(ring.c_str(), m.a); r.r = sh[m.h] ? 1 : 0; break;
    case S_OPEN2: { shr *s = shr_open(ring.c_str(), m.a); r.r = s ? 1 : 0; if (s) { struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, NULL); shr_close(s); } break; }
    case S_CLOSE: shr_close(sh[m.h]); sh[m.h] = NULL; r.r = 0; break;
    case S_CTL: r.r = shr_ctl(sh[m.h], SHR_POLLFD, F[m.a].rd); break;
    case S_WRITE: {
      for (int k = 0; k < m.a; k++) { gen(m.y + k, big + (size_t)k * m.b, m.b); v[k].iov_base = big + (size_t)k * m.b; v[k].iov_len = m.b; }
      r.r = m.a == 1 && m.c ? shr_write(sh[m.h], big, m.b) : shr_writev(sh[m.h], v, m.a);
      break;
    }
    case S_READ: {
      size_t n = m.a; memset(v, 0, sizeof v);
      if (m.c) { r.r = shr_read(sh[m.h], big, m.b); n = r.r > 0; v[0].iov_base = big; v[0].iov_len = n ? r.r : 0; }
      else r.r = shr_readv(sh[m.h], big, m.b, v, &n);
      r.r2 = r.r > 0 ? n : 0;
      Got *g = (Got *)c->note;
      for (int k = 0; k < r.r2; k++) { g[k].len = v[k].iov_len; g[k].hash = hash((char *)v[k].iov_base, v[k].iov_len); }
      break;
    }
    case S_FLUSH: r.r = shr_flush(sh[m.h], m.a); break;
    case S_STAT: { struct shr_stat st; r.r = shr_stat(sh[m.h], &st, NULL); r.r2 = st.mu; r.r3 = st.bu; break; }
    case S_APPDATA: { size_t z = 0; void *p = NULL; r.r = shr_appdata(sh[m.h], &p, NULL, &z); r.r2 = z; if (r.r == 0) free(p); break; }
    case S_STORM: { struct itimerval t; memset(&t, 0, sizeof t); t.it_interval.tv_usec = t.it_value.tv_usec = m.a; r.r = setitimer(ITIMER_REAL, &t, NULL); r.r2 = nsig; break; }
  }
  c->incall = 0;
}
/* ---- the controller ---- */
struct M { u64 id; unsigned len; };
struct Caller { bool rd, nb, buf, storm; std::vector<int> fds; std::deque<M> pend, unread; };
static std::vector<Caller> C; /* caller k is actor k+1; actor 0 is the peer, with a reader (0) and a writer (1), both non-blocking */
static std::deque<M> R; static u64 used, nextid;
static Rng G(1);
static int lockfd = -1;
static bool fits(u64 bytes, u64 msgs) { return rdrop || (rn - used >= bytes && rmm - R.size() >= msgs); }
static u64 bytes(const std::deque<M> &q) { u64 n = 0; for (auto &m : q) n += m.len; return n; }
static void put(const M &m) {
  while (rdrop && !R.empty() && (used + m.len > rn || R.size() + 1 > rmm)) { used -= R.front().len; R.pop_front(); }
  R.push_back(m); used += m.len;
  if (rfarm) for (auto &c : C) if (c.rd) { /* what is overwritten is lost */
    c.unread.push_back(m);
    while (bytes(c.unread) > rn || c.unread.size() > rmm) c.unread.pop_front();
  }
}
static std::deque<M> &queue_of(int k) { return rfarm ? C[k].unread : R; }
#define SOON (6.0 * A.slow)
static std::string where(Actor &a) { std::string w; for (const char *f : {"wchan", "syscall"}) { char b[400] = ""; int fd = open(fmt("/proc/%d/%s", a.pid, f).c_str(), O_RDONLY); int n = read(fd, b, 399); if (n > 0) b[n] = 0; close(fd); w += std::string(" ") + b; } return w; }
static void finish(Actor &a, const char *what, const char *why) {
  if (actor_wait(a, SOON)) return;
  if (!a.alive) violation("crash", fmt("a process ended with status %x in %s", a.c->dead & 0xffff, what));
  violation("stuck", fmt("%s does not return, %s (%s)", what, why, where(a).c_str()));
}
static Rep &rpc(int act, Cmd c, const char *what) { actor_send(actors[act], c); finish(actors[act], what, "though it need not wait"); return actors[act].c->r; }
/* what the ring holds now, according to the peer */
static void stat2(u64 *m, u64 *u) {
  Cmd c = {S_STAT, 0}; Rep &r = rpc(0, c, "stat");
  if (r.r) violation("later-call", fmt("shr_stat of another process returned %ld", r.r));
  *m = r.r2; *u = r.r3;
}
static void check_ring(const char *after) {
  if (rfarm) return;
  u64 m, u; stat2(&m, &u); count("stat_checks");
  if (m != R.size() || u != used) violation("content", fmt("after %s the ring has %llu messages, %llu bytes; expected %zu, %llu", after, (unsigned long long)m, (unsigned long long)u, R.size(), (unsigned long long)used));
}
/* bytes of a buffered writer may have reached the ring: find out */
static void settle_buffered(int k, M *direct, int ndirect, long r, const char *what) {
  Caller &c = C[k]; u64 m, u, m0 = R.size(); stat2(&m, &u);
  u64 nd = ndirect;
  bool ok = r > 0;
  if (m == m0) { if (ok) for (int j = 0; j < ndirect; j++) c.pend.push_back(direct[j]); }
  else if (m == m0 + c.pend.size() || (ok && m == m0 + c.pend.size() + nd)) {
    bool all = m != m0 + c.pend.size();
    for (auto &x : c.pend) put(x);
    c.pend.clear();
    for (int j = 0; ok && j < ndirect; j++) { if (all) put(direct[j]); else c.pend.push_back(direct[j]); }
  } else violation("content", fmt("after %s returned %ld the ring has %llu messages; it had %llu, %zu were buffered", what, r, (unsigned long long)m, (unsigned long long)m0, c.pend.size()));
  if (u != used) violation("content", fmt("after %s returned %ld the ring has %llu bytes, expected %llu", what, r, (unsigned long long)u, (unsigned long long)used));
}
static bool fd_ready(int f) { struct pollfd p = {F[f].rd, POLLIN, 0}; return poll(&p, 1, 0) == 1; }
static void fd_fire(int f) {
  if (F[f].n > 50) return;
  u64 one = 1; if (write(F[f].wr, &one, F[f].kind == 1 ? 8 : 1) < 0) harness_error("fire");
  F[f].n++; logop("descriptor %d is made readable", f);
}
static void fd_clear(int f) {
  char b[4096]; if (!F[f].n) return;
  if (read(F[f].rd, b, sizeof b) <= 0) harness_error("clear");
  while (F[f].kind == 2 && fd_ready(f)) if (read(F[f].rd, b, sizeof b) <= 0) break;
  F[f].n = 0; logop("descriptor %d is cleared", f);
}
static void fds_kept(const char *what) {
  for (int f = 0; f < NFD; f++) {
    bool ok = fd_ready(f) == (F[f].n > 0); int n = 0;
    if (ok && F[f].kind == 0 && ioctl(F[f].rd, FIONREAD, &n) == 0 && n != F[f].n) ok = false;
    if (!ok) violation("fd-consumed", fmt("%s: a descriptor with %d events is%s readable, %d bytes", what, F[f].n, fd_ready(f) ? "" : " not", n));
  }
}
static bool any_ready(int k) { for (int f : C[k].fds) if (F[f].n) return true; return false; }
static const char *kname(int k) { Caller &c = C[k]; return c.rd ? rfarm ? "farm reader" : "reader" : c.buf ? c.nb ? "non-blocking buffered writer" : "buffered writer" : c.nb ? "non-blocking writer" : "writer"; }
struct Call { int k, op; M msg[MAXIOV]; int n; u64 len; bool viaflush; int cap; bool single; std::string name; };
static Cmd cmd_of(const Call &q) {
  Cmd c = {q.op, 0};
  if (q.op == S_WRITE) { c.a = q.n; c.b = q.msg[0].len; c.c = q.single; c.y = q.msg[0].id; }
  if (q.op == S_READ) { c.a = q.n; c.b = q.cap; c.c = q.single; }
  if (q.op == S_FLUSH) c.a = q.viaflush;
  return c;
}
static Call mkcall(int k) {
  Call q; q.k = k; q.viaflush = false; q.len = 0; q.cap = 0; q.single = G.p(60);
  Caller &c = C[k];
  if (c.rd) { q.op = S_READ; q.n = q.single ? 1 : G.range(1, MAXGOT - 1); q.cap = sizeof big; q.name = q.single ? "shr_read" : "shr_readv"; return q; }
  if (c.buf && G.p(35)) { q.op = S_FLUSH; q.n = 0; q.viaflush = c.nb ? G.p(70) : G.p(60); q.name = fmt("shr_flush(%d)", q.viaflush); return q; }
  q.op = S_WRITE;
  u64 cap = std::max<u64>(1, rn);
  q.n = q.single ? 1 : G.range(1, std::min<u64>(MAXIOV, rmm));
  u64 max = std::max<u64>(1, cap / q.n);
  u64 l = G.p(30) ? G.range(1, std::min<u64>(max, 8)) : G.p(60) ? G.range(1, max) : std::max<u64>(1, std::min<u64>(max, (rn - used) / q.n + G.below(3)));
  if (l > 60000 / q.n) l = 60000 / q.n;
  if (c.buf && G.p(60)) l = std::min<u64>(l, 1 + rn / 40);
  for (int j = 0; j < q.n; j++) q.msg[j] = {++nextid, (unsigned)l};
  q.len = l * q.n; q.name = fmt("%s of %d x %llu", q.single ? "shr_write" : "shr_writev", q.n, (unsigned long long)l);
  return q;
}
/* may the call proceed, as things are? 1 yes 0 no -1 either (a buffered writer's) */
static int can(const Call &q) {
  Caller &c = C[q.k];
  if (c.rd) return !queue_of(q.k).empty();
  if (q.op == S_FLUSH) return fits(bytes(c.pend), c.pend.size());
  if (!c.buf) return fits(q.len, q.n);
  if (fits(bytes(c.pend) + q.len, c.pend.size() + q.n)) return 1;
  return -1;
}
static bool blocking(const Call &q) { return !C[q.k].nb || (q.op == S_FLUSH && q.viaflush && C[q.k].buf); }
/* the call has returned: what it returned must be right, and its effect is entered */
static void judge(const Call &q, bool may3, bool mayintr, bool mayproceed, bool must) {
  Caller &c = C[q.k]; Rep r = actors[q.k + 1].c->r;
  std::string what = fmt("%s of a %s", q.name.c_str(), kname(q.k));
  logop("%s in process %d returned %ld", what.c_str(), q.k + 1, r.r);
  count("calls_judged");
  if (r.r == -3 && !may3) violation("minus-3", fmt("%s returned -3 although %s", what.c_str(), may3 ? "" : any_ready(q.k) ? "it need not wait" : "no descriptor of its caller is readable"));
  if (r.r == -1 && !mayintr) violation("failed", fmt("%s returned -1", what.c_str()));
  if (r.r < 0 && r.r != -1 && r.r != -3) violation("failed", fmt("%s returned %ld", what.c_str(), r.r));
  if (r.r == -3) { count("minus3"); distinct("ends", mix(q.op * 16 + c.rd * 8 + c.buf * 4 + c.nb * 2, 3 + queue_of(q.k).size() % 7 * 10 + c.fds.size() * 100)); }
  if (r.r == -1) { count("minus1"); distinct("ends", mix(q.op * 16 + c.rd * 8 + c.buf * 4 + c.nb * 2, 4 + queue_of(q.k).size() % 7 * 10 + c.fds.size() * 100)); }
  if (r.r >= 0) { count("completed"); distinct("ends", mix(q.op * 16 + c.rd * 8 + c.buf * 4 + c.nb * 2, 5 + queue_of(q.k).size() % 7 * 10 + any_ready(q.k) * 100)); }
  if (c.rd) {
    auto &qu = queue_of(q.k);
    if (r.r == 0) { if (!(c.nb && qu.empty())) violation("content", fmt("%s returned 0 with %zu messages to be read", what.c_str(), qu.size())); }
    if (r.r > 0) {
      Got *g = (Got *)actors[q.k + 1].c->note; u64 sum = 0;
      for (int j = 0; j < r.r2; j++) {
        if (qu.empty()) violation("content", what + " returned more messages than there are");
        M m = qu.front(); std::vector<char> b(m.len); gen(m.id, b.data(), m.len);
        if (g[j].len != m.len || g[j].hash != hash(b.data(), m.len)) violation("content", fmt("%s returned a message of %u bytes that is not the next one (of %u bytes)", what.c_str(), g[j].len, m.len));
        qu.pop_front(); if (!rfarm) used -= m.len; sum += m.len;
      }
      if ((long)sum != r.r) violation("content", what + fmt(" returned %ld for %llu bytes", r.r, (unsigned long long)sum));
    }
  } else {
    if (q.op == S_WRITE && r.r > 0 && r.r != (long)q.len) violation("content", fmt("%s returned %ld", what.c_str(), r.r));
    if (r.r == 0 && must && (q.op == S_WRITE || !c.pend.empty()) && blocking(q)) violation("content", fmt("%s returned 0", what.c_str()));
    if (q.op == S_WRITE && r.r > 0 && !c.buf) { if (!mayproceed) violation("content", what + " succeeded on a full ring"); for (int j = 0; j < q.n; j++) put(q.msg[j]); }
    if (c.buf) {
      size_t before = c.pend.size(); u64 b0 = bytes(c.pend);
      settle_buffered(q.k, (M *)q.msg, q.op == S_WRITE ? q.n : 0, r.r, what.c_str());
      if (q.op == S_FLUSH) {
        if (r.r > 0 && (!c.pend.empty() || r.r != (long)b0)) violation("content", fmt("%s returned %ld for %zu messages, %llu bytes buffered; %zu still are", what.c_str(), r.r, before, (unsigned long long)b0, c.pend.size()));
        if (r.r < 0 && c.pend.size() != before) violation("content", fmt("%s returned %ld but wrote %zu messages", what.c_str(), r.r, before));
      }
      if (q.op == S_WRITE && r.r == 0 && before == 0 && c.pend.size()) violation("content", what);
    }
  }
  check_ring(what.c_str());
  fds_kept(what.c_str());
}
static void peer_write(unsigned len) {
  M m = {++nextid, len}; Cmd c = {S_WRITE, 1, 1, (int)len, 1}; c.y = m.id;
  bool f = fits(len, 1);
  Rep &r = rpc(0, c, "write");
  logop("peer writes %u: %ld", len, r.r);
  if (r.r != (f ? (long)len : 0)) violation("later-call", fmt("a write of %u bytes by another process returned %ld", len, r.r));
  if (f) put(m);
}
static void peer_read(int n) {
  if (rfarm) return;
  for (; n > 0; n--) {
    Cmd c = {S_READ, 0, 1, (int)sizeof big, 1}; Rep &r = rpc(0, c, "read");
    logop("peer reads: %ld", r.r);
    if (R.empty()) { if (r.r) violation("later-call", fmt("a read of the empty ring returned %ld", r.r)); return; }
    M m = R.front(); std::vector<char> b(m.len); gen(m.id, b.data(), m.len);
    Got *g = (Got *)actors[0].c->note;
    if (r.r != (long)m.len || g[0].hash != hash(b.data(), m.len)) violation("later-call", fmt("another process read %ld bytes, not the next message of %u", r.r, m.len));
    R.pop_front(); used -= m.len;
  }
}
static bool locked;
static void ring_lock(bool on) {
  struct flock f; memset(&f, 0, sizeof f); f.l_type = on ? F_WRLCK : F_UNLCK; f.l_whence = SEEK_SET;
  if (fcntl(lockfd, F_SETLKW, &f)) harness_error("lock");
  locked = on;
}
static void sig(int k) { kill(actors[k + 1].pid, G.p(50) ? SIGUSR1 : SIGUSR2); count("signals"); logop("signal to process %d", k + 1); }
/* make what the sleeping call waits for come true; false: cannot */
static bool provide(const Call &q) {
  Caller &c = C[q.k];
  if (c.rd) { peer_write(G.range(1, std::min<u64>(rn, 40))); return true; }
  if (rfarm || rdrop) return false;
  peer_read(R.size());
  return true;
}
static void one_call(int k) {
  Caller &c = C[k]; Actor &a = actors[k + 1];
  if (G.p(50)) for (int f : c.fds) if (G.p(80)) fd_clear(f);
  Call q = mkcall(k);
  int can0 = can(q); bool ready = any_ready(k);
  const char *what = q.name.c_str();
  if (c.storm) { /* signals all the while */
    Cmd st = {S_STORM, 0, (int)G.range(20, 400)}; rpc(k + 1, st, "setitimer");
  }
  bool st = c.storm;
  logop("process %d (%s): %s; %s, %s%s", k + 1, kname(k), what, can0 == 1 ? "need not wait" : can0 == 0 ? "must wait" : "may have to wait", ready ? "descriptor ready" : "no descriptor ready", st ? ", signals" : "");
  int mode = G.below(10);
  bool intr = st, fired = false, provided = false;
  if (!blocking(q)) { /* returns at once whatever is ready */
    actor_send(a, cmd_of(q)); finish(a, what, "though it is not blocking");
    judge(q, false, intr, can0 != 0, can0 == 1);
  } else if (can0 == 1) {
    if (mode < 3 && !st) { /* held up by the lock, and interrupted there */
      ring_lock(true); actor_send(a, cmd_of(q));
      int s = actor_settle(a, SOON);
      if (s == 1) { count("lock_waits");
        if (G.p(60)) { sig(k); intr = true; s = actor_settle(a, SOON); if (s == 0) count("lock_waits_interrupted"); } }
      long early = s == 0 && (q.op == S_READ || !c.buf || (q.op == S_FLUSH && !c.pend.empty())) ? a.c->r.r : -1;
      if (early >= 0) violation("unlocked", fmt("%s of a %s returned %ld while the ring was locked by another process%s", what, kname(k), early, intr ? ", after a signal" : ""));
      ring_lock(false);
      finish(a, what, "though it need not wait, and the lock is free");
      if (s == 0 && !intr && !(c.buf && q.op == S_WRITE) && !(q.op == S_FLUSH && c.pend.empty())) violation("unlocked", fmt("%s returned %ld while the ring was locked by another process", what, a.c->r.r));
    } else {
      bool late = false;
      actor_send(a, cmd_of(q));
      if (mode == 4 && c.fds.size()) { fd_fire(c.fds[G.below(c.fds.size())]); late = true; }
      if (mode == 5) { sig(k); intr = true; }
      (void)late;
      finish(a, what, "though it need not wait");
    }
    judge(q, false, intr, true, true);
    if (a.c->r.r < 0) { if (ready) count("interrupted_ready"); }
    else if (ready) count("completed_while_ready");
  } else {
    if (mode < 3 && !ready) { /* the event races with the call */
      actor_send(a, cmd_of(q));
      if (G.p(50)) usleep(G.below(300)); else for (int n = G.below(2000); n > 0; n--) __asm__ volatile("pause");
      if (c.fds.size() && G.p(60)) { fd_fire(c.fds[G.below(c.fds.size())]); fired = true; }
      else if (G.p(40)) { sig(k); intr = true; }
      else { provided = provide(q); }
    } else {
      actor_send(a, cmd_of(q));
      if (st && ready) { finish(a, what, "though a descriptor of its caller is readable, and it is interrupted"); judge(q, true, true, false, false); return; }
      if (ready && can0 == 0) { finish(a, what, "though a descriptor of its caller is readable"); judge(q, true, false, false, false); if (a.c->r.r != -3) violation("minus-3", fmt("%s returned %ld", what, a.c->r.r)); count("minus3_ready_before"); return; }
      int s = actor_settle(a, SOON);
      if (s == -1 && !a.alive) finish(a, what, "");
      if (s == 0) { /* returned without waiting */
        judge(q, ready, intr, can0 != 0, can0 == 1);
        if (can0 == 0 && a.c->r.r != -1) violation("no-wait", fmt("%s returned %ld though it must wait, and nothing happened", what, a.c->r.r));
        return;
      }
      if (s == 1) { count("asleep"); distinct("asleep", mix(q.op * 8 + c.rd * 4 + c.buf * 2 + c.nb, R.size() % 16 + rfarm * 100 + c.fds.size() * 1000));
        if (any_ready(k)) violation("asleep-ready", fmt("%s sleeps though a descriptor of its caller is readable", what));
        if (c.buf && !rdrop) { /* is it right to sleep? */
          u64 m, u; stat2(&m, &u);
          if (m != R.size() && m != R.size() + c.pend.size()) violation("content", fmt("while %s sleeps the ring has %llu messages, it had %zu, %zu were buffered", what, (unsigned long long)m, R.size(), c.pend.size()));
          if (m != R.size() && !c.pend.empty()) { for (auto &x : c.pend) put(x); c.pend.clear(); }
          if (c.pend.empty() ? q.op == S_FLUSH || fits(q.len, q.n) : fits(bytes(c.pend), c.pend.size())) violation("asleep-free", fmt("%s sleeps though there is room", what));
        }
      }
      int ev = G.below(10);
      for (int j = 0; j < 6 && ev < 4; j++) { /* signals: each ends the call with -1, or leaves it asleep */
        sig(k); intr = true;
        if (G.p(30)) sig(k);
        int s2 = actor_settle(a, SOON);
        if (s2 == 0) break;
        if (G.p(40)) break;
      }
      if (!actor_done(a)) {
        if (ev == 9 && C.size() > 1) { /* others' events leave it asleep */
          for (size_t o = 0; o < C.size(); o++) if ((int)o != k) for (int f : C[o].fds) if (std::find(c.fds.begin(), c.fds.end(), f) == c.fds.end()) fd_fire(f);
          int s2 = actor_settle(a, SOON); count("others_events");
          if (s2 == 0 && !intr) { judge(q, false, intr, false, false); violation("no-wait", fmt("%s returned %ld on an event of another's descriptor", what, a.c->r.r)); }
        }
        if (!actor_done(a)) {
          bool f3 = c.fds.size() && G.p(55), pr = !f3 || G.p(25);
          bool first = G.p(50);
          if (pr && first) provided = provide(q);
          if (f3) { fd_fire(c.fds[G.below(c.fds.size())]); fired = true; }
          if (pr && !first && !(f3 && rfarm && false)) provided = provide(q);
        }
      }
    }
    if (provided || fired || intr) {
      /* provided something that does not suffice (raced)? then end it */
      if (!actor_wait(a, provided || fired ? SOON : 0.3)) {
        if (!a.alive) finish(a, what, "");
        if (fired) violation("stuck", fmt("%s does not return though a descriptor of its caller is readable (%s)", what, where(a).c_str()));
        if (provided) violation("stuck", fmt("%s does not return though what it waits for is there (%s)", what, where(a).c_str()));
        provided = provide(q);
        finish(a, what, "though what it waits for is there");
      }
    } else {
      int s = actor_settle(a, SOON);
      if (s != 0) { provided = provide(q); finish(a, what, "though what it waits for is there"); }
    }
    judge(q, fired || any_ready(k), intr, provided || can0 != 0, false);
    if (!provided && !c.buf && a.c->r.r >= 0) violation("no-wait", fmt("%s returned %ld though nothing it waits for came about", what, a.c->r.r));
    if (fired && !provided && !intr && !(c.buf && q.op == S_WRITE) && a.c->r.r != -3) violation("minus-3", fmt("%s returned %ld though only a descriptor became readable", what, a.c->r.r));
    if (provided && !fired && !intr && !any_ready(k) && !(q.op == S_FLUSH && c.pend.empty()) && a.c->r.r <= 0) violation("content", fmt("%s returned %ld when what it waited for was there", what, a.c->r.r));
    if (fired && provided) count("both");
  }
}
/* several blocked readers; descriptors and signals of some, then messages */
static void many_asleep() {
  std::vector<Call> q; 
  for (size_t k = 0; k < C.size(); k++) if (C[k].rd && !C[k].nb && queue_of(k).empty() && !any_ready(k) && !C[k].storm) { Call x = mkcall(k); q.push_back(x); }
  if (q.size() < 2) return;
  for (auto &x : q) actor_send(actors[x.k + 1], cmd_of(x));
  for (auto &x : q) if (actor_settle(actors[x.k + 1], SOON) != 1) violation("no-wait", fmt("%s of an empty ring returned %ld", x.name.c_str(), actors[x.k + 1].c->r.r));
  count("many_asleep");
  std::vector<char> intr(C.size(), 0);
  for (int j = G.range(1, 4); j > 0; j--) {
    Call &x = q[G.below(q.size())];
    if (G.p(40)) { if (!actor_done(actors[x.k + 1])) { sig(x.k); intr[x.k] = 1; actor_settle(actors[x.k + 1], SOON); } }
    else if (C[x.k].fds.size()) { fd_fire(C[x.k].fds[G.below(C[x.k].fds.size())]); if (G.p(30)) usleep(G.below(200)); }
  }
  for (size_t j = 0; j < q.size(); j++) {
    Call &x = q[j]; Actor &a = actors[x.k + 1];
    if (any_ready(x.k)) finish(a, x.name.c_str(), "though a descriptor of its caller is readable");
    else if (!intr[x.k]) { if (actor_settle(a, SOON) != 1) violation("no-wait", fmt("%s of an empty ring returned %ld, no descriptor of its caller is readable", x.name.c_str(), a.c->r.r)); continue; }
    else if (actor_settle(a, SOON) == 1) continue;
    judge(x, any_ready(x.k), intr[x.k], false, false);
    if (a.c->r.r >= 0) violation("no-wait", fmt("%s of an empty ring returned %ld", x.name.c_str(), a.c->r.r));
    q.erase(q.begin() + j--);
  }
  while (q.size()) { /* the rest get a message each (all of them the same one, on a farm) */
    peer_write(G.range(1, std::min<u64>(rn, 30)));
    double t0 = now(); size_t want = rfarm ? q.size() : 1, n = 0;
    while (n < want) {
      for (size_t j = 0; j < q.size(); j++) if (actor_done(actors[q[j].k + 1])) {
        Call x = q[j]; q.erase(q.begin() + j--); n++;
        judge(x, false, intr[x.k], true, true);
        if (actors[x.k + 1].c->r.r == -1) want++;
        if (want > n + q.size()) want = n + q.size();
      }
      if (n < want && now() - t0 > SOON) violation("stuck", fmt("%zu of %zu blocked readers did not return after a write", want - n, want));
      usleep(50);
    }
    if (!rfarm && !R.empty()) peer_read(R.size());
    if (rfarm) break;
  }
}
/* a call of another kind, held up by the lock and interrupted */
static void misc(int k) {
  Actor &a = actors[k + 1]; Caller &c = C[k]; int w = G.below(3); if (w == 1 && !rapp) w = 0;
  Cmd m = {w == 0 ? S_STAT : w == 1 ? S_APPDATA : S_OPEN2, 0};
  if (w == 2) m.a = c.rd ? SHR_RDONLY : SHR_WRONLY;
  const char *what = w == 0 ? "shr_stat" : w == 1 ? "shr_appdata" : "shr_open";
  bool intr = false;
  ring_lock(true); actor_send(a, m);
  int s = actor_settle(a, SOON); 
  if (s == 1 && G.p(70)) { sig(k); intr = true; s = actor_settle(a, SOON); }
  ring_lock(false);
  finish(a, what, "though the lock is free");
  long r = a.c->r.r; logop("%s in process %d, the ring locked meanwhile%s: %ld", what, k + 1, intr ? ", a signal" : "", r);
  count("misc_calls");
  bool ok = w == 2 ? r == 1 : r == 0;
  if (!ok && !intr) violation("failed", fmt("%s failed", what));
  if (ok && w == 0 && !rfarm && (a.c->r.r2 != (long)R.size() || a.c->r.r3 != (long)used)) violation("content", fmt("%s gave %ld messages, %ld bytes", what, a.c->r.r2, a.c->r.r3));
  if (ok && w == 1 && a.c->r.r2 != (long)rapp) violation("content", fmt("%s gave %ld bytes of app-data", what, a.c->r.r2));
}
static void run_case(u64 k) {
  G = Rng(mix(A.seed * 1000003 + 77, k)); begin_case(k); R.clear(); used = 0; nextid = k * 1000000; C.clear();
  bool bufonly = A.mode == "buffered";
  ring = A.dir + fmt("/sig%llu.ring", (unsigned long long)k); unlink(ring.c_str());
  rn = G.p(50) ? G.range(10, 300) : G.range(300, 6000); rmm = G.p(40) ? G.range(2, 20) : G.range(20, 400);
  rfarm = !bufonly && G.p(20); rdrop = rfarm || (!bufonly && G.p(10)); rapp = G.p(50) ? G.range(1, 50) : 0;
  if (rfarm) rmm = std::max<u64>(rmm, 8);
  std::vector<char> ad(rapp + 1, 7);
  unsigned fl = SHR_MAXMSGS_2 | (rfarm ? SHR_FARM : rdrop ? SHR_DROP : 0) | (rapp ? SHR_APPDATA : 0);
  int rc = rapp ? shr_init((char *)ring.c_str(), rn, fl | 0, (void *)ad.data(), (size_t)rapp, (size_t)rmm) : shr_init((char *)ring.c_str(), rn, fl, (size_t)rmm);
  if (rc) violation("init", "shr_init failed");
  casehdr = fmt("ring of %llu bytes, %llu messages%s%s", (unsigned long long)rn, (unsigned long long)rmm, rdrop ? ", drop" : "", rfarm ? ", farm" : "");
  for (int f = 0; f < NFD; f++) {
    int p[2]; F[f].kind = f % 3; F[f].n = 0;
    if (F[f].kind == 0) { if (pipe(p)) harness_error("pipe"); }
    else if (F[f].kind == 1) { p[0] = p[1] = eventfd(0, 0); }
    else if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) harness_error("socketpair");
    F[f].rd = p[0]; F[f].wr = p[1];
  }
  actor_start(0, serve, 0);
  Cmd o = {S_OPEN, 0, (int)(SHR_RDONLY | SHR_NONBLOCK)}; if (rpc(0, o, "open").r != 1) violation("open", "a reader cannot open the ring");
  o.h = 1; o.a = SHR_WRONLY | SHR_NONBLOCK; if (rpc(0, o, "open").r != 1) violation("open", "a writer cannot open the ring");
  lockfd = open(ring.c_str(), O_RDWR | O_CLOEXEC);
  int nc = G.range(1, 4);
  for (int j = 0; j < nc; j++) {
    Caller c; c.rd = !bufonly && (rdrop ? G.p(80) : G.p(50)); c.nb = !c.rd && G.p(25); c.buf = !c.rd && !rdrop && (bufonly || c.nb || G.p(50)); c.storm = G.p(15);
    actor_start(j + 1, serve, 0);
    o.h = 0; o.a = (c.rd ? SHR_RDONLY : SHR_WRONLY) | (c.nb ? SHR_NONBLOCK : 0) | (c.buf ? SHR_BUFFERED : 0);
    if (rpc(j + 1, o, "open").r != 1) violation("open", "a caller cannot open the ring");
    int nf = c.nb ? 0 : G.below(4);
    for (int f = 0; f < nf; f++) {
      int x = G.p(30) ? G.below(2) : 2 + j * 5 + f; /* some are given by several */
      if (std::find(c.fds.begin(), c.fds.end(), x) != c.fds.end()) continue;
      Cmd ct = {S_CTL, 0, x}; if (rpc(j + 1, ct, "shr_ctl").r) violation("ctl", "shr_ctl with a descriptor failed");
      c.fds.push_back(x);
    }
    C.push_back(c);
    casehdr += fmt("; process %d: %s%s, %zu descriptors", j + 1, kname(j), c.storm ? " with signals all the while" : "", c.fds.size());
  }
  logop("%s", casehdr.c_str());
  int steps = G.range(30, 90);
  for (int s = 0; s < steps; s++) {
    int what = G.below(100), k2 = G.below(C.size());
    if (what < 58) one_call(k2);
    else if (what < 66) { for (int n = G.range(1, 3); n > 0; n--) { u64 fr = rn - used; unsigned l = G.p(40) && fr && fr < 60000 ? fr : G.range(1, std::min<u64>(rn, 600)); peer_write(l); } }
    else if (what < 72) peer_read(G.p(50) ? 1 : R.size());
    else if (what < 80) { for (int f = 0; f < NFD; f++) if (G.p(70)) fd_clear(f); }
    else if (what < 84) { if (C[k2].fds.size()) fd_fire(C[k2].fds[G.below(C[k2].fds.size())]); }
    else if (what < 90) { if (!C[k2].storm) misc(k2); }
    else if (what < 94) { if (!rfarm) peer_read(R.size()); if (G.p(50)) for (int f = 0; f < NFD; f++) fd_clear(f); many_asleep(); }
    else if (what < 96 && C[k2].fds.size() < 5 && !C[k2].nb) { int x = 2 + k2 * 5 + C[k2].fds.size(); if (std::find(C[k2].fds.begin(), C[k2].fds.end(), x) == C[k2].fds.end()) { Cmd ct = {S_CTL, 0, x}; if (rpc(k2 + 1, ct, "shr_ctl").r) violation("ctl", "shr_ctl with a descriptor failed"); C[k2].fds.push_back(x); logop("process %d gives descriptor %d", k2 + 1, x); } }
    if (C[k2].storm) { Cmd st = {S_STORM, 0, 0}; rpc(k2 + 1, st, "setitimer"); count("storm_signals", actors[k2 + 1].c->r.r2); }
  }
  /* in the end: every buffered message can be flushed, and every message read */
  for (size_t j = 0; j < C.size(); j++) if (C[j].buf) {
    if (!rdrop) peer_read(R.size());
    Cmd f = {S_FLUSH, 0, 0}; u64 b0 = bytes(C[j].pend); Rep &r = rpc(j + 1, f, "flush");
    if (r.r != (long)b0) violation("lost", fmt("the last flush returned %ld, %llu bytes are buffered", r.r, (unsigned long long)b0));
    for (auto &x : C[j].pend) put(x);
    C[j].pend.clear();
  }
  check_ring("the last flush");
  if (!rfarm) { peer_read(R.size() + 1); }
  for (size_t j = 0; j < C.size(); j++) { Cmd c = {S_CLOSE, 0}; rpc(j + 1, c, "close"); }
  actors_end(); close(lockfd);
  for (int f = 0; f < NFD; f++) { close(F[f].rd); if (F[f].wr != F[f].rd) close(F[f].wr); }
  unlink(ring.c_str()); count("cases");
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  actors_init(8); signal(SIGALRM, on_alarm);
  for (u64 k = A.from; k < A.to; k++) { alarm(120 * A.slow); run_case(k); alarm(0); }
  write_out(NULL, "", 0);
  return 0;
}
