/* The block/wake library by itself. A controller has processes open a handle
 * for waiting or waking, wake, wait, force, clear, close and die, one call at
 * a time (as its users would, by a lock), and knows the bounds of each
 * waiter's pending wakeups. */
#include "actors.h"
#include "bw.h"
#include "vi.h"
#include <sys/eventfd.h>
#include <sys/ioctl.h>

enum { B_OPENW = 1, B_OPENK, B_CLOSE, B_WAKE, B_WAIT, B_READY, B_FORCE, B_POLL, B_CTL, B_MULTI };
static std::string file; static bw_handle *hs; static const int NH = 3;
static char *mapping; static size_t maplen;
#define MAXB 160
static bw_t *bt[MAXB]; static int wfd[MAXB];
static int evfd[8];
static void serve(Chan *c) {
  Cmd &m = c->c; Rep &r = c->r; r.r = -99;
  c->incall = 1;
  switch (m.op) {
    case B_OPENW: { int fd = -1; bt[m.h] = bw_open(BW_WAIT | m.a, &hs[m.b], &fd); wfd[m.h] = fd; r.r = bt[m.h] != NULL; r.r2 = fd; break; }
    case B_OPENK: bt[m.h] = bw_open(BW_WAKE | m.a, &hs[m.b]); r.r = bt[m.h] != NULL; break;
    case B_CLOSE: bw_close(bt[m.h]); bt[m.h] = NULL; r.r = 0; break;
    case B_WAKE: r.r = 0; for (int k = 0; k < m.a; k++) if (bw_wake(bt[m.h])) r.r = -1; break;
    case B_WAIT: r.r = bw_wait_ul(bt[m.h]); break;
    case B_READY: r.r = bw_ready_ul(bt[m.h]); break;
    case B_FORCE: r.r = bw_force(bt[m.h], m.a); break;
    case B_CTL: r.r = bw_ctl(bt[m.h], BW_POLLFD, evfd[m.a]); break;
    case B_POLL: r.r = 0; break;
  }
  c->incall = 0;
  if (m.op != B_CLOSE && bt[m.h] && wfd[m.h] >= 0 && m.op != B_OPENK) { struct pollfd p = {wfd[m.h], POLLIN, 0}; r.r3 = poll(&p, 1, 0) == 1; }
}
struct Wt { int act, idx, h; u64 lo, hi; bool asleep; std::vector<int> fds; }; /* bounds of the wakeups pending */
struct Wk { int act, idx, h; };
static std::vector<Wt> W; static std::vector<Wk> K; static int dead_places[NH]; static int nuid;
static Rng G(1); static bool ev[8]; static u64 qmax;
#define SOON (6.0 * A.slow)
static Rep &rpc(int act, Cmd c, const char *what) {
  actor_send(actors[act], c);
  if (!actor_wait(actors[act], SOON)) {
    if (!actors[act].alive) violation("crash", fmt("a process ended with status %x in %s", actors[act].c->dead & 0xffff, what));
    violation("stuck", fmt("%s does not return", what));
  }
  return actors[act].c->r;
}
static int idx_free(int act) { bool u[MAXB] = {0}; for (auto &w : W) if (w.act == act) u[w.idx] = true; for (auto &w : K) if (w.act == act) u[w.idx] = true; for (int k = 0; k < MAXB; k++) if (!u[k]) return k; return -1; }
static int nwait(int h) { int n = 0; for (auto &w : W) if (w.h == h) n++; return n; }
static bool asleep_act(int act) { for (auto &w : W) if (w.act == act && w.asleep) return true; return false; }
static void readable(Wt &w, long got, const char *after) {
  count("readability_checks"); distinct("states", mix(mix(std::min<u64>(w.lo, 20) * 50 + std::min<u64>(w.hi, 20), nwait(w.h)), dead_places[w.h] * 4 + w.fds.size()));
  if (w.lo > 0 && !got) violation("not-readable", fmt("after %s the descriptor of a waiter with %llu to %llu wakeups pending is not readable", after, (unsigned long long)w.lo, (unsigned long long)w.hi));
  if (w.hi == 0 && got) violation("readable", fmt("after %s the descriptor of a waiter with no wakeup pending is readable", after));
}
static void check(Wt &w, const char *after) {
  if (w.asleep || asleep_act(w.act)) return;
  Cmd c = {B_POLL, w.idx}; readable(w, rpc(w.act, c, "poll").r3, after);
}
static bool any(Wt &w) { for (int f : w.fds) if (ev[f]) return true; return false; }
/* the wait of w has to end with r */
static void woken(Wt &w, bool wake, const char *why, bool stale = false) {
  Actor &a = actors[w.act];
  if (!actor_wait(a, SOON)) { if (!a.alive) violation("crash", "a process ended in bw_wait_ul"); violation("not-woken", fmt("a process in bw_wait_ul does not return after %s; %d waiters, %d dead", why, nwait(w.h), dead_places[w.h])); }
  long r = a.c->r.r; w.asleep = false;
  count("wakes_seen");
  if (r != 0 && !(r == -3 && any(w))) violation("wait", fmt("bw_wait_ul returned %ld after %s", r, why));
  if (r == 0) { if (!wake) violation("wait", fmt("bw_wait_ul returned 0 without a wakeup, after %s", why)); if (w.lo) w.lo--; if (w.hi) w.hi--; }
  if (!stale) readable(w, a.c->r.r3, "a wait"); /* else it looked perhaps while more wakes came */
}
static void do_wake(Wk &k, int n) {
  Cmd c = {B_WAKE, k.idx, n};
  Rep &r = rpc(k.act, c, "bw_wake");
  logop("wake x%d of handle %d by process %d: %ld (%d waiters, %d dead)", n, k.h, k.act, r.r, nwait(k.h), dead_places[k.h]);
  count("wakes"); if (!nwait(k.h)) count("wakes_of_none");
  if (r.r) violation("wake-failed", fmt("bw_wake failed with %d waiters, %d dead", nwait(k.h), dead_places[k.h]));
  dead_places[k.h] = 0;
  for (auto &w : W) if (w.h == k.h) { w.hi += n; w.lo = std::min<u64>(std::max<u64>(w.lo, std::min<u64>(qmax, w.lo + n)), w.hi); }
  for (auto &w : W) if (w.h == k.h) { if (w.asleep) woken(w, true, "a wake", n > 1); }
  for (auto &w : W) if (w.h == k.h) check(w, "a wake");
}
static void settle_all(const char *after) { /* those asleep still sleep */
  for (auto &w : W) if (w.asleep && actor_settle(actors[w.act], SOON) != 1) violation("wait", fmt("bw_wait_ul returned %ld without a wakeup, after %s", actors[w.act].c->r.r, after));
}
static int pick_act() { std::vector<int> v; for (size_t k = 0; k < actors.size(); k++) if (actors[k].alive && !asleep_act(k)) v.push_back(k); return v.empty() ? -1 : v[G.below(v.size())]; }
static Wt *pick_w() { std::vector<Wt *> v; for (auto &w : W) if (!asleep_act(w.act)) v.push_back(&w); return v.empty() ? NULL : v[G.below(v.size())]; }
static Wk *pick_k() { std::vector<Wk *> v; for (auto &w : K) if (!asleep_act(w.act)) v.push_back(&w); return v.empty() ? NULL : v[G.below(v.size())]; }
static void open_wait(int act, int h, bool trace) {
  int i = idx_free(act); if (i < 0 || nwait(h) * ((int)K.size() + 1) > 900) return;
  Cmd c = {B_OPENW, i, trace ? (int)BW_TRACE : 0, h}; Rep &r = rpc(act, c, "bw_open");
  logop("open handle %d for waiting in process %d: %ld (%d waiters, %d dead)", h, act, r.r, nwait(h), dead_places[h]);
  count("opens"); distinct("fills", nwait(h) * 100 + dead_places[h]);
  if (nwait(h) < BW_WAITMAX && !r.r) violation("open-failed", fmt("opening for waiting failed with %d waiters, %d dead", nwait(h), dead_places[h]));
  if (nwait(h) >= BW_WAITMAX && r.r) violation("too-many", fmt("a place was given with %d waiters", nwait(h)));
  if (r.r) { Wt w = {act, i, h, 0, 0, false}; W.push_back(w); readable(W.back(), r.r3, "its open"); }
  else count("refused");
  dead_places[h] = 0; 
}
static void open_wake(int act, int h, bool trace) {
  int i = idx_free(act); if (i < 0 || (nwait(h) + 1) * ((int)K.size() + 1) > 900) return;
  Cmd c = {B_OPENK, i, trace ? (int)BW_TRACE : 0, h}; Rep &r = rpc(act, c, "bw_open");
  logop("open handle %d for waking in process %d: %ld (%d waiters, %d dead)", h, act, r.r, nwait(h), dead_places[h]);
  count("opens");
  if (!r.r) violation("open-failed", fmt("opening for waking failed with %d waiters, %d dead", nwait(h), dead_places[h]));
  K.push_back({act, i, h}); dead_places[h] = 0;
}
static void kill_act(int act, bool reap) {
  int n = 0;
  for (size_t k = 0; k < W.size(); k++) if (W[k].act == act) { dead_places[W[k].h]++; W.erase(W.begin() + k--); n++; }
  for (size_t k = 0; k < K.size(); k++) if (K[k].act == act) K.erase(K.begin() + k--);
  actor_kill(actors[act], reap); logop("process %d is killed%s, it had %d places", act, reap ? "" : ", not reaped", n); count("deaths"); if (n) count("deaths_with_places");
}
static void one(u64 k) {
  G = Rng(mix(A.seed * 1000003 + 99, k)); begin_case(k); W.clear(); K.clear(); memset(dead_places, 0, sizeof dead_places); memset(ev, 0, sizeof ev);
  file = A.dir + fmt("/bw%llu", (unsigned long long)k);
  int fd = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); maplen = NH * sizeof(bw_handle);
  if (fd < 0 || ftruncate(fd, maplen)) harness_error("bw file");
  mapping = (char *)mmap(0, maplen, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
  if (mapping == MAP_FAILED) harness_error("mmap");
  hs = (bw_handle *)mapping;
  { int q = open("/proc/sys/net/unix/max_dgram_qlen", O_RDONLY); char b[20] = ""; if (q >= 0) { if (read(q, b, 19) > 0) {} close(q); } qmax = std::min(10, std::max(1, atoi(b))); }
  for (int f = 0; f < 8; f++) { evfd[f] = eventfd(0, EFD_NONBLOCK); if (evfd[f] < 0) harness_error("eventfd"); }
  int np = G.range(2, 6), bulk = G.p(15), nh = G.p(60) ? 1 : NH; 
  casehdr = fmt("%d processes%s, %d handles", np, bulk ? ", many waiters" : "", nh);
  logop("%s", casehdr.c_str());
  int started = 0;
  for (int j = 0; j < np; j++) actor_start(started++, serve, 0);
  int steps = G.range(40, 160);
  for (int s = 0; s < steps; s++) {
    int what = G.below(100), act = pick_act(), h = G.below(nh);
    if (act < 0 || (started < 30 && G.p(4))) { if (started < 30) actor_start(started++, serve, 0); continue; }
    if (what < 15) { if (W.size() < (bulk ? 100 : 10) || G.p(10)) { int n = bulk && G.p(60) ? G.range(5, 40) : 1; for (; n > 0; n--) open_wait(act, h, G.p(15)); settle_all("an open"); } }
    else if (what < 22) { if (K.size() < 6) { open_wake(act, h, G.p(15)); settle_all("an open"); } }
    else if (what < 45) { Wk *x = pick_k(); if (x) do_wake(*x, G.p(70) ? 1 : G.p(60) ? G.range(2, 9) : G.range(10, 3000)); }
    else if (what < 57) { /* wait */
      Wt *w = pick_w(); if (!w) continue;
      /* a process waits in one call: its other handles are not used meanwhile */
      Cmd c = {B_WAIT, w->idx}; actor_send(actors[w->act], c);
      logop("wait on handle %d in process %d; %llu to %llu pending, %d of %zu descriptors ready", w->h, w->act, (unsigned long long)w->lo, (unsigned long long)w->hi, (int)any(*w), w->fds.size());
      if (w->lo > 0) { count("waits_for_earlier_wake"); woken(*w, true, "a wake before it began"); }
      else if (any(*w)) { woken(*w, w->hi > 0, "a descriptor is readable"); count("minus3"); }
      else {
        int st = actor_settle(actors[w->act], SOON);
        if (st == 1) { if (w->hi) w->hi = 0; w->asleep = true; count("asleep"); }
        else if (w->hi == 0) violation("wait", fmt("bw_wait_ul returned %ld without a wakeup", actors[w->act].c->r.r));
        else woken(*w, true, "wakes before it began");
      }
    }
    else if (what < 63) { Wt *w = pick_w(); if (!w) continue; Cmd c = {B_READY, w->idx}; Rep &r = rpc(w->act, c, "bw_ready_ul"); if (r.r) violation("ready", "bw_ready_ul failed"); if (w->lo) w->lo--; if (w->hi) w->hi--; logop("ready in process %d", w->act); readable(*w, r.r3, "bw_ready_ul"); }
    else if (what < 75) {
      Wt *w = pick_w(); if (!w) continue;
      int on = G.p(50); Cmd c = {B_FORCE, w->idx, on}; Rep &r = rpc(w->act, c, "bw_force");
      logop("force %d in process %d; %llu to %llu pending", on, w->act, (unsigned long long)w->lo, (unsigned long long)w->hi);
      count("forces"); distinct("forces", mix(on, std::min<u64>(w->lo, 12) * 100 + std::min<u64>(w->hi, 30)));
      if (r.r) violation("force", fmt("bw_force(%d) failed", on));
      if (on) { if (w->hi == 0) w->lo = w->hi = 1; else if (w->lo == 0) w->lo = 1; } else w->lo = w->hi = 0;
      readable(*w, r.r3, on ? "bw_force(1)" : "bw_force(0)");
    }
    else if (what < 80) { Wt *w = pick_w(); if (!w) continue; Cmd c = {B_CLOSE, w->idx}; rpc(w->act, c, "bw_close"); logop("close of a waiter in process %d", w->act); W.erase(W.begin() + (w - &W[0])); settle_all("a close"); }
    else if (what < 82) { Wk *w = pick_k(); if (!w) continue; Cmd c = {B_CLOSE, w->idx}; rpc(w->act, c, "bw_close"); logop("close of a waker in process %d", w->act); K.erase(K.begin() + (w - &K[0])); settle_all("a close"); }
    else if (what < 88) { /* one dies, asleep perhaps */
      std::vector<int> v; for (size_t j = 0; j < actors.size(); j++) if (actors[j].alive) v.push_back(j);
      if (v.size() > 1 && G.p(60)) kill_act(v[G.below(v.size())], G.p(60));
      else for (auto &a : actors) if (!a.alive && !a.reaped) actor_reap(a);
    }
    else if (what < 95) { /* descriptors */
      Wt *w = pick_w(); int f = G.below(8);
      if (w && w->fds.size() < 3 && std::find(w->fds.begin(), w->fds.end(), f) == w->fds.end() && G.p(60)) {
        bool dup = false; for (auto &x : W) (void)x, dup = dup; 
        Cmd c = {B_CTL, w->idx, f}; if (rpc(w->act, c, "bw_ctl").r) violation("ctl", "bw_ctl failed"); w->fds.push_back(f); logop("descriptor %d given in process %d", f, w->act);
      } else {
        u64 one = 1;
        if (ev[f]) { if (read(evfd[f], &one, 8) != 8) violation("fd-consumed", "a descriptor given to bw_ctl was read from"); ev[f] = false; logop("descriptor %d cleared", f); }
        else { if (write(evfd[f], &one, 8) != 8) harness_error("eventfd"); ev[f] = true; logop("descriptor %d readable", f);
          for (auto &x : W) if (x.asleep && any(x)) { woken(x, false, "a descriptor became readable"); count("minus3"); } settle_all("another's descriptor"); }
      }
    }
    else { for (auto &w : W) check(w, "nothing"); settle_all("nothing"); }
  }
  /* at the end wake everybody */
  for (int h = 0; h < nh; h++) { int act = pick_act(); if (act < 0) { if (started >= 32) break; actor_start(started++, serve, 0); act = started - 1; } open_wake(act, h, false); for (auto &x : K) if (x.h == h && !asleep_act(x.act)) { do_wake(x, 1); break; } }
  actors_end(); munmap(mapping, maplen); unlink(file.c_str());
  for (int f = 0; f < 8; f++) close(evfd[f]);
  count("cases");
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  signal(SIGPIPE, SIG_IGN); signal(SIGALRM, on_alarm);
  actors_init(40);
  int null = open("/dev/null", O_WRONLY); if (!A.trace) dup2(null, 2); /* the library's tracing */
  for (u64 k = A.from; k < A.to; k++) { alarm(120 * A.slow); one(k); alarm(0); }
  write_out(NULL, "", 0);
  return 0;
}
