/* Waiters that come, go and die. A controller makes a random history of opens,
 * closes, deaths (reaped or not, or with the process id in use again), reads
 * and writes by up to 70 processes, and knows which places are taken; after
 * each step it compares what the calls return and who is woken. */
#include "actors.h"
#include "shr.h"
#include "vi.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/resource.h>
extern "C" { extern int vi_pid; extern unsigned vi_names, vi_name_base, vi_name_next; }

enum { C_OPEN = 1, C_CLOSE, C_OPENDIE, C_WRITE, C_READ, C_DRAIN, C_POLL, C_BLOCKW, C_BLOCKR, C_BULKOPEN, C_EXIT, C_SOCKS };
static std::string ring; static u64 rn, rmm; static bool rfarm, rdrop;
static u64 names, nbase;
struct LH { shr *s; int kind; };
static LH lh[160]; static int childuid;
static char buf[70000];
static shr *opn(unsigned fl, int pid) {
  vi_inlib = 1; vi_pid = pid; vi_names = names; vi_name_base = nbase;
  shr *s = shr_open(ring.c_str(), fl);
  vi_inlib = 0; vi_pid = 0;
  return s;
}
static void serve(Chan *c) {
  Cmd &m = c->c; Rep &r = c->r; r.r = -99;
  vi_name_next = m.x;
  switch (m.op) {
    case C_OPEN: lh[m.h].s = opn(m.a, 0); r.r = lh[m.h].s ? 1 : 0; break;
    case C_BULKOPEN: { long n = 0; for (int k = 0; k < m.b; k++) { lh[m.h + k].s = opn(m.a, 0); if (lh[m.h + k].s) n++; vi_name_next++; } r.r = n; break; }
    case C_CLOSE: shr_close(lh[m.h].s); lh[m.h].s = NULL; r.r = 0; break;
    case C_OPENDIE: lh[m.h].s = opn(m.a, m.b); r.r = lh[m.h].s ? 1 : 0; break;
    case C_WRITE: gen(m.y, buf, m.b); c->incall = 1; r.r = shr_write(lh[m.h].s, buf, m.b); c->incall = 0; break;
    case C_READ: c->incall = 1; r.r = shr_read(lh[m.h].s, buf, sizeof buf); c->incall = 0; r.r2 = r.r > 0 && gen_is(m.y, buf, r.r); memcpy(&r.x, buf, 8); break;
    case C_DRAIN: { long n, k = 0; while ((n = shr_read(lh[m.h].s, buf, sizeof buf)) > 0 && k < 100000) k++; r.r = k; r.r2 = n; break; }
    case C_POLL: { struct pollfd p = {shr_get_selectable_fd(lh[m.h].s), POLLIN, 0}; r.r = poll(&p, 1, 0); break; }
    case C_EXIT: _exit(0);
    case C_SOCKS: { int n = 0; for (int k = 0; k < m.a; k++) if (socket(AF_INET, SOCK_DGRAM, 0) >= 0) n++; r.r = n; break; }
  }
}
/* ---- the controller ---- */
enum { K_R, K_W };             /* places of readers, of blocking writers */
struct Hd { int act, idx; bool rd, nb; };
struct Dead { int kind, uid; bool exists; int actor; bool zombie; };  /* a place of a dead holder, if nobody took it up */
static std::vector<Hd> H; static std::vector<Dead> D;
static Rng G(1);
static u64 rootpid; static pid_t xpid[2];
static std::deque<std::pair<u64, unsigned>> Q; static u64 used, nextid, nmcount;
static u64 seqname;
static bool asroot;
#define NAMED(c) (c.x = seqname++)
static int live(int kind) { int n = 0; for (auto &h : H) if (kind == K_R ? h.rd : !h.rd && !h.nb && !rdrop) n++; return n; }
static void rpc(Actor &a, Cmd c, const char *what) {
  if (A.trace) printf("    rpc %d: op %d handle %d a %d b %d\n", (int)(&a - &actors[0]), c.op, c.h, c.a, c.b);
  NAMED(c);
  actor_send(a, c);
  if (!actor_wait(a, 20.0 * A.slow)) {
    if (!a.alive) violation("crash", fmt("a process ended with status %x in %s", a.c->dead & 0xffff, what));
    std::string w; for (const char *f : {"wchan", "syscall", "stack", "stat"}) { char b[400] = ""; int fd = open(fmt("/proc/%d/%s", a.pid, f).c_str(), O_RDONLY); int n = read(fd, b, 399); if (n > 0) b[n] = 0; close(fd); w += std::string(" ") + b; }
    violation("stuck", fmt("%s does not return (%s)", what, w.c_str()));
  }
}
static int idx_free(int act) { bool u[160] = {0}; for (auto &h : H) if (h.act == act) u[h.idx] = true; for (int k = 0; k < 160; k++) if (!u[k]) return k; return -1; }
static int pick_actor() { std::vector<int> v; for (size_t k = 0; k < actors.size(); k++) if (actors[k].alive) v.push_back(k); return v.empty() ? -1 : v[G.below(v.size())]; }
/* an opener takes up the places of the dead, unless their process id exists, it cannot examine that process (one of another
 * user, or a zombie if not root), and the name of their socket may be in use again */
static int reclaim(int uid, int kind) {
  int left = 0;
  for (size_t k = 0; k < D.size(); k++) if (D[k].kind == kind) {
    if (!names || !D[k].exists || (D[k].uid == uid && !(uid && D[k].zombie))) { count("reclaimed"); D.erase(D.begin() + k--); } else left++;
  }
  return left;
}
static const char *mname(bool rd, bool nb) { return rd ? nb ? "reader" : "blocking reader" : nb ? "non-blocking writer" : "blocking writer"; }
static bool do_open(int act, bool rd, bool nb) {
  int i = idx_free(act); if (i < 0) return false;
  /* each waker has a socket for each waiter: keep the product small, since openers look through all sockets of the system */
  { int nr = 0, nw = 0; for (auto &h : H) (h.rd ? nr : nw)++; if ((rd ? nw : nr) > 8 && (rd ? nr : nw) >= 8) return false; }
  Cmd c = {C_OPEN, i, (int)((rd ? SHR_RDONLY : SHR_WRONLY) | (nb ? SHR_NONBLOCK : 0))};
  rpc(actors[act], c, "open");
  bool ok = actors[act].c->r.r == 1;
  int kind = rd ? K_R : K_W; bool place = rd || (!nb && !rdrop); /* a writer of a drop ring never waits */
  int lr = live(kind), blocked = 0;
  if (place) { for (int k2 = 0; k2 < 2; k2++) { int b = reclaim(actors[act].uid, k2); if (k2 == kind) blocked = b; } }
  else reclaim(actors[act].uid, K_R), reclaim(actors[act].uid, K_W);
  logop("open %s in process %d (uid %d): %s; %d live, %d dead not reclaimable by it", mname(rd, nb), act, actors[act].uid, ok ? "ok" : "NULL", lr, blocked);
  count("opens"); distinct("fill", mix(kind * 100 + lr, blocked * 4 + ok));
  if (!place && !ok && (nb || H.size() < 64)) violation("open-failed", fmt("a non-blocking writer could not open the ring with %d readers, %d dead waiters", live(K_R), (int)D.size()));
  if (place && ok && lr >= 64) violation("too-many", fmt("a %s was given a place with %d live", mname(rd, nb), lr));
  if (place && !ok && lr + blocked < 64) violation("open-failed", fmt("a %s could not open the ring with %d live ones and %d dead ones it cannot examine", mname(rd, nb), lr, blocked));
  if (!ok && lr >= 64) count("refused_65th");
  if (ok) { H.push_back({act, i, rd, nb}); if (rd && rfarm) {} }
  if (place && ok && blocked && lr + blocked >= 64) { /* some must have been free after all */ for (size_t k = 0; k < D.size(); k++) if (D[k].kind == kind) D.erase(D.begin() + k--); }
  return ok;
}
static void die(int act, int how) {
  Actor &a = actors[act];
  bool zombie = how == 1;
  int uid = a.uid;
  if (how == 2) { Cmd c = {C_EXIT}; actor_send(a, c); siginfo_t si; waitid(P_PID, a.pid, &si, WEXITED | WNOWAIT); a.alive = false; zombie = G.p(50); if (!zombie) actor_reap(a); else a.zombie = true; }
  else actor_kill(a, !zombie);
  int n = 0;
  for (auto &d : D) if (d.actor == act) d.exists = d.zombie = zombie;
  for (size_t k = 0; k < H.size(); k++) if (H[k].act == act) {
    if (H[k].rd || (!H[k].nb && !rdrop)) D.push_back({H[k].rd ? K_R : K_W, uid, zombie, act, zombie});
    H.erase(H.begin() + k--); n++;
  }
  logop("process %d %s%s with %d handles", act, how == 2 ? "exits" : "is killed", zombie ? ", not reaped," : "", n);
  count("deaths"); if (n) count(zombie ? "deaths_with_places_zombie" : "deaths_with_places");
}
static void reap(int act) { actor_reap(actors[act]); for (auto &d : D) if (d.actor == act) d.exists = false; }
static Hd *pick(bool rd, int nb) { std::vector<Hd *> v; for (auto &h : H) if (h.rd == rd && (nb < 0 || h.nb == (bool)nb)) v.push_back(&h); return v.empty() ? NULL : v[G.below(v.size())]; }
static void wrote(u64 id, unsigned len) {
  while (rdrop && (used + len > rn || Q.size() + 1 > rmm)) { used -= Q.front().second; Q.pop_front(); }
  Q.push_back({id, len}); used += len;
}
static bool do_write(Hd *h, unsigned len) {
  if (!h->nb && !rdrop && (used + len > rn || Q.size() + 1 > rmm)) return false;
  u64 id = ++nextid;
  Cmd c = {C_WRITE, h->idx, 0, (int)len}; c.y = id;
  bool fits = rdrop || (used + len <= rn && Q.size() + 1 <= rmm);
  rpc(actors[h->act], c, "write");
  long r = actors[h->act].c->r.r;
  logop("write of %u bytes in process %d: %ld", len, h->act, r);
  count("writes");
  if (r != (fits ? (long)len : 0)) violation("write-failed", fmt("a write returned %ld, %ld expected, with %d readers and %d places of dead waiters", r, fits ? (long)len : 0, live(K_R), (int)D.size()));
  if (r > 0) wrote(id, len);
  return r > 0;
}
static void do_read(Hd *h) { /* not on a farm */
  if (!h->nb && Q.empty()) return;
  Cmd c = {C_READ, h->idx}; c.y = Q.empty() ? 0 : Q.front().first;
  rpc(actors[h->act], c, "read");
  Rep &r = actors[h->act].c->r;
  logop("read in process %d: %ld", h->act, r.r);
  count("reads");
  if (r.r != (Q.empty() ? 0 : (long)Q.front().second) || (r.r > 0 && !r.r2)) violation("read-failed", fmt("a read returned %ld%s, %u expected, with %d live blocking writers and %d places of dead waiters", r.r, r.r > 0 && !r.r2 ? " (other bytes)" : "", Q.empty() ? 0 : Q.front().second, live(K_W), (int)D.size()));
  if (r.r > 0) { used -= Q.front().second; Q.pop_front(); }
}
static int polled(Hd &h) { Cmd c = {C_POLL, h.idx}; rpc(actors[h.act], c, "poll"); return actors[h.act].c->r.r; }
/* all readers' descriptors must become readable by one write */
static void wake_test() {
  Hd *w = pick(false, 1); if (!w) w = pick(false, 0);
  if (!w) return;
  for (auto &h : H) if (h.rd && h.nb) { Cmd c = {C_DRAIN, h.idx}; rpc(actors[h.act], c, "read"); if (actors[h.act].c->r.r2 != 0) violation("read-failed", fmt("a read returned %ld", actors[h.act].c->r.r2)); if (!rfarm) { Q.clear(); used = 0; } }
  bool any = false; for (auto &h : H) if (h.rd && h.nb) any = true;
  if (!any) return;
  if (!rfarm) { Q.clear(); used = 0; }
  for (auto &h : H) if (h.rd && h.nb) if (polled(h) != 0) violation("spurious", "a reader's descriptor polls readable though the last read found the ring empty");
  Hd wc = *w;
  if (!do_write(&wc, 1)) { if (rfarm || !wc.nb) return; violation("write-failed", "no room in an empty ring"); }
  int n = 0, bad = 0;
  for (auto &h : H) if (h.rd && h.nb) { n++; if (polled(h) != 1) { bad++; logop("not readable: process %d handle %d", h.act, h.idx); } }
  count("wake_tests"); count("wakes_seen", n - bad); distinct("waketests", mix(n, D.size() * 100 + live(K_W)));
  if (bad) violation("not-woken", fmt("%d of %d readers' descriptors are not readable after a write (%d places of dead waiters)", bad, n, (int)D.size()));
}
/* processes blocked in writes on a full ring, or reads on an empty one, all go on when there is room, or messages, for all */
static void block_test(bool rd) {
  if (rfarm || (rdrop && !rd)) return;
  Hd *peer = pick(!rd, 1);
  if (!peer) return;
  Hd pc = *peer;
  std::vector<Hd> b; std::set<int> acts; acts.insert(pc.act);
  for (auto &h : H) if (h.rd == rd && !h.nb && !acts.count(h.act)) { b.push_back(h); acts.insert(h.act); }
  if (b.empty()) return;
  if (b.size() > rmm || b.size() > rn) b.resize(std::min(rmm, rn));
  if (rd) { Hd *x = pick(true, 1); while (!Q.empty()) { if (x) do_read(x); else { Hd y = b[0]; do_read(&y); } } }
  else { /* fill */
    while (used < rn && Q.size() < rmm) if (!do_write(&b[0], Q.size() + 1 == rmm ? rn - used : std::min<u64>(rn - used, G.range(1, rn)))) violation("write-failed", "no room");
  }
  for (auto &h : b) { Cmd c = {rd ? C_READ : C_WRITE, h.idx, 0, 1}; c.y = 900000 + h.act; NAMED(c); actor_send(actors[h.act], c); }
  for (auto &h : b) { int s = actor_settle(actors[h.act], 20); if (s == 0) violation(rd ? "read-failed" : "write-failed", fmt("a blocking call returned %ld though it had to wait", actors[h.act].c->r.r)); if (s < 0) { count("unsettled"); } }
  logop("%zu processes blocked in %s", b.size(), rd ? "reads" : "writes");
  /* some of the blocked may die now */
  if (G.p(30)) for (size_t k = 0; k < b.size(); k++) if (G.p(25)) { die(b[k].act, G.below(2)); b.erase(b.begin() + k--); }
  /* now all of them can be served */
  if (rd) { size_t n = b.size(); for (size_t k = 0; k < n; k++) { u64 id = ++nextid; Cmd c = {C_WRITE, pc.idx, 0, 1}; c.y = id; rpc(actors[pc.act], c, "write"); if (actors[pc.act].c->r.r != 1) violation("write-failed", fmt("a write returned %ld with blocked readers", actors[pc.act].c->r.r)); } }
  else { std::set<u64> w; while (!Q.empty()) { Cmd c = {C_READ, pc.idx}; c.y = Q.front().first; rpc(actors[pc.act], c, "read"); Rep &r = actors[pc.act].c->r; if (r.r != (long)Q.front().second || !r.r2) violation("read-failed", fmt("a read returned %ld, %u expected, with blocked writers", r.r, Q.front().second)); used -= Q.front().second; Q.pop_front(); } }
  for (auto &h : b) if (!actor_wait(actors[h.act], 10.0 * A.slow)) violation("not-woken", fmt("a blocked %s sleeps on though %s; %zu were blocked, %d places of dead waiters", rd ? "reader" : "writer", rd ? "each can have a message" : "there is room for all", b.size(), (int)D.size()));
  for (auto &h : b) if (actors[h.act].c->r.r != 1) violation(rd ? "read-failed" : "write-failed", fmt("a blocked call returned %ld", actors[h.act].c->r.r));
  count("block_tests"); count("blocked_woken", b.size()); distinct("blocktests", mix(b.size() * 2 + rd, D.size()));
  if (!rd) { /* their bytes are in the ring, in some order */
    Hd *x = pick(true, 1); if (!x) return;
    size_t got = 0; for (;;) { Cmd c = {C_READ, x->idx}; rpc(actors[x->act], c, "read"); Rep &r = actors[x->act].c->r; if (r.r <= 0) break; got++; }
    if (got != b.size()) violation("lost", fmt("%zu messages found, %zu blocked writes were accepted", got, b.size()));
  }
}
static void noise() { /* sockets that come and go */
  pid_t p = fork();
  if (p < 0) harness_error("fork");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGALRM, SIG_DFL); alarm(100);
    Rng r(G.next()); std::deque<int> f; int un = r.below(4);
    for (;;) {
      int n = r.range(1, 60);
      for (int k = 0; k < n; k++) {
        int s = socket(AF_UNIX, r.p(50) ? SOCK_DGRAM : SOCK_STREAM, 0); if (s < 0) break;
        f.push_back(s);
        if ((int)r.below(4) >= un) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
          if (r.p(50)) bind(s, (struct sockaddr *)&a, sizeof(sa_family_t));
          else { int l = snprintf(a.sun_path + 1, 100, "n %d %llu", (int)getpid(), (unsigned long long)r.next()); bind(s, (struct sockaddr *)&a, sizeof(sa_family_t) + 1 + l); } }
      }
      while (f.size() > 40) { close(f.front()); f.pop_front(); }
      usleep(r.below(400));
    }
  }
  extra_pids.push_back(p);
}
static void start_x() { /* live processes whose ids the dead ones' are said to be */
  for (int k = 0; k < 2; k++) {
    pid_t p = fork();
    if (p < 0) harness_error("fork");
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(100);
      int n = k ? 0 : 3; for (int j = 0; j < n; j++) { int s = socket(AF_UNIX, SOCK_DGRAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; if (j) bind(s, (struct sockaddr *)&a, sizeof(sa_family_t)); }
      if (k && asroot) { if (setgroups(0, NULL) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) _exit(3); prctl(PR_SET_PDEATHSIG, SIGKILL); prctl(PR_SET_DUMPABLE, 1); }
      for (;;) pause();
    }
    xpid[k] = p; extra_pids.push_back(p);
  }
}
/* a waiter dies, and its process id is that of another process, maybe of one of ours (xa) */
static void dies_reused(int xa, bool rd, int uid) {
  if ((int)actors.size() >= nchans) return;
  int slot = actors.size(), xi = G.below(2);
  actor_start(slot, serve, uid);
  Cmd c = {C_OPENDIE, 0, rd ? SHR_RDONLY | (G.p(50) ? SHR_NONBLOCK : 0) : SHR_WRONLY, xa >= 0 ? (int)actors[xa].pid : (int)xpid[xi]};
  rpc(actors[slot], c, "open");
  bool ok = actors[slot].c->r.r == 1;
  int left = 0; for (int k2 = 0; k2 < 2; k2++) { int l = reclaim(uid, k2); if (k2 == (rd ? K_R : K_W)) left = l; }
  if (!ok && live(rd ? K_R : K_W) + left < 64) violation("open-failed", fmt("a %s could not open the ring with %d live ones and %d dead ones", rd ? "reader" : "blocking writer", live(rd ? K_R : K_W), left));
  if (ok && live(rd ? K_R : K_W) >= 64) violation("too-many", "a place was given with 64 live");
  actor_kill(actors[slot], true);
  if (ok) { if (rd || !rdrop) D.push_back({rd ? K_R : K_W, xa >= 0 ? actors[xa].uid : xi && asroot ? 65534 : 0, true, xa, false}); count("pid_reused"); if (xa >= 0) logop("a %s dies, its process id is that of process %d now", rd ? "reader" : "writer", xa); else logop("a %s dies, process id %d is in use by another", rd ? "reader" : "writer", (int)xpid[xi]); }
}
static void one(u64 k) {
  G = Rng(mix(A.seed * 86028121 + 3, k));
  begin_case(k);
  rfarm = G.p(15); rdrop = rfarm || G.p(15);
  rn = G.range(64, 400); rmm = G.p(50) ? G.range(64, 90) : 100 + rn / 100;
  H.clear(); D.clear(); Q.clear(); used = 0; nextid = 0;
  int na = G.p(25) ? (int)G.range(30, 72) : (int)G.range(2, 8);
  bool twouid = asroot && G.p(30);
  names = G.p(30) ? G.range(70, 150) : 0;
  nbase = 0xa0000 + (main_pid * 397 + k * 11) % 0x40000;
  seqname = 0;
  casehdr = fmt("ring %llu bytes, %llu messages%s; %d processes%s%s", (unsigned long long)rn, (unsigned long long)rmm, rfarm ? " farm" : rdrop ? " drop" : "", na, twouid ? " of two users" : "", names ? ", socket names used again" : "");
  logop("%s", casehdr.c_str());
  unlink(ring.c_str());
  if (shr_init((char *)ring.c_str(), rn, (rfarm ? SHR_FARM : rdrop ? SHR_DROP : 0) | SHR_MAXMSGS_2, (size_t)rmm)) harness_error("shr_init");
  chmod(ring.c_str(), 0666);
  start_x();
  if (G.p(30)) noise();
  for (int j = 0; j < na; j++) actor_start(j, serve, twouid && G.p(40) ? 65534 : 0);
  if (!asroot) {}
  if (na <= 20 && G.p(10)) { Cmd c = {C_SOCKS, 0, (int)G.range(900, 1300)}; int a = G.below(na); rpc(actors[a], c, "socket"); logop("process %d has %ld sockets of its own", a, actors[a].c->r.r); count("with_many_sockets"); }
  int steps = na > 20 ? G.range(60, 160) : G.range(30, 120);
  int full = G.p(40) ? (int)G.below(2) : -1; /* which kind of place to fill */
  bool manyopen = na > 20;
  if (manyopen) { /* one handle for each */
    bool rd = G.p(50);
    for (int j = 1; j < na; j++) do_open(j, rd, rd && G.p(50));
    do_open(0, !rd, true); do_open(0, rd, true);
  } else { do_open(0, true, true); do_open(0, false, true); }
  if (full >= 0) {
    int target = G.range(60, 66);
    for (int j = 0; j < target; j++) { int a = pick_actor(); do_open(a, full == 0, full == 0); }
  }
  for (int s = 0; s < steps; s++) {
    int x = G.below(100), a = pick_actor();
    if (a < 0) break;
    if (x < 22) { int r = G.below(100); do_open(a, r < 45, r < 25 ? true : r < 45 ? false : r >= 80); }
    else if (x < 32) { if (H.size()) { int i = G.below(H.size()); Hd h = H[i]; Cmd c = {C_CLOSE, h.idx}; rpc(actors[h.act], c, "close"); H.erase(H.begin() + i); logop("close %s in process %d", mname(h.rd, h.nb), h.act); count("closes"); } }
    else if (x < 40) { int alive = 0; for (auto &q : actors) alive += q.alive; if (alive > 2) die(a, G.below(3)); }
    else if (x < 43) { for (size_t j = 0; j < actors.size(); j++) if (actors[j].zombie && !actors[j].reaped && G.p(50)) { reap(j); logop("process %zu is reaped", j); } }
    else if (x < 51) {
      dies_reused(G.p(40) ? a : -1, G.p(50), twouid && G.p(40) ? 65534 : 0);
    }
    else if (x < 55) { if ((int)actors.size() < nchans) actor_start(actors.size(), serve, twouid && G.p(40) ? 65534 : 0); }
    else if (x < 68) wake_test();
    else if (x < 76) { Hd *h = pick(false, -1); if (h && !(rfarm && 0)) { Hd c = *h; do_write(&c, G.range(1, 20)); } }
    else if (x < 84) { Hd *h = pick(true, -1); if (h && !rfarm) { Hd c = *h; do_read(&c); } }
    else if (x < 92) block_test(true); else block_test(false);
  }
  /* close all: every place is free again */
  for (auto &h : H) { Cmd c = {C_CLOSE, h.idx}; rpc(actors[h.act], c, "close"); }
  H.clear();
  int a = pick_actor();
  if (a >= 0 && G.p(40)) {
    for (size_t j = 0; j < actors.size(); j++) if (actors[j].zombie && !actors[j].reaped) reap(j);
    bool rd = rdrop || G.p(50);
    for (int j = G.below(4); j > 0; j--) dies_reused(G.p(60) ? a : -1, rd, actors[a].uid);
    int left = reclaim(actors[a].uid, rd ? K_R : K_W);
    Cmd c = {C_BULKOPEN, 0, rd ? SHR_RDONLY : SHR_WRONLY, 66}; rpc(actors[a], c, "open");
    long n = actors[a].c->r.r;
    logop("66 opens after all closed: %ld succeed; %d dead not reclaimable", n, left);
    count("bulk");
    if (n > 64 || n < 64 - left) violation("places", fmt("with all handles closed, %ld of 66 %s could open the ring (%d places of dead ones it cannot examine)", n, rd ? "readers" : "blocking writers", left));
  }
  actors_end();
  count("histories");
  if (S.samples.size() < 3) { std::string s = casehdr; for (size_t j = 1; j < oplog.size() && j < 16; j++) s += "; " + oplog[j]; S.samples.push_back(s.substr(0, 900)); }
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  if (!freopen(getenv("LIFE_ERR") ?: "/dev/null", "w", stderr)) {}
  asroot = geteuid() == 0;
  if (asroot) { chmod(A.dir.c_str(), 0711); std::string p = A.dir.substr(0, A.dir.rfind('/')); if (p.find("shrv.") != std::string::npos) chmod(p.c_str(), 0711); }
  actors_init(400);
  struct rlimit rl; if (!getrlimit(RLIMIT_NOFILE, &rl)) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 8000); setrlimit(RLIMIT_NOFILE, &rl); }
  ring = A.dir + "/ring";
  if (asroot) { /* can another user get there? */
    int fd = open(ring.c_str(), O_CREAT | O_RDWR, 0666); fchmod(fd, 0666); close(fd);
    pid_t p = fork(); if (p == 0) { if (setgroups(0, NULL) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) _exit(1); _exit(open(ring.c_str(), O_RDWR) >= 0 ? 0 : 1); }
    int st; waitpid(p, &st, 0); if (st) { asroot = false; count("one_user_only"); }
  }
  signal(SIGALRM, on_alarm);
  for (u64 k = A.from; k < A.to; k++) { alarm(120 * A.slow); one(k); alarm(0); }
  unlink(ring.c_str());
  write_out(NULL, "", 0);
  return 0;
}
