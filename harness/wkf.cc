/* Failures in one process, and what they do to the others. A controller has
 * processes open, close, read and write one ring, with failures injected into
 * their system calls and allocations, while other processes poll their
 * descriptors or sleep in blocking calls. A call must have its effect and
 * result, wakeups included, or return its error and have no effect; what fails
 * in one process must not cost another its place or a wakeup. */
#include "actors.h"
#include "shr.h"
#include "vi.h"
#include <sys/resource.h>

enum { C_OPEN = 1, C_CLOSE, C_WRITE, C_READ, C_POLL, C_STAT };
static std::string ring;
static shr *lh[32];
static char buf[4096];
static void arm(Cmd &m) { vi_fail_at = m.c; vi_fail_more = m.d & 15; vi_fail_pick = m.d >> 4 & 15; vi_fail_mask = m.x ? m.x : ~0ull; vi_ncall = 0; vi_failed = 0; vi_failed_call = -1; vi_inlib = 1; }
static void disarm(Rep &r) { vi_inlib = 0; vi_fail_at = 0; r.r3 = vi_failed ? vi_failed_call + 1 : 0; }
static void serve(Chan *c) {
  Cmd &m = c->c; Rep &r = c->r; r.r = -99; r.r3 = 0;
  switch (m.op) {
    case C_OPEN: arm(m); lh[m.h] = shr_open(ring.c_str(), m.a); disarm(r); r.r = lh[m.h] ? 1 : 0; break;
    case C_CLOSE: shr_close(lh[m.h]); lh[m.h] = NULL; r.r = 0; break;
    case C_WRITE: gen(m.y, buf, m.b); arm(m); c->incall = 1; r.r = shr_write(lh[m.h], buf, m.b); c->incall = 0; disarm(r); break;
    case C_READ: memcpy(buf, "\0\0\0\0\0\0\0\0", 8); arm(m); c->incall = 1; r.r = shr_read(lh[m.h], buf, m.b); c->incall = 0; disarm(r); r.r2 = r.r > 0 && gen_is(m.y, buf, r.r); break;
    case C_POLL: { struct pollfd p = {shr_get_selectable_fd(lh[m.h]), POLLIN, 0}; r.r = poll(&p, 1, 0); break; }
    case C_STAT: { struct shr_stat st; if (shr_stat(lh[m.h], &st, NULL)) r.r = -1; else { r.r = st.mu; r.r2 = st.md; r.x = st.bu; } break; }
  }
}
/* ---- the controller ---- */
struct Hd { int act, idx; bool rd, nb; u64 next; };
static std::vector<Hd> H;
struct Msg { u64 id; unsigned len; };
static std::deque<Msg> Q; static u64 seq0, used, nextid, md;
static Rng G(1);
static u64 rn, rmm; static bool rfarm, rdrop;
static const u64 M_WAKE = 1ull << VI_socket | 1ull << VI_connect | 1ull << VI_sendmsg;
static const u64 M_EXAM = 1ull << VI_opendir | 1ull << VI_readlink | 1ull << VI_read | 1ull << VI_open | 1ull << VI_realloc | 1ull << VI_malloc | 1ull << VI_kill | 1ull << VI_connect;

static const u64 M_SETUP = 1ull << VI_bind | 1ull << VI_setsockopt | 1ull << VI_getsockname | 1ull << VI_epoll_create | 1ull << VI_epoll_ctl | 1ull << VI_socket | 1ull << VI_connect | 1ull << VI_send | 1ull << VI_sendmsg;

static void plan(Cmd &c) {
  if (G.p(45)) { c.c = 0; c.d = 0; return; }
  c.c = G.p(60) ? G.range(1, 3) : G.range(1, 14);
  c.d = (G.p(45) ? 0 : G.range(1, 8)) | G.below(8) << 4;
  int x = G.below(10);
  c.x = x < 4 ? M_WAKE : x < 7 ? M_WAKE | M_EXAM : x < 8 ? M_EXAM : 0;
  if (x == 9) c.x = 1ull << VI_sendmsg;
}
static bool rpc(Actor &a, Cmd c, const char *what) {
  actor_send(a, c);
  if (!actor_wait(a, 20.0 * A.slow)) {
    if (!a.alive) violation("crash", fmt("a process ended with status %x in %s", a.c->dead & 0xffff, what));
    violation("stuck", fmt("%s does not return", what));
  }
  int f = a.c->r.r3;
  if (f) { count("faults"); count(fmt("fault_%s_%s", what, vi_name[f - 1]).c_str()); distinct("fault_sites", mix(mix(c.op, f), mix(c.c, c.d))); }
  return f != 0;
}
static const char *mname(const Hd &h) { return h.rd ? h.nb ? "reader" : "blocking reader" : h.nb ? "non-blocking writer" : "blocking writer"; }
static std::string fl(Actor &a) { return a.c->r.r3 ? fmt(" [%s failing]", vi_name[a.c->r.r3 - 1]) : ""; }
static bool can_read(const Hd &h) { return rfarm ? std::max(h.next, seq0) - seq0 < Q.size() : !Q.empty(); }
static Hd *pick(bool rd, int nb) { std::vector<Hd *> v; for (auto &h : H) if (h.rd == rd && (nb < 0 || h.nb == (bool)nb)) v.push_back(&h); return v.empty() ? NULL : v[G.below(v.size())]; }
static void check_polls(const char *after) {
  for (auto &h : H) if (h.rd && h.nb && can_read(h)) {
    Cmd c = {C_POLL, h.idx}; rpc(actors[h.act], c, "poll");
    count("polls");
    if (actors[h.act].c->r.r != 1) violation("not-readable", fmt("messages await the reader in process %d, but its descriptor is not readable (%s)", h.act, after));
  }
}
static void do_open() {
  Hd h; h.act = G.below(actors.size()); h.rd = G.p(55); h.nb = G.p(60);
  bool u[32] = {0}; int n = 0; for (auto &o : H) if (o.act == h.act) { u[o.idx] = true; n++; }
  if (n >= 5 || H.size() > 24) return;
  h.idx = 0; while (u[h.idx]) h.idx++;
  Cmd c = {C_OPEN, h.idx, (int)((h.rd ? SHR_RDONLY : SHR_WRONLY) | (h.nb ? SHR_NONBLOCK : 0))}; plan(c);
  if (c.c && G.p(40)) { c.x = M_SETUP; c.c = G.range(1, 10); c.d &= ~15; } /* the waiter's own socket and epoll set */
  bool f = rpc(actors[h.act], c, "open");
  bool ok = actors[h.act].c->r.r == 1;
  logop("open %s in process %d: %s%s", mname(h), h.act, ok ? "ok" : "NULL", fl(actors[h.act]).c_str());
  count("opens");
  if (!ok && !f) violation("open-failed", fmt("a %s could not open the ring, with nothing failing in this open, %zu handles", mname(h), H.size()));
  h.next = seq0;
  if (ok) H.push_back(h);
}
static void do_close() {
  if (H.empty()) return;
  int i = G.below(H.size()); Hd h = H[i];
  Cmd c = {C_CLOSE, h.idx}; rpc(actors[h.act], c, "close"); H.erase(H.begin() + i); logop("close %s in process %d", mname(h), h.act);
}
static void resync() { /* a failed write on a drop ring may have discarded old messages */
  if (!rdrop || H.empty()) return;
  Hd &h = H[0]; Cmd c = {C_STAT, h.idx}; rpc(actors[h.act], c, "stat");
  Rep r = actors[h.act].c->r;
  u64 k = r.r2 - md;
  if (r.r < 0 || k > Q.size() || (!rfarm && Q.size() - k != (u64)r.r)) violation("drops", fmt("after a failed write: %ld unread messages of %zu, %llu counted as dropped", r.r, Q.size(), (unsigned long long)k));
  if (rfarm) { if (k) count("farm_failed_drops"); md += k; extern bool murky; murky |= k > 0; return; }
  while (k--) { used -= Q[0].len; Q.pop_front(); seq0++; md++; }
}
bool murky; /* a farm ring on which a failed write has dropped: end the history */
/* 1: written; 0: no room; -1: failed */
static int do_write(Hd h, unsigned len, bool clean) {
  bool fits = used + len <= rn && Q.size() + 1 <= rmm;
  u64 id = ++nextid;
  Cmd c = {C_WRITE, h.idx, 0, (int)len}; if (!clean) plan(c); c.y = id;
  bool f = rpc(actors[h.act], c, "write");
  long r = actors[h.act].c->r.r;
  logop("write of %u bytes in process %d: %ld%s", len, h.act, r, fl(actors[h.act]).c_str());
  count("writes");
  if (r == -1 && f) { count("failed_writes"); resync(); check_polls("after a failed write"); return -1; }
  if (r != (rdrop || fits ? (long)len : 0)) violation("write-result", fmt("a write of %u bytes returned %ld with %llu of %llu bytes free%s", len, r, (unsigned long long)(rn - used), (unsigned long long)rn, f ? ", failure injected" : ""));
  if (r == 0) return 0;
  if (f) count("writes_despite_fault");
  while (used + len > rn || Q.size() + 1 > rmm) { used -= Q[0].len; Q.pop_front(); seq0++; md++; }
  Q.push_back({id, len}); used += len;
  check_polls("after a write");
  return 1;
}
static int do_read(Hd &h, bool clean) {
  if (!h.nb && !can_read(h)) return 0;
  if (rfarm && h.next < seq0) h.next = seq0;
  size_t at = rfarm ? h.next - seq0 : 0;
  bool any = can_read(h);
  Cmd c = {C_READ, h.idx, 0, (int)sizeof buf}; if (!clean) plan(c); c.y = any ? Q[at].id : 0;
  bool f = rpc(actors[h.act], c, "read");
  Rep r = actors[h.act].c->r;
  logop("read in process %d: %ld%s", h.act, r.r, fl(actors[h.act]).c_str());
  count("reads");
  if (r.r == -1 && f) { count("failed_reads"); check_polls("after a failed read"); return -1; }
  if (r.r != (any ? (long)Q[at].len : 0) || (any && !r.r2)) violation("read-result", fmt("a read returned %ld%s, %u expected%s", r.r, r.r > 0 && !r.r2 ? " (other bytes)" : "", any ? Q[at].len : 0, f ? "; failure injected" : ""));
  if (r.r > 0) { if (f) count("reads_despite_fault"); if (rfarm) h.next++; else { used -= Q[0].len; Q.pop_front(); seq0++; } }
  check_polls("after a read");
  return r.r > 0;
}
static void woken(Hd &b, const char *what, int failures) {
  if (!actor_wait(actors[b.act], 10.0 * A.slow)) violation("not-woken", fmt("a process blocked in a %s sleeps on though it could go on (%d failed calls of others before)", what, failures));
  count("blocked_woken"); distinct("blocked", mix(failures, mix(b.rd, H.size())));
}
static void block_read() {
  Hd *bp = pick(true, 0), *wp = pick(false, 1);
  if (!bp || !wp) return;
  Hd w = *wp; size_t bi = bp - &H[0];
  if (w.act == bp->act) return;
  for (int k = 0; k < 200 && can_read(H[bi]); k++) do_read(H[bi], true);
  Cmd c = {C_READ, H[bi].idx, 0, (int)sizeof buf}; u64 id = nextid + 1;
  unsigned len = G.range(1, std::min<u64>(rn, 30));
  c.y = id; c.c = 0; c.x = 0;
  Actor &a = actors[H[bi].act];
  actor_send(a, c);
  int s = actor_settle(a, 20);
  if (s == 0) violation("read-result", fmt("a blocking read returned %ld on an empty ring", a.c->r.r));
  int fails = 0, rc;
  logop("process %d blocks in a read", H[bi].act);
  for (int k = 0; ; k++) {
    if (G.p(25)) { /* others come and go meanwhile */ int act2 = G.below(actors.size()); if (act2 != H[bi].act && act2 != w.act) {
      Hd h; h.act = act2; h.rd = G.p(50); h.nb = true; bool u[32] = {0}; int n = 0; for (auto &o : H) if (o.act == act2) { u[o.idx] = true; n++; }
      if (n < 5) { h.idx = 0; while (u[h.idx]) h.idx++; h.next = seq0; Cmd o = {C_OPEN, h.idx, (int)((h.rd ? SHR_RDONLY : SHR_WRONLY) | SHR_NONBLOCK)}; plan(o); rpc(actors[act2], o, "open"); if (actors[act2].c->r.r == 1) { H.push_back(h); logop("open %s in process %d", mname(h), act2); } } } }
    bool fits; Cmd cc = {C_WRITE, w.idx, 0, (int)len}; if (k < 6) plan(cc); cc.y = ++nextid;
    /* the id the reader expects is that of the write that succeeds: same content each time */
    cc.y = id; fits = true;
    bool f = rpc(actors[w.act], cc, "write"); rc = actors[w.act].c->r.r;
    logop("write in process %d: %d%s", w.act, rc, fl(actors[w.act]).c_str());
    if (rc == -1 && f) { fails++; count("failed_writes"); continue; }
    if (rc != (int)len) violation("write-result", fmt("a write of %u bytes to an empty ring returned %d", len, rc));
    if (f) count("writes_despite_fault");
    break;
  }
  woken(H[bi], "read", fails);
  if (a.c->r.r != (long)len || !a.c->r.r2) violation("read-result", fmt("the blocked read returned %ld%s, not %u", a.c->r.r, a.c->r.r2 ? "" : " (other bytes)", len));
  if (rfarm) { while (used + len > rn || Q.size() + 1 > rmm) { used -= Q[0].len; Q.pop_front(); seq0++; md++; } Q.push_back({id, len}); used += len; H[bi].next = seq0 + Q.size(); }
  else seq0++;
  check_polls("after a blocked read");
}
static void block_write() {
  if (rdrop) return;
  Hd *bp = pick(false, 0), *rp = pick(true, 1);
  if (!bp || !rp || bp->act == rp->act) return;
  Hd b = *bp; size_t ri = rp - &H[0];
  for (int k = 0; k < 400 && used < rn && Q.size() < rmm; k++) do_write(b, Q.size() + 1 == rmm ? rn - used > 2000 ? 2000 : rn - used : G.range(1, std::min<u64>(rn - used, 60)), true);
  if (used < rn && Q.size() < rmm) return;
  unsigned len = G.range(1, rn); u64 id = ++nextid;
  Cmd c = {C_WRITE, b.idx, 0, (int)len}; c.y = id;
  Actor &a = actors[b.act];
  actor_send(a, c);
  if (actor_settle(a, 20) == 0) violation("write-result", fmt("a blocking write returned %ld on a full ring", a.c->r.r));
  logop("process %d blocks in a write of %u bytes", b.act, len);
  int fails = 0;
  while (rn - used < len || Q.size() + 1 > rmm) {
    Cmd r = {C_READ, H[ri].idx, 0, (int)sizeof buf}; if (fails < 8) plan(r); r.y = Q[0].id;
    if (G.p(20)) { /* a writer comes meanwhile */ int act2 = G.below(actors.size()); if (act2 != b.act && act2 != H[ri].act) {
      Hd h; h.act = act2; h.rd = false; h.nb = false; bool u[32] = {0}; int n = 0; for (auto &o : H) if (o.act == act2) { u[o.idx] = true; n++; }
      if (n < 5) { h.idx = 0; while (u[h.idx]) h.idx++; h.next = seq0; Cmd o = {C_OPEN, h.idx, SHR_WRONLY}; plan(o); rpc(actors[act2], o, "open"); if (actors[act2].c->r.r == 1) { H.push_back(h); logop("open %s in process %d", mname(h), act2); } } } }
    bool f = rpc(actors[H[ri].act], r, "read"); Rep p = actors[H[ri].act].c->r;
    logop("read in process %d: %ld%s", H[ri].act, p.r, fl(actors[H[ri].act]).c_str());
    if (p.r == -1 && f) { fails++; count("failed_reads"); continue; }
    if (p.r != (long)Q[0].len || !p.r2) violation("read-result", fmt("a read returned %ld%s, not %u", p.r, p.r2 ? "" : " (other bytes)", Q[0].len));
    if (f) count("reads_despite_fault");
    used -= Q[0].len; Q.pop_front(); seq0++;
  }
  woken(b, "write", fails);
  if (a.c->r.r != (long)len) violation("write-result", fmt("the blocked write returned %ld, not %u", a.c->r.r, len));
  Q.push_back({id, len}); used += len;
  check_polls("after a blocked write");
}
static void one(u64 k) {
  G = Rng(mix(A.seed * 92821 + 7, k));
  begin_case(k);
  rfarm = G.p(15); rdrop = rfarm || G.p(15); murky = false;
  rn = G.range(4, 300); rmm = G.range(2, 12);
  H.clear(); Q.clear(); seq0 = used = nextid = md = 0;
  int na = G.range(3, 7);
  casehdr = fmt("ring of %llu bytes, %llu messages%s; %d processes", (unsigned long long)rn, (unsigned long long)rmm, rfarm ? " farm" : rdrop ? " drop" : "", na);
  logop("%s", casehdr.c_str());
  unlink(ring.c_str());
  if (shr_init((char *)ring.c_str(), rn, (rfarm ? SHR_FARM : rdrop ? SHR_DROP : 0) | SHR_MAXMSGS_2, (size_t)rmm)) harness_error("shr_init");
  for (int j = 0; j < na; j++) actor_start(j, serve, 0);
  int steps = G.range(20, 90);
  for (int s = 0; s < steps && !murky; s++) {
    int x = G.below(100);
    if (s < 6 || x < 22) do_open();
    else if (x < 34) do_close();
    else if (x < 56) { Hd *h = pick(false, -1); if (h) { unsigned len = G.range(1, std::min<u64>(rn, G.p(80) ? 40 : 300)); if (h->nb || rdrop || (used + len <= rn && Q.size() < rmm)) do_write(*h, len, false); } }
    else if (x < 76) { Hd *h = pick(true, -1); if (h) do_read(*h, false); }
    else if (x < 89) block_read(); else block_write();
  }
  if (!murky && !H.empty()) { /* the content is as it should be */
    Hd *r = pick(true, 1); if (r) { for (int k2 = 0; k2 < 400 && do_read(*r, true) > 0; k2++) {} }
  }
  for (auto &h : H) { Cmd c = {C_CLOSE, h.idx}; rpc(actors[h.act], c, "close"); }
  H.clear();
  actors_end();
  count("histories");
  if (S.samples.size() < 3) { std::string s = casehdr; for (size_t j = 1; j < oplog.size() && j < 16; j++) s += "; " + oplog[j]; S.samples.push_back(s.substr(0, 900)); }
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  if (!freopen(getenv("LIFE_ERR") ?: "/dev/null", "w", stderr)) {}
  actors_init(16);
  ring = A.dir + "/ring";
  signal(SIGALRM, on_alarm);
  for (u64 k = A.from; k < A.to; k++) { alarm(100 * A.slow); one(k); alarm(0); }
  unlink(ring.c_str());
  write_out(NULL, "", 0);
  return 0;
}
