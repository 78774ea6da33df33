/* Several processes on one ring, with delays injected inside the library's
 * calls. Every call is logged with its start, end and result. A controller
 * watches for processes that sleep while what they wait for is there, and at
 * the end the whole history is judged: is there an order of the calls, within
 * their start and end, in which a sequential ring gives all these results? */
#include "common.h"
#include "shr.h"
#include "vi.h"
#include <sched.h>
#include <sys/poll.h>
#include <unordered_set>

struct Profile { const char *id; int drop, farm, buf, app, stat, pollmode, kill, churn, block; };
static const Profile profiles[] = {
  /*        dr  fa  bu  ap  st  po  ki  ch  bl */
  {"C02",    0,  0, 10,  5,  5, 15, 10, 10, 50},
  {"C05",  100,  0, 10,  3, 10, 10, 10, 10, 50},
  {"C06",    0,100, 10,  3, 10, 10, 10, 15, 50},
  {"C07",    5, 15, 15,  3,  2, 20, 40, 40, 85},
  {"C08",   10, 30, 10,  0,  3, 90, 10, 15, 50},
  {"C09",   10, 10,100,  0,  5, 10,  0, 10, 55},
  {"C10",   30, 15, 10,  3, 90, 10,  0, 10, 50},
  {"C11",   15, 15,  5,100,  5,  5, 10, 10, 50},
  {"C19",   10, 10, 20, 20, 15, 10, 10, 20, 70},
};
static const Profile *P;
static Rng G(1);

enum { O_WRITE, O_READ, O_STAT, O_APPGET, O_APPSET, O_APPGS, O_OPENFARM, O_FLUSH, O_POLLWAIT, O_OPEN, O_CLOSE };
static const char *oname[] = {"write", "read", "stat", "appget", "appset", "appgetset", "open", "flush", "poll", "open", "close"};
#define MAXEV 600
#define MAXP 8
#define POOL 16384
struct Ev {
  int op, done, nonblock, h, intr, stops0;    /* h: handle number within the process */
  int buffered; u64 cb0, cb1, cm0, cm1;
  u64 inv, ret, seq; long res; int err;
  int first, nmsg;              /* messages written or read, in pool */
  u64 cap, niov;                /* read: buffer and iovec size */
  u64 missed;                   /* farm: miss count after */
  int ver, gotver;              /* app-data */
  struct shr_stat st; int reset; u64 reset_to;
};
struct PMsg { unsigned tag; unsigned len; };
struct Proc {
  volatile int nev, npool, incall, ready, finished, polling, stops;
  volatile int viol; char vkey[40], vtext[400];
  Ev ev[MAXEV];
  PMsg pool[POOL];
  unsigned lens[POOL + 64]; volatile unsigned nseq; /* messages this process tried to write */
};
struct Shm { volatile u64 lockseq; volatile int go; Proc p[MAXP + 1]; };
static Shm *M;
static int me; /* index in M->p */
static std::string ring;
static u64 rn, rmm; static bool rdrop, rfarm, rapp, rkillany, rlong, rlarge; /* rlong: large batches; rlarge: large messages */ static size_t applen;
static std::vector<char> wbuf, rbuf;
extern "C" { extern volatile unsigned long *vi_seqctr; extern unsigned long vi_seqlast; }

static Proc *MP() { return &M->p[me]; }
[[noreturn]] static void pviol(const char *key, const std::string &s) {
  if (me < 0) violation(key, s);
  Proc *p = MP();
  strncpy(p->vkey, key, sizeof p->vkey - 1); strncpy(p->vtext, s.c_str(), sizeof p->vtext - 1);
  p->viol = 1;
  if (me == 0) violation(key, s);
  _exit(10);
}
/* message content: 3 bytes of tag, the rest from the tag */
static void mk(unsigned tag, char *d, unsigned len) {
  gen(tag + 77000000ULL, d, len);
  d[0] = tag; d[1] = tag >> 8; if (len > 2) d[2] = tag >> 16;
}
static unsigned tag_of(const char *d) { return (unsigned char)d[0] | (unsigned char)d[1] << 8 | (unsigned)(unsigned char)d[2] << 16; }
static void mkapp(int ver, char *d, size_t n) { gen(880000000ULL + ver, d, n); memcpy(d, &ver, n < 4 ? n : 4); }

/* ---- delays ---- */
static Rng D(1); static int dmode; static volatile int dcount;
static void delay(int point) {
  if (!dmode) return;
  int x = D.below(100);
  if (dmode == 1) { if (x < 6) usleep(D.below(150)); else if (x < 12) sched_yield(); }
  else if (dmode == 2) { if (x < 2) usleep(D.below(500)); }
  else if (dmode == 3) { if (point == VI_fcntl_lock && x < 40) usleep(D.below(120)); }
  else if (dmode == 4) { if ((point == VI_sendmsg || point == VI_epoll_wait || point == VI_recvmmsg || point == VI_recvmsg || point == VI_ioctl) && x < 50) usleep(D.below(200)); }
  else if (x < 20) sched_yield();
}
static size_t on_mc(void *, const void *, size_t n) {
  if (!dmode) return 0;
  if (n == 0) { usleep(D.below(150)); return 0; }
  int x = D.below(100);
  if (x < 3) usleep(D.below(200));
  return x >= 90 && n > 1 ? 1 + D.below(n - 1) : 0;
}
/* ---- logged calls ---- */
struct HH { shr *s; bool rd, nb, buf; int no; std::deque<unsigned> cache; u64 cb, cm; };
static Ev *begin(int op, HH *h) {
  Proc *p = MP();
  if (p->nev >= MAXEV) return NULL;
  Ev *e = &p->ev[p->nev];
  memset(e, 0, sizeof *e);
  e->op = op; e->h = h ? h->no : -1; e->nonblock = h ? h->nb : 0; e->buffered = h ? h->buf : 0;
  e->stops0 = p->stops;
  e->inv = nowns(); e->ret = ~0ULL;
  __sync_synchronize();
  p->nev++;
  vi_seqlast = 0;
  p->incall = 1;
  vi_inlib = 1;
  errno = 0;
  return e;
}
static void end(Ev *e, long res) {
  int er = errno;
  vi_inlib = 0;
  e->res = res; e->err = er; e->seq = vi_seqlast;
  if (res == -1 && (er == EINTR || MP()->stops != e->stops0)) e->intr = 1; /* epoll_wait fails in a process that is stopped and continued */
  e->ret = nowns();
  __sync_synchronize();
  e->done = 1;
  MP()->incall = 0;
}
static void after_cache(HH *h, Ev *e) {
  struct shr_stat st;
  if (!h->buf) return;
  vi_inlib = 1;
  int sc = shr_stat(h->s, &st, NULL);
  vi_inlib = 0;
  if (sc) pviol("stat-failed", "shr_stat failed");
  e->cb1 = h->cb = st.cb; e->cm1 = h->cm = st.cm;
}
static long do_write(HH *h, int k, const unsigned *lens) {
  Proc *p = MP(); struct iovec io[128];
  size_t tot = 0; for (int j = 0; j < k; j++) tot += lens[j];
  if (p->npool + k > POOL || p->nev >= MAXEV - 2) return -9;
  char *d = wbuf.data(); int f = p->npool;
  for (int j = 0; j < k; j++) {
    unsigned tag = (unsigned)me << 19 | p->nseq;
    p->lens[p->nseq] = lens[j]; p->nseq++;
    mk(tag, d, lens[j]); io[j].iov_base = d; io[j].iov_len = lens[j]; d += lens[j];
    p->pool[p->npool].tag = tag; p->pool[p->npool].len = lens[j]; p->npool++;
  }
  Ev *e = begin(O_WRITE, h);
  if (!e) return -9;
  e->first = f; e->nmsg = k; e->cb0 = h->cb; e->cm0 = h->cm;
  long r = k == 1 ? shr_write(h->s, (char *)io[0].iov_base, io[0].iov_len) : shr_writev(h->s, io, k);
  if (h->buf) e->done = 0, vi_inlib = 0, errno = 0;
  end(e, r);
  memset(wbuf.data(), 0xee, tot); /* the library must have copied it */
  if (h->buf) { e->done = 0; after_cache(h, e); e->done = 1; }
  if (r != (long)tot && !(r == 0 && h->nb) && r >= 0)
    pviol("write-result", fmt("a write of %d messages, %zu bytes returned %ld", k, tot, r));
  return e->intr ? -8 : r;
}
static long do_flush(HH *h, int wait) {
  Ev *e = begin(O_FLUSH, h);
  if (!e) return -9;
  e->cb0 = h->cb; e->cm0 = h->cm; e->nonblock = h->nb && !wait;
  long r = shr_flush(h->s, wait);
  end(e, r);
  e->done = 0; after_cache(h, e); e->done = 1;
  return e->intr ? -8 : r;
}
static long do_read(HH *h, u64 cap, u64 niov) {
  Proc *p = MP(); struct iovec io[128]; size_t k = niov;
  if (p->npool + (int)niov > POOL) return -9;
  Ev *e = begin(O_READ, h);
  if (!e) return -9;
  e->cap = cap; e->niov = niov; e->first = p->npool;
  long r;
  if (niov == 1 && cap % 2) { r = shr_read(h->s, rbuf.data(), cap); k = r > 0; io[0].iov_base = rbuf.data(); io[0].iov_len = r; }
  else r = shr_readv(h->s, rbuf.data(), cap, io, &k);
  if (rfarm) e->missed = shr_farm_stat(h->s, 0);
  int er = errno;
  vi_inlib = 0;
  if (r > 0) {
    char *d = rbuf.data();
    if (k < 1 || k > niov) pviol("read-count", fmt("a read returned %ld bytes and %zu messages", r, k));
    for (size_t j = 0; j < k; j++) {
      if (io[j].iov_base != d) pviol("content", "a message read is not where expected in the buffer");
      unsigned tag = io[j].iov_len >= 3 ? tag_of(d) : 0, who = tag >> 19, no = tag & 0x7ffff;
      if (io[j].iov_len < 3 || who > MAXP || no >= M->p[who].nseq || M->p[who].lens[no] != io[j].iov_len)
        pviol("content", fmt("a read returned %zu bytes that are no message written (tag %x)", io[j].iov_len, tag));
      std::vector<char> want(io[j].iov_len); mk(tag, want.data(), io[j].iov_len);
      if (memcmp(want.data(), d, io[j].iov_len)) pviol("content", fmt("message %u of process %u (%zu bytes) was altered", no, who, io[j].iov_len));
      p->pool[p->npool].tag = tag; p->pool[p->npool].len = io[j].iov_len; p->npool++;
      d += io[j].iov_len;
    }
    if (d - rbuf.data() != r) pviol("read-result", fmt("a read returned %ld, its messages have %ld bytes", r, (long)(d - rbuf.data())));
    e->nmsg = k;
  } else if (k != 0) pviol("read-count", fmt("a read returned %ld and reports %zu messages", r, k));
  vi_inlib = 1; errno = er;
  end(e, r);
  return e->intr ? -8 : r;
}
static void do_stat(HH *h, int reset) {
  static u64 rs = 0;
  struct timeval tv = {(long)(1000 + me * 1000000 + ++rs), 5};
  Ev *e = begin(O_STAT, h);
  if (!e) return;
  e->reset = reset; e->reset_to = tv.tv_sec;
  int r = shr_stat(h->s, &e->st, reset ? &tv : NULL);
  end(e, r);
}
static int appver;
static void do_app(HH *h, int kind) {
  std::vector<char> b(applen), c(applen + 8, (char)0xaa); size_t sz = applen; void *g = c.data();
  int ver = (me << 16) | ++appver;
  bool alloc = kind == O_APPGET && D.below(2); /* the library is to allocate the buffer */
  Ev *e = begin(kind, h);
  if (!e) return;
  int r;
  if (alloc) g = NULL;
  if (kind == O_APPGET) r = shr_appdata(h->s, &g, NULL, &sz);
  else { mkapp(ver, b.data(), applen); e->ver = ver; r = kind == O_APPSET ? shr_appdata(h->s, NULL, b.data(), &sz) : shr_appdata(h->s, &g, b.data(), &sz); }
  vi_inlib = 0;
  if (alloc && r == 0) { if (sz != applen || !g) pviol("app-size", "shr_appdata gave another size"); memcpy(c.data(), g, applen); free(g); }
  if (r == 0 && kind != O_APPSET) {
    int v = 0; memcpy(&v, c.data(), applen < 4 ? applen : 4);
    std::vector<char> w(applen); mkapp(v, w.data(), applen);
    if (memcmp(w.data(), c.data(), applen)) pviol("app-torn", fmt("shr_appdata returned a mixture (%zu bytes, starts as version %x)", applen, v));
    for (int k = 0; k < 8; k++) if (c[applen + k] != (char)0xaa) pviol("app-overrun", "shr_appdata wrote beyond the data");
    e->gotver = v;
  }
  vi_inlib = 1;
  end(e, r);
}
static HH *do_open(bool rd, bool nb, bool buf) {
  static int no;
  HH *h = new HH(); h->rd = rd; h->nb = nb; h->buf = buf; h->no = no++; h->cb = h->cm = 0;
  Ev *e = begin(rd && rfarm ? O_OPENFARM : O_OPEN, h);
  if (!e) { delete h; return NULL; }
  e->buffered = 0;
  h->s = shr_open(ring.c_str(), (rd ? SHR_RDONLY : SHR_WRONLY) | (nb ? SHR_NONBLOCK : 0) | (buf ? SHR_BUFFERED : 0));
  end(e, h->s ? 0 : -1);
  if (!h->s) pviol("open-failed", "shr_open failed on a sound ring with few users");
  return h;
}
static void do_close(HH *h) {
  if (h->buf && h->cb) { /* so that the close has nothing left to write */
    while (h->cb) { long r = do_flush(h, 1); if (r == -9) return; if (r < 0 && r != -8) pviol("flush-failed", fmt("a blocking flush returned %ld", r)); }
  }
  Ev *e = begin(O_CLOSE, h);
  if (!e) return;
  e->buffered = 0;
  shr_close(h->s);
  end(e, 0);
  delete h;
}
/* wait on the selectable descriptor, then read */
static long do_pollread(HH *h, u64 cap, u64 niov) {
  Ev *e = begin(O_POLLWAIT, h);
  if (!e) return -9;
  vi_inlib = 0;
  struct pollfd pf = {shr_get_selectable_fd(h->s), POLLIN, 0};
  if (pf.fd < 0) pviol("selectable", "no selectable descriptor");
  int r;
  do r = poll(&pf, 1, -1); while (r < 0 && errno == EINTR);
  end(e, r);
  return do_read(h, cap, niov);
}

/* ---- a child ---- */
struct Plan { int nops; bool wr, rd, wnb, rnb, wbuf, pollmode, churn; int pw; u64 seed; int rcap; int unclean; };
static unsigned rlen(Rng &g, u64 max) {
  if (max < 3) return 3;
  if (rlarge && g.p(50)) return g.range(max / 8 + 3, std::max<u64>(max / 8 + 3, max));
  switch (g.below(5)) {
    case 0: return g.range(3, std::min<u64>(max, 10));
    case 1: return max > 1000 ? g.range(3, 1000) : max;
    case 2: return g.range(3, std::max<u64>(3, max / 4));
    case 3: return g.range(3, std::max<u64>(3, max / 10));
    default: return g.range(3, std::max<u64>(3, max / 2));
  }
}
static void child(int idx, Plan pl) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  me = idx;
  Rng g(pl.seed); D = Rng(pl.seed ^ 0x55);
  signal(SIGALRM, SIG_DFL); alarm(0);
  while (!M->go) usleep(100);
  HH *w = NULL, *r = NULL;
  Proc *p = MP();
  for (int k = 0; k < pl.nops && p->nev < MAXEV - 8; k++) {
    if (pl.wr && !w) w = do_open(false, pl.wnb, pl.wbuf);
    if (pl.rd && !r) r = do_open(true, pl.rnb, false);
    if ((pl.wr && !w) || (pl.rd && !r)) break;
    if (g.p(P->stat) && g.p(40)) { do_stat(w ? w : r, !rkillany && g.p(25)); continue; }
    if (rapp && g.p(P->app) && g.p(60)) { do_app(w ? w : r, rkillany ? O_APPGET : g.pick({O_APPGET, O_APPGET, O_APPSET, O_APPGS})); continue; /* a set that is killed may tear */ }
    if (pl.churn && g.p(12)) {
      if (w && g.p(50)) { do_close(w); w = NULL; }
      else if (r) { do_close(r); r = NULL; }
      continue;
    }
    if (w && (!r || g.p(pl.pw))) {
      if (w->buf && g.p(25)) { do_flush(w, g.p(50)); continue; }
      int n = g.p(60) ? 1 : (int)g.range(1, std::min<u64>(6, rmm));
      unsigned lens[128]; u64 left = rn;
      bool many = rlong && g.p(50);
      if (many) n = g.range(20, std::min<u64>(100, rmm));
      for (int j = 0; j < n && many; j++) { lens[j] = g.range(3, std::max<u64>(3, std::min<u64>(rn / 8 / n, 60))); }
      for (int j = 0; j < n && !many; j++) { if (left < 3) { n = j; break; } lens[j] = rlen(g, n == 1 ? left : std::max<u64>(3, left / 2)); left -= std::min<u64>(left, lens[j]); }
      u64 tot = 0; for (int j = 0; j < n; j++) tot += lens[j];
      if (n == 0 || tot > rn) continue;
      long rc = do_write(w, n, lens);
      if (rc == -9) break;
      if (rc == 0) { if (g.p(30)) usleep(g.below(300)); }
      else if (rc == -8) continue;
      else if (rc < 0) pviol("write-failed", fmt("a write of %d messages, %llu bytes failed with %ld", n, (unsigned long long)tot, rc));
    } else if (r) {
      u64 cap = g.p(60) ? rn : g.range(1, rn), niov = g.p(50) ? 1 : g.range(1, rlong ? 100 : 12);
      long rc = pl.pollmode ? do_pollread(r, cap, niov) : do_read(r, cap, niov);
      if (rc == -9) break;
      if (rc == -8) continue;
      if (rc == -1 || rc < -2) pviol("read-failed", fmt("a read failed with %ld", rc));
      if (rc == 0 && !pl.rnb) pviol("read-result", "a blocking read returned 0");
      if (rc == 0 && !pl.pollmode && g.p(30)) usleep(g.below(300));
    }
  }
  if (w && w->buf) { while (w->cb) { long q = do_flush(w, 1); if (q < 0 && q != -8) break; } if (w->cb && p->nev >= MAXEV - 2) pl.unclean = 0; }
  if (!pl.unclean) { if (w) { if (w->cb == 0) do_close(w); } if (r) do_close(r); }
  p->finished = 1;
  _exit(0);
}

/* ---- the judge ---- */
struct QM { unsigned tag, len; };
struct State {
  std::deque<QM> q; u64 u = 0; u64 base = 0;       /* unread; farm: present, base: number of the eldest */
  u64 bw = 0, br = 0, mw = 0, mr = 0, md = 0, bd = 0; u64 start = 0; int app = 1;
  std::map<int, std::pair<u64, u64>> pos;          /* farm: proc<<16|handle -> next, missed */
  u64 hash() const {
    u64 h = mix(u, base);
    for (auto &m : q) h = mix(h, m.tag);
    h = mix(h, bw * 3 + br * 5 + mw * 7 + mr * 11 + md * 13 + bd * 17 + start * 19 + app * 23);
    for (auto &x : pos) h = mix(h, x.first * 31 + x.second.first * 37 + x.second.second);
    return h;
  }
};
enum { L_WRITE, L_WFAIL, L_READ, L_STAT, L_APPGET, L_APPSET, L_APPGS, L_OPENFARM };
struct LOp {
  int kind, proc, h; u64 inv, ret, seq; bool pending, nonblock; const Ev *e;
  std::vector<QM> msgs; u64 tot; int var; /* pending read: number consumed */
};
static std::vector<std::vector<LOp>> L;
static bool counters_exact;
static bool make_room(State &s, u64 tot, u64 k) { /* drop the oldest as needed */
  while (s.u + tot > rn || s.q.size() + k > rmm) {
    if (s.q.empty()) return false;
    s.u -= s.q.front().len; s.md++; s.bd += s.q.front().len; s.q.pop_front(); s.base++;
  }
  return true;
}
static bool apply(State &s, const LOp &o) {
  const Ev *e = o.e;
  switch (o.kind) {
    case L_WRITE: {
      if (rdrop) { if (!make_room(s, o.tot, o.msgs.size())) return false; }
      else if (s.u + o.tot > rn || s.q.size() + o.msgs.size() > rmm) return false;
      if (o.pending && o.var == 2) return rdrop; /* killed after it made room */
      for (auto &m : o.msgs) s.q.push_back(m);
      s.u += o.tot; s.bw += o.tot; s.mw += o.msgs.size();
      return true;
    }
    case L_WFAIL: return !rdrop && (s.u + o.tot > rn || s.q.size() + o.msgs.size() > rmm);
    case L_READ: {
      size_t at = 0; u64 avail;
      std::pair<u64, u64> *ps = NULL;
      if (rfarm) {
        ps = &s.pos[o.proc << 16 | o.h];
        if (ps->first < s.base) { ps->second += s.base - ps->first; ps->first = s.base; }
        at = ps->first - s.base;
      }
      avail = s.q.size() - at;
      size_t k = 0; u64 by = 0;
      while (k < avail && k < e->niov && by + s.q[at + k].len <= e->cap) { by += s.q[at + k].len; k++; }
      if (o.pending) { if (o.var > (int)k) return false; k = o.var; by = 0; for (size_t j = 0; j < k; j++) by += s.q[at + j].len; }
      else {
        if (e->res == 0) return avail == 0 && o.nonblock && (!rfarm || e->missed == ps->second);
        if (e->res == -2) return avail > 0 && k == 0 && (!rfarm || e->missed == ps->second);
        if (e->res != (long)by || e->nmsg != (int)k) return false;
        for (size_t j = 0; j < k; j++) if (s.q[at + j].tag != o.msgs[j].tag) return false;
        if (rfarm && e->missed != ps->second) return false;
      }
      s.br += by; s.mr += k;
      if (rfarm) ps->first += k;
      else { s.u -= by; s.base += k; s.q.erase(s.q.begin(), s.q.begin() + k); }
      return true;
    }
    case L_STAT: {
      const struct shr_stat &t = e->st;
      if (!o.pending) {
        if (t.bn != rn || t.mm != rmm) return false;
        /* a writer to a farm killed between counting messages as dropped and displacing them leaves the two apart */
        if ((!rfarm || counters_exact) && (t.bu != s.u || t.mu != s.q.size())) return false;
        if (counters_exact && (t.bw != s.bw || t.br != s.br || t.mw != s.mw || t.mr != s.mr || t.md != s.md || t.bd != s.bd || (u64)t.start.tv_sec != s.start)) return false;
      }
      if (e->reset) { s.bw = s.br = s.mw = s.mr = s.md = s.bd = 0; s.start = e->reset_to; }
      return true;
    }
    case L_APPGET: return s.app == e->gotver;
    case L_APPSET: s.app = e->ver; return true;
    case L_APPGS: if (!o.pending && s.app != e->gotver) return false; s.app = e->ver; return true;
    case L_OPENFARM: s.pos[o.proc << 16 | o.h] = {s.base, 0}; return true;
  }
  return true;
}
static std::unordered_set<u64> memo; static u64 nodes; static std::vector<int> best; static size_t bestn;
static std::vector<std::string> bestlog;
/* 1: a valid order exists, 0: none, -1: gave up */
static int search(std::vector<int> &at, const State &s, size_t n) {
  u64 minret = ~0ULL; bool more = false;
  for (size_t p = 0; p < L.size(); p++) if (at[p] < (int)L[p].size() && !L[p][at[p]].pending) { more = true; minret = std::min(minret, L[p][at[p]].ret); }
  if (n > bestn) { bestn = n; best = at; }
  if (!more) return 1;
  if (++nodes > 400000) return -1;
  u64 h = s.hash(); for (int x : at) h = mix(h, x);
  if (!memo.insert(h).second) return 0;
  std::vector<std::pair<u64, int>> c;
  for (size_t p = 0; p < L.size(); p++) if (at[p] < (int)L[p].size()) {
    const LOp &o = L[p][at[p]];
    if (o.inv <= minret) c.push_back({o.seq ? o.seq : (o.pending ? ~0ULL - 1 : 0), (int)p});
  }
  std::sort(c.begin(), c.end());
  for (auto &x : c) {
    LOp &o = L[x.second][at[x.second]];
    int vars = !o.pending ? 1 : o.kind == L_READ ? (int)o.e->niov : o.kind == L_WRITE ? 2 : 1;
    for (int v = vars; v >= 1; v--) {
      o.var = v;
      State t = s;
      if (!apply(t, o)) continue;
      at[x.second]++;
      int r = search(at, t, n + 1);
      at[x.second]--;
      if (r) return r;
    }
  }
  return 0;
}
static std::string evstr(int p, const Ev *e) {
  std::string m;
  for (int k = 0; k < e->nmsg && k < 12; k++) m += fmt(" %u.%u(%u)", M->p[p].pool[e->first + k].tag >> 19, M->p[p].pool[e->first + k].tag & 0x7ffff, M->p[p].pool[e->first + k].len);
  std::string x;
  if (e->op == O_READ) x = fmt(" cap %llu niov %llu missed %llu", (unsigned long long)e->cap, (unsigned long long)e->niov, (unsigned long long)e->missed);
  if (e->buffered) x += fmt(" held %llu->%llu", (unsigned long long)e->cb0, (unsigned long long)e->cb1);
  if (e->op == O_STAT) x = fmt(" bu %zu mu %zu bw %zu br %zu mw %zu mr %zu md %zu bd %zu%s", e->st.bu, e->st.mu, e->st.bw, e->st.br, e->st.mw, e->st.mr, e->st.md, e->st.bd, e->reset ? " reset" : "");
  if (e->op >= O_APPGET && e->op <= O_APPGS) x = fmt(" got %x set %x", e->gotver, e->ver);
  return fmt("[%llu..%s #%llu] p%d.h%d %s%s%s%s -> %ld", (unsigned long long)(e->inv / 1000 % 100000000), e->done ? fmt("%llu", (unsigned long long)(e->ret / 1000 % 100000000)).c_str() : "never",
             (unsigned long long)e->seq, p, e->h, oname[e->op], e->nonblock ? " nb" : "", m.c_str(), x.c_str(), e->res);
}
static void judge(int np, bool killed) {
  L.assign(np + 1, {});
  size_t total = 0; u64 overlaps = 0;
  counters_exact = !killed;
  std::vector<std::pair<u64, std::string>> lines;
  for (int p = 0; p <= np; p++) {
    Proc *pr = &M->p[p];
    std::map<int, std::deque<QM>> cache;
    for (int k = 0; k < pr->nev; k++) {
      const Ev *e = &pr->ev[k];
      lines.push_back({e->inv, evstr(p, e)});
      LOp o; o.proc = p; o.h = e->h; o.inv = e->inv; o.ret = e->done ? e->ret : ~0ULL; o.seq = e->seq; o.pending = !e->done;
      o.nonblock = e->nonblock; o.e = e; o.tot = 0; o.var = 0;
      for (int j = 0; j < e->nmsg; j++) { PMsg &m = pr->pool[e->first + j]; o.msgs.push_back({m.tag, m.len}); o.tot += m.len; }
      switch (e->op) {
        case O_WRITE: case O_FLUSH:
          if (!e->buffered) { if (e->op == O_FLUSH) continue; o.kind = e->done && e->res == 0 ? L_WFAIL : L_WRITE; break; }
          else {
            auto &c = cache[e->h]; u64 held = 0; for (auto &m : c) held += m.len;
            if (o.pending && !killed) violation("stuck", "a buffered call never ended");
            if (held != e->cb0 || c.size() != e->cm0) violation("cache-usage", fmt("the buffer is said to hold %llu bytes, %llu messages; it should be %llu, %zu", (unsigned long long)e->cb0, (unsigned long long)e->cm0, (unsigned long long)held, c.size()));
            LOp f = o; f.kind = L_WRITE; f.msgs.assign(c.begin(), c.end()); f.tot = held;
            if (o.pending) { /* what it held, and then the new, may have got to the ring */
              if (held) { L[p].push_back(f); total++; }
              if (e->op == O_FLUSH) continue;
              o.kind = L_WRITE; break;
            }
            if (e->op == O_FLUSH) {
              if (held == 0) { if (e->res != 0) violation("flush-result", fmt("a flush of an empty buffer returned %ld", e->res)); continue; }
              if (e->res == 0 && e->nonblock) { f.kind = L_WFAIL; if (e->cb1 != held) violation("cache-usage", "a flush that did nothing changed the buffer"); }
              else if (e->intr) { if (e->cb1 != held) violation("cache-usage", "a flush that failed changed the buffer"); continue; }
              else { if (e->res != (long)held || e->cb1) violation("flush-result", fmt("a flush of %llu bytes returned %ld and left %llu", (unsigned long long)held, e->res, (unsigned long long)e->cb1)); c.clear(); }
              o = f; break;
            }
            if (e->res > 0) {
              if (e->cb1 == held + o.tot) { for (auto &m : o.msgs) c.push_back(m); continue; } /* only buffered */
              if (e->cb1 != o.tot && e->cb1 != 0) violation("cache-usage", "a buffered write left a strange amount in the buffer");
              if (held) { L[p].push_back(f); total++; }
              c.clear();
              if (e->cb1) { for (auto &m : o.msgs) c.push_back(m); continue; }
              o.kind = L_WRITE; o.seq++; break;
            }
            if (e->res < 0) { if (e->intr && held && e->cb1 == 0) { L[p].push_back(f); total++; c.clear(); } else if (e->cb1 != held) violation("cache-usage", "a failed write changed the buffer"); continue; }
            if (e->cb1 == held) { if (held) { f.kind = L_WFAIL; o = f; } else o.kind = L_WFAIL; break; }
            if (e->cb1) violation("cache-usage", "a refused write left a strange amount in the buffer");
            L[p].push_back(f); total++; c.clear(); o.kind = L_WFAIL; o.seq++; break;
          }
        case O_READ: o.kind = L_READ; if (o.pending && !killed) violation("stuck", "a read never ended"); break;
        case O_STAT: o.kind = L_STAT; if (o.pending) continue; break;
        case O_APPGET: o.kind = L_APPGET; if (o.pending) continue; break;
        case O_APPSET: o.kind = L_APPSET; break;
        case O_APPGS: o.kind = L_APPGS; break;
        case O_OPENFARM: o.kind = L_OPENFARM; if (o.pending) continue; break;
        default: continue;
      }
      if (e->done && e->intr) continue;
      if (e->done && e->res < 0 && !(e->op == O_READ && e->res == -2)) {
        /* failed: which the caller has judged; no effect */
        violation("call-failed", fmt("%s returned %ld (%s): %s", oname[e->op], e->res, strerror(e->err), evstr(p, e).c_str()));
      }
      L[p].push_back(o); total++;
    }
    if (!killed) for (auto &c : cache) if (c.second.size()) { count("left_in_buffer"); }
  }
  /* overlapping pairs seen */
  std::vector<std::pair<u64, u64>> iv;
  for (auto &v : L) for (auto &o : v) iv.push_back({o.inv, o.ret});
  std::sort(iv.begin(), iv.end());
  u64 mx = 0; for (auto &x : iv) { if (x.first < mx) overlaps++; if (x.second != ~0ULL) mx = std::max(mx, x.second); }
  count("calls", total); count("overlapping_calls", overlaps);
  std::vector<std::pair<u64, int>> sq; for (size_t p = 0; p < L.size(); p++) for (auto &o : L[p]) sq.push_back({o.seq, (int)p * 8 + o.kind});
  std::sort(sq.begin(), sq.end());
  u64 h = 0; for (auto &x : sq) h = mix(h, x.second);
  distinct("interleavings", h);
  std::sort(lines.begin(), lines.end());
  oplog.clear(); for (auto &l : lines) oplog.push_back(l.second);
  memo.clear(); nodes = 0; bestn = 0; best.assign(np + 1, 0);
  std::vector<int> at(np + 1, 0);
  State s;
  int r = search(at, s, 0);
  count("search_nodes", nodes);
  if (r == 1) { count("histories_explained"); return; }
  /* pending reads and such aside: what cannot be explained */
  std::string why;
  for (size_t p = 0; p < L.size(); p++) if (best[p] < (int)L[p].size()) why += " | " + evstr(p, L[p][best[p]].e);
  if (r < 0) { count("histories_undecided"); return; }
  violation("no-valid-order", fmt("no order of the calls explains their results; %zu of %zu explained, then stuck at%.1500s", bestn, total, why.c_str()));
}
/* a nonblocking reader's descriptor ready again though no writer came near */
static void judge_spurious(int np) {
  for (int p = 1; p <= np; p++) {
    Proc *pr = &M->p[p];
    const Ev *z = NULL;
    for (int k = 0; k < pr->nev; k++) {
      const Ev *e = &pr->ev[k];
      if (!e->done) break;
      if (e->op == O_READ && k && pr->ev[k - 1].op == O_POLLWAIT) {
        bool last = e->res == 0 || e->res > 0;
        if (e->res == 0 && z && z->h == e->h) {
          /* a write call that ended after z began and began before this read did? */
          bool why = false;
          for (int x = 0; x <= np && !why; x++) for (int y = 0; y < M->p[x].nev && !why; y++) {
            const Ev *w = &M->p[x].ev[y];
            if ((w->op == O_WRITE || w->op == O_FLUSH || w->op == O_CLOSE) && w->inv <= e->inv && (!w->done || w->ret >= z->inv)) why = true;
            if (x == p && w->op == O_OPENFARM && w->h == e->h && w->ret >= z->inv) why = true;
          }
          if (!why) violation("spurious-ready", "the descriptor polled readable although a read had found nothing and no write came after: " + evstr(p, e));
          count("spurious_wakeups_justified");
        }
        (void)last;
        z = e->res == 0 ? e : NULL;
      } else if (e->op == O_READ) z = e->res == 0 ? e : NULL;
    }
  }
}

/* ---- the controller ---- */
static char pstate(pid_t pid, unsigned long *sw) {
  char b[2048]; int fd = open(fmt("/proc/%d/status", pid).c_str(), O_RDONLY);
  if (fd < 0) return 'X';
  int n = read(fd, b, sizeof b - 1); close(fd);
  if (n <= 0) return 'X';
  b[n] = 0;
  char *s = strstr(b, "State:\t"), *v = strstr(b, "voluntary_ctxt_switches:\t"), *nv = strstr(b, "nonvoluntary_ctxt_switches:\t");
  *sw = (v ? strtoul(v + 25, 0, 10) : 0) + (nv ? strtoul(nv + 28, 0, 10) : 0);
  return s ? s[7] : '?';
}
static int ncut;
static void one(u64 k) {
  G = Rng(mix(A.seed * 7919 + 3, k));
  begin_case(k);
  vi_delay = NULL; vi_on_memcpy = NULL; dmode = 0;
  rfarm = G.p(P->farm); rdrop = rfarm || G.p(P->drop); rapp = G.p(P->app);
  switch (G.below(4)) { case 0: rn = G.range(12, 80); break; case 1: rn = G.range(80, 600); break; case 2: rn = G.range(600, 6000); break; default: rn = G.range(3000, 40000); }
  u64 mm = G.p(50) ? G.range(1, 12) : G.p(50) ? G.range(1, 100) : 0;
  rlong = G.p(P->drop == 0 ? 12 : 5);
  if (rlong) { rn = G.range(2000, 40000); mm = G.p(50) ? 0 : G.range(60, 500); }
  rlarge = A.mode == "large";
  if (rlarge) { rn = G.pick<u64>({150000, 500000, 1500000, 5000000}); rn = G.range(rn / 2, rn); rlong = false; }
  rmm = mm ? mm : 100 + rn / 100;
  int np = G.range(2, 6);
  int killmode = G.p(P->kill) ? (G.p(50) ? 1 : 2) : 0; /* 1: only while blocked; 2: any time */
  rkillany = killmode == 2;
  applen = (rlarge ? G.pick({5, 5000, 70000, 300000}) : G.pick({5, 16, 100, 5000})) + G.below(9);
  int dm = G.below(6);
  ring = fmt("%s/c%llu", A.dir.c_str(), (unsigned long long)k);
  unlink(ring.c_str());
  wbuf.assign(rn + 64, 0); rbuf.assign(rn + 64, 0);
  memset((void *)&M->lockseq, 0, sizeof M->lockseq); M->go = 0;
  for (int p = 0; p <= np; p++) { Proc *pr = &M->p[p]; pr->nev = pr->npool = pr->incall = pr->ready = pr->finished = pr->viol = pr->polling = 0; pr->nseq = 0; }
  { std::vector<char> ap(applen); mkapp(1, ap.data(), applen);
    unsigned fl = (rfarm ? SHR_FARM : rdrop ? SHR_DROP : 0) | (rapp ? SHR_APPDATA_1 : 0) | (mm ? SHR_MAXMSGS_2 : 0);
    int rc = rapp ? shr_init((char *)ring.c_str(), rn, fl, ap.data(), applen, (size_t)mm) : shr_init((char *)ring.c_str(), rn, fl, (size_t)mm);
    if (rc) harness_error("shr_init"); }
  casehdr = fmt("ring %llu bytes, %llu messages%s%s, %d processes, delays %d, kill %d", (unsigned long long)rn, (unsigned long long)rmm, rfarm ? " farm" : rdrop ? " drop" : "", rapp ? " appdata" : "", np, dm, killmode);
  if (A.trace) printf("case %llu: %s\n", (unsigned long long)k, casehdr.c_str());
  distinct("configs", mix(rn * 64 + rmm, rfarm * 8 + rdrop * 4 + killmode + np * 100 + dm * 1000));
  pid_t pid[MAXP + 1]; bool alive[MAXP + 1], dead_unreaped[MAXP + 1], killed[MAXP + 1]; Plan pl[MAXP + 1];
  int nw = 0, nr = 0;
  dmode = dm; vi_delay = dm ? delay : NULL; vi_on_memcpy = dm ? on_mc : NULL;
  fflush(stdout);
  for (int p = 1; p <= np; p++) {
    Plan &q = pl[p];
    q.seed = G.next();
    q.wr = G.p(60); q.rd = !q.wr || G.p(20);
    if (p == np && !nw) q.wr = true;
    if (p == np - 1 && !nr) q.rd = true;
    nw += q.wr; nr += q.rd;
    bool bl = G.p(P->block);
    q.wnb = !bl; q.rnb = !G.p(P->block); q.wbuf = !rkillany && G.p(P->buf); q.pollmode = q.rd && q.rnb && G.p(P->pollmode);
    if (q.rd && !q.rnb && G.p(P->pollmode)) { q.rnb = true; q.pollmode = true; }
    q.churn = G.p(P->churn); q.nops = rlarge ? G.range(5, 25) : G.range(5, 60); q.pw = G.range(30, 75); q.unclean = G.p(25);
    pid[p] = fork();
    if (pid[p] < 0) harness_error("fork");
    if (pid[p] == 0) child(p, q);
    alive[p] = true; dead_unreaped[p] = killed[p] = false;
  }
  dmode = 0; vi_delay = NULL; vi_on_memcpy = NULL;
  me = 0; vi_seqlast = 0;
  HH *cw = do_open(false, true, false), *cr = do_open(true, true, false);
  M->go = 1;
  double t0 = now(), quiet0 = 0; bool anykilled = false;
  unsigned long sw[MAXP + 1], swo[MAXP + 1]; memset(swo, 0, sizeof swo);
  int quiet = 0; u64 nudges = 0, blocks = 0;
  u64 spcpu[MAXP + 1] = {0}; int spnev[MAXP + 1] = {0}; double spt = t0;
  /* a history that gets too long, or in which a call keeps the processor busy (C32's matter), ends unjudged */
  auto cut = [&](const char *why) {
    if (A.trace) printf("  cut short: %s\n", why);
    for (int x = 1; x <= np; x++) { if (alive[x]) kill(pid[x], SIGKILL); if (alive[x] || dead_unreaped[x]) waitpid(pid[x], 0, 0); }
    do_close(cw); do_close(cr); unlink(ring.c_str());
    count("cut_short"); count(fmt("cut_%s", why).c_str());
  };
  for (;;) {
    int nalive = 0; bool allq = true;
    for (int p = 1; p <= np; p++) {
      if (M->p[p].viol) { std::string key = M->p[p].vkey, t = M->p[p].vtext; for (int x = 1; x <= np; x++) if (alive[x]) { kill(pid[x], SIGKILL); waitpid(pid[x], 0, 0); }
        std::vector<std::pair<u64, std::string>> lines; for (int x = 0; x <= np; x++) for (int y = 0; y < M->p[x].nev; y++) lines.push_back({M->p[x].ev[y].inv, evstr(x, &M->p[x].ev[y])});
        std::sort(lines.begin(), lines.end()); oplog.clear(); for (auto &l : lines) oplog.push_back(l.second);
        violation(key.c_str(), t); }
      if (!alive[p]) continue;
      if (M->p[p].finished) { int st; if (waitpid(pid[p], &st, 0) == pid[p]) { alive[p] = false; continue; } }
      char s = pstate(pid[p], &sw[p]);
      if (s == 'Z' || s == 'X') {
        int st; if (killed[p] && G.p(50)) { alive[p] = false; dead_unreaped[p] = true; continue; } /* leave a zombie */
        if (waitpid(pid[p], &st, 0) == pid[p]) {
          alive[p] = false;
          if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) violation("crash", fmt("a process died from signal %d", WTERMSIG(st)));
          if (WIFEXITED(st) && WEXITSTATUS(st) && !M->p[p].viol) violation("crash", fmt("a process exited with %d", WEXITSTATUS(st)));
        }
        continue;
      }
      nalive++;
      if (s != 'S' || !M->p[p].incall || sw[p] != swo[p]) allq = false;
      swo[p] = sw[p];
    }
    if (!nalive) break;
    if (SP) SP->op++;
    if (!allq) { quiet = 0; usleep(G.p(50) ? 300 : 1500);
      if (G.p(4)) { int p = G.range(1, np); if (alive[p] && !M->p[p].finished) { M->p[p].stops++; kill(pid[p], SIGSTOP); usleep(G.below(800)); kill(pid[p], SIGCONT); count("stops"); } }
      if (killmode == 2 && !anykilled && G.p(3)) { int p = G.range(1, np); if (alive[p]) { kill(pid[p], SIGKILL); killed[p] = true; anykilled = true; count("kills_any"); } }
      if (now() - spt > 0.5) { /* has a process used the processor for 2 s within one call? */
        spt = now(); bool spins = false;
        for (int p = 1; p <= np; p++) if (alive[p]) {
          Proc *pr = &M->p[p]; u64 c = cpu_ns(pid[p]);
          if (pr->nev != spnev[p] || !pr->incall) { spnev[p] = pr->nev; spcpu[p] = c; }
          else if (c - spcpu[p] > 2000000000ull) spins = true;
        }
        if (spins) { cut("busy"); ncut++; return; }
      }
      if (now() - t0 > 60.0 * A.slow) { cut("slow"); ncut++; return; }
      continue; }
    if (++quiet < 3) { usleep(1500); continue; }
    /* everybody sleeps inside a call: is that right? */
    struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK;
    int lf = open(ring.c_str(), O_RDWR);
    int sc = fcntl(lf, F_GETLK, &fl); close(lf);
    count("lock_probes");
    bool over = quiet0 && now() - quiet0 > 3.0 * A.slow;
    if (sc == 0 && fl.l_type != F_UNLCK) { if (!quiet0) quiet0 = now(); if (over) violation("sleeps-locked", fmt("process %d holds the lock while all wait", fl.l_pid)); usleep(5000); continue; }
    struct shr_stat st;
    vi_inlib = 1; sc = shr_stat(cw->s, &st, NULL); vi_inlib = 0;
    if (sc) violation("stat-failed", "shr_stat failed");
    std::string wrong; bool reader = false, writer = false, farmreader = false;
    for (int p = 1; p <= np; p++) if (alive[p]) {
      Proc *pr = &M->p[p]; const Ev *e = &pr->ev[pr->nev - 1];
      u64 by = 0, ms = 0;
      switch (e->op) {
        case O_READ: case O_POLLWAIT:
          if (rfarm) { farmreader = true; break; }
          reader = true;
          if (st.mu) wrong = fmt("process %d %s with %zu messages unread", p, e->op == O_READ ? "is blocked reading" : "finds its descriptor not readable", st.mu);
          break;
        case O_WRITE: case O_FLUSH:
          writer = true;
          if (e->buffered && (e->op == O_FLUSH || e->cb0)) { by = e->cb0; ms = e->cm0; }
          if (!by) for (int j = 0; j < e->nmsg; j++) { by += pr->pool[e->first + j].len; ms++; }
          if (rdrop) wrong = fmt("process %d is blocked writing to a drop ring", p);
          else if (e->buffered && e->op == O_WRITE && e->cb0) { /* the held ones, or behind them the new ones */
            u64 nb = 0; for (int j = 0; j < e->nmsg; j++) nb += pr->pool[e->first + j].len;
            if (st.bn - st.bu >= std::max(by, nb) && st.mm - st.mu >= std::max<u64>(ms, e->nmsg)) wrong = fmt("process %d is blocked in a buffered write with %zu bytes, %zu places free", p, st.bn - st.bu, st.mm - st.mu);
          } else if (st.bn - st.bu >= by && st.mm - st.mu >= ms)
            wrong = fmt("process %d is blocked writing %llu bytes, %llu messages with %zu bytes, %zu places free", p, (unsigned long long)by, (unsigned long long)ms, st.bn - st.bu, st.mm - st.mu);
          break;
        default: wrong = fmt("process %d sleeps in %s", p, oname[e->op]);
      }
    }
    if (wrong.size()) {
      if (!quiet0) quiet0 = now();
      if (over) {
        std::vector<std::pair<u64, std::string>> lines; for (int x = 0; x <= np; x++) for (int y = 0; y < M->p[x].nev; y++) lines.push_back({M->p[x].ev[y].inv, evstr(x, &M->p[x].ev[y])});
        std::sort(lines.begin(), lines.end()); oplog.clear(); for (auto &l : lines) oplog.push_back(l.second);
        violation(wrong.find("descriptor") != std::string::npos ? "not-readable" : "not-woken", wrong + fmt(" for %.1f s", now() - quiet0));
      }
      usleep(5000); continue;
    }
    quiet0 = 0; blocks++;
    count("blocked_states_right");
    distinct("blocked_states", mix(st.bu * 131 + st.mu, mix(reader * 4 + writer * 2 + farmreader, k)));
    quiet = 0;
    /* let them go on: kill one, read, or write */
    if (killmode && !anykilled && G.p(35)) {
      int p = G.range(1, np); if (alive[p]) { kill(pid[p], SIGKILL); killed[p] = true; anykilled = true; count("kills_blocked"); if (G.p(50)) usleep(1000); }
    }
    if (nudges > 500 || M->p[0].nev > MAXEV - 60) { cut("long"); return; }
    nudges++;
    if (writer && (!reader || G.p(60))) { do_read(cr, G.p(70) ? rn : G.range(1, rn), G.range(1, 12)); }
    else if (reader || farmreader) {
      unsigned lens[8]; int n = G.p(70) ? 1 : (int)G.range(1, std::min<u64>(3, rmm)); u64 mxl = rn / n;
      if (mxl < 3) { n = 1; mxl = rn; }
      for (int j = 0; j < n; j++) lens[j] = rlen(G, mxl);
      do_write(cw, n, lens);
      if (farmreader) { /* every farm reader must get the last of these */
        unsigned tag = M->p[0].pool[M->p[0].npool - 1].tag; double t1 = now();
        (void)tag;
        for (;;) {
          int late = 0;
          for (int p = 1; p <= np; p++) if (alive[p]) {
            Proc *pr = &M->p[p]; const Ev *e = &pr->ev[pr->nev - 1]; unsigned long x;
            if (e->op != O_READ && e->op != O_POLLWAIT) continue;
            char s = pstate(pid[p], &x);
            if (s != 'S' || !pr->incall) continue;
            if (x == sw[p]) late = p; /* has not moved since it was seen asleep */
          }
          if (!late) break;
          if (SP) SP->op++;
          if (now() - t1 > 3.0 * A.slow) violation("not-woken", fmt("farm reader process %d sleeps on after a write", late));
          usleep(1000);
        }
        count("farm_wakes_seen");
      }
    }
  }
  /* all gone: what is left */
  if (!rfarm) { for (int x = 0; x < 2000; x++) { long r = do_read(cr, rn, 12); if (r <= 0) { if (r < 0) violation("read-failed", fmt("a read returned %ld", r)); break; } } }
  else { for (int x = 0; x < 2000; x++) { long r = do_read(cr, rn, 12); if (r <= 0) break; } }
  do_stat(cw, 0);
  for (int p = 1; p <= np; p++) if (dead_unreaped[p]) waitpid(pid[p], 0, 0);
  bool reallykilled = false; for (int p = 1; p <= np; p++) reallykilled |= killed[p];
  judge(np, reallykilled);
  judge_spurious(np);
  count("histories"); count("nudges", nudges);
  do_close(cw); do_close(cr);
  unlink(ring.c_str());
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  for (auto &x : profiles) if (A.prop == x.id) P = &x;
  if (!P) harness_error("no profile for %s", A.prop.c_str());
  if (!freopen("/dev/null", "w", stderr)) {}
  M = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (M == MAP_FAILED) harness_error("mmap");
  vi_seqctr = (unsigned long *)&M->lockseq;
  signal(SIGALRM, on_alarm);
  for (u64 k = A.from; k < A.to && ncut < 4; k++) { alarm(120 * A.slow); one(k); alarm(0); }
  write_out(NULL, "", 0);
  return 0;
}
