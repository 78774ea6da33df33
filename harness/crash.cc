/* What a process leaves behind when it is killed. A child makes one API call
 * under the processor's single-step trap; after every instruction its trap
 * handler compares the ring file with what it last saw. Every distinct image
 * of the file is what a SIGKILL at that instruction would leave: each is put
 * in a file and taken up again through the API, and judged against what the
 * call may have done. In mode "kill" the child does kill itself at a chosen
 * instruction, with other processes using or blocked on the ring. */
#include "common.h"
#include "shr.h"
#include "vi.h"
#include <sys/file.h>
#include <ucontext.h>

extern "C" { extern void *volatile vi_last_map; extern volatile size_t vi_last_len; }
enum { OP_WRITE, OP_FLUSH, OP_BUFWRITE, OP_READ, OP_STAT, OP_APPSET, OP_APPGET, OP_OPENR, OP_OPENW, OP_OPENWB, OP_CLOSER, OP_CLOSEW, OP_INIT, OP_N };
static const char *opname[] = {"write", "flush", "buffered write", "read", "stat", "appdata set", "appdata get", "open for reading", "open for writing", "open for blocking writing", "close of a reader", "close of a writer", "shr_init"};
struct M1 { u64 id; unsigned len; };
#define MAXIMG 4000
struct Img { size_t off, len; u64 step, sys; int payload; };
struct Shm {
  int stage; int nimg; u64 steps, sys; int truncated, opdone; long opres;
  int npre; M1 pre[4096]; int nadd; M1 add[64];
  int maxdrop, maxread; u64 nextid;
  volatile int cur, bad[MAXIMG]; char why[MAXIMG][160];
  Img img[MAXIMG];
  volatile int killed; u64 kstep, kchange;
  size_t used; char buf[64 << 20];
};
static Shm *M;
static u64 rn, rmm; static bool rdrop, rfarm, rapp, rsync_; static size_t applen;
static std::string ring, ring2;
static int op;
static u64 cseed;
static bool killmode, fillmode; static long kill_change, kill_step;

/* ---- the trap handler ---- */
static char *view; static size_t vlen; static size_t hdrlen; static char *last; static volatile int stepping;
static u64 nstep, nsys, nchange; static bool initop;
static void snap(int payload) {
  if (M->nimg >= MAXIMG || M->used + vlen > sizeof M->buf - (8 << 20)) { M->truncated = 1; return; }
  Img &i = M->img[M->nimg];
  i.off = M->used; i.len = vlen; i.step = nstep; i.sys = nsys; i.payload = payload;
  memcpy(M->buf + M->used, last, vlen);
  M->used += vlen; M->nimg++;
}
static void die() { M->kstep = nstep; M->kchange = nchange; M->killed = 1; kill(getpid(), SIGKILL); for (;;) pause(); }
static void on_trap(int, siginfo_t *, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_;
  if (!stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; return; }
  nstep++;
  unsigned char *ip = (unsigned char *)uc->uc_mcontext.gregs[REG_RIP];
  if (ip[0] == 0x0f && ip[1] == 0x05) nsys++;
  if (initop && !view && vi_last_map) { view = (char *)vi_last_map; vlen = vi_last_len; last = (char *)(M->buf + sizeof M->buf - (8 << 20)); memcpy(last, view, vlen); snap(0); }
  if (initop && view && !vi_last_map) { stepping = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; return; } /* unmapped */
  if (view && memcmp(view, last, vlen)) {
    static int skipped, kept; /* of a large ring, most images in the midst of a copy are left out */
    int payload = memcmp(view + hdrlen, last + hdrlen, vlen - hdrlen) != 0;
    bool copying = vlen > 16384 && hdrlen && memcmp(view, last, hdrlen) == 0 && (nchange % (1ul << std::min(40, kept / (int)(2000000 / vlen + 8))) || !++kept);
    memcpy(last, view, vlen);
    nchange++;
    if (copying && !killmode) skipped = 1;
    else if (!killmode) { snap(payload | skipped); skipped = 0; }
    else if ((long)nchange == kill_change) die();
  }
  if (killmode && (long)nstep == kill_step) die();
  if (nstep > 3000000) { M->truncated = 2; stepping = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; }
}
static void __attribute__((noinline)) tf_on() { stepping = 1; asm volatile("lea -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
static void __attribute__((noinline)) tf_off() { stepping = 0; asm volatile("lea -128(%%rsp),%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }

/* ---- models ---- */
struct Mod {
  std::deque<M1> q; u64 u = 0; u64 pos = 0, miss = 0; /* farm: the reader's place in q */
  void push(M1 m) { q.push_back(m); u += m.len; }
  void pop() { u -= q.front().len; q.pop_front(); if (pos) pos--; else miss++; }
  bool fits(u64 t, u64 k) const { return u + t <= rn && q.size() + k <= rmm; }
};
static unsigned rl(Rng &g, u64 mx) { if (mx <= 1) return 1; switch (g.below(4)) { case 0: return g.range(1, std::min<u64>(mx, 9)); case 1: return mx; case 2: return g.range(1, std::max<u64>(1, mx / 3)); default: return g.range(1, mx); } }
static u64 nid;
static int wr(shr *w, const std::vector<M1> &v, long *res) {
  std::vector<std::vector<char>> d; std::vector<struct iovec> io;
  for (auto &m : v) { d.emplace_back(m.len); gen(m.id, d.back().data(), m.len); }
  for (size_t k = 0; k < v.size(); k++) io.push_back({d[k].data(), v[k].len});
  *res = shr_writev(w, io.data(), io.size());
  return 0;
}

/* ---- the child that makes the call ---- */
static char appc[2][6000];
static void mkapp() { gen(771, appc[0], sizeof appc[0]); gen(772, appc[1], sizeof appc[1]); }
static void victim() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGALRM, SIG_DFL); alarm(60);
  Rng g(cseed);
  nid = 1;
  Mod m;
  shr *w = NULL, *r = NULL, *b = NULL;
  if (op == OP_INIT) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
    initop = true; vi_last_map = NULL; vi_inlib = 1; hdrlen = 0;
    unsigned fl = (rfarm ? SHR_FARM : 0) | (rdrop && !rfarm ? SHR_DROP : 0) | (rapp ? SHR_APPDATA_1 : 0) | SHR_MAXMSGS_2 | (rsync_ ? SHR_SYNC : 0);
    M->stage = 1;
    int rc;
    if (rapp) { tf_on(); rc = shr_init((char *)ring.c_str(), rn, fl, appc[0], applen, (size_t)rmm); tf_off(); }
    else { tf_on(); rc = shr_init((char *)ring.c_str(), rn, fl, (size_t)rmm); tf_off(); }
    M->opres = rc; M->opdone = 1; M->steps = nstep; M->sys = nsys;
    _exit(0);
  }
  w = shr_open(ring.c_str(), SHR_WRONLY | SHR_NONBLOCK);
  r = shr_open(ring.c_str(), SHR_RDONLY | SHR_NONBLOCK);
  if (op == OP_FLUSH || op == OP_BUFWRITE) b = shr_open(ring.c_str(), SHR_WRONLY | SHR_NONBLOCK | SHR_BUFFERED);
  if (!w || !r) _exit(3);
  /* a history that leaves a random state */
  int n = g.range(0, 40), bias = g.range(35, 80);
  std::vector<char> rb(rn + 1);
  for (int k = 0; k < n; k++) {
    if (g.p(bias)) {
      int c = g.p(70) ? 1 : (int)g.range(1, std::min<u64>(5, rmm)); u64 left = rn, t = 0; std::vector<M1> v;
      for (int j = 0; j < c && left; j++) { M1 x = {nid++, rl(g, g.p(70) ? std::max<u64>(1, left / 3) : left)}; v.push_back(x); left -= x.len; t += x.len; }
      bool fit = m.fits(t, v.size()); long res;
      if (rdrop) while (!m.fits(t, v.size())) m.pop();
      wr(w, v, &res);
      if (res != (fit || rdrop ? (long)t : 0)) _exit(4);
      if (res > 0) for (auto &x : v) m.push(x);
    } else {
      long res = shr_read(r, rb.data(), rn);
      if (rfarm) { if (m.pos >= m.q.size() ? res != 0 : res != (long)m.q[m.pos].len) _exit(4); if (res > 0) m.pos++; }
      else { if (m.q.empty() ? res != 0 : res != (long)m.q.front().len) _exit(4); if (res > 0) { m.u -= m.q.front().len; m.q.pop_front(); } }
    }
  }
  if (fillmode && g.p(40)) { /* leave it empty, or full */
    if (g.p(50)) { while (shr_read(r, rb.data(), rn) > 0) {} if (rfarm) m.pos = m.q.size(); else { m.q.clear(); m.u = 0; } }
    else if (!rdrop) while (m.u < rn && m.q.size() < rmm) { std::vector<M1> v = {{nid++, (unsigned)std::min<u64>(rn - m.u, rl(g, rn))}}; long res; wr(w, v, &res); if (res <= 0) _exit(4); m.push(v[0]); }
  }
  M->npre = 0;
  for (auto &x : m.q) M->pre[M->npre++] = x;
  M->nadd = 0; M->maxdrop = 0; M->maxread = 0;
  /* the call */
  std::vector<M1> v; u64 t = 0;
  std::vector<std::vector<char>> d; std::vector<struct iovec> io; struct iovec rio[16]; size_t rk = 1, rcap = rn;
  if (op == OP_WRITE || op == OP_FLUSH || op == OP_BUFWRITE) {
    int c = g.p(40) ? 1 : (int)g.range(1, std::min<u64>(6, rmm)); u64 left = rn;
    u64 room = rn - m.u;
    if (!rdrop && room && g.p(75)) left = room;
    for (int j = 0; j < c && left; j++) { M1 x = {nid++, rl(g, g.p(60) ? std::max<u64>(1, left / 2) : left)}; v.push_back(x); left -= x.len; t += x.len; }
    for (auto &x : v) { d.emplace_back(x.len); gen(x.id, d.back().data(), x.len); }
    for (size_t k = 0; k < v.size(); k++) io.push_back({d[k].data(), v[k].len});
    if (rdrop) { Mod q = m; while (!q.fits(t, v.size())) { q.pop(); M->maxdrop++; } }
    if (rdrop || m.fits(t, v.size())) for (auto &x : v) M->add[M->nadd++] = x;
    if (op != OP_WRITE) { /* fill the buffer */
      if (!b) _exit(3);
      struct shr_stat st; shr_stat(b, &st, NULL);
      if (st.cn < t) op = OP_WRITE;
      else if (shr_writev(b, io.data(), io.size()) != (long)t) _exit(4);
      if (op == OP_BUFWRITE) { /* one more that makes it flush, and stays in the buffer, or is refused */
        shr_stat(b, &st, NULL);
        size_t x = st.cn - st.cb + 1; if (x > st.cn) op = OP_FLUSH;
        else { d.emplace_back(x); memset(d.back().data(), 'z', x); }
      }
    }
  }
  if (op == OP_READ) {
    rk = g.p(40) ? 1 : g.range(1, 12); rcap = g.p(60) ? rn : g.range(1, rn);
    size_t at = rfarm ? m.pos : 0, k = 0; u64 by = 0;
    while (at + k < m.q.size() && k < rk && by + m.q[at + k].len <= rcap) { by += m.q[at + k].len; k++; }
    M->maxread = rfarm ? 0 : k;
  }
  M->nextid = nid;
  int fd = open(ring.c_str(), O_RDONLY); struct stat sb; fstat(fd, &sb);
  vlen = sb.st_size; view = (char *)mmap(0, vlen, PROT_READ, MAP_SHARED, fd, 0); close(fd);
  hdrlen = vlen - applen * rapp - rmm * 16 - (rn + 7) / 8 * 8; /* what comes before the data: only tells headers from payload */
  last = M->buf + sizeof M->buf - (8 << 20);
  memcpy(last, view, vlen);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
  M->stage = 1;
  snap(0);
  long res = 0; struct shr_stat st; struct timeval tv = {77, 88}; size_t sz = applen; void *gp = malloc(applen + 1); shr *x = NULL;
  switch (op) {
    case OP_WRITE: tf_on(); res = shr_writev(w, io.data(), io.size()); tf_off(); break;
    case OP_FLUSH: tf_on(); res = shr_flush(b, 0); tf_off(); break;
    case OP_BUFWRITE: tf_on(); res = shr_write(b, d.back().data(), d.back().size()); tf_off(); break;
    case OP_READ: tf_on(); res = shr_readv(r, rb.data(), rcap, rio, &rk); tf_off(); break;
    case OP_STAT: tf_on(); res = shr_stat(w, &st, &tv); tf_off(); break;
    case OP_APPSET: tf_on(); res = shr_appdata(w, NULL, appc[1], &sz); tf_off(); break;
    case OP_APPGET: tf_on(); res = shr_appdata(r, &gp, NULL, &sz); tf_off(); break;
    case OP_OPENR: tf_on(); x = shr_open(ring.c_str(), SHR_RDONLY); tf_off(); break;
    case OP_OPENW: tf_on(); x = shr_open(ring.c_str(), SHR_WRONLY | SHR_NONBLOCK); tf_off(); break;
    case OP_OPENWB: tf_on(); x = shr_open(ring.c_str(), SHR_WRONLY); tf_off(); break;
    case OP_CLOSER: tf_on(); shr_close(r); tf_off(); break;
    case OP_CLOSEW: tf_on(); shr_close(w); tf_off(); break;
  }
  M->opres = res; M->opdone = 1; M->steps = nstep; M->sys = nsys;
  if (killmode) kill(getpid(), SIGKILL);
  _exit(0);
}

/* ---- taking up what is left ---- */
static std::string why(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::vector<Mod> cands() {
  std::vector<Mod> c;
  int lim = op == OP_READ ? M->maxread : M->maxdrop;
  for (int j = 0; j <= lim && j <= M->npre; j++) {
    Mod m; for (int k = j; k < M->npre; k++) m.push(M->pre[k]);
    c.push_back(m);
    if (M->nadd && j == M->maxdrop) { for (int k = 0; k < M->nadd; k++) m.push(M->add[k]); c.push_back(m); }
  }
  return c;
}
/* use the ring through the handles; whatever it answers must agree with one of the models */
static std::string use(shr *w, shr *r, std::vector<Mod> c, Rng g, int rounds, bool fresh = false) {
  struct pollfd pf = {shr_get_selectable_fd(r), POLLIN, 0};
  bool asked = fresh, ready = fresh && poll(&pf, 1, 0) == 1; /* a handle just opened: is its descriptor ready if there is something to read */
  std::vector<char> rb(rn + 1); std::vector<std::pair<size_t, int>> got;
  nid = M->nextid + 1000;
  int strat = g.below(3); bool sized = false;
  for (int k = 0; k < rounds; k++) {
    bool doread = strat == 0 ? k < rounds / 3 || g.p(50) : strat == 1 ? k > rounds / 3 && g.p(60) : g.p(50);
    std::string e; std::vector<Mod> keep;
    if (!sized && !rfarm && g.p(30)) {
      struct shr_stat st;
      if (shr_stat(w, &st, NULL)) return "stat failed";
      for (auto &m : c) if (st.bu == m.u && st.mu == m.q.size()) keep.push_back(m);
      if (keep.empty()) return why("%zu messages, %zu bytes said to be unread; %zu, %llu expected (or so)", st.mu, st.bu, c[0].q.size(), (unsigned long long)c[0].u);
      c = keep; sized = true; continue;
    }
    if (doread) {
      long res = shr_read(r, rb.data(), rn);
      if (asked && res > 0 && !ready) return "a reader opened then has something to read, but its descriptor is not readable";
      if (asked) count("fresh_descriptors");
      asked = false;
      for (auto &m : c) {
        size_t at = rfarm ? m.pos : 0;
        if (at >= m.q.size()) { if (res == 0) keep.push_back(m); else e = why("a read returned %ld, none expected", res); continue; }
        if (res != (long)m.q[at].len) { e = why("a read returned %ld, %u expected", res, m.q[at].len); continue; }
        if (!gen_is(m.q[at].id, rb.data(), res)) { e = why("message %llu (%ld bytes) altered, lost or out of order", (unsigned long long)m.q[at].id, res); continue; }
        Mod x = m; if (rfarm) x.pos++; else { x.u -= x.q.front().len; x.q.pop_front(); }
        keep.push_back(x);
      }
    } else {
      int n = g.p(60) ? 1 : (int)g.range(1, std::min<u64>(4, rmm)); u64 left = rn, t = 0; std::vector<M1> v;
      for (int j = 0; j < n && left; j++) { M1 x = {nid++, rl(g, g.p(60) ? std::max<u64>(1, left / 3) : left)}; v.push_back(x); left -= x.len; t += x.len; }
      long res; wr(w, v, &res); asked = false;
      for (auto &m : c) {
        bool fit = m.fits(t, v.size());
        if (res != (fit || rdrop ? (long)t : 0)) { e = why("a write of %llu bytes, %zu messages returned %ld with %llu of %llu bytes, %zu of %llu messages used", (unsigned long long)t, v.size(), res, (unsigned long long)m.u, (unsigned long long)rn, m.q.size(), (unsigned long long)rmm); continue; }
        Mod x = m; if (rdrop) while (!x.fits(t, v.size())) x.pop();
        if (res > 0) for (auto &y : v) x.push(y);
        keep.push_back(x);
      }
    }
    if (keep.empty()) return e;
    c = keep;
  }
  return "";
}
static std::string take_up(const char *d, size_t len, u64 seed) {
  unlink(ring2.c_str());
  int fd = open(ring2.c_str(), O_RDWR | O_CREAT, 0600);
  if (fd < 0 || pwrite(fd, d, len, 0) != (ssize_t)len) return "HARNESS";
  close(fd);
  Rng g(seed);
  shr *w, *r;
  if (op == OP_INIT) {
    std::vector<char> before(d, d + len);
    r = shr_open(ring2.c_str(), SHR_RDONLY | SHR_NONBLOCK);
    w = shr_open(ring2.c_str(), SHR_WRONLY | SHR_NONBLOCK);
    if (!r && !w) return "";
    if (!r || !w) return "opened in one mode, not in the other";
    struct shr_stat st; if (shr_stat(w, &st, NULL)) return "stat failed";
    unsigned want = (rfarm ? SHR_FARM | SHR_DROP : 0) | (rdrop ? SHR_DROP : 0) | (rsync_ ? SHR_SYNC : 0);
    if (st.bn != rn || st.mm != rmm || st.bu || st.mu || st.flags != want) return why("a half-made ring was opened: %zu bytes, %zu messages, flags %x; asked for %llu, %llu, %x", st.bn, st.mm, st.flags, (unsigned long long)rn, (unsigned long long)rmm, want);
    void *p = NULL; size_t sz = 0;
    int sc = shr_appdata(r, &p, NULL, &sz);
    if (rapp ? sc || sz != applen || memcmp(p, appc[0], sz) : sc == 0) return "a half-made ring was opened: its app-data is not there";
    std::vector<Mod> c(1);
    std::string s = use(w, r, c, g, 25, true);
    shr_close(w); shr_close(r);
    return s;
  }
  r = shr_open(ring2.c_str(), SHR_RDONLY | SHR_NONBLOCK);
  if (!r) return "it cannot be opened for reading";
  w = shr_open(ring2.c_str(), SHR_WRONLY | (rdrop || g.p(70) ? SHR_NONBLOCK : 0));
  if (!w) return "it cannot be opened for writing";
  shr_close(w);
  w = shr_open(ring2.c_str(), SHR_WRONLY | SHR_NONBLOCK);
  if (!w) return "it cannot be opened again";
  std::string s = use(w, r, cands(), g, 45, true);
  shr_close(w); shr_close(r);
  return s;
}
static void worker(int from) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGALRM, SIG_DFL);
  if (M->stage == 2) _exit(0);
  for (int k = from; k < M->nimg; k++) {
    M->cur = k;
    alarm(20);
    std::string s = take_up(M->buf + M->img[k].off, M->img[k].len, mix(cseed, k / 3));
    if (s == "HARNESS") _exit(2);
    if (s.empty()) s = take_up(M->buf + M->img[k].off, M->img[k].len, mix(cseed, k + 99));
    if (s.size()) { M->bad[k] = 1; strncpy(M->why[k], s.c_str(), 159); }
  }
  M->cur = M->nimg;
  _exit(0);
}

/* ---- cases ---- */
static void geometry(Rng &G) {
  rfarm = G.p(18); rdrop = rfarm || G.p(25); rapp = G.p(30); rsync_ = G.p(10); applen = G.pick({1, 8, 33, 200});
  switch (G.below(3)) { case 0: rn = G.range(1, 24); break; case 1: rn = G.range(20, 200); break; default: rn = G.range(100, 900); }
  if (A.mode == "large") rn = G.p(40) ? G.range(4096, 40000) : G.range(40000, 400000);
  rmm = G.p(60) ? G.range(1, 8) : G.p(50) ? G.range(1, 40) : 100 + std::min<u64>(rn, 40000) / 100;
}
static void make() {
  unsigned fl = (rfarm ? SHR_FARM : rdrop ? SHR_DROP : 0) | (rapp ? SHR_APPDATA_1 : 0) | SHR_MAXMSGS_2 | (rsync_ ? SHR_SYNC : 0);
  unlink(ring.c_str());
  int rc = rapp ? shr_init((char *)ring.c_str(), rn, fl, appc[0], applen, (size_t)rmm) : shr_init((char *)ring.c_str(), rn, fl, (size_t)rmm);
  if (rc) harness_error("shr_init");
}
static void reset() { M->nimg = 0; M->stage = 0; M->used = 0; M->truncated = M->opdone = 0; M->npre = M->nadd = M->maxdrop = M->maxread = 0; M->cur = 0; M->killed = 0; M->nextid = 1; memset((void *)M->bad, 0, sizeof M->bad); }
static void images(u64 k) {
  Rng G(mix(A.seed * 104729 + 5, k));
  begin_case(k);
  geometry(G);
  cseed = G.next();
  int x = G.below(100);
  op = x < 34 ? OP_WRITE : x < 42 ? OP_FLUSH : x < 47 ? OP_BUFWRITE : x < 75 ? OP_READ : x < 78 ? OP_STAT : x < 81 ? OP_APPSET : x < 82 ? OP_APPGET : x < 85 ? OP_OPENR : x < 88 ? OP_OPENW : x < 91 ? OP_OPENWB : x < 93 ? OP_CLOSER : x < 95 ? OP_CLOSEW : OP_INIT;
  if (A.prop == "C29" || A.mode == "init") op = OP_INIT;
  if ((op == OP_APPSET || op == OP_APPGET) && !rapp) op = OP_STAT;
  killmode = false; fillmode = G.p(20);
  reset();
  casehdr = fmt("%s; ring %llu bytes, %llu messages%s%s", opname[op], (unsigned long long)rn, (unsigned long long)rmm, rfarm ? " farm" : rdrop ? " drop" : "", rapp ? " appdata" : "");
  logop("%s", casehdr.c_str());
  if (op != OP_INIT) make(); else unlink(ring.c_str());
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) harness_error("fork");
  if (p == 0) victim();
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { count("foreign"); return; }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    if (M->stage == 0 && WIFSIGNALED(st)) violation("crash", fmt("the history before the call ended with status %x", st));
    violation("crash", fmt("the call ended with status %x", st));
  }
  if (M->truncated) count("truncated");
  /* an empty file, and one without content, are what an early kill of shr_init leaves */
  if (op == OP_INIT) {
    if (M->opres) harness_error("shr_init under the trap");
    size_t len = M->nimg ? M->img[0].len : 8;
    Img &i = M->img[M->nimg++]; i.off = M->used; i.len = 0; i.step = 0; i.sys = 0; i.payload = 1;
    Img &j = M->img[M->nimg++]; j.off = M->used; j.len = len; j.step = 0; j.sys = 0; j.payload = 1; memset(M->buf + M->used, 0, len);
  }
  /* drop what is seen twice */
  while (M->cur < M->nimg) {
    int from = M->cur;
    pid_t q = fork();
    if (q < 0) harness_error("fork");
    if (q == 0) worker(from);
    waitpid(q, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) harness_error("image file");
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      int c = M->cur; if (c >= M->nimg) break;
      M->bad[c] = 1; snprintf(M->why[c], 159, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "using it never ends" : "using it crashes (status %x)", st);
      M->cur = c + 1;
    }
    if (SP) SP->op++;
  }
  count("images", M->nimg); count("steps", M->steps); count(fmt("calls_%s", opname[op]).c_str()); count("calls_stepped");
  for (int j = 0; j < M->nimg; j++) distinct("images", mix(k * 5000 + j, op));
  distinct("geometries", mix(rn * 1000 + rmm, rfarm * 4 + rdrop * 2 + rapp));
  /* runs of bad images: the index words are stored one after the other, which
   * is a known finding; anything longer than such a run of stores is not */
  for (int j = 0; j < M->nimg; j++) if (M->bad[j]) {
    int e = j; bool payload = false;
    while (e < M->nimg && M->bad[e]) { if (e > j && M->img[e].payload) payload = true; e++; }
    u64 steps = (e < M->nimg ? M->img[e].step : ~0ULL) - M->img[j].step, sys = (e < M->nimg ? M->img[e].sys : ~0ULL) - M->img[j].sys;
    if (e < M->nimg && M->img[e].payload) payload = true;
    if (op != OP_INIT && j > 0 && e < M->nimg && steps <= 200 && sys == 0 && !payload && M->opdone) {
      count("torn_commit_states", e - j); count("torn_commit_runs"); S.c["torn_commit_longest_steps"] = std::max(S.c["torn_commit_longest_steps"], steps);
      j = e - 1; continue;
    }
    for (int z = std::max(0, j - 3); z < std::min(M->nimg, e + 3); z++) logop("image %d at instruction %llu, %llu system calls: %s", z, (unsigned long long)M->img[z].step, (unsigned long long)M->img[z].sys, M->bad[z] ? M->why[z] : "good");
    violation("killed-damage", fmt("%s killed at instruction %llu of %llu, %llu system calls (%d. of %d images; the ring stays so for %llu instructions): %s", opname[op], (unsigned long long)M->img[j].step,
              (unsigned long long)M->steps, (unsigned long long)M->img[j].sys, j, M->nimg, (unsigned long long)steps, M->why[j]));
  }
  if (S.samples.size() < 3 && M->nimg > 5) S.samples.push_back(casehdr + fmt("; %d images over %llu instructions", M->nimg, (unsigned long long)M->steps));
}
static char pst(pid_t pid) { char b[600]; int fd = open(fmt("/proc/%d/stat", pid).c_str(), O_RDONLY); if (fd < 0) return 'X'; int n = read(fd, b, 599); close(fd); if (n <= 0) return 'X'; b[n] = 0; char *c = strrchr(b, ')'); return c ? c[2] : '?'; }
static void kills(u64 k) {
  Rng G(mix(A.seed * 15485863 + 9, k));
  begin_case(k);
  geometry(G);
  cseed = G.next();
  int x = G.below(100);
  op = x < 40 ? OP_WRITE : x < 48 ? OP_FLUSH : x < 80 ? OP_READ : x < 84 ? OP_STAT : x < 90 ? OP_OPENR : x < 96 ? OP_OPENWB : OP_CLOSER;
  killmode = fillmode = true; kill_change = kill_step = -1;
  if (op == OP_OPENR || op == OP_OPENWB || op == OP_CLOSER) { if (G.p(70)) kill_change = G.range(1, 4); else kill_step = G.range(1, 60000); }
  else if (G.p(75)) kill_change = G.range(1, 14); else kill_step = G.range(1, 9000);
  reset();
  casehdr = fmt("%s killed at change %ld, instruction %ld; ring %llu bytes, %llu messages%s%s", opname[op], kill_change, kill_step, (unsigned long long)rn, (unsigned long long)rmm, rfarm ? " farm" : rdrop ? " drop" : "", rapp ? " appdata" : "");
  logop("%s", casehdr.c_str());
  make();
  /* survivors: handles held open here, and a process blocked on the ring */
  int st;
  pid_t sv = fork();
  if (sv == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(60);
    shr *w = shr_open(ring.c_str(), SHR_WRONLY | SHR_NONBLOCK), *r = shr_open(ring.c_str(), SHR_RDONLY | SHR_NONBLOCK);
    if (!w || !r) _exit(3);
    pid_t v = fork();
    if (v == 0) victim();
    /* a waiter for what the victim may provide: started once its history is done */
    pid_t wt = 0; int wkind = 0; int pp[2]; if (pipe(pp)) _exit(2);
    (void)pp;
    int vs; if (G.p(60)) waitpid(v, &vs, 0); else { siginfo_t si; waitid(P_PID, v, &si, WEXITED | WNOWAIT); }
    if (!M->stage) _exit(5);
    /* the lock must be free */
    int fd = open(ring.c_str(), O_RDWR); struct flock f; memset(&f, 0, sizeof f); f.l_type = F_WRLCK;
    if (fcntl(fd, F_GETLK, &f) || f.l_type != F_UNLCK) { strcpy(M->why[0], "the lock is held"); M->bad[0] = 1; _exit(0); }
    close(fd);
    std::string s;
    shr *r2 = shr_open(ring.c_str(), SHR_RDONLY | SHR_NONBLOCK), *w2 = shr_open(ring.c_str(), SHR_WRONLY);
    shr_close(w2); w2 = shr_open(ring.c_str(), SHR_WRONLY | SHR_NONBLOCK);
    if (!r2 || !w2) s = "it cannot be opened";
    else {
      bool old = G.p(50);
      std::vector<Mod> c = cands();
      if (rfarm && old) { /* the old reader has seen nothing since it opened: what it missed */
        s = use(w, r2, c, Rng(cseed + 5), 45, true);
      } else s = use(old ? w : w2, rfarm ? r2 : old ? r : r2, c, Rng(cseed + 5), 45, rfarm || !old);
      (void)wt; (void)wkind;
    }
    if (s.size()) { M->bad[0] = 1; strncpy(M->why[0], s.c_str(), 159); }
    _exit(0);
  }
  waitpid(sv, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 5) { count("foreign"); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st)) harness_error("survivor %d", WEXITSTATUS(st));
  if (!WIFEXITED(st)) { M->bad[0] = 1; snprintf(M->why[0], 159, WTERMSIG(st) == SIGALRM ? "using it never ends" : "using it crashes (status %x)", st); }
  count(M->killed ? "kills" : "kills_after");
  distinct("kills", mix(op * 100003 + M->kstep, k));
  if (M->bad[0]) {
    if (M->killed) { /* in a run of index stores? the images tell */
      count("kill_in_torn_commit");
      std::string w0 = M->why[0]; u64 kc = M->kchange;
      killmode = false; reset(); make(); fflush(stdout);
      pid_t p = fork(); if (p == 0) victim(); waitpid(p, &st, 0);
      if (!M->opdone) violation("killed-damage", casehdr + ": " + w0 + " (and the call does not complete)");
      /* the same call, all images: is this one of a run of index stores? */
      int at = (int)kc; /* the number of changes tells: without the others' handles it may take fewer instructions */
      if (at >= M->nimg) violation("killed-damage", casehdr + ": " + w0);
      int lo = std::max(0, at - 12), hi = std::min(M->nimg, at + 13);
      for (int j = lo; j < hi; j++) {
        pid_t q = fork();
        if (q == 0) { alarm(30); std::string s; for (int t = 0; t < 12 && s.empty(); t++) s = take_up(M->buf + M->img[j].off, M->img[j].len, mix(cseed, j * 50 + t)); _exit(s.empty() ? 0 : 1); }
        waitpid(q, &st, 0); M->bad[j] = st != 0;
      }
      int b = at, e = at; bool payload = false;
      while (b > lo && M->bad[b]) b--;
      while (e < hi && M->bad[e]) e++;
      for (int j = b + 2; j <= e && j < M->nimg; j++) payload |= M->img[j].payload;
      if (M->bad[at] && b >= lo && !M->bad[b] && e < hi && !payload && M->img[e].step - M->img[b + 1].step <= 200 && M->img[e].sys == M->img[b + 1].sys) { count("torn_commit_states"); return; }
      violation("killed-damage", casehdr + ": " + w0);
    }
    violation("killed-damage", casehdr + ": " + M->why[0]);
  }
}
/* a process blocked on the ring while another is killed in the call that would let it go on */
static void blocked(u64 k) {
  Rng G(mix(A.seed * 32452843 + 9, k));
  begin_case(k);
  geometry(G); rfarm = false; if (G.p(70)) rdrop = false;
  bool rdwait = G.p(50); if (rdrop) rdwait = true;
  cseed = G.next();
  reset();
  casehdr = fmt("a %s blocked while a %s is killed; ring %llu bytes, %llu messages%s", rdwait ? "reader" : "writer", rdwait ? "writer" : "reader", (unsigned long long)rn, (unsigned long long)rmm, rdrop ? " drop" : "");
  logop("%s", casehdr.c_str());
  make();
  int st; unsigned full = rn;
  shr *w = shr_open(ring.c_str(), SHR_WRONLY | SHR_NONBLOCK);
  if (!w) harness_error("open");
  std::vector<char> b(rn + 1, 'x');
  unsigned m1 = 0;
  if (!rdwait) { /* fill it */
    u64 left = rn, c = 0; while (left && c < rmm) { unsigned l = c + 1 == rmm ? left : G.range(1, left); if (shr_write(w, b.data(), l) != (long)l) harness_error("fill"); if (!m1) m1 = l; left -= l; c++; }
  }
  pid_t bl = fork();
  if (bl == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(60);
    shr *x = shr_open(ring.c_str(), rdwait ? SHR_RDONLY : SHR_WRONLY);
    if (!x) _exit(3);
    M->stage = 7;
    long r = rdwait ? shr_read(x, b.data(), rn) : shr_write(x, b.data(), 1);
    _exit(r > 0 ? 0 : 4);
  }
  double t0 = now();
  while ((M->stage != 7 || pst(bl) != 'S') && now() - t0 < 10) usleep(200);
  usleep(500); while (pst(bl) != 'S' && now() - t0 < 10) usleep(200);
  kill_change = kill_step = -1; killmode = true;
  if (G.p(70)) kill_change = G.range(1, 14); else kill_step = G.range(1, 6000);
  M->killed = 0;
  pid_t v = fork();
  if (v == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(60);
    shr *x = shr_open(ring.c_str(), (rdwait ? SHR_WRONLY : SHR_RDONLY) | SHR_NONBLOCK);
    if (!x) _exit(3);
    int fd = open(ring.c_str(), O_RDONLY); struct stat sb; fstat(fd, &sb);
    vlen = sb.st_size; view = (char *)mmap(0, vlen, PROT_READ, MAP_SHARED, fd, 0); close(fd); hdrlen = 0;
    last = M->buf; memcpy(last, view, vlen);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
    tf_on();
    if (rdwait) shr_write(x, b.data(), full); else shr_read(x, b.data(), rn);
    tf_off();
    kill(getpid(), SIGKILL);
  }
  waitpid(v, &st, 0);
  if (WIFEXITED(st)) harness_error("victim %d", WEXITSTATUS(st));
  count(M->killed ? "blocked_kills" : "blocked_kills_after");
  distinct("kills", mix(rdwait * 100003 + M->kstep, k));
  /* does the ring have what it waits for? then it must go on */
  t0 = now(); bool done = false;
  for (;;) {
    if (waitpid(bl, &st, WNOHANG) == bl) { done = true; break; }
    struct shr_stat ss; if (shr_stat(w, &ss, NULL)) harness_error("stat");
    bool avail = rdwait ? ss.mu > 0 : ss.bu < rn && ss.mu < rmm;
    bool torn = rdwait ? (ss.mu > 0) != (ss.bu > 0) : false;
    if (!avail && pst(bl) == 'S') { if (now() - t0 > 0.003) break; }
    else if (torn) { count("blocked_torn"); break; }
    if (now() - t0 > 3.0 * A.slow) { kill(bl, SIGKILL); violation("not-woken", casehdr + fmt(": it sleeps on though %s (killed at change %ld, instruction %llu)", rdwait ? "a message is there" : "there is room", kill_change, (unsigned long long)M->kstep)); }
    usleep(300);
  }
  if (done && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { count("blocked_odd"); } else count(done ? "blocked_woken" : "blocked_rightly");
  if (!done) { kill(bl, SIGKILL); waitpid(bl, &st, 0); }
  shr_close(w);
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  if (!getenv("DBG") && !freopen("/dev/null", "w", stderr)) {}
  M = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (M == MAP_FAILED) harness_error("mmap");
  mkapp();
  ring = A.dir + "/ring"; ring2 = A.dir + "/image";
  signal(SIGALRM, on_alarm);
  for (u64 k = A.from; k < A.to; k++) {
    alarm(100 * A.slow);
    if (A.mode == "kill") kills(k); else if (A.mode == "blocked") blocked(k); else images(k);
    alarm(0);
  }
  unlink(ring.c_str()); unlink(ring2.c_str());
  write_out(NULL, "", 0);
  return 0;
}
