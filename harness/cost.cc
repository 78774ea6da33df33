/* What calls cost. Two rings of the same kind get the same calls; one is small,
 * the other large, full of messages, or far along in its life. Each call on
 * each is run one instruction at a time; the instructions and system calls it
 * takes on the large ring may not exceed those on the small one by much,
 * since the call moves the same messages. In other cases one ring gets the
 * same call with some messages and with 16 times as many, which may take 16
 * times as much and not many times that. NO_VI: the library runs without the
 * interposed calls of vi.c, whose instructions are not the library's. */
#include "common.h"
#include "shr.h"
#include <ucontext.h>

static volatile int stepping;
static volatile u64 nstep, nsys;
static const u64 LIMIT = 400000;
static void on_trap(int, siginfo_t *, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_;
  if (!stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; return; }
  if (++nstep > LIMIT) { stepping = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; return; }
  unsigned char *ip = (unsigned char *)uc->uc_mcontext.gregs[REG_RIP];
  if (ip[0] == 0x0f && ip[1] == 0x05) nsys++;
}
static void __attribute__((noinline)) tf_on() { nstep = nsys = 0; stepping = 1; asm volatile("lea -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
static void __attribute__((noinline)) tf_off() { stepping = 0; asm volatile("lea -128(%%rsp),%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; lea 128(%%rsp),%%rsp" ::: "memory", "cc"); }
#define STEP(x) do { tf_on(); x; tf_off(); } while (0)

enum { EMPTY = 0, SOME, FULL };
enum { O_WRITE = 0, O_READ, O_READ1, O_SHORT, O_STAT, O_RESET, O_FSTAT, O_APPGET, O_APPSET, O_BUFW, O_FLUSH, O_FD, O_POLLFD, O_BIG, NOPS };
static const char *oname[] = {"write", "readv", "read", "read into too small a buffer", "stat", "stat with reset", "farm_stat", "appdata get", "appdata set", "buffered write", "flush",
                              "get_selectable_fd", "ctl", "write of a larger message"};
struct Side { std::string path; size_t cap; shr *w, *b; shr *r[6]; int nr; size_t held; };
static Side D[2]; /* small, large */
static bool farm, drop, app, sync_;
static size_t L, alen;
static std::vector<char> buf, rb;
static std::vector<struct iovec> iov;

static void mk(Side &s) {
  unsigned fl = (farm ? SHR_FARM : 0) | (drop && !farm ? SHR_DROP : 0) | SHR_MAXMSGS_2 | (app ? SHR_APPDATA_1 : 0) | (sync_ ? SHR_SYNC : 0);
  int rc;
  if (app) rc = shr_init((char *)s.path.c_str(), s.cap * L, fl, buf.data(), alen, s.cap);
  else rc = shr_init((char *)s.path.c_str(), s.cap * L, fl, s.cap);
  if (rc) harness_error("init");
}
static void put(Side &s, shr *w, size_t k) { /* k messages in one call */
  (void)s;
  if (k > iov.size()) iov.resize(k);
  for (size_t j = 0; j < k; j++) iov[j] = {buf.data(), L};
  ssize_t r = shr_writev(w, iov.data(), k);
  if (r != (ssize_t)(k * L)) harness_error("fill %zd of %zu x %zu", r, k, L);
}
static void take(Side &s, shr *r, size_t k) {
  if (rb.size() < k * L) rb.resize(k * L);
  if (k > iov.size()) iov.resize(k);
  size_t n = k;
  ssize_t x = shr_readv(r, rb.data(), k * L, iov.data(), &n);
  if (x < 0 || (!farm && n != k)) harness_error("pass");
  (void)s;
}
/* the same number of calls whatever the size */
static void rotate(Side &s, int laps, u64 at) {
  shr *w = shr_open(s.path.c_str(), SHR_WRONLY | SHR_NONBLOCK), *r = shr_open(s.path.c_str(), SHR_RDONLY | SHR_NONBLOCK);
  if (!w || !r) harness_error("open");
  for (int k = 0; k < laps; k++) { put(s, w, s.cap); take(s, r, s.cap); }
  size_t k = at == 0 ? 0 : at == 1 ? s.cap - 3 : s.cap * (at - 2) / 10;
  if (k) { put(s, w, k); take(s, r, k); }
  shr_close(w); shr_close(r);
}
struct Meas { u64 ins, sys; long res, res2; };
static Meas call(Side &s, int op, int rd, size_t k, size_t len) {
  Meas m = {0, 0, 0, 0};
  shr *r = s.r[rd % s.nr]; struct shr_stat st; struct timeval tv = {5, 6}; size_t n = k, sz = alen; int fd[2];
  void *gp = rb.data(); long &res = m.res;
  for (size_t j = 0; j < k; j++) iov[j] = {buf.data(), L};
  switch (op) {
    case O_WRITE: STEP(res = shr_writev(s.w, iov.data(), k)); break;
    case O_BIG: STEP(res = shr_write(s.w, buf.data(), len)); break;
    case O_READ: STEP(res = shr_readv(r, rb.data(), rb.size(), iov.data(), &n)); m.res2 = n; break;
    case O_READ1: STEP(res = shr_read(r, rb.data(), rb.size())); break;
    case O_SHORT: STEP(res = shr_read(r, rb.data(), L > 1 ? L - 1 : 1)); break;
    case O_STAT: STEP(res = shr_stat(s.w, &st, NULL)); break;
    case O_RESET: STEP(res = shr_stat(s.w, &st, &tv)); break;
    case O_FSTAT: STEP(res = shr_farm_stat(r, rd & 1)); res = 0; break;
    case O_APPGET: STEP(res = shr_appdata(s.w, &gp, NULL, &sz)); break;
    case O_APPSET: STEP(res = shr_appdata(s.w, NULL, buf.data(), &sz)); break;
    case O_BUFW: STEP(res = shr_writev(s.b, iov.data(), k)); break;
    case O_FLUSH: STEP(res = shr_flush(s.b, 0)); break;
    case O_FD: STEP(res = shr_get_selectable_fd(r)); res = res >= 0; break;
    case O_POLLFD: if (pipe(fd)) harness_error("pipe"); STEP(res = shr_ctl(r, SHR_POLLFD, fd[0])); close(fd[0]); close(fd[1]); break;
  }
  m.ins = nstep; m.sys = nsys;
  return m;
}

static void one(u64 id) {
  begin_case(id);
  Rng g(mix(A.seed * 0x51ed270b + 0xc057, id));
  farm = g.p(35); drop = !farm && g.p(40); app = g.p(40); sync_ = g.p(15);
  L = g.p(60) ? g.range(1, 16) : g.range(17, 100); alen = g.range(1, 600);
  size_t grow = A.mode == "far" ? g.pick<u64>({300, 1000, 3000}) : g.range(40, 100);
  D[0].cap = 200; D[1].cap = std::min<size_t>(200 * grow, (24u << 20) / L);
  int fill = g.pick<int>({EMPTY, SOME, SOME, FULL, FULL}), nr = g.range(1, 5); bool lagging = farm && g.p(70);
  int laps[2] = {0, 0}; laps[1] = g.p(40) ? g.range(1, 4) : 0;
  u64 at[2] = {(u64)g.range(0, 9), (u64)(g.p(40) ? 1 : g.range(0, 9))};
  int calls = g.range(1, 4), mul = g.range(1, 4); /* the fill: so many calls; a lagging reader misses so many times the ring */
  casehdr = fmt("%s of 200 and of %zu messages of %zu bytes; %s; %d readers%s%s%s", farm ? "farm" : drop ? "drop ring" : "ring", D[1].cap, L,
                fill == EMPTY ? "empty" : fill == SOME ? "half full" : "full", nr, lagging ? ", lagging" : "", laps[1] ? ", the large one passed through before" : "", sync_ ? ", sync" : "");
  if (A.trace) fprintf(stdout, "case %llu: %s\n", (unsigned long long)id, casehdr.c_str());
  if (buf.size() < 4096) buf.assign(4096, 'x');
  buf.resize(std::max<size_t>(buf.size(), 1000));
  if (rb.size() < 65536) rb.resize(65536);
  if (iov.size() < 1024) iov.resize(1024);
  for (int d = 0; d < 2; d++) {
    Side &s = D[d]; s.path = A.dir + (d ? "/large" : "/small"); s.nr = nr;
    mk(s); rotate(s, laps[d], at[d]);
    s.w = shr_open(s.path.c_str(), SHR_WRONLY | SHR_NONBLOCK); s.b = shr_open(s.path.c_str(), SHR_WRONLY | SHR_NONBLOCK | SHR_BUFFERED);
    if (!s.w || !s.b) harness_error("open");
    shr *w = shr_open(s.path.c_str(), SHR_WRONLY | SHR_NONBLOCK);
    if (!w) harness_error("open");
    /* readers that have drained wakeups once, so that what they need for that is allocated */
    auto catchup = [&](shr *r) { for (;;) { if (rb.size() < s.cap * L) rb.resize(s.cap * L); if (iov.size() < s.cap) iov.resize(s.cap); size_t n = s.cap; ssize_t x = shr_readv(r, rb.data(), s.cap * L, iov.data(), &n); if (x < 0) harness_error("catch up"); if (!x) return; } };
    for (int k = 0; k < nr; k++) { s.r[k] = shr_open(s.path.c_str(), SHR_RDONLY | SHR_NONBLOCK); if (!s.r[k]) harness_error("open reader"); }
    put(s, w, 1);
    for (int k = 0; k < nr; k++) catchup(s.r[k]);
    size_t want = fill == EMPTY ? 0 : fill == SOME ? s.cap / 2 : s.cap;
    int times = farm && fill == FULL ? calls * mul : calls;
    if (want) for (int k = 0, done = 0; k < times; k++) {
      size_t c = farm && fill == FULL ? s.cap - (k == 0 ? 3 : 0) : k == calls - 1 ? want - done : want / calls;
      if (c) put(s, w, c);
      done += c;
    }
    if (farm && !lagging) for (int k = 0; k < nr; k++) if (k % 2 == 0) catchup(s.r[k]);
    if (d) count("messages_held", want);
    shr_close(w);
    /* the first calls bind symbols and allocate */
    put(s, s.b, 1);
  }
  if (shr_flush(D[0].b, 0) < 0 || shr_flush(D[1].b, 0) < 0) harness_error("flush");
  int n = g.range(8, 24);
  bool inb = false;
  static bool ever[NOPS];
  for (int k = 0; k < n; k++) {
    int op = g.below(NOPS); size_t c = g.range(1, 6), len = L * g.range(2, 5); int rd = g.below(100);
    if ((op == O_APPGET || op == O_APPSET) && !app) continue;
    if (op == O_FSTAT && !farm) continue;
    if (op == O_SHORT && L == 1) continue;
    if (g.p(35)) op = g.p(50) ? O_WRITE : O_READ1;
    if (op == O_POLLFD && g.p(60)) continue;
    if (op == O_BUFW || op == O_FLUSH) { if (inb != (op == O_FLUSH)) op = inb ? O_FLUSH : O_BUFW; }
    if (!ever[op]) { /* bind its symbols on rings of no account */
      ever[op] = true; Side t = D[0]; t.path = A.dir + "/warm"; t.nr = 1; mk(t);
      t.w = shr_open(t.path.c_str(), SHR_WRONLY | SHR_NONBLOCK); t.b = shr_open(t.path.c_str(), SHR_WRONLY | SHR_NONBLOCK | SHR_BUFFERED); t.r[0] = shr_open(t.path.c_str(), SHR_RDONLY | SHR_NONBLOCK);
      if (!t.w || !t.b || !t.r[0]) harness_error("open warm");
      put(t, t.w, 3);
      call(t, op, 0, 1, L);
      shr_close(t.w); shr_close(t.b); shr_close(t.r[0]); unlink(t.path.c_str());
    }
    if (op == O_BUFW) c = std::min<size_t>(c, 4);
    logop("%s, %zu message(s), reader %d", oname[op], c, rd % nr);
    Meas m[2];
    for (int d = 0; d < 2; d++) m[d] = call(D[d], op, rd, c, std::min<size_t>(len, 1000));
    logres("%ld/%ld; %llu and %llu instructions, %llu and %llu system calls", m[0].res, m[1].res, (unsigned long long)m[0].ins, (unsigned long long)m[1].ins, (unsigned long long)m[0].sys, (unsigned long long)m[1].sys);
    if (op == O_BUFW) inb = true; if (op == O_FLUSH) inb = false;
    if (m[0].res != m[1].res || m[0].res2 != m[1].res2) { count("outcomes_differ"); break; }
    count("pairs"); count("instructions", m[0].ins + m[1].ins); count(fmt("calls_%s", oname[op]).c_str());
    distinct("pairs", mix(mix(id, op), mix(m[1].ins, c)));
    if (S.c["most_instructions"] < m[1].ins) S.c["most_instructions"] = m[1].ins;
    if (m[1].ins > m[0].ins * 2 + 4000)
      violation("cost", fmt("%s of %zu message(s) (result %ld) takes %llu%s instructions on the large ring, %llu on the small one", oname[op], c, m[1].res, (unsigned long long)m[1].ins, m[1].ins > LIMIT ? " or more" : "", (unsigned long long)m[0].ins));
    if (m[1].sys > m[0].sys + 1)
      violation("system-calls", fmt("%s of %zu message(s) (result %ld) makes %llu system calls on the large ring, %llu on the small one", oname[op], c, m[1].res, (unsigned long long)m[1].sys, (unsigned long long)m[0].sys));
  }
  for (int d = 0; d < 2; d++) {
    shr_close(D[d].w); shr_close(D[d].b);
    for (int k = 0; k < nr; k++) shr_close(D[d].r[k]);
    unlink(D[d].path.c_str());
  }
}

/* the same call with k and with 16 k messages (or bytes) */
static void slope(u64 id) {
  begin_case(id);
  Rng g(mix(A.seed * 0x51ed270b + 0x510e, id));
  farm = g.p(40); drop = !farm && g.p(60); app = false; sync_ = false;
  size_t k = g.range(16, 60); L = g.p(50) ? g.range(1, 8) : g.range(9, 64);
  Side &s = D[0]; s.path = A.dir + "/slope"; s.cap = 1100 + g.below(3000); s.nr = 1;
  const char *what[] = {"writev", "readv", "write of one message that displaces others", "flush", "write of bytes", "read of bytes", "writev that displaces others"};
  int op = g.below(7); bool full = op == 2 || op == 6;
  if (op == 3) s.cap = 12000; /* the buffer is a tenth of the ring */
  if (full && !farm && g.p(70)) drop = true;
  casehdr = fmt("%s of %zu messages of %zu bytes; %s, of %zu and %zu messages", farm ? "farm" : drop ? "drop ring" : "ring", s.cap, L, what[op], k, k * 16);
  if (A.trace) fprintf(stdout, "case %llu: %s\n", (unsigned long long)id, casehdr.c_str());
  if (buf.size() < 65536) buf.resize(65536, 'x');
  if (rb.size() < 8u << 20) rb.resize(8u << 20);
  mk(s); rotate(s, g.below(3), g.below(10));
  s.w = shr_open(s.path.c_str(), SHR_WRONLY | SHR_NONBLOCK); s.b = shr_open(s.path.c_str(), SHR_WRONLY | SHR_NONBLOCK | SHR_BUFFERED); s.r[0] = shr_open(s.path.c_str(), SHR_RDONLY | SHR_NONBLOCK);
  if (!s.w || !s.b || !s.r[0]) harness_error("open");
  auto drain = [&]() { struct shr_stat st; size_t n; for (;;) { n = 1100; if (iov.size() < n) iov.resize(n); ssize_t x = shr_readv(s.r[0], rb.data(), rb.size(), iov.data(), &n); if (x < 0) harness_error("drain"); if (!x) break; } (void)st; };
  /* where the places hold messages read before, writes displace them: let them all do so, or none */
  if (full) { put(s, s.w, s.cap); if (!drop && !farm) drain(); }
  u64 ins[2] = {}, sys[2] = {};
  for (int d = -1; d < 2; d++) {
    size_t c = d == 1 ? k * 16 : k; long res = 0, want; size_t n = c;
    if (op == 1) { if (farm) drain(); put(s, s.w, c); }
    if (op == 5) { if (farm) drain(); ssize_t x = shr_write(s.w, buf.data(), c * L); if (x != (ssize_t)(c * L)) harness_error("write %zd", x); }
    if (op == 3) for (size_t j = 0; j < c; j++) if (shr_write(s.b, buf.data(), L) <= 0) harness_error("buffer");
    if (op == 3 && !farm) drain();
    if (iov.size() < c) iov.resize(c);
    for (size_t j = 0; j < c; j++) iov[j] = {buf.data(), L};
    want = c * L;
    switch (op) {
      case 0: case 6: STEP(res = shr_writev(s.w, iov.data(), c)); break;
      case 1: STEP(res = shr_readv(s.r[0], rb.data(), rb.size(), iov.data(), &n)); break;
      case 3: STEP(res = shr_flush(s.b, 0)); want = res > 0 ? res : want; break;
      case 5: STEP(res = shr_read(s.r[0], rb.data(), rb.size())); break;
      default: STEP(res = shr_write(s.w, buf.data(), c * L)); break;
    }
    logop("%s of %zu: %ld; %llu instructions, %llu system calls", what[op], c, res, (unsigned long long)nstep, (unsigned long long)nsys);
    if (res != want) { count("slope_odd"); break; }
    if (d < 0) continue; /* the first binds symbols, connects */
    ins[d] = nstep; sys[d] = nsys;
    if (op == 0 && !drop && !farm) drain();
    if (op == 6 || op == 2) { if (drop || farm) {} else drain(); }
    if (d == 1) {
      count("slopes"); count(fmt("slopes_%s", what[op]).c_str()); distinct("pairs", mix(id, mix(ins[0], ins[1])));
      if (ins[1] > ins[0] * 32 + 8000)
        violation("slope", fmt("%s: %llu instructions for %zu, %llu%s for 16 times as many", what[op], (unsigned long long)ins[0], k, (unsigned long long)ins[1], ins[1] > LIMIT ? " or more" : ""));
      if (sys[1] > sys[0] + 2)
        violation("system-calls", fmt("%s: %llu system calls for %zu, %llu for 16 times as many", what[op], (unsigned long long)sys[0], k, (unsigned long long)sys[1]));
    }
  }
  shr_close(s.w); shr_close(s.b); shr_close(s.r[0]); unlink(s.path.c_str());
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  if (!getenv("DBG") && !freopen("/dev/null", "w", stderr)) {}
  signal(SIGALRM, on_alarm);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
  for (u64 k = A.from; k < A.to; k++) { alarm(60 * A.slow); if (A.mode == "slope") slope(k); else one(k); alarm(0); }
  write_out(NULL, "", 0);
  return 0;
}
