/* Several rings in one process, used by several threads at once, a ring by one
 * thread at a time; handles outlive the threads that opened them. Each ring has
 * a model of its own; other processes help to end blocked calls. NO_VI: the
 * library runs without the interposed calls of vi.c, so that ThreadSanitizer
 * can watch it. */
#include "common.h"
#include "shr.h"
#include <pthread.h>
#include <sys/socket.h>
#include <sys/syscall.h>

enum { NT = 6, NR = 8 };
struct Msg { u64 seq; size_t len; };
struct Rd { shr *s; u64 next, missed; bool block; };
struct Tally { std::map<std::string, u64> c; std::set<u64> states; };
struct Ring {
  std::string path; u64 id; size_t n, mm; unsigned fl; bool drop, farm;
  std::deque<Msg> q; size_t used; u64 seq0, nseq; /* seq0: of the first in q; nseq: of the next written */
  u64 mr, br, mw, bw, md, bd; struct timeval start;
  shr *w; bool wblock, wbuf; std::vector<Rd> r; std::string app;
  std::vector<std::string> log;
};
struct Cmd { char op; char path[200]; u64 id, seq; size_t len, k; int delay; };
struct Helper { pid_t pid; int fd; };
struct Thread { pthread_t t; int no; Rng g{1}; std::vector<Ring *> mine; Tally y; bool last_blocked; };
static Ring R[NR];
static Helper H[NT];
static Thread T[NT];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int nt, nr, ndone, nblocked; static Cmd posted[NT]; static bool isposted[NT];

[[noreturn]] static void bad(Ring &g, const char *key, const char *f, ...) {
  char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  pthread_mutex_lock(&mu);
  oplog = g.log;
  casehdr = fmt("%s: %zu bytes, %zu messages, flags %x; %d rings, %d threads", g.path.c_str(), g.n, g.mm, g.fl, nr, nt);
  violation(key, fmt("(one of %d rings used in %d threads) ", nr, nt) + b);
}
static void note(Ring &g, const char *f, ...) {
  char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  g.log.push_back(fmt("[%d] ", (int)syscall(SYS_gettid)) + b);
  if (A.trace) fprintf(stdout, "%s %s\n", g.path.c_str() + g.path.size() - 2, g.log.back().c_str());
}
static u64 mid(u64 id, u64 seq) { return mix(id, seq); }

/* the helping processes */
static void helper(int fd) {
  Cmd c; std::vector<char> b;
  while (read(fd, &c, sizeof c) == sizeof c) {
    ssize_t res = -100;
    shr *s = shr_open(c.path, (c.op == 'W' ? SHR_WRONLY : SHR_RDONLY) | SHR_NONBLOCK);
    if (s) {
      usleep(c.delay);
      if (c.op == 'W') { b.resize(c.len); gen(mid(c.id, c.seq), b.data(), c.len); res = shr_write(s, b.data(), c.len); }
      else {
        b.resize(c.len); res = 0;
        for (size_t k = 0; k < c.k; k++) {
          ssize_t x = shr_read(s, b.data(), c.len);
          if (x <= 0) { res = -101; break; }
          if (!gen_is(mid(c.id, c.seq + k), b.data(), x)) { res = -102; break; }
          res += x;
        }
      }
      shr_close(s);
    }
    if (write(fd, &res, sizeof res) != sizeof res) break;
  }
  _exit(0);
}
static void send_cmd(int h, Cmd &c) { if (write(H[h].fd, &c, sizeof c) != sizeof c) harness_error("helper"); }
static ssize_t answer(int h) { ssize_t r; if (read(H[h].fd, &r, sizeof r) != sizeof r) harness_error("helper's answer"); return r; }

static void model_write(Ring &g, const std::vector<size_t> &l) {
  size_t tot = 0;
  for (size_t x : l) tot += x;
  while (g.n - g.used < tot || g.q.size() + l.size() > g.mm) { g.used -= g.q[0].len; g.bd += g.q[0].len; g.md++; g.q.pop_front(); g.seq0++; }
  for (size_t x : l) g.q.push_back({g.nseq++, x});
  g.used += tot; g.mw += l.size(); g.bw += tot;
}
static void model_pop(Ring &g, size_t k) { while (k--) { g.used -= g.q[0].len; g.q.pop_front(); g.seq0++; } }

static void fresh(Ring &g, Rng &x, int k) {
  g.path = A.dir + fmt("/t%d", k);
  g.id = x.next(); g.n = x.p(20) ? x.range(1, 40) : x.p(20) ? x.range(20000, 300000) : x.range(60, 4000);
  g.mm = x.p(30) ? 0 : x.range(1, 40);
  int m = x.below(4);
  g.farm = m == 3; g.drop = m >= 2;
  g.fl = (g.farm ? SHR_FARM : g.drop ? SHR_DROP : 0) | (x.p(10) ? SHR_SYNC : 0) | (g.mm ? SHR_MAXMSGS_2 : 0);
  g.app.assign(x.p(50) ? 0 : x.range(1, 300), 0);
  gen(g.id + 1, &g.app[0], g.app.size());
  if (g.app.size()) g.fl |= SHR_APPDATA_1;
  g.q.clear(); g.used = g.seq0 = g.nseq = g.mr = g.br = g.mw = g.bw = g.md = g.bd = 0; g.start = {0, 0};
  g.w = NULL; g.r.clear(); g.log.clear();
  note(g, "created: %zu bytes, %zu messages, flags %x", g.n, g.mm, g.fl);
  int rc = g.app.size() ? shr_init((char *)g.path.c_str(), g.n, g.fl, g.app.data(), g.app.size(), g.mm)
                        : shr_init((char *)g.path.c_str(), g.n, g.fl, g.mm);
  if (!g.mm) g.mm = (size_t)-1; /* told by the statistics */
  if (rc) bad(g, "init", "creation failed");
}
static void open_w(Ring &g, Rng &x) {
  g.wblock = x.p(40); g.wbuf = x.p(25);
  g.w = shr_open(g.path.c_str(), SHR_WRONLY | (g.wblock ? 0 : SHR_NONBLOCK) | (g.wbuf ? SHR_BUFFERED : 0));
  note(g, "writer opened%s%s", g.wblock ? " blocking" : "", g.wbuf ? " buffered" : "");
  if (!g.w) bad(g, "open", "the ring does not open for writing");
}
static void open_r(Ring &g, Rng &x) {
  Rd r = {NULL, g.seq0, 0, x.p(40)};
  r.s = shr_open(g.path.c_str(), SHR_RDONLY | (r.block ? 0 : SHR_NONBLOCK));
  note(g, "reader opened%s", r.block ? " blocking" : "");
  if (!r.s) bad(g, "open", "the ring does not open for reading");
  g.r.push_back(r);
}
static void check_stat(Ring &g, shr *s, Thread &t, bool reset) {
  struct shr_stat st; struct timeval tv = {(time_t)t.g.below(1 << 30), 5};
  note(g, "statistics%s", reset ? ", reset" : "");
  if (shr_stat(s, &st, reset ? &tv : NULL)) bad(g, "stat", "shr_stat failed");
  if (g.mm == (size_t)-1) g.mm = st.mm;
#undef EQ
#define EQ(f, x) if ((u64)st.f != (u64)(x)) bad(g, "stat-" #f, "statistics: " #f " is %llu, should be %llu", (unsigned long long)st.f, (unsigned long long)(x));
  EQ(bn, g.n) EQ(mm, g.mm) EQ(bw, g.bw) EQ(mw, g.mw) EQ(br, g.br) EQ(mr, g.mr)
  EQ(start.tv_sec, g.start.tv_sec) EQ(cn, s == g.w && g.wbuf ? st.cn : 0)
  if (!g.farm) { EQ(bu, g.used) EQ(mu, g.q.size()) EQ(bd, g.bd) EQ(md, g.md) }
  if (reset) { g.bw = g.mw = g.br = g.mr = g.bd = g.md = 0; g.start = tv; }
  t.y.c["stats"]++;
}
static void do_write(Ring &g, Thread &t) {
  Rng &x = t.g;
  size_t fr = g.n - g.used, k = x.p(60) ? 1 : x.range(1, 5), tot = 0;
  std::vector<size_t> l; std::vector<std::vector<char>> b(k); std::vector<struct iovec> iov(k);
  for (size_t i = 0; i < k; i++) {
    size_t left = fr > tot ? fr - tot : 1, z = x.p(25) ? left + x.below(3) - 1 : x.p(50) ? x.range(1, 1 + left / 3) : x.range(1, 1 + g.n / 6);
    if (z < 1) z = 1;
    if (z > g.n) z = g.n;
    l.push_back(z); tot += z;
    b[i].resize(z); gen(mid(g.id, g.nseq + i), b[i].data(), z);
    iov[i].iov_base = b[i].data(); iov[i].iov_len = z;
  }
  bool never = tot > g.n || k > g.mm, fits = tot <= fr && g.q.size() + k <= g.mm;
  if (!fits && !g.drop && !never && (g.wblock || g.wbuf)) { /* would block or stay in the buffer */ t.y.c["writes_left_out"]++; return; }
  if (g.wbuf && never) return;
  note(g, "write of %zu bytes in %zu messages", tot, k);
  ssize_t rc = k == 1 && x.p(50) ? shr_write(g.w, b[0].data(), l[0]) : shr_writev(g.w, iov.data(), k);
  ssize_t want = never ? -1 : fits || g.drop ? (ssize_t)tot : 0;
  if (rc != want) bad(g, "write-result", "a write of %zu bytes in %zu messages returned %zd, not %zd (%zu free of %zu)", tot, k, rc, want, fr, g.n);
  t.y.c["writes"]++;
  if (rc <= 0) return;
  for (auto &v : b) memset(v.data(), 'z', v.size());
  if (g.wbuf) { note(g, "flush"); if (shr_flush(g.w, x.p(50)) < 0) bad(g, "flush", "a flush failed"); t.y.c["flushes"]++; }
  model_write(g, l);
  t.y.states.insert(mix(mix(g.n, g.used), mix(tot, g.fl)));
}
static void poll_check(Ring &g, Rd &r, bool want, const char *when) {
  int fd = shr_get_selectable_fd(r.s);
  if (r.block) { if (fd != -1) bad(g, "selectable", "a blocking reader has a selectable descriptor"); return; }
  struct pollfd p = {fd, POLLIN};
  if (poll(&p, 1, 0) < 0) harness_error("poll");
  if (((p.revents & POLLIN) != 0) != want) bad(g, "poll", "the descriptor of a reader %s %s", want ? "of a ring with data does not poll readable" : "that has read all polls readable", when);
}
static size_t unread(Ring &g, Rd &r) { u64 a = g.farm ? std::max(r.next, g.seq0) : g.seq0; return g.nseq - a; }
static void do_read(Ring &g, Rd &r, Thread &t, bool sure = false) {
  Rng &x = t.g;
  if (g.farm && r.next < g.seq0) { r.missed += g.seq0 - r.next; r.next = g.seq0; }
  size_t at = g.farm ? r.next - g.seq0 : 0, have = g.q.size() - at, cap = x.p(50) ? 1 : x.range(1, 6), niov = cap, wn = 0, wl = 0;
  if (have && !sure) poll_check(g, r, true, "before a read");
  if (!have && r.block) return;
  size_t len = x.p(60) || sure ? g.n : have ? std::max<size_t>(1, g.q[at].len + x.below(3) - 1) : x.range(1, g.n);
  std::vector<char> b(len + 8, 0x5c); struct iovec iov[6];
  for (size_t i = at; i < g.q.size() && wn < cap && wl + g.q[i].len <= len; i++) { wl += g.q[i].len; wn++; }
  ssize_t want = !have ? 0 : wn ? (ssize_t)wl : -2;
  note(g, "read into %zu bytes, %zu iovecs; %zu unread", len, cap, have);
  bool one = cap == 1 && x.p(50);
  ssize_t rc = one ? shr_read(r.s, b.data(), len) : shr_readv(r.s, b.data(), len, iov, &niov);
  if (rc != want) bad(g, "read-result", "a read into %zu bytes, %zu iovecs returned %zd, not %zd", len, cap, rc, want);
  t.y.c["reads"]++;
  if (!one && niov != wn) bad(g, "read-count", "a read reported %zu messages, not %zu", niov, wn);
  size_t p = 0;
  for (size_t i = 0; i < wn; i++) {
    if (!one && (iov[i].iov_base != b.data() + p || iov[i].iov_len != g.q[at + i].len)) bad(g, "read-iov", "iovec %zu of a read is wrong", i);
    if (!gen_is(mid(g.id, g.q[at + i].seq), b.data() + p, g.q[at + i].len)) bad(g, "content", "message %llu differs from what was written", (unsigned long long)g.q[at + i].seq);
    p += g.q[at + i].len;
  }
  for (int k = 0; k < 8; k++) if (b[len + k] != 0x5c) bad(g, "beyond", "a read wrote beyond the buffer");
  g.mr += wn; g.br += wl; t.y.c["read_messages"] += wn;
  if (g.farm) r.next += wn; else model_pop(g, wn);
  if (rc != -2) poll_check(g, r, unread(g, r) != 0, "after a read");
  if (g.farm && x.p(20) && rc >= 0) {
    size_t d = shr_farm_stat(r.s, 0);
    if (d != r.missed) bad(g, "missed", "the miss count is %zu, not %llu", d, (unsigned long long)r.missed);
  }
}
static void do_app(Ring &g, shr *s, Thread &t) {
  size_t sz = t.g.range(1, 400); void *p = NULL;
  if (t.g.p(50)) { /* get */
    note(g, "application data: get");
    int rc = shr_appdata(s, &p, NULL, &sz);
    if ((rc == 0) != (g.app.size() != 0)) bad(g, "appdata", "a get returned %d", rc);
    if (rc == 0 && (sz != g.app.size() || memcmp(p, g.app.data(), sz))) bad(g, "appdata", "a get returned other data than set");
    free(p);
  } else if (g.app.size()) {
    std::string v(g.app.size(), 0); gen(t.g.next(), &v[0], v.size()); sz = v.size();
    note(g, "application data: set");
    if (shr_appdata(s, NULL, &v[0], &sz)) bad(g, "appdata", "a set failed");
    g.app = v;
  }
  t.y.c["appdata_calls"]++;
}
/* a call that blocks, ended by a helper; the helper's part is done soon, or only after all other threads have finished */
static bool do_blocked(Ring &g, Thread &t, bool late) {
  Rng &x = t.g; Cmd c = {}; snprintf(c.path, sizeof c.path, "%s", g.path.c_str()); c.id = g.id; c.delay = x.below(3000);
  Rd *r = NULL; size_t len = 0; 
  for (auto &k : g.r) if (k.block && !unread(g, k)) r = &k;
  if (r) { c.op = 'W'; c.seq = g.nseq; c.len = x.range(1, g.n); note(g, "blocking read%s", late ? ", till the others have finished" : ""); }
  else if (g.w && g.wblock && !g.wbuf && !g.drop && g.q.size()) {
    len = std::min(g.n, g.n - g.used + x.range(1, 20));
    if (len <= g.n - g.used && g.q.size() < g.mm) return false;
    size_t fr = g.n - g.used, k = 0;
    while (k < g.q.size() && (fr < len || g.q.size() - k >= g.mm)) fr += g.q[k++].len;
    c.op = 'R'; c.seq = g.q[0].seq; c.k = k; c.len = g.n;
    note(g, "blocking write of %zu bytes%s", len, late ? ", till the others have finished" : "");
  } else return false;
  if (late) { pthread_mutex_lock(&mu); posted[t.no] = c; isposted[t.no] = true; nblocked++; pthread_cond_signal(&cv); pthread_mutex_unlock(&mu); }
  else send_cmd(t.no, c);
  if (r) {
    std::vector<char> b(g.n);
    ssize_t rc = shr_read(r->s, b.data(), g.n);
    if (rc != (ssize_t)c.len) bad(g, "blocked-read", "a blocking read ended by a message of %zu bytes returned %zd", c.len, rc);
    if (!gen_is(mid(g.id, c.seq), b.data(), rc)) bad(g, "content", "a blocking read returned a message other than written");
    ssize_t a = answer(t.no);
    if (a != (ssize_t)c.len) bad(g, "helper", "another process's write of %zu bytes gave %zd", c.len, a);
    model_write(g, {c.len});
    g.mr++; g.br += rc;
    if (g.farm) { if (r->next < g.seq0) { r->missed += g.seq0 - r->next; } r->next = g.nseq; } else model_pop(g, 1);
  } else {
    std::vector<char> b(len); gen(mid(g.id, g.nseq), b.data(), len);
    size_t tot = 0; for (size_t k = 0; k < c.k; k++) tot += g.q[k].len;
    ssize_t rc = shr_write(g.w, b.data(), len);
    if (rc != (ssize_t)len) bad(g, "blocked-write", "a blocking write of %zu bytes returned %zd", len, rc);
    ssize_t a = answer(t.no);
    if (a != (ssize_t)tot) bad(g, "helper", "another process's reading of %zu messages, %zu bytes gave %zd", c.k, tot, a);
    g.mr += c.k; g.br += tot;
    model_pop(g, c.k); model_write(g, {len});
  }
  t.y.c[late ? "blocked_while_others_worked" : "blocked_calls"]++;
  return true;
}
static void *body(void *v) {
  Thread &t = *(Thread *)v; Rng &x = t.g;
  int ops = x.range(20, 120);
  for (int k = 0; k < ops && t.mine.size(); k++) {
    Ring &g = *t.mine[x.below(t.mine.size())];
    if (!g.w && x.p(40)) open_w(g, x);
    if (g.r.size() < 3 && x.p(g.r.empty() ? 40 : 4)) open_r(g, x);
    int o = x.below(100);
    shr *any = g.w && (g.r.empty() || x.p(50)) ? g.w : g.r.empty() ? NULL : g.r[x.below(g.r.size())].s;
    if (o < 38) { if (g.w && g.mm == (size_t)-1) check_stat(g, g.w, t, false); if (g.w) do_write(g, t); }
    else if (o < 74) { if (g.r.size()) do_read(g, g.r[x.below(g.r.size())], t); }
    else if (o < 80) { if (any) check_stat(g, any, t, x.p(20)); }
    else if (o < 85) { if (any) do_app(g, any, t); }
    else if (o < 91) { if (g.mm != (size_t)-1) do_blocked(g, t, false); }
    else if (o < 94) { if (g.w) { note(g, "writer closed"); shr_close(g.w); g.w = NULL; } }
    else if (o < 97) { if (g.r.size()) { size_t i = x.below(g.r.size()); note(g, "reader %zu closed", i); shr_close(g.r[i].s); g.r.erase(g.r.begin() + i); } }
    else if (o == 97) {
      for (auto &r : g.r) shr_close(r.s);
      if (g.w) shr_close(g.w);
      fresh(g, x, &g - R);
    } else if (o == 98) { note(g, "create, keeping what exists"); if (shr_init((char *)g.path.c_str(), 100, SHR_KEEPEXIST)) bad(g, "init", "creation keeping the existing failed"); }
    else { note(g, "open of no ring"); if (shr_open((A.dir + "/none").c_str(), SHR_RDONLY)) bad(g, "open", "a missing file opened"); }
  }
  if (x.p(40)) for (Ring *g : t.mine) if (g->mm != (size_t)-1 && do_blocked(*g, t, true)) break;
  pthread_mutex_lock(&mu); ndone++; pthread_cond_signal(&cv); pthread_mutex_unlock(&mu);
  return NULL;
}
static size_t fds() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void run_case(u64 c) {
  Rng x(mix(mix(A.seed, c), 0x7472));
  nt = x.range(2, NT); nr = x.range(nt, NR);
  size_t f0 = fds();
  for (int k = 0; k < nr; k++) fresh(R[k], x, k);
  int rounds = x.range(2, 5);
  for (int rd = 0; rd < rounds; rd++) {
    ndone = nblocked = 0;
    for (int k = 0; k < nt; k++) { T[k].no = k; T[k].mine.clear(); T[k].g = Rng(mix(mix(x.next(), rd), k)); isposted[k] = false; }
    for (int k = 0; k < nr; k++) T[k < nt ? k : x.below(nt)].mine.push_back(&R[k]);
    for (int k = 0; k < nt; k++) { int j = x.below(nt); std::swap(T[k].mine, T[j].mine); }
    for (int k = 0; k < nt; k++) if (pthread_create(&T[k].t, NULL, body, &T[k])) harness_error("pthread_create");
    pthread_mutex_lock(&mu);
    while (ndone + nblocked < nt) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    for (int k = 0; k < nt; k++) if (isposted[k]) send_cmd(k, posted[k]);
    for (int k = 0; k < nt; k++) pthread_join(T[k].t, NULL);
    count("rounds"); count("threads", nt);
  }
  for (int k = 0; k < nr; k++) { /* what is left, by the main thread */
    Ring &g = R[k]; Thread &t = T[0];
    for (auto &r : g.r) if (unread(g, r)) poll_check(g, r, true, "when all threads are gone");
    if (g.w && g.mm != (size_t)-1) { check_stat(g, g.w, t, false); do_write(g, t); }
    for (auto &r : g.r) if (unread(g, r)) do_read(g, r, t, true);
    for (auto &r : g.r) shr_close(r.s);
    if (g.w) shr_close(g.w);
    unlink(g.path.c_str());
  }
  if (fds() != f0) bad(R[0], "descriptors", "after all handles were closed there are %zu descriptors, %zu before", fds(), f0);
  for (int k = 0; k < nt; k++) {
    for (auto &p : T[k].y.c) count(p.first.c_str(), p.second);
    for (u64 v : T[k].y.states) distinct("write_states", v);
    T[k].y = Tally();
  }
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  signal(SIGALRM, on_alarm);
  for (int k = 0; k < NT; k++) {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) harness_error("socketpair");
    H[k].pid = fork();
    if (H[k].pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (int f = 3; f < 1024; f++) if (f != sv[1]) close(f); helper(sv[1]); }
    close(sv[1]); H[k].fd = sv[0];
  }
  for (u64 k = A.from; k < A.to; k++) {
    begin_case(k);
    alarm(30 * A.slow);
    run_case(k);
    count("cases");
  }
  alarm(0);
  for (int k = 0; k < NT; k++) close(H[k].fd);
  write_out(NULL, "", 0);
  return 0;
}
