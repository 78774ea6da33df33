/* Calls blocked for a long time (NO_VI). On rings of each kind, processes
 * block in reads, writes and flushes, with and without a descriptor of the
 * caller's, and wait on selectable descriptors, for as long as --slow times
 * 10 seconds in which nothing happens. None may come back, or run; then what
 * each waits for is provided, and each must come back with the right result. */
#include "common.h"
#include "shr.h"
#include "bw.h"
enum { RD, RDV, WR, WRV, FL, BWR, PO, RDP, WRP, NK };
static const char *kname[] = {"read", "readv", "write", "writev", "flush", "buffered write", "wait on the descriptor", "read with a caller's descriptor", "write with a caller's descriptor"};
struct Sh { volatile int in, back; volatile long res; };
static Sh *M;
struct Wt { pid_t pid; int kind, ring, pfd; unsigned long sw; };
static std::vector<Wt> W;
static std::string rname(int r) { return fmt("%s/ring%d", A.dir.c_str(), r); }
static char state(pid_t p, unsigned long *sw) {
  char b[4096]; int fd = open(fmt("/proc/%d/status", p).c_str(), O_RDONLY); if (fd < 0) return 'X';
  int n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 'X';
  b[n] = 0; char *s = strstr(b, "State:\t"), *v = strstr(b, "\nvoluntary_ctxt_switches:\t");
  *sw = v ? strtoul(v + 26, 0, 10) : 0;
  return s ? s[7] : '?';
}
static void waiter(int id, int kind, int ring, int pfd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL);
  static char b[1000]; struct iovec io[4]; size_t n = 4;
  bool rd = kind == RD || kind == RDV || kind == PO || kind == RDP;
  shr *s = shr_open(rname(ring).c_str(), (rd ? SHR_RDONLY : SHR_WRONLY) | (kind == PO ? SHR_NONBLOCK : 0) | (kind == FL || kind == BWR ? SHR_BUFFERED : 0));
  if (!s) _exit(3);
  if (kind == RDP || kind == WRP) if (shr_ctl(s, SHR_POLLFD, pfd)) _exit(4);
  for (int k = 0; k < 4; k++) io[k].iov_base = b, io[k].iov_len = 20;
  memset(b, 'w', sizeof b);
  if (kind == FL) { if (shr_write(s, b, 50) != 50) _exit(5); }
  if (kind == BWR) { for (int k = 0;; k++) { struct shr_stat st; if (shr_stat(s, &st, NULL)) _exit(5); if (st.cb + 50 > st.cn || k > 5000) break; if (shr_write(s, b, 50) != 50) _exit(5); } }
  M[id].in = 1;
  long r = 0;
  switch (kind) {
    case RD: case RDP: r = shr_read(s, b, sizeof b); break;
    case RDV: r = shr_readv(s, b, sizeof b, io, &n); break;
    case WR: case WRP: case BWR: r = shr_write(s, b, 50); break;
    case WRV: r = shr_writev(s, io, 2); break;
    case FL: r = shr_flush(s, 0); break;
    case PO: { struct pollfd p = {shr_get_selectable_fd(s), POLLIN, 0}; r = poll(&p, 1, -1); if (r == 1) r = shr_read(s, b, sizeof b); break; }
  }
  M[id].res = r; M[id].back = 1;
  _exit(0);
}
static void check_blocked(const char *when, bool sw) {
  for (size_t k = 0; k < W.size(); k++) {
    unsigned long n = 0; char s = state(W[k].pid, &n);
    for (int t = 0; t < 100 && s != 'S' && !M[k].back; t++) { usleep(5000); s = state(W[k].pid, &n); }
    if (M[k].back) violation("came-back", fmt("a %s came back with %ld %s, with nothing there", kname[W[k].kind], M[k].res, when));
    if (s != 'S') violation("not-asleep", fmt("a process in a %s is in state %c %s", kname[W[k].kind], s, when));
    if (sw && n != W[k].sw) { count("ran_while_waiting"); }
    W[k].sw = n; count("states_right"); distinct("waiters", mix(k, W[k].kind));
  }
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  M = (Sh *)mmap(0, sizeof(Sh) * 200, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (M == MAP_FAILED) harness_error("mmap");
  for (u64 k = A.from; k < A.to; k++) {
    begin_case(k);
    W.clear(); memset((void *)M, 0, sizeof(Sh) * 200);
    Rng G(mix(A.seed, k + 5));
    /* rings 0 to 2 are empty: plain, drop, farm; 3 is full */
    static char x[1000]; memset(x, 'x', sizeof x);
    size_t n = G.range(300, 900);
    shr *h[4];
    for (int r = 0; r < 4; r++) {
      unlink(rname(r).c_str());
      if (shr_init((char *)rname(r).c_str(), r == 3 ? 3000 : n, r == 1 ? SHR_DROP : r == 2 ? SHR_FARM : 0)) harness_error("init");
    }
    h[3] = shr_open(rname(3).c_str(), SHR_WRONLY | SHR_NONBLOCK); if (!h[3]) harness_error("open");
    for (int q = 0; q < 3000 / 50; q++) if (shr_write(h[3], x, 50) != 50) harness_error("fill");
    shr_close(h[3]);
    std::vector<std::pair<int, int>> pp;
    auto start = [&](int kind, int ring) {
      int p[2]; if (pipe(p)) harness_error("pipe");
      fflush(stdout); pid_t pid = fork(); if (pid < 0) harness_error("fork");
      if (pid == 0) waiter(W.size(), kind, ring, p[0]);
      W.push_back({pid, kind, ring, p[1]}); count("waiters");
    };
    for (int r = 0; r < 3; r++) for (int kind : {RD, RDV, PO, RDP, RDP}) { start(kind, r); }
    for (int kind : {WR, WRV, FL, BWR, WRP, WRP}) start(kind, 3);
    double t0 = now();
    for (size_t q = 0; q < W.size(); q++) while (!M[q].in) { int st; if (waitpid(W[q].pid, &st, WNOHANG) == W[q].pid) harness_error("waiter %s: %x", kname[W[q].kind], st); if (now() - t0 > 60) harness_error("start"); usleep(1000); }
    sleep(1);
    /* polls and reads by others that find nothing, early on */
    check_blocked("at first", false);
    int secs = A.slow * 10;
    for (int s = 0; s < secs; s++) { sleep(1); if (SP) SP->op++; check_blocked(fmt("after %d s", s + 1).c_str(), true); }
    count("seconds_waited", secs);
    /* one in two of those with a descriptor gets it made ready */
    std::vector<bool> pfd(W.size()); bool odd = false;
    for (size_t q = 0; q < W.size(); q++) if (W[q].kind == RDP || W[q].kind == WRP) { odd = !odd; if (odd) { pfd[q] = true; if (write(W[q].pfd, "x", 1) != 1) harness_error("pipe"); } }
    t0 = now();
    auto await = [&](size_t q, const char *what) { double t1 = now(); while (!M[q].back) { if (now() - t1 > 20) violation("not-woken", fmt("a %s, blocked for %d s, sleeps on after %s", kname[W[q].kind], secs, what)); usleep(500); } };
    for (size_t q = 0; q < W.size(); q++) if (pfd[q]) { await(q, "the caller's descriptor became ready"); if (M[q].res != -3) violation("result", fmt("a %s returned %ld when the caller's descriptor was ready", kname[W[q].kind], M[q].res)); count("back"); }
    sleep(1);
    for (size_t q = 0; q < W.size(); q++) if (!pfd[q] && M[q].back) violation("came-back", fmt("a %s came back with %ld when another process's descriptor was ready", kname[W[q].kind], M[q].res));
    for (int r = 0; r < 3; r++) { shr *w = shr_open(rname(r).c_str(), SHR_WRONLY | SHR_NONBLOCK); if (!w) harness_error("open"); for (int q = 0; q < 10; q++) if (shr_write(w, x, 7) != 7) violation("write", "a write to an empty ring fails"); shr_close(w); }
    { shr *w = shr_open(rname(3).c_str(), SHR_RDONLY | SHR_NONBLOCK); if (!w) harness_error("open"); long r; while ((r = shr_read(w, x, sizeof x)) > 0 || now() - t0 < 4) if (r <= 0) usleep(10000); shr_close(w); }
    for (size_t q = 0; q < W.size(); q++) if (!pfd[q]) {
      if (W[q].ring < 2 && !M[q].back) { shr *w = shr_open(rname(W[q].ring).c_str(), SHR_WRONLY | SHR_NONBLOCK); usleep(20000); for (int z = 0; z < 20 && !M[q].back; z++) { shr_write(w, x, 7); usleep(10000); } shr_close(w); } /* others took more than one each */
      await(q, W[q].ring == 3 ? "room was made" : "messages were written");
      long r = M[q].res; int kd = W[q].kind;
      bool ok = kd == RD || kd == RDP || kd == PO ? r == 7 || (kd == PO && r == 0) : kd == RDV ? r > 0 && r % 7 == 0 && r <= 28 : kd == WRV ? r == 40 : kd == FL ? r >= 0 : r == 50;
      if (!ok) violation("result", fmt("a %s, blocked for %d s, returned %ld", kname[kd], secs, r));
      count("back");
    }
    for (auto &w : W) { int st; waitpid(w.pid, &st, 0); close(w.pfd); if (!WIFEXITED(st) || WEXITSTATUS(st)) violation("ended", fmt("a process in a %s ended with status %x", kname[w.kind], st)); }
    count("cases");
  }
  write_out(NULL, "", 0);
  return 0;
}
