/* Rings that are to be locked in memory (C30): after every call the kernel's
 * account of each ring mapping is compared with what the rings' flags ask for;
 * and opens under a limit on locked memory. */
#include "common.h"
#include "shr.h"
#include <linux/capability.h>
#include <sys/resource.h>
#include <sys/syscall.h>

static Rng G;
static size_t PG, budget; /* what may be locked */
struct Ring { std::string path; bool lk, drop, farm; size_t n, len; std::vector<char> app; };
struct Hd { shr *s; int ring; bool rd, nb, buf; };
static std::vector<Ring> R;
static std::vector<Hd> H;
static size_t pages(size_t l) { return (l + PG - 1) / PG; }

struct Map { std::string path; size_t size, rss; bool lo; char *a; };
static std::vector<Map> smaps() {
  std::vector<Map> v; FILE *f = fopen("/proc/self/smaps", "r"); char b[8192]; bool in = false;
  if (!f) harness_error("smaps");
  while (fgets(b, sizeof b, f)) {
    unsigned long a, e, x; char pr[8]; int at = 0;
    b[strcspn(b, "\n")] = 0;
    if (sscanf(b, "%lx-%lx %7s %*x %*s %*u %n", &a, &e, pr, &at) >= 3 && at) {
      in = !strncmp(b + at, A.dir.c_str(), A.dir.size()) && strstr(b + at, "/ring");
      if (in) v.push_back({b + at, e - a, 0, false, (char *)a});
    } else if (in && sscanf(b, "Rss: %lu kB", &x) == 1) v.back().rss = x * 1024;
    else if (in && !strncmp(b, "VmFlags:", 8)) v.back().lo = strstr(b, " lo") != NULL;
  }
  fclose(f);
  return v;
}
static size_t vmlck() {
  FILE *f = fopen("/proc/self/status", "r"); char b[400]; size_t k = 0;
  while (f && fgets(b, sizeof b, f)) if (sscanf(b, "VmLck: %zu kB", &k) == 1) break;
  if (f) fclose(f);
  return k * 1024;
}
static void check(const char *when, size_t base) {
  auto v = smaps(); size_t want = base;
  for (size_t k = 0; k < R.size(); k++) {
    size_t nh = 0, nm = 0;
    for (auto &h : H) if (h.ring == (int)k) nh++;
    if (R[k].lk) want += nh * pages(R[k].len) * PG;
    for (auto &m : v) if (m.path == R[k].path) {
      nm++;
      if (m.size != pages(R[k].len) * PG) violation("size", fmt("%s: a mapping of %zu bytes for a ring file of %zu", when, m.size, R[k].len));
      if (m.lo != R[k].lk) violation(R[k].lk ? "not-locked" : "locked", fmt("%s: ring %zu, created %s the flag, is %slocked in memory", when, k, R[k].lk ? "with" : "without", m.lo ? "" : "not "));
      if (R[k].lk && m.rss != m.size) violation("not-resident", fmt("%s: %zu of %zu bytes of a locked ring are resident", when, m.rss, m.size));
      count(R[k].lk ? "locked_maps" : "other_maps");
    }
    if (nm != nh) violation("maps", fmt("%s: %zu mappings of ring %zu with %zu handles open", when, nm, k, nh));
  }
  if (vmlck() != want) violation("locked-total", fmt("%s: %zu bytes locked in this process, %zu expected", when, vmlck(), want));
  count("checks");
  distinct("states", mix(R.size() * 100 + H.size(), want / PG));
}
static unsigned oflags(Hd &h) { return (h.rd ? SHR_RDONLY : SHR_WRONLY) | (h.nb ? SHR_NONBLOCK : 0) | (h.buf ? SHR_BUFFERED : 0); }
static void drop_cap() {
  struct __user_cap_header_struct hd = {_LINUX_CAPABILITY_VERSION_3, 0}; struct __user_cap_data_struct d[2];
  if (syscall(SYS_capget, &hd, d)) harness_error("capget");
  d[0].effective &= ~(1u << CAP_IPC_LOCK); d[0].permitted &= ~(1u << CAP_IPC_LOCK); d[0].inheritable &= ~(1u << CAP_IPC_LOCK);
  if (syscall(SYS_capset, &hd, d)) harness_error("capset");
}
/* in a child with little it may lock */
static void limited() {
  int k = -1; for (size_t j = 0; j < R.size(); j++) if (R[j].lk) k = j;
  if (k < 0) return;
  size_t need = pages(R[k].len), lim;
  switch (G.below(5)) { case 0: lim = 0; break; case 1: lim = (need - 1) * PG + G.below(PG); break; case 2: lim = need * PG; break; case 3: lim = 2 * need * PG - 1; break; default: lim = G.below(need * 3 * PG); }
  if (lim > budget) return;
  unsigned fl[3]; for (auto &f : fl) { Hd h = {0, 0, G.p(50), G.p(50), false}; h.buf = !h.rd && G.p(30); f = oflags(h); }
  logop("opens with %zu bytes lockable, the ring takes %zu", lim, need * PG);
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) harness_error("fork");
  if (p == 0) {
    for (auto &m : smaps()) munmap(m.a, m.size); /* the parent's */
    struct rlimit rl = {lim, lim};
    drop_cap();
    if (setrlimit(RLIMIT_MEMLOCK, &rl)) harness_error("setrlimit");
    size_t got = 0, base = vmlck();
    for (unsigned f : fl) {
      int fds = count_fds(); bool can = lim / PG && (got + 1) * need * PG <= lim / PG * PG;
      size_t maps = smaps().size();
      shr *s = shr_open((char *)R[k].path.c_str(), f);
      if (!s && can) violation("refused", fmt("an open failed though %zu bytes may be locked, %zu are and the ring takes %zu", lim, got * need * PG, need * PG));
      if (s && !can) violation("not-locked", fmt("an open succeeded though %zu bytes may be locked, %zu are and the ring takes %zu", lim, got * need * PG, need * PG));
      if (!s) {
        if (count_fds() != fds) violation("fd-leak", "a refused open left descriptors");
        if (smaps().size() != maps) violation("map-leak", "a refused open left a mapping");
      }
      if (s) got++;
      if (vmlck() != base + got * need * PG) violation("locked-total", fmt("%zu bytes locked with %zu handles of %zu", vmlck() - base, got, need * PG));
    }
    _exit(got ? 1 : 0);
  }
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { std::string w = SP ? SP->what : "child"; size_t b = w.find('|'); violation(w.substr(0, b).c_str(), b == std::string::npos ? "" : w.substr(b + 1)); }
  if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) violation("ended", fmt("a process that opens with little lockable memory ended with status %x", st));
  count(WEXITSTATUS(st) ? "limited_opened" : "limited_refused");
  distinct("limits", mix(lim / PG * 1000 + need, lim == 0));
}
static bool much; /* many MB may be locked */
static void one(u64 k) {
  G = Rng(mix(A.seed * 40503 + 11, k));
  begin_case(k);
  alarm(60 * A.slow);
  R.clear(); H.clear();
  size_t base = vmlck();
  int nr = G.range(1, 3);
  for (int j = 0; j < nr; j++) {
    Ring r; r.path = fmt("%s/ring%d", A.dir.c_str(), j);
    r.lk = G.p(65); r.farm = G.p(25); r.drop = r.farm || G.p(25);
    r.n = G.p(50) ? G.range(1, 4000) : G.range(1, 60000);
    if (much && j == 0 && G.p(8)) r.n = G.range(100000, 2000000);
    bool app = G.p(30), mm = G.p(50); size_t mx = G.range(1, 500);
    r.app.assign(G.range(1, 9000), 'a');
    unsigned fl = (r.lk ? SHR_MLOCK : 0) | (r.farm ? SHR_FARM : r.drop ? SHR_DROP : 0) | (G.p(15) ? SHR_SYNC : 0) | (app ? SHR_APPDATA_1 : 0) | (mm ? SHR_MAXMSGS_2 : 0);
    unlink(r.path.c_str());
    {
      int rc = app ? shr_init((char *)r.path.c_str(), r.n, fl, r.app.data(), r.app.size(), mx) : shr_init((char *)r.path.c_str(), r.n, fl, mx);
      if (rc) harness_error("shr_init");
    }
    if (G.p(20)) { /* keep-exist with other wishes changes nothing */
      if (shr_init((char *)r.path.c_str(), r.n + 5, SHR_KEEPEXIST | (r.lk ? 0 : SHR_MLOCK))) violation("keep", "keep-exist failed");
    }
    struct stat st; if (stat(r.path.c_str(), &st)) harness_error("stat");
    r.len = st.st_size; if (!app) r.app.clear();
    R.push_back(r);
    logop("ring %d of %zu bytes, file %zu%s%s", j, r.n, r.len, r.lk ? ", to be locked" : "", r.farm ? ", farm" : r.drop ? ", drop" : "");
  }
  check("after creation", base);
  int steps = G.range(8, 40);
  std::vector<char> b(much ? 2100000 : 70000, 'x');
  for (int s = 0; s < steps; s++) {
    int x = G.below(100);
    if (x < 35 || H.empty()) {
      if (H.size() >= 6) continue;
      Hd h = {0, (int)G.below(R.size()), G.p(50), G.p(80), false}; h.buf = !h.rd && G.p(30);
      size_t tot = pages(R[h.ring].len); for (auto &o : H) tot += pages(R[o.ring].len);
      if (tot * PG > budget) { count("no_budget"); continue; }
      logop("open ring %d %s%s%s", h.ring, h.rd ? "reader" : "writer", h.nb ? " nb" : "", h.buf ? " buffered" : "");
      h.s = shr_open((char *)R[h.ring].path.c_str(), oflags(h));
      if (!h.s) violation("refused", "an open of a sound ring failed");
      H.push_back(h); count("opens");
    } else {
      size_t i = G.below(H.size()); Hd &h = H[i]; Ring &r = R[h.ring]; struct shr_stat st;
      if (shr_stat(h.s, &st, NULL)) violation("stat", "shr_stat failed");
      if (x < 55) {
        logop("close %zu", i); shr_close(h.s); H.erase(H.begin() + i); count("closes");
      } else if (x < 95 && h.rd) { if (h.nb || (st.bu && !r.farm)) { logop("read"); if (shr_read(h.s, b.data(), b.size()) < 0) violation("read", "a read failed"); } }
      else if (x < 95) {
        size_t l = G.range(1, r.n);
        if (!h.nb && !h.buf && !r.drop && (st.bn - st.bu < l || st.mm == st.mu)) continue;
        if (h.buf && !h.nb && !r.drop) continue;
        logop("write %zu", l); if (shr_write(h.s, b.data(), l) < 0) violation("write", "a write failed");
      } else { limited(); }
    }
    check(oplog.back().c_str(), base);
  }
  if (G.p(50)) limited();
  while (!H.empty()) { shr_close(H.back().s); H.pop_back(); }
  check("after all are closed", base);
  for (auto &r : R) unlink(r.path.c_str());
  alarm(0);
  count("histories");
  if (S.samples.size() < 3) { std::string s; for (size_t j = 0; j < oplog.size() && j < 16; j++) s += oplog[j] + "; "; S.samples.push_back(s.substr(0, 900)); }
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  signal(SIGALRM, on_alarm);
  PG = sysconf(_SC_PAGESIZE);
  size_t want = 24 << 20; /* may so much be locked? */
  void *m = mmap(0, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  budget = want;
  if (mlock(m, want)) { struct rlimit rl; getrlimit(RLIMIT_MEMLOCK, &rl); budget = rl.rlim_cur; }
  munmap(m, want); much = budget == want;
  if (budget < 32 * PG) { printf("HARNESS: only %zu bytes may be locked here\n", budget); return 2; }
  if (!freopen("/dev/null", "w", stderr)) {}
  for (u64 k = A.from; k < A.to; k++) one(k);
  write_out(NULL, "", 0);
  return 0;
}
