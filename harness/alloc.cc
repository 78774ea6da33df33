/* Storage of rings (NO_VI). Rings are made on a file system of limited size,
 * a tmpfs in a mount namespace of the driver's own, with the free space near
 * what they take. A ring that was made has all its storage: when the rest of
 * the file system is used up, every byte of it can still be used. One that
 * cannot have it is refused, and leaves nothing. */
#include "common.h"
#include "shr.h"
#include <functional>
#include <sched.h>
#include <sys/mount.h>
#include <sys/resource.h>
#include <sys/statvfs.h>

static Rng G(1);
static std::string fs, rp;
static bool limited, can_lock;
static const size_t PG = 4096;
static void put(const char *f, const std::string &s) {
  int fd = open(f, O_WRONLY);
  if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) harness_error("%s", f);
  close(fd);
}
static bool mnt(size_t sz) { return mount("shrv", fs.c_str(), "tmpfs", 0, fmt("size=%zu,mode=777", sz).c_str()) == 0; }
static bool namespaces() {
  struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY};
  setrlimit(RLIMIT_MEMLOCK, &rl);
  uid_t u = getuid(); gid_t g = getgid();
  if (unshare(CLONE_NEWNS)) {
    if (unshare(CLONE_NEWUSER | CLONE_NEWNS)) return false;
    put("/proc/self/setgroups", "deny");
    put("/proc/self/uid_map", fmt("0 %u 1", u)); put("/proc/self/gid_map", fmt("0 %u 1", g));
    prctl(PR_SET_PDEATHSIG, SIGKILL);
  }
  if (mount("none", "/", NULL, MS_REC | MS_PRIVATE, NULL)) return false;
  if (!mnt(1 << 20)) return false;
  return umount2(fs.c_str(), MNT_DETACH) == 0;
}
static size_t freeb() { struct statvfs v; if (statvfs(fs.c_str(), &v)) harness_error("statvfs"); return v.f_bfree * v.f_frsize; }
static size_t pgup(size_t n) { return (n + PG - 1) / PG * PG; }
/* takes n bytes of the file system's space, or all that is there */
static size_t junk_no;
static void junk(size_t n) {
  static std::string b(1 << 16, 'j');
  int fd = open(fmt("%s/junk%zu", fs.c_str(), junk_no++).c_str(), O_WRONLY | O_CREAT, 0666);
  if (fd < 0) harness_error("junk");
  size_t d = 0;
  while (d < n) { ssize_t r = write(fd, b.data(), std::min(b.size(), n - d)); if (r <= 0) break; d += r; }
  close(fd);
}
static void unjunk() { while (junk_no) unlink(fmt("%s/junk%zu", fs.c_str(), --junk_no).c_str()); }

/* runs f in a process of its own; what it says is wrong, or that it died */
static std::string apart(const char *what, std::function<std::string()> f) {
  int p[2]; if (pipe(p)) harness_error("pipe");
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) harness_error("fork");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(0);
    close(p[0]);
    std::string s = f();
    if (write(p[1], s.data(), s.size()) < 0) {}
    _exit(0);
  }
  close(p[1]);
  std::string s; char b[512]; ssize_t r;
  while ((r = read(p[0], b, sizeof b)) > 0 || (r < 0 && errno == EINTR)) if (r > 0) s.append(b, r);
  close(p[0]);
  int st; while (waitpid(pid, &st, 0) < 0) {}
  if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) harness_error("killed"); return fmt("%s: the process died from signal %d (%s)", what, WTERMSIG(st), strsignal(WTERMSIG(st))); }
  if (WEXITSTATUS(st)) return fmt("%s: the process ended with status %d", what, WEXITSTATUS(st));
  return s;
}
static size_t n, mm, al; static unsigned fl; static bool A1, M1; static std::string app;
static int init(const std::string &p) {
  if (A1 && M1) return shr_init((char *)p.c_str(), n, fl, (void *)app.data(), al, mm);
  if (A1) return shr_init((char *)p.c_str(), n, fl, (void *)app.data(), al);
  if (M1) return shr_init((char *)p.c_str(), n, fl, mm);
  return shr_init((char *)p.c_str(), n, fl);
}
static void tick(int) {}
static int timed_init(const std::string &p, int us) {
  if (us) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sigaction(SIGALRM, &sa, NULL);
    struct itimerval it = {{0, us}, {0, us}}; setitimer(ITIMER_REAL, &it, NULL);
  }
  int rc = init(p);
  struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &z, NULL);
  return rc;
}
/* uses every part of the ring */
static std::string use(u64 seed) {
  Rng g(seed);
  shr *w = shr_open(rp.c_str(), SHR_WRONLY | SHR_NONBLOCK | (g.p(20) ? SHR_BUFFERED : 0)); if (!w) return "the ring does not open for writing";
  shr *r = shr_open(rp.c_str(), SHR_RDONLY | SHR_NONBLOCK); if (!r) return "the ring does not open for reading";
  void *a = NULL; size_t l = 0;
  if (al) {
    if (shr_appdata(r, &a, NULL, &l) || l != al || memcmp(a, app.data(), al)) return "the application data differs";
    free(a);
    for (auto &c : app) c = g.next();
    a = NULL; l = al; if (shr_appdata(w, NULL, &app[0], &l)) return "the application data cannot be set";
    if (shr_appdata(r, &a, NULL, &l) || l != al || memcmp(a, app.data(), al)) return "the application data set differs";
    free(a);
  }
  struct shr_stat st; if (shr_stat(w, &st, NULL)) return "statistics cannot be had";
  std::string m(n, 0), x(n, 0);
  bool drop = fl & (SHR_DROP | SHR_FARM);
  shr_flush(w, 0);
  while (shr_read(r, &x[0], n) > 0) {}
  for (int lap = 0; lap < 3; lap++) {
    int kind = g.below(3);
    size_t sz = kind == 0 ? n : kind == 1 ? 1 : g.range(1, n), k = 0, cap = std::min(n / sz, (size_t)st.mm);
    if (kind == 2) cap = std::min<size_t>(cap, 2000);
    if (kind == 1 && g.p(60)) { sz = std::max<size_t>(1, n / st.mm); cap = std::min(n / sz, (size_t)st.mm); } /* fills both */
    if (cap > 60000) { sz = n / 60000; cap = std::min(n / sz, (size_t)st.mm); }
    u64 id = g.next();
    for (k = 0; k < cap; k++) {
      gen(id + k, &m[0], sz); ssize_t q = shr_write(w, &m[0], sz);
      if (q != (ssize_t)sz) return fmt("message %zu of %zu, of %zu bytes, is not taken (%zd)", k, cap, sz, q);
    }
    if (shr_flush(w, 0) < 0) return "a flush failed";
    for (k = 0; k < cap; k++) {
      ssize_t q = shr_read(r, &x[0], n);
      if (q != (ssize_t)sz || !gen_is(id + k, x.data(), sz)) return fmt("message %zu of %zu, of %zu bytes, does not come back (%zd)", k, cap, sz, q);
    }
    if (!drop && shr_read(r, &x[0], n) != 0) return "the ring is not empty";
  }
  struct timeval tv = {5, 5};
  if (shr_stat(r, &st, g.p(30) ? &tv : NULL)) return "statistics cannot be had";
  if (g.p(80)) { shr_close(w); shr_close(r); }
  return "";
}
static void run_case(u64 k) {
  fs = A.dir + "/fs"; rp = fs + "/ring";
  size_t F = PG * G.range(10, G.p(70) ? 300 : 3000);
  if (limited) { if (!mnt(F)) harness_error("mount"); junk_no = 0; }
  size_t pre = limited && G.p(60) ? G.below(F / 2) : 0;
  if (pre) { size_t a = G.below(pre); junk(a); junk(pre - a); }
  size_t free0 = limited ? freeb() : F;
  fl = G.pick<unsigned>({0, 0, SHR_DROP, SHR_FARM, SHR_SYNC, SHR_MLOCK, SHR_SYNC | SHR_DROP, SHR_KEEPEXIST, SHR_FARM | SHR_MLOCK});
  if (!can_lock) fl &= ~SHR_MLOCK;
  A1 = G.p(50); M1 = G.p(60); mm = al = 0;
  /* a size near the free space, divided among the parts */
  size_t want, over = 20 * PG;
  int kind = G.below(10);
  if (kind < 4) want = G.range(free0 / 8, free0); else if (kind < 8) want = free0 + G.pick<size_t>({0, PG, 2 * PG, PG / 2, 1}) * (G.p(50) ? 1 : -1) ; else want = free0 + G.below(F);
  if (want < 3 * PG) want = 3 * PG;
  int share = G.below(4); size_t rest = want > 5 * PG ? want - (G.p(50) ? 0 : PG) : want;
  if (A1) { al = share == 0 ? rest - PG * 2 : G.range(1, std::min<size_t>(rest / 2, G.p(50) ? 200 : rest)); rest -= al; if (rest > want) rest = PG; }
  n = share == 1 ? std::max<size_t>(1, rest / 20) : std::max<size_t>(1, rest);
  if (M1) { mm = std::max<size_t>(1, (share == 1 ? rest - n : G.range(0, rest / 3)) / 56); if (share != 1) n = std::max<size_t>(1, rest - std::min(rest - 1, mm * 56)); }
  else n = std::max<size_t>(1, rest * 2 / 3);
  if (G.p(4)) { n = G.pick<size_t>({(size_t)1 << 34, (size_t)1 << 40, (size_t)1 << 45}) + G.below(99999); }
  if (A1) { fl |= SHR_APPDATA_1; app.resize(al); for (auto &c : app) c = G.next(); } else app.clear();
  if (M1) fl |= SHR_MAXMSGS_2;
  size_t need = 0; /* what the file takes, found out where there is room */
  bool huge = n > (1ul << 33);
  if (!huge) {
    std::string c = A.dir + "/cal", s = apart("the same creation where there is room", [&]() -> std::string { return init(c) ? "it failed" : ""; });
    if (s.size()) violation("init", s);
    struct stat st; if (stat(c.c_str(), &st)) harness_error("stat");
    need = pgup(st.st_size); unlink(c.c_str());
  } else if (!limited) return;
  bool tight = need + over > free0 || huge;
  int us = G.p(15) ? G.pick({100, 300, 2000}) : 0;
  casehdr = fmt("%zu bytes free, ring of %zu bytes, %zu messages%s, %zu app-data, flags %x: takes %zu%s", free0, n, mm, M1 ? "" : " (default)", al, fl, need, us ? ", with a timer" : "");
  logop("shr_init");
  int rc = -9;
  std::string s = apart("shr_init", [&]() -> std::string { int q = timed_init(rp, us); if (q == -1 && limited && freeb() != free0) return fmt("the creation failed, and %zd bytes of storage stay in use", (ssize_t)(free0 - freeb())); return q == 0 ? "ok" : q == -1 ? "failed" : fmt("shr_init returned %d", q); });
  logres("%s", s.c_str());
  if (s != "ok" && s != "failed") violation("init", s);
  count("inits"); distinct("inits", mix(mix(fl, (need > free0) * 2 + tight), mix(need / PG, free0 / PG)));
  struct stat st;
  bool ex = lstat(rp.c_str(), &st) == 0;
  if (s == "failed") {
    count("refused");
    if (ex) violation("left", "the creation failed and left a file");
    if (!huge && (!limited || need + over <= free0)) violation("refused", "the creation failed though there is room for the ring");
    if (limited && freeb() != free0) violation("left", fmt("the creation failed, and %zd bytes of storage stay in use", (ssize_t)(free0 - freeb())));
    if (limited) { n = 1; al = 0; A1 = false; M1 = true; mm = 1; fl = SHR_MAXMSGS_2; app.clear(); if (free0 >= over) { if (init(rp)) violation("refused", "after it, a small ring cannot be made"); unlink(rp.c_str()); } }
  } else {
    if (!ex) violation("init", "no file was made");
    if (need > free0 || huge) count("made_beyond_free");
    if (huge) violation("storage", "a ring was made that is larger than the file system");
    count("made");
    if (!limited && (size_t)st.st_blocks * 512 < (size_t)st.st_size) violation("storage", fmt("the ring's file of %zu bytes has %zu bytes of storage", (size_t)st.st_size, (size_t)st.st_blocks * 512));
    size_t laps = G.range(1, 3);
    for (size_t q = 0; q < laps; q++) {
      if (limited && (q == 0 ? G.p(85) : G.p(60))) { junk(SIZE_MAX); if (freeb()) harness_error("still %zu bytes free", freeb()); logop("the rest of the file system is used up"); count("full_fs"); }
      u64 sd = G.next();
      std::string s = apart("use of the ring", [&]() { return use(sd); });
      logop("used"); logres("%s", s.c_str());
      if (s.size()) violation("storage", s);
      if (al) { /* the child set it */ shr *r = shr_open(rp.c_str(), SHR_RDONLY); void *a = NULL; size_t l = 0; if (!r || shr_appdata(r, &a, NULL, &l) || l != al) violation("appdata", "the application data cannot be had"); app.assign((char *)a, l); free(a); shr_close(r); }
      count("uses");
      if (G.p(50)) unjunk();
    }
    distinct("used", mix(mix(fl, need / PG), mix(n, st.st_size)));
    unlink(rp.c_str());
  }
  if (limited) { unjunk(); if (umount2(fs.c_str(), MNT_DETACH)) harness_error("umount"); }
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  fs = A.dir + "/fs"; mkdir(fs.c_str(), 0777);
  limited = A.mode != "blocks" && namespaces();
  if (!limited) count("without_limited_fs");
  void *t = mmap(0, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  can_lock = t != MAP_FAILED && mlock(t, 64 << 20) == 0;
  if (t != MAP_FAILED) munmap(t, 64 << 20);
  if (!can_lock) count("without_locked_rings");
  for (u64 k = A.from; k < A.to; k++) {
    begin_case(k);
    G = Rng(mix(mix(A.seed, k), 0xa110c));
    signal(SIGALRM, on_alarm); alarm(120);
    run_case(k);
    alarm(0);
    count("cases");
  }
  write_out(NULL, "", 0);
  return 0;
}
