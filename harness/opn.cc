/* Creating and opening. Modes:
 *  init  what shr_init makes of its arguments and of what is at the path
 *  fuzz  what shr_open makes of damaged, truncated and foreign files
 *  race  processes that create, replace, keep, open and use rings at one path */
#include "actors.h"
#include "shr.h"
#include "vi.h"
#include <climits>
#include <sys/resource.h>
static Rng G(1);
static std::string dir;
static std::string slurp(const std::string &p) {
  std::string o; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return o;
  struct stat st; fstat(fd, &st); o.resize(st.st_size); size_t k = 0;
  while (k < o.size()) { ssize_t n = read(fd, &o[k], o.size() - k); if (n <= 0) break; k += n; }
  close(fd); o.resize(k); return o;
}
static void spit(const std::string &p, const std::string &d) {
  unlink(p.c_str()); int fd = open(p.c_str(), O_RDWR | O_CREAT, 0600); if (fd < 0) harness_error("spit");
  size_t k = 0; while (k < d.size()) { ssize_t n = write(fd, &d[k], d.size() - k); if (n <= 0) harness_error("spit"); k += n; }
  close(fd);
}
static int maps_of(const std::string &p) {
  std::string m; char b[4096]; int fd = open("/proc/self/maps", O_RDONLY), n; while ((n = read(fd, b, sizeof b)) > 0) m.append(b, n); close(fd);
  int c = 0; size_t k = 0; while ((k = m.find(p, k)) != std::string::npos) c++, k++; return c;
}
static shr *lopen(const std::string &p, unsigned fl) { vi_inlib = 1; shr *s = shr_open(p.c_str(), fl); vi_inlib = 0; return s; }
/* a helper that says whether the file is locked by another process */
static std::string ppath;
static void probe(Chan *c) {
  int fd = open(ppath.c_str(), O_RDWR); c->r.r = 0;
  (void)fd;
  char *p = (char *)c->note; int f = open(p, O_RDWR);
  if (f >= 0) { struct flock l; memset(&l, 0, sizeof l); l.l_type = F_WRLCK; l.l_whence = SEEK_SET; c->r.r = fcntl(f, F_SETLK, &l) ? 1 : 0; close(f); }
  if (fd >= 0) close(fd);
}
static bool locked(const std::string &p) {
  if (actors.empty()) actor_start(0, probe, 0);
  strncpy((char *)actors[0].c->note, p.c_str(), 250);
  Cmd c = {1}; actor_send(actors[0], c);
  if (!actor_wait(actors[0], 10 * A.slow)) harness_error("probe");
  return actors[0].c->r.r;
}
struct Ident { ino_t i; off_t sz; struct timespec mt; bool ex; bool operator==(const Ident &o) const { return ex == o.ex && (!ex || (i == o.i && sz == o.sz && mt.tv_sec == o.mt.tv_sec && mt.tv_nsec == o.mt.tv_nsec)); } };
static Ident ident(const std::string &p) { struct stat st; Ident d; memset(&d, 0, sizeof d); if (lstat(p.c_str(), &st) == 0) { d.ex = true; d.i = st.st_ino; d.sz = st.st_size; d.mt = st.st_mtim; } return d; }

/* ---------------- init ---------------- */
struct Old { shr *r, *w; std::deque<std::string> q; size_t n, mm; }; /* handles on a ring that was at the path */
static std::string msg(size_t n) { std::string s(n, 0); gen(G.next(), &s[0], n); return s; }
static void use(Old &o, const char *when) {
  char b[70000];
  for (int k = G.range(1, 4); k > 0; k--) {
    if (G.p(60)) {
      std::string m = msg(G.range(1, std::min<size_t>(o.n, 3000))); size_t u = 0; for (auto &x : o.q) u += x.size();
      long want = u + m.size() <= o.n && o.q.size() < o.mm ? m.size() : 0, r = shr_write(o.w, &m[0], m.size());
      if (r != want) violation("old-disturbed", fmt("a write by a handle opened before returned %ld, not %ld, %s", r, want, when));
      if (r > 0) o.q.push_back(m);
    } else {
      long r = shr_read(o.r, b, sizeof b), want = o.q.empty() ? 0 : o.q.front().size();
      if (r != want || (r > 0 && memcmp(b, o.q.front().data(), r))) violation("old-disturbed", fmt("a read by a handle opened before returned %ld, not %ld%s, %s", r, want, r == want ? " (other bytes)" : "", when));
      if (r > 0) o.q.pop_front();
    }
    count("old_uses");
  }
  struct shr_stat st; if (shr_stat(o.r, &st, NULL) || st.mu != o.q.size()) violation("old-disturbed", fmt("a handle opened before sees %zu messages, not %zu, %s", st.mu, o.q.size(), when));
}
static std::vector<Old> olds;
static void close_olds() { for (auto &o : olds) { if (o.r) shr_close(o.r); if (o.w) shr_close(o.w); } olds.clear(); }
static void init_case(u64 k) {
  std::string d = dir + fmt("/in%llu", (unsigned long long)k); mkdir(d.c_str(), 0700);
  std::string p = d + "/ring";
  int fds0 = count_fds();
  bool ring_there = false; size_t cn = 0, cmm = 0;
  for (int s = 0, steps = G.range(4, 12); s < steps; s++) {
    for (auto &o : olds) use(o, "before a creation");
    /* what is at the path */
    int pre = G.below(10);
    const char *prew = "what was there";
    if (pre == 0) { unlink(p.c_str()); prew = "nothing"; }
    else if (pre == 1) { spit(p, G.p(30) ? std::string() : msg(G.range(1, 9000))); prew = "a foreign file"; ring_there = false; }
    else if (pre == 2) { unlink(p.c_str()); if (symlink(G.p(50) ? "target" : "nowhere/x", p.c_str())) {} prew = "a symbolic link"; }
    if (pre == 2) { unlink(p.c_str()); prew = "nothing"; }
    if (pre <= 2 && strcmp(prew, "nothing") == 0) ring_there = false;
    Ident id0 = ident(p); std::string c0 = id0.ex && id0.sz < 3000000 ? slurp(p) : ""; bool ex = id0.ex;
    int nfiles0 = 0; { DIR *dd = opendir(d.c_str()); while (readdir(dd)) nfiles0++; closedir(dd); }
    /* what is asked for */
    unsigned fl = 0; size_t n, mm = 0, al = 0; bool badflags = false, lim = false;
    int kind = G.below(12);
    n = G.p(40) ? G.range(1, 200) : G.p(60) ? G.range(200, 20000) : G.range(20000, 300000);
    if (G.p(25)) fl |= SHR_DROP; if (G.p(15)) fl |= SHR_FARM; if (G.p(10)) fl |= SHR_SYNC; if (G.p(10)) fl |= SHR_MLOCK; if (G.p(25)) fl |= SHR_KEEPEXIST;
    if (G.p(45)) { fl |= SHR_APPDATA_1; al = G.p(20) ? G.range(1, 8) : G.range(1, 5000); }
    if (G.p(45)) { fl |= SHR_MAXMSGS_2; mm = G.p(50) ? G.range(1, 50) : G.range(1, 3000); }
    bool zero = false, over = false, unallot = false;
    if (kind == 0) { zero = true; n = 0; }
    else if (kind == 1) { badflags = true; fl |= G.pick<unsigned>({SHR_RDONLY, SHR_WRONLY, SHR_NONBLOCK, SHR_BUFFERED, 1u << 12, 1u << 20, 1u << 31, SHR_POLLFD, 0x80001000u}); }
    else if (kind == 2) { /* the sum overflows */
      over = true; int w = G.below(3);
      if (w == 0) n = SIZE_MAX - G.below(5000); 
      else if (w == 1) { fl |= SHR_MAXMSGS_2; mm = G.p(50) ? SIZE_MAX - G.below(100) : SIZE_MAX / 16 + G.range(1, 100); if (G.p(30)) mm = (1ULL << 60) + G.below(300); }
      else { fl |= SHR_APPDATA_1; al = SIZE_MAX - G.below(9000); }
    }
    else if (kind == 3) { /* cannot be represented or allotted */
      int w = G.below(3); unallot = true; 
      if (w == 0) n = G.pick<size_t>({(size_t)SSIZE_MAX - 5000 - G.below(100000), (size_t)1 << 62, ((size_t)1 << 62) + 12345});
      else if (w == 1) { fl |= SHR_MAXMSGS_2; mm = ((size_t)1 << 58) + G.below(1000); }
      else { lim = true; n = G.range(70000, 300000); }
    }
    fl &= badflags || true ? ~0u : ~0u;
    std::string app = al && al < 100000 ? msg(al) : std::string("x");
    void *ap = &app[0];
    struct rlimit old, nw; 
    if (lim) { getrlimit(RLIMIT_FSIZE, &old); nw = old; nw.rlim_cur = G.range(100, 60000); setrlimit(RLIMIT_FSIZE, &nw); }
    mode_t um = G.pick<mode_t>({022, 022, 0, 027, 077, 002}); umask(um);
    int rc; bool A1 = fl & SHR_APPDATA_1, M1 = fl & SHR_MAXMSGS_2;
    if (A1 && M1) rc = shr_init((char *)p.c_str(), n, fl, ap, al, mm);
    else if (A1) rc = shr_init((char *)p.c_str(), n, fl, ap, al);
    else if (M1) rc = shr_init((char *)p.c_str(), n, fl, mm);
    else rc = shr_init((char *)p.c_str(), n, fl);
    umask(022);
    if (lim) setrlimit(RLIMIT_FSIZE, &old);
    std::string what = fmt("shr_init(%zu bytes, flags %x%s%s) over %s", n, fl, A1 ? fmt(", %zu app-data", al).c_str() : "", M1 ? fmt(", %zu messages", mm).c_str() : "", ex ? prew : "nothing");
    logop("%s%s: %d", what.c_str(), lim ? ", limited file size" : "", rc);
    count("inits"); distinct("inits", mix(mix(fl, kind), mix(ex * 8 + ring_there * 4 + (olds.size() > 0), std::min<size_t>(n, 300) % 17)));
    Ident id1 = ident(p);
    int nfiles1 = 0; { DIR *dd = opendir(d.c_str()); while (readdir(dd)) nfiles1++; closedir(dd); }
    bool keep = (fl & SHR_KEEPEXIST) && ex;
    bool bad = badflags || zero || (!keep && (over || unallot));
    if (bad && rc == 0) violation("init", what + " succeeded");
    if (!bad && rc != 0) violation("init", what + fmt(" returned %d", rc));
    if (rc && rc != -1) violation("init", what + fmt(" returned %d", rc));
    if (rc) {
      count("refused");
      if (badflags || zero || (over && ex)) { if (!(id1 == id0) || (ex && c0 != slurp(p))) violation("init-changed", what + " failed, and the file that was there changed"); }
      else if (id1.ex && !(ex && id1 == id0)) violation("init-partial", what + fmt(" failed, and left a file of %lld bytes", (long long)id1.sz));
      if (nfiles1 > nfiles0) violation("init-partial", what + " failed, and left a file");
      if (!id1.ex) ring_there = false;
    } else if (keep) {
      count("kept");
      if (!(id1 == id0) || c0 != slurp(p)) violation("keep-changed", what + " changed the file that was there");
      if (nfiles1 != nfiles0) violation("init-partial", what + " left another file");
    } else {
      count("made"); if (ex) count("replaced");
      struct stat sm; /* the owner may read and write it; others may not write, nor do what the umask denies */
      if (stat(p.c_str(), &sm) || !S_ISREG(sm.st_mode) || (sm.st_mode & 0600) != 0600 || (sm.st_mode & 07777 & (um | 0133))) violation("file-mode", what + fmt(" made a file of mode %o, umask %o", sm.st_mode & 07777, um));
      if (ex && id1.i == id0.i && ring_there && olds.size()) violation("not-replaced", what + " did not make another file");
      if (nfiles1 != nfiles0 + !ex) violation("init-partial", what + " left another file");
      ring_there = true; cn = n; cmm = mm;
      /* the ring is what was asked for */
      shr *r = shr_open(p.c_str(), SHR_RDONLY | SHR_NONBLOCK); if (!r) violation("init", what + " made a ring that cannot be opened");
      struct shr_stat st; memset(&st, 0, sizeof st);
      if (shr_stat(r, &st, NULL)) violation("init", "shr_stat of a new ring failed");
      unsigned want = fl & (SHR_DROP | SHR_FARM | SHR_SYNC | SHR_MLOCK), mask = want | (SHR_DROP | SHR_FARM | SHR_SYNC | SHR_MLOCK);
      if (fl & SHR_FARM) want |= SHR_DROP;
      if (st.bn != n || (M1 && st.mm != mm) || st.mm < 1) violation("init", what + fmt(" made a ring of %zu bytes, %zu messages", st.bn, st.mm));
      if ((st.flags & mask) != want) violation("init", what + fmt(" made a ring with flags %x", st.flags));
      if (st.bu || st.mu || st.bw || st.br || st.mw || st.mr || st.md || st.bd) violation("init", what + " made a ring that is not empty, or has counters");
      cmm = st.mm;
      void *g = NULL; size_t gz = 0; int ga = shr_appdata(r, &g, NULL, &gz);
      if (A1 ? ga || gz != al || memcmp(g, app.data(), al) : ga == 0 && gz) violation("init", what + fmt(" made a ring with other app-data (%d, %zu bytes)", ga, gz));
      if (ga == 0) free(g);
      char b[16]; if (shr_read(r, b, sizeof b)) violation("init", "a new ring is not empty");
      shr_close(r);
      if (G.p(50) && !(fl & (SHR_DROP | SHR_FARM)) && olds.size() < 5) { /* some stay open on it */
        Old o; o.n = cn; o.mm = cmm; o.r = shr_open(p.c_str(), SHR_RDONLY | SHR_NONBLOCK); o.w = shr_open(p.c_str(), SHR_WRONLY | SHR_NONBLOCK);
        if (!o.r || !o.w) violation("init", "a new ring cannot be opened");
        use(o, "on a new ring"); olds.push_back(o);
      } else { /* it holds what it was made for: messages up to its bytes */
        shr *w = shr_open(p.c_str(), SHR_WRONLY | SHR_NONBLOCK), *rd = shr_open(p.c_str(), SHR_RDONLY | SHR_NONBLOCK);
        if (!w || !rd) violation("init", "a new ring cannot be opened");
        std::string m = msg(n);
        if (shr_write(w, &m[0], n) != (ssize_t)n) violation("init", what + " made a ring that does not take a message of its size");
        std::string x(n, 0); if (shr_read(rd, &x[0], n) != (ssize_t)n || x != m) violation("init", "a message of the ring's size does not come back");
        if (M1 && mm <= n && mm <= 3000) { size_t c = 0; while (shr_write(w, &m[0], 1) == 1 && c < mm + 2 && !(fl & (SHR_DROP | SHR_FARM))) c++; if (!(fl & (SHR_DROP | SHR_FARM)) && c != mm) violation("init", what + fmt(" made a ring that takes %zu messages", c)); }
        shr_close(w); shr_close(rd);
      }
    }
    for (auto &o : olds) use(o, fmt("after %s", what.c_str()).c_str());
    if (count_fds() != fds0 + 4 * 0 && olds.empty()) violation("leak", what + fmt(" left %d descriptors", count_fds() - fds0));
    if (G.p(15)) close_olds();
  }
  close_olds();
  unlink(p.c_str()); unlink((d + "/target").c_str()); rmdir(d.c_str());
}
/* ---------------- fuzz ---------------- */
/* where in the file the library keeps what: found by comparing the file with what is known of the ring */
struct Known { u64 n, mm, u, m, i, r, mp, e, app, mv; };
static const char *fname[] = {"ring size", "message limit", "bytes used", "messages unread", "write position", "read slot", "messages present", "eldest slot", "app-data size", "message table size"};
static void fuzz_case(u64 k) {
  std::string p = dir + fmt("/fz%llu", (unsigned long long)k), q = p + "x";
  size_t n = G.p(50) ? G.range(17, 300) : G.range(300, 20000), mm = G.range(5, G.p(50) ? 20 : 300), al = G.p(60) ? G.range(1, 900) : 0;
  if (al == n) n++;
  while (mm == n || al == mm) mm++;
  unsigned fl = G.p(70) ? 0 : SHR_DROP; if (G.p(10)) fl |= SHR_FARM;
  std::string app = msg(al ? al : 1);
  if (al ? shr_init((char *)p.c_str(), n, fl | SHR_APPDATA_1 | SHR_MAXMSGS_2, (void *)app.data(), al, mm) : shr_init((char *)p.c_str(), n, fl | SHR_MAXMSGS_2, mm)) harness_error("init");
  casehdr = fmt("a ring of %zu bytes, %zu messages, %zu app-data, flags %x", n, mm, al, fl); logop("%s", casehdr.c_str());
  const std::string fresh = slurp(p); std::string drained;
  size_t fsz = fresh.size(), hdr = fsz; /* the header is what precedes data; take the first part of the file */
  Known K = {n, mm, 0, 0, 0, 0, 0, 0, al, mm * 16};
  std::deque<u64> un, pres; u64 presb = 0; /* lengths: unread; present */
  shr *w = shr_open(p.c_str(), SHR_WRONLY | SHR_NONBLOCK), *r = shr_open(p.c_str(), SHR_RDONLY | SHR_NONBLOCK);
  if (!w || !r) violation("open", "a sound ring cannot be opened");
  std::set<size_t> cand[10]; for (auto &c : cand) for (size_t o = 0; o + 8 <= fsz && o < 4000; o += 4) c.insert(o);
  auto snap = [&]() {
    std::string f = slurp(p);
    u64 v[10] = {K.n, K.mm, K.u, K.m, K.i, K.r, K.mp, K.e, K.app, K.mv};
    for (int j = 0; j < 10; j++) for (auto it = cand[j].begin(); it != cand[j].end();) { u64 x; memcpy(&x, &f[*it], 8); if (x != v[j]) it = cand[j].erase(it); else ++it; }
  };
  char b[30000];
  for (int s = G.range(30, 80); s > 0 && !(fl & SHR_FARM); s--) {
    if (G.p(60)) {
      std::string m = msg(G.range(1, std::max<size_t>(1, n / 3)));
      long x = shr_write(w, &m[0], m.size());
      if (x > 0) {
        while (K.u + m.size() > n || K.m + 1 > mm) { K.u -= un.front(); un.pop_front(); K.m--; K.r = (K.r + 1) % mm; } /* dropped */
        while (presb + m.size() > n || pres.size() + 1 > mm) { presb -= pres.front(); pres.pop_front(); K.e = (K.e + 1) % mm; }
        pres.push_back(m.size()); presb += m.size(); un.push_back(m.size()); K.u += m.size(); K.m++; K.mp = pres.size(); K.i = (K.i + m.size()) % n;
      }
    } else if (shr_read(r, b, sizeof b) > 0) { K.u -= un.front(); un.pop_front(); K.m--; K.r = (K.r + 1) % mm; }
    if (s % 3 == 0) snap();
  }
  snap();
  shr_close(w); shr_close(r);
  std::string good = slurp(p);
  if (!(fl & SHR_FARM)) { r = shr_open(p.c_str(), SHR_RDONLY | SHR_NONBLOCK); if (!r) violation("open", "a sound ring cannot be opened"); while (shr_read(r, b, sizeof b) > 0) {} shr_close(r); drained = slurp(p); }
  /* signature: bytes that are there in every ring, whatever its sizes and state */
  static std::string common; static std::vector<bool> same; static int nsame;
  std::string h0 = good.substr(0, 400);
  if (common.empty()) { common = h0; same.assign(400, true); }
  for (size_t o = 0; o < 400 && o < h0.size(); o++) if (h0[o] != common[o] || !h0[o]) same[o] = false;
  nsame++;
  int fld[10]; for (int j = 0; j < 10; j++) { fld[j] = cand[j].size() == 1 && !(fl & SHR_FARM) ? (int)*cand[j].begin() : -1; if (fld[j] >= 0) { count("fields_found"); distinct("fields", j); hdr = std::min<size_t>(hdr, 4000); } }
  int fds0 = count_fds();
  auto attempt = [&](const std::string &f, unsigned ofl, bool mustfail, const std::string &why, bool missing = false) {
    if (missing) unlink(q.c_str()); else spit(q, f);
    Ident i0 = ident(q);
    shr *s = lopen(q, ofl);
    logop("open(%x) of %s: %s", ofl, why.c_str(), s ? "ok" : "NULL");
    count("opens"); distinct("damages", mix(std::hash<std::string>()(why), ofl));
    if (s && mustfail) violation("opened", fmt("shr_open with flags %x succeeded: %s", ofl, why.c_str()));
    if (s) { count("opened"); vi_inlib = 1; shr_close(s); vi_inlib = 0; }
    else {
      count("refused");
      if (!missing && mustfail && slurp(q) != f) violation("changed", fmt("a failing shr_open changed the file: %s", why.c_str()));
      if (missing && ident(q).ex) violation("changed", "a failing shr_open made a file");
    }
    if (vi_lock_held() || (!missing && locked(q))) violation("lock-kept", fmt("shr_open of %s kept the lock%s", why.c_str(), s ? " until after shr_close" : ""));
    if (count_fds() != fds0 + (actors.size() ? 1 : 0)) violation("leak", fmt("shr_open of %s kept %d descriptors", why.c_str(), count_fds() - fds0));
    if (maps_of(q)) violation("leak", fmt("shr_open of %s kept a mapping", why.c_str()));
    (void)i0;
  };
  locked(p); fds0 = count_fds() - (actors.size() ? 1 : 0);
  auto rw = [&]() -> unsigned { return (G.p(50) ? SHR_RDONLY : SHR_WRONLY) | (G.p(50) ? SHR_NONBLOCK : 0) | (G.p(20) ? SHR_BUFFERED : 0); };
  attempt(good, SHR_RDONLY | SHR_NONBLOCK, false, "the undamaged ring");
  { spit(q, good); shr *s = lopen(q, rw()); if (!s) violation("open", "a copy of a sound ring cannot be opened"); shr_close(s); }
  /* modes */
  for (int j = 0; j < 3; j++) { unsigned f = G.pick<unsigned>({0, SHR_RDONLY | SHR_WRONLY, SHR_NONBLOCK, SHR_BUFFERED, SHR_RDONLY | SHR_WRONLY | SHR_NONBLOCK}); attempt(good, f, true, "a sound ring, with neither or both modes"); }
  for (int j = 0; j < 3; j++) attempt(good, rw() | 1u << G.below(12), true, "a sound ring, with creation flags");
  attempt(good, rw(), true, "a missing file", true);
  attempt("", rw(), true, "an empty file");
  for (int j = 0; j < 6; j++) attempt(good.substr(0, G.p(40) ? fsz - 1 - G.below(std::min<size_t>(fsz - 1, 40)) : G.below(fsz)), rw(), true, "a truncated ring");
  for (int j = 0; j < 3; j++) { /* longer than needed: sound all the same */
    const std::string &f = j == 0 ? fresh : j == 1 && drained.size() ? drained : good;
    size_t by = G.p(50) ? G.range(1, 100) : G.range(1, G.p(20) ? 3000000 : 8000); std::string t(by, 0);
    if (G.p(50)) t = msg(by);
    spit(q, f + t); shr *s = lopen(q, rw());
    if (!s) violation("open", fmt("a sound ring in a file longer by %zu bytes cannot be opened", by));
    shr_close(s); count("lengthened_opened");
    attempt(f + t, rw(), false, "a ring with trailing bytes");
  }
  for (int j = 0; j < 4; j++) { std::string f = msg(G.range(1, 20000)); if (G.p(30)) f.assign(f.size(), 0); attempt(f, rw(), true, "a foreign file"); }
  if (nsame >= 4) { int got = 0; for (size_t o = 0; o < 8 && same[o]; o++) { got++; if (G.p(60)) { std::string f = good; f[o] ^= G.p(50) ? 1 << G.below(8) : G.range(1, 255); attempt(f, rw(), true, "a ring with a damaged signature"); count("signature_damages"); } } if (got) distinct("signature_bytes", got); }
  auto put = [&](std::string &f, int o, u64 v) { memcpy(&f[o], &v, 8); };
  u64 rest = fsz - n; /* bytes of the file besides the data */
  for (int j = 0; j < 10; j++) if (fld[j] >= 0) {
    std::vector<u64> vs;
    switch (j) {
      case 0: vs = {n + 1 + G.below(8), fsz, fsz + 1, SIZE_MAX, SIZE_MAX - rest, SIZE_MAX - rest + G.below(3), (u64)1 << 63, SIZE_MAX - fsz + n, n + ((u64)1 << 32), 0}; break;
      case 1: vs = {mm + 1, mm + G.range(1, 1000), SIZE_MAX, (u64)1 << 60, mm + ((u64)1 << 60), mm + ((u64)1 << 32)}; break;
      case 2: vs = {n + 1, n + G.range(1, 100000), SIZE_MAX, (u64)1 << 63, K.u + ((u64)1 << 32) > n ? K.u + ((u64)1 << 32) : n + 1}; break;
      case 3: vs = {mm + 1, K.mp + 1, SIZE_MAX, (u64)1 << 63, K.m + ((u64)1 << 32)}; break;
      case 4: vs = {n, n + 1, n + G.range(1, 100000), SIZE_MAX, K.i + ((u64)1 << 32)}; break;
      case 5: vs = {mm, mm + 1, mm + G.range(1, 1000), SIZE_MAX, K.r + ((u64)1 << 32)}; break;
      case 6: vs = {mm + 1, mm + G.range(1, 1000), SIZE_MAX, K.mp + ((u64)1 << 32)}; if (K.m) vs.push_back(K.m - 1); break;
      case 7: vs = {mm, mm + 1, mm + G.range(1, 1000), SIZE_MAX, K.e + ((u64)1 << 32)}; break;
      case 8: vs = {al + 1 + G.below(8), fsz, SIZE_MAX, (u64)1 << 63, al + ((u64)1 << 32)}; break;
      case 9: vs = {mm * 16 + 16, fsz, SIZE_MAX, (u64)1 << 63, mm * 16 + ((u64)1 << 32), SIZE_MAX - fsz + mm * 16 + 1}; break;
    }
    for (u64 v : vs) if (G.p(60)) { std::string f = good; put(f, fld[j], v); attempt(f, rw(), true, fmt("a ring of %zu bytes, %zu messages with %s %llu", n, mm, fname[j], (unsigned long long)v)); count("field_damages"); }
    /* the same on a ring never used, and on one all of whose messages were read */
    for (u64 v : vs) if (!(j == 6 && K.m && v == K.m - 1)) {
      bool nw = G.p(50);
      if (G.p(70)) continue;
      std::string f = nw ? fresh : drained; put(f, fld[j], v); attempt(f, rw(), true, fmt("%s ring of %zu bytes, %zu messages with %s %llu", nw ? "a new" : "an emptied", n, mm, fname[j], (unsigned long long)v)); count("field_damages_empty");
    }
  }
  /* several sizes that agree with one another by wrapping around */
  if (fld[0] >= 0 && fld[9] >= 0 && fld[1] >= 0) for (int j = 0; j < 4; j++) {
    std::string f = good; u64 s2 = G.range(1, (u64)1 << 40) * 16; put(f, fld[1], (K.mv + s2) / 16); put(f, fld[9], K.mv + s2); put(f, fld[0], n - s2);
    if (fld[8] >= 0 && G.p(50)) { f = good; put(f, fld[8], al - s2); put(f, fld[0], n + s2); }
    attempt(f, rw(), true, "a ring with sizes whose sum wraps around"); count("field_damages");
  }
  /* anything anywhere: must not crash, or keep anything */
  for (int j = 0; j < 25; j++) {
    std::string f = G.p(20) ? fresh : drained.size() && G.p(20) ? drained : good;
    for (int c = G.range(1, 4); c > 0; c--) {
      size_t o = G.below(std::min<size_t>(fsz - 8, G.p(50) ? 300 : 3000)) & ~(size_t)(G.p(80) ? 7 : 3);
      u64 v = G.pick<u64>({0, 1, n, n - 1, mm, mm - 1, fsz, SIZE_MAX, (u64)1 << 31, (u64)1 << 32, (u64)1 << 63, G.next(), G.next() & 0xffffffff, G.next() & 0xffff});
      put(f, o, v);
    }
    attempt(f, rw() & ~SHR_BUFFERED, false, "a ring with words overwritten");
  }
  unlink(p.c_str()); unlink(q.c_str());
}
/* ---------------- race ---------------- */
enum { R_GO = 1 };
static std::string rpath; static volatile int *stopflag;
struct AppD { u64 magic, id, n, mm, flags, sum; };
static Rng GD(1);
static int delay_pct;
static void delayed(int) { if ((int)GD.below(100) < delay_pct) { if (GD.p(60)) sched_yield(); else usleep(GD.below(GD.p(90) ? 60 : 700)); } }
[[noreturn]] static void bad(Chan *c, const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(c->why, sizeof c->why, f, ap); va_end(ap); _exit(10); }
struct RH { shr *r, *w; u64 id, n, mm; unsigned flags; u64 wseq, uses; };
static u64 asum(const AppD &a) { return mix(mix(a.magic, a.id), mix(mix(a.n, a.mm), a.flags)); }
/* kinds of process: creator, keeper, user */
static void racer(Chan *c) {
  Cmd m = c->c; Rng g(m.y); GD = Rng(m.y + 1); delay_pct = m.c; vi_delay = delayed;
  u64 made = 0, kept = 0, failed = 0, opens = 0, nulls = 0, uses = 0, olduses = 0;
  std::vector<RH> H; u64 me = m.x; std::set<u64> seen;
  char b[20000];
  double t0 = now();
  while (!*stopflag && now() - t0 < 20 * A.slow) {
    if (m.a == 0 || m.a == 1) { /* creates (1: with keep-exist) */
      size_t n = g.range(200, 4000), mm = g.range(20, 200); unsigned fl = g.p(20) ? SHR_SYNC : 0; 
      std::vector<char> app(sizeof(AppD) + g.below(3000), 'a');
      AppD a = {0xfeedfacecafebeefULL, me * 1000000 + ++made, n, mm, fl}; a.sum = asum(a);
      memcpy(app.data(), &a, sizeof a); 
      for (size_t k = sizeof a; k < app.size(); k++) app[k] = (char)(a.id * 31 + k);
      vi_inlib = 1; int rc = shr_init((char *)rpath.c_str(), n, fl | SHR_APPDATA_1 | SHR_MAXMSGS_2 | (m.a == 1 ? SHR_KEEPEXIST : 0), (void *)app.data(), app.size(), mm); vi_inlib = 0;
      if (rc) failed++; else kept++;
      if (g.p(30)) usleep(g.below(m.a == 1 ? 300 : 1500));
    } else {
      if (H.size() < 4 && g.p(40)) {
        RH h; memset(&h, 0, sizeof h);
        bool rd = g.p(50);
        vi_inlib = 1; shr *s = shr_open(rpath.c_str(), (rd ? SHR_RDONLY : SHR_WRONLY) | SHR_NONBLOCK); vi_inlib = 0;
        opens++;
        if (!s) { nulls++; if (g.p(50)) usleep(g.below(100)); continue; }
        struct shr_stat st; void *p = NULL; size_t z = 0;
        if (shr_stat(s, &st, NULL)) bad(c, "shr_stat on an opened ring failed");
        if (shr_appdata(s, &p, NULL, &z) || z < sizeof(AppD)) bad(c, "an opened ring has no app-data; all were created with some");
        AppD a; memcpy(&a, p, sizeof a);
        if (a.magic != 0xfeedfacecafebeefULL || a.sum != asum(a)) bad(c, "an opened ring has incomplete app-data");
        for (size_t k = sizeof a; k < z; k++) if (((char *)p)[k] != (char)(a.id * 31 + k)) bad(c, "an opened ring has incomplete app-data");
        free(p);
        if (st.bn != a.n || st.mm != a.mm || (st.flags & SHR_SYNC) != (a.flags & SHR_SYNC)) bad(c, "an opened ring has %zu bytes, %zu messages, flags %x; created with %llu, %llu, %llx", st.bn, st.mm, st.flags, (unsigned long long)a.n, (unsigned long long)a.mm, (unsigned long long)a.flags);
        h.id = a.id; h.n = a.n; h.mm = a.mm; if (rd) h.r = s; else h.w = s; H.push_back(h); seen.insert(a.id);
      } else if (H.size()) {
        RH &h = H[g.below(H.size())];
        if (h.w) { /* messages say which ring they were written to */
          u64 v[3] = {h.id, me, ++h.wseq}; size_t l = 24 + g.below(150); memcpy(b, v, 24); for (size_t k = 24; k < l; k++) b[k] = (char)(h.id + me + h.wseq + k);
          vi_inlib = 1; long r = shr_write(h.w, b, l); vi_inlib = 0;
          if (r != (long)l && r != 0) bad(c, "a write to a ring returned %ld", r);
          if (r == 0) h.wseq--;
        } else {
          vi_inlib = 1; long r = shr_read(h.r, b, sizeof b); vi_inlib = 0;
          if (r < 0) bad(c, "a read from a ring returned %ld", r);
          if (r > 0) { u64 v[3]; if (r < 24) bad(c, "a read returned a message nobody wrote, of %ld bytes", r); memcpy(v, b, 24);
            if (v[0] != h.id) bad(c, "a reader of ring %llu got a message written to ring %llu", (unsigned long long)h.id, (unsigned long long)v[0]);
            for (long k = 24; k < r; k++) if (b[k] != (char)(v[0] + v[1] + v[2] + k)) bad(c, "a read returned a message nobody wrote"); }
        }
        h.uses++; uses++; if (h.uses > 5) olduses++;
        struct shr_stat st; if (g.p(10)) { if (shr_stat(h.r ? h.r : h.w, &st, NULL) || st.bn != h.n || st.mm != h.mm) bad(c, "a ring has %zu bytes, %zu messages; it had %llu, %llu when opened", st.bn, st.mm, (unsigned long long)h.n, (unsigned long long)h.mm); }
        if (g.p(3)) { vi_inlib = 1; shr_close(h.r ? h.r : h.w); vi_inlib = 0; H.erase(H.begin() + (&h - &H[0])); }
      }
      if (g.p(5)) usleep(g.below(300));
    }
  }
  for (auto &h : H) shr_close(h.r ? h.r : h.w);
  c->r.r = m.a < 2 ? kept : opens; c->r.r2 = m.a < 2 ? failed : nulls; c->r.r3 = uses; c->r.x = m.a < 2 ? olduses : seen.size();
}
/* one writer and one reader of an existing ring, while others create with keep-exist: nothing is lost */
static void steady(Chan *c) {
  Cmd m = c->c; Rng g(m.y); GD = Rng(m.y + 1); delay_pct = m.c; vi_delay = delayed;
  if (m.a < 2) { racer(c); return; }
  shr *s = shr_open(rpath.c_str(), m.a == 2 ? SHR_WRONLY : SHR_RDONLY); if (!s) bad(c, "an existing ring cannot be opened");
  char b[300]; u64 k = 0, N = m.x;
  for (; k < N; k++) {
    size_t l = 8 + (k * 7) % 200;
    if (m.a == 2) { gen(k + 5, b, l); memcpy(b, &k, 8); vi_inlib = 1; long r = shr_write(s, b, l); vi_inlib = 0; if (r != (long)l) bad(c, "a blocking write returned %ld", r); }
    else { vi_inlib = 1; long r = shr_read(s, b, sizeof b); vi_inlib = 0; char x[300]; gen(k + 5, x, l); memcpy(x, &k, 8); if (r != (long)l || memcmp(x, b, l)) bad(c, "message %llu of %zu bytes was read as %ld bytes%s", (unsigned long long)k, l, r, r == (long)l ? " (others)" : ""); }
  }
  shr_close(s); c->r.r = k; c->r.r2 = 0; c->r.r3 = k;
}
static void race_case(u64 k) {
  rpath = dir + fmt("/rc%llu", (unsigned long long)k); unlink(rpath.c_str());
  if (!stopflag) stopflag = (volatile int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *stopflag = 0;
  bool st = G.p(25); int np = G.range(3, 7), dl = G.pick({0, 5, 20, 50});
  casehdr = fmt("%s: %d processes, delays %d%%", st ? "steady use" : "race", np, dl); logop("%s", casehdr.c_str());
  std::vector<int> kind;
  if (st) {
    AppD a = {0xfeedfacecafebeefULL, 7, 800, 30, 0}; a.sum = asum(a);
    if (shr_init((char *)rpath.c_str(), 800, SHR_APPDATA_1 | SHR_MAXMSGS_2, (void *)&a, sizeof a, (size_t)30)) harness_error("init");
    kind = {2, 3}; for (int j = 2; j < np; j++) kind.push_back(1);
  } else {
    kind = {0, 2}; for (int j = 2; j < np; j++) kind.push_back(G.p(35) ? 0 : G.p(20) ? 1 : 2);
  }
  for (int j = 0; j < np; j++) { actor_start(j, st ? steady : racer, 0); Cmd c = {R_GO, 0, kind[j], 0, dl}; c.y = G.next(); c.x = st ? 1500 : j + 1; actor_send(actors.back(), c); }
  double t0 = now(), dur = (st ? 8.0 : 0.05 + G.below(250) * 0.001) * A.slow; int kills = 0;
  auto look = [&]() {
    for (size_t j = 0; j < actors.size(); j++) { Actor &a = actors[j]; int s2; if (a.alive && !actor_done(a) && waitpid(a.pid, &s2, WNOHANG) == a.pid) {
      a.alive = false; a.reaped = true; 
      if (WIFEXITED(s2) && WEXITSTATUS(s2) == 10) violation("race", a.c->why);
      violation("crash", fmt("a process of kind %d ended with status %x", (int)a.c->c.a, s2)); } }
  };
  while (now() - t0 < dur) {
    look();
    bool users_done = st; if (st) for (int j = 0; j < 2; j++) if (!actor_done(actors[j])) users_done = false;
    if (users_done) break;
    if (!st && actors.size() < 24 && G.p(10)) { /* kill a creator or a user, and start another */
      int j = G.below(actors.size()); Actor &a = actors[j];
      if (a.alive) { int kd = a.c->c.a; u64 nid = actors.size() + 1; actor_kill(a, true); if (a.c->why[0]) violation("race", a.c->why); kills++;
        actor_start(actors.size(), racer, 0); Cmd c = {R_GO, 0, kd, 0, dl}; c.y = G.next(); c.x = nid; actor_send(actors.back(), c); }
    }
    usleep(G.below(6000));
  }
  if (st) for (int j = 0; j < 2; j++) { double t1 = now(); while (!actor_done(actors[j])) { look(); if (now() - t1 > 25 * A.slow) violation("stuck", "a user of an existing ring makes no progress while others create with keep-exist"); usleep(1000); } }
  *stopflag = 1;
  u64 uses = 0;
  for (size_t j = 0; j < actors.size(); j++) { Actor &a = actors[j]; if (!a.alive) continue;
    double t1 = now(); while (!actor_done(a)) { look(); if (now() - t1 > 15 * A.slow) violation("stuck", fmt("a process of kind %d does not return from the library", (int)a.c->c.a)); usleep(200); }
    int kd = a.c->c.a;
    if (kd == 0) count("creations", a.c->r.r), count("creations_lost", a.c->r.r2);
    else if (kd == 1) count("keeps", a.c->r.r), count("keeps_lost", a.c->r.r2);
    else if (!st) { count("opens", a.c->r.r); count("nulls", a.c->r.r2); count("uses", a.c->r.r3); count("rings_seen", a.c->r.x); uses += a.c->r.r3; distinct("mixes", mix(mix(a.c->r.x, a.c->r.r2), np * 100 + dl)); }
    else count("steady_messages", a.c->r.r);
  }
  count("kills", kills);
  actors_end(); unlink(rpath.c_str()); count(st ? "steady_cases" : "race_cases");
}
/* ---------------- perm: a user who may not, or not wholly, use what is there ---------------- */
static void perm_case(u64 k) {
  std::string d = dir + fmt("/pm%llu", (unsigned long long)k), p = d + "/ring"; mkdir(d.c_str(), 0700);
  if (chmod(dir.c_str(), 0711)) harness_error("chmod");
  size_t s = dir.rfind('/'); std::string up = dir.substr(0, s); if (up.find("shrv.") != std::string::npos && chmod(up.c_str(), 0711)) harness_error("chmod");
  size_t n = G.range(20, 5000); unsigned gf = G.pick<unsigned>({0, SHR_DROP, SHR_FARM, SHR_SYNC});
  bool ex = G.p(85);
  std::string m = msg(G.range(1, 20));
  if (ex) {
    if (shr_init((char *)p.c_str(), n, gf)) harness_error("init");
    shr *w = shr_open(p.c_str(), SHR_WRONLY | SHR_NONBLOCK); if (!w || shr_write(w, &m[0], m.size()) < 0) harness_error("write"); shr_close(w);
    if (chmod(p.c_str(), G.pick({0644, 0444, 0600, 0400, 0000, 0666, 0666, 0222, 0200, 0604, 0602, 0606}))) harness_error("chmod");
    if (G.p(25) && chown(p.c_str(), 65534, 65534)) harness_error("chown");
  }
  chmod(d.c_str(), G.pick({0755, 0755, 0777, 0711, 0700, 0744, 01777}));
  std::string c0 = ex ? slurp(p) : ""; Ident id0 = ident(p);
  unsigned fl = G.p(50) ? SHR_RDONLY : SHR_WRONLY; if (G.p(50)) fl |= SHR_NONBLOCK; if (fl & SHR_WRONLY && G.p(30)) fl |= SHR_BUFFERED;
  unsigned ifl = G.pick<unsigned>({0, SHR_KEEPEXIST, SHR_DROP}); size_t n2 = G.range(20, 5000); bool init = G.p(40); 
  struct stat st; memset(&st, 0, sizeof st); stat(p.c_str(), &st);
  casehdr = fmt("%s by user 65534, %s %o in a directory %s", init ? "shr_init" : "shr_open", ex ? "a ring of mode" : "nothing there", st.st_mode & 0777, d.c_str());
  logop("%s", casehdr.c_str());
  fflush(stdout);
  pid_t q = fork(); if (q < 0) harness_error("fork");
  if (q == 0) {
    if (setgroups(0, NULL) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) _exit(2);
    if (SP) SP->what[0] = 0;
    int f0 = count_fds(), mp0 = maps_of(p);
    bool may = access(p.c_str(), R_OK | W_OK) == 0, none = access(p.c_str(), R_OK) && access(p.c_str(), W_OK);
    if (init) { int rc = shr_init((char *)p.c_str(), n2, ifl); if (rc != 0 && rc != -1) violation("perm", fmt("%s returned %d", casehdr.c_str(), rc)); if (count_fds() != f0 || maps_of(p) != mp0) violation("perm-leak", casehdr + " left descriptors or mappings"); _exit(rc ? 3 : 0); }
    shr *s = shr_open(p.c_str(), fl);
    if (!s) { if (may && ex) violation("perm", casehdr + " failed though it may read and write it"); if (count_fds() != f0 || maps_of(p) != mp0) violation("perm-leak", casehdr + " failed and left descriptors or mappings"); _exit(3); }
    if (none) violation("perm", casehdr + " succeeded on what it may neither read nor write");
    struct shr_stat ss; if (shr_stat(s, &ss, NULL) || ss.bn != n || ss.mu != 1) violation("perm", casehdr + ": the ring it opened is another");
    if (fl & SHR_RDONLY) { char b[6000]; long r = shr_read(s, b, sizeof b), want = gf & SHR_FARM ? 0 : m.size(); if (!(gf & SHR_FARM) && (r != want || memcmp(b, m.data(), r))) violation("perm", casehdr + fmt(": a read returned %ld, not %ld", r, want)); }
    shr_close(s);
    if (count_fds() != f0 || maps_of(p) != mp0) violation("perm-leak", casehdr + " and close left descriptors or mappings");
    _exit(0);
  }
  int w; waitpid(q, &w, 0);
  if (WIFEXITED(w) && WEXITSTATUS(w) == 10) { std::string t = SP ? SP->what : "perm|"; size_t b = t.find('|'); violation(t.substr(0, b).c_str(), b == std::string::npos ? "" : t.substr(b + 1)); }
  if (!WIFEXITED(w)) violation("perm", casehdr + fmt(" ended the process with status %x", w));
  if (WEXITSTATUS(w) == 2) { count("cannot_change_user"); } else {
    bool failed = WEXITSTATUS(w) == 3; count(failed ? "perm_refused" : "perm_done"); distinct("perms", mix(mix(st.st_mode * 2 + ex, st.st_uid), mix(fl, init * 2 + failed)));
    Ident id1 = ident(p);
    if (failed && (!(id1 == id0) || (ex && slurp(p) != c0))) violation("perm-changed", casehdr + " failed, and changed what was there");
    if (init && !failed && !(ifl & SHR_KEEPEXIST && ex)) { shr *s = shr_open(p.c_str(), SHR_RDONLY | SHR_NONBLOCK); struct shr_stat ss; if (!s || shr_stat(s, &ss, NULL) || ss.bn != n2 || ss.mu) violation("perm", casehdr + " succeeded and the ring asked for is not there"); shr_close(s); }
    if (init && !failed && ifl & SHR_KEEPEXIST && ex && slurp(p) != c0) violation("perm-changed", casehdr + " was to keep the ring, and changed it");
  }
  unlink(p.c_str()); rmdir(d.c_str());
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  signal(SIGPIPE, SIG_IGN); signal(SIGALRM, on_alarm); signal(SIGXFSZ, SIG_IGN);
  actors_init(40); dir = A.dir;
  int null = open("/dev/null", O_WRONLY); if (!A.trace) dup2(null, 2);
  for (u64 k = A.from; k < A.to; k++) {
    alarm(120 * A.slow); G = Rng(mix(A.seed * 1000003 + 1234, k)); begin_case(k);
    if (A.mode == "fuzz") fuzz_case(k); else if (A.mode == "race") race_case(k); else if (A.mode == "perm") perm_case(k); else init_case(k);
    alarm(0); count("cases");
  }
  actors_end();
  write_out(NULL, "", 0);
  return 0;
}
