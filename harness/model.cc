/* One process, several handles on one ring: random histories of API calls run
 * in lockstep with a sequential model of the ring. Each kind of divergence has
 * a tag; a property's check reports the tags that refute it. */
#include "common.h"
#include "shr.h"
#include "vi.h"
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define ASAN 1
#else
#define ASAN 0
#endif

enum {
  T_CONTENT = 1, T_RDLOST = 2, T_RDRES = 4, T_CANARY = 8, T_WR = 16, T_STAT = 32, T_COUNT = 64, T_DROP = 128,
  T_POLL = 256, T_CACHE = 512, T_APP = 1024, T_FARM = 2048, T_OPEN = 4096, T_CLOBBER = 8192, T_LOCK = 1 << 14,
  T_SYNC = 1 << 15, T_RES = 1 << 16, T_FAULT = 1 << 17, T_GEOM = 1 << 18, T_REFUSE = 1 << 19
};
static const unsigned T_DATA = T_CONTENT | T_RDLOST | T_RDRES | T_WR | T_REFUSE;

struct Profile {
  const char *id;
  unsigned tags;
  int drop, farm, sync, buffered, app; /* percent */
  int reopen, faults, maxh;
  int wstat, wpoll, wapp, wflush, wbad;
};
static const Profile profiles[] = {
  /*       tags                                             dr   fa  sy  bu  ap  reo flt mh st po ap fl bad */
  {"C01", T_CONTENT | T_RDLOST,                              0,   0,  5, 15, 10,   8, 0, 5, 2, 0, 2, 6, 3},
  {"C03", T_WR | T_REFUSE | T_COUNT | T_CONTENT,             0,   0,  5,  0,  5,   3, 0, 4, 8, 0, 1, 0, 15},
  {"C04", T_RDRES | T_RDLOST | T_CONTENT | T_CANARY,         20, 20,  5,  5,  5,   3, 0, 4, 2, 0, 0, 3, 2},
  {"C05", T_DATA | T_COUNT | T_DROP,                       100,   0,  5, 10,  5,   3, 0, 5, 8, 0, 1, 4, 3},
  {"C06", T_DATA | T_COUNT | T_FARM | T_DROP,               50, 100,  5, 10,  5,   8, 0, 6, 4, 0, 1, 4, 2},
  {"C08", T_POLL,                                           15,  35,  0, 10,  0,   8, 0, 7, 1, 9, 0, 3, 3},
  {"C09", T_DATA | T_COUNT | T_CACHE,                       10,   5,  3,100,  5,   6, 0, 5, 8, 0, 1, 14, 6},
  {"C10", T_STAT | T_COUNT | T_DROP | T_GEOM,               30,  15, 10, 20, 10,   6, 0, 5,25, 0, 3, 5, 8},
  {"C11", T_APP | T_CONTENT | T_RDLOST | T_CANARY,          20,  15, 10, 10,100,   6, 0, 4, 3, 0,40, 3, 2},
  {"C16", T_RES,                                            20,  20, 10, 25, 30,  25, 0, 6, 8, 4, 6, 6, 6},
  {"C17", T_FAULT | T_DATA | T_COUNT | T_APP | T_FARM | T_LOCK, 15, 15, 5, 25, 25, 6,45, 5, 6, 0, 6, 8, 3},
  {"C19", T_LOCK,                                           20,  20, 15, 25, 30,  15,15, 5, 8, 1, 8, 8, 6},
  {"C20", T_SYNC,                                           25,  20, 75, 25, 40,  10, 0, 4, 8, 0,10, 8, 4},
  {"C21", T_CANARY | T_CLOBBER,                             25,  20, 10, 25, 40,  10,10, 6, 5, 5,10, 6,12},
  {"C28", T_DATA | T_COUNT | T_STAT | T_APP | T_FARM | T_GEOM | T_OPEN, 20, 20, 10, 15, 40, 40, 0, 5, 6, 0, 4, 5, 2},
};
static const Profile *P;
struct Foreign {};

static void bad(unsigned tag, const char *key, const char *f, ...) __attribute__((format(printf, 3, 4)));
static void bad(unsigned tag, const char *key, const char *f, ...) {
  char b[3000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (tag & P->tags) violation(key, b);
  count("foreign");
  S.samples.push_back(fmt("foreign divergence %s: %s (case %llu)", key, b, (unsigned long long)curcase));
  throw Foreign();
}

struct Msg { u64 id; size_t len; };
struct Handle {
  shr *s; bool rd, nb, buf; u64 q; size_t md; std::vector<Msg> cache; size_t cb; bool drained; int id; u64 qmay; /* farm: a failed read may have gone on to here */
};
struct Ring {
  std::string path;
  size_t n, mm; unsigned gf; bool drop, farm, sync;
  std::deque<Msg> pres; u64 qseq; /* unread; farm: present */
  size_t u, m;                    /* counted as unread */
  size_t woff;
  u64 bw, br, mw, mr, md, bd; struct timeval start;
  std::vector<char> app;
} R;
static std::vector<Handle *> H;
static Rng G(1);
static u64 nextid;
static int hseq;
static bool faulted; /* a failure was injected into the last call */
static char *ringimg; static size_t ringlen; static std::vector<char> pre, durable;
static int prob_rq[2] = {-1, -1}, prob_rs[2]; static pid_t prob_pid;
static std::vector<char> keep; /* read buffer */

/* ---- monitors around an API call ---- */
static void on_msync(void *a, size_t len, int locked) {
  char *base; size_t blen;
  count("msync_seen");
  if (!ringimg || !locked) return;
  if (!a) { durable.assign(ringimg, ringimg + ringlen); return; }
  if (!vi_map_of(a, &base, &blen)) return;
  size_t off = (char *)a - base;
  if (off > ringlen) return;
  if (len > ringlen - off) len = ringlen - off;
  memcpy(durable.data() + off, ringimg + off, len);
}
static void img_open() {
  if (!(P->tags & T_SYNC)) return;
  if (ringimg) munmap(ringimg, ringlen);
  int fd = open(R.path.c_str(), O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) harness_error("image");
  ringlen = st.st_size;
  ringimg = (char *)mmap(0, ringlen, PROT_READ, MAP_SHARED, fd, 0);
  close(fd);
  if (ringimg == MAP_FAILED) harness_error("image map");
  durable.assign(ringimg, ringimg + ringlen);
}
static void prober(int) {
  /* a separate process: does somebody hold a lock on the ring file? */
  for (;;) {
    char path[200];
    if (read(prob_rq[0], path, sizeof path) != sizeof path) _exit(0);
    int fd = open(path, O_RDWR);
    struct flock f; memset(&f, 0, sizeof f); f.l_type = F_WRLCK;
    char c = 'e';
    if (fd >= 0 && fcntl(fd, F_GETLK, &f) == 0) c = f.l_type == F_UNLCK ? 'u' : 'L';
    if (fd >= 0) close(fd);
    if (write(prob_rs[1], &c, 1) != 1) _exit(0);
  }
}
static void start_prober() {
  if (pipe(prob_rq) || pipe(prob_rs)) harness_error("pipe");
  prob_pid = fork();
  if (prob_pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(prob_rq[1]); prober(0); }
  close(prob_rq[0]); close(prob_rs[1]);
}
static char probe(const std::string &path) {
  char b[200] = {0}, c = 'e';
  strncpy(b, path.c_str(), sizeof b - 1);
  if (write(prob_rq[1], b, sizeof b) != sizeof b || read(prob_rs[0], &c, 1) != 1) harness_error("prober");
  count("lock_probes");
  return c;
}
static void pre_call() {
  vi_failed = 0; vi_ncall = 0; vi_failed_call = -1; faulted = false;
  vi_lock_viol = 0;
  if (ringimg) { pre.assign(ringimg, ringimg + ringlen); vi_nmsync = 0; }
}
static void post_call(const char *name, bool sync_point, bool failed) {
  count("calls");
  if (A.trace > 1) printf("      heap %ld fds %d\n", vi_heap_blocks, count_fds());
  vi_fail_at = 0;
  faulted = vi_failed > 0;
  if (faulted) { count("faults"); count(fmt("fault_%s", vi_name[vi_failed_call]).c_str());
    logres("[injected %s in %s #%lu x%d]", strerror(vi_failed_errno), vi_name[vi_failed_call], vi_ncall, vi_failed);
    distinct("fault_sites", mix(mix(std::hash<std::string>()(name), vi_failed_call), vi_failed_errno)); }
  if (P->tags & T_LOCK) {
    if (vi_lock_viol)
      bad(T_LOCK, "unlocked-write", "%s changed the ring at offset %zu without holding the lock", name, (size_t)vi_lock_viol_addr);
    if (vi_lock_held()) bad(T_LOCK, "lock-leak", "%s returned with the ring locked", name);
    if (prob_pid && probe(R.path) == 'L') bad(T_LOCK, "lock-leak", "%s returned with the ring locked (F_GETLK)", name);
  }
  if (ringimg && sync_point) {
    if (R.sync && !failed) {
      size_t k, ch = 0, un = 0, first = 0;
      for (k = 0; k < ringlen; k++) if (pre[k] != ringimg[k]) { ch++; if (durable[k] != ringimg[k]) { if (!un) first = k; un++; } }
      count("sync_checks"); if (ch) count("sync_checks_changed");
      if (un) bad(T_SYNC, "not-synced", "%s changed %zu bytes of the ring file, %zu of them (first at offset %zu) not covered by a later msync under the lock", name, ch, un, first);
    }
    if (!R.sync && vi_nmsync) bad(T_SYNC, "msync-unasked", "%s made %lu msync calls on a ring without the flag", name, vi_nmsync);
  }
}
template <class F> static auto api(const char *name, bool sync_point, F f) -> decltype(f()) {
  pre_call();
  vi_inlib = 1;
  auto r = f();
  vi_inlib = 0;
  post_call(name, sync_point, (long)r == -1);
  return r;
}
static void arm_fault(int maxk) {
  if (!P->faults || !G.p(P->faults)) return;
  vi_fail_at = G.p(60) ? G.range(1, 4) : G.range(1, maxk);
  vi_fail_more = G.p(70) ? 0 : G.range(1, 6);
  vi_fail_pick = G.below(8);
}

/* ---- model ---- */
static bool fits(size_t len, size_t niov) { return R.n - R.u >= len && R.mm - R.m >= niov; }
static void m_write(const std::vector<Msg> &v, size_t len) {
  size_t niov = v.size();
  if (R.drop) {
    size_t i = R.pres.size() - R.m; /* first unread (farm after a fault: maybe not 0) */
    size_t z = 0, k = 0;
    while (niov > R.mm - R.m + k || len > R.n - R.u + z) { z += R.pres[i + k].len; k++; }
    R.u -= z; R.m -= k; R.md += k; R.bd += z;
    if (k) { count("dropped", k); distinct("drop_shapes", mix(k, z)); }
    if (!R.farm) while (k--) { R.pres.pop_front(); R.qseq++; }
  }
  if (R.farm) {
    size_t tot = 0;
    for (auto &x : R.pres) tot += x.len;
    while (R.pres.size() && (len > R.n - tot || niov > R.mm - R.pres.size())) {
      tot -= R.pres.front().len; R.pres.pop_front(); R.qseq++;
    }
  }
  for (auto &x : v) R.pres.push_back(x);
  if (R.woff + len > R.n) count("wrapped_writes");
  R.woff = (R.woff + len) % R.n;
  R.u += len; R.m += niov; R.bw += len; R.mw += niov;
  for (auto h : H) h->drained = false;
}
/* index in R.pres of the handle's next message */
static size_t m_next(Handle *h) {
  if (!R.farm) return 0;
  return h->q < R.qseq ? 0 : h->q - R.qseq;
}
static bool m_ready(Handle *h) { return m_next(h) < R.pres.size(); }

static struct shr_stat get_stat(Handle *h) {
  struct shr_stat st; memset(&st, 0x5a, sizeof st);
  int rc = api("shr_stat", true, [&] { return shr_stat(h->s, &st, NULL); });
  if (rc) bad(T_STAT | T_OPEN, "stat-fails", "shr_stat returned %d", rc);
  return st;
}
#define EQ(tag, f, want) do { if ((u64)st.f != (u64)(want)) { u64 w_ = (want); \
  bad(tag, "stat-" #f, "shr_stat: " #f " is %llu, expected %llu", (unsigned long long)st.f, (unsigned long long)w_); } } while (0)
static void check_statv(Handle *h, const struct shr_stat &st) {
  count("stat_checks");
  EQ(T_STAT | T_GEOM, bn, R.n); EQ(T_STAT | T_GEOM, mm, R.mm);
  EQ(T_STAT | T_COUNT, bu, R.u); EQ(T_STAT | T_COUNT, mu, R.m);
  EQ(T_STAT, bw, R.bw); EQ(T_STAT, mw, R.mw); EQ(T_STAT, br, R.br); EQ(T_STAT, mr, R.mr);
  EQ(T_STAT | T_DROP, md, R.md); EQ(T_STAT | T_DROP, bd, R.bd);
  EQ(T_STAT, start.tv_sec, R.start.tv_sec); EQ(T_STAT, start.tv_usec, R.start.tv_usec);
  EQ(T_STAT | T_GEOM, flags, R.gf);
  EQ(T_CACHE, cm, h->cache.size()); EQ(T_CACHE, cb, h->cb);
  if (!h->buf) EQ(T_CACHE, cn, 0);
  else if (st.cn < st.cb || st.cn == 0) bad(T_CACHE, "stat-cn", "cache size %zu, in use %zu", st.cn, st.cb);
}
static Handle *any() { return H[G.below(H.size())]; }
static void check_stat() { if (H.size()) { Handle *h = any(); logop("h%d stat", h->id); check_statv(h, get_stat(h)); } }
static void op_stat_reset() {
  Handle *h = any();
  struct timeval tv = {(time_t)G.below(2000000000), (suseconds_t)G.below(1000000)};
  struct shr_stat st; memset(&st, 0x5a, sizeof st);
  logop("h%d stat reset", h->id);
  arm_fault(2);
  int rc = api("shr_stat", true, [&] { return shr_stat(h->s, &st, &tv); });
  if (rc && faulted) return;
  if (rc) bad(T_STAT, "stat-fails", "shr_stat (reset) returned %d", rc);
  check_statv(h, st);
  R.bw = R.br = R.mw = R.mr = R.md = R.bd = 0; R.start = tv;
  count("stat_resets");
}
static void check_poll() {
  if (!(P->tags & T_POLL)) return;
  for (auto h : H) {
    int fd = shr_get_selectable_fd(h->s);
    if (!h->rd || !h->nb) {
      if (fd != -1) bad(T_POLL, "fd-given", "a selectable descriptor (%d) is given for a handle that is not a non-blocking reader", fd);
      continue;
    }
    if (fd < 0) bad(T_POLL, "no-fd", "no selectable descriptor for a non-blocking reader");
    struct pollfd pf = {fd, POLLIN, 0};
    int rc = poll(&pf, 1, 0);
    bool rdy = rc == 1 && (pf.revents & POLLIN);
    count("poll_checks");
    if (m_ready(h)) {
      count("poll_checks_ready");
      if (!rdy) bad(T_POLL, "not-readable", "h%d: %zu messages await this reader, but its descriptor is not readable", h->id, R.pres.size() - m_next(h));
    } else if (h->drained) {
      count("poll_checks_drained");
      if (rdy) bad(T_POLL, "still-readable", "h%d: the reader found the ring exhausted, nothing was written since, but its descriptor is readable", h->id);
    }
  }
}

static void resync_after_fault(Handle *h, const struct shr_stat *sp = NULL) {
  /* a write that failed: nothing written; a drop ring may have discarded old messages */
  if (!R.drop) return;
  struct shr_stat st = sp ? *sp : get_stat(h);
  if (st.md < R.md || st.mu > R.m || st.md - R.md != R.m - st.mu) bad(T_FAULT, "fault-drop-count", "after a failed write: dropped %zu (was %llu), unread %zu (was %zu)", st.md, (unsigned long long)R.md, st.mu, R.m);
  size_t k = R.m - st.mu, z = 0, i = R.pres.size() - R.m;
  for (size_t j = 0; j < k; j++) z += R.pres[i + j].len;
  if (R.u - st.bu != z || st.bd - R.bd != z) bad(T_FAULT, "fault-drop-bytes", "after a failed write: %zu messages dropped of %zu bytes, but unread bytes fell by %zu", k, z, R.u - st.bu);
  R.u -= z; R.m -= k; R.md += k; R.bd += z;
  if (!R.farm) while (k--) { R.pres.pop_front(); R.qseq++; }
}

/* buffered handle: find out from the counters what went to the ring */
static void settle_cache(Handle *h, const std::vector<Msg> &nw, size_t nwlen, bool accepted, const char *what, bool failed = false) {
  struct shr_stat st = get_stat(h);
  std::vector<Msg> all = h->cache;
  size_t ocm = h->cache.size(), ocb = h->cb;
  if (accepted) all.insert(all.end(), nw.begin(), nw.end());
  if (st.mw < R.mw || st.mw - R.mw > all.size())
    bad(T_CACHE | T_WR, "buffered-count", "%s: %llu messages came into the ring, buffer held %zu and the call %zu", what, (unsigned long long)(st.mw - R.mw), ocm, nw.size());
  size_t moved = st.mw - R.mw;
  if (moved && moved != ocm && moved != ocm + (accepted ? nw.size() : 0))
    bad(T_CACHE | T_WR, "buffered-part", "%s: %zu messages came into the ring of %zu buffered + %zu new", what, moved, ocm, nw.size());
  std::vector<Msg> mv(all.begin(), all.begin() + moved);
  size_t len = 0;
  for (auto &x : mv) len += x.len;
  if (moved) {
    /* in one go or in two; the outcome is the same but each must fit */
    if (!R.drop && !fits(len, moved)) bad(T_WR | T_CACHE, "overcommit", "%s: %zu bytes, %zu messages accepted into a ring with %zu bytes, %zu places free", what, len, moved, R.n - R.u, R.mm - R.m);
    if (R.drop && moved == ocm + nw.size() && ocm && nw.size() && moved > ocm) {
      std::vector<Msg> a(mv.begin(), mv.begin() + ocm), b(mv.begin() + ocm, mv.end());
      m_write(a, ocb); m_write(b, nwlen);
    } else m_write(mv, len);
    count("flushes");
    distinct("flush_shapes", mix(len, moved));
  }
  h->cache.assign(all.begin() + moved, all.end());
  h->cb = 0;
  for (auto &x : h->cache) h->cb += x.len;
  if (failed) resync_after_fault(h, &st);
  check_statv(h, st);
}

static size_t pick_len() {
  size_t free = R.n - R.u, d = R.n - R.woff;
  long x;
  switch (G.below(16)) {
    case 0: x = 1; break;
    case 1: x = free; break;
    case 2: x = (long)free + 1; break;
    case 3: x = (long)free - 1; break;
    case 4: x = d; break;
    case 5: x = d + 1; break;
    case 6: x = (long)d - 1; break;
    case 7: x = R.n; break;
    case 8: x = G.range(1, R.n); break;
    case 9: x = G.range(1, free + 1); break;
    case 10: x = G.range(1, R.n / 2 + 1); break;
    case 11: x = R.pres.size() ? R.pres[0].len : 1; break;
    case 12: x = free / 2 + 1; break;
    default: x = G.range(1, std::max<size_t>(1, R.n / G.range(2, 30))); break;
  }
  if (x < 1) x = 1;
  return x;
}
static void op_write(Handle *h) {
  std::vector<size_t> lens;
  size_t niov = 1;
  bool huge = false;
  if (G.p(55)) {
    size_t fm = R.mm - R.m;
    switch (G.below(8)) {
      case 0: niov = fm; break;
      case 1: niov = fm + 1; break;
      case 2: niov = fm ? fm - 1 : 0; break;
      case 3: niov = G.p(30) ? R.mm : std::min<size_t>(R.mm, 40); break;
      case 4: niov = R.mm + 1; break;
      default: niov = G.range(1, 8); break;
    }
    if (niov > 300 && !G.p(h->buf ? 20 : 5)) niov = G.range(1, 300);
    if (niov > 14000) niov = 14000;
    if (niov == 0 && !G.p(30)) niov = 1;
  }
  size_t budget = pick_len();
  if (niov > 1) {
    /* split a total at random, or choose each */
    if (G.p(75)) {
      size_t left = std::max(budget, niov);
      for (size_t k = 0; k < niov; k++) {
        size_t rest = niov - k - 1, l = rest ? G.range(1, std::max<size_t>(1, (left - rest) * 2 / (rest + 1))) : left;
        if (l > left - rest) l = left - rest;
        if (l < 1) l = 1;
        lens.push_back(l); left -= l;
      }
    } else for (size_t k = 0; k < niov; k++) lens.push_back(G.range(1, std::max<size_t>(1, R.n / niov + 1)));
  } else if (niov == 1) lens.push_back(budget);
  if (P->wbad && G.p(P->wbad)) {
    switch (G.below(5)) {
      case 0: if (niov) lens[G.below(niov)] = 0; break;
      case 1: if (niov) lens[G.below(niov)] = R.n + G.range(1, 5); break;
      case 2: if (niov) { lens[G.below(niov)] = G.pick({(size_t)-1, (size_t)1 << 63, ((size_t)1 << 63) + 7, (size_t)-1 - R.n}); huge = true; } break;
      case 3: niov = 0; lens.clear(); break;
      case 4: if (niov) { lens.assign(niov, 0); } break;
    }
  }
  if (R.n > 200000) for (auto &l : lens) if (l <= R.n && l > 100000 && !G.p(20)) l = G.range(1, 5000);
  size_t len = 0; bool valid = niov > 0 && niov <= R.mm;
  for (size_t l : lens) { if (l == 0 || l > R.n) valid = false; else { len += l; if (len > R.n) valid = false; } }
  /* never call what the model says would block */
  if (!h->nb && !R.drop && valid) {
    if (h->buf ? !(fits(h->cb + len, h->cache.size() + niov)) : !fits(len, niov)) { count("skipped_blocking"); return; }
  }
  std::vector<Msg> v;
  std::vector<iovec> iov(niov), iovcopy;
  std::vector<char *> bufs;
  for (size_t k = 0; k < niov; k++) {
    size_t l = lens[k], al = (l > 4 * R.n + 64) ? 1 : l;
    char *b = (char *)malloc(al ? al : 1);
    v.push_back({nextid++, l});
    gen(v[k].id, b, al);
    bufs.push_back(b);
    iov[k].iov_base = b; iov[k].iov_len = l;
  }
  iovcopy = iov;
  std::string ls;
  for (size_t k = 0; k < niov && k < 12; k++) ls += fmt(" %zd", (ssize_t)lens[k]);
  if (niov > 12) ls += fmt(" ... (%zu)", niov);
  logop("h%d write%s%s%s [%s ] (ring %zu/%zu bytes %zu/%zu msgs, at %zu)", h->id, niov == 1 ? "" : "v", h->nb ? " nb" : "", h->buf ? " buf" : "", ls.c_str(), R.u, R.n, R.m, R.mm, R.woff);
  (void)huge;
  arm_fault(12);
  bool single = niov == 1 && G.p(50);
  ssize_t rc = api(single ? "shr_write" : "shr_writev", true, [&] {
    return single ? shr_write(h->s, bufs[0], iov[0].iov_len) : shr_writev(h->s, niov ? iov.data() : (iovec *)"", niov); });
  logres("%zd", rc);
  for (size_t k = 0; k < niov; k++) {
    if (iov[k].iov_base != iovcopy[k].iov_base || iov[k].iov_len != iovcopy[k].iov_len) bad(T_CLOBBER, "iov-changed", "shr_writev changed its iovec argument");
    if (v[k].len <= 4 * R.n + 64 && !gen_is(v[k].id, bufs[k], v[k].len)) bad(T_CLOBBER, "source-changed", "shr_writev changed its source buffer");
    free(bufs[k]);
  }
  count("writes");
  if (valid) distinct("write_states", mix(mix(R.n, R.woff), mix(mix(len, niov), mix(R.u, R.m))));
  if (!valid) {
    count("invalid_writes");
    if (rc == -1 && faulted) { if (h->buf) settle_cache(h, {}, 0, false, "failed write", true); else resync_after_fault(h); return; }
    if (rc != -1) bad(T_WR, "invalid-accepted", "a write that can never fit, or has an empty message or none, returned %zd instead of -1 (lengths%s; ring %zu bytes %zu messages)", rc, ls.c_str(), R.n, R.mm);
    if (h->buf) settle_cache(h, {}, 0, false, "invalid write");
    return;
  }
  if (h->buf) {
    if (rc != (ssize_t)len && rc != 0 && !(rc == -1 && faulted)) bad(T_WR | T_REFUSE, "write-result", "a buffered write of %zu bytes returned %zd", len, rc);
    if (rc == 0 && (!h->nb || R.drop)) bad(T_WR | T_REFUSE, "write-refused", "a buffered write returned 0 although the handle %s", R.drop ? "is on a drop ring" : "is blocking");
    settle_cache(h, v, len, rc == (ssize_t)len, "buffered write", rc == -1);
    if (rc == 0 && !faulted) {
      if (h->cache.size() ? fits(h->cb, h->cache.size()) : fits(len, niov))
        bad(T_WR | T_REFUSE | T_CACHE, "write-refused", "a buffered write of %zu bytes, %zu messages returned 0, yet there was room (%zu buffered; ring %zu/%zu bytes %zu/%zu messages)", len, niov, h->cb, R.u, R.n, R.m, R.mm);
      count("refused");
    }
    return;
  }
  if (rc == -1 && faulted) { count("failed_by_fault"); resync_after_fault(h); return; }
  bool f = fits(len, niov);
  if (f || R.drop) {
    if (rc != (ssize_t)len) bad(T_WR | T_REFUSE, rc == 0 ? "write-refused" : "write-result", "a write of %zu bytes, %zu messages returned %zd; ring has %zu/%zu bytes %zu/%zu messages%s", len, niov, rc, R.u, R.n, R.m, R.mm, R.drop ? " (drop)" : "");
    if (f && R.n - R.u == len) count("exact_fill_bytes");
    if (f && R.mm - R.m == niov) count("exact_fill_msgs");
    m_write(v, len);
    count("accepted");
  } else {
    if (rc != 0) bad(T_WR, "overcommit", "a write of %zu bytes, %zu messages returned %zd; ring has %zu/%zu bytes %zu/%zu messages", len, niov, rc, R.u, R.n, R.m, R.mm);
    count("refused");
    distinct("refusals", mix(len - (R.n - R.u), niov - (R.mm - R.m)));
  }
}

static void op_flush(Handle *h) {
  int wait = G.p(40);
  if (h->cb && !R.drop && !fits(h->cb, h->cache.size()) && (wait || !h->nb)) { count("skipped_blocking"); return; }
  logop("h%d flush(%d)%s", h->id, wait, h->nb ? " nb" : "");
  arm_fault(14);
  size_t cb = h->cb;
  bool f = R.drop || fits(cb, h->cache.size());
  ssize_t rc = api("shr_flush", true, [&] { return shr_flush(h->s, wait); });
  logres("%zd", rc);
  bool failed = rc == -1 && faulted;
  if (!failed && rc != (ssize_t)(f ? cb : 0)) bad(T_CACHE | T_WR, "flush-result", "flush of %zu bytes, %zu messages returned %zd (ring %zu/%zu bytes %zu/%zu messages)", cb, h->cache.size(), rc, R.u, R.n, R.m, R.mm);
  settle_cache(h, {}, 0, false, "flush", failed);
  if (rc > 0 && h->cache.size()) bad(T_CACHE, "flush-part", "after a successful flush %zu messages remain buffered", h->cache.size());
}

static void op_read(Handle *h, bool drainall = false) {
  size_t first = m_next(h), avail = R.pres.size() - first;
  if (!h->nb && avail == 0) { count("skipped_blocking"); return; }
  bool single = !drainall && G.p(35);
  /* buffer length and iovec count around what is there */
  size_t k, sum = 0, len, niov, kk = G.below(std::min<size_t>(avail, 30) + 2);
  for (k = 0; k < kk && k < avail; k++) sum += R.pres[first + k].len;
  switch (G.below(10)) {
    case 0: len = sum ? sum - 1 : 0; break;
    case 1: len = sum; break;
    case 2: len = sum + 1; break;
    case 3: len = avail ? R.pres[first].len : 1; break;
    case 4: len = avail ? R.pres[first].len - 1 : 1; break;
    case 5: len = avail ? G.below(R.pres[first].len) : 0; break;
    case 6: len = R.n + 16; break;
    default: len = G.range(1, R.n + 1); break;
  }
  switch (G.below(6)) {
    case 0: niov = 1; break;
    case 1: niov = avail; break;
    case 2: niov = avail + 1; break;
    case 3: niov = kk; break;
    default: niov = G.range(1, 12); break;
  }
  if (G.p(3)) niov = 0;
  if (drainall) { len = R.n + 8; niov = avail + 3; }
  if (!drainall && !P->wbad && len == 0) len = 1;
  if (single) niov = 1;
  bool hugelen = !drainall && G.p(2), hugeiov = !single && !drainall && G.p(2);
  size_t cap = hugelen ? R.n : len; /* real size */
  size_t capv = hugeiov ? R.mm + 2 : niov;
  size_t arglen = hugelen ? G.pick({(size_t)-1, (size_t)1 << 63, ((size_t)1 << 63) - 1}) : len, argv = hugeiov ? (size_t)-1 : niov;
  /* expected */
  size_t want = 0, wsum = 0;
  if (arglen && argv) while (want < avail && want < argv && wsum + R.pres[first + want].len <= arglen) wsum += R.pres[first + want++].len;
  const size_t CAN = ASAN ? 0 : 64;
  char *buf = (char *)malloc(cap + 2 * CAN + (cap + CAN == 0));
  memset(buf, 0xA5, cap + 2 * CAN);
  char *b = buf + CAN;
  iovec *iov = (iovec *)malloc((capv + 1) * sizeof(iovec));
  memset(iov, 0x5A, (capv + 1) * sizeof(iovec));
  size_t got = argv;
  logop("h%d read%s%s len=%zd niov=%zd (avail %zu, first %zd)", h->id, single ? "" : "v", h->nb ? " nb" : "", (ssize_t)arglen, (ssize_t)argv, avail, avail ? (ssize_t)R.pres[first].len : -1);
  arm_fault(10);
  ssize_t rc = api(single ? "shr_read" : "shr_readv", true, [&] { return single ? shr_read(h->s, b, arglen) : shr_readv(h->s, b, arglen, iov, &got); });
  logres("%zd, %zd messages", rc, single ? -1 : (ssize_t)got);
  count("reads");
  if (h->nb && avail) distinct("read_states", mix(mix(R.n, R.woff), mix(mix(arglen, argv), mix(avail, wsum))));
  struct Free { char *a; iovec *b; ~Free() { free(a); free(b); } } fr{buf, iov};
  for (k = 0; k < CAN; k++) if (buf[k] != (char)0xA5 || b[cap + k] != (char)0xA5) bad(T_CANARY | T_RDRES, "read-overrun", "a read wrote outside the caller's buffer of %zu bytes", cap);
  if (rc == -1 && faulted) {
    count("failed_by_fault");
    if (!single && got) bad(T_FAULT, "failed-read-count", "a failed read reports %zu messages", got);
    h->qmay = R.qseq; /* the missed count may have been brought up to date */
    return;
  }
  /* misses are counted by the call */
  bool inval = arglen == 0 || argv == 0;
  if (R.farm && !inval && h->q < R.qseq) { h->md += R.qseq - h->q; count("missed", R.qseq - h->q); h->q = R.qseq; }
  ssize_t wantrc = inval ? -1 : avail == 0 ? 0 : want == 0 ? -2 : (ssize_t)wsum;
  if (rc != wantrc) {
    unsigned tag = T_RDRES;
    /* a message that fits is not given */
    if (want && rc <= 0) tag |= T_RDLOST;
    if (wantrc <= 0 && rc > 0) tag |= T_CONTENT;
    if (want && rc > 0) { /* is what came a prefix of the messages? else wrong content too */
      size_t s2 = 0; bool prefix = false;
      for (k = 0; k < avail && s2 < (size_t)rc; k++) s2 += R.pres[first + k].len;
      prefix = s2 == (size_t)rc;
      if (!prefix || single) tag |= T_CONTENT;
    }
    bad(tag, "read-result", "a read (len %zd, niov %zd) returned %zd, expected %zd; %zu messages await, first of %zd bytes", (ssize_t)arglen, (ssize_t)argv, rc, wantrc, avail, avail ? (ssize_t)R.pres[first].len : -1);
  }
  size_t n = rc > 0 ? want : 0;
  if (!single && got != n) bad(T_RDRES, "read-count", "a read reports %zu messages, expected %zu", got, n);
  size_t off = 0;
  for (k = 0; k < n; k++) {
    Msg &x = R.pres[first + k];
    if (!single && (iov[k].iov_base != b + off || iov[k].iov_len != x.len))
      bad(T_RDRES | T_CONTENT, "read-iov", "iovec entry %zu of a read: offset %zd length %zu, expected offset %zu length %zu", k, (char *)iov[k].iov_base - b, iov[k].iov_len, off, x.len);
    if (!gen_is(x.id, b + off, x.len)) {
      size_t bad1 = 0; std::vector<char> w(x.len); gen(x.id, w.data(), x.len);
      while (bad1 < x.len && w[bad1] == b[off + bad1]) bad1++;
      bad(T_CONTENT | T_RDRES, "content", "message %zu of a read (length %zu) differs from what was written, from byte %zu on", k, x.len, bad1);
    }
    off += x.len;
  }
  for (k = off; k < cap; k++) if (b[k] != (char)0xA5) bad(T_CANARY | T_RDRES, "buffer-beyond", "a read that returned %zd wrote byte %zu of the buffer", rc, k);
  if (!single) {
    const char *raw = (const char *)(iov + n);
    size_t nb = (capv + 1 - n) * sizeof(iovec);
    for (k = 0; k < nb; k++) if (raw[k] != 0x5A) bad(T_CANARY | T_RDRES, "iov-beyond", "a read of %zu messages wrote iovec entry %zu", n, n + k / sizeof(iovec));
  }
  if (n) { count("messages_read", n); if (n > 1) count("batched_reads"); }
  if (rc == -2) count("reads_toosmall");
  if (rc == 0) { count("reads_empty"); h->drained = true; }
  if (n == 0) return;
  if (n < avail) count("partial_reads");
  R.br += off; R.mr += n;
  if (R.farm) h->q = R.qseq + first + n;
  else { for (k = 0; k < n; k++) R.pres.pop_front(); R.qseq += n; R.u -= off; R.m -= n; }
  if (n == avail) h->drained = true;
}
static void op_farmstat(Handle *h) {
  if (!h->rd) return;
  int reset = G.p(30);
  logop("h%d farm_stat(%d)", h->id, reset);
  size_t d = shr_farm_stat(h->s, reset);
  count("farm_stats");
  if (d > h->md && d - h->md <= (h->qmay > h->q ? h->qmay - h->q : 0)) { count("missed_at_failed_read", d - h->md); h->q += d - h->md; h->md = d; }
  if (d != h->md) bad(T_FARM, "farm-missed", "shr_farm_stat is %zu, expected %zu", d, h->md);
  if (reset) h->md = 0;
}
static void op_app(Handle *h) {
  size_t al = R.app.size();
  bool set = G.p(40), both = G.p(20), aget = !both && !set && G.p(50);
  size_t sz;
  switch (G.below(7)) {
    case 0: sz = al + 1; break;
    case 1: sz = al ? al - 1 : 0; break;
    case 2: sz = al + G.range(1, 9000); break;
    case 3: sz = G.below(al + 2); break;
    default: sz = al; break;
  }
  size_t arg = sz;
  std::vector<char> nv(sz); gen(nextid++, nv.data(), sz);
  std::vector<char> nvc = nv;
  char *gb = NULL; void *g = NULL;
  if (!aget && (both || !set)) { gb = (char *)malloc(sz + 1); memset(gb, 0x77, sz + 1); g = gb; }
  char *sb = (char *)malloc(sz + (sz == 0)); memcpy(sb, nv.data(), sz);
  /* the caller's buffer may be bigger than the data: a get copies the data alone */
  logop("h%d appdata %s size=%zu (has %zu)", h->id, both ? "get+set" : set ? "set" : aget ? "get (allocated)" : "get", sz, al);
  arm_fault(3);
  int rc = api("shr_appdata", true, [&] {
    return shr_appdata(h->s, (both || !set) ? &g : NULL, (both || set) ? sb : NULL, &arg); });
  logres("%d", rc);
  count("appdata_calls");
  bool ok = al && (both ? sz == al : set ? sz == al : aget ? true : sz >= al);
  if (rc == -1 && faulted) ok = false;
  else if (rc != (ok ? 0 : -1)) bad(T_APP, "appdata-result", "shr_appdata %s with size %zu (data %zu) returned %d", both ? "get+set" : set ? "set" : "get", sz, al, rc);
  if (memcmp(sb, nvc.data(), sz)) bad(T_APP | T_CLOBBER, "appdata-source", "shr_appdata changed the data given to set");
  if (both || !set) {
    if (ok) {
      if (arg != al) bad(T_APP, "appdata-size", "shr_appdata reports size %zu, expected %zu", arg, al);
      if (!g) bad(T_APP, "appdata-null", "shr_appdata gave no data");
      if (memcmp(g, R.app.data(), al)) bad(T_APP, "appdata-content", "application data differs from what was set");
      count("appdata_gets");
    }
    if (!aget) {
      for (size_t k = ok ? al : 0; k <= sz; k++) if (gb[k] != 0x77) bad(T_CANARY | T_APP, "appdata-overrun", "an application data get %s byte %zu of a buffer of %zu (data %zu)", ok ? "wrote" : "failed but wrote", k, sz, al);
    }
  }
  if (ok && (set || both)) { memcpy(R.app.data(), nv.data(), al); count("appdata_sets"); }
  if (aget && g) { vi_inlib = 1; free(g); vi_inlib = 0; }
  free(gb); free(sb);
}

static bool open_handle(bool rd, bool nb, bool buf) {
  unsigned fl = (rd ? SHR_RDONLY : SHR_WRONLY) | (nb ? SHR_NONBLOCK : 0) | (buf ? SHR_BUFFERED : 0);
  logop("open h%d %s%s%s", hseq, rd ? "read" : "write", nb ? " nb" : "", buf ? " buf" : "");
  shr *s = api("shr_open", false, [&] { return shr_open(R.path.c_str(), fl); });
  logres("%s", s ? "ok" : "NULL");
  count("opens");
  if (!s) bad(T_OPEN | T_DATA | T_FAULT | T_LOCK | T_APP | T_RES, "open-fails", "opening a sound ring failed");
  Handle *h = new Handle();
  h->s = s; h->rd = rd; h->nb = nb; h->buf = buf && !rd; h->id = hseq++;
  h->q = R.qseq; h->md = 0; h->cb = 0; h->drained = false;
  H.push_back(h);
  return true;
}
static bool close_handle(size_t k, bool force = false) {
  Handle *h = H[k];
  bool room = !h->cb || R.drop || fits(h->cb, h->cache.size());
  if (!room && !h->nb) return false; /* would block */
  if (!room && !force && G.p(70)) return false;
  logop("close h%d%s", h->id, h->cb ? " with buffered data" : "");
  vi_fail_at = 0;
  api("shr_close", false, [&] { shr_close(h->s); return 0; });
  if (h->cb && room) { std::vector<Msg> c = h->cache; size_t l = h->cb; h->cache.clear(); h->cb = 0; m_write(c, l); count("flush_on_close"); }
  H.erase(H.begin() + k);
  delete h;
  count("closes");
  return true;
}
/* a ring with a long past: its counters, and the number of its eldest message, are made large while no one has it open,
 * as billions of messages would make them. Where the file has them is found by their values, in rings used for that */
enum { F_MW, F_BW, F_MR, F_BR, F_MD, F_BD, F_Q, NFLD };
static int fld[NFLD];
static void find_fields() {
  std::set<int> cand[NFLD];
  for (auto &c : cand) for (int o = 0; o < 800; o += 4) c.insert(o);
  for (int farm = 0; farm < 2; farm++) for (int t = 0; t < 4; t++) {
    std::string p = A.dir + "/fields"; Rng g(77 + t); std::deque<size_t> pres; u64 q = 0; size_t used = 0, n = 300, mm = 9; char b[300];
    if (shr_init((char *)p.c_str(), n, (farm ? SHR_FARM : SHR_DROP) | SHR_MAXMSGS_2, mm)) return;
    shr *w = shr_open(p.c_str(), SHR_WRONLY | SHR_NONBLOCK), *r = shr_open(p.c_str(), SHR_RDONLY | SHR_NONBLOCK);
    if (!w || !r) return;
    for (int k = 0; k < 60 + 10 * t; k++) {
      size_t l = g.range(1, 90);
      if (g.p(70)) {
        if (shr_write(w, b, l) != (ssize_t)l) break;
        while (used + l > n || pres.size() + 1 > mm) { used -= pres[0]; pres.pop_front(); q++; }
        pres.push_back(l); used += l;
      } else shr_read(r, b, 300);
      if (k % 5) continue;
      struct shr_stat st;
      std::vector<char> f(808);
      if (shr_stat(w, &st, NULL)) break;
      int fd = open(p.c_str(), O_RDONLY); ssize_t got = pread(fd, f.data(), f.size(), 0); close(fd); /* this process has no lock to lose here */
      u64 v[NFLD] = {st.mw, st.bw, st.mr, st.br, st.md, st.bd, q};
      for (int j = 0; j < NFLD; j++) if (j != F_Q || farm) for (auto it = cand[j].begin(); it != cand[j].end();) {
        u64 x = 0; if (*it + 8 <= got) memcpy(&x, &f[*it], 8);
        if (*it + 8 > got || x != v[j]) it = cand[j].erase(it); else ++it;
      }
    }
    shr_close(w); shr_close(r); unlink(p.c_str());
  }
  for (int j = 0; j < F_Q; j++) if (cand[j].size() == 1) cand[F_Q].erase(*cand[j].begin()); /* a farm drops what it displaces */
  for (int j = 0; j < NFLD; j++) fld[j] = cand[j].size() == 1 ? *cand[j].begin() : -1;
}
static void age(int pct) {
  static bool known;
  if (!known) { find_fields(); known = true; }
  if (!G.p(pct)) return;
  auto large = [&]() { return ((u64)1 << G.pick({31, 32, 32, 33, 40, 53, 62})) - G.below(G.p(50) ? 30 : 300) + (G.p(30) ? G.range(1, 1000) : 0); };
  int fd = open(R.path.c_str(), O_RDWR);
  if (fd < 0) harness_error("age");
  auto put = [&](int f, u64 &v, u64 x) { if (fld[f] < 0) return; if (pwrite(fd, &x, 8, fld[f]) != 8) harness_error("pwrite"); v = x; count("fields_aged"); };
  u64 m = large(), by = large();
  put(F_MW, R.mw, m); put(F_BW, R.bw, by);
  if (R.drop) { put(F_MD, R.md, m); put(F_BD, R.bd, by); } else { put(F_MR, R.mr, m); put(F_BR, R.br, by); }
  if (R.farm) { m = large(); put(F_Q, R.qseq, m - m % R.mm); }
  close(fd);
  logop("a past of %llu messages, eldest number %llu", (unsigned long long)R.mw, (unsigned long long)R.qseq);
  count("rings_aged");
}
/* a great many messages pass while readers have the farm ring open: of as many as it holds now, then one more */
static void age_farm() {
  Handle *w = NULL;
  for (auto h : H) if (!h->rd && !h->buf) w = h;
  if (!w || fld[F_Q] < 0 || fld[F_MW] < 0 || fld[F_MD] < 0 || R.qseq >> 62) return;
  u64 k = (((u64)1 << G.pick({31, 32, 32, 33, 40})) + G.below(100)) / R.mm * R.mm;
  if (G.p(30)) k = G.range(1, 1000) * R.mm;
  u64 v[2] = {R.qseq + k, R.md + k}; int o[2] = {fld[F_Q], fld[F_MD]};
  int fd = open(R.path.c_str(), O_RDWR);
  if (fd < 0) harness_error("age");
  for (int j = 0; j < 2; j++) if (pwrite(fd, &v[j], 8, o[j]) != 8) harness_error("pwrite");
  u64 m = R.mw + k; if (pwrite(fd, &m, 8, fld[F_MW]) != 8) harness_error("pwrite");
  close(fd);
  R.qseq += k; R.md += k; R.mw += k;
  u64 id = nextid++; char c; gen(id, &c, 1);
  logop("%llu messages pass, then h%d writes one byte", (unsigned long long)k, w->id);
  ssize_t rc = api("shr_write", true, [&] { return shr_write(w->s, &c, 1); });
  if (rc != 1) bad(T_WR, "write-result", "a write of 1 byte to a farm returned %zd", rc);
  m_write({{id, 1}}, 1);
  count("farms_aged");
}
/* a file longer than the ring needs, as a file system makes it that rounds sizes up */
static void lengthen(int pct) {
  if (!G.p(pct)) return;
  int fd = open(R.path.c_str(), O_RDWR); struct stat st;
  if (fd < 0 || fstat(fd, &st)) harness_error("lengthen");
  size_t by = G.p(40) ? G.range(1, 64) : G.p(60) ? G.range(1, 9000) : 4096 - st.st_size % 4096;
  if (G.p(50)) { if (ftruncate(fd, st.st_size + by)) harness_error("ftruncate"); }
  else { std::vector<char> t(by); gen(G.next(), t.data(), by); if (pwrite(fd, t.data(), by, st.st_size) != (ssize_t)by) harness_error("pwrite"); }
  close(fd);
  logop("the file made longer by %zu", by);
  count("files_lengthened");
}
static void copy_ring() {
  std::string np = R.path + "c";
  for (size_t k = H.size(); k-- > 0;) close_handle(k);
  if (H.size()) return;
  logop("copy the ring file; go on with the copy");
  int a = open(R.path.c_str(), O_RDONLY), b = open(np.c_str(), O_RDWR | O_CREAT | O_EXCL, 0644);
  if (a < 0 || b < 0) harness_error("copy");
  std::vector<char> t(1 << 20); ssize_t l;
  while ((l = read(a, t.data(), t.size())) > 0) if (write(b, t.data(), l) != l) harness_error("copy");
  close(a); close(b);
  unlink(R.path.c_str());
  R.path = np;
  lengthen(15);
  img_open();
  count("copies");
}
/* another process opens the ring, acts, and exits without closing */
static void child_op() {
  int wr = G.p(60);
  size_t len = std::min<size_t>(pick_len(), R.n);
  if (wr && !R.drop && !fits(len, 1)) return;
  u64 id = nextid++;
  logop("another process %s %zu bytes and exits", wr ? "writes" : "opens and reads", len);
  int p[2]; if (pipe(p)) harness_error("pipe");
  pid_t c = fork();
  if (c == 0) {
    long r = -9;
    shr *s = shr_open(R.path.c_str(), (wr ? SHR_WRONLY : SHR_RDONLY) | SHR_NONBLOCK);
    if (s) {
      std::vector<char> b(R.n + 1);
      if (wr) { gen(id, b.data(), len); r = shr_write(s, b.data(), len); }
      else { r = shr_read(s, b.data(), R.n); if (r > 0 && R.pres.size() && !gen_is(R.pres[0].id, b.data(), R.pres[0].len)) r = -8; }
    }
    if (write(p[1], &r, sizeof r) != sizeof r) _exit(1);
    if (s && G.p(50)) shr_close(s);
    _exit(0);
  }
  long r = -7; close(p[1]);
  if (read(p[0], &r, sizeof r) != sizeof r) r = -7;
  close(p[0]); waitpid(c, 0, 0);
  logres("%ld", r);
  count("child_ops");
  if (wr) {
    if (r != (long)len) bad(T_DATA | T_OPEN, "child-write", "a write by another process returned %ld, expected %zu", r, len);
    m_write({{id, len}}, len);
  } else {
    long want = R.pres.size() ? (long)R.pres[0].len : 0;
    if (r != want) bad(T_DATA | T_OPEN, "child-read", "a read by another process returned %ld, expected %ld", r, want);
    if (want) { R.br += want; R.mr++; if (!R.farm) { R.u -= want; R.m--; R.qseq++; R.pres.pop_front(); } }
  }
}

static bool need(bool rd) { for (auto h : H) if (h->rd == rd) return false; return true; }

static void make_ring(u64 k) {
  size_t n;
  int c = G.below(100);
  if (c < 12) n = G.range(1, 8); else if (c < 35) n = G.range(9, 64); else if (c < 66) n = G.range(65, 600);
  else if (c < 88) n = G.range(600, 5000); else if (c < 98) n = G.range(5000, 60000); else n = G.range(60000, 1100000);
  if (P->buffered >= 100 && G.p(45)) n = G.range(10200, 42000);
  if ((P->tags & T_SYNC) && n > 6000) n = G.p(92) ? G.range(1, 6000) : n < 60000 ? G.range(60000, 400000) : G.range(60000, 3000000);
  size_t mm = 0;
  c = G.below(100);
  if (c < 35) mm = 0; else if (c < 43) mm = 1; else if (c < 58) mm = G.range(2, 4); else if (c < 80) mm = G.range(5, 40);
  else if (c < 90) mm = n; else if (c < 97) mm = G.range(41, 400); else mm = P->buffered ? G.range(9990, 13000) : G.range(1, 2000);
  R = Ring();
  R.farm = G.p(P->farm); R.drop = G.p(P->drop) || R.farm; R.sync = G.p(P->sync);
  unsigned fl = (R.farm ? SHR_FARM : 0) | (R.drop && (!R.farm || G.p(50)) ? SHR_DROP : 0) | (R.sync ? SHR_SYNC : 0);
  if (G.p(4)) fl |= SHR_MLOCK;
  bool app = G.p(P->app);
  if (app) { R.app.resize(G.p(20) ? G.range(1, 9000) : G.range(1, 200)); gen(nextid++, R.app.data(), R.app.size()); }
  R.n = n; R.mm = mm ? mm : 100 + n / 100;
  R.gf = fl | (R.farm ? SHR_DROP : 0);
  R.path = fmt("%s/r%llu", A.dir.c_str(), (unsigned long long)k);
  casehdr = fmt("ring of %zu bytes, %zu messages%s,%s%s%s%s appdata %zu", n, R.mm, mm ? "" : " (default)", R.farm ? " farm" : R.drop ? " drop" : "", R.sync ? " sync" : "", fl & SHR_MLOCK ? " mlock" : "", "", R.app.size());
  unlink(R.path.c_str());
  logop("init: %s", casehdr.c_str());
  int rc;
  char *p = (char *)R.path.c_str();
  rc = api("shr_init", false, [&] {
    if (app && mm) return shr_init(p, n, fl | SHR_APPDATA_1 | SHR_MAXMSGS_2, R.app.data(), R.app.size(), mm);
    if (app) return shr_init(p, n, fl | SHR_APPDATA_1, R.app.data(), R.app.size());
    if (mm) return shr_init(p, n, fl | SHR_MAXMSGS_2, mm);
    return shr_init(p, n, fl); });
  if (rc) bad(T_OPEN | T_GEOM, "init-fails", "shr_init returned %d", rc);
  lengthen(8);
  if (P->tags & (T_STAT | T_FARM)) age(8);
  img_open();
  distinct("geometries", mix(mix(R.n, R.mm), mix(R.gf, R.app.size())));
}

/* resources of this process and of the library */
struct Res { int fds; long heap; int maps; };
static Res res_now() {
  Res r{count_fds(), vi_heap_blocks, 0};
  FILE *f = fopen("/proc/self/maps", "r"); char b[600];
  while (f && fgets(b, sizeof b, f)) if (strstr(b, A.dir.c_str())) r.maps++;
  if (f) fclose(f);
  return r;
}
static Res res0;
static void check_res(const char *when) {
  if (!(P->tags & T_RES)) return;
  Res r = res_now();
  count("resource_checks");
  if (r.fds != res0.fds) bad(T_RES, "fd-leak", "%s: %d descriptors open, %d before", when, r.fds, res0.fds);
  if (r.maps != res0.maps) bad(T_RES, "map-leak", "%s: %d ring mappings, %d before", when, r.maps, res0.maps);
  if (r.heap != res0.heap) bad(T_RES, "heap-leak", "%s: the library holds %ld heap blocks more than before", when, r.heap - res0.heap);
}

static void run_case(u64 k) {
  begin_case(k);
  G = Rng(mix(A.seed * 1000003 + k, std::hash<std::string>()(A.prop)));
  nextid = mix(A.seed, k) << 20; hseq = 0;
  if (P->tags & T_RES) res0 = res_now();
  make_ring(k);
  int nops = G.pick({25, 60, 60, 120, 250}), bias = 50;
  if (R.n > 100000) nops = 30;
  bool churn = (P->tags & T_RES) && G.p(30); /* no opens/closes; resources must not grow */
  Res mid = {};
  if (churn) nops = 900;
  for (int i = 0; i < nops; i++) {
    if (need(false) || (!churn && H.size() < (size_t)P->maxh && G.p(5))) open_handle(false, R.farm || G.p(70), G.p(P->buffered));
    if (need(true) || (!churn && H.size() < (size_t)P->maxh && G.p(6))) open_handle(true, G.p(80), false);
    if (G.p(6)) bias = G.pick({20, 35, 50, 65, 85});
    if (!churn && G.p(P->reopen) && G.p(50)) {
      if ((P->reopen >= 40) && G.p(25)) { if (G.p(50)) copy_ring(); else child_op(); }
      else if (P->reopen >= 25 && G.p(25)) { for (size_t j = H.size(); j-- > 0;) close_handle(j); if (H.empty()) check_res("all handles closed"); }
      else if (H.size()) close_handle(G.below(H.size()));
      check_poll();
      continue;
    }
    if (H.empty()) continue;
    if (R.farm && !P->faults && (P->tags & T_FARM) && G.p(1)) { age_farm(); check_poll(); continue; }
    Handle *h;
    int c = G.below(100);
    if (c < P->wstat) { if (G.p(25)) op_stat_reset(); else check_stat(); }
    else if (c < P->wstat + P->wapp) op_app(any());
    else if (c < P->wstat + P->wapp + P->wflush) { h = any(); if (!h->rd) op_flush(h); }
    else {
      bool w = G.below(100) < (u64)bias;
      for (int t = 0; t < 20; t++) { h = any(); if (h->rd != w) break; }
      if (h->rd) { op_read(h); if (R.farm || G.p(4)) { if (G.p(60)) op_farmstat(h); } }
      else op_write(h);
      if (P->tags & (T_COUNT | T_STAT)) if (G.p(P->wstat + 10)) check_stat();
    }
    check_poll();
    if (churn && i == 300) mid = res_now();
  }
  if (churn && mid.fds) {
    Res r = res_now();
    count("churn_checks");
    /* what is made lazily, once per handle, is allowed for */
    int hs = H.size();
    if (r.fds > mid.fds + 6 * hs) bad(T_RES, "fd-growth", "descriptors grew from %d to %d over 600 operations without an open", mid.fds, r.fds);
    if (r.maps > mid.maps) bad(T_RES, "map-growth", "mappings grew from %d to %d over 600 operations", mid.maps, r.maps);
    if (r.heap > mid.heap + 3 * hs) bad(T_RES, "heap-growth", "library heap blocks grew by %ld over 600 operations", r.heap - mid.heap);
  }
  /* at the end, everything unread must come out */
  for (size_t j = H.size(); j-- > 0;) if (!H[j]->rd) {
    Handle *h = H[j];
    if (h->cb && G.p(50) && (R.drop || fits(h->cb, h->cache.size()))) op_flush(h);
    if (!close_handle(j)) { /* make room */
      Handle *r = NULL;
      for (auto x : H) if (x->rd) r = x;
      if (!r) { open_handle(true, true, false); r = H.back(); }
      while (R.pres.size() && !R.farm) { op_read(r, true); if (faulted) continue; }
      for (j = H.size(); j-- > 0;) if (H[j] == h) break;
      close_handle(j, true);
      j = H.size();
    }
  }
  for (size_t guard = 0; guard < 300; guard++) {
    bool any_left = false;
    if (need(true)) open_handle(true, true, false);
    size_t cnt = H.size();
    for (size_t j = 0; j < cnt; j++) if (H[j]->rd && m_ready(H[j])) { any_left = true; op_read(H[j], true); check_poll(); }
    if (!any_left) break;
  }
  check_stat();
  if (R.app.size() && (P->tags & T_APP)) for (int j = 0; j < 3; j++) op_app(any());
  for (auto h : H) if (R.farm && h->rd) op_farmstat(h);
  for (size_t j = H.size(); j-- > 0;) close_handle(j, true);
  if (H.empty()) check_res("at the end");
  if (ringimg) { munmap(ringimg, ringlen); ringimg = NULL; }
  unlink(R.path.c_str());
  count("cases");
}

/* C20: a write whose msync fails returns -1 */
static void sync_eio_case(u64 k) {
  begin_case(k);
  G = Rng(mix(A.seed, k));
  do { make_ring(k); if (!R.sync) unlink(R.path.c_str()); } while (!R.sync);
  open_handle(false, true, G.p(25));
  Handle *h = H[0];
  for (int i = G.below(5); i > 0; i--) { size_t l = G.range(1, R.n); std::vector<char> b(l); if (R.drop || fits(l, 1)) { shr_write(h->s, b.data(), l); shr_flush(h->s, 0); m_write({{0, l}}, l); } }
  size_t l = G.range(1, R.n); std::vector<char> b(l);
  if (R.drop || fits(l, 1)) {
    logop("write %zu bytes with msync failing", l);
    vi_inlib = 1; vi_syncmon = 2;
    unsigned long n0 = vi_nmsync;
    ssize_t rc = shr_write(h->s, b.data(), l);
    bool flushed = false;
    if (h->buf && rc > 0 && vi_nmsync == n0) { rc = shr_flush(h->s, 0); flushed = true; }
    vi_syncmon = 0; vi_inlib = 0;
    logres("%zd", rc);
    count("msync_failures");
    if (rc != -1) bad(T_SYNC, "msync-error-ignored", "a %s whose msync failed returned %zd", flushed ? "flush" : "write", rc);
    if (vi_lock_held()) bad(T_SYNC, "lock-leak", "lock held after a failed msync");
  }
  shr_close(h->s); delete h; H.clear();
  if (ringimg) { munmap(ringimg, ringlen); ringimg = NULL; }
  unlink(R.path.c_str());
}

/* C16/C17: fail every library call made during an open, a creation and a
 * first blocking flush, one at a time */
static void open_fault_case(u64 k) {
  begin_case(k);
  G = Rng(mix(A.seed * 31, k));
  P = P; u64 site = 0;
  make_ring(k);
  if (R.n > 60000) { unlink(R.path.c_str()); return; }
  int others = G.below(4);
  int kind = k % 7; /* reader, nb reader, writer, nb writer, buffered writer, init, blocking flush */
  for (int i = 0; i < others; i++) open_handle(G.p(50), G.p(50), false);
  /* some unread content */
  std::vector<char> b(R.n, 'x');
  shr *w = shr_open(R.path.c_str(), SHR_WRONLY | SHR_NONBLOCK);
  if (!w) harness_error("open");
  for (int i = 0; i < 3; i++) { size_t l = G.range(1, R.n); if (fits(l, 1)) { u64 id = nextid++; gen(id, b.data(), l); if (shr_write(w, b.data(), l) == (ssize_t)l) m_write({{id, l}}, l); } }
  shr_close(w);
  unsigned fl[] = {SHR_RDONLY, SHR_RDONLY | SHR_NONBLOCK, SHR_WRONLY, SHR_WRONLY | SHR_NONBLOCK, SHR_WRONLY | SHR_BUFFERED};
  std::string np = R.path + "i";
  Handle *fh = NULL;
  std::vector<char> appv(20, 'a');
  for (unsigned pick = 0; pick < 3; pick++)
  for (site = 1; site < 400; site++) {
    bool fired = false;
    int reps = G.p(25) ? 70 : 2;
    long heap0 = vi_heap_blocks; int fds0 = count_fds();
    std::string sitename;
    for (int rep = 0; rep < reps; rep++) {
      fd0_step();
      pre_call();
      vi_fail_at = site; vi_fail_more = 0; vi_fail_pick = pick;
      if (kind < 5) {
        vi_inlib = 1;
        shr *s = shr_open(R.path.c_str(), fl[kind]);
        vi_inlib = 0; vi_fail_at = 0;
        fired = vi_failed > 0;
        if (fired) sitename = vi_name[vi_failed_call];
        if (fired) { count("open_faults"); distinct("open_fault_sites", mix(mix(kind, vi_failed_call), mix(site, vi_failed_errno))); }
        if (!s && !fired) bad(T_OPEN | T_RES | T_FAULT, "open-fails", "opening a sound ring failed (after failed opens)");
        if (s) {
          count(fired ? "open_survived" : "opens");
          vi_inlib = 1; shr_close(s); vi_inlib = 0;
        } else count("open_failed");
      } else if (kind == 5) {
        vi_inlib = 1;
        int rc = (site & 1) || pick ? shr_init((char *)np.c_str(), 500, SHR_APPDATA_1, appv.data(), appv.size()) : shr_init((char *)np.c_str(), 500, 0);
        vi_inlib = 0; vi_fail_at = 0;
        fired = vi_failed > 0;
        if (fired) { sitename = vi_name[vi_failed_call]; count("init_faults"); }
        if (rc && !fired) bad(T_OPEN | T_RES | T_FAULT, "init-fails", "shr_init failed without an injected failure");
        if (rc && access(np.c_str(), F_OK) == 0 && vi_failed_call != VI_unlink) bad(T_FAULT | T_RES, "init-leftover", "shr_init failed (%s failing) but left a file", sitename.c_str());
        if (!rc) { shr *s = shr_open(np.c_str(), SHR_RDONLY); if (!s) bad(T_FAULT, "init-bad", "shr_init succeeded but the ring does not open"); shr_close(s); }
      } else {
        /* first blocking flush of a non-blocking buffered writer */
        vi_fail_at = 0;
        shr *s = shr_open(R.path.c_str(), SHR_WRONLY | SHR_NONBLOCK | SHR_BUFFERED);
        if (!s) bad(T_OPEN | T_RES | T_FAULT, "open-fails", "opening a sound ring failed (after failed flushes)");
        bool room = R.drop || fits(1, 1);
        if (room && shr_write(s, b.data(), 1) == 1) {
          pre_call();
          vi_fail_at = site; vi_fail_pick = pick; vi_inlib = 1;
          ssize_t rc = shr_flush(s, 1);
          vi_inlib = 0; vi_fail_at = 0; fired = vi_failed > 0;
          if (fired) { sitename = vi_name[vi_failed_call]; count("flush_faults"); }
          if (rc < 0) { /* keep it; a later flush works */
            if (!fired) bad(T_FAULT | T_RES, "flush-fails", "a flush failed without an injected failure");
            struct shr_stat st; shr_stat(s, &st, NULL);
            if (st.cm != 1) bad(T_FAULT, "flush-lost", "a failed flush left %zu of 1 buffered message", st.cm);
            rc = shr_flush(s, 0);
          }
          if (rc != 1) bad(T_FAULT, "flush-result", "flush returned %zd", rc);
          shr *rd = shr_open(R.path.c_str(), SHR_RDONLY | SHR_NONBLOCK);
          if (!rd) bad(T_FAULT | T_RES, "open-fails", "opening a sound ring failed");
          ssize_t x, tot = 0;
          while ((x = shr_read(rd, b.data(), R.n)) > 0) tot++;
          if (tot < 1) bad(T_FAULT, "flush-missing", "the flushed message is not in the ring");
          shr_close(rd);
          R.pres.clear(); R.u = R.m = 0;
          if (R.farm) { struct shr_stat st; shr_stat(s, &st, NULL); R.u = st.bu; R.m = st.mu; }
        }
        shr_close(s);
      }
      if (vi_lock_held()) bad(T_LOCK | T_RES | T_FAULT, "lock-leak", "lock held after a failed call (%s failing)", sitename.c_str());
      /* a wake connection purged or made by the failure may change the count by
       * the number of waiters at most; the opener's own are all gone */
      if (kind != 6) {
        int f = count_fds();
        if (f != fds0) bad(T_RES, "fd-leak", "%s: %d descriptors before, %d after (call %llu, %s failing)", kind == 5 ? "shr_init" : "shr_open", fds0, f, (unsigned long long)site, sitename.c_str());
        if (vi_heap_blocks != heap0) bad(T_RES, "heap-leak", "%s: %ld heap blocks not freed (call %llu, %s failing)", kind == 5 ? "shr_init" : "shr_open", vi_heap_blocks - heap0, (unsigned long long)site, sitename.c_str());
      }
      if (!fired) break;
    }
    Res r = res_now();
    if (kind != 6 && r.maps != res0.maps + (int)H.size()) bad(T_RES, "map-leak", "%d ring mappings with %zu handles open", r.maps - res0.maps, H.size());
    if (kind < 5) {
      shr *s = shr_open(R.path.c_str(), fl[kind]);
      if (!s) bad(T_RES | T_FAULT, "open-after-failure", "after opens that failed (%s) the ring no longer opens", sitename.c_str());
      shr_close(s);
    }
    if (!fired) break;
  }
  (void)fh;
  unlink(np.c_str());
  for (size_t j = H.size(); j-- > 0;) { vi_inlib = 1; shr_close(H[j]->s); vi_inlib = 0; delete H[j]; }
  H.clear();
  /* the content is all there */
  if (kind < 6 && (P->tags & T_FAULT)) { open_handle(true, true, false); while (m_ready(H[0])) op_read(H[0], true); close_handle(0, true); }
  unlink(R.path.c_str());
  if (ringimg) { munmap(ringimg, ringlen); ringimg = NULL; }
  count("open_fault_cases");
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  for (auto &p : profiles) if (A.prop == p.id) P = &p;
  if (!P) { printf("HARNESS: no profile %s\n", A.prop.c_str()); return 2; }
  static char obuf[1 << 16];
  setvbuf(stdout, obuf, _IOLBF, sizeof obuf);
  signal(SIGALRM, on_alarm);
  signal(SIGPIPE, SIG_IGN);
  if (P->tags & T_LOCK) { vi_lockmon_init(); start_prober(); }
  if (P->tags & T_SYNC) vi_on_msync = on_msync;
  if (P->tags & T_RES) vi_count_heap = 1;
  if (A.mode == "openfault") { vi_count_heap = 1; }
  vi_guard = 1;
  for (u64 k = A.from; k < A.to; k++) {
    alarm(25 * A.slow);
    try {
      if (A.mode == "openfault") { res0 = res_now(); open_fault_case(k); }
      else if (A.mode == "eio") sync_eio_case(k);
      else run_case(k);
    } catch (Foreign &) {
      vi_fail_at = 0; vi_inlib = 0;
      for (auto h : H) { if (h->rd || !h->buf) shr_close(h->s); delete h; }
      H.clear();
      if (ringimg) { munmap(ringimg, ringlen); ringimg = NULL; }
      unlink(R.path.c_str());
      if (S.c["foreign"] > 20) break;
    }
    if (S.samples.size() < 3 && k < A.from + 2 && oplog.size() > 3) {
      std::string s = casehdr + ": ";
      for (size_t i = 1; i < oplog.size() && i < 9; i++) s += oplog[i] + "; ";
      S.samples.push_back(s);
    }
  }
  alarm(0);
  write_out(NULL, "", 0);
  return 0;
}
