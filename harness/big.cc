/* Rings of over 4 GiB, with messages of up to the whole ring. One process,
 * a model of the ring's content; mode is "plain", "drop" or "farm". */
#include "common.h"
#include "shr.h"
#include <sys/statvfs.h>

static Rng G;
static const size_t GiB = 1ul << 30, CH = 4096ul * 16381; /* 4 GiB is no multiple of it */
static char *src, *dst;
static size_t srclen, dstlen;

static void setup() {
  dstlen = 5 * GiB; srclen = dstlen / CH * CH + 2 * CH;
  int fd = memfd_create("src", 0);
  if (fd < 0 || ftruncate(fd, CH)) harness_error("memfd");
  src = (char *)mmap(0, srclen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (src == MAP_FAILED) harness_error("mmap");
  for (size_t k = 0; k < srclen; k += CH)
    if (mmap(src + k, CH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("mmap alias");
  gen(mix(A.seed, 77), src, CH);
  close(fd);
  dst = (char *)mmap(0, dstlen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (dst == MAP_FAILED) harness_error("mmap");
}
static size_t mem_available() {
  FILE *f = fopen("/proc/meminfo", "r"); char b[200]; size_t k = 0;
  while (f && fgets(b, sizeof b, f)) if (sscanf(b, "MemAvailable: %zu", &k) == 1) break;
  if (f) fclose(f);
  return k * 1024;
}
static bool same(const char *a, const char *b, size_t n) { return memcmp(a, b, n) == 0; }

struct Msg { u64 id; size_t off, len; };
static std::deque<Msg> q;          /* unread; farm: present */
static size_t n, mm, used, nextid;
static u64 mr, br, mw, bw, md, bd, seq0; /* seq0: number of the first in q */
static bool drop, farm;
struct Rd { shr *s; u64 next; u64 missed; };
static std::vector<Rd> rds;

static void bad(const char *key, const char *f, ...) {
  char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  violation(key, b);
}
static size_t pick_len(size_t fr) {
  int x = G.below(100);
  size_t l;
  if (x < 6) l = n;
  else if (x < 20) l = 4 * GiB + G.below(n - 4 * GiB + 1);
  else if (x < 40) l = fr + G.pick({-1, 0, 0, 0, 1});
  else if (x < 70) l = G.range(GiB / 4, 3 * GiB / 2);
  else if (x < 80) l = G.range(2 * GiB - 20, 2 * GiB + 20);
  else l = G.range(1, 5000);
  if (l < 1) l = 1;
  if (l > n + 1) l = n + 1;
  return l;
}
static void do_write(shr *w) {
  size_t k = G.p(70) ? 1 : G.range(2, 4), tot = 0, fr = n - used;
  struct iovec iov[4]; Msg m[4];
  for (size_t i = 0; i < k; i++) {
    m[i].id = nextid++; m[i].off = G.below(CH); m[i].len = pick_len(fr > tot ? fr - tot : 1);
    iov[i].iov_base = src + m[i].off; iov[i].iov_len = m[i].len; tot += m[i].len;
  }
  logop("write of %zu messages, %zu bytes (first %zu), %zu bytes free", k, tot, m[0].len, fr);
  ssize_t rc = k == 1 && G.p(50) ? shr_write(w, (char *)iov[0].iov_base, iov[0].iov_len) : shr_writev(w, iov, k);
  logres("%zd", rc);
  count("writes");
  ssize_t want;
  if (tot > n || k > mm) want = -1;
  else if (tot <= fr && q.size() + k <= mm) want = tot;
  else want = drop ? tot : 0;
  if (rc != want) bad("write-result", "a write of %zu bytes in %zu messages returned %zd, not %zd (%zu bytes free of %zu)", tot, k, rc, want, fr, n);
  if (rc <= 0) return;
  while (n - used < tot || q.size() + k > mm) { used -= q[0].len; bd += q[0].len; md++; q.pop_front(); seq0++; count("dropped"); }
  for (size_t i = 0; i < k; i++) q.push_back(m[i]);
  used += tot; mw += k; bw += tot;
  distinct("write_states", mix(mix(n, bw / (GiB / 4)), mix(tot / (GiB / 8), fr / (GiB / 8))));
  if (tot > 4 * GiB) count("over_4g_writes");
}
static void do_read(Rd &r) {
  struct iovec iov[6];
  size_t niov = G.p(40) ? 1 : G.range(2, 6), cap = niov, len;
  if (farm && r.next < seq0) { r.missed += seq0 - r.next; r.next = seq0; }
  size_t at = farm ? r.next - seq0 : 0, wn = 0, wl = 0;
  size_t first = at < q.size() ? q[at].len : 0;
  len = G.p(75) ? dstlen - 1 : first && G.p(60) ? first + G.pick({-1, 0, 1}) : G.range(1, 3 * GiB);
  if (len < 1) len = 1;
  for (size_t i = at; i < q.size() && wn < cap && wl + q[i].len <= len; i++) { wl += q[i].len; wn++; }
  ssize_t want = at == q.size() ? 0 : wn ? (ssize_t)wl : -2;
  logop("read into %zu bytes, %zu iovecs", len, cap);
  memset(dst + (wl < dstlen - 16 ? wl : dstlen - 16), 0xA7, 16);
  ssize_t rc = cap == 1 && G.p(50) ? shr_read(r.s, dst, len) : shr_readv(r.s, dst, len, iov, &niov);
  bool v = !(cap == 1 && niov == 1 && rc <= 0);
  logres("%zd", rc);
  count("reads");
  if (rc != want) bad("read-result", "a read into %zu bytes, %zu iovecs returned %zd, not %zd", len, cap, rc, want);
  if (rc <= 0) return;
  size_t p = 0;
  for (size_t i = 0; i < wn; i++) {
    Msg &m = q[at + i];
    if (!same(dst + p, src + m.off, m.len)) {
      size_t k = 0; while (dst[p + k] == src[m.off + k]) k++;
      bad("content", "message of %zu bytes differs at byte %zu (and maybe further)", m.len, k);
    }
    p += m.len;
  }
  for (int k = 0; wl < dstlen - 16 && k < 16; k++) if ((unsigned char)dst[wl + k] != 0xA7) bad("beyond", "a read changed the buffer beyond the %zu bytes it returned", wl);
  mr += wn; br += wl; count("read_messages", wn);
  if (farm) r.next += wn;
  else while (wn--) { used -= q[0].len; q.pop_front(); seq0++; }
}
static void check_stat(shr *s) {
  struct shr_stat st;
  if (shr_stat(s, &st, NULL)) bad("stat", "shr_stat failed");
  count("stats");
#define EQ(f, x) if ((u64)st.f != (u64)(x)) bad("stat-" #f, "statistics: " #f " is %llu, should be %llu", (u64)st.f, (u64)(x));
  EQ(bn, n) EQ(mm, mm) EQ(bu, used) EQ(mu, q.size()) EQ(bw, bw) EQ(mw, mw) EQ(br, br) EQ(mr, mr) EQ(bd, bd) EQ(md, md)
}
static void run_case() {
  std::string path = A.dir + "/big";
  q.clear(); rds.clear(); used = nextid = 0; mr = br = mw = bw = md = bd = seq0 = 0;
  drop = A.mode != "plain"; farm = A.mode == "farm";
  n = 4 * GiB + G.range(1, GiB / 3);
  mm = G.range(4, 60);
  casehdr = fmt("%s ring of %zu bytes, %zu messages", A.mode.c_str(), n, mm);
  if (shr_init((char *)path.c_str(), n, SHR_MAXMSGS_2 | (farm ? SHR_FARM : drop ? SHR_DROP : 0), mm)) bad("init", "creation of a ring of %zu bytes failed", n);
  shr *w = shr_open(path.c_str(), SHR_WRONLY | SHR_NONBLOCK);
  if (!w) bad("open", "the ring does not open");
  for (int k = 0; k < (farm ? 2 : 1); k++) {
    Rd r = {shr_open(path.c_str(), SHR_RDONLY | SHR_NONBLOCK), 0, 0};
    if (!r.s) bad("open", "the ring does not open");
    rds.push_back(r);
  }
  u64 goal = A.tier ? 40 * GiB : n + 5 * GiB;
  for (int op = 0; bw < goal && op < 400; op++) {
    if (G.p(50)) do_write(w);
    else if (bw < 4 * GiB && G.p(70)) continue; /* let it fill */
    else do_read(rds[G.below(rds.size())]);
    if (G.p(20)) check_stat(G.p(50) ? w : rds[0].s);
    if (G.p(6)) { Rd &r = rds[0]; shr_close(r.s); r.s = shr_open(path.c_str(), SHR_RDONLY | SHR_NONBLOCK); if (!r.s) bad("open", "the ring does not open again"); if (farm) { r.next = seq0; r.missed = 0; } logop("reader closed and opened"); }
  }
  check_stat(w);
  for (auto &r : rds) {
    for (int k = 0; k < 1000; k++) { size_t b = mr; do_read(r); if (farm ? r.next - seq0 == q.size() : q.empty()) break; }
    if (farm && shr_farm_stat(r.s, 0) != r.missed) bad("missed", "a farm reader's miss count is %zu, not %llu", shr_farm_stat(r.s, 0), r.missed);
  }
  check_stat(w);
  count("laps", bw / n);
  shr_close(w);
  for (auto &r : rds) shr_close(r.s);
  unlink(path.c_str());
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  struct statvfs sv;
  if (statvfs(A.dir.c_str(), &sv)) harness_error("statvfs");
  if ((size_t)sv.f_bavail * sv.f_frsize < 6 * GiB || mem_available() < 13 * GiB) {
    count("skipped_for_lack_of_memory"); write_out(NULL, "", 0); return 0;
  }
  setup();
  signal(SIGALRM, on_alarm);
  for (u64 k = A.from; k < A.to; k++) {
    begin_case(k);
    G = Rng(mix(mix(A.seed, k), 0xb16));
    alarm(180);
    run_case();
    count("cases");
  }
  write_out(NULL, "", 0);
  return 0;
}
