/* Shared by the drivers: arguments, random numbers, message content,
 * verdicts and statistics. */
#ifndef COMMON_H
#define COMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
typedef uint64_t u64;

struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(x) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); } /* inclusive */
  bool p(int pct) { return (int)below(100) < pct; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
inline u64 mix(u64 a, u64 b) { Rng r(a * 0x2545F4914F6CDD1DULL + b); return r.next(); }

/* the bytes of message id */
inline void gen(u64 id, char *d, size_t n) {
  u64 x = id * 0x9E3779B97F4A7C15ULL + 0x1234567;
  size_t k = 0;
  for (; k + 8 <= n; k += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(d + k, &x, 8); }
  if (k < n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(d + k, &x, n - k); }
}
inline bool gen_is(u64 id, const char *d, size_t n) {
  u64 x = id * 0x9E3779B97F4A7C15ULL + 0x1234567, y;
  size_t k = 0;
  for (; k + 8 <= n; k += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(&y, d + k, 8); if (x != y) return false; }
  if (k < n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; if (memcmp(d + k, &x, n - k)) return false; }
  return true;
}

struct Args {
  std::string prop = "C01", mode = "", dir = "/dev/shm", out, status;
  u64 seed = 1, from = 0, to = 1;
  int trace = 0, slow = 1, tier = 0;
} A;

struct Stats {
  std::map<std::string, u64> c;
  std::map<std::string, std::set<u64>> distinct;
  std::vector<std::string> samples;
} S;
inline void count(const char *k, u64 n = 1) { S.c[k] += n; }
inline void distinct(const char *k, u64 v) { auto &s = S.distinct[k]; if (s.size() < 400000) s.insert(v); }

struct StatusPage { volatile u64 cas; volatile u64 op; char what[200]; };
static StatusPage *SP;
static std::vector<std::string> oplog;
static std::string casehdr;

inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
/* descriptor 0: sometimes free, so that what the library opens next gets it; else /dev/null, unless it is in use */
inline bool fd0_null() { struct stat st; return fstat(0, &st) == 0 && S_ISCHR(st.st_mode) && st.st_rdev == 0x103; }
static u64 curcase;
inline void fd0_step() {
  static u64 n;
  if (mix(curcase + 77, n++) % 10 == 0) { if (fd0_null()) close(0); }
  else if (fcntl(0, F_GETFD) < 0 && open("/dev/null", O_RDWR) < 0) {}
}
inline void logop(const char *f, ...) {
  fd0_step();
  char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (SP) { SP->op++; strncpy(SP->what, b, sizeof SP->what - 1); }
  if (oplog.size() > 4000) oplog.erase(oplog.begin(), oplog.begin() + 2000);
  oplog.push_back(b);
  if (A.trace) fprintf(stdout, "  %s\n", b);
}
inline void logres(const char *f, ...) {
  char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (oplog.size()) oplog.back() += std::string(" -> ") + b;
  if (A.trace) fprintf(stdout, "      -> %s\n", b);
}
inline std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
inline void write_out(const char *key, const std::string &detail, u64 cas) {
  if (A.out.empty()) return;
  FILE *f = fopen((A.out + ".tmp").c_str(), "w");
  if (!f) { perror("out"); _exit(2); }
  fprintf(f, "{\"counts\":{");
  const char *sep = "";
  for (auto &k : S.c) { fprintf(f, "%s%s:%llu", sep, jesc(k.first).c_str(), (unsigned long long)k.second); sep = ","; }
  fprintf(f, "},\"distinct\":{"); sep = "";
  for (auto &k : S.distinct) {
    fprintf(f, "%s%s:[", sep, jesc(k.first).c_str()); sep = "";
    for (u64 v : k.second) { fprintf(f, "%s%llu", sep, (unsigned long long)v); sep = ","; }
    fprintf(f, "]"); sep = ",";
  }
  fprintf(f, "},\"samples\":["); sep = "";
  for (auto &s : S.samples) { fprintf(f, "%s%s", sep, jesc(s).c_str()); sep = ","; }
  fprintf(f, "]");
  if (key) {
    fprintf(f, ",\"violation\":{\"key\":%s,\"detail\":%s,\"case\":%llu,\"config\":%s,\"ops\":[", jesc(key).c_str(),
            jesc(detail).c_str(), (unsigned long long)cas, jesc(casehdr).c_str());
    sep = "";
    size_t k = oplog.size() > 300 ? oplog.size() - 300 : 0;
    for (; k < oplog.size(); k++) { fprintf(f, "%s%s", sep, jesc(oplog[k]).c_str()); sep = ","; }
    fprintf(f, "]}");
  }
  fprintf(f, "}\n");
  fclose(f);
  rename((A.out + ".tmp").c_str(), A.out.c_str());
}
static pid_t main_pid;
extern "C" void vi_lib_off(void);
/* the property is broken: report and end this run (exit 10) */
[[noreturn]] inline void violation(const char *key, const std::string &detail) {
  if (getpid() != main_pid) { /* a child of the driver: pass it on */
    fprintf(stdout, "CHILD %s: %s\n", key, detail.c_str()); fflush(stdout);
    if (SP) { snprintf(SP->what, sizeof SP->what, "%s|%s", key, detail.c_str()); }
    _exit(10);
  }
  write_out(key, detail, curcase);
  fprintf(stdout, "BAD case=%llu key=%s %s\n", (unsigned long long)curcase, key, detail.c_str());
  fflush(stdout);
  _exit(10);
}
[[noreturn]] inline void harness_error(const char *f, ...) {
  va_list ap; va_start(ap, f); fprintf(stdout, "HARNESS: "); vfprintf(stdout, f, ap); va_end(ap);
  fprintf(stdout, " (%s)\n", strerror(errno)); fflush(stdout);
  _exit(2);
}
inline void on_alarm(int) { _exit(12); }

inline void parse_args(int argc, char **argv) {
  main_pid = getpid();
  for (int k = 1; k + 1 < argc; k += 2) {
    std::string a = argv[k], v = argv[k + 1];
    if (a == "--prop") A.prop = v; else if (a == "--mode") A.mode = v;
    else if (a == "--dir") A.dir = v; else if (a == "--out") A.out = v;
    else if (a == "--status") A.status = v; else if (a == "--seed") A.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--from") A.from = strtoull(v.c_str(), 0, 10);
    else if (a == "--to") A.to = strtoull(v.c_str(), 0, 10);
    else if (a == "--trace") A.trace = atoi(v.c_str());
    else if (a == "--slow") A.slow = atoi(v.c_str());
    else if (a == "--tier") A.tier = atoi(v.c_str());
    else { fprintf(stdout, "HARNESS: bad argument %s\n", a.c_str()); _exit(2); }
  }
  if (!A.status.empty()) {
    int fd = open(A.status.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(StatusPage))) harness_error("status");
    SP = (StatusPage *)mmap(0, sizeof(StatusPage), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (SP == MAP_FAILED) harness_error("status map");
  }
  setvbuf(stdout, 0, _IOLBF, 0);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
}
inline void begin_case(u64 k) {
  curcase = k;
  oplog.clear();
  if (SP) { SP->cas = k; SP->op = 0; SP->what[0] = 0; }
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline u64 nowns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ULL + t.tv_nsec; }
/* processor time of a process, in ns */
inline u64 cpu_ns(pid_t pid) {
  char b[64]; int fd = open(fmt("/proc/%d/schedstat", pid).c_str(), O_RDONLY);
  if (fd < 0) return 0;
  int n = read(fd, b, 63); close(fd);
  if (n <= 0) return 0;
  b[n] = 0; return strtoull(b, 0, 10);
}
inline int count_fds() {
  int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  if (fd0_null()) n--;
  return n;
}
#endif
