#define _GNU_SOURCE
#include "vi.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <poll.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <sys/un.h>

#define EXP __attribute__((visibility("default")))

const char *vi_name[] = {
#define X(n) #n,
  VI_CALLS(X)
#undef X
};
volatile int vi_inlib;
int vi_fail_more, vi_failed, vi_failed_call = -1, vi_failed_errno;
unsigned long vi_ncall, vi_fail_at, vi_fail_hist[VI_NCALLS];
unsigned long long vi_fail_mask = ~0ULL;
unsigned vi_fail_pick;
int vi_count_heap;
long vi_heap_blocks;
int vi_lockmon, vi_syncmon;
volatile int vi_lock_viol;
void *volatile vi_lock_viol_pc, *volatile vi_lock_viol_addr;
unsigned long vi_lock_acq, vi_lock_faults;
unsigned long vi_nmsync, vi_nmsync_unlocked, vi_nmsync_async;
void (*vi_on_msync)(void *, size_t, int);
void (*vi_delay)(int);
size_t (*vi_on_memcpy)(void *, const void *, size_t);

#define REAL(name) ({ static __typeof__(&name) p_; \
  if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

/* errnos that each call may plausibly give */
static const int errs[VI_NCALLS][4] = {
  [VI_fcntl_lock] = {EINTR, ENOLCK, EDEADLK}, [VI_open] = {EMFILE, ENFILE, EACCES},
  [VI_fstat] = {EIO, ENOMEM}, [VI_mmap] = {ENOMEM, EAGAIN}, [VI_mlock] = {ENOMEM, EPERM},
  [VI_access] = {0}, [VI_unlink] = {EPERM, EBUSY}, [VI_ftruncate] = {ENOSPC, EFBIG, EIO},
  [VI_socket] = {EMFILE, ENFILE, ENOMEM, ENOBUFS}, [VI_bind] = {ENOMEM, EADDRINUSE},
  [VI_connect] = {EAGAIN, EINTR, ENOMEM}, [VI_setsockopt] = {ENOMEM}, [VI_getsockname] = {ENOBUFS},
  [VI_sendmsg] = {ENOMEM, ENOBUFS}, [VI_send] = {ENOMEM, ENOBUFS}, [VI_recvmsg] = {ENOMEM, EINTR},
  [VI_recvmmsg] = {ENOMEM}, [VI_ioctl] = {ENOMEM}, [VI_epoll_create] = {EMFILE, ENOMEM},
  [VI_epoll_ctl] = {ENOMEM, ENOSPC}, [VI_epoll_wait] = {EINTR}, [VI_malloc] = {ENOMEM},
  [VI_calloc] = {ENOMEM}, [VI_realloc] = {ENOMEM}, [VI_kill] = {EPERM}, [VI_opendir] = {EMFILE, EACCES},
  [VI_readlink] = {ENOENT, EACCES}, [VI_read] = {EIO, ENOMEM}, [VI_msync] = {0}, [VI_poll] = {EINTR},
  [VI_posix_fallocate] = {ENOSPC, EINTR, EIO},
};

/* 1 if this call is to fail; errno is set */
static int fail(int c) {
  if (!vi_inlib) return 0;
  if (vi_delay) vi_delay(c);
  if (!(vi_fail_mask >> c & 1) || !errs[c][0]) return 0;
  vi_ncall++;
  if (!vi_fail_at) return 0;
  if (vi_ncall == vi_fail_at || (vi_failed && vi_fail_more > 0 && c == vi_failed_call)) {
    int k = 0;
    if (vi_ncall != vi_fail_at) vi_fail_more--;
    while (k < 4 && errs[c][k]) k++;
    errno = errs[c][vi_fail_pick % k];
    vi_failed++; vi_failed_call = c; vi_failed_errno = errno; vi_fail_hist[c]++;
    return 1;
  }
  return 0;
}

/* ---- lock monitor: mappings of locked files ---- */
#define MAXMAP 256
static struct { char *a; size_t len; dev_t d; ino_t i; } maps[MAXMAP];
#define MAXLK 64
static struct { dev_t d; ino_t i; } lks[MAXLK];
static int nlk;

int vi_guard;
#ifdef __SANITIZE_ADDRESS__
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
static size_t tail(size_t len) { return (4096 - len % 4096) % 4096; }
#endif
int vi_map_of(void *a, char **base, size_t *len) {
  for (int k = 0; k < MAXMAP; k++)
    if (maps[k].a && (char *)a >= maps[k].a && (char *)a < maps[k].a + maps[k].len) {
      *base = maps[k].a; *len = maps[k].len; return 1;
    }
  return 0;
}
int vi_lock_held(void) { return nlk; }
static int held(dev_t d, ino_t i) {
  for (int k = 0; k < nlk; k++) if (lks[k].d == d && lks[k].i == i) return 1;
  return 0;
}
static void protect(dev_t d, ino_t i, int prot) {
  for (int k = 0; k < MAXMAP; k++)
    if (maps[k].a && maps[k].d == d && maps[k].i == i) mprotect(maps[k].a, maps[k].len, prot);
}
/* if set: a counter in shared memory that is advanced with each lock taken */
volatile unsigned long *vi_seqctr;
unsigned long vi_seqlast;
static void on_locked(int fd) {
  struct stat st;
  if (vi_seqctr && vi_inlib) vi_seqlast = __sync_add_and_fetch(vi_seqctr, 1);
  int (*fs)(int, struct stat *) = REAL(fstat);
  if (fs(fd, &st)) return;
  vi_lock_acq++;
  if (!held(st.st_dev, st.st_ino) && nlk < MAXLK) { lks[nlk].d = st.st_dev; lks[nlk].i = st.st_ino; nlk++; }
  if (vi_lockmon) protect(st.st_dev, st.st_ino, PROT_READ | PROT_WRITE);
}
static void on_unlock(int fd) { /* before the unlock, or a close, which unlocks too */
  struct stat st;
  int (*fs)(int, struct stat *) = REAL(fstat);
  if (nlk == 0) return;
  if (fs(fd, &st)) return;
  for (int k = 0; k < nlk; k++) if (lks[k].d == st.st_dev && lks[k].i == st.st_ino) {
    lks[k] = lks[--nlk];
    if (vi_lockmon) protect(st.st_dev, st.st_ino, PROT_READ);
    return;
  }
}
static struct sigaction old_segv;
static void segv(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = uc_;
  char *a = si->si_addr;
  for (int k = 0; k < MAXMAP; k++)
    if (maps[k].a && a >= maps[k].a && a < maps[k].a + maps[k].len) {
      /* a write (error code bit 1) to a mapping whose lock is not held */
      if (uc->uc_mcontext.gregs[REG_ERR] & 2) {
        if (!vi_lock_viol) {
          vi_lock_viol_pc = (void *)uc->uc_mcontext.gregs[REG_RIP];
          vi_lock_viol_addr = (void *)(a - maps[k].a);
        }
        vi_lock_viol++;
        vi_lock_faults++;
        mprotect(maps[k].a, maps[k].len, PROT_READ | PROT_WRITE);
        return;
      }
    }
  sigaction(SIGSEGV, &old_segv, NULL); /* not ours: fault again, fatally */
}
void vi_lockmon_init(void) {
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, &old_segv);
  vi_lockmon = 1;
}

/* ---- wrappers ---- */
static int do_fcntl(int (*real)(int, int, ...), int fd, int cmd, void *arg) {
  int rc;
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) {
    struct flock *f = arg;
    if (f->l_type == F_UNLCK) {
      if (vi_inlib && vi_delay) vi_delay(VI_fcntl_lock);
      on_unlock(fd);
      rc = real(fd, cmd, arg);
      if (vi_inlib && vi_delay) vi_delay(VI_fcntl_lock);
      return rc;
    }
    if (fail(VI_fcntl_lock)) return -1;
    rc = real(fd, cmd, arg);
    if (rc == 0 && f->l_type == F_WRLCK) on_locked(fd);
    else if (rc == 0) on_unlock(fd);
    if (vi_inlib && vi_delay) vi_delay(VI_fcntl_lock);
    return rc;
  }
  return real(fd, cmd, arg);
}
EXP int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  return do_fcntl(REAL(fcntl), fd, cmd, arg);
}
EXP int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
  return do_fcntl(REAL(fcntl), fd, cmd, arg);
}
EXP int close(int fd) { on_unlock(fd); return REAL(close)(fd); }
EXP int open(const char *f, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap);
  if (fail(VI_open)) return -1;
  return REAL(open)(f, fl, m);
}
EXP int open64(const char *f, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap);
  if (fail(VI_open)) return -1;
  return REAL(open)(f, fl, m);
}
EXP int fstat(int fd, struct stat *st) { if (fail(VI_fstat)) return -1; return REAL(fstat)(fd, st); }
void *volatile vi_last_map; volatile size_t vi_last_len; /* the ring mapped last */
EXP void *mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
  void *p;
  if (vi_inlib && fail(VI_mmap)) return MAP_FAILED;
  p = REAL(mmap)(a, len, prot, flags, fd, off);
  if (vi_inlib && p != MAP_FAILED && fd >= 0 && (flags & MAP_SHARED)) {
    struct stat st;
    vi_last_len = len; vi_last_map = p;
    if (REAL(fstat)(fd, &st) == 0)
      for (int k = 0; k < MAXMAP; k++) if (!maps[k].a) {
        maps[k].a = p; maps[k].len = len; maps[k].d = st.st_dev; maps[k].i = st.st_ino;
        if (vi_lockmon && !held(st.st_dev, st.st_ino)) mprotect(p, len, PROT_READ);
#ifdef __SANITIZE_ADDRESS__
        if (vi_guard && tail(len)) __asan_poison_memory_region((char *)p + len, tail(len));
#endif
        break;
      }
  }
  return p;
}
EXP int munmap(void *a, size_t len) {
  if (a == vi_last_map) vi_last_map = NULL;
  for (int k = 0; k < MAXMAP; k++) if (maps[k].a == a && a) {
    maps[k].a = NULL;
#ifdef __SANITIZE_ADDRESS__
    if (vi_guard && tail(len)) __asan_unpoison_memory_region((char *)a + len, tail(len));
#endif
  }
  return REAL(munmap)(a, len);
}
EXP int mlock(const void *a, size_t n) { if (fail(VI_mlock)) return -1; return REAL(mlock)(a, n); }
EXP int unlink(const char *f) { if (fail(VI_unlink)) return -1; return REAL(unlink)(f); }
EXP int ftruncate(int fd, off_t n) { if (fail(VI_ftruncate)) return -1; return REAL(ftruncate)(fd, n); }
EXP int posix_fallocate(int fd, off_t o, off_t n) { if (fail(VI_posix_fallocate)) return errno; return REAL(posix_fallocate)(fd, o, n); }
EXP int fallocate(int fd, int m, off_t o, off_t n) { if (fail(VI_posix_fallocate)) return -1; return REAL(fallocate)(fd, m, o, n); }
EXP int socket(int d, int t, int p) { if (fail(VI_socket)) return -1; return REAL(socket)(d, t, p); }
/* stand-ins: the process id that the library sees; the pool that the names of autobound sockets are from */
int vi_pid; unsigned vi_names, vi_name_base, vi_name_next;
EXP pid_t getpid(void) {
  static pid_t (*real)(void);
  if (vi_inlib && vi_pid) return vi_pid;
  if (!real) real = dlsym(RTLD_NEXT, "getpid");
  return real();
}
EXP int bind(int fd, const struct sockaddr *a, socklen_t l) {
  if (fail(VI_bind)) return -1;
  if (vi_inlib && vi_names && a->sa_family == AF_UNIX && l == sizeof(sa_family_t)) {
    struct sockaddr_un u;
    for (unsigned k = 0; k < vi_names; k++) {
      memset(&u, 0, sizeof u); u.sun_family = AF_UNIX;
      snprintf(u.sun_path + 1, 8, "%05x", (vi_name_base + (vi_name_next + k) % vi_names) & 0xfffff);
      if (REAL(bind)(fd, (struct sockaddr *)&u, sizeof(sa_family_t) + 6) == 0) { vi_name_next += k; return 0; }
      if (errno != EADDRINUSE) return -1;
    }
  }
  return REAL(bind)(fd, a, l);
}
EXP int connect(int fd, const struct sockaddr *a, socklen_t l) { if (fail(VI_connect)) return -1; return REAL(connect)(fd, a, l); }
EXP int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { if (fail(VI_setsockopt)) return -1; return REAL(setsockopt)(fd, l, o, v, n); }
EXP int getsockname(int fd, struct sockaddr *a, socklen_t *l) { if (fail(VI_getsockname)) return -1; return REAL(getsockname)(fd, a, l); }
EXP ssize_t sendmsg(int fd, const struct msghdr *m, int f) { if (fail(VI_sendmsg)) return -1; return REAL(sendmsg)(fd, m, f); }
EXP ssize_t send(int fd, const void *b, size_t n, int f) { if (fail(VI_send)) return -1; return REAL(send)(fd, b, n, f); }
EXP ssize_t recvmsg(int fd, struct msghdr *m, int f) { if (fail(VI_recvmsg)) return -1; return REAL(recvmsg)(fd, m, f); }
EXP int recvmmsg(int fd, struct mmsghdr *m, unsigned n, int f, struct timespec *t) { if (fail(VI_recvmmsg)) return -1; return REAL(recvmmsg)(fd, m, n, f, t); }
EXP int ioctl(int fd, unsigned long r, ...) {
  va_list ap; va_start(ap, r); void *arg = va_arg(ap, void *); va_end(ap);
  if (fail(VI_ioctl)) return -1;
  return REAL(ioctl)(fd, r, arg);
}
EXP int epoll_create(int n) { if (fail(VI_epoll_create)) return -1; return REAL(epoll_create)(n); }
EXP int epoll_create1(int n) { if (fail(VI_epoll_create)) return -1; return REAL(epoll_create1)(n); }
EXP int epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { if (fail(VI_epoll_ctl)) return -1; return REAL(epoll_ctl)(e, op, fd, ev); }
EXP int epoll_wait(int e, struct epoll_event *ev, int n, int t) { if (fail(VI_epoll_wait)) return -1; return REAL(epoll_wait)(e, ev, n, t); }
EXP int kill(pid_t p, int s) { if (fail(VI_kill)) return -1; return REAL(kill)(p, s); }
EXP DIR *opendir(const char *n) { if (fail(VI_opendir)) return NULL; return REAL(opendir)(n); }
EXP ssize_t readlink(const char *p, char *b, size_t n) { if (fail(VI_readlink)) return -1; return REAL(readlink)(p, b, n); }
EXP ssize_t read(int fd, void *b, size_t n) { if (fail(VI_read)) return -1; return REAL(read)(fd, b, n); }
EXP int msync(void *a, size_t n, int f) {
  int rc;
  if (vi_inlib) {
    vi_nmsync++;
    if (!nlk) vi_nmsync_unlocked++;
    if (!(f & MS_SYNC)) vi_nmsync_async++;
    if (vi_syncmon == 2) { errno = EIO; return -1; }
  }
  rc = REAL(msync)(a, n, f);
  if (vi_inlib && rc == 0 && (f & MS_SYNC) && vi_on_msync) vi_on_msync(a, n, nlk);
  return rc;
}
EXP int fsync(int fd) {
  int rc = REAL(fsync)(fd);
  if (vi_inlib && rc == 0 && vi_on_msync) vi_on_msync(NULL, 0, nlk);
  return rc;
}
EXP int fdatasync(int fd) {
  int rc = REAL(fdatasync)(fd);
  if (vi_inlib && rc == 0 && vi_on_msync) vi_on_msync(NULL, 0, nlk);
  return rc;
}
#ifndef VI_NO_MEMCPY
EXP void *memcpy(void *d, const void *s, size_t n) { /* no restrict: the compiler must not turn memmove into memcpy */
  static void *(*volatile mv)(void *, const void *, size_t) = memmove;
  if (vi_inlib && vi_on_memcpy && n) { /* a delay before the copy, or part way through it */
    size_t k = vi_on_memcpy(d, s, n);
    if (k && k < n) { mv(d, s, k); vi_on_memcpy(d, s, 0); mv((char *)d + k, (char *)s + k, n - k); return d; }
  }
  return mv(d, s, n);
}
#endif

#ifndef VI_NO_MALLOC
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
EXP void *malloc(size_t n) {
  if (vi_inlib && fail(VI_malloc)) return NULL;
  void *p = __libc_malloc(n);
  if (p && vi_inlib && vi_count_heap) vi_heap_blocks++;
  return p;
}
EXP void *calloc(size_t a, size_t b) {
  if (vi_inlib && fail(VI_calloc)) return NULL;
  void *p = __libc_calloc(a, b);
  if (p && vi_inlib && vi_count_heap) vi_heap_blocks++;
  return p;
}
EXP void *realloc(void *q, size_t n) {
  if (vi_inlib && fail(VI_realloc)) return NULL;
  void *p = __libc_realloc(q, n);
  if (p && !q && vi_inlib && vi_count_heap) vi_heap_blocks++;
  return p;
}
EXP void free(void *p) {
  if (p && vi_inlib && vi_count_heap) vi_heap_blocks--;
  __libc_free(p);
}
#endif
