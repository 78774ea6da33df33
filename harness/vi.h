/* Interposition layer: wrappers of libc functions that the libraries under
 * test call. They are inert unless a monitor is armed. */
#ifndef VI_H
#define VI_H
#include <stddef.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif

#define VI_CALLS(X) X(fcntl_lock) X(open) X(fstat) X(mmap) X(mlock) X(access) \
  X(unlink) X(ftruncate) X(socket) X(bind) X(connect) X(setsockopt) \
  X(getsockname) X(sendmsg) X(send) X(recvmsg) X(recvmmsg) X(ioctl) \
  X(epoll_create) X(epoll_ctl) X(epoll_wait) X(malloc) X(calloc) X(realloc) \
  X(kill) X(opendir) X(readlink) X(read) X(msync) X(poll) X(posix_fallocate)
enum vi_call {
#define X(n) VI_##n,
  VI_CALLS(X)
#undef X
  VI_NCALLS
};
extern const char *vi_name[];

/* set around an API call by the driver; wrappers act only while it is set */
extern volatile int vi_inlib;

/* fault plan: fail the vi_fail_at-th (1-based) eligible call with an errno
 * that suits it, and vi_fail_more further calls of the same kind */
extern unsigned long vi_ncall;      /* eligible calls seen since reset */
extern unsigned long vi_fail_at;    /* 0: none */
extern int vi_fail_more;
extern unsigned vi_fail_pick;       /* picks among the errnos */
extern int vi_failed;               /* number of injected failures */
extern int vi_failed_call;
extern int vi_failed_errno;
extern unsigned long vi_fail_hist[VI_NCALLS];
extern unsigned long long vi_fail_mask; /* eligible calls */

/* live heap blocks allocated inside API calls (plain build) */
extern int vi_count_heap;
extern long vi_heap_blocks;

/* lock monitor */
extern int vi_lockmon;              /* protect ring mappings unless locked */
extern volatile int vi_lock_viol;   /* writes seen without the lock */
extern void *volatile vi_lock_viol_pc;
extern void *volatile vi_lock_viol_addr;
extern unsigned long vi_lock_acq;   /* lock acquisitions seen */
extern unsigned long vi_lock_faults;
int vi_lock_held(void);             /* any ring lock held now? */
void vi_lockmon_init(void);
int vi_map_of(void *a, char **base, size_t *len); /* ring mapping that holds a */
extern int vi_guard;                /* poison the page tail behind a mapping */

/* sync monitor */
extern int vi_syncmon;
extern unsigned long vi_nmsync;     /* msync calls inside API calls */
extern unsigned long vi_nmsync_unlocked, vi_nmsync_async;
extern void (*vi_on_msync)(void *addr, size_t len, int locked);

/* delays: called at interesting points inside API calls */
extern void (*vi_delay)(int point);
/* called before the memcpy of message data and the like (n >= 1) */
extern size_t (*vi_on_memcpy)(void *d, const void *s, size_t n); /* says where to split the copy; called with n 0 at the split */

#ifdef __cplusplus
}
#endif
#endif
