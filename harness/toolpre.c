/* Stand-ins for shr-tool runs (LD_PRELOAD). Each is enabled by the environment.
 *  TP_LOG    file to which mount, umount and shr_init calls are recorded, one per line
 *  TP_SHORT  seed: writes of more than 4 bytes to a file that is no regular file are cut short
 *  TP_INO    inode of the directory whose file system and device are made up
 *  TP_DEV    1: the directory is a mount point (its device differs)
 *  TP_TYPE   file system magic for that directory (and TP_PARENT, the inode of its parent, if no mount point)
 *  TP_BLOCKS, TP_BFREE, TP_BSIZE
 *  TP_MOUNT  errno that mount ends with (0: success)    TP_UMOUNT likewise
 *  TP_SYS    file that stands for those under /proc/sys, which are never opened; TP_SYSFAIL: errno that opening it ends with
 *  TP_INIT   record shr_init and do not carry it out
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/vfs.h>
#include <sys/uio.h>
#include <unistd.h>

static unsigned long num(const char *n, unsigned long dflt) {
  char *v = getenv(n);
  return v && *v ? strtoul(v, NULL, 0) : dflt;
}

static void rec(const char *fmt, ...) {
  char b[8192];
  va_list ap;
  char *p = getenv("TP_LOG");
  int fd, n;
  if (!p) return;
  va_start(ap, fmt);
  n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof(b) - 2) n = sizeof(b) - 2;
  b[n++] = '\n';
  fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  syscall(SYS_write, fd, b, n);
  close(fd);
}

static int sysstat(const char *p, struct stat *s) {
  return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
}

static int iskernels(const char *p) { return p && (!strncmp(p, "/proc/sys/", 10) || !strncmp(p, "/sys/", 5)); }
static int opener(int at, const char *p, int fl, int mode) {
  if (iskernels(p)) {
    int e = num("TP_SYSFAIL", 0);
    if ((fl & O_ACCMODE) != O_RDONLY) rec("sys %s", p);
    if (e) { errno = e; return -1; }
    p = getenv("TP_SYS") ? getenv("TP_SYS") : "/dev/null";
    fl &= ~(O_CREAT | O_EXCL); /* no file can be made there */
  }
  return syscall(SYS_openat, at, p, fl, mode);
}
#define MODE int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return opener(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { MODE return opener(AT_FDCWD, p, fl, mode); }
int openat(int at, const char *p, int fl, ...) { MODE return opener(at, p, fl, mode); }
int openat64(int at, const char *p, int fl, ...) { MODE return opener(at, p, fl, mode); }
int creat(const char *p, mode_t mode) { return opener(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
static FILE *fopener(const char *n, const char *p, const char *m) {
  FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, n);
  if (iskernels(p)) {
    int fl = strchr(m, '+') ? O_RDWR : *m == 'r' ? O_RDONLY : O_WRONLY, fd = opener(AT_FDCWD, p, fl, 0);
    return fd < 0 ? NULL : fdopen(fd, m);
  }
  return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return fopener("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return fopener("fopen64", p, m); }

/* what the made up mount does to a stat result */
static void fake(struct stat *s) {
  unsigned long ino = num("TP_INO", 0);
  if (ino && num("TP_DEV", 0) && s->st_ino == ino && S_ISDIR(s->st_mode)) s->st_dev ^= 0x5a00;
}

int stat(const char *p, struct stat *s) { int r = sysstat(p, s); if (!r) fake(s); return r; }
int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
int fstatat(int fd, const char *p, struct stat *s, int fl) {
  int r = syscall(SYS_newfstatat, fd, p, s, fl);
  if (!r) fake(s);
  return r;
}
int fstatat64(int fd, const char *p, struct stat64 *s, int fl) { return fstatat(fd, p, (struct stat *)s, fl); }
int lstat(const char *p, struct stat *s) { return fstatat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *)s); }
int fstat(int fd, struct stat *s) { int r = syscall(SYS_fstat, fd, s); if (!r) fake(s); return r; }
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }

static void fakefs(struct stat *s, struct statfs *f) {
  unsigned long ino = num("TP_INO", 0);
  if (!ino) return;
  if (s->st_ino == ino || (!num("TP_DEV", 0) && s->st_ino == num("TP_PARENT", 0))) {
    f->f_type = num("TP_TYPE", f->f_type);
    f->f_bsize = num("TP_BSIZE", f->f_bsize);
    f->f_blocks = num("TP_BLOCKS", f->f_blocks);
    f->f_bfree = num("TP_BFREE", f->f_bfree);
  }
}
int statfs(const char *p, struct statfs *f) {
  struct stat s;
  int r = syscall(SYS_statfs, p, f);
  if (!r && !sysstat(p, &s)) fakefs(&s, f);
  return r;
}
int statfs64(const char *p, struct statfs64 *f) { return statfs(p, (struct statfs *)f); }
int fstatfs(int fd, struct statfs *f) {
  struct stat s;
  int r = syscall(SYS_fstatfs, fd, f);
  if (!r && !syscall(SYS_fstat, fd, &s)) fakefs(&s, f);
  return r;
}
int fstatfs64(int fd, struct statfs64 *f) { return fstatfs(fd, (struct statfs *)f); }

static unsigned long inode(const char *p) {
  struct stat s;
  return p && !sysstat(p, &s) ? s.st_ino : 0;
}

int mount(const char *src, const char *dir, const char *type, unsigned long fl, const void *data) {
  int e = num("TP_MOUNT", 0);
  struct stat s;
  rec("mount %lu type=%s flags=%lu data=%s", inode(dir), type ? type : "", fl, data ? (const char *)data : "");
  if (!e && sysstat(dir, &s)) e = errno;
  else if (!e && !S_ISDIR(s.st_mode)) e = ENOTDIR;
  if (!e && strcmp(type, "tmpfs") && strcmp(type, "ramfs") && strcmp(type, "hugetlbfs")) e = ENODEV;
  if (e) { errno = e; return -1; }
  return 0;
}
static int um(const char *dir) {
  int e = num("TP_UMOUNT", 0);
  rec("umount %lu", inode(dir));
  if (!e && !inode(dir)) e = ENOENT;
  if (e) { errno = e; return -1; }
  return 0;
}
int umount(const char *dir) { return um(dir); }
int umount2(const char *dir, int fl) { return um(dir); }

int shr_init(char *file, size_t sz, unsigned flags, ...) {
  int (*real)(char *, size_t, unsigned, ...) = dlsym(RTLD_NEXT, "shr_init");
  size_t a[3];
  va_list ap;
  va_start(ap, flags);
  a[0] = va_arg(ap, size_t);
  a[1] = va_arg(ap, size_t);
  a[2] = va_arg(ap, size_t);
  va_end(ap);
  if (!getenv("TP_INIT")) return real(file, sz, flags, a[0], a[1], a[2]);
  { /* what is asked for, however it is put */
    int n = 0; char *app = NULL; size_t al = 0, mm = 0, k; unsigned h = 7;
    if (flags & 4) { app = (char *)a[n++]; al = a[n++]; }
    if (flags & 16) mm = a[n++];
    for (k = 0; k < al; k++) h = h * 31 + (unsigned char)app[k];
    rec("init %zu %u app %zu %u max %zu %s", sz, flags & ~20u, al, h, mm, file);
  }
  return 0;
}

static uint64_t rs;
static int shorten(int fd) {
  struct stat s;
  char *v = getenv("TP_SHORT");
  if (!v) return 0;
  if (syscall(SYS_fstat, fd, &s) || S_ISREG(s.st_mode) || fd == 2) return 0;
  if (!rs) rs = strtoull(v, NULL, 0) * 2654435761u + 88172645463325252ull;
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return 1;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (n > 4 && shorten(fd) && rs % 4) n = 1 + (rs >> 8) % (rs % 8 == 1 ? 4 : n);
  return syscall(SYS_write, fd, b, n);
}
