From 1300e2198b293be5723132f06386b671ed7de8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 01/29] fix: shr_writev: reject empty and oversized elements
 anywhere in the iovec

Only a zero length first element was rejected. A later one got as far as
assert(bsz > 0), aborting the writer after it moved the write offset, so
that later writes could overwrite unread messages. The sum of the lengths
could also wrap around.
---
 src/shr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index fe081c0..6f3ca3f 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -886,8 +886,9 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   mv = (struct msg*)(r->d + r->n + r->pad_len);
 
   for(i=0; i < niov; i++) {
+    if (iov[i].iov_len == 0) goto done;
+    if (iov[i].iov_len > s->n) goto done;
     len += iov[i].iov_len;
-    if (len == 0) goto done;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
     if (niov > s->mm) goto done;
-- 
2.43.0


From a85e63f1ac5f026a7f9a9474ab8b667ce35cad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 02/29] fix: shr_appdata: copy only the app-data, not the
 caller's buffer size

A caller's buffer larger than the app-data made the get copy *sz bytes,
reading past the end of the app-data and of the mapped ring.
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 6f3ca3f..163f005 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1061,7 +1061,7 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get != NULL) && (set == NULL)) {
     if (*sz < r->app_len) goto done;
-    memcpy(*get, ad, *sz);
+    memcpy(*get, ad, r->app_len);
     *sz = r->app_len;
   }
 
-- 
2.43.0


From d1a7b4dceb8a62f4df48921340409deb584d8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 03/29] fix: has_socket_name: skip unnamed sockets in
 /proc/net/unix

An unnamed socket has no name column. The scan gave up on the first one,
so that on nearly every system a dead waiter whose pid still exists (a
zombie, or a reused pid) could not be told from a live one: its slot was
never released, and opening or writing the ring failed on it.
---
 lib/ux.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index b55e902..6f57c77 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -269,12 +269,11 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
       b++;
     }
 
-    /* name is after inode */
+    /* name is after inode; unnamed sockets lack it */
     name = get_col(8, &len, line, sz-(line-buf));
-    if (name == NULL) goto done;
 
     /* does name match? */
-    if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
+    if (name && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
       
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
@@ -287,7 +286,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     }
 
     /* advance to next line */
-    b = name+len;
+    b = inode;
     while ((b < buf+sz) && (*b != '\n')) b++;
     line = b+1;
   }
-- 
2.43.0


From 0606dc72388830bcd5872318370c3d137d8527fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 04/29] fix: bw: tolerate a dead waiter whose reused pid cannot
 be examined

If the pid in a dead waiter's slot now belongs to another user's process,
/proc/<pid>/fd is unreadable, and each wake-mode open and wakeup failed on
the refused connection for as long as that process lived.
---
 lib/bw.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index bb21a13..6a76f64 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -161,6 +161,10 @@ static int open_socket(bw_t *w, int n) {
     return 0;
   }
 
+  /* its pid exists but can't be examined, and nothing
+   * is bound to the name; no one to wake. keep slot */
+  if ((sc < 0) && (errtmp == ECONNREFUSED)) return 0;
+
   /* any other reason for connect failure is error */
   bw_log("connect: %s\n", strerror(errtmp));
   return -1;
-- 
2.43.0


From c7dcd5c0c7c5145acf4cedc5ba66794d9d05d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 05/29] fix: release descriptors, memory and slots when an open
 fails

A failed bw_open in wake mode left its sockets open, shr_open failing after
open_blockwake left both bw handles open (and their slots occupied), and
get_socket_inodes left its directory stream open on errors.
---
 lib/bw.c  | 3 +++
 lib/ux.c  | 2 +-
 src/shr.c | 4 ++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/bw.c b/lib/bw.c
index 6a76f64..b964b97 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -429,6 +429,9 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
     if (w->listenfd != -1) close(w->listenfd);
     if (w->selffd != -1) close(w->selffd);
     if (w->epollfd != -1) close(w->epollfd);
+    for(n=0; n < BW_WAITMAX; n++) {
+      if (w->fd[n] != -1) close(w->fd[n]);
+    }
     free(w);
     w = NULL;
   }
diff --git a/lib/ux.c b/lib/ux.c
index 6f57c77..4c4a9f3 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -117,10 +117,10 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
-  closedir(d);
   rc = 0;
 
  done:
+  if (d) closedir(d);
   return rc;
 }
 
diff --git a/src/shr.c b/src/shr.c
index 163f005..ef2e5f9 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -612,8 +612,12 @@ struct shr *shr_open(const char *file, unsigned flags, ...) {
   rc = 0;
 
  done:
+  if (rc && s && s->r2w) bw_close(s->r2w);
+  if (rc && s && s->w2r) bw_close(s->w2r);
   if (s && (s->ring_fd != -1)) unlock(s->ring_fd);
   if (s && rc) {
+    if (s->c.buf) free(s->c.buf);
+    if (s->c.iov) free(s->c.iov);
     if (s->ring_fd != -1) close(s->ring_fd);
     if (s->buf) munmap(s->buf, s->s.st_size);
     free(s);
-- 
2.43.0


From 350a7eeae8e9ee4ca3b1ccfa72e380b00013f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 06/29] fix: shr_writev: do not report an error for a write
 that took effect

When the wakeup of readers failed (such as when connecting to a new reader
while out of descriptors) the messages were in the ring already, yet -1 was
returned and the write statistics left out. A caller that retries wrote the
messages twice. Issue the wakeup first; readers wait for the lock.
---
 src/shr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index ef2e5f9..0d7bc7c 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -955,6 +955,11 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   assert(r->m + niov <= r->mm);
   assert(r->mp <= r->mm);
 
+  /* wake readers before the write takes effect, so that an error
+   * here leaves nothing written. they await the lock we hold. */
+  sc = bw_wake(s->w2r);
+  if (sc) goto done;
+
   /* advance eldest position if our write will overwrite
    * its data or occupy its slot in mv. copy volatile r->*
    * to involatile locals here for speed; we hold lock */
@@ -1006,8 +1011,6 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->mp += niov;
   r->m += niov;
 
-  sc = bw_wake(s->w2r);
-  if (sc) goto done;
   r->stat.bw += len;
   r->stat.mw += niov;
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From d6998d8807b32b660f5be41f20fba6f2f4beabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 07/29] fix: shr_writev: advance the write offset only once the
 copy is complete

A writer killed while copying a message in (say, by a signal) had advanced
r->i for the messages of its iovec copied so far, without accounting for
them in r->u. The next write then saw more free space than there was, and
evicted and overwrote unread messages.
---
 src/shr.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 0d7bc7c..6e852a0 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -879,7 +879,7 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
  *
  */
 ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
-  size_t bsz, len=0, i, l1, l2, p, l, e, a, mp;
+  size_t bsz, len=0, i, l1, l2, p, l, e, a, mp, w;
   int rc = -1, sc, msg_wraps;
   shr_ctrl *r = s->r;
   struct msg *mv;
@@ -985,28 +985,31 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->q += a;
   r->mp = mp;
 
-  /* finally. copy the data in */
+  /* finally. copy the data in. r->i stays put until the whole
+   * copy is done, lest we're killed before it is accounted for */
   p = ( r->e + r->mp ) % r->mm;
+  w = r->i;
 
   for(i=0; i < niov; i++) {
     buf = iov[i].iov_base;
     bsz = iov[i].iov_len;
     assert(bsz > 0);
 
-    mv[ p ].pos = r->i;
+    mv[ p ].pos = w;
     mv[ p ].len = bsz;
 
-    msg_wraps = (r->i + bsz > r->n) ? 1 : 0;
-    l1 = msg_wraps ? (r->n - r->i) : bsz;
+    msg_wraps = (w + bsz > r->n) ? 1 : 0;
+    l1 = msg_wraps ? (r->n - w) : bsz;
     l2 = msg_wraps ? (bsz - l1) : 0;
 
-    memcpy(r->d + r->i, buf, l1);
+    memcpy(r->d + w, buf, l1);
     if (l2) memcpy(r->d, buf + l1, l2);
-    r->i = (r->i + bsz) % r->n;
+    w = (w + bsz) % r->n;
     p++;
     if (p == r->mm) p = 0;
   }
 
+  r->i = w;
   r->u += len;
   r->mp += niov;
   r->m += niov;
-- 
2.43.0


From 6ba9bcc7a33ef7c0958cf9a94b306d32da907315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 08/29] fix: shr_init: reject sizes whose sum overflows

A message count such as (size_t)-1 (shr-tool create -N -1) made the size of
the file wrap around: shr_init succeeded, and shr_open accepted a ring with
more message slots than its file has room for.
---
 src/shr.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 6e852a0..c690b96 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -200,7 +200,7 @@ static int shr_sync(shr *s) {
  *
  */
 int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
-  size_t appsize=0, sz=0, mv_bytes, max_msgs=0, pad, m;
+  size_t appsize=0, sz=0, mv_bytes, max_msgs=0, pad, m, lim;
   int rc = -1, fd = -1, exists, sc;
   char *appdata=NULL, *buf=NULL;
 
@@ -233,6 +233,15 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     goto done;
   } 
   
+  /* the sum of the ring's areas must not wrap around */
+  lim = SSIZE_MAX - sizeof(shr_ctrl) - sizeof(void*);
+  if ((data_sz > lim) ||
+      (max_msgs > (lim - data_sz) / sizeof(struct msg)) ||
+      (appsize > lim - data_sz - mv_bytes)) {
+    shr_log("shr_init: invalid size\n");
+    goto done;
+  }
+
   sc = exists ? unlink(file) : 0;
   if (sc < 0) {
     shr_log("unlink %s: %s\n", file, strerror(errno));
-- 
2.43.0


From 64e25f8efdc1b5758baae19b739b3261f8ed0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 09/29] fix: shr-tool read: detect failure to write to stdout

The result of write was kept in a size_t, so that an error (a closed pipe,
a full disk) went unnoticed, and the tool looped forever with its signals
blocked.
---
 util/shr-tool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3264aa1..04fe5e1 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -654,9 +654,9 @@ int handle_signal(void) {
  */
 int handle_io(void) {
   int rc = -1, sc, fl;
-  ssize_t nr, np;
+  ssize_t nr, np, nw;
   uint32_t len32;
-  size_t len, nw;
+  size_t len;
   char *out;
 
   nr = shr_read(cfg.shr, cfg.buf, BUFLEN);
-- 
2.43.0


From ccf6706c1a8a810a46753c8f5013f83eefef4959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 10/29] fix: shr-tool writehex: accept hex digits only

The scanf conversion also takes blanks, a sign and a 0x prefix: "-1" failed
an assertion, while " 1", "4g" and "0x" were written as if they were hex.
---
 util/shr-tool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 04fe5e1..387bab3 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -16,6 +16,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <netdb.h>
+#include <ctype.h>
 #include <errno.h>
 #include <fcntl.h>
 #include <time.h>
@@ -197,6 +198,8 @@ int unhex(char *h) {
   if (len == 0) goto done;
   if (len &  1) goto done; /* odd number of digits */
   for(i=0; i < len; i += 2) {
+    if (!isxdigit((unsigned char)h[i])) goto done;
+    if (!isxdigit((unsigned char)h[i+1])) goto done;
     if (sscanf( &h[i], "%2x", &u) < 1) goto done;
     assert(u <= 255);
     b = (unsigned char)u;
-- 
2.43.0


From 11f5af243c222491ee85f717658add605617d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 11/29] fix: shr-tool pub: keep running when its client resets
 the connection

A subscriber that exits with unread data in its socket resets the connection,
which ended the publisher. Await another client, as after a disconnect.
---
 util/shr-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 387bab3..167a8cd 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -568,7 +568,7 @@ int handle_client(void) {
   if (nr < 0) {
     fprintf(stderr, "recv: %s\n", strerror(errno) );
     close_client();
-    return -1;
+    return 0;
   }
 
   if (nr == 0) {
-- 
2.43.0


From 6f8c7bdeb1a1528be50ae4a14f31fe4d243b40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 12/29] fix: shr-tool sub: make room for the biggest frame it
 accepts

A frame of BUFLEN - 3 bytes or more, though shorter than MAX_FRAME, filled
the buffer without ever becoming complete, and failed an assertion. pub
sends frames of up to BUFLEN bytes.
---
 util/shr-tool.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 167a8cd..d8dcd07 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -14,6 +14,7 @@
 #include <assert.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <netdb.h>
 #include <ctype.h>
@@ -36,11 +37,11 @@ extern char **environ;
  * resulting binary gets much larger */
 #define BUFLEN 1000000
 #define NUMIOV (1024 * 1024)
-char buf_bss[BUFLEN];
-struct iovec iov_bss[NUMIOV];
-
 /* subscriber safeguard */
 #define MAX_FRAME (1024*1024)
+/* must hold the biggest frame and its length prefix */
+char buf_bss[MAX_FRAME + sizeof(uint32_t)];
+struct iovec iov_bss[NUMIOV];
 
 struct {
   char *prog;
@@ -514,8 +515,8 @@ int do_subscriber(void) {
    * any time we read data we process it right here,
    * leaving at most a tiny fragment of a partial
    * frame to prepend the next read */
-  assert(cfg.sub_buf_used < BUFLEN);
-  avail = BUFLEN - cfg.sub_buf_used;
+  assert(cfg.sub_buf_used < sizeof(buf_bss));
+  avail = sizeof(buf_bss) - cfg.sub_buf_used;
   b = cfg.buf + cfg.sub_buf_used;
 
   nr = read(cfg.sub_fd, b, avail);
-- 
2.43.0


From 49c47646d1bc8cd742c978d21a344b123af31fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 13/29] fix: shr-tool sub: split batches that exceed the ring's
 capacity

All frames that one read from the socket had brought in were written in one
shr_writev. If together they exceeded the total capacity of the ring it was
refused and the subscriber exited, though each frame by itself would fit.
---
 util/shr-tool.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index d8dcd07..f800596 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -443,6 +443,38 @@ char *map(char *file, size_t *len) {
   return buf;
 }
 
+/*
+ * write frames to ring, in batches the ring can hold.
+ * (shr_writev is all-or-nothing, and refuses a batch
+ * exceeding the total capacity of the ring)
+ */
+int write_frames(struct iovec *iov, size_t niov) {
+  struct shr_stat stat;
+  size_t n, len;
+  ssize_t nr;
+
+  if (shr_stat(cfg.shr, &stat, NULL) < 0) return -1;
+
+  while (niov > 0) {
+    n = 1;
+    len = iov[0].iov_len;
+    while ((n < niov) && (n < stat.mm) &&
+           (len + iov[n].iov_len <= stat.bn)) {
+      len += iov[n].iov_len;
+      n++;
+    }
+    nr = shr_writev(cfg.shr, iov, n);
+    if (nr < 0) {
+      fprintf(stderr,"shr_writev: error (%zd)\n", nr);
+      return -1;
+    }
+    iov += n;
+    niov -= n;
+  }
+
+  return 0;
+}
+
 /*
  * given a buffer of N frames 
  * with a possible partial final frame
@@ -454,7 +486,6 @@ int decode_frames(void) {
   size_t iov_used=0;
   uint32_t blen;
   int rc = -1;
-  ssize_t nr;
 
   assert( cfg.mode == mode_sub );
 
@@ -481,11 +512,7 @@ int decode_frames(void) {
     goto done;
   }
 
-  nr = shr_writev(cfg.shr, cfg.sub_iov, iov_used);
-  if (nr < 0) {
-    fprintf(stderr,"shr_writev: error (%zd)\n", nr);
-    goto done;
-  }
+  if (write_frames(cfg.sub_iov, iov_used) < 0) goto done;
 
   /* if buffer ends with partial frame, save it */
   if (c < eob) memmove(cfg.buf, c, eob - c);
-- 
2.43.0


From 783fb4b48f4e345fcad1b3d75c5e6417d29e25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 14/29] fix: shr-tool write: write a long line as one frame

A line longer than the fixed buffer of 1000 bytes was written as several
frames, and a line was cut at an embedded NUL.
---
 util/shr-tool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index f800596..043b201 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -938,11 +938,11 @@ int try_delegate(int argc, char *argv[]) {
 
 int main(int argc, char *argv[]) {
   int n, one_shot=0, opt, rc=-1, sc, mode, fd, epoll_mode, tmo, ec;
-  char unit, *c, *app_data, *cmd, line[1000], opts[100],
+  char unit, *c, *app_data, *cmd, *line=NULL, opts[100],
     *ring1=NULL, *ring2=NULL, *data, *sub;
   struct epoll_event ev;
   struct shr_stat stat;
-  size_t app_len = 0;
+  size_t app_len = 0, line_sz = 0;
   cfg.prog = argv[0];
   struct statfs sf;
   struct stat sb;
@@ -1193,8 +1193,7 @@ int main(int argc, char *argv[]) {
       one_shot=1;
       cfg.shr = shr_open(cfg.ring, SHR_WRONLY);
       if (cfg.shr == NULL) goto done;
-      while (fgets(line, sizeof(line), stdin)) {
-        nr = strlen(line);
+      while ((nr = getline(&line, &line_sz, stdin)) > 0) {
         if ((nr > 0) && (line[nr-1] == '\n')) line[nr--] = '\0';
         if (shr_write(cfg.shr, line, nr) < 0) {
           fprintf(stderr, "shr_write: error\n");
@@ -1342,6 +1341,7 @@ int main(int argc, char *argv[]) {
   /* don't close cfg.fd - it's done in shr_close */
   if (cfg.o1) shr_close(cfg.o1);
   if (cfg.o2) shr_close(cfg.o2);
+  if (line) free(line);
   if (cfg.hex_arg) free(cfg.hex_arg);
   // don't free(cfg.fs_type);, default is static string
   if (cfg.wfile_buf) munmap(cfg.wfile_buf, cfg.wfile_len);
-- 
2.43.0


From 74c3a31f57ce01e604b766160076e63c5a848666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 15/29] fix: bw-tool wait -w: recognize the return value for a
 signal

bw_wait_ul returns -3 when another descriptor is ready. bw-tool compared it
with -2, did not report the signal, and left the handle's slot occupied.
---
 lib/bw-tool.c | 2 +-
 lib/bw.c      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bw-tool.c b/lib/bw-tool.c
index a58e72f..f662f50 100644
--- a/lib/bw-tool.c
+++ b/lib/bw-tool.c
@@ -243,7 +243,7 @@ int main(int argc, char *argv[]) {
       sc = bw_wait_ul(bw);
       if (sc ==  0) fprintf(stderr, "bw_wait_ul: awoken\n");
       if (sc == -1) fprintf(stderr, "bw_wait_ul: error\n");
-      if (sc == -2) {
+      if (sc == -3) {
         fprintf(stderr, "bw_wait_ul: signal while blocked\n");
         handle_signal(signal_fd);
         if (lock(fd) < 0) goto done;
diff --git a/lib/bw.c b/lib/bw.c
index b964b97..1857219 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -550,7 +550,7 @@ int bw_ready_ul(bw_t *w) {
  * a caller needing to monitor additional descriptors while
  * blocked in bw_wait_ul can use bw_ctl (see BW_POLLFD flag).
  * for example this can be used with a timerfd or signalfd
- * to cause bw_wait_ul to return -2 if one becomes readable.
+ * to cause bw_wait_ul to return -3 if one becomes readable.
  *
  * call WITHOUT handle under lock
  *
@@ -753,7 +753,7 @@ int bw_force(bw_t *w, int want_ready) {
  *  flag          arguments  meaning
  *  -----------   ---------  ----------------------------------------------
  *  BW_POLLFD     int fd     add fd to epoll set when blocked in bw_wait_ul
- *                           if it becomes readable, bw_wait_ul returns -2
+ *                           if it becomes readable, bw_wait_ul returns -3
  *
  * call WITHOUT handle under lock
  *
-- 
2.43.0


From fcc52151e01eb4b9870327c889ee529bf0d527d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 16/29] fix: validate_ring: detect size fields that overflow or
 disagree

The sum of the areas' sizes was computed in a ssize_t without regard to
overflow, and the number of message slots was not compared with the size of
the slot area. A damaged header could pass, and crash its users later.
---
 src/shr.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index c690b96..dfa0e72 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -395,15 +395,19 @@ size_t shr_farm_stat(shr *s, int reset) {
 static int validate_ring(struct shr *s) {
   int rc = -1;
   shr_ctrl *r = s->r;
-  ssize_t sz, exp_sz;
+  size_t sz;
 
   if (s->s.st_size < (off_t)MIN_RING_SZ)       { rc = -2; goto done; }
   if (memcmp(s->r->magic,magic,sizeof(magic))) { rc = -3; goto done; }
 
-  exp_sz = sizeof(shr_ctrl) + r->n + r->pad_len + r->mv_len + r->app_len;
-  sz = s->s.st_size;
+  /* undersize? (see note). stepwise, so the sum can't overflow */
+  sz = s->s.st_size - sizeof(shr_ctrl);
+  if (r->n       > sz) {rc = -4; goto done; } else sz -= r->n;
+  if (r->pad_len > sz) {rc = -4; goto done; } else sz -= r->pad_len;
+  if (r->mv_len  > sz) {rc = -4; goto done; } else sz -= r->mv_len;
+  if (r->app_len > sz) {rc = -4; goto done; }
 
-  if (sz <  exp_sz) {rc = -4; goto done; } /* undersize (see note) */
+  if (r->mm != r->mv_len / sizeof(struct msg)) {rc = -8; goto done; }
   if (r->u >  r->n) {rc = -5; goto done; } /* used > size */
   if (r->i >= r->n) {rc = -6; goto done; } /* input position >= size */
   if (r->r >= r->mm){rc = -7; goto done; } /* output slot# >= #slots */
-- 
2.43.0


From b01ce86aa39d80a9bb55a2a2d601eb94816697d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 17/29] fix: has_socket_name: confirm that an unlisted socket
 is gone

A read of /proc/net/unix takes several system calls, and skips a socket
when others that precede it in the listing close in the meantime. A
waiter missed in this way lost its slot, and was never woken again.
---
 lib/ux.c | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index 4c4a9f3..eeb4d42 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -1,4 +1,8 @@
+#include <sys/socket.h>
+#include <sys/types.h>
+#include <sys/un.h>
 #include <dirent.h>
+#include <stddef.h>
 #include <string.h>
 #include <signal.h>
 #include <stdlib.h>
@@ -11,6 +15,7 @@
 /* internal prototypes */
 static int get_socket_inodes(pid_t, size_t *, size_t, size_t *);
 static int has_socket_name(size_t *, size_t, char *);
+static int confirm_unbound(char *);
 
 /*
  *  has_pid_socket
@@ -224,6 +229,42 @@ static char *get_col(int col, size_t *len, char *buf, size_t buflen) {
   return NULL;
 }
 
+/*
+ * confirm that no socket is bound to the given abstract name.
+ * a listing of /proc/net/unix is made piecemeal, and can miss
+ * a socket when others come and go in the meantime
+ *
+ * returns:
+ *   0: confirmed
+ *  -1: something is bound to the name, or can't tell
+ *
+ */
+static int confirm_unbound(char *sockname) {
+  struct sockaddr_un addr;
+  int fd, sc, rc = -1;
+  size_t len;
+
+  len = strlen(sockname); /* @ stands for the leading nul */
+  if ((len == 0) || (len > sizeof(addr.sun_path))) return 0;
+
+  memset(&addr, 0, sizeof(addr));
+  addr.sun_family = AF_UNIX;
+  memcpy(addr.sun_path + 1, sockname + 1, len - 1);
+
+  fd = socket(AF_UNIX, SOCK_DGRAM, 0);
+  if (fd < 0) {
+    bw_log("socket: %s\n", strerror(errno));
+    return -1;
+  }
+
+  sc = connect(fd, (struct sockaddr*)&addr,
+               offsetof(struct sockaddr_un, sun_path) + len);
+  if ((sc < 0) && (errno == ECONNREFUSED)) rc = 0;
+
+  close(fd);
+  return rc;
+}
+
 /*
  * does pid have open a domain socket of given name whose inode is in the list?
  *
@@ -243,7 +284,7 @@ static char *get_col(int col, size_t *len, char *buf, size_t buflen) {
 static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
   char *buf = NULL, *b, *inode, *name, *line;
   size_t len, sz=0, inum, n, namelen;
-  int rc = -1;
+  int rc = -1, listed = 0;
 
   buf = slurp_special("/proc/net/unix", &sz);
   if (buf == NULL) goto done;
@@ -275,6 +316,8 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     /* does name match? */
     if (name && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
       
+      listed = 1;
+
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
         if (inum != inodes[n]) continue;
@@ -291,7 +334,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     line = b+1;
   }
 
-  rc = 0;
+  rc = listed ? 0 : confirm_unbound(sockname);
 
  done:
   if (buf) free(buf);
-- 
2.43.0


From 6ea75dad26c304329a920b63fc76e8c4b5abe9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 18/29] fix: bw_wake: reconnect to a slot whose new holder has
 the same socket name

When a waiter closes and another takes its slot with a socket that the
kernel happened to give the same name, a waker that had connected to the
former kept sending to the dead socket, and took the failure for the
death of the waiter, whom it removed from the slot without waking it.
---
 lib/bw.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index 1857219..7132778 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -621,6 +621,17 @@ static void wake_one(bw_t *w, int n) {
   }
   close(w->fd[n]);
   w->fd[n] = -1;
+
+  /* the slot may have passed, since we connected, to another
+   * waiter whose socket got the same name. connect to that */
+  if ((open_socket(w,n) == 0) && (w->fd[n] != -1)) {
+    nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
+    if (nr >= 0) return;
+    if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return;
+    close(w->fd[n]);
+    w->fd[n] = -1;
+  }
+
   w->h->seqno++;
   w->h->wr[n].pid = 0;
 }
-- 
2.43.0


From d0eccbd7cea22ff85b486e1aaf4852d06513ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 19/29] fix: shr_readv: wake writers before consuming messages

A reader killed between freeing space and waking the writers that
await it left them blocked beside free space.
---
 src/shr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index dfa0e72..a4a8fe5 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -835,7 +835,11 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
     }
   }
 
-  /* reached when data is available */
+  /* reached when data is available. if we are to read any, wake
+   * writers first (they await the lock we hold), so that they do
+   * not sleep on beside free space if we're killed part way */
+  if (l1+l2 <= len) bw_wake(s->r2w);
+
   while (msg_ready) {
     if (*niov == 0)  break; /* caller iov exhausted */
     if (l1+l2 > len) break; /* caller buf exhausted */
@@ -863,7 +867,6 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
 
   r->stat.br += nr;
   r->stat.mr += mc;
-  if (nr > 0) bw_wake(s->r2w);
   rc = (mc > 0) ? 0 : -2;
   bw_force(s->w2r, msg_ready);
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From 279da1016a23579f7486c78191c910eeedb04ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 20/29] fix: shr_init: store the signature last

---
 src/shr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index a4a8fe5..d7947d8 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -283,7 +283,6 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
 
   shr_ctrl *r = (shr_ctrl *)buf; 
   memset(r, 0, sizeof(*r));
-  memcpy(r->magic, magic, sizeof(magic));
   r->mm = max_msgs;
   r->pad_len = pad;
   r->mv_len = mv_bytes;
@@ -298,6 +297,11 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     memcpy(r->d + r->n + r->pad_len + r->mv_len, appdata, appsize);
   }
 
+  /* store the magic last. should we be killed before this point
+   * the incomplete ring cannot be opened */
+  __sync_synchronize();
+  memcpy(r->magic, magic, sizeof(magic));
+
   rc = 0;
 
  done:
-- 
2.43.0


From dba722c7c56a679b5178ffe691f341a169a6af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 21/29] fix: has_pid_socket: when the process can't be
 examined, check its socket name

A waiter that died and is not yet reaped can't be examined by anyone but
root; nor a process of another user that has its process id by now. The
place of such a waiter was kept, as long as that lasted.
---
 lib/ux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index eeb4d42..47062b8 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -38,8 +38,10 @@ int has_pid_socket(pid_t pid, char *name) {
   sc = kill(pid, 0);
   if ((sc < 0) && (errno == ESRCH)) return 0;
 
+  /* pid may be beyond examination, such as a zombie, or another
+   * user's process. then we can only tell if name isn't in use */
   sc = get_socket_inodes(pid, inodes, MAX_INODES, &n_inodes);
-  if (sc < 0) return sc;
+  if (sc < 0) return confirm_unbound(name);
 
   sc = has_socket_name(inodes, n_inodes, name);
   return sc;
-- 
2.43.0


From b8314aabbc7fc8b4cb89b25beb8121182ebf417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 22/29] fix: shr_open, bw_open: refuse both modes at once (they
 are exclusive)

---
 lib/bw.c  | 2 +-
 src/shr.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index 7132778..06fafc8 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -349,7 +349,7 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
   va_list ap;
   va_start(ap, h);
 
-  if (((flags & BW_WAKE) ^ (flags & BW_WAIT)) == 0) {
+  if (!(flags & BW_WAKE) == !(flags & BW_WAIT)) {
     bw_log("bw_open: invalid mode\n");
     goto done;
   }
diff --git a/src/shr.c b/src/shr.c
index d7947d8..999b43a 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -492,7 +492,8 @@ static int open_blockwake(struct shr *s, int flags) {
 
 static int validate_flags(int flags) {
 
-  if (((flags & SHR_RDONLY) ^ (flags & SHR_WRONLY)) == 0)
+  /* exactly one of the modes */
+  if (!(flags & SHR_RDONLY) == !(flags & SHR_WRONLY))
     return -1; 
 
   if (flags & (SHR_OPEN_FENCE-1))
-- 
2.43.0


From e6770016450a1a01e974a7096b90770eafda513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 23/29] fix: shr_open: refuse a ring whose message counts or
 eldest slot are out of bounds

---
 src/shr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 999b43a..6e6e251 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -415,6 +415,9 @@ static int validate_ring(struct shr *s) {
   if (r->u >  r->n) {rc = -5; goto done; } /* used > size */
   if (r->i >= r->n) {rc = -6; goto done; } /* input position >= size */
   if (r->r >= r->mm){rc = -7; goto done; } /* output slot# >= #slots */
+  if (r->e >= r->mm){rc = -9; goto done; } /* eldest slot# >= #slots */
+  if (r->mp > r->mm){rc = -10; goto done;} /* msgs present > #slots */
+  if (r->m > r->mp) {rc = -11; goto done;} /* msgs unread > present */
 
   rc = 0;
 
-- 
2.43.0


From 3b642324e7286c1667780b4a19ecebba8ae52184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 24/29] fix: shr-tool readhex: end when the output cannot be
 written

---
 util/shr-tool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 043b201..6f8ce37 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -725,7 +725,10 @@ int handle_io(void) {
         nr -= nw;
         out += nw;
       } while (nr > 0);
-      fflush(stdout);
+      if ((fflush(stdout) == EOF) || ferror(stdout)) {
+        fprintf(stderr, "write: %s\n", strerror(errno));
+        goto done;
+      }
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
         goto done;
-- 
2.43.0


From b04db55b119d98f361b6cc044338c343294b56fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:16 +0000
Subject: [PATCH 25/29] fix: shr-tool: don't end for being stopped and
 continued

---
 util/shr-tool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 6f8ce37..c6caca5 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -1321,7 +1321,9 @@ int main(int argc, char *argv[]) {
          ((cfg.mode == mode_read) || (cfg.mode == mode_read_hex))) ? 0 : -1;
 
   do { 
-    ec = epoll_wait(cfg.epoll_fd, &ev, 1, tmo);
+    /* being stopped and continued interrupts the wait */
+    do { ec = epoll_wait(cfg.epoll_fd, &ev, 1, tmo); }
+    while ((ec < 0) && (errno == EINTR));
     if      (ec < 0)  fprintf(stderr, "epoll: %s\n", strerror(errno));
     else if (ec == 0) /* print no-data */ { if (handle_io()     < 0) goto done;}
     else if (ev.data.fd == cfg.fd)        { if (handle_io()     < 0) goto done;}
-- 
2.43.0


From 54884413bcc31b8c721342878914476df601a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 26/29] fix: shr-tool read: after a partial write go on with
 the rest, not the beginning

---
 util/shr-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index c6caca5..7186867 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -714,9 +714,9 @@ int handle_io(void) {
       }
       /* data to print */
       assert(nr > 0);
+      out = cfg.buf;
       if (cfg.mode == mode_read_hex) hexdump(cfg.buf,nr);
       else do {
-        out = cfg.buf;
         nw = write(STDOUT_FILENO, out, nr);
         if (nw < 0) {
           fprintf(stderr, "write: %s\n", strerror(errno));
-- 
2.43.0


From 9182c46ce4b16841ed96708733a937332e8f8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:23 +0000
Subject: [PATCH 27/29] fix: don't drop a live waiter, or let a call succeed,
 when its wakeup fails

---
 lib/bw.c  | 41 +++++++++++++++++++++++++----------------
 src/shr.c |  5 ++++-
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index 06fafc8..2f9e9c4 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -603,9 +603,15 @@ int bw_wait_ul(bw_t *w) {
 /*
  * send wake up byte one waiting socket
  * if it errors out for anything but ewouldblock/eagain
- * disconnect from that socket and zero its slot
+ * connect anew to the slot's socket, which releases the
+ * slot if its owner exited, and try once more
+ *
+ * returns:
+ *   0 on success
+ *  -1 on error
+ *
  */
-static void wake_one(bw_t *w, int n) {
+static int wake_one(bw_t *w, int n) {
   ssize_t nr;
 
   if (w->flags & BW_TRACE) {
@@ -613,8 +619,8 @@ static void wake_one(bw_t *w, int n) {
   }
 
   nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
-  if (nr >= 0) return;
-  if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return;
+  if (nr >= 0) return 0;
+  if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return 0;
 
   if (w->flags & BW_TRACE) {
     bw_log("purge %s: %s\n", w->name[n], strerror(errno));
@@ -624,16 +630,19 @@ static void wake_one(bw_t *w, int n) {
 
   /* the slot may have passed, since we connected, to another
    * waiter whose socket got the same name. connect to that */
-  if ((open_socket(w,n) == 0) && (w->fd[n] != -1)) {
-    nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
-    if (nr >= 0) return;
-    if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return;
-    close(w->fd[n]);
-    w->fd[n] = -1;
-  }
+  if (open_socket(w,n) < 0) goto fail;
+  if (w->fd[n] == -1) return 0;
 
-  w->h->seqno++;
-  w->h->wr[n].pid = 0;
+  nr = sendmsg(w->fd[n], &w->hdr, MSG_DONTWAIT);
+  if (nr >= 0) return 0;
+  if ((errno == EWOULDBLOCK) || (errno == EAGAIN)) return 0;
+  bw_log("sendmsg: %s\n", strerror(errno));
+  close(w->fd[n]);
+  w->fd[n] = -1;
+
+ fail:
+  w->seqno = w->h->seqno - 1; /* connect again at the next bw_sync */
+  return -1;
 }
 
 /*
@@ -648,17 +657,17 @@ static void wake_one(bw_t *w, int n) {
  *
  */
 int bw_wake(bw_t *w) {
-  int n, rc = -1;
+  int n, rc = -1, failed = 0;
 
   assert(w->flags & BW_WAKE);
   if (bw_sync(w) < 0) goto done;
 
   for(n = 0; n < BW_WAITMAX; n++) {
     if (w->fd[n] == -1) continue;
-    wake_one(w,n);
+    if (wake_one(w,n) < 0) failed = 1;
   }
 
-  rc = 0;
+  rc = failed ? -1 : 0;
 
  done:
   return rc;
diff --git a/src/shr.c b/src/shr.c
index 6e6e251..da344bb 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -846,7 +846,10 @@ shr_readv(shr *s, char *buf, size_t len, struct iovec *iov, size_t *niov) {
   /* reached when data is available. if we are to read any, wake
    * writers first (they await the lock we hold), so that they do
    * not sleep on beside free space if we're killed part way */
-  if (l1+l2 <= len) bw_wake(s->r2w);
+  if (l1+l2 <= len) {
+    sc = bw_wake(s->r2w);
+    if (sc) goto done;
+  }
 
   while (msg_ready) {
     if (*niov == 0)  break; /* caller iov exhausted */
-- 
2.43.0


From c1bff0f0cab71f7a931766ae670f1ddc2d73216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:40 +0000
Subject: [PATCH 28/29] fix: a farm reader's descriptor is readable if messages
 are there that a killed writer dropped

A writer to a full farm ring marks messages dropped, then overwrites
them. Killed in between, it could leave a ring with messages present
but no bytes unread; a reader that opened it could read them, but its
selectable descriptor did not say so.
---
 src/shr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index da344bb..fcd51f3 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -468,8 +468,11 @@ static int open_blockwake(struct shr *s, int flags) {
     s->w2r = bw_open(BW_WAIT, &s->r->w2r, &s->wait_fd);
     s->r2w = bw_open(BW_WAKE, &s->r->r2w);
     if ((s->w2r == NULL) || (s->r2w == NULL)) goto done;
-    /* set initial readability of fd */
-    sc = bw_force(s->w2r, s->r->u ? 1 : 0);
+    /* set initial readability of fd. a farm reader can read
+     * any message present, even if marked as dropped by a
+     * writer that was killed before it overwrote them */
+    sc = bw_force(s->w2r,
+      ((s->r->gflags & SHR_FARM) ? s->r->mp : s->r->u) ? 1 : 0);
     if (sc < 0) goto done;
   }
   
-- 
2.43.0


From 63618e7a2d6710a519b1f5b6b3499ceca9d96dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:00 +0000
Subject: [PATCH 29/29] fix: shr_init: allocate the ring's storage

README says that rings have their full size allocated at creation, but
ftruncate makes a file with holes. A ring on a file system that filled up
later ended its users with SIGBUS.
---
 src/shr.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index fcd51f3..68a3be3 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -19,6 +19,7 @@
 #include "bw.h"
 
 #define CREAT_MODE 0644
+#define ALLOC_STEP ((size_t)1 << 20)
 #define MIN_RING_SZ (sizeof(shr_ctrl) + 1)
 #define MIN(a,b) (((a) < (b)) ? (a) : (b))
 
@@ -281,6 +282,20 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     goto done;
   }
 
+  /* allocate the storage now, or its pages are only allocated when
+   * first written to, by a SIGBUS if there is no room by then. done
+   * stepwise, as a signal handler's run makes a step start over. on
+   * a fs that can't do it, leave it at that */
+  for (m = 0; m < sz; m += ALLOC_STEP) {
+    do sc = posix_fallocate(fd, m, MIN(sz - m, ALLOC_STEP));
+    while (sc == EINTR);
+    if ((sc == EINVAL) || (sc == EOPNOTSUPP)) break;
+    if (sc) {
+      shr_log("posix_fallocate %s: %s\n", file, strerror(sc));
+      goto done;
+    }
+  }
+
   shr_ctrl *r = (shr_ctrl *)buf; 
   memset(r, 0, sizeof(*r));
   r->mm = max_msgs;
-- 
2.43.0

