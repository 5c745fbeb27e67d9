From e50e58e7f3ac0d849f78e7980f72baf3705c73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 001/106] fix: poll: initialise the event mask of a newly used
 pollset slot

The slot's memory comes from malloc or holds the mask of the descriptor that
used it before. Stale bits made poll() report events nobody waits for, and
dill_wait() then popped a coroutine from an empty ready queue.
---
 poll.c.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poll.c.inc b/poll.c.inc
index a575799..a65c415 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,7 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +156,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
-- 
2.43.0


From 576f2daa391d41a151cd15ea2d1de9a350595c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 002/106] fix: now: read the cycle counter before the clock
 when initialising

If the process is preempted between the two reads the cached time was paired
with a later cycle count and now() returned it although it was out of date.
---
 now.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/now.c b/now.c
index 08c2ec3..5c99a73 100644
--- a/now.c
+++ b/now.c
@@ -110,8 +110,8 @@ int dill_ctx_now_init(struct dill_ctx_now *ctx) {
     mach_timebase_info(&ctx->mtid);
 #endif
 #if defined(__x86_64__) || defined(__i386__)
-    ctx->last_time = dill_mnow();
     ctx->last_tsc = __rdtsc();
+    ctx->last_time = dill_mnow();
 #endif
     return 0;
 }
-- 
2.43.0


From 6046ca6f181f40829d51580de13f2b7b6575485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 003/106] fix: bundle_wait: unregister the waiter when it stops
 waiting

The clause was registered without a cancel function, so when the last coroutine
of the bundle finished after the waiter had already been resumed (deadline,
cancellation) the waiter was resumed a second time, which trips an assertion.
A second coroutine waiting for the same bundle also made the first one hang.
---
 cr.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..f44ce98 100644
--- a/cr.c
+++ b/cr.c
@@ -74,9 +74,9 @@ struct dill_bundle {
     struct dill_hvfs vfs;
     /* List of coroutines in this bundle. */
     struct dill_list crs;
-    /* If somebody is doing hdone() on this bundle, here's the clause
-       to trigger when all coroutines are finished. */
-    struct dill_clause *waiter;
+    /* Clauses to trigger when all coroutines are finished. One for each
+       coroutine doing bundle_wait() on this bundle. */
+    struct dill_list waiters;
     /* If true, the bundle was created by bundle_mem. */
     unsigned int mem : 1;
 };
@@ -84,6 +84,19 @@ struct dill_bundle {
 DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
+/* Clause used by bundle_wait(). */
+struct dill_bundle_clause {
+    struct dill_clause cl;
+    /* Bundle's list of waiters. */
+    struct dill_list item;
+};
+
+static void dill_bundle_cancel(struct dill_clause *cl) {
+    struct dill_bundle_clause *bcl =
+        dill_cont(cl, struct dill_bundle_clause, cl);
+    dill_list_erase(&bcl->item);
+}
+
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
     int err;
     if(dill_slow(!mem)) {err = EINVAL; return -1;}
@@ -91,7 +104,7 @@ int dill_bundle_mem(struct dill_bundle_storage *mem) {
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
     dill_list_init(&b->crs);
-    b->waiter = NULL;
+    dill_list_init(&b->waiters);
     b->mem = 1;
     return dill_hmake(&b->vfs);
 }
@@ -135,13 +148,12 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundle_clause bcl;
+    dill_list_insert(&bcl.item, &self->waiters);
+    dill_waitfor(&bcl.cl, 0, dill_bundle_cancel);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
@@ -353,11 +365,13 @@ void dill_epilogue(void) {
        in the process of being closed. */
     if(!ctx->r->no_blocking1) {
         /* If this is the last coroutine in the bundle and there's someone
-           waiting for hdone() on the bundle unblock them. */
+           waiting in bundle_wait() unblock them. */
         if(dill_list_oneitem(&ctx->r->bundle)) {
             struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
                 struct dill_bundle, crs);
-            if(b->waiter) dill_trigger(b->waiter, 0);
+            while(!dill_list_empty(&b->waiters))
+                dill_trigger(&dill_cont(dill_list_next(&b->waiters),
+                    struct dill_bundle_clause, item)->cl, 0);
         }
         dill_list_erase(&ctx->r->bundle);
         dill_cr_close(&ctx->r->vfs);
-- 
2.43.0


From a18d075c5f8199a4fee3856263ce085ec6663d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 004/106] fix: hclose: closing a coroutine which is itself
 closing a bundle

Such a coroutine was resumed with ECANCELED in the middle of its hclose(), which
tripped the assertion meant for coroutines closing their own bundle.
---
 cr.c | 20 ++++++++++++++------
 cr.h |  3 +++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cr.c b/cr.c
index f44ce98..479d9ce 100644
--- a/cr.c
+++ b/cr.c
@@ -307,6 +307,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     cr->closer = NULL;
     cr->no_blocking1 = 0;
     cr->no_blocking2 = 0;
+    cr->closing = 0;
     cr->done = 0;
     cr->mem = *ptr ? 1 : 0;
 #if defined DILL_VALGRIND
@@ -394,10 +395,19 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
     struct dill_cr *cr = dill_cont(vfs, struct dill_cr, vfs);
     /* If the coroutine has already finished, we are done. */
     if(!cr->done) {
+        /* This assertion triggers when coroutine tries to close a bundle that
+           it is part of, whether directly or via the coroutines that are
+           waiting for it to finish. There's no sane way to handle that so
+           let's just crash the process. */
+        struct dill_cr *it;
+        for(it = ctx->r; it; it = it->closer)
+            dill_assert(it != cr);
         /* No blocking calls from this point on. */
         cr->no_blocking1 = 1;
-        /* Resume the coroutine if it was blocked. */
-        if(!cr->ready.next)
+        /* Resume the coroutine if it was blocked. If it is in the process of
+           closing other coroutine, leave it alone. It will be resumed when
+           that coroutine finishes. */
+        if(!cr->ready.next && !cr->closing)
             dill_cancel(cr, ECANCELED);
         /* Wait for the coroutine to stop executing. With no clauses added,
            the only mechanism to resume is through dill_cancel(). This is not
@@ -405,11 +415,9 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
            coroutine that is being shut down is not permitted to block, we
            should get control back pretty quickly. */
         cr->closer = ctx->r;
+        ctx->r->closing = 1;
         int rc = dill_wait();
-        /* This assertion triggers when coroutine tries to close a bundle that
-           it is part of. There's no sane way to handle that so let's just
-           crash the process. */
-        dill_assert(!(rc == -1 && errno == ECANCELED));
+        ctx->r->closing = 0;
         dill_assert(rc == -1 && errno == 0);
     }
 #if defined DILL_CENSUS
diff --git a/cr.h b/cr.h
index 627bd72..dc20fd5 100644
--- a/cr.h
+++ b/cr.h
@@ -64,6 +64,9 @@ struct dill_cr {
        2. The execution is happening within the context of an hclose() call. */
     unsigned int no_blocking1 : 1;
     unsigned int no_blocking2 : 1;
+    /* Set while the coroutine is closing other coroutine, i.e. while it waits
+       for that coroutine to finish. */
+    unsigned int closing : 1;
     /* Set when the coroutine has finished its execution. */
     unsigned int done : 1;
     /* If true, the coroutine was launched with go_mem. */
-- 
2.43.0


From b841e174fc70e222732eb1b892a77ef502c072a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 005/106] fix: hown: preserve errno when the handle is closed
 on failure

---
 handle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/handle.c b/handle.c
index 3d658ca..25df02a 100644
--- a/handle.c
+++ b/handle.c
@@ -112,8 +112,10 @@ int dill_hown(int h) {
     /* Create a new handle for the same object. */
     int res = dill_hmake(hndl->vfs);
     if(dill_slow(res < 0)) {
+        int err = errno;
         int rc = dill_hclose(h);
         dill_assert(rc == 0);
+        errno = err;
         return -1;
     }
     /* In case handle array was reallocated we have to recompute the pointer. */
-- 
2.43.0


From a41a9e8e8ff7b7b687f596cd6b1292365da95377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 006/106] fix: hclose: handle table may be reallocated while
 closing a handle

---
 handle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handle.c b/handle.c
index 25df02a..f826075 100644
--- a/handle.c
+++ b/handle.c
@@ -157,6 +157,9 @@ int dill_hclose(int h) {
     hndl->vfs->close(hndl->vfs);
     /* Restore the previous state. */
     dill_no_blocking(old);
+    /* In case handle array was reallocated while the object was being closed
+       we have to recompute the pointer. */
+    hndl = &ctx->handles[h];
     /* Mark the cache as invalid. */
     hndl->ptr = NULL;
     /* Return a handle to the shared pool. */
-- 
2.43.0


From 1d432eb5ff5d21e5de66916c839a8c745981187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 007/106] fix: deadlines more than INT_MAX milliseconds away

The timeout passed to the pollset overflowed, which made the process wait
forever or spin until the deadline.
---
 cr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index 479d9ce..96acab7 100644
--- a/cr.c
+++ b/cr.c
@@ -21,6 +21,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -488,7 +489,8 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    int64_t diff = nw >= deadline ? 0 : deadline - nw;
+                    timeout = diff > INT_MAX ? INT_MAX : (int)diff;
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From 1a0b053710b28b397ecd841d66b5a6c331ed2448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 008/106] fix: go_mem: check the size of the memory before
 using it

A block smaller than struct bundle_storage was written past its end, or made
the size of the stack wrap around.
---
 cr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index 96acab7..2e8b8e8 100644
--- a/cr.c
+++ b/cr.c
@@ -263,6 +263,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -289,7 +291,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         top &= ~(uintptr_t)15;
         stacksz = top - (uintptr_t)*ptr;
         cr = (struct dill_cr*)top;
-        if(dill_slow(stacksz < sizeof(struct dill_cr))) {
+        if(dill_slow(top < (uintptr_t)*ptr ||
+              stacksz < sizeof(struct dill_cr))) {
             err = ENOMEM; goto error2;}
     }
 #if defined DILL_CENSUS
-- 
2.43.0


From 36ee58c0929f187453977c23c8dd6c3a22371c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 009/106] fix: bundle_go: fail with EBADF if the bundle handle
 is negative

It silently launched the coroutine in a new bundle and returned its handle.
---
 cr.c      |  2 +-
 libdill.h | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cr.c b/cr.c
index 2e8b8e8..006d8a9 100644
--- a/cr.c
+++ b/cr.c
@@ -260,7 +260,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     if(dill_slow(rc < 0)) {err = ECANCELED; goto error1;}
     /* If bundle is not supplied by the user create one. If user supplied a
        memory to use put the bundle at the beginning of the block. */
-    int new_bundle = bndl < 0;
+    int new_bundle = bndl == -1;
     if(new_bundle) {
         if(*ptr) {
             if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
diff --git a/libdill.h b/libdill.h
index 7063aa0..1ed08bc 100644
--- a/libdill.h
+++ b/libdill.h
@@ -258,8 +258,17 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
 #define dill_go(fn) dill_go_(fn, NULL, 0, -1)
 #define dill_go_mem(fn, ptr, len) dill_go_(fn, ptr, len, -1)
 
-#define dill_bundle_go(bndl, fn) dill_go_(fn, NULL, 0, bndl)
-#define dill_bundle_go_mem(bndl, fn, ptr, len) dill_go_(fn, ptr, len, bndl)
+/* -1 asks dill_prologue() to create a new bundle. An invalid handle supplied by
+   the user must not be mistaken for that. */
+#define dill_bndl_(bndl) \
+    __extension__ ({\
+        int dill_bndl__ = (bndl);\
+        dill_bndl__ < 0 ? -2 : dill_bndl__;\
+    })
+
+#define dill_bundle_go(bndl, fn) dill_go_(fn, NULL, 0, dill_bndl_(bndl))
+#define dill_bundle_go_mem(bndl, fn, ptr, len) \
+    dill_go_(fn, ptr, len, dill_bndl_(bndl))
 
 struct dill_bundle_storage {char _[64];} DILL_ALIGN;
 
-- 
2.43.0


From 4e9dc35415e77b3e1a450b2f1c3bf8b50c00fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 010/106] fix: poll: don't report events nobody waits for

When a canceled wait left a descriptor in the pollset and the descriptor was in
hang-up or error state, dill_wait() assumed there was a coroutine to resume and
popped one from the empty queue.
---
 poll.c.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index a65c415..4f92bcb 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -193,6 +193,7 @@ int dill_pollset_poll(int timeout) {
     if(numevs < 0 && errno == EINTR) return -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
+    int fired = 0;
     int i;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
@@ -202,11 +203,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            fired = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            fired = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -224,6 +227,8 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    /* Return 0 on timeout or 1 if at least one coroutine was resumed. Events
+       on file descriptors nobody is waiting for any more don't count. */
+    return fired;
 }
 
-- 
2.43.0


From c002d0c0bf0113eb9983e9b7b4d1312b9e17c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 011/106] fix: fdclean: check the descriptor against the size
 of the table

---
 epoll.c.inc  | 2 ++
 kqueue.c.inc | 2 ++
 poll.c.inc   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..73b87c1 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's no state associated with such descriptor. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/kqueue.c.inc b/kqueue.c.inc
index 92a0674..a59d4a5 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -172,6 +172,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's no state associated with such descriptor. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index 4f92bcb..3e463c3 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -168,6 +168,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's no state associated with such descriptor. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From 869832ae4e2e0c79751e53186c4c61bbdd99e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 012/106] fix: restore the reserved fields when an invalid
 iolist is rejected

---
 iol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index c1d4d12..a69d0ac 100644
--- a/iol.c
+++ b/iol.c
@@ -51,7 +51,7 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     return 0;
 error:;
     struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    for(it2 = first; nbf; it2 = it2->iol_next, nbf--) it2->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From c06e8230dae43403d9f6273e14c32c3348812146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 013/106] fix: brecvl: reject an empty list instead of
 dereferencing a NULL pointer

---
 bsock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..3eec6ef 100644
--- a/bsock.c
+++ b/bsock.c
@@ -58,7 +58,7 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
+    if(dill_slow(!first || !last || last->iol_next)) {
         errno = EINVAL; return -1;}
     return b->brecvl(b, first, last, deadline);
 }
-- 
2.43.0


From 09a21711f025b32d149d1aaffa6cc99045cb517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 014/106] fix: check the iolist before receiving

---
 fd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fd.c b/fd.c
index 92e9388..e8a317f 100644
--- a/fd.c
+++ b/fd.c
@@ -285,6 +285,9 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
       struct dill_iolist *last, int64_t deadline) {
     /* Skip all data until error occurs. */
     if(dill_slow(!first && !last)) return dill_fd_skip(s, -1, deadline);
+    /* Make sure that the list is valid before touching any data. */
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     /* Fill in data from the rxbuf. */
     size_t sz = 0;
     if(dill_fast(rxbuf)) {
-- 
2.43.0


From e8282718744c5bd7e21892f2856f8b417ad6decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 015/106] fix: report a failure to skip received bytes

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index e8a317f..05321ef 100644
--- a/fd.c
+++ b/fd.c
@@ -331,6 +331,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From c7e2350ad7b0ab916c689a4b6a34beac9336ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 016/106] fix: release the handle in tcp_close and ipc_close

---
 ipc.c | 4 ++--
 tcp.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipc.c b/ipc.c
index 06d64ab..510b233 100644
--- a/ipc.c
+++ b/ipc.c
@@ -321,10 +321,10 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     return 0;
 error:
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/tcp.c b/tcp.c
index cdc72c9..e9edc6f 100644
--- a/tcp.c
+++ b/tcp.c
@@ -233,10 +233,10 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     return 0;
 error:
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From 3a5908da9ddd63bd364a468b5e276caff3e05cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 017/106] fix: don't set SO_LINGER on a file descriptor when
 taking ownership of it

---
 fd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fd.c b/fd.c
index 05321ef..e067ae9 100644
--- a/fd.c
+++ b/fd.c
@@ -405,7 +405,11 @@ void dill_fd_close(int s) {
 int dill_fd_own(int s) {
     int n = dup(s);
     if(dill_slow(n < 0)) return -1;
-    dill_fd_close(s);
+    /* The socket options are shared by both descriptors, so don't use
+       dill_fd_close() which would switch SO_LINGER on. */
+    int rc = dill_fdclean(s);
+    dill_assert(rc == 0);
+    close(s);
     return n;
 }
 
-- 
2.43.0


From ca438132d71ea8d34f7942da4953ddeeea675cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 018/106] fix: don't discard unsent data when both directions
 of a TCP connection have ended

---
 tcp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tcp.c b/tcp.c
index e9edc6f..1a43e98 100644
--- a/tcp.c
+++ b/tcp.c
@@ -243,7 +243,14 @@ error:
 
 static void dill_tcp_hclose(struct dill_hvfs *hvfs) {
     struct dill_tcp_conn *self = (struct dill_tcp_conn*)hvfs;
-    dill_fd_close(self->fd);
+    /* If both directions were ended in an orderly manner the data not yet sent
+       must not be discarded. The kernel will deliver them asynchronously. */
+    if(self->indone && self->outdone) {
+        int rc = dill_fdclean(self->fd);
+        dill_assert(rc == 0);
+        close(self->fd);
+    }
+    else dill_fd_close(self->fd);
     dill_fd_termrxbuf(&self->rxbuf);
     if(!self->mem) free(self);
 }
-- 
2.43.0


From 78cd718af0762c28e9ac92cd14b00446c127d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 019/106] fix: iolists longer than IOV_MAX

---
 fd.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/fd.c b/fd.c
index e067ae9..e3d83ac 100644
--- a/fd.c
+++ b/fd.c
@@ -23,6 +23,7 @@
 */
 
 #include <fcntl.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -34,6 +35,12 @@
 
 #define DILL_FD_CACHESIZE 32
 #define DILL_FD_BUFSIZE 1984
+/* Maximum number of buffers that can be passed to a single system call. */
+#if defined IOV_MAX
+#define DILL_FD_MAXIOV IOV_MAX
+#else
+#define DILL_FD_MAXIOV 1024
+#endif
 
 #if defined MSG_NOSIGNAL
 #define FD_NOSIGNAL MSG_NOSIGNAL
@@ -162,16 +169,16 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
     hdr.msg_iov = iov;
-    hdr.msg_iovlen = niov;
     /* It is very likely that at least one byte can be sent. Therefore,
        to improve efficiency, try to send and resort to fdout() only after
        send failed. */
     while(1) {
-        while(hdr.msg_iovlen && !hdr.msg_iov[0].iov_len) {
+        while(niov && !hdr.msg_iov[0].iov_len) {
             hdr.msg_iov++;
-            hdr.msg_iovlen--;
+            niov--;
         }
-        if(!hdr.msg_iovlen) return 0;
+        if(!niov) return 0;
+        hdr.msg_iovlen = niov < DILL_FD_MAXIOV ? niov : DILL_FD_MAXIOV;
         ssize_t sz = sendmsg(s, &hdr, FD_NOSIGNAL);
         dill_assert(sz != 0);
         if(sz < 0) {
@@ -192,8 +199,8 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
             }
             sz -= head->iov_len;
             hdr.msg_iov++;
-            hdr.msg_iovlen--;
-            if(!hdr.msg_iovlen) return 0;
+            niov--;
+            if(!niov) return 0;
         }
         /* Wait till more data can be sent. */
         int rc = dill_fdout(s, deadline);
@@ -216,8 +223,8 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
     hdr.msg_iov = iov;
-    hdr.msg_iovlen = niov;
     while(1) {
+        hdr.msg_iovlen = niov < DILL_FD_MAXIOV ? niov : DILL_FD_MAXIOV;
         ssize_t sz = recvmsg(s, &hdr, 0);
         if(dill_slow(sz == 0)) {errno = EPIPE; return -1;}
         if(sz < 0) {
@@ -238,8 +245,8 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
             }
             sz -= head->iov_len;
             hdr.msg_iov++;
-            hdr.msg_iovlen--;
-            if(!hdr.msg_iovlen) return 0;
+            niov--;
+            if(!niov) return 0;
         }
         /* Wait for more data. */
         int rc = dill_fdin(s, deadline);
-- 
2.43.0


From 3350c8a93a111f2c12480b6c8f832d813aeb6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 020/106] fix: ipc_sendfd: concurrent senders, SIGPIPE and
 failed assertions

The socket was not marked as busy while ipc_sendfd waited, so that other
coroutines were let in and the wait for the descriptor failed with EBUSY or
the data got interleaved. If the peer was gone the process was killed by
SIGPIPE. Any other error, such as EBADF or a spurious wakeup, was an assertion.
---
 ipc.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ipc.c b/ipc.c
index 510b233..3213d3a 100644
--- a/ipc.c
+++ b/ipc.c
@@ -33,6 +33,12 @@
 #include "fd.h"
 #include "utils.h"
 
+#if defined MSG_NOSIGNAL
+#define DILL_IPC_NOSIGNAL MSG_NOSIGNAL
+#else
+#define DILL_IPC_NOSIGNAL 0
+#endif
+
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su);
 
 dill_unique_id(dill_ipc_listener_type);
@@ -232,13 +238,21 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     cmsg->cmsg_len = CMSG_LEN(sizeof(fd));
     *((int*)CMSG_DATA(cmsg)) = fd;
     msg.msg_controllen = cmsg->cmsg_len;
-    int rc = dill_fdout(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
+    /* Nobody else may send while this coroutine waits for free space. */
+    self->sbusy = 1;
+    ssize_t sz;
+    while(1) {
+        sz = sendmsg(self->fd, &msg, DILL_IPC_NOSIGNAL);
+        if(dill_fast(sz >= 0)) break;
+        if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) break;
+        int rc = dill_fdout(self->fd, deadline);
+        if(dill_slow(rc < 0)) {self->sbusy = 0; return -1;}
+    }
+    self->sbusy = 0;
     if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+        if(errno == EPIPE) errno = ECONNRESET;
+        if(errno == ECONNRESET) self->outerr = 1;
+        return -1;
     }
     return 0;
 }
-- 
2.43.0


From 41cdb43aaf27bdd9466787d1fa812715fb546362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 021/106] fix: ipc_recvfd: concurrent receivers, failed
 assertions and leaked descriptors

The socket was not marked as busy while ipc_recvfd waited. Unexpected errors
were assertions and ECONNRESET broke the outbound direction instead of the
inbound one. File descriptors beyond the first one were leaked.
---
 ipc.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/ipc.c b/ipc.c
index 3213d3a..c4599b0 100644
--- a/ipc.c
+++ b/ipc.c
@@ -274,22 +274,34 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     msg.msg_iovlen = 1;
     unsigned char control[1024];
     msg.msg_control = control;
-    msg.msg_controllen = sizeof(control);
-    int rc = dill_fdin(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = recvmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    /* Nobody else may receive while this coroutine waits for the data. */
+    self->rbusy = 1;
+    ssize_t sz;
+    while(1) {
+        msg.msg_controllen = sizeof(control);
+        sz = recvmsg(self->fd, &msg, 0);
+        if(dill_fast(sz >= 0)) break;
+        if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) break;
+        int rc = dill_fdin(self->fd, deadline);
+        if(dill_slow(rc < 0)) {self->rbusy = 0; return -1;}
     }
-    /* Loop over the auxiliary data to find the embedded file descriptor. */
+    self->rbusy = 0;
+    if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
+    if(dill_slow(sz < 0)) {self->inerr = 1; return -1;}
+    /* Loop over the auxiliary data to find the embedded file descriptor.
+       If there are superfluous file descriptors, don't leak them. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
     while(cmsg) {
         if (cmsg->cmsg_level == SOL_SOCKET && cmsg->cmsg_type  == SCM_RIGHTS) {
-            fd = *(int*)CMSG_DATA(cmsg);
-            break;
+            size_t nfds = (cmsg->cmsg_len - CMSG_LEN(0)) / sizeof(int);
+            size_t i;
+            for(i = 0; i != nfds; ++i) {
+                int f;
+                memcpy(&f, CMSG_DATA(cmsg) + i * sizeof(int), sizeof(int));
+                if(fd < 0) fd = f;
+                else close(f);
+            }
         }
         cmsg = CMSG_NXTHDR(&msg, cmsg);
     }
-- 
2.43.0


From 70ec744f1ca727352dfaa436dc16d07e1c9d50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 022/106] fix: release the handle when detaching a protocol

The detach functions of PREFIX, SUFFIX, TERM, HTTP, WebSocket and TLS deallocated
the object but left its handle in the handle table, pointing to freed memory.
---
 http.c   |  5 ++++-
 prefix.c |  5 ++++-
 suffix.c |  5 ++++-
 term.c   |  7 +++++--
 tls.c    |  7 +++++--
 ws.c     | 11 ++++++++---
 6 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/http.c b/http.c
index 8dcb106..2bafa01 100644
--- a/http.c
+++ b/http.c
@@ -117,7 +117,10 @@ int dill_http_detach(int s, int64_t deadline) {
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
 error:
-    if(!obj->mem) free(obj);
+    /* Release the handle. The underlying sockets are already gone. */
+    obj->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return u;
 }
diff --git a/prefix.c b/prefix.c
index 1746872..e6cb080 100644
--- a/prefix.c
+++ b/prefix.c
@@ -116,8 +116,11 @@ int dill_prefix_detach(int s) {
     struct dill_prefix_sock *self = dill_hquery(s, dill_prefix_type);
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
+    /* Release the handle but leave the underlying socket alone. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index 1dce9e8..aa2a18e 100644
--- a/suffix.c
+++ b/suffix.c
@@ -120,8 +120,11 @@ int dill_suffix_detach(int s, int64_t deadline) {
     struct dill_suffix_sock *self = dill_hquery(s, dill_suffix_type);
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
+    /* Release the handle but leave the underlying socket alone. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/term.c b/term.c
index 5c91677..0295759 100644
--- a/term.c
+++ b/term.c
@@ -144,11 +144,14 @@ int dill_term_detach(int s, int64_t deadline) {
             }
         }
     }
+    /* Release the handle but leave the underlying socket alone. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:;
-    int rc = dill_hclose(s);
+    rc = dill_hclose(s);
     dill_assert(rc == 0);
     errno = err;
     return -1;
diff --git a/tls.c b/tls.c
index 958b10e..a43051e 100644
--- a/tls.c
+++ b/tls.c
@@ -275,12 +275,15 @@ int dill_tls_detach(int s, int64_t deadline) {
             if(dill_tls_followup(self, rc)) {err = errno; goto error;}
         }
     }
+    int rc;
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
-    dill_tls_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/ws.c b/ws.c
index 013a516..8416170 100644
--- a/ws.c
+++ b/ws.c
@@ -556,15 +556,20 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
              return -1;
         }
     }
+    /* Release the handle but leave the underlying socket alone. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From 36d06ebd0fc06af9cf2843a4374482d26ae52f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 023/106] fix: prefix: refuse messages too long for the header
 and invalid lists when sending

The length was silently truncated and the peer lost track of message boundaries.
---
 prefix.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/prefix.c b/prefix.c
index e6cb080..1f79cef 100644
--- a/prefix.c
+++ b/prefix.c
@@ -29,6 +29,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_prefix_type);
@@ -134,17 +135,18 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
         mvfs);
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     uint8_t szbuf[self->hdrlen];
-    size_t sz = 0;
-    struct dill_iolist *it;
-    for(it = first; it; it = it->iol_next)
-        sz += it->iol_len;
+    size_t sz;
+    int rc = dill_iolcheck(first, last, NULL, &sz);
+    if(dill_slow(rc < 0)) return -1;
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
         sz >>= 8;
     }
+    /* The size of the message doesn't fit into the header. */
+    if(dill_slow(sz)) {errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
-    int rc = dill_bsendl(self->u, &hdr, last, deadline);
+    rc = dill_bsendl(self->u, &hdr, last, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
     return 0;
 }
-- 
2.43.0


From de2f7fe08e9004ddb11b7f9b5b7be86e3f45c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 024/106] fix: prefix: receiving into a list longer than the
 message

The list trimmed to the size of the message was passed along with the original
last item. Invalid lists were modified or looped over. Sizes which don't fit
into ssize_t were returned as negative numbers or wrapped around.
---
 prefix.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prefix.c b/prefix.c
index 1f79cef..c9f610a 100644
--- a/prefix.c
+++ b/prefix.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -156,13 +157,18 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_prefix_sock *self = dill_cont(mvfs, struct dill_prefix_sock,
         mvfs);
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     uint8_t szbuf[self->hdrlen];
-    int rc = dill_brecv(self->u, szbuf, self->hdrlen, deadline);
+    rc = dill_brecv(self->u, szbuf, self->hdrlen, deadline);
     if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
     uint64_t sz = 0;
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
         uint8_t c = szbuf[self->bigendian ? i : (self->hdrlen - i - 1)];
+        /* The size cannot be represented in the return value. */
+        if(dill_slow(sz > (SSIZE_MAX >> 8))) {
+            self->inerr = 1; errno = EMSGSIZE; return -1;}
         sz <<= 8;
         sz |= c;
     }
@@ -185,7 +191,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From 2e5ca81462248657a9d874dcfd6f6f9d9a4fba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 025/106] fix: suffix: receiving into lists and messages which
 don't fit into the buffer

Only the first item of the list was checked for remaining space, so that the rest
of the list was not used, skipped items were never used up and a message longer
than the buffer was truncated silently (and its full length returned). A missing
list, i.e. request to drop the message, crashed.
---
 suffix.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/suffix.c b/suffix.c
index aa2a18e..2d94ea1 100644
--- a/suffix.c
+++ b/suffix.c
@@ -29,6 +29,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_suffix_type);
@@ -151,29 +152,33 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_suffix_sock *self = dill_cont(mvfs, struct dill_suffix_sock,
         mvfs);
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     /* First fill in the temporary buffer. */
     struct dill_iolist iol = {self->buf, self->suffixlen, NULL, 0};
-    int rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
+    rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
     if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
     /* Read the input, character by character. */
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    /* If there's no list the message is to be dropped. */
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
+    if(dill_fast(first)) it = *first;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
         /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
+        while(it.iol_len == 0) {
             if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
         /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
+        if(dill_fast(it.iol_base)) {
             ((uint8_t*)it.iol_base)[0] = self->buf[0];
             it.iol_base = ((uint8_t*)it.iol_base) + 1;
-            it.iol_len--;
         }
+        it.iol_len--;
         /* Read new character into the temporary buffer. */
         memmove(self->buf, self->buf + 1, self->suffixlen - 1);
         rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-- 
2.43.0


From bede3a7a9bb7afd560cfcecc6404ecdde8418cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 026/106] fix: suffix: refuse to send messages containing the
 suffix

Such message was split into several messages on the receiving side.
---
 suffix.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/suffix.c b/suffix.c
index 2d94ea1..ecd2940 100644
--- a/suffix.c
+++ b/suffix.c
@@ -133,15 +133,40 @@ error:
     return -1;
 }
 
+/* Make sure that the peer won't find the suffix anywhere in the message or
+   across the boundary between the message and the suffix proper. */
+static int dill_suffix_checkmsg(struct dill_suffix_sock *self,
+      struct dill_iolist *first) {
+    uint8_t win[32];
+    size_t len = 0;
+    struct dill_iolist suffix = {self->suffix, self->suffixlen - 1, NULL, 0};
+    struct dill_iolist *it = first;
+    while(1) {
+        size_t i;
+        for(i = 0; i != it->iol_len; ++i) {
+            if(len == self->suffixlen) memmove(win, win + 1, --len);
+            win[len++] = ((uint8_t*)it->iol_base)[i];
+            if(dill_slow(len == self->suffixlen &&
+                  memcmp(win, self->suffix, len) == 0)) {
+                errno = EINVAL; return -1;}
+        }
+        if(it == &suffix) return 0;
+        it = it->iol_next ? it->iol_next : &suffix;
+    }
+}
+
 static int dill_suffix_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_suffix_sock *self = dill_cont(mvfs, struct dill_suffix_sock,
         mvfs);
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
-    /* TODO: Make sure that message doesn't contain suffix sequence. */
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
+    rc = dill_suffix_checkmsg(self, first);
+    if(dill_slow(rc < 0)) return -1;
     struct dill_iolist iol = {self->suffix, self->suffixlen, NULL, 0};
     last->iol_next = &iol;
-    int rc = self->uvfs->bsendl(self->uvfs, first, &iol, deadline);
+    rc = self->uvfs->bsendl(self->uvfs, first, &iol, deadline);
     last->iol_next = NULL;
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
     return 0;
-- 
2.43.0


From 872a6100ae0cbecae9bd8e2e500c097b143a507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 027/106] fix: term_attach: check the length of the terminal
 message

Terminal message longer than 32 bytes overflowed the buffer.
---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index 0295759..5077763 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
-- 
2.43.0


From b1680eb5f34720e71339457c9d303749969eb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 028/106] fix: term: no messages can be exchanged after the
 terminal message

It was possible to send after term_done and to receive after EPIPE, thus stealing
messages that don't belong to the TERM protocol any more.
---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index 5077763..d400bd8 100644
--- a/term.c
+++ b/term.c
@@ -160,6 +160,7 @@ error:;
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -167,6 +168,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From dab08d79382d2fe3151421e0f894e78093bb0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 029/106] fix: term_detach: peer closing the connection is not
 a terminal handshake

term_detach succeeded when the underlying connection was closed by the peer even
though the terminal message was never received.
---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index d400bd8..f177205 100644
--- a/term.c
+++ b/term.c
@@ -138,7 +138,7 @@ int dill_term_detach(int s, int64_t deadline) {
             struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
             ssize_t sz = dill_term_mrecvl(&self->mvfs, &iol, &iol, deadline);
             if(sz < 0) {
-                if(errno == EPIPE) break;
+                if(dill_fast(self->indone)) break;
                 err = errno;
                 goto error;
             }
-- 
2.43.0


From b236f53723b2be79384fd95b2ce37c705f9da02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 030/106] fix: term: receiving into lists and buffers smaller
 than the terminal message

The list passed to the underlying socket had a wrong last item, dropping the
message crashed, messages not fitting into the buffer were truncated silently and
bytes beyond the end of a short message were overwritten by garbage.
---
 term.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/term.c b/term.c
index f177205..b9ca33b 100644
--- a/term.c
+++ b/term.c
@@ -179,10 +179,17 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
-    struct dill_iolist trimmed = {0};
-    int rc = dill_ioltrim(first, self->len, &trimmed);
+    size_t len;
+    int rc = dill_iolcheck(first, last, NULL, &len);
+    if(dill_slow(rc < 0)) return -1;
+    /* The beginning of the message is received into a local buffer so that it
+       can be compared to the terminal message. What follows goes directly to
+       the user's buffers or, if there are none, it is dropped. */
+    struct dill_iolist rest = {NULL, SIZE_MAX - self->len, NULL, 0};
+    rc = first ? dill_ioltrim(first, self->len, &rest) : 0;
+    if(!rest.iol_next) last = &rest;
     uint8_t buf[self->len];
-    struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
+    struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &rest, 0};
     ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
@@ -191,7 +198,10 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    /* The message may have fit into the local buffer but not into the user's
+       buffers. */
+    if(dill_slow(first && sz > len)) {errno = EMSGSIZE; return -1;}
+    if(first) dill_iolto(buf, sz < self->len ? sz : self->len, first);
     return sz;
 }
 
-- 
2.43.0


From 3377f562eb881fcc319760e7458d2b6dc42ba120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 031/106] fix: term: don't report a closed connection as the
 terminal message

---
 term.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/term.c b/term.c
index b9ca33b..9e58d4f 100644
--- a/term.c
+++ b/term.c
@@ -171,7 +171,11 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
-        if(dill_slow(sz < 0)) return -1;
+        if(dill_slow(sz < 0)) {
+            /* EPIPE is reserved for the terminal message. */
+            if(errno == EPIPE) errno = ECONNRESET;
+            return -1;
+        }
         if(dill_slow(sz == 0)) {
             self->indone = 1;
             errno = EPIPE;
@@ -191,7 +195,10 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
     uint8_t buf[self->len];
     struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &rest, 0};
     ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
-    if(dill_slow(sz < 0)) return -1;
+    if(dill_slow(sz < 0)) {
+        if(errno == EPIPE) errno = ECONNRESET;
+        return -1;
+    }
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
         self->indone = 1;
-- 
2.43.0


From 141199faed588766a8bc5d77ebeee1a45557d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 032/106] fix: http: receiving into buffers of size zero

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index 2bafa01..d6a69fd 100644
--- a/http.c
+++ b/http.c
@@ -165,7 +165,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start + 1 > commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -173,7 +173,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start + 1 > resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -247,7 +247,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(sz - pos + 1 > reasonlen)) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -297,7 +297,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start + 1 > namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -307,7 +307,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     /* Value. */
     start = pos;
     pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start + 1 > valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 184109b4abe2357d0006059eb1005e1bb2db66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 033/106] fix: http: check the protocol in the first line

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index d6a69fd..b8b1d83 100644
--- a/http.c
+++ b/http.c
@@ -180,7 +180,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -229,7 +229,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From b5f8b6e16e5c970b1cb49bb9aa4242d040c75285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 034/106] fix: http: strip blanks following the value of a
 field

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index b8b1d83..225cc73 100644
--- a/http.c
+++ b/http.c
@@ -306,7 +306,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
     if(dill_slow(pos - start + 1 > valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
-- 
2.43.0


From 5476219fe9b3e4496f244012a9d42721d9043cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 035/106] fix: http: reject lines containing zero bytes

---
 http.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/http.c b/http.c
index 225cc73..99c647a 100644
--- a/http.c
+++ b/http.c
@@ -125,6 +125,17 @@ error:
     return u;
 }
 
+/* Receive one line into rxbuf and terminate it by zero. */
+static ssize_t dill_http_recvline(struct dill_http_sock *obj,
+      int64_t deadline) {
+    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
+        deadline);
+    if(dill_slow(sz < 0)) return -1;
+    obj->rxbuf[sz] = 0;
+    if(dill_slow(strlen(obj->rxbuf) != sz)) {errno = EPROTO; return -1;}
+    return sz;
+}
+
 int dill_http_sendrequest(int s, const char *command, const char *resource,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
@@ -155,10 +166,8 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
       char *resource, size_t resourcelen, int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
-        deadline);
+    ssize_t sz = dill_http_recvline(obj, deadline);
     if(dill_slow(sz < 0)) return -1;
-    obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Command. */
@@ -219,10 +228,8 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
-        deadline);
+    ssize_t sz = dill_http_recvline(obj, deadline);
     if(dill_slow(sz < 0)) return -1;
-    obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Protocol. */
@@ -284,10 +291,8 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
       char *value, size_t valuelen, int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
-        deadline);
+    ssize_t sz = dill_http_recvline(obj, deadline);
     if(dill_slow(sz < 0)) return -1;
-    obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Name. */
-- 
2.43.0


From 7dfd931d5404d624c2d8abcc619ef785e322ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 036/106] fix: http: refuse empty values and line breaks when
 sending

---
 http.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/http.c b/http.c
index 99c647a..f248287 100644
--- a/http.c
+++ b/http.c
@@ -140,8 +140,10 @@ int dill_http_sendrequest(int s, const char *command, const char *resource,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    if (strpbrk(command, " \t\n") != NULL) {errno = EINVAL; return -1;}
-    if (strpbrk(resource, " \t\n") != NULL) {errno = EINVAL; return -1;}
+    if (!*command || strpbrk(command, " \t\r\n") != NULL) {
+        errno = EINVAL; return -1;}
+    if (!*resource || strpbrk(resource, " \t\r\n") != NULL) {
+        errno = EINVAL; return -1;}
     struct dill_iolist iol[4];
     iol[0].iol_base = (void*)command;
     iol[0].iol_len = strlen(command);
@@ -201,6 +203,7 @@ int dill_http_sendstatus(int s, int status, const char *reason, int64_t deadline
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     if(dill_slow(status < 100 || status > 599)) {errno = EINVAL; return -1;}
+    if(dill_slow(strpbrk(reason, "\r\n") != NULL)) {errno = EINVAL; return -1;}
     char buf[4];
     buf[0] = (status / 100) + '0';
     status %= 100;
@@ -265,9 +268,12 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     /* Check whether name contains only valid characters. */
-    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
+    if (!*name || strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\r\n") != NULL) {
         errno = EINVAL; return -1;}
-    if (strlen(value) == 0) {errno = EPROTO; return -1;}
+    if (strpbrk(value, "\r\n") != NULL) {errno = EINVAL; return -1;}
+    const char *start = dill_lstrip(value, ' ');
+    const char *end = dill_rstrip(start, ' ');
+    if (start == end) {errno = EINVAL; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
     iol[0].iol_len = strlen(name);
@@ -277,9 +283,6 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_len = 2;
     iol[1].iol_next = &iol[2];
     iol[1].iol_rsvd = 0;
-    const char *start = dill_lstrip(value, ' ');
-    const char *end = dill_rstrip(start, ' ');
-    dill_assert(start < end);
     iol[2].iol_base = (void*)start;
     iol[2].iol_len = end - start;
     iol[2].iol_next = NULL;
-- 
2.43.0


From 40cd0025ddfa8d898b174675bf0bb2c2d55ad2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 037/106] fix: base64_decode: bytes above 127 accessed memory
 outside of the table

---
 utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index eb3582d..d164ddc 100644
--- a/utils.c
+++ b/utils.c
@@ -166,11 +166,11 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
         0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
 
     for(io = 0, ii = 0, v = 0, rem = 0; ii < in_len; ii++) {
-        if(isspace(in[ii]))
+        if(isspace((uint8_t)in[ii]))
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(uint8_t)in[ii]];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From 7a6368ccd3469118d3632ed76d6b3ae753a6dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 038/106] fix: ws_attach_client: release the socket if the
 server refuses

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 8416170..886f609 100644
--- a/ws.c
+++ b/ws.c
@@ -119,7 +119,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 5c8b363fb034ce7a42b2ddfec0e5df356fba6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 039/106] fix: ws_attach_server: host was left uninitialised if
 the client sent none

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 886f609..1baf577 100644
--- a/ws.c
+++ b/ws.c
@@ -271,7 +271,8 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
     }
-    if(dill_slow(!has_upgrade || !has_connection || !has_key || !has_version)) {
+    if(dill_slow(!has_host || !has_upgrade || !has_connection || !has_key ||
+          !has_version)) {
         err = EPROTO; goto error;}
 
     /* Send HTTP response back to the client. */
-- 
2.43.0


From 4c65b2393c360d6dd8c2ae505636b9f01256a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 040/106] fix: ws: receiving into lists, receiving fragmented
 messages, dropping messages

---
 ws.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ws.c b/ws.c
index 1baf577..7978076 100644
--- a/ws.c
+++ b/ws.c
@@ -380,8 +380,9 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
-    /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    /* Message may consist of multiple frames. Read them one by one.
+       If there's no list the message is to be dropped. */
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     while(1) {
         struct dill_iolist iol_msg;
@@ -439,16 +440,20 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
         }
         /* Frame may be read into multiple iolist elements. */
+        size_t pos = 0;
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
                 if(dill_slow(rc < 0)) return -1;
-                if(self->server) {
+                if(it.iol_base) {
                     size_t i;
-                    for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+                    for(i = 0; self->server && i != toread; ++i)
+                        ((uint8_t*)it.iol_base)[i] ^= mask[(pos + i) % 4];
+                    it.iol_base = (uint8_t*)it.iol_base + toread;
                 }
+                it.iol_len -= toread;
+                pos += toread;
             }
             sz -= toread;
             if(sz == 0) break;
-- 
2.43.0


From 596971a6e2100420b5adf36e72405f83b8938846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 041/106] fix: ws: reject misplaced continuation frames

---
 ws.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 7978076..f7445dd 100644
--- a/ws.c
+++ b/ws.c
@@ -380,6 +380,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
+    int started = 0;
     /* Message may consist of multiple frames. Read them one by one.
        If there's no list the message is to be dropped. */
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
@@ -394,12 +395,13 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            if(dill_slow(!started)) {errno = EPROTO; return -1;}
             break;
         case 1:
-            if(flags) *flags = DILL_WS_TEXT;
-            break;
         case 2:
-            if(flags) *flags = DILL_WS_BINARY;
+            if(dill_slow(started)) {errno = EPROTO; return -1;}
+            if(flags) *flags = opcode == 1 ? DILL_WS_TEXT : DILL_WS_BINARY;
+            started = 1;
             break;
         case 8:
             it.iol_base = &self->status;
-- 
2.43.0


From 6217a8f2973c78b890c65f9f3c6ecfa81954b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 042/106] fix: ws: closing frames broken or preceded by a part
 of a message

---
 ws.c | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/ws.c b/ws.c
index f7445dd..510de99 100644
--- a/ws.c
+++ b/ws.c
@@ -386,7 +386,6 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     while(1) {
-        struct dill_iolist iol_msg;
         uint8_t hdr1[2];
         rc = dill_brecv(self->u, hdr1, sizeof(hdr1), deadline);
         if(dill_slow(rc < 0)) return -1;
@@ -404,15 +403,6 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             started = 1;
             break;
         case 8:
-            it.iol_base = &self->status;
-            it.iol_len = 2;
-            it.iol_next = &iol_msg;
-            it.iol_rsvd = 0;
-            iol_msg.iol_base = self->msg;
-            iol_msg.iol_len = sizeof(self->msg);
-            iol_msg.iol_next = NULL;
-            iol_msg.iol_rsvd = 0;
-            self->indone = 1;
             break;
         default:
             errno = EPROTO;
@@ -432,7 +422,6 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
             sz = dill_getll(hdr2);
         }
-        res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
             errno = EPROTO; return -1;}
@@ -441,6 +430,26 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             rc = dill_brecv(self->u, mask, sizeof(mask), deadline);
             if(dill_slow(rc < 0)) return -1;
         }
+        if(opcode == 8) {
+            uint8_t buf[125];
+            rc = dill_brecv(self->u, buf, sz, deadline);
+            if(dill_slow(rc < 0)) return -1;
+            size_t i;
+            for(i = 0; self->server && i != sz; ++i) buf[i] ^= mask[i % 4];
+            if(dill_slow(sz == 1)) {errno = EPROTO; return -1;}
+            if(sz >= 2) {
+                uint16_t status = dill_gets(buf);
+                if(dill_slow(status < 1000 || status > 4999)) {
+                    errno = EPROTO; return -1;}
+                self->status = status;
+                self->msglen = (uint8_t)sz - 2;
+                memcpy(self->msg, buf + 2, self->msglen);
+            }
+            self->indone = 1;
+            errno = EPIPE;
+            return -1;
+        }
+        res += sz;
         /* Frame may be read into multiple iolist elements. */
         size_t pos = 0;
         while(1) {
@@ -464,18 +473,6 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         }
         if(hdr1[0] & 0x80) break;
     }
-    if(dill_slow(self->indone)) {
-        if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
-        if(res >= 2) {
-           self->status = dill_gets((uint8_t*)&self->status);
-           if(dill_slow(self->status < 1000 || self->status > 4999)) {
-               errno = EPROTO; return -1;}
-           self->msglen = (uint8_t)res - 2;
-        }
-        else self->msglen = 0;
-        errno = EPIPE;
-        return -1;
-    }
     return res;
 }
 
-- 
2.43.0


From c4114e7778284e30d711a57dc37ed2843dbe80af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 043/106] fix: ws: pings and pongs broke the connection

---
 ws.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 510de99..ac8e37f 100644
--- a/ws.c
+++ b/ws.c
@@ -403,6 +403,8 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             started = 1;
             break;
         case 8:
+        case 9:
+        case 10:
             break;
         default:
             errno = EPROTO;
@@ -430,10 +432,12 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             rc = dill_brecv(self->u, mask, sizeof(mask), deadline);
             if(dill_slow(rc < 0)) return -1;
         }
-        if(opcode == 8) {
+        if(opcode >= 8) {
             uint8_t buf[125];
             rc = dill_brecv(self->u, buf, sz, deadline);
             if(dill_slow(rc < 0)) return -1;
+            /* Ignore pings and pongs. */
+            if(opcode != 8) continue;
             size_t i;
             for(i = 0; self->server && i != sz; ++i) buf[i] ^= mask[i % 4];
             if(dill_slow(sz == 1)) {errno = EPROTO; return -1;}
-- 
2.43.0


From 406ba38424f7d171bf114f87452da04456d0fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 044/106] fix: ws: garbage was received after a failure

---
 ws.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/ws.c b/ws.c
index ac8e37f..af7516d 100644
--- a/ws.c
+++ b/ws.c
@@ -41,6 +41,7 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -82,6 +83,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -204,6 +206,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -373,12 +376,9 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     return 0;
 }
 
-static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
-      struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
-    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
-    int rc = dill_iolcheck(first, last, NULL, NULL);
-    if(dill_slow(rc < 0)) return -1;
+static ssize_t dill_ws_recvmsg(struct dill_ws_sock *self, int *flags,
+      struct dill_iolist *first, int64_t deadline) {
+    int rc;
     size_t res = 0;
     int started = 0;
     /* Message may consist of multiple frames. Read them one by one.
@@ -480,6 +480,23 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     return res;
 }
 
+static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
+      struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
+    struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
+    ssize_t sz = dill_ws_recvmsg(self, flags, first, deadline);
+    if(dill_slow(sz < 0 && !self->indone)) {
+        /* The position in the stream is lost. EPIPE is reserved for
+           the closing frame. */
+        self->inerr = 1;
+        if(errno == EPIPE) errno = ECONNRESET;
+    }
+    return sz;
+}
+
 int dill_ws_send(int s, int flags, const void *buf, size_t len,
       int64_t deadline) {
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
-- 
2.43.0


From cadf7a068473a22512ea95308daa246ee2ab18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 045/106] fix: ws: reject frames longer than 2^63 bytes

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index af7516d..9054bd8 100644
--- a/ws.c
+++ b/ws.c
@@ -422,6 +422,7 @@ static ssize_t dill_ws_recvmsg(struct dill_ws_sock *self, int *flags,
             uint8_t hdr2[8];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
             if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(hdr2[0] & 0x80)) {errno = EPROTO; return -1;}
             sz = dill_getll(hdr2);
         }
         /* Control frames cannot be fragmented or longer than 125 bytes. */
-- 
2.43.0


From 9a62f38678246868e50fcabdbaf84f4239dcfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 046/106] fix: ws_done: refuse messages which don't fit into
 the closing frame

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 9054bd8..a6367a7 100644
--- a/ws.c
+++ b/ws.c
@@ -551,7 +551,8 @@ static ssize_t dill_ws_mrecvl(struct dill_msock_vfs *mvfs,
 int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
-        (!buf && len > 0))) {errno = EINVAL; return -1;}
+        (!buf && len > 0) || len > 123 || (status == 0 && len > 0))) {
+        errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From 548de821996a020e5d06a0502cc97af544c9e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 047/106] fix: ws_detach: close the socket on failure

---
 ws.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index a6367a7..a84de12 100644
--- a/ws.c
+++ b/ws.c
@@ -569,11 +569,12 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
 
 int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
+    int rc, err;
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(!self->outdone) {
-        int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        rc = dill_ws_done(s, status, buf, len, deadline);
+        if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
@@ -581,15 +582,21 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
             deadline);
         if(sz < 0) {
              if(errno == EPIPE) break;
-             return -1;
+             err = errno;
+             goto error;
         }
     }
     /* Release the handle but leave the underlying socket alone. */
     int u = self->u;
     self->u = -1;
-    int rc = dill_hclose(s);
+    rc = dill_hclose(s);
     dill_assert(rc == 0);
     return u;
+error:
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
-- 
2.43.0


From 9bfa121d86e8dd71a78e7314c2362310565eaa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 048/106] fix: ws: stack overflow when a client sends a message
 longer than 65535 bytes

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index a84de12..ecc7aaf 100644
--- a/ws.c
+++ b/ws.c
@@ -328,7 +328,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0


From 1341e6505100695b67f1c7774fa13175af46ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 049/106] fix: socks5 client: don't abort when the proxy
 selects a method which wasn't offered

---
 socks5.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/socks5.c b/socks5.c
index a919801..5364c8c 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            // this method was not offered unless both are known
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
             uint8_t upauth[513];
@@ -128,7 +128,7 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
     return -1;
 }
-- 
2.43.0


From 8cbd4e82b95dba952bdcd86f995904c12abd42bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 050/106] fix: socks5 client: buffer overflow with the longest
 user name and password

---
 socks5.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socks5.c b/socks5.c
index 5364c8c..be674bf 100644
--- a/socks5.c
+++ b/socks5.c
@@ -113,9 +113,9 @@ static int s5_client_auth(int s, const char *username, const char *password,
             uint8_t plen = (uint8_t)strlen(password);
             upauth[0] = RFC1929_VER; // VER = 1
             upauth[1] = ulen; // ULEN
-            strcpy((char *)(upauth + 2), username); // UNAME
+            memcpy(upauth + 2, username, ulen); // UNAME
             upauth[2 + ulen] = plen; // PLEN
-            strcpy((char *)(upauth + 3 + ulen), password); // PASSWD
+            memcpy(upauth + 3 + ulen, password, plen); // PASSWD
             err = dill_bsend(s, (void *)upauth, 3 + ulen + plen, deadline);
             if(dill_slow(err)) return -1;
             uint8_t upauthr[2];
-- 
2.43.0


From 3fc7e28a4e89fa91b2884882f20ceefccd5b3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 051/106] fix: socks5_proxy_auth: set errno when the client is
 rejected

---
 socks5.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socks5.c b/socks5.c
index be674bf..dc3539c 100644
--- a/socks5.c
+++ b/socks5.c
@@ -203,6 +203,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
+        errno = EACCES;
         return -1;
     }
     // no compatible AUTH (auth fail)
@@ -210,6 +211,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
+    errno = EACCES;
     return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
-- 
2.43.0


From a54c9b39e670f16f25aff7fc98772364c0da6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 052/106] fix: socks5: set errno for addresses which are
 neither IPv4 nor IPv6

---
 socks5.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socks5.c b/socks5.c
index dc3539c..5e61c8f 100644
--- a/socks5.c
+++ b/socks5.c
@@ -250,6 +250,7 @@ static int s5_ipaddr_to_s5addr(_socks5_addr *s5, struct dill_ipaddr *addr) {
             memcpy((void *)s5->addr, (void *)&ipv6->sin6_addr, s5->alen);
             return 0;}
     }
+    errno = EINVAL;
     return -1;
 }
 
-- 
2.43.0


From e6cee05a4ad8771f1d83c1e5f10837b9459c6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 053/106] fix: socks5_client_connectbyname: refuse an empty
 host name

---
 socks5.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index 5e61c8f..5b06bdb 100644
--- a/socks5.c
+++ b/socks5.c
@@ -361,7 +361,9 @@ static int s5_client_connectbyname(int s, const char *hostname, int port, int64_
     if(dill_slow(!dill_hquery(s, dill_bsock_type))) return -1;
     // validate input
     if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
-    if(dill_slow(strlen(hostname) > 255)) {errno = EINVAL; return -1;}
+    if(dill_slow(!hostname[0] || strlen(hostname) > 255)) {
+        errno = EINVAL; return -1;
+    }
     if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
-- 
2.43.0


From a53323f87db31e5e5da6a4abd6efc45d0b3c1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 054/106] fix: socks5_proxy_auth: don't accept credentials only
 a prefix of which was checked

---
 socks5.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index 5b06bdb..c54232b 100644
--- a/socks5.c
+++ b/socks5.c
@@ -194,7 +194,9 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         char *uname = (char *)&authr[2];
         char *passwd = (char *)&authr[3+ulen];
         // attempt to determine source address
-        if((*auth_fn)(uname, passwd)) {
+        // embedded zeros would hide the rest of the credentials from auth_fn
+        if(strlen(uname) == ulen && strlen(passwd) == plen &&
+              (*auth_fn)(uname, passwd)) {
             // auth accepted based on uname, passwd, ipaddr
             goto pwauth_success;
         }
-- 
2.43.0


From 87dfca1feadd52388a716c8e47bd1d10057c3cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 055/106] fix: socks5: refuse domain names with embedded zero
 bytes

---
 socks5.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/socks5.c b/socks5.c
index c54232b..05311e2 100644
--- a/socks5.c
+++ b/socks5.c
@@ -316,6 +316,10 @@ static int s5_recv_command_request_response(int s, uint8_t *conn, int64_t deadli
             // Read string + 2 bytes for port
             err = dill_brecv(s, conn + 5, conn[4] + 2, deadline);
             if(dill_slow(err)) return -1;
+            // The name is passed to the user as a string.
+            if(dill_slow(memchr(conn + 5, 0, conn[4]))) {
+                errno = EPROTO; return -1;
+            }
             break;
         default:
             errno = EPROTO;
-- 
2.43.0


From 8222e2a50859aaedfa0d4fd9124c46b36eec3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 056/106] fix: dns: options and iterators were used after the
 end of their lifetime

---
 dns/dns.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dns/dns.h b/dns/dns.h
index dc88ab5..e5af088 100644
--- a/dns/dns.h
+++ b/dns/dns.h
@@ -496,7 +496,7 @@ size_t dns_rr_print(void *, size_t, struct dns_rr *, struct dns_packet *, int *)
 
 
 #define dns_rr_i_new(P, ...) \
-	dns_rr_i_init(dns_quietinit(&(struct dns_rr_i){ 0, __VA_ARGS__ }), (P))
+	dns_rr_i_init((&(struct dns_rr_i){ 0, __VA_ARGS__ }), (P))
 
 struct dns_rr_i {
 	enum dns_section section;
@@ -1006,7 +1006,7 @@ void dns_cache_close(struct dns_cache *);
 #define DNS_OPTS_INITIALIZER  { DNS_OPTS_INITIALIZER_ }
 #define DNS_OPTS_INIT(...)    { DNS_OPTS_INITIALIZER_, __VA_ARGS__ }
 
-#define dns_opts(...) (dns_quietinit(&(struct dns_options)DNS_OPTS_INIT(__VA_ARGS__)))
+#define dns_opts(...) (&(struct dns_options)DNS_OPTS_INIT(__VA_ARGS__))
 
 struct dns_options {
 	/*
-- 
2.43.0


From a1bdac11352b5ae00861455fcdd9db20845cf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 057/106] fix: udp_open: report failure to bind to the local
 address

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From 881dc1c4e238f45cca8d4ba0ceef52d279467bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 058/106] fix: udp_send, udp_recv: refuse message sockets of
 other types

---
 udp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/udp.c b/udp.c
index bc7b22c..a483829 100644
--- a/udp.c
+++ b/udp.c
@@ -200,32 +200,32 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
       const void *buf, size_t len) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_sendl_(m, addr, &iol, &iol);
+    return dill_udp_sendl_(&obj->mvfs, addr, &iol, &iol);
 }
 
 ssize_t dill_udp_recv(int s, struct dill_ipaddr *addr, void *buf, size_t len,
       int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_recvl_(m, addr, &iol, &iol, deadline);
+    return dill_udp_recvl_(&obj->mvfs, addr, &iol, &iol, deadline);
 }
 
 int dill_udp_sendl(int s, const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_sendl_(m, addr, first, last);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_sendl_(&obj->mvfs, addr, first, last);
 }
 
 ssize_t dill_udp_recvl(int s, struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_recvl_(m, addr, first, last, deadline);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_recvl_(&obj->mvfs, addr, first, last, deadline);
 }
 
 static int dill_udp_msendl(struct dill_msock_vfs *mvfs,
-- 
2.43.0


From 0c339609f3784b0881c7886b80058bcc229c45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 059/106] fix: udp_recv: report EMSGSIZE instead of truncating
 the packet silently

---
 udp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udp.c b/udp.c
index a483829..fa1425e 100644
--- a/udp.c
+++ b/udp.c
@@ -183,10 +183,14 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     while(1) {
         ssize_t sz = recvmsg(obj->fd, &hdr, 0);
         if(sz >= 0) {
+            int truncated = hdr.msg_flags & MSG_TRUNC;
+            hdr.msg_namelen = sizeof(struct dill_ipaddr);
             /* If remote IP address is specified we'll silently drop all
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            /* If there's no buffer at all the packet is simply dropped. */
+            if(dill_slow(truncated && first)) {errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From 039adeb69859a95cbbd546832f73e8134dde50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 060/106] fix: udp_recvl: skip data when the buffer is NULL

---
 udp.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/udp.c b/udp.c
index fa1425e..081e026 100644
--- a/udp.c
+++ b/udp.c
@@ -178,6 +178,22 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     if(dill_slow(rc < 0)) return -1;
     struct iovec iov[niov];
     dill_ioltoiov(first, iov);
+    /* Bytes to be skipped have to be received to somewhere. Given that
+       no UDP packet is longer than 64kB, longer skips can be shortened. */
+    size_t i, skiplen = 0;
+    for(i = 0; i != niov; ++i) {
+        if(iov[i].iov_base || !iov[i].iov_len) continue;
+        if(iov[i].iov_len > 0xffff) iov[i].iov_len = 0xffff;
+        if(iov[i].iov_len > skiplen) skiplen = iov[i].iov_len;
+    }
+    void *skip = NULL;
+    if(dill_slow(skiplen)) {
+        skip = malloc(skiplen);
+        if(dill_slow(!skip)) {errno = ENOMEM; return -1;}
+        for(i = 0; i != niov; ++i)
+            if(!iov[i].iov_base) iov[i].iov_base = skip;
+    }
+    ssize_t res = -1;
     hdr.msg_iov = (struct iovec*)iov;
     hdr.msg_iovlen = niov;
     while(1) {
@@ -190,16 +206,21 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
             /* If there's no buffer at all the packet is simply dropped. */
-            if(dill_slow(truncated && first)) {errno = EMSGSIZE; return -1;}
+            if(dill_slow(truncated && first)) {errno = EMSGSIZE; break;}
             if(addr) *addr = raddr;
-            return sz;
+            res = sz;
+            break;
         }
-        if(errno != EAGAIN && errno != EWOULDBLOCK) return -1;
+        if(errno != EAGAIN && errno != EWOULDBLOCK) break;
         obj->busy = 1;
         rc = dill_fdin(obj->fd, deadline);
         obj->busy = 0;
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) break;
     }
+    int err = errno;
+    free(skip);
+    errno = err;
+    return res;
 }
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
-- 
2.43.0


From 2fa1d50b457dd937bd77c8941b5828c174c711d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 061/106] fix: ipaddr_remotes: crash when the name server
 cannot be reached

---
 ipaddr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..c557fef 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -374,6 +374,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From 990182ef7d351c0f53f05e1a6dfc26af96bc8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 062/106] fix: ipaddr_remotes: don't abort if the port is out
 of range

---
 ipaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index c557fef..59ffa5a 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -268,6 +268,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
       const char *name, int port, int mode, int64_t deadline) {
     /* Check the arguments. */
     if(dill_slow(!addrs || naddrs <= 0 || !name)) {errno = EINVAL; return -1;}
+    if(dill_slow(port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
     switch(mode) {
     case 0:
         mode = DILL_IPADDR_PREF_IPV4;
@@ -339,7 +340,6 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         }
         dill_assert(resolver);
     }
-    dill_assert(port >= 0 && port <= 0xffff);
     char portstr[8];
     snprintf(portstr, sizeof(portstr), "%d", port);
     struct addrinfo hints;
-- 
2.43.0


From e6d3a53b1c5fe7b3a8a31626da2fe607c27730a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 063/106] fix: ipaddr_remotes: don't abort if the name is too
 long or if there are not enough resources

---
 ipaddr.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 59ffa5a..7694844 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -334,12 +334,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
-    if(!resolver) {
-        if(errno == ENFILE || errno == EMFILE) {
-            return -1;
-        }
-        dill_assert(resolver);
-    }
+    if(dill_slow(!resolver)) {errno = rc; return -1;}
     char portstr[8];
     snprintf(portstr, sizeof(portstr), "%d", port);
     struct addrinfo hints;
@@ -348,8 +343,8 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_addrinfo *ai = dns_ai_open(name, portstr,
         mode == DILL_IPADDR_IPV4 ? DNS_T_A : DNS_T_AAAA, &hints,
         resolver, &rc);
-    dill_assert(ai);
     dns_res_close(resolver);
+    if(dill_slow(!ai)) {errno = rc; return -1;}
     /* Wait for the results. */
     int nresults = 0;
     struct addrinfo *it = NULL;
-- 
2.43.0


From e2f6a20c39c241c68cefa5c5a1f9cf8e333a5c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 064/106] fix: ipaddr_remotes: repeat queries which were not
 answered

---
 ipaddr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 7694844..1fac463 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -354,14 +354,20 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             int fd = dns_ai_pollfd(ai);
             int events = dns_ai_events(ai);
             dill_assert(fd >= 0);
+            /* If there's no answer the resolver has to be given a chance to
+               repeat the query or to ask a different name server. */
+            int64_t retry = dill_now() + dns_ai_timeout(ai) * 1000;
+            int final = deadline >= 0 && deadline <= retry;
             int rc = (events & DNS_POLLOUT) ?
-                dill_fdout(fd, deadline) : dill_fdin(fd, deadline);
+                dill_fdout(fd, final ? deadline : retry) :
+                dill_fdin(fd, final ? deadline : retry);
             /* There's no guarantee that the file descriptor will be reused
                in next iteration. We have to clean the fdwait cache here
                to be on the safe side. */
             int err = errno;
             dill_fdclean(fd);
             errno = err;
+            if(rc < 0 && err == ETIMEDOUT && !final) continue;
             if(dill_slow(rc < 0)) {
                 dns_ai_close(ai);
                 return -1;
-- 
2.43.0


From 8bcfba3ceab33d433a3904dd1da4f12cb788261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 065/106] fix: dns: try the next name server if one of them
 can't be reached

---
 dns/dns.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index 064440a..20465d1 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6917,8 +6917,13 @@ exec:
 		if (dns_so_elapsed(&R->so) >= dns_resconf_timeout(R->resconf))
 			dgoto(R->sp, DNS_R_FOREACH_A);
 
-		if ((error = dns_so_check(&R->so)))
-			goto error;
+		if ((error = dns_so_check(&R->so))) {
+			if (error == DNS_EAGAIN || error == ENOMEM || error == EMFILE || error == ENFILE)
+				goto error;
+
+			/* This server is out of order. Try the next one. */
+			dgoto(R->sp, DNS_R_FOREACH_A);
+		}
 
 		if (!dns_p_setptr(&F->answer, dns_so_fetch(&R->so, &error)))
 			goto error;
-- 
2.43.0


From 60410295e0ccefd7aa0542cd118def3217d79f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 066/106] fix: ipaddr_remotes: DNS configuration was used by
 other threads before it was loaded, abort without a hosts file

---
 ipaddr.c | 65 +++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 1fac463..6edd5c9 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -38,6 +38,7 @@
 #include <ifaddrs.h>
 #endif
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -51,9 +52,48 @@
 DILL_CT_ASSERT(sizeof(struct dill_ipaddr) >= sizeof(struct sockaddr_in));
 DILL_CT_ASSERT(sizeof(struct dill_ipaddr) >= sizeof(struct sockaddr_in6));
 
-static struct dns_resolv_conf *dill_dns_conf = NULL;
-static struct dns_hosts *dill_dns_hosts = NULL;
-static struct dns_hints *dill_dns_hints = NULL;
+/* Cached DNS configuration. It is never modified once it is published. */
+struct dill_dns {
+    struct dns_resolv_conf *conf;
+    struct dns_hosts *hosts;
+    struct dns_hints *hints;
+};
+static struct dill_dns *dill_dns = NULL;
+
+/* Returns cached DNS configuration, loading it first if needed. If several
+   threads are loading the configuration at the same time the first one to
+   finish wins. Returns NULL and sets errno in the case of error. */
+static struct dill_dns *dill_dns_get(void) {
+    struct dill_dns *dns = __atomic_load_n(&dill_dns, __ATOMIC_ACQUIRE);
+    if(dill_fast(dns)) return dns;
+    int rc = 0;
+    dns = malloc(sizeof(struct dill_dns));
+    if(dill_slow(!dns)) {errno = ENOMEM; return NULL;}
+    dns->hosts = NULL;
+    dns->hints = NULL;
+    dns->conf = dns_resconf_local(&rc);
+    if(dill_slow(!dns->conf)) goto error;
+    dns->hosts = dns_hosts_local(&rc);
+    /* It's OK if there's no hosts file. */
+    if(!dns->hosts && rc == ENOENT) dns->hosts = dns_hosts_open(&rc);
+    if(dill_slow(!dns->hosts)) goto error;
+    dns->hints = dns_hints_local(dns->conf, &rc);
+    if(dill_slow(!dns->hints)) goto error;
+    struct dill_dns *expected = NULL;
+    if(__atomic_compare_exchange_n(&dill_dns, &expected, dns, 0,
+          __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return dns;
+    dns_hints_close(dns->hints);
+    dns_hosts_close(dns->hosts);
+    dns_resconf_close(dns->conf);
+    free(dns);
+    return expected;
+error:
+    dns_hosts_close(dns->hosts);
+    dns_resconf_close(dns->conf);
+    free(dns);
+    errno = rc;
+    return NULL;
+}
 
 static int dill_ipaddr_ipany(struct dill_ipaddr *addr, int port, int mode)
 {
@@ -319,21 +359,12 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     }
     /* We are going to do a DNS query here so load DNS config files,
        unless they are already chached. */
-    if(dill_slow(!dill_dns_conf)) {
-        /* TODO: Maybe re-read the configuration once in a while? */
-        dill_dns_conf = dns_resconf_local(&rc);
-        if(!dill_dns_conf) {
-            errno = ENOENT;
-            return -1;
-        }
-        dill_dns_hosts = dns_hosts_local(&rc);
-        dill_assert(dill_dns_hosts);
-        dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
-        dill_assert(dill_dns_hints);
-    }
+    /* TODO: Maybe re-read the configuration once in a while? */
+    struct dill_dns *dns = dill_dns_get();
+    if(dill_slow(!dns)) return -1;
     /* Launch the actual DNS query. */
-    struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
-        dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
+    struct dns_resolver *resolver = dns_res_open(dns->conf,
+        dns->hosts, dns->hints, NULL, dns_opts(), &rc);
     if(dill_slow(!resolver)) {errno = rc; return -1;}
     char portstr[8];
     snprintf(portstr, sizeof(portstr), "%d", port);
-- 
2.43.0


From 449582fb094fa812cd771a14030acafeacd91732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 067/106] fix: ipaddr_local: don't abort if the interface has
 several addresses of the same family

---
 ipaddr.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 6edd5c9..2d6ac1a 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -232,8 +232,7 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
     /* Address is not a literal. It must be an interface name then. */
     struct ifaddrs *ifaces = NULL;
     rc = getifaddrs (&ifaces);
-    dill_assert (rc == 0);
-    dill_assert (ifaces);
+    if(dill_slow(rc != 0)) return -1;
     /*  Find first IPv4 and first IPv6 address. */
     struct ifaddrs *ipv4 = NULL;
     struct ifaddrs *ipv6 = NULL;
@@ -245,12 +244,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
-- 
2.43.0


From d2739eeec54f8aa5539002960988e62c94806921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 068/106] fix: dns: names with empty or overlong labels were
 encoded as different names

---
 dns/dns.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 20465d1..8fd120d 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1686,6 +1686,10 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 		ch	= src.b[src.x];
 
 		if (ch == '.') {
+			/* Empty labels and labels which are too long can't be encoded. */
+			if ((src.x == src.p && len > 1) || src.x - src.p > DNS_D_MAXLABEL)
+				goto illegal;
+
 			if (dst.p < lim)
 				dst.b[dst.p]	= (0x3f & (src.x - src.p));
 
@@ -1701,6 +1705,9 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 	} /* while() */
 
 	if (src.x > src.p) {
+		if (src.x - src.p > DNS_D_MAXLABEL)
+			goto illegal;
+
 		if (dst.p < lim)
 			dst.b[dst.p]	= (0x3f & (src.x - src.p));
 
@@ -1755,6 +1762,10 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 		*error = DNS_EILLEGAL;
 
 	return dst.p;
+illegal:
+	*error = DNS_EILLEGAL;
+
+	return 0;
 } /* dns_d_comp() */
 
 
-- 
2.43.0


From a770e11d51ea12a0b5590e9bd1489f505c740c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 069/106] fix: dns: skip entries of the search list which would
 make the name too long

---
 dns/dns.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 8fd120d..ac4ba2a 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6732,6 +6732,9 @@ exec:
 				struct dns_packet *query	= dns_p_new(DNS_P_QBUFSIZ);
 #endif
 
+				if (len >= sizeof host)
+					continue;
+
 				if ((error = dns_p_push(query, DNS_S_QD, host, len, R->qtype, R->qclass, 0, 0)))
 					goto error;
 
@@ -6806,6 +6809,9 @@ exec:
 		if (!(len = dns_resconf_search(host, sizeof host, R->qname, R->qlen, R->resconf, &R->search)))
 			dgoto(R->sp, DNS_R_SWITCH);
 
+		if (len >= sizeof host)
+			dgoto(R->sp, DNS_R_SEARCH);
+
 		if (!(P = dns_p_make(DNS_P_QBUFSIZ, &error)))
 			goto error;
 
-- 
2.43.0


From be2bac5f485ac24967c4b8c9a45050fcacb8fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 070/106] fix: dns: ask for recursion when following a CNAME

---
 dns/dns.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index ac4ba2a..78f5de8 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -7005,6 +7005,8 @@ exec:
 		if (!(F[1].query = dns_p_make(DNS_P_QBUFSIZ, &error)))
 			goto error;
 
+		dns_header(F[1].query)->rd	= !R->resconf->options.recurse;
+
 		if ((error = dns_p_push(F[1].query, DNS_S_QD, host, strlen(host), dns_rr_type(12, F->query), DNS_C_IN, 0, 0)))
 			goto error;
 
-- 
2.43.0


From f38b97491e4785be696229d9202ec5f82aa2cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 071/106] fix: dns: don't share the number of attempts among
 the entries of the search list

---
 dns/dns.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 78f5de8..8b1391f 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6822,6 +6822,9 @@ exec:
 		if ((error = dns_p_push(F->query, DNS_S_QD, host, len, R->qtype, R->qclass, 0, 0)))
 			goto error;
 
+		/* Don't make this name pay for the attempts the previous one took. */
+		F->attempts	= 0;
+
 		F->state++;
 	case DNS_R_HINTS:
 		if (!dns_p_setptr(&F->hints, dns_hints_query(R->hints, F->query, &error)))
-- 
2.43.0


From cf8ca34f3189c1f2f6630396a061ec6afc61ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 072/106] fix: dns: wrong data were sent when a query was
 written to a TCP connection in several pieces

---
 dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index 8b1391f..bb155fb 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -5911,7 +5911,7 @@ static int dns_so_tcp_send(struct dns_socket *so) {
 	so->query->data[-2] = 0xff & (so->query->end >> 8);
 	so->query->data[-1] = 0xff & (so->query->end >> 0);
 
-	qsrc = &so->query->data[-2] + so->qout;
+	qsrc = &so->query->data[-2];
 	qend = so->query->end + 2;
 
 	while (so->qout < qend) {
-- 
2.43.0


From 9a9ab28b6c3709cf24340cd26e16a3b4269b8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 073/106] fix: dns: don't append the root domain to names, it
 results in an empty label

---
 dns/dns.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index bb155fb..404bbd0 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -4857,6 +4857,10 @@ size_t dns_resconf_search(void *dst, size_t lim, const void *qname, size_t qlen,
 
 		/* FALL THROUGH */
 	case 1:
+		/* The root domain adds nothing to the name. */
+		while (srchi < lengthof(resconf->search) && 0 == strcmp(resconf->search[srchi], "."))
+			srchi++;
+
 		if (srchi < lengthof(resconf->search) && (slen = strlen(resconf->search[srchi]))) {
 			len	= dns__printstring(dst, lim, 0, qname, qlen);
 			len	= dns_d_anchor(dst, lim, dst, len);
-- 
2.43.0


From a843fff5cb4c3d9bc4f5e274920c229e436744ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 074/106] fix: dns: don't send a query to a TCP connection
 where the previous one was not finished

---
 dns/dns.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 404bbd0..3f5cec6 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -5815,6 +5815,12 @@ int dns_so_submit(struct dns_socket *so, struct dns_packet *Q, struct sockaddr *
 	struct dns_rr rr;
 	int error	= -1;
 
+	/* Don't reuse a connection with an unfinished exchange on it. */
+	if (so->state > DNS_SO_TCP_INIT && so->state < DNS_SO_TCP_DONE) {
+		if ((error = dns_so_closefd(so, &so->tcp)))
+			return error;
+	}
+
 	dns_so_reset(so);
 
 	if ((error = dns_rr_parse(&rr, 12, Q)))
-- 
2.43.0


From 78e304a6b8f4cd63abe658368992a4e72470c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 075/106] fix: dns: endless loop when expanding a name
 compressed to itself

---
 dns/dns.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index 3f5cec6..e6196b1 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1849,8 +1849,6 @@ size_t dns_d_expand(void *dst, size_t lim, unsigned short src, struct dns_packet
 
 			dstp++;
 
-			nptrs	= 0;
-
 			continue;
 		case 0x01:	/* RESERVED */
 			goto reserved;
-- 
2.43.0


From 9cccdb6cbe648302b73251ee4da9e210f798051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 076/106] fix: happyeyeballs_connect: check the upper bound of
 the port

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9fedfb3..bcfcb49 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -151,7 +151,7 @@ cancel:
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int res = -1;
     int err = 0;
-    if(dill_slow(!name || port <= 0)) {err = EINVAL; goto exit1;}
+    if(dill_slow(!name || port <= 0 || port > 65535)) {err = EINVAL; goto exit1;}
     int chconns[2];
     struct dill_chstorage chconns_storage;
     int rc = dill_chmake_mem(&chconns_storage, chconns);
-- 
2.43.0


From 06a2f48fea7e547f764ec382a6ea6cb5cfd476e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 077/106] fix: happyeyeballs_connect: attempts weren't
 staggered if DNS results arrived late

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index bcfcb49..4806421 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -113,10 +113,10 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
     while(1) {
-        nw = dill_now();
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
+        nw = dill_now();
 use_address:
         /* Ignore 0.0.0.0 addresses. */
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
-- 
2.43.0


From 5af6fa9a852d3632c83a1caa36ea1c3cb89db564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 078/106] fix: happyeyeballs_connect: don't abort if there are
 not enough resources

---
 happyeyeballs.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 4806421..b0da8a7 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -56,9 +56,14 @@ static dill_coroutine void dill_happyeyeballs_dnsquery(const char *name,
 static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
       int ch) {
     int conn = dill_tcp_connect(&addr, -1);
-    if(dill_slow(conn < 0)) return;
+    if(dill_slow(conn < 0)) {
+        /* Lack of resources is reported to the caller. */
+        if(errno != EMFILE && errno != ENFILE && errno != ENOMEM) return;
+        conn = -errno;
+    }
     int rc = dill_chsend(ch, &conn, sizeof(int), -1);
     if(dill_slow(rc < 0 && errno == ECANCELED)) {
+        if(conn < 0) return;
         rc = dill_hclose(conn);
         dill_assert(rc == 0);
         return;
@@ -68,6 +73,7 @@ static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
 
 static dill_coroutine void dill_happyeyeballs_coordinator(
       const char *name, int port, int ch) {
+    int err = 0;
     struct dill_ipaddr nulladdr;
     int rc = dill_ipaddr_local(&nulladdr, "0.0.0.0", 0, DILL_IPADDR_IPV4);
     dill_assert(rc == 0);
@@ -77,22 +83,20 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     int chipv6[2];
     struct dill_chstorage chipv6_storage;
     rc = dill_chmake_mem(&chipv6_storage, chipv6);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit1;}
     int chipv4[2];
     struct dill_chstorage chipv4_storage;
     rc = dill_chmake_mem(&chipv4_storage, chipv4);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit2;}
     struct dill_bundle_storage bndl_storage;
     int bndl = dill_bundle_mem(&bndl_storage);
-    dill_assert(bndl >= 0);
+    if(dill_slow(bndl < 0)) {err = errno; goto exit3;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV6, chipv6[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto cancel;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV4, chipv4[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto cancel;}
     /* RFC says to wait for 50ms for IPv6 result irrespective of whether
        IPv4 address arrives. */
     struct dill_ipaddr addr;
@@ -122,8 +126,7 @@ use_address:
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
         /* Launch the connect attempt. */
         rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch));
-        if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-        dill_assert(rc == 0);
+        if(dill_slow(rc < 0)) {err = errno; goto cancel;}
         /* Alternate between IPv4 and IPv6 addresses. */
         if(idx == 0) {
             int tmp = cls[0].ch;
@@ -138,14 +141,23 @@ use_address:
 cancel:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
+exit3:
     rc = dill_hclose(chipv4[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv4[1]);
     dill_assert(rc == 0);
+exit2:
     rc = dill_hclose(chipv6[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv6[1]);
     dill_assert(rc == 0);
+exit1:
+    /* Report the failure to the caller. */
+    if(err && err != ECANCELED) {
+        err = -err;
+        rc = dill_chsend(ch, &err, sizeof(int), -1);
+        dill_assert(rc == 0 || errno == ECANCELED);
+    }
 }
 
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
@@ -161,6 +173,7 @@ int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int conn;
     rc = dill_chrecv(chconns[0], &conn, sizeof(int), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto exit3;}
+    if(dill_slow(conn < 0)) {err = -conn; goto exit3;}
     res = conn;
 exit3:
     rc = dill_hclose(coord);
-- 
2.43.0


From ec9088eb6aa721342a4335960183121acfbe9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 079/106] fix: tls: failed handshake was treated as a success

The result of the handshake was checked only if it was to be restarted, so
tls_attach_client and tls_attach_server returned a socket even though the
handshake failed.
---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index a43051e..d75eb98 100644
--- a/tls.c
+++ b/tls.c
@@ -116,8 +116,9 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     while(1) {
         ERR_clear_error();
         int rc = SSL_connect(ssl);
-        if(dill_tls_followup(self, rc)) break;
+        if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
@@ -202,8 +203,9 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     while(1) {
         ERR_clear_error();
         rc = SSL_accept(ssl);
-        if(dill_tls_followup(self, rc)) break;
+        if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-- 
2.43.0


From 234bf7fec91ece65ace20f97e216e7290e5c1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 080/106] fix: tls: BIO freed twice or TLS objects leaked when
 attaching fails

Once SSL_set_bio is called the BIO is released by SSL_free. SSL and SSL_CTX
weren't released if taking ownership of the underlying socket failed.
---
 tls.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index d75eb98..5311cc9 100644
--- a/tls.c
+++ b/tls.c
@@ -96,7 +96,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -117,15 +117,13 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
         ERR_clear_error();
         int rc = SSL_connect(ssl);
         if(!dill_tls_followup(self, rc)) continue;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
         break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
@@ -183,7 +181,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -204,15 +202,13 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
         ERR_clear_error();
         rc = SSL_accept(ssl);
         if(!dill_tls_followup(self, rc)) continue;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
         break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
-- 
2.43.0


From 24922be17bc2d31bb2accebbc4c7506b592becf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 081/106] fix: tls: handshake and shutdown ignored the deadline

---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 5311cc9..e6f0a9a 100644
--- a/tls.c
+++ b/tls.c
@@ -106,7 +106,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -191,7 +191,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -242,6 +242,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    self->deadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -265,6 +266,7 @@ int dill_tls_detach(int s, int64_t deadline) {
         if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     /* Wait for the handshake acknowledgement from the peer. */
+    self->deadline = deadline;
     if(!self->indone) {
         while(1) {
             ERR_clear_error();
-- 
2.43.0


From 7ddddbf90fcb1f454b076fd04d645444b46acc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 082/106] fix: tls: process aborted when transport fails or
 with a newer OpenSSL

OpenSSL asks the BIO about, for example, end of file or kernel TLS. Unknown
control commands should be ignored by returning zero.
---
 tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index e6f0a9a..9e6c040 100644
--- a/tls.c
+++ b/tls.c
@@ -458,7 +458,8 @@ static long dill_tls_cbio_ctrl(BIO *bio, int cmd, long larg, void *parg) {
     case BIO_CTRL_POP:
         return 0;
     default:
-        dill_assert(0);
+        /* OpenSSL may use control commands we know nothing about. */
+        return 0;
     }
 }
 
-- 
2.43.0


From fb7f627b0b21fe8154837c05979d7b7f5d64c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 083/106] fix: tls: truncated connection was reported as an
 orderly shutdown

If the underlying connection is closed without TLS closure alert brecv
should fail with ECONNRESET rather than with EPIPE. Also, don't abort or loop
endlessly when OpenSSL function fails without the transport failing.
---
 tls.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index 9e6c040..a196787 100644
--- a/tls.c
+++ b/tls.c
@@ -115,6 +115,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     /* Initial handshaking. */
     while(1) {
         ERR_clear_error();
+        errno = 0;
         int rc = SSL_connect(ssl);
         if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error3;}
@@ -200,6 +201,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     /* Initial handshaking. */
     while(1) {
         ERR_clear_error();
+        errno = 0;
         rc = SSL_accept(ssl);
         if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error3;}
@@ -245,6 +247,7 @@ int dill_tls_done(int s, int64_t deadline) {
     self->deadline = deadline;
     while(1) {
         ERR_clear_error();
+        errno = 0;
         int rc = SSL_shutdown(self->ssl);
         if(rc == 0) {self->outdone = 1; return 0;}
         if(rc == 1) {self->outdone = 1; self->indone = 1; return 0;}
@@ -270,6 +273,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     if(!self->indone) {
         while(1) {
             ERR_clear_error();
+            errno = 0;
             int rc = SSL_shutdown(self->ssl);
             if(rc == 1) break;
             if(dill_tls_followup(self, rc)) {err = errno; goto error;}
@@ -300,6 +304,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
+            errno = 0;
             int rc = SSL_write(self->ssl, base, len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
@@ -328,6 +333,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(1) {
             ERR_clear_error();
+            errno = 0;
             int rc = SSL_read(self->ssl, base, len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
@@ -394,9 +400,10 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
         errno = EPIPE;
         return 1;
     case SSL_ERROR_SYSCALL:
-        /* Error from our custom BIO. */
-        dill_assert(rc == -1);
-        if(errno == 0) return 0;
+        /* Error from our custom BIO. Note that if the underlying connection
+           was closed without the terminal TLS handshake it isn't an orderly
+           shutdown. The data may have been truncated by an attacker. */
+        if(errno == 0 || errno == EPIPE) errno = ECONNRESET;
         return 1;
     case SSL_ERROR_SSL:        
         dill_tls_process_errors();
@@ -410,7 +417,7 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
            for debugging purposes. */
         fprintf(stderr, "SSL error code: %d\n", code);
         dill_tls_process_errors();
-        dill_assert(0);
+        return 1;
     }
 }
 
-- 
2.43.0


From bd574afbca23344fad1d5fc95d840137a27e1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 084/106] fix: tls: operation blocked on a deadline passed by a
 different coroutine

When one coroutine was receiving and other one started sending the deadline
of the former was overwritten by that of the latter. Also, two coroutines
can't send to, or receive from, the socket at the same time.
---
 tls.c | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/tls.c b/tls.c
index a196787..930d677 100644
--- a/tls.c
+++ b/tls.c
@@ -42,8 +42,13 @@ struct dill_tls_sock {
     struct dill_bsock_vfs bvfs;
     SSL_CTX *ctx;
     SSL *ssl;
+    /* There may be one coroutine sending and another one receiving at the same
+       time, each with a deadline of its own. */
+    int64_t indeadline;
+    int64_t outdeadline;
     int u;
-    int64_t deadline;
+    unsigned int sbusy : 1;
+    unsigned int rbusy : 1;
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
@@ -106,7 +111,10 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = deadline;
+    self->indeadline = deadline;
+    self->outdeadline = deadline;
+    self->sbusy = 0;
+    self->rbusy = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -192,7 +200,10 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = deadline;
+    self->indeadline = deadline;
+    self->outdeadline = deadline;
+    self->sbusy = 0;
+    self->rbusy = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -242,17 +253,22 @@ error1:
 int dill_tls_done(int s, int64_t deadline) {
     struct dill_tls_sock *self = dill_hquery(s, dill_tls_type);
     if(dill_slow(!self)) return -1;
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-    self->deadline = deadline;
+    self->outdeadline = deadline;
+    if(!self->rbusy) self->indeadline = deadline;
+    self->sbusy = 1;
     while(1) {
         ERR_clear_error();
         errno = 0;
         int rc = SSL_shutdown(self->ssl);
+        if(rc >= 0) self->sbusy = 0;
         if(rc == 0) {self->outdone = 1; return 0;}
         if(rc == 1) {self->outdone = 1; self->indone = 1; return 0;}
         if(dill_tls_followup(self, rc)) break;
     }
+    self->sbusy = 0;
     dill_assert(errno != 0);
     self->outerr = 1;
     return -1;
@@ -269,7 +285,8 @@ int dill_tls_detach(int s, int64_t deadline) {
         if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     /* Wait for the handshake acknowledgement from the peer. */
-    self->deadline = deadline;
+    self->indeadline = deadline;
+    self->outdeadline = deadline;
     if(!self->indone) {
         while(1) {
             ERR_clear_error();
@@ -295,9 +312,12 @@ error:
 static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->outdeadline = deadline;
+    if(!self->rbusy) self->indeadline = deadline;
+    self->sbusy = 1;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -308,6 +328,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
             int rc = SSL_write(self->ssl, base, len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
+                    self->sbusy = 0;
                     self->outerr = 1;
                     return -1;
                 }
@@ -318,15 +339,19 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         if(it == last) break;
         it = it->iol_next;
     }
+    self->sbusy = 0;
     return 0;
 }
 
 static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
+    if(dill_slow(self->rbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->indeadline = deadline;
+    if(!self->sbusy) self->outdeadline = deadline;
+    self->rbusy = 1;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -337,6 +362,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
             int rc = SSL_read(self->ssl, base, len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
+                    self->rbusy = 0;
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
@@ -349,6 +375,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
         if(it == last) break;
         it = it->iol_next;
     }
+    self->rbusy = 0;
     return 0;
 }
 
@@ -445,14 +472,14 @@ static int dill_tls_cbio_destroy(BIO *bio) {
 
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_bsend(self->u, buf, len, self->deadline);
+    int rc = dill_bsend(self->u, buf, len, self->outdeadline);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_brecv(self->u, buf, len, self->deadline);
+    int rc = dill_brecv(self->u, buf, len, self->indeadline);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
-- 
2.43.0


From 109ba57938c249768c2fb92e4ac4f1423b426bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 085/106] fix: tls: malformed iolists, empty items and skipped
 data weren't handled

Receiving zero bytes failed, receiving to NULL buffer crashed. List not
terminated by 'last' should be rejected with EINVAL as is done by TCP.
---
 tls.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tls.c b/tls.c
index 930d677..b83f75a 100644
--- a/tls.c
+++ b/tls.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
@@ -31,6 +32,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 #define DILL_TLS_BUFSIZE 2048
@@ -315,17 +317,19 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     self->outdeadline = deadline;
     if(!self->rbusy) self->indeadline = deadline;
     self->sbusy = 1;
-    struct dill_iolist *it = first;
-    while(1) {
+    struct dill_iolist *it;
+    for(it = first; it; it = it->iol_next) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
             errno = 0;
-            int rc = SSL_write(self->ssl, base, len);
+            rc = SSL_write(self->ssl, base, len < INT_MAX ? len : INT_MAX);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->sbusy = 0;
@@ -336,8 +340,6 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
                 len -= rc;
             }
         }
-        if(it == last) break;
-        it = it->iol_next;
     }
     self->sbusy = 0;
     return 0;
@@ -349,17 +351,23 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->rbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
     self->indeadline = deadline;
     if(!self->sbusy) self->outdeadline = deadline;
     self->rbusy = 1;
-    struct dill_iolist *it = first;
-    while(1) {
+    struct dill_iolist *it;
+    for(it = first; it; it = it->iol_next) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
-        while(1) {
+        while(len > 0) {
+            /* Without a buffer the data are skipped. */
+            uint8_t skipped[512];
+            size_t sz = base || len < sizeof(skipped) ? len : sizeof(skipped);
             ERR_clear_error();
             errno = 0;
-            int rc = SSL_read(self->ssl, base, len);
+            rc = SSL_read(self->ssl, base ? base : skipped,
+                sz < INT_MAX ? sz : INT_MAX);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->rbusy = 0;
@@ -367,13 +375,10 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
                     else self->inerr = 1;
                     return -1;
                 }
-                if(rc == len) break;
-                base += rc;
+                if(base) base += rc;
                 len -= rc;
             }
         }
-        if(it == last) break;
-        it = it->iol_next;
     }
     self->rbusy = 0;
     return 0;
-- 
2.43.0


From 47dcea7097bf328266811e3aee1eca9a8894d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 086/106] fix: tls: errors were reported as EPIPE after the
 peer has closed its half

Once the peer sends closure alert OpenSSL reports any failure of the transport
as if the connection was terminated by the peer.
---
 tls.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tls.c b/tls.c
index b83f75a..f871782 100644
--- a/tls.c
+++ b/tls.c
@@ -428,14 +428,15 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
         errno = 0;
         return 1;
 	  case SSL_ERROR_ZERO_RETURN:
-        /* Connection terminated by peer. */
-        errno = EPIPE;
+        /* Connection terminated by peer. OpenSSL returns this code even if
+           it's our custom BIO that have failed afterwards. */
+        if(errno == 0) errno = EPIPE;
         return 1;
     case SSL_ERROR_SYSCALL:
         /* Error from our custom BIO. Note that if the underlying connection
            was closed without the terminal TLS handshake it isn't an orderly
            shutdown. The data may have been truncated by an attacker. */
-        if(errno == 0 || errno == EPIPE) errno = ECONNRESET;
+        if(errno == 0) errno = ECONNRESET;
         return 1;
     case SSL_ERROR_SSL:        
         dill_tls_process_errors();
@@ -478,14 +479,22 @@ static int dill_tls_cbio_destroy(BIO *bio) {
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
     int rc = dill_bsend(self->u, buf, len, self->outdeadline);
-    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(rc < 0)) {
+        if(errno == EPIPE) errno = ECONNRESET;
+        return -1;
+    }
+    errno = 0;
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
     int rc = dill_brecv(self->u, buf, len, self->indeadline);
-    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(rc < 0)) {
+        if(errno == EPIPE) errno = ECONNRESET;
+        return -1;
+    }
+    errno = 0;
     return len;
 }
 
-- 
2.43.0


From 41694ceaa544923188201090db5cb868cbad9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 087/106] fix: tls: fatal alert from the peer was considered an
 orderly shutdown

SSL_shutdown succeeds even if peer has sent a fatal alert instead of the
closure alert. Thus, tls_detach returned the underlying socket although the
connection was broken. Similarly, EPIPE was returned when sending.
---
 tls.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index f871782..e1c0960 100644
--- a/tls.c
+++ b/tls.c
@@ -62,6 +62,7 @@ DILL_CHECK_STORAGE(dill_tls_sock, dill_tls_storage)
 
 static void dill_tls_init(void);
 static BIO *dill_tls_new_cbio(void *mem);
+static void dill_tls_process_errors(void);
 static int dill_tls_followup(struct dill_tls_sock *self, int rc);
 
 static void *dill_tls_hquery(struct dill_hvfs *hvfs, const void *type);
@@ -267,11 +268,16 @@ int dill_tls_done(int s, int64_t deadline) {
         int rc = SSL_shutdown(self->ssl);
         if(rc >= 0) self->sbusy = 0;
         if(rc == 0) {self->outdone = 1; return 0;}
-        if(rc == 1) {self->outdone = 1; self->indone = 1; return 0;}
+        if(rc == 1) {
+            self->outdone = 1;
+            if(!self->inerr) self->indone = 1;
+            return 0;
+        }
         if(dill_tls_followup(self, rc)) break;
     }
     self->sbusy = 0;
     dill_assert(errno != 0);
+    if(errno == EPIPE) errno = ECONNRESET;
     self->outerr = 1;
     return -1;
 }
@@ -294,7 +300,13 @@ int dill_tls_detach(int s, int64_t deadline) {
             ERR_clear_error();
             errno = 0;
             int rc = SSL_shutdown(self->ssl);
-            if(rc == 1) break;
+            if(rc == 1) {
+                /* Fatal alert from the peer isn't an orderly shutdown. */
+                if(dill_fast(ERR_peek_error() == 0)) break;
+                dill_tls_process_errors();
+                err = errno;
+                goto error;
+            }
             if(dill_tls_followup(self, rc)) {err = errno; goto error;}
         }
     }
@@ -333,6 +345,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->sbusy = 0;
+                    if(errno == EPIPE) errno = ECONNRESET;
                     self->outerr = 1;
                     return -1;
                 }
-- 
2.43.0


From 5ddd8a22556fb3896f5dcccb42bd2ef86b26e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 088/106] fix: ws: failure to open the random device crashed
 the program

---
 utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index d164ddc..18ca84d 100644
--- a/utils.c
+++ b/utils.c
@@ -113,7 +113,7 @@ int dill_random(uint8_t *buf, size_t len) {
     static int fd = -1;
     if(dill_slow(fd < 0)) {
         fd = open("/dev/urandom", O_RDONLY);
-        dill_assert(fd >= 0);
+        if(dill_slow(fd < 0)) return -1;
     }
     ssize_t sz = read(fd, buf, len);
     if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From 8f0c35f2bbda360b5d2185887310d8edeaeff020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 089/106] fix: tcp, ipc: file descriptor was leaked if fromfd
 failed

---
 fd.c  |  5 +----
 fd.h  |  2 +-
 ipc.c | 32 ++++++++++++++++++++------------
 tcp.c | 32 ++++++++++++++++++++------------
 4 files changed, 42 insertions(+), 29 deletions(-)

diff --git a/fd.c b/fd.c
index e3d83ac..24125b9 100644
--- a/fd.c
+++ b/fd.c
@@ -409,15 +409,12 @@ void dill_fd_close(int s) {
     close(s);
 }
 
-int dill_fd_own(int s) {
-    int n = dup(s);
-    if(dill_slow(n < 0)) return -1;
+void dill_fd_release(int s) {
     /* The socket options are shared by both descriptors, so don't use
        dill_fd_close() which would switch SO_LINGER on. */
     int rc = dill_fdclean(s);
     dill_assert(rc == 0);
     close(s);
-    return n;
 }
 
 int dill_fd_check(int s, int type, int family1, int family2, int listening) {
diff --git a/fd.h b/fd.h
index 58f65ea..9af8aad 100644
--- a/fd.h
+++ b/fd.h
@@ -76,7 +76,7 @@ int dill_fd_recv(
     int64_t deadline);
 void dill_fd_close(
     int s);
-int dill_fd_own(
+void dill_fd_release(
     int s);
 int dill_fd_check(
     int s,
diff --git a/ipc.c b/ipc.c
index c4599b0..3e1ac11 100644
--- a/ipc.c
+++ b/ipc.c
@@ -108,16 +108,20 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     int rc = dill_fd_check(fd, SOCK_STREAM, AF_UNIX, -1, 0);
     if(dill_slow(rc < 0)) {err = errno; goto error1;}
     /* Take ownership of the file descriptor. */
-    fd = dill_fd_own(fd);
-    if(dill_slow(fd < 0)) {err = errno; goto error1;}
+    int s = dup(fd);
+    if(dill_slow(s < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
-    rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    rc = dill_fd_unblock(s);
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
-    int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    int h = dill_ipc_makeconn(s, mem);
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
+    /* Nothing can fail any more. The original descriptor is not needed. */
+    dill_fd_release(fd);
     /* Return the handle */
     return h;
+error2:
+    close(s);
 error1:
     errno = err;
     return -1;
@@ -421,16 +425,20 @@ int dill_ipc_listener_fromfd_mem(int fd,
     int rc = dill_fd_check(fd, SOCK_STREAM, AF_UNIX, -1, 1);
     if(dill_slow(rc < 0)) {err = errno; goto error1;}
     /* Take ownership of the file descriptor. */
-    fd = dill_fd_own(fd);
-    if(dill_slow(fd < 0)) {err = errno; goto error1;}
+    int s = dup(fd);
+    if(dill_slow(s < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
-    rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    rc = dill_fd_unblock(s);
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
-    int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    int h = dill_ipc_makelistener(s, mem);
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
+    /* Nothing can fail any more. The original descriptor is not needed. */
+    dill_fd_release(fd);
     /* Return the handle */
     return h;
+error2:
+    close(s);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index 1a43e98..c20c813 100644
--- a/tcp.c
+++ b/tcp.c
@@ -96,16 +96,20 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     int rc = dill_fd_check(fd, SOCK_STREAM, AF_INET, AF_INET6, 0);
     if(dill_slow(rc < 0)) {err = errno; goto error1;}
     /* Take ownership of the file descriptor. */
-    fd = dill_fd_own(fd);
-    if(dill_slow(fd < 0)) {err = errno; goto error1;}
+    int s = dup(fd);
+    if(dill_slow(s < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
-    rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    rc = dill_fd_unblock(s);
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
-    int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    int h = dill_tcp_makeconn(s, mem);
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
+    /* Nothing can fail any more. The original descriptor is not needed. */
+    dill_fd_release(fd);
     /* Return the handle */
     return h;
+error2:
+    close(s);
 error1:
     errno = err;
     return -1;
@@ -314,16 +318,20 @@ int dill_tcp_listener_fromfd_mem(int fd,
     int rc = dill_fd_check(fd, SOCK_STREAM, AF_INET, AF_INET6, 1);
     if(dill_slow(rc < 0)) {err = errno; goto error1;}
     /* Take ownership of the file descriptor. */
-    fd = dill_fd_own(fd);
-    if(dill_slow(fd < 0)) {err = errno; goto error1;}
+    int s = dup(fd);
+    if(dill_slow(s < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
-    rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    rc = dill_fd_unblock(s);
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
-    int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    int h = dill_tcp_makelistener(s, mem);
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
+    /* Nothing can fail any more. The original descriptor is not needed. */
+    dill_fd_release(fd);
     /* Return the handle */
     return h;
+error2:
+    close(s);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From e4302eaf81123c6d3130c589cbf4ae2a75b26ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 090/106] fix: tls: lack of memory was reported as EFAULT

---
 tls.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tls.c b/tls.c
index e1c0960..2746d7d 100644
--- a/tls.c
+++ b/tls.c
@@ -93,10 +93,10 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     const SSL_METHOD *method = SSLv23_method();
     if(dill_slow(!method)) {err = EFAULT; goto error1;}
     SSL_CTX *ctx = SSL_CTX_new(method);
-    if(dill_slow(!ctx)) {err = EFAULT; goto error1;}
+    if(dill_slow(!ctx)) {err = ENOMEM; goto error1;}
     /* Create OpenSSL connection object. */
     SSL *ssl = SSL_new(ctx);
-    if(dill_slow(!ssl)) {err = EFAULT; goto error2;}
+    if(dill_slow(!ssl)) {err = ENOMEM; goto error2;}
 	  SSL_set_connect_state(ssl);
     /* Create a BIO and attach it to the connection. */
     BIO *bio = dill_tls_new_cbio(mem);
@@ -176,7 +176,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     const SSL_METHOD *method = SSLv23_server_method();
     if(dill_slow(!method)) {err = EFAULT; goto error1;}
     SSL_CTX *ctx = SSL_CTX_new(method);
-    if(dill_slow(!ctx)) {err = EFAULT; goto error1;}
+    if(dill_slow(!ctx)) {err = ENOMEM; goto error1;}
     int rc = SSL_CTX_set_ecdh_auto(ctx, 1);
     if(dill_slow(rc != 1)) {err = EFAULT; goto error2;}
     rc = SSL_CTX_use_certificate_file(ctx, cert, SSL_FILETYPE_PEM);
@@ -185,7 +185,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     if(dill_slow(rc <= 0 )) {err = EFAULT; goto error2;}
     /* Create OpenSSL connection object. */
     SSL *ssl = SSL_new(ctx);
-    if(dill_slow(!ssl)) {err = EFAULT; goto error2;}
+    if(dill_slow(!ssl)) {err = ENOMEM; goto error2;}
 	  SSL_set_accept_state(ssl);
     /* Create a BIO and attach it to the connection. */
     BIO *bio = dill_tls_new_cbio(mem);
@@ -475,7 +475,7 @@ static BIO_METHOD *dill_tls_cbio = NULL;
 
 static BIO *dill_tls_new_cbio(void *mem) {
     BIO *bio = BIO_new(dill_tls_cbio);
-    if(dill_slow(!bio)) {errno = EFAULT; return NULL;}
+    if(dill_slow(!bio)) {errno = ENOMEM; return NULL;}
     BIO_set_data(bio, mem);
     BIO_set_init(bio, 1);
     return bio;
-- 
2.43.0


From 3919a627d127d23670fbf2cf1aa4b0c8a56c755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 091/106] fix: failure to add a file descriptor to the epoll
 set crashed the program

---
 epoll.c.inc | 19 ++++++++++++++++---
 libdill.c   |  4 ++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/epoll.c.inc b/epoll.c.inc
index 73b87c1..054f04d 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -211,6 +211,7 @@ int dill_pollset_clean(int fd) {
 
 int dill_pollset_poll(int timeout) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    int failed = 0;
     /* Apply any changes to the pollset.
        TODO: Use epoll_ctl_batch once available. */
     while(ctx->changelist != DILL_ENDLIST) {
@@ -234,15 +235,27 @@ int dill_pollset_poll(int timeout) {
                  op = EPOLL_CTL_MOD;
             fdi->currevs = ev.events;
             int rc = epoll_ctl(ctx->efd, op, fd, &ev);
-            dill_assert(rc == 0);
+            if(dill_slow(rc < 0)) {
+                /* There may be not enough resources to register the file
+                   descriptor. Let the waiting coroutines know. */
+                int err = errno;
+                dill_assert(op == EPOLL_CTL_ADD &&
+                    (err == ENOMEM || err == ENOSPC));
+                fdi->currevs = 0;
+                if(fdi->in) dill_trigger(&fdi->in->cl, err);
+                if(fdi->out) dill_trigger(&fdi->out->cl, err);
+                failed = 1;
+            }
         }
         ctx->changelist = fdi->next;
         fdi->next = 0;
     }
+    /* If a coroutine was resumed above, don't block. */
+    if(dill_slow(failed)) timeout = 0;
     /* Wait for events. */
     struct epoll_event evs[DILL_EPOLLSETSIZE];
     int numevs = epoll_wait(ctx->efd, evs, DILL_EPOLLSETSIZE, timeout);
-    if(numevs < 0 && errno == EINTR) return -1;
+    if(numevs < 0 && errno == EINTR) return failed ? 1 : -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events. */
     int i;
@@ -268,5 +281,5 @@ int dill_pollset_poll(int timeout) {
         }
     }
     /* Return 0 on timeout or 1 if at least one coroutine was resumed. */
-    return numevs > 0 ? 1 : 0;
+    return numevs > 0 || failed ? 1 : 0;
 }
diff --git a/libdill.c b/libdill.c
index 3760535..092268c 100644
--- a/libdill.c
+++ b/libdill.c
@@ -56,6 +56,8 @@ int dill_fdin(int fd, int64_t deadline) {
     int id = dill_wait();
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 2)) {errno = ETIMEDOUT; return -1;}
+    /* The file descriptor couldn't be added to the pollset. */
+    if(dill_slow(errno != 0)) return -1;
     return 0;
 }
 
@@ -74,6 +76,8 @@ int dill_fdout(int fd, int64_t deadline) {
     int id = dill_wait();
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 2)) {errno = ETIMEDOUT; return -1;}
+    /* The file descriptor couldn't be added to the pollset. */
+    if(dill_slow(errno != 0)) return -1;
     return 0;
 }
 
-- 
2.43.0


From 098ef03c2207c7913d49e4735b81fb7a9b733ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 092/106] fix: bundle_mem didn't set errno when no memory was
 supplied

---
 cr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index 006d8a9..8584dd5 100644
--- a/cr.c
+++ b/cr.c
@@ -99,8 +99,7 @@ static void dill_bundle_cancel(struct dill_clause *cl) {
 }
 
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
-    int err;
-    if(dill_slow(!mem)) {err = EINVAL; return -1;}
+    if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
-- 
2.43.0


From 7ce870de7eb1bc4341ecba67a9666302b81e8a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 093/106] fix: ipc: failed ipc_listen left the socket file
 behind

---
 ipc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipc.c b/ipc.c
index 3e1ac11..b9dd7be 100644
--- a/ipc.c
+++ b/ipc.c
@@ -447,6 +447,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
@@ -461,10 +462,13 @@ int dill_ipc_listen_mem(const char *addr, int backlog,
     rc = bind(s, (struct sockaddr*)&su, sizeof(su));
     if(dill_slow(rc < 0)) {err = errno; goto error2;}
     rc = listen(s, backlog);
-    if(dill_slow(rc < 0)) {err = errno; goto error2;}
+    if(dill_slow(rc < 0)) {err = errno; goto error3;}
     int h = dill_ipc_makelistener(s, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error2;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
+error3:
+    /* The file was created by bind() above. */
+    unlink(addr);
 error2:
     close(s);
 error1:
-- 
2.43.0


From 57b871f1473b8257b4e6dcc61da60a23dea27fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 094/106] fix: ipc: memory was leaked if ipc_pair failed to
 create the second handle

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index b9dd7be..6df39a3 100644
--- a/ipc.c
+++ b/ipc.c
@@ -596,6 +596,7 @@ int dill_ipc_pair(int s[2]) {
     conn1->mem = 0;
     return 0;
 error6:
+    free(conn1);
     rc = dill_hclose(s[0]);
     goto error2;
 error5:
-- 
2.43.0


From 18543a1a16d973eb8d3d0104a3c1618c984b4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 095/106] fix: tls: threads using TLS for the first time at
 once corrupted its global state

If two threads attached their first TLS sockets at the same time each of them
created and published a BIO method. One could then be using a method that was
not filled in yet, and at exit the last one was freed twice.
---
 tls.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index 2746d7d..66b7a61 100644
--- a/tls.c
+++ b/tls.c
@@ -531,27 +531,33 @@ static void dill_tls_term(void) {
 }
 
 static void dill_tls_init(void) {
-    static int init = 0;
-    if(dill_slow(!init)) {
+    if(dill_slow(!__atomic_load_n(&dill_tls_cbio, __ATOMIC_ACQUIRE))) {
         SSL_library_init();
         SSL_load_error_strings();
         /* Create our own custom BIO type. */
         int idx = BIO_get_new_index();
-        dill_tls_cbio = BIO_meth_new(idx, "bsock");
-        dill_assert(dill_tls_cbio);
-        int rc = BIO_meth_set_create(dill_tls_cbio, dill_tls_cbio_create);
+        BIO_METHOD *cbio = BIO_meth_new(idx, "bsock");
+        dill_assert(cbio);
+        int rc = BIO_meth_set_create(cbio, dill_tls_cbio_create);
         dill_assert(rc == 1);
-        rc = BIO_meth_set_destroy(dill_tls_cbio, dill_tls_cbio_destroy);
+        rc = BIO_meth_set_destroy(cbio, dill_tls_cbio_destroy);
         dill_assert(rc == 1);
-        rc = BIO_meth_set_write(dill_tls_cbio, dill_tls_cbio_write);
+        rc = BIO_meth_set_write(cbio, dill_tls_cbio_write);
         dill_assert(rc == 1);
-        rc = BIO_meth_set_read(dill_tls_cbio, dill_tls_cbio_read);
+        rc = BIO_meth_set_read(cbio, dill_tls_cbio_read);
         dill_assert(rc == 1);
-        rc = BIO_meth_set_ctrl(dill_tls_cbio, dill_tls_cbio_ctrl);
+        rc = BIO_meth_set_ctrl(cbio, dill_tls_cbio_ctrl);
         dill_assert(rc == 1);
+        /* Other threads may be doing the same thing. The first one to finish
+           wins. */
+        BIO_METHOD *expected = NULL;
+        if(!__atomic_compare_exchange_n(&dill_tls_cbio, &expected, cbio, 0,
+              __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
+            BIO_meth_free(cbio);
+            return;
+        }
         /* Deallocate the method once the process exits. */
         rc = atexit(dill_tls_term);
         dill_assert(rc == 0);
-        init = 1;
     }
 }
-- 
2.43.0


From 307e9999f61ca530b896ef127364391efe3de246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 096/106] fix: file descriptor leaked when threads used random
 numbers for the first time at once

Each of the threads opened /dev/urandom but only the last file descriptor was
remembered.
---
 utils.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 18ca84d..14d8361 100644
--- a/utils.c
+++ b/utils.c
@@ -110,10 +110,18 @@ const char *dill_rstrip(const char *string, char delim) {
 }
 
 int dill_random(uint8_t *buf, size_t len) {
-    static int fd = -1;
+    static int cached = -1;
+    int fd = __atomic_load_n(&cached, __ATOMIC_ACQUIRE);
     if(dill_slow(fd < 0)) {
         fd = open("/dev/urandom", O_RDONLY);
         if(dill_slow(fd < 0)) return -1;
+        /* If a different thread was faster, use its file descriptor. */
+        int expected = -1;
+        if(dill_slow(!__atomic_compare_exchange_n(&cached, &expected, fd, 0,
+              __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))) {
+            close(fd);
+            fd = expected;
+        }
     }
     ssize_t sz = read(fd, buf, len);
     if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From 51b273d2d4b4825bd81cdf781461fa20eef80141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 097/106] fix: kqueue: fdout reported a descriptor as writable
 when only its input ended

EV_EOF is reported separately for each filter: on EVFILT_READ it means that
the peer will send no more data, which says nothing about writability. An
event with EV_EOF therefore signals only the direction of its filter.
---
 kqueue.c.inc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/kqueue.c.inc b/kqueue.c.inc
index a59d4a5..11cf5cc 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -278,14 +278,10 @@ int dill_pollset_poll(int timeout) {
         int fd = (int)evs[i].ident;
         struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
         /* Add firing event to the result list. */
-        if(evs[i].flags == EV_EOF)
-            fdi->firing |= (FDW_IN | FDW_OUT);
-        else {
-            if(evs[i].filter == EVFILT_READ)
-                fdi->firing |= FDW_IN;
-            if(evs[i].filter == EVFILT_WRITE)
-                fdi->firing |= FDW_OUT;
-        }
+        if(evs[i].filter == EVFILT_READ)
+            fdi->firing |= FDW_IN;
+        if(evs[i].filter == EVFILT_WRITE)
+            fdi->firing |= FDW_OUT;
         if(!fdi->next) {
             fdi->next = ctx->changelist;
             ctx->changelist = fd + 1;
-- 
2.43.0


From 0bafe3e0050e8ba30f0448a24450840b886271fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 098/106] fix: kqueue: failure to add a file descriptor to the
 kqueue crashed the program

kevent() can fail with ENOMEM, or with EINVAL or ENODEV for descriptors that
cannot be polled. Report the error to the caller of fdin or fdout instead of
aborting, as the epoll implementation does.
---
 kqueue.c.inc | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/kqueue.c.inc b/kqueue.c.inc
index 11cf5cc..6fc3c06 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -118,8 +118,10 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         struct kevent ev;
         EV_SET(&ev, fd, EVFILT_READ, EV_ADD, 0, 0, 0);
         int rc = kevent(ctx->kfd, &ev, 1, NULL, 0, NULL);
-        if(dill_slow(rc < 0 && errno == EBADF)) return -1;
-        dill_assert(rc >= 0);
+        if(dill_slow(rc < 0)) {
+            if(errno == EINVAL || errno == ENODEV) {errno = ENOTSUP; return -1;}
+            return -1;
+        }
         fdi->in = NULL;
         fdi->out = NULL;
         fdi->currevs = FDW_IN;
@@ -149,8 +151,10 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         struct kevent ev;
         EV_SET(&ev, fd, EVFILT_WRITE, EV_ADD, 0, 0, 0);
         int rc = kevent(ctx->kfd, &ev, 1, NULL, 0, NULL);
-        if(dill_slow(rc < 0 && errno == EBADF)) return -1;
-        dill_assert(rc >= 0);
+        if(dill_slow(rc < 0)) {
+            if(errno == EINVAL || errno == ENODEV) {errno = ENOTSUP; return -1;}
+            return -1;
+        }
         fdi->in = NULL;
         fdi->out = NULL;
         fdi->currevs = FDW_OUT;
@@ -210,8 +214,23 @@ int dill_pollset_clean(int fd) {
     return 0;
 }
 
+/* There may be not enough resources to add a file descriptor to the pollset.
+   Let the coroutine waiting for it know. */
+static void dill_pollset_failed(struct kevent *ev) {
+    struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    struct dill_fdinfo *fdi = &ctx->fdinfos[ev->ident];
+    int in = ev->filter == EVFILT_READ;
+    struct dill_fdclause *fdcl = in ? fdi->in : fdi->out;
+    dill_assert(fdcl && ev->data == ENOMEM);
+    fdi->currevs &= ~(in ? FDW_IN : FDW_OUT);
+    dill_trigger(&fdcl->cl, (int)ev->data);
+}
+
 int dill_pollset_poll(int timeout) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    int failed = 0;
+    int i;
+    struct timespec ts;
     /* Apply any changes to the pollset. */
     struct kevent chngs[DILL_CHNGSSIZE];
     int nchngs = 0;
@@ -221,8 +240,16 @@ int dill_pollset_poll(int timeout) {
            associated with the next file descriptor can be filled in if we
            choose not to flush the changes yet. */
         if(nchngs >= DILL_CHNGSSIZE - 1) {
-            int rc = kevent(ctx->kfd, chngs, nchngs, NULL, 0, NULL);
+            struct kevent errs[DILL_CHNGSSIZE];
+            ts.tv_sec = 0;
+            ts.tv_nsec = 0;
+            int rc = kevent(ctx->kfd, chngs, nchngs, errs, DILL_CHNGSSIZE, &ts);
             dill_assert(rc != -1);
+            for(i = 0; i != rc; ++i) {
+                if(!(errs[i].flags & EV_ERROR)) continue;
+                dill_pollset_failed(&errs[i]);
+                failed = 1;
+            }
             nchngs = 0;
         }
         int fd = ctx->changelist - 1;
@@ -259,22 +286,25 @@ int dill_pollset_poll(int timeout) {
         ctx->changelist = fdi->next;
         fdi->next = 0;
     }
+    /* If a coroutine was resumed above, don't block. */
+    if(dill_slow(failed)) timeout = 0;
     /* Wait for events. */
     struct kevent evs[DILL_EVSSIZE];
-    struct timespec ts;
     if(timeout >= 0) {
         ts.tv_sec = timeout / 1000;
         ts.tv_nsec = (((long)timeout) % 1000) * 1000000;
     }
     int nevs = kevent(ctx->kfd, chngs, nchngs, evs, DILL_EVSSIZE,
         timeout < 0 ? NULL : &ts);
-    if(nevs < 0 && errno == EINTR) return -1;
+    if(nevs < 0 && errno == EINTR) return failed ? 1 : -1;
     dill_assert(nevs >= 0);
     /* Join events on file descriptor basis.
        Put all the firing fds into the changelist. */
-    int i;
     for(i = 0; i != nevs; ++i) {
-        dill_assert(evs[i].flags != EV_ERROR);
+        if(dill_slow(evs[i].flags & EV_ERROR)) {
+            dill_pollset_failed(&evs[i]);
+            continue;
+        }
         int fd = (int)evs[i].ident;
         struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
         /* Add firing event to the result list. */
@@ -300,6 +330,6 @@ int dill_pollset_poll(int timeout) {
         chl = fdi->next;
     }    
     /* Return 0 on timeout or 1 if at least one coroutine was resumed. */
-    return nevs > 0 ? 1 : 0;
+    return nevs > 0 || failed ? 1 : 0;
 }
 
-- 
2.43.0


From 7bbb73cef7292abd8e4271a07946596bc203e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:51 +0000
Subject: [PATCH 099/106] fix: happyeyeballs_connect: report that there's no
 room for more watches too

---
 happyeyeballs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index b0da8a7..9c7a3d1 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -58,7 +58,8 @@ static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
     int conn = dill_tcp_connect(&addr, -1);
     if(dill_slow(conn < 0)) {
         /* Lack of resources is reported to the caller. */
-        if(errno != EMFILE && errno != ENFILE && errno != ENOMEM) return;
+        if(errno != EMFILE && errno != ENFILE && errno != ENOMEM &&
+              errno != ENOSPC) return;
         conn = -errno;
     }
     int rc = dill_chsend(ch, &conn, sizeof(int), -1);
-- 
2.43.0


From 6ac1b68fe3ff4f511216d0ec30ffc76da696c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:50 +0000
Subject: [PATCH 100/106] fix: ipaddr_local: refuse an invalid port or mode

---
 ipaddr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipaddr.c b/ipaddr.c
index 2d6ac1a..5b1c589 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -219,7 +219,19 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
+    if(dill_slow(!addr || port < 0 || port > 0xffff)) {
+        errno = EINVAL; return -1;}
     if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    switch(mode) {
+    case DILL_IPADDR_IPV4:
+    case DILL_IPADDR_IPV6:
+    case DILL_IPADDR_PREF_IPV4:
+    case DILL_IPADDR_PREF_IPV6:
+        break;
+    default:
+        errno = EINVAL;
+        return -1;
+    }
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
-- 
2.43.0


From 936ff89b57ebcc527c7c63c7b2076d75af9dc92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:33 +0000
Subject: [PATCH 101/106] fix: dns: sources after a negated criterion in
 nsswitch.conf were ignored

---
 dns/dns.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index e6196b1..e6c799e 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -4616,6 +4616,8 @@ int dns_nssconf_loadfile(struct dns_resolv_conf *resconf, FILE *fp) {
 					dns_anyconf_skip(" \t", fp);
 				}
 
+				/* Ignore what can't be expressed, e.g. [!UNAVAIL=return]. */
+				dns_anyconf_skip("^#;]\n", fp);
 				dns_anyconf_skip("] \t", fp);
 			}
 
-- 
2.43.0


From eeb0ee8965eb31bb340ddf5ca5394f19e2f4ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 102/106] fix: dns: a name too long for the hosts file was read
 beyond its buffer

---
 dns/dns.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index e6c799e..23e049c 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -3708,6 +3708,12 @@ int dns_hosts_loadfile(struct dns_hosts *hosts, FILE *fp) {
 
 			wc++;
 
+			/* too long to be an address or a host name */
+			if (wp >= sizeof word) {
+				skip	|= (wc == 1);
+				continue;
+			}
+
 			switch (wc) {
 			case 0:
 				break;
-- 
2.43.0


From 0ad8445791297f25308cf178c4a6068081b9aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:53 +0000
Subject: [PATCH 103/106] fix: dns: an alias whose target starts with a zero
 byte crashed the lookup

---
 dns/dns.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 23e049c..8b02ee3 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1912,6 +1912,9 @@ size_t dns_d_cname(void *dst, size_t lim, const void *dn, size_t len, struct dns
 	unsigned depth;
 	int error;
 
+	if (len == 0)
+		{ error = DNS_EILLEGAL; goto error; }
+
 	if (sizeof host <= dns_d_anchor(host, sizeof host, dn, len))
 		{ error = ENAMETOOLONG; goto error; }
 
@@ -1927,6 +1930,10 @@ size_t dns_d_cname(void *dst, size_t lim, const void *dn, size_t len, struct dns
 
 		if ((error = dns_cname_parse((struct dns_cname *)host, &rr, P)))
 			goto error;
+
+		/* a label starting with a zero byte */
+		if (!*host)
+			{ error = DNS_EILLEGAL; goto error; }
 	}
 
 	return dns_strlcpy(dst, host, lim);
-- 
2.43.0


From eed7c84caaeddb0dd7f8ccb169f722fe26f6a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:57 +0000
Subject: [PATCH 104/106] fix: cr: the records of --enable-census were not
 released when their thread ended

---
 cr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cr.c b/cr.c
index 8584dd5..43ef5cb 100644
--- a/cr.c
+++ b/cr.c
@@ -210,13 +210,13 @@ int dill_ctx_cr_init(struct dill_ctx_cr *ctx) {
 
 void dill_ctx_cr_term(struct dill_ctx_cr *ctx) {
 #if defined DILL_CENSUS
-    struct dill_slist *it;
-    for(it = dill_slist_next(&ctx->census); it != &ctx->census;
-          it = dill_slist_next(it)) {
+    while(!dill_slist_empty(&ctx->census)) {
+        struct dill_slist *it = dill_slist_pop(&ctx->census);
         struct dill_census_item *ci =
             dill_cont(it, struct dill_census_item, crs);
         fprintf(stderr, "%s:%d - maximum stack size %zu B\n",
             ci->file, ci->line, ci->max_stack);
+        free(ci);
     }
 #endif
 }
-- 
2.43.0


From e32889bccd49d0e8682651d5a8a5ee170d3e6bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 105/106] fix: fd: ETIMEDOUT was reported before the deadline
 when the peer did not respond

---
 fd.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/fd.c b/fd.c
index 24125b9..52061a8 100644
--- a/fd.c
+++ b/fd.c
@@ -121,7 +121,11 @@ int dill_fd_connect(int s, const struct sockaddr *addr, socklen_t addrlen,
     /* Initiate connect. */
     int rc = connect(s, addr, addrlen);
     if(rc == 0) return 0;
-    if(dill_slow(errno != EINPROGRESS)) return -1;
+    if(dill_slow(errno != EINPROGRESS)) {
+        /* The network stack gave up. The deadline wasn't reached. */
+        if(errno == ETIMEDOUT) errno = EHOSTUNREACH;
+        return -1;
+    }
     /* Connect is in progress. Let's wait till it's done. */
     rc = dill_fdout(s, deadline);
     if(dill_slow(rc == -1)) return -1;
@@ -130,6 +134,8 @@ int dill_fd_connect(int s, const struct sockaddr *addr, socklen_t addrlen,
     socklen_t errsz = sizeof(err);
     rc = getsockopt(s, SOL_SOCKET, SO_ERROR, (void*)&err, &errsz);
     if(dill_slow(rc != 0)) return -1;
+    /* If the network stack gave up the deadline wasn't reached. */
+    if(dill_slow(err == ETIMEDOUT)) err = EHOSTUNREACH;
     if(dill_slow(err != 0)) {errno = err; return -1;}
     return 0;
 }
@@ -183,7 +189,9 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
         dill_assert(sz != 0);
         if(sz < 0) {
             if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) {
-                if(errno == EPIPE) errno = ECONNRESET;
+                /* ETIMEDOUT from the network stack must not be confused with
+                   the deadline being reached. */
+                if(errno == EPIPE || errno == ETIMEDOUT) errno = ECONNRESET;
                 return -1;
             }
             sz = 0;
@@ -229,7 +237,9 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
         if(dill_slow(sz == 0)) {errno = EPIPE; return -1;}
         if(sz < 0) {
             if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) {
-                if(errno == EPIPE) errno = ECONNRESET;
+                /* ETIMEDOUT from the network stack must not be confused with
+                   the deadline being reached. */
+                if(errno == EPIPE || errno == ETIMEDOUT) errno = ECONNRESET;
                 return -1;
             }
             sz = 0;
@@ -372,7 +382,9 @@ next:
         if(dill_slow(sz == 0)) {errno = EPIPE; return -1;}
         if(sz < 0) {
             if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) {
-                if(errno == EPIPE) errno = ECONNRESET;
+                /* ETIMEDOUT from the network stack must not be confused with
+                   the deadline being reached. */
+                if(errno == EPIPE || errno == ETIMEDOUT) errno = ECONNRESET;
                 return -1;
             }
             sz = 0;
-- 
2.43.0


From 928db10a543964cd41d4717329da956af6f6d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:48 +0000
Subject: [PATCH 106/106] fix: fd, udp: a long list of buffers overflowed the
 stack

---
 fd.c  | 73 ++++++++++++++++++++++++++++++++++++++---------------------
 fd.h  |  8 +++++++
 udp.c |  8 +++----
 3 files changed, 59 insertions(+), 30 deletions(-)

diff --git a/fd.c b/fd.c
index 52061a8..d4b288e 100644
--- a/fd.c
+++ b/fd.c
@@ -23,7 +23,6 @@
 */
 
 #include <fcntl.h>
-#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -35,12 +34,6 @@
 
 #define DILL_FD_CACHESIZE 32
 #define DILL_FD_BUFSIZE 1984
-/* Maximum number of buffers that can be passed to a single system call. */
-#if defined IOV_MAX
-#define DILL_FD_MAXIOV IOV_MAX
-#else
-#define DILL_FD_MAXIOV 1024
-#endif
 
 #if defined MSG_NOSIGNAL
 #define FD_NOSIGNAL MSG_NOSIGNAL
@@ -161,16 +154,8 @@ int dill_fd_accept(int s, struct sockaddr *addr, socklen_t *addrlen,
     return as;
 }
 
-int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
+static int dill_fd_sendiov(int s, struct iovec *iov, size_t niov,
       int64_t deadline) {
-    /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
-    size_t niov;
-    int rc = dill_iolcheck(first, last, &niov, NULL);
-    if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
-    dill_ioltoiov(first, iov);
     /* Message header will act as an iterator in the following loop. */
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
@@ -184,7 +169,7 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
             niov--;
         }
         if(!niov) return 0;
-        hdr.msg_iovlen = niov < DILL_FD_MAXIOV ? niov : DILL_FD_MAXIOV;
+        hdr.msg_iovlen = niov;
         ssize_t sz = sendmsg(s, &hdr, FD_NOSIGNAL);
         dill_assert(sz != 0);
         if(sz < 0) {
@@ -216,23 +201,36 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
     }
 }
 
-/* Same as dill_fd_recv() but with no rx buffering. */
-static int dill_fd_recv_(int s, struct dill_iolist *first,
-      struct dill_iolist *last, int64_t deadline) {
-    /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
+int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
+      int64_t deadline) {
     size_t niov;
     int rc = dill_iolcheck(first, last, &niov, NULL);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
-    dill_ioltoiov(first, iov);
+    /* The iovec array lives on the stack. Process long lists in batches
+       so that the array is never too big. */
+    struct iovec iov[niov < DILL_FD_MAXIOV ? niov : DILL_FD_MAXIOV];
+    while(niov) {
+        size_t n;
+        for(n = 0; n != niov && n != DILL_FD_MAXIOV; ++n) {
+            iov[n].iov_base = first->iol_base;
+            iov[n].iov_len = first->iol_len;
+            first = first->iol_next;
+        }
+        rc = dill_fd_sendiov(s, iov, n, deadline);
+        if(dill_slow(rc < 0)) return -1;
+        niov -= n;
+    }
+    return 0;
+}
+
+static int dill_fd_recviov(int s, struct iovec *iov, size_t niov,
+      int64_t deadline) {
     /* Message header will act as an iterator in the following loop. */
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
     hdr.msg_iov = iov;
     while(1) {
-        hdr.msg_iovlen = niov < DILL_FD_MAXIOV ? niov : DILL_FD_MAXIOV;
+        hdr.msg_iovlen = niov;
         ssize_t sz = recvmsg(s, &hdr, 0);
         if(dill_slow(sz == 0)) {errno = EPIPE; return -1;}
         if(sz < 0) {
@@ -264,6 +262,29 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
     }
 }
 
+/* Same as dill_fd_recv() but with no rx buffering. */
+static int dill_fd_recv_(int s, struct dill_iolist *first,
+      struct dill_iolist *last, int64_t deadline) {
+    size_t niov;
+    int rc = dill_iolcheck(first, last, &niov, NULL);
+    if(dill_slow(rc < 0)) return -1;
+    /* The iovec array lives on the stack. Process long lists in batches
+       so that the array is never too big. */
+    struct iovec iov[niov < DILL_FD_MAXIOV ? niov : DILL_FD_MAXIOV];
+    while(niov) {
+        size_t n;
+        for(n = 0; n != niov && n != DILL_FD_MAXIOV; ++n) {
+            iov[n].iov_base = first->iol_base;
+            iov[n].iov_len = first->iol_len;
+            first = first->iol_next;
+        }
+        rc = dill_fd_recviov(s, iov, n, deadline);
+        if(dill_slow(rc < 0)) return -1;
+        niov -= n;
+    }
+    return 0;
+}
+
 /* Skip len bytes. If len is negative skip until error occurs. */
 static int dill_fd_skip(int s, ssize_t len, int64_t deadline) {
     uint8_t buf[512];
diff --git a/fd.h b/fd.h
index 9af8aad..8423dfa 100644
--- a/fd.h
+++ b/fd.h
@@ -25,6 +25,7 @@
 #ifndef DILL_FD_INCLUDED
 #define DILL_FD_INCLUDED
 
+#include <limits.h>
 #include <stdint.h>
 #include <sys/socket.h>
 #include <sys/types.h>
@@ -33,6 +34,13 @@
 #include "libdill.h"
 #include "slist.h"
 
+/* Maximum number of buffers that can be passed to a single system call. */
+#if defined IOV_MAX
+#define DILL_FD_MAXIOV IOV_MAX
+#else
+#define DILL_FD_MAXIOV 1024
+#endif
+
 struct dill_ctx_fd {
     int count;
     struct dill_slist cache;
diff --git a/udp.c b/udp.c
index 081e026..0c42fa8 100644
--- a/udp.c
+++ b/udp.c
@@ -145,11 +145,11 @@ static int dill_udp_sendl_(struct dill_msock_vfs *mvfs,
     hdr.msg_name = (void*)dill_ipaddr_sockaddr(dstaddr);
     hdr.msg_namelen = dill_ipaddr_len(dstaddr);
     /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
     size_t niov;
     int rc = dill_iolcheck(first, last, &niov, NULL);
     if(dill_slow(rc < 0)) return -1;
+    /* A packet can't be split. The limit also protects the stack. */
+    if(dill_slow(niov > DILL_FD_MAXIOV)) {errno = EMSGSIZE; return -1;}
     struct iovec iov[niov];
     dill_ioltoiov(first, iov);
     hdr.msg_iov = (struct iovec*)iov;
@@ -171,11 +171,11 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     hdr.msg_name = (void*)&raddr;
     hdr.msg_namelen = sizeof(struct dill_ipaddr);
     /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
     size_t niov;
     int rc = dill_iolcheck(first, last, &niov, NULL);
     if(dill_slow(rc < 0)) return -1;
+    /* A packet can't be split. The limit also protects the stack. */
+    if(dill_slow(niov > DILL_FD_MAXIOV)) {errno = EMSGSIZE; return -1;}
     struct iovec iov[niov];
     dill_ioltoiov(first, iov);
     /* Bytes to be skipped have to be received to somewhere. Given that
-- 
2.43.0

