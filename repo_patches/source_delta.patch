From 8a4eaabfe75bd26982e0cd4cf4d5f8d9c9b952b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 01/36] fix: integer and IPv4 address comparisons wrapped
 around for distant values

---
 include/ksocket.h | 12 ++++++++++--
 src/krbtree.c     |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 434bdd2..435c1fc 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -151,7 +151,12 @@ INLINE int ksocket_addr_compare(const sockaddr_i *a, const sockaddr_i *b)
 	}
 	if (a->v4.sin_family == PF_INET)
 #endif
-	return (int)a->v4.sin_addr.s_addr - (int)b->v4.sin_addr.s_addr;
+	{
+		if (a->v4.sin_addr.s_addr == b->v4.sin_addr.s_addr) {
+			return 0;
+		}
+		return a->v4.sin_addr.s_addr < b->v4.sin_addr.s_addr ? -1 : 1;
+	}
 #ifdef KSOCKET_IPV6
 	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));
 #endif
@@ -191,7 +196,10 @@ INLINE int ksocket_ipaddr_compare(ip_addr *a, ip_addr *b)
 		return ret;
 	}
 	if (a->sin_family == PF_INET) {
-		return (int)a->addr32[0] - (int)b->addr32[0];
+		if (a->addr32[0] == b->addr32[0]) {
+			return 0;
+		}
+		return a->addr32[0] < b->addr32[0] ? -1 : 1;
 	}
 	return memcmp(a->addr8, b->addr8, sizeof(a->addr8));
 #else
diff --git a/src/krbtree.c b/src/krbtree.c
index cb7c9ea..079d7e3 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -33,7 +33,10 @@ int rbtree_int_cmp(const void *key1, const void *key2)
 {
 	int *k1 = (int *)key1;
 	int *k2 = (int *)key2;
-	return *k1 - *k2;
+	if (*k1 == *k2) {
+		return 0;
+	}
+	return *k1 < *k2 ? -1 : 1;
 }
 static inline void rb_set_parent(struct krb_node *rb, struct krb_node *p)
 {
-- 
2.43.0


From 6e8442a16a05afe0b640900ae3c09d05b32caeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 02/36] fix: krw_buffer lost its read position on krw_insert
 and stalled on an empty head chunk

---
 src/kbuf.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/kbuf.c b/src/kbuf.c
index c839c5b..400b841 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -36,7 +36,17 @@ void krw_insert(krw_buffer* rw_buffer, kbuf* buf) {
 		krw_append(rw_buffer, buf);
 		return;
 	}
-	buf->next = rw_buffer->head;
+	kbuf* head = rw_buffer->head;
+	int consumed = (int)(rw_buffer->read_hot - head->data);
+	if (consumed > 0) {
+		/* head is partly read, the read position is going to move to the new head. */
+		head->used -= consumed;
+		memmove(head->data, rw_buffer->read_hot, head->used);
+		if (head == rw_buffer->write_hot_buf && rw_buffer->write_hot) {
+			rw_buffer->write_hot = head->data + head->used;
+		}
+	}
+	buf->next = head;
 	rw_buffer->head = buf;
 	rw_buffer->total_len += buf->used;
 	rw_buffer->read_hot = rw_buffer->head->data;
@@ -76,6 +86,14 @@ int krw_get_read_buffers(krw_buffer* rw_buffer, LPWSABUF buffer, int buffer_coun
 		return 0;
 	}
 	kassert(rw_buffer->head);
+	/* skip empty head chunk, the data is in the next chunks. */
+	while (rw_buffer->head->next && rw_buffer->read_hot - rw_buffer->head->data == rw_buffer->head->used) {
+		kbuf* next = rw_buffer->head->next;
+		xfree(rw_buffer->head->data);
+		xfree(rw_buffer->head);
+		rw_buffer->head = next;
+		rw_buffer->read_hot = next->data;
+	}
 	kbuf* tmp = rw_buffer->head;
 	buffer[0].iov_base = rw_buffer->read_hot;
 	buffer[0].iov_len = (int)(rw_buffer->head->used - (rw_buffer->read_hot - rw_buffer->head->data));
@@ -120,7 +138,7 @@ bool krw_read_success(krw_buffer* rw_buffer, int got) {
 			rw_buffer->read_hot = rw_buffer->head->data;
 		}
 	}
-	return true;
+	return rw_buffer->total_len > 0;
 }
 char* krw_get_write_buffer(krw_buffer* rw_buffer, int* len) {
 	if (rw_buffer->write_hot_buf == NULL) {
-- 
2.43.0


From 8efbf979172aab828fb2966ef6a1938670260eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 03/36] fix: kgl_palloc handed out memory behind the block when
 its end is not word aligned

---
 src/kmalloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index beb0b3e..4e23d8f 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -54,7 +54,8 @@ static INLINE void* kgl_palloc_small(kgl_pool_t* pool, size_t size, size_t align
 			m = (char*)kgl_align_ptr(m, KGL_ALIGNMENT);
 		}
 
-		if ((size_t)(p->d.end - m) >= size) {
+		/* the aligned position may be behind the end of the block */
+		if (m <= p->d.end && (size_t)(p->d.end - m) >= size) {
 			p->d.last = m + size;
 
 			return m;
-- 
2.43.0


From 8d278cc7060e64b64ede22d85dcfd2cf5a9dc1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 04/36] fix: kgl_array_push on an array created with capacity 0
 returned storage it did not own

---
 src/kmalloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index 4e23d8f..a079991 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -287,14 +287,16 @@ void* kgl_array_push(kgl_array_t* a) {
 		} else {
 			/* allocate a new array */
 
-			new_elt = kgl_palloc(p, 2 * size);
+			size_t nalloc = a->nalloc > 0 ? 2 * a->nalloc : 1;
+
+			new_elt = kgl_palloc(p, nalloc * a->size);
 			if (new_elt == NULL) {
 				return NULL;
 			}
 
 			kgl_memcpy(new_elt, a->elts, size);
 			a->elts = new_elt;
-			a->nalloc *= 2;
+			a->nalloc = nalloc;
 		}
 	}
 
-- 
2.43.0


From 161a47f1778b0340dfb31db732e845a552876b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 05/36] fix: kselector_check_timeout used a tick freed by
 another tick's callback

---
 src/kselector.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/kselector.c b/src/kselector.c
index e48d8d4..0d37c6f 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -150,7 +150,8 @@ void kselector_update_time()
 }
 int kselector_check_timeout(kselector *selector,int event_number)
 {
-	kgl_list* tick_list,*tick_next_list;
+	kgl_list ticks;
+	kgl_list* tick_list;
 	kselector_tick* tick;
 	struct krb_node *block = NULL;
 	struct krb_node *last = NULL;
@@ -266,16 +267,22 @@ int kselector_check_timeout(kselector *selector,int event_number)
 			kselector_add_list(selector, (kselectable*)ready_ev, KGL_LIST_RW);
 		}
 	}
-	tick_list = klist_head(&selector->tick);
-
-	while (tick_list != &selector->tick) {
+	/* a tick callback may close any tick, so the next one is never remembered across a call */
+	klist_init(&ticks);
+	while (!klist_empty(&selector->tick)) {
+		tick_list = klist_head(&selector->tick);
+		klist_remove(tick_list);
+		klist_append(&ticks, tick_list);
+	}
+	while (!klist_empty(&ticks)) {
+		tick_list = klist_head(&ticks);
+		klist_remove(tick_list);
+		klist_append(&selector->tick, tick_list);
 		tick = kgl_list_data(tick_list, kselector_tick, queue);
-		tick_next_list = tick_list->next;
 		int next_event_time = tick->cb(tick->arg, event_number);
 		if (next_event_time > 0 && next_event_time < min_event_time) {
 			min_event_time = next_event_time;
 		}
-		tick_list = tick_next_list;
 	}
 	return min_event_time;
 }
-- 
2.43.0


From 849bc60ff4d28964816f909429aafffb6fbcc06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 06/36] fix: kfiber_mutex_lock2 did not count the lock it takes
 and could not be called on a loop

---
 src/kfiber_sync.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..88ba40a 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -10,8 +10,9 @@
 //mutext
 kev_result kfiber_mutex_lock2(kfiber_mutex* mutex, KOPAQUE data, result_callback notice, void* arg)
 {
-	kassert(kfiber_self2() == NULL);
+	kassert(kfiber_is_main());
 	kmutex_lock(&mutex->lock);
+	mutex->count++;
 	if (mutex->worker < mutex->limit) {
 		mutex->worker++;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From 1df6154ee241183f887bc279021be3a95ed116e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 07/36] fix: kfiber_rwlock_wunlock woke readers while holding
 its lock

---
 include/kfiber_sync.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..1d69a7d 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -193,15 +193,14 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	assert(mutex->cnt == -1);
 	mutex->cnt = 0;
 	if (mutex->reader) {
-		kfiber_waiter* waiter = mutex->reader;
+		kfiber_waiter* reader = mutex->reader;
 		mutex->reader = NULL;
-		while (waiter) {
+		for (kfiber_waiter* waiter = reader; waiter; waiter = waiter->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
+		/* a waked up reader runs at once, it must find the lock free. */
 		kmutex_unlock(&mutex->lock);
+		kfiber_wakeup_all_waiter(reader, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From ecdcd715a77f9b293f9b5e05f3268654301d5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 08/36] fix: kcond waits let spurious and stolen wakeups
 through and consumed manual events

---
 include/ksync.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..d903c89 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -22,6 +22,8 @@ typedef void kcond;
 typedef struct {
 	bool ev;
 	bool auto_reset;
+	uint32_t wait_ticket;//next waiter's ticket
+	uint32_t wake_ticket;//waiters with a ticket before this are released
 	kmutex  mutex;
 	pthread_cond_t cond;
 } kcond;
@@ -56,13 +58,15 @@ INLINE void kcond_wait(kcond *cond)
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return;
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
-	if (cond->auto_reset) {
-		cond->ev = false;
+	uint32_t ticket = cond->wait_ticket++;
+	while ((int32_t)(cond->wake_ticket - ticket) <= 0) {
+		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
 	kmutex_unlock(&cond->mutex);
 #endif
@@ -73,7 +77,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
@@ -94,12 +100,15 @@ INLINE void kcond_notice(kcond *cond)
 	SetEvent(cond);
 #else
 	kmutex_lock(&cond->mutex);
-	cond->ev = true;
-	if (cond->auto_reset) {
-		pthread_cond_signal(&cond->cond);
+	if (!cond->auto_reset) {
+		cond->ev = true;
+		cond->wake_ticket = cond->wait_ticket;
+	} else if (cond->wake_ticket != cond->wait_ticket) {
+		cond->wake_ticket++;
 	} else {
-		pthread_cond_broadcast(&cond->cond);
+		cond->ev = true;
 	}
+	pthread_cond_broadcast(&cond->cond);
 	kmutex_unlock(&cond->mutex);
 #endif
 }
-- 
2.43.0


From c0d20f72de5e48591d582aae93ea4e2f44d28976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 09/36] fix: kasync_worker_add moved its own pointer when a
 thread could not be started

---
 src/kasync_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..1e0dd8b 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -109,7 +109,7 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 	worker->worker++;
 	kasync_worker_refs(worker);
 	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
+		worker->worker--;
 		kasync_worker_release(worker);
 	}
 	return;
-- 
2.43.0


From 2a4938aa96fce16985bbbec735d4782c35edc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 10/36] fix: every exit callback and every holder of
 kfiber_ref_self is told about the end of a fiber

---
 src/kfiber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..338680c 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -333,7 +333,7 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		fiber->close_cond = kfiber_cond_init(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -342,9 +342,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From b7d4f9d725b83a0e2449402b2739f7b0a7ee4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 11/36] fix: a lookup of kind cname fell through to the plain
 one

---
 src/kaddr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..9f0e120 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -108,6 +108,7 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	case kgl_addr_cname:
 		f.ai_family = PF_INET;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
-- 
2.43.0


From 0ce08f987fa1b5c9411ede1c97b1650bcf14fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 12/36] fix: a refresh of a name that was flushed and is being
 looked up again crashed

---
 src/kaddr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 9f0e120..c11a16d 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -151,6 +151,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			//was flushed and is being resolved again, that result will be used.
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
-- 
2.43.0


From 74200b7b1ff039dae28067046c3a0fa09ca5437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 13/36] fix: direct reads with alignments above 32 KB started
 at a wrong offset

---
 include/kasync_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..bf40191 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -67,7 +67,7 @@ INLINE KOPAQUE kasync_file_get_opaque(kasync_file* fp) {
 }
 #if defined(O_DIRECT) && defined(LINUX_EPOLL)
 INLINE int64_t _kasync_file_get_adjust_offset(kasync_file *fp) {
-	return fp->st.offset - (int16_t)fp->st.direct_io_offset;
+	return fp->st.offset - fp->st.direct_io_offset;
 }
 INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 {	
-- 
2.43.0


From d3a4b1f1862b2d22b82e4c1e7aea6a8c9771a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 14/36] fix: a direct read at the end of the file or a failed
 direct transfer aborted

---
 include/kasync_file.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index bf40191..db76430 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,9 +75,12 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
-		return -1;
+	if (got < 0) {
+		return got;
+	}
+	if (got <= fp->st.direct_io_offset) {
+		//end of file
+		return 0;
 	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
-- 
2.43.0


From 136fe6ff4b1d36056991e4c1204e88e07b8a336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 15/36] fix: kfiber_net_writev_full made an empty transfer and
 left buffers uncounted when a vector ended in empty buffers

---
 include/kfiber.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..485f77f 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -211,6 +211,11 @@ INLINE bool kfiber_sendfile_full(kconnection * cn, kfiber_file * fp, int* len) {
 INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc) {
 	size_t total_length = 0;
 	while (*bc > 0) {
+		if (buf->iov_len == 0) {
+			buf++;
+			(*bc)--;
+			continue;
+		}
 		int got = kfiber_net_writev(cn, buf, *bc);
 		if (got <= 0) {
 			return total_length;
-- 
2.43.0


From 7da3e9e7901140882508499e62a3d176dbf04ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 16/36] fix: a read run before its socket was known to epoll
 stayed pending after it completed

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..296e9d0 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -460,7 +460,7 @@ kev_result selectable_read_event(kselectable* st)
 {
 #ifdef STF_ET
 	/* epoll notice fd read event use LT model other use ET model */
-	if (KBIT_TEST(st->base.st_flags, STF_ET))
+	if (KBIT_TEST(st->base.st_flags, STF_ET | STF_REV) != STF_REV)
 #endif
 		KBIT_CLR(st->base.st_flags, STF_READ);
 	if (unlikely(KBIT_TEST(st->base.st_flags, STF_UDP))) {
-- 
2.43.0


From eab4a911dcf8caa857339e17bbb37fc9b1216172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 17/36] fix: waiting for more TLS early data was reported as
 the end of the stream

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 296e9d0..e1794be 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -84,7 +84,7 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					return (got > 0 ? got : -1);
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0


From fb24f353ba944cac33fda2c5d8c4e81603646daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 18/36] fix: a fatal TLS error was waited on when errno said
 EAGAIN

---
 src/kselectable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index e1794be..fed3991 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -385,13 +385,14 @@ static inline kev_result selectable_event_write(kselectable* st, result_callback
 		kassert(st->ssl);
 		KBIT_CLR(st->base.st_flags, STF_WREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
-		if (errno == EAGAIN || err == SSL_ERROR_WANT_WRITE) {
+		if (err == SSL_ERROR_WANT_WRITE || (errno == EAGAIN && err != SSL_ERROR_SSL)) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_write(st, result, buffer, arg);
 #else
 			return kgl_selector_module.write(st->base.selector, st, result, buffer, arg);
 #endif
 		}
+		return result(st->data, arg, got);
 	}
 #endif
 	if (errno == EAGAIN) {
@@ -439,7 +440,7 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 		kassert(st->ssl);
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
-		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
+		if (err == SSL_ERROR_WANT_READ || (errno == EAGAIN && err != SSL_ERROR_SSL)) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_read(st, result, buffer, arg);
 #else
-- 
2.43.0


From 787a56a977796367a3683d38eeb65a792e45ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 19/36] fix: accept local connections into a whole sockaddr_un

---
 include/kserver.h | 7 +++++++
 include/ksocket.h | 1 +
 src/kserver.c     | 6 ++++++
 src/ksocket.c     | 8 +++++---
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..62cd9ac 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -68,7 +68,14 @@ struct kserver_selectable_s{
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
+#ifdef KSOCKET_UNIX
+	union {
+		sockaddr_i accept_addr;
+		struct sockaddr_un accept_un_addr;
+	};
+#else
 	sockaddr_i accept_addr;
+#endif
 	socklen_t addr_len;
 #ifdef _WIN32
 	char *tmp_addr_buf;
diff --git a/include/ksocket.h b/include/ksocket.h
index 435c1fc..dd31093 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -297,6 +297,7 @@ void ksocket_ipaddr(const sockaddr_i *addr, ip_addr *ia);
 SOCKET ksocket_listen(const sockaddr_i *addr,int flag);
 SOCKET ksocket_new_udp(uint16_t sin_family,int flag);
 SOCKET ksocket_accept(SOCKET s,sockaddr_i *addr,bool no_block);
+SOCKET ksocket_accept2(SOCKET s,struct sockaddr *addr,socklen_t addr_size,bool no_block);
 SOCKET ksocket_connect(const sockaddr_i *addr, const sockaddr_i *bind_addr, int tmo);
 SOCKET ksocket_half_connect(const sockaddr_i *addr,const sockaddr_i *bind_addr, int tproxy_mask);
 bool ksocket_getaddr(const char *host, uint16_t port,int ai_family, int ai_flags, sockaddr_i *addr);
diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..76e7282 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -27,7 +27,13 @@ kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 {
 	kserver_selectable *ss = (kserver_selectable *)arg;
 	//printf("ksocket_accept called...\n");
+#ifdef KSOCKET_UNIX
+	//a local peer address is longer than sockaddr_i, and the kernel leaves what it does not use untouched
+	memset(&ss->accept_un_addr, 0, sizeof(ss->accept_un_addr));
+	SOCKET sockfd = ksocket_accept2(ss->st.fd, (struct sockaddr *)&ss->accept_un_addr, sizeof(ss->accept_un_addr), true);
+#else
 	SOCKET sockfd = ksocket_accept(ss->st.fd,&ss->accept_addr, true);
+#endif
 	
 	if (sockfd>=0) {
 		//printf("ksocket_accept=[%d]\n",sockfd);
diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..de7d553 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -247,16 +247,18 @@ int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
 }
 #endif
 SOCKET ksocket_accept(SOCKET s, sockaddr_i* addr, bool no_block) {
-	socklen_t addr_size = sizeof(sockaddr_i);
+	return ksocket_accept2(s, (struct sockaddr*)addr, sizeof(sockaddr_i), no_block);
+}
+SOCKET ksocket_accept2(SOCKET s, struct sockaddr* addr, socklen_t addr_size, bool no_block) {
 #if defined(HAVE_ACCEPT4) && !defined(ANDROID)
 	int flag = SOCK_CLOEXEC;
 	if (no_block) {
 		flag |= SOCK_NONBLOCK;
 	}
-	return accept4(s, (struct sockaddr*)addr, &addr_size, flag);
+	return accept4(s, addr, &addr_size, flag);
 #else
 
-	SOCKET sockfd = accept(s, (struct sockaddr*)addr, &addr_size);
+	SOCKET sockfd = accept(s, addr, &addr_size);
 	if (sockfd == INVALID_SOCKET) {
 		return sockfd;
 	}
-- 
2.43.0


From 299f630d0648b95771ad3ebe61724f019073266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 20/36] fix: refuse local socket paths that do not fit

---
 src/kserver.c | 9 ++++++++-
 src/ksocket.c | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index 76e7282..5960eed 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -227,7 +227,14 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 #endif
 	if (*ip=='/') {
 #ifdef KSOCKET_UNIX	
-		ksocket_unix_addr(ip,&server->un_addr);
+		if (ksocket_unix_addr(ip, &server->un_addr) != 0) {
+#ifdef KSOCKET_SSL
+			if (ssl_ctx) {
+				kgl_release_ssl_ctx(ssl_ctx);
+			}
+#endif
+			return false;
+		}
 #endif
 	} else if (!ksocket_getaddr(ip, port, 0, AI_NUMERICHOST, &server->addr)) {
 #ifdef KSOCKET_SSL
diff --git a/src/ksocket.c b/src/ksocket.c
index de7d553..af3701d 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -242,6 +242,10 @@ SOCKET ksocket_listen(const sockaddr_i* addr, int flag) {
 int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
 	memset(addr, 0, sizeof(struct sockaddr_un));
 	addr->sun_family = AF_UNIX;
+	if (strlen(path) >= sizeof(addr->sun_path)) {
+		//too long
+		return -1;
+	}
 	strncpy(addr->sun_path, path, sizeof(addr->sun_path));
 	return 0;
 }
-- 
2.43.0


From a36ddebe5fd204ee5a25de3b7ae26cdbd2775f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 21/36] fix: read the whole address of an adopted local socket

---
 src/kserver.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kserver.c b/src/kserver.c
index 5960eed..84badbe 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -272,7 +272,11 @@ static void kserver_selectable_start(kserver_selectable* ss) {
 }
 bool kserver_open_exsit(kserver* server, SOCKET sockfd, result_callback accept_callback)
 {
+#ifdef KSOCKET_UNIX
+	socklen_t addr_len = (socklen_t)sizeof(server->un_addr);
+#else
 	socklen_t addr_len = (socklen_t)sizeof(server->addr);
+#endif
 	if (0 != getsockname(sockfd, (struct sockaddr*)&server->addr, &addr_len)) {
 		klog(KLOG_NOTICE, "error [%s:%d]\n", __FILE__, __LINE__);
 		return false;
-- 
2.43.0


From 9e04aa7873968458f51282c45e386543a8e995ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 22/36] fix: close a listener's descriptor under the server's
 lock

---
 src/kserver.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 84badbe..ca77af7 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -368,12 +368,13 @@ void kserver_release(kserver *server)
 
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
+	assert(ss->server);
+	//kserver_close may use the descriptor until it is out of the list
+	kmutex_lock(&ss->server->ss_lock);
 	if (ksocket_opened(ss->st.fd)) {
 		ksocket_close(ss->st.fd);
 		ksocket_init(ss->st.fd);
 	}
-	assert(ss->server);
-	kmutex_lock(&ss->server->ss_lock);
 	if (ss->queue.next) {
 		assert(!klist_empty(&ss->server->ss));
 		klist_remove(&ss->queue);
-- 
2.43.0


From 99ad69a1c6e0498c1b8d43d98ee19113f55f49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 23/36] fix: keep a server's listener alive for a posted change
 of certificates

---
 src/kserver.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index ca77af7..da2dc43 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -15,6 +15,7 @@
 
 #ifdef KSOCKET_SSL
 typedef struct {
+	kserver *server;
 	kserver_selectable *ss;
 	kgl_ssl_ctx *ssl_ctx;
 } kserver_update_ssl_ctx_param;
@@ -443,7 +444,22 @@ static void kserver_selectable_update_ssl_ctx(kserver_selectable *ss, kgl_ssl_ct
 static kev_result kserver_ssl_ctx_next_update(KOPAQUE data, void *arg, int got)
 {
 	kserver_update_ssl_ctx_param *param = (kserver_update_ssl_ctx_param *)arg;
-	kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
+	kgl_list *pos;
+	//the selectable may be destroyed since, only its own thread (this one) destroys it
+	kmutex_lock(&param->server->ss_lock);
+	klist_foreach(pos, &param->server->ss) {
+		if (kgl_list_data(pos, kserver_selectable, queue) == param->ss) {
+			break;
+		}
+	}
+	bool alive = (pos != &param->server->ss);
+	kmutex_unlock(&param->server->ss_lock);
+	if (alive) {
+		kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
+	} else if (param->ssl_ctx) {
+		kgl_release_ssl_ctx(param->ssl_ctx);
+	}
+	kserver_release(param->server);
 	xfree(param);
 	return kev_ok;
 }
@@ -468,6 +484,8 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
 		} else {
 			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
+			param->server = server;
+			kserver_refs(server);
 			param->ss = ss;
 			param->ssl_ctx = ssl_ctx;
 			selectable_next(&ss->st, kserver_ssl_ctx_next_update, param, 0);
-- 
2.43.0


From c2dc9bef657cc73a6e782e61721aec6ce97ce97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 24/36] fix: forget a registration that epoll refused

---
 src/kepoll_selector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..0eed131 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -125,6 +125,8 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	int ret = epoll_ctl(kdpfd, op, sockfd, &event);
 	if (ret !=0) {
 		klog(KLOG_ERR, "epoll ctl error fd=%d,errno=%d %s\n", sockfd,errno,strerror(errno));
+		//the registration is as it was before
+		st->base.st_flags = prev_ev;
 		return false;
 	}
 	return true;
-- 
2.43.0


From 1c85547d1fdb8ae962ede06a9e6111980537ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 25/36] fix: hash an IPv4 ip_addr by its address alone

---
 include/ksocket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ksocket.h b/include/ksocket.h
index dd31093..4d3565c 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -115,6 +115,9 @@ struct ip_addr_s {
 	}
 	unsigned get_hash()
 	{
+		if (sin_family == PF_INET) {
+			return addr32[0];
+		}
 		unsigned h = 0;
 		for (int i = 0; i < 4; i++) {
 			h ^= addr32[i];
-- 
2.43.0


From 8d8463394cf6571d30b521744d1b4c69c005ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 26/36] fix: ksocket_is_block tells a blocking socket

---
 include/ksocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 4d3565c..b7516ff 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -278,7 +278,7 @@ INLINE bool ksocket_is_block(SOCKET sockfd) {
 	return false;
 #else
 	int flags = fcntl(sockfd, F_GETFL, 0);
-	return (flags & O_NONBLOCK) > 0;
+	return (flags & O_NONBLOCK) == 0;
 #endif
 }
 void ksocket_startup();
-- 
2.43.0


From a440833bf4c0ce4c75bfdc8ee461f1da79dc6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:32 +0000
Subject: [PATCH 27/36] fix: keep the path of a local address in
 kconnection_new3

---
 src/kconnection.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 915f9c7..3102c3f 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -34,6 +34,16 @@ kconnection* kconnection_internal_new()
 kconnection* kconnection_new3(const struct sockaddr* addr, socklen_t addr_len)
 {
 	kconnection* c = kconnection_internal_new();
+#ifdef KSOCKET_UNIX
+	if (addr->sa_family == PF_UNIX) {
+		c->addr.u.sin_family = PF_UNIX;
+		c->addr.u.size = (short)sizeof(struct sockaddr_un);
+		c->addr.u.addr = (struct sockaddr *)kgl_pnalloc(c->pool, (int)c->addr.u.size);
+		memset(c->addr.u.addr, 0, c->addr.u.size);
+		kgl_memcpy(c->addr.u.addr, addr, KGL_MIN(addr_len, sizeof(struct sockaddr_un)));
+		return c;
+	}
+#endif
 	kgl_memcpy(&c->addr, addr, KGL_MIN(addr_len,sizeof(sockaddr_i)));
 	return c;
 }
-- 
2.43.0


From 25cc77a343b8b8b7362034738f346ea9a9257b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 28/36] fix: kstring_from2 copies all bytes

---
 include/kstring.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kstring.h b/include/kstring.h
index 1245526..05ccb0e 100644
--- a/include/kstring.h
+++ b/include/kstring.h
@@ -58,7 +58,13 @@ INLINE kgl_ref_str_t* kstring_from(const char* str) {
 	return NULL;
 }
 INLINE kgl_ref_str_t* kstring_from2(const char* str, size_t len) {
-	return convert_refs_string(kgl_strndup(str, len), len);
+	//str may hold zero bytes, strndup would stop there
+	char* data = (char*)xmalloc(len + 1);
+	if (len > 0) {
+		kgl_memcpy(data, str, len);
+	}
+	data[len] = '\0';
+	return convert_refs_string(data, len);
 }
 #if 0
 INLINE kgl_ref_str_t* kstring_clone(const kgl_ref_str_t* s) {
-- 
2.43.0


From 0b34c5330d6406e3a6d65e0b88d5e086e6bd266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 29/36] fix: a TLS call is judged by its own errors

---
 src/kconnection.c | 1 +
 src/kgl_ssl.c     | 3 +++
 src/kselectable.c | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 3102c3f..a01545a 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -163,6 +163,7 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
+		ERR_clear_error();
 		int n = SSL_read_early_data(ssl->ssl, &buf, 1, &readbytes);
 		//printf("sh=[%p %p] SSL_read_early_data=[%d]\n", sh,ssl->ssl,n);
 		if (n == SSL_READ_EARLY_DATA_FINISH) {
diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index f94e225..954fa8d 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -804,6 +804,8 @@ kssl_status kgl_ssl_handshake_status(SSL* ssl, int re) {
 	}
 }
 kssl_status kgl_ssl_handshake(SSL* ssl) {
+	/* SSL_get_error looks at the thread's error queue, other sessions leave errors there */
+	ERR_clear_error();
 	int re = SSL_do_handshake(ssl);
 	if (re <= 0) {
 		return kgl_ssl_handshake_status(ssl, re);
@@ -818,6 +820,7 @@ kssl_status kgl_ssl_handshake(SSL* ssl) {
 	return ret_ok;
 }
 kssl_status kgl_ssl_shutdown(SSL* ssl) {
+	ERR_clear_error();
 	int n = SSL_shutdown(ssl);
 	if (n == 1) {
 		return ret_ok;
diff --git a/src/kselectable.c b/src/kselectable.c
index fed3991..5f2696c 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -21,6 +21,8 @@
 static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 {
 	int got = 0;
+	/* SSL_get_error looks at the thread's error queue, other sessions leave errors there */
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		char* hot = (char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -62,6 +64,7 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
 	int got = 0;
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		u_char* hot = (u_char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -302,6 +305,7 @@ static inline kev_result selectable_event_sendfile(kselectable* st, result_callb
 	if (st->ssl) {
 		assert(kgl_ssl_support_sendfile(st->ssl));
 #if defined(BIO_get_ktls_send)
+		ERR_clear_error();
 		got = SSL_sendfile(st->ssl->ssl, file->st.fd, offset, buffer->iov_len, 0);
 		if (got >= 0) {
 			return result(st->data, arg, got);
-- 
2.43.0


From e48456642fcb2205170b5b243e693bbefb557e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 30/36] fix: ask for the destination of IPv6 packets

---
 src/kudp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kudp.c b/src/kudp.c
index 9502dcf..266a463 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -78,6 +78,11 @@ kconnection* kudp_new2(int flags, kselector* st)
 		return NULL;
 	}
 	if (KBIT_TEST(flags, KSOCKET_IP_PKTINFO)) {
+#ifdef IPV6_RECVPKTINFO
+		if (domain == PF_INET6) {
+			setsockopt(uc->st.fd, IPPROTO_IPV6, IPV6_RECVPKTINFO, (const char*)&n, sizeof(int));
+		} else
+#endif
 #ifdef IP_SENDSRCADDR
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_SENDSRCADDR, (const char*)&n, sizeof(int));
 #else
-- 
2.43.0


From 48ec0859cc0c14020f3d35e8c37119bdec4014fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 31/36] fix: release the certificate references
 kgl_ssl_certificate() keeps

---
 src/kgl_ssl.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 954fa8d..62a2126 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -540,6 +540,7 @@ static X509* kgl_ssl_load_certificate(const char** err, const kgl_ref_str_t* cer
 		if (sk_X509_push(*chain, temp) == 0) {
 			*err = "sk_X509_push() failed";
 			BIO_free(bio);
+			X509_free(temp);
 			X509_free(x509);
 			sk_X509_pop_free(*chain, X509_free);
 			return NULL;
@@ -629,14 +630,8 @@ int kgl_ssl_certificate(SSL_CTX* ctx, const kgl_ref_str_t* cert, const kgl_ref_s
 		sk_X509_pop_free(chain, X509_free);
 		return -1;
 	}
-	/*
-	 * Note that x509 is not freed here, but will be instead freed in
-	 * ngx_ssl_cleanup_ctx().  This is because we need to preserve all
-	 * certificates to be able to iterate all of them through exdata
-	 * (ngx_ssl_certificate_index, ngx_ssl_next_certificate_index),
-	 * while OpenSSL can free a certificate if it is replaced with another
-	 * certificate of the same type.
-	 */
+	/* SSL_CTX_use_certificate() holds its own reference */
+	X509_free(x509);
 
 #ifdef SSL_CTX_set0_chain
 	if (SSL_CTX_set0_chain(ctx, chain) == 0) {
-- 
2.43.0


From 3d20f75967ea7cf920edfbf3f73b444489badb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 32/36] fix: kgl_ssl_ctx_new_server2() with the certificate in
 the key buffer

---
 src/kgl_ssl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 62a2126..6b7cc9f 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -752,6 +752,10 @@ SSL_CTX* kgl_ssl_ctx_new_server2(const kgl_ref_str_t* cert_buffer, const kgl_ref
 		SSL_CTX_free(ctx);
 		return NULL;
 	}
+	if (!cert_buffer || *cert_buffer->data == '\0') {
+		/* the certificate was loaded from the key, see kgl_ssl_certificate() */
+		cert_buffer = key_buffer;
+	}
 	kgl_ssl_session_id_context_from_buffer(ctx, cert_buffer->data);
 	return kgl_ssl_ctx_post_init(ctx, ca_path, ca_file, ssl_ctx_data);
 }
-- 
2.43.0


From 3feebf2fb6cafdb80012ba72fd23aa55fce11539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 33/36] fix: release the aio context and descriptor of a
 destroyed loop

---
 src/kepoll_selector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 0eed131..4f859fe 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -173,6 +173,8 @@ static void epoll_selector_destroy(kselector *selector)
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
 	close(es->kdpfd);
 	close(es->notice_st.st.fd);
+	io_destroy(es->aio_st.aio_ctx);
+	close(es->aio_st.st.fd);
 	xfree(es);
 }
 
-- 
2.43.0


From c40c758a1586d780758cc948f4acc28cfd823262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 34/36] fix: forget the main fiber of a loop that ended

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index 338680c..2379450 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -179,6 +179,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
 			xfree(fiber);
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 		}
 		return kev_ok;
 	}
-- 
2.43.0


From 58e346e74d496fc13939effe0782447146e67f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 35/36] fix: adjust the loop of kasync_main() when the clock is
 set back

---
 src/kselector_manager.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..1fcb8fd 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -185,6 +185,11 @@ void selector_manager_adjust_time(int64_t diff_msec)
 	for (int i = 0; i < kgl_selector_count; i++) {
 		kselector_adjust_time(kgl_selectors[i], diff_msec);
 	}
+	kselector* selector = kgl_get_tls_selector();
+	if (selector != NULL && selector->aysnc_main) {
+		//the loop of kasync_main() is not one of the pool
+		kselector_adjust_time(selector, diff_msec);
+	}
 }
 static kev_result kthread_flush_timer(KOPAQUE data, void *arg, int got)
 {
-- 
2.43.0


From 7a2bcb7b69efc3281b829f9aca668b0e3c3202d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:15 +0000
Subject: [PATCH 36/36] fix: keep a resolved address while its waiters are told

---
 src/kaddr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index c11a16d..73cf375 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -238,9 +238,14 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	kgl_addr *addr2 = NULL;
 	if (addr) {
 		addr2 = kgl_addr_new(addr);
+		//the node may be flushed once it is in the cache
+		kgl_addr_refs(addr2);
 	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0

