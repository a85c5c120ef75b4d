From 43ddf35e76b5f7fae092fa64dce36dbd4812a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:40 +0000
Subject: [PATCH 01/15] fix: do not overwrite a pending external task

A failed compare-and-swap stores the current value in 'exp', so the second
attempt replaced the pending submission of another thread, whose RUN then
never returned.
---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 29019f6..f079013 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -578,7 +578,7 @@ lace_run_task(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -625,7 +625,7 @@ lace_run_task_exclusive(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
diff --git a/src/lace14.c b/src/lace14.c
index deb232b..a11157d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -578,7 +578,7 @@ lace_run_task(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
@@ -625,7 +625,7 @@ lace_run_task_exclusive(Task *task)
         pthread_mutex_unlock(&external_task_lock);
 
         ExtTask *exp = 0;
-        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) {}
+        while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
         sem_wait(&et.sem);
         sem_destroy(&et.sem);
-- 
2.43.0


From e35fee6ef4999356ef8a97409e836843f3e1d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 02/15] fix: mark the slot of a dropped task as empty

lace_get_head relies on this mark to find the head of the deque when Lace is
re-entered (RUN, NEWFRAME, TOGETHER, LACE_VARS). With the mark of a dropped
task left behind, it returned a head that is too high.
---
 src/lace.h   | 2 ++
 src/lace.sh  | 2 ++
 src/lace14.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/lace.h b/src/lace.h
index fe99dea..19ec73d 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace.sh b/src/lace.sh
index b534023..8c82a4c 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -701,6 +701,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -708,6 +709,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
diff --git a/src/lace14.h b/src/lace14.h
index 085fb59..53dba42 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -694,6 +694,7 @@ static __attribute__((noinline))
 void lace_drop_slow(WorkerP *w, Task *__dq_head)
 {
     if ((w->allstolen) || (w->split > __dq_head && lace_shrink_shared(w))) lace_leapfrog(w, __dq_head);
+    else atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
 }
 
 static inline __attribute__((unused))
@@ -701,6 +702,7 @@ void lace_drop(WorkerP *w, Task *__dq_head)
 {
     if (likely(0 == w->_public->movesplit)) {
         if (likely(w->split <= __dq_head)) {
+            atomic_store_explicit(&__dq_head->thief, THIEF_EMPTY, memory_order_relaxed);
             return;
         }
     }
-- 
2.43.0


From c309fcca43c8505b9320131f5ca4030e5643eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 03/15] fix: give every copy of a TOGETHER task its own
 parameters

Result and parameters share storage; the first copy of a task with a return
value that finished overwrote the parameters of copies yet to start.
---
 src/lace.c   | 6 ++++--
 src/lace14.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index f079013..49b9d2a 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1206,8 +1206,10 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
-    // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    // run the root task, using a local copy as the result overwrites the parameters
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
diff --git a/src/lace14.c b/src/lace14.c
index a11157d..540f903 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1206,8 +1206,10 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
  */
 VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 {
-    // run the root task
-    t->f(__lace_worker, __lace_dq_head, t);
+    // run the root task, using a local copy as the result overwrites the parameters
+    Task _t;
+    memcpy(&_t, t, sizeof(Task));
+    _t.f(__lace_worker, __lace_dq_head, &_t);
 
     // signal out completion
     *finished -= 1;
-- 
2.43.0


From fe6c080bafa2f1b0b68192ede478113e3b639792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 04/15] fix: retry semaphore waits that are interrupted by a
 signal

---
 src/lace.c   | 8 ++++----
 src/lace14.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 49b9d2a..75f53ac 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -580,7 +580,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // retry when interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -627,7 +627,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // retry when interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -736,7 +736,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            while (sem_wait(&suspend_semaphore) != 0) {} // retry when interrupted by a signal
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -759,7 +759,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    while (sem_wait(&suspend_semaphore) != 0) {} // retry when interrupted by a signal
 
     // Signal that we are running
     workers_running += 1;
diff --git a/src/lace14.c b/src/lace14.c
index 540f903..8d81e68 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -580,7 +580,7 @@ lace_run_task(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // retry when interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -627,7 +627,7 @@ lace_run_task_exclusive(Task *task)
         ExtTask *exp = 0;
         while (atomic_compare_exchange_weak(&external_task, &exp, &et) != 1) exp = 0;
 
-        sem_wait(&et.sem);
+        while (sem_wait(&et.sem) != 0) {} // retry when interrupted by a signal
         sem_destroy(&et.sem);
 
         pthread_mutex_lock(&external_task_lock);
@@ -736,7 +736,7 @@ VOID_TASK_1(lace_steal_loop, atomic_int*, quit)
 
         if (unlikely(atomic_load_explicit(&must_suspend, memory_order_acquire))) {
             workers_running -= 1;
-            sem_wait(&suspend_semaphore);
+            while (sem_wait(&suspend_semaphore) != 0) {} // retry when interrupted by a signal
             lace_barrier(); // ensure we're all back before continuing
             workers_running += 1;
         }
@@ -759,7 +759,7 @@ lace_worker_thread(void* arg)
     lace_pin_worker();
 
     // Wait for the first time we are resumed
-    sem_wait(&suspend_semaphore);
+    while (sem_wait(&suspend_semaphore) != 0) {} // retry when interrupted by a signal
 
     // Signal that we are running
     workers_running += 1;
-- 
2.43.0


From 1b8e34f7a4cc93efeb03c3c75edbfa1d457131df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:41 +0000
Subject: [PATCH 05/15] fix: create worker threads detached so that their
 resources are released

The threads were neither joined nor detached, so every session leaked the
stacks of all its workers.
---
 src/lace.c   | 3 +++
 src/lace14.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 75f53ac..765bf35 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -926,6 +926,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         fprintf(stdout, "Lace startup, creating %d worker threads with program stack %zu bytes.\n", n_workers, stacksize);
     }
 
+    // Nobody joins the workers (lace_stop waits for them in another way)
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
diff --git a/src/lace14.c b/src/lace14.c
index 8d81e68..5b0d12d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -926,6 +926,9 @@ lace_start(unsigned int _n_workers, size_t dqsize)
         fprintf(stdout, "Lace startup, creating %d worker threads with program stack %zu bytes.\n", n_workers, stacksize);
     }
 
+    // Nobody joins the workers (lace_stop waits for them in another way)
+    pthread_attr_setdetachstate(&worker_attr, PTHREAD_CREATE_DETACHED);
+
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-- 
2.43.0


From 30e70d54a75f4a74759647ab332c3c2668d9e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:09 +0000
Subject: [PATCH 06/15] fix: lace_start with dqsize 0 uses the default, not the
 previous size

The deque size of one session silently became the default of the next ones.
---
 src/lace.c   | 13 +++++++++----
 src/lace14.c | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 765bf35..7ba07db 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -72,7 +72,12 @@ static Worker **workers = NULL;
  * Default sizes for program stack and task deque
  */
 static size_t stacksize = 0; // 0 means just take default
-static size_t default_dqsize = 100000;
+static const size_t default_dqsize = 100000;
+
+/**
+ * Number of tasks in the deque of each worker in the current session.
+ */
+static size_t workers_dqsize = 0;
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -442,7 +447,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + workers_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -835,8 +840,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    workers_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
diff --git a/src/lace14.c b/src/lace14.c
index 5b0d12d..f5d5f1d 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -72,7 +72,12 @@ static Worker **workers = NULL;
  * Default sizes for program stack and task deque
  */
 static size_t stacksize = 0; // 0 means just take default
-static size_t default_dqsize = 100000;
+static const size_t default_dqsize = 100000;
+
+/**
+ * Number of tasks in the deque of each worker in the current session.
+ */
+static size_t workers_dqsize = 0;
 
 /**
  * Verbosity flag, set with lace_set_verbosity
@@ -442,7 +447,7 @@ lace_init_worker(unsigned int worker)
 
     // Initialize private worker data
     w->_public = wt;
-    w->end = w->dq + default_dqsize;
+    w->end = w->dq + workers_dqsize;
     w->split = w->dq;
     w->allstolen = 0;
     w->worker = worker;
@@ -835,8 +840,8 @@ lace_start(unsigned int _n_workers, size_t dqsize)
 
     // Initialize globals
     n_workers = _n_workers == 0 ? n_pus : _n_workers;
-    if (dqsize != 0) default_dqsize = dqsize;
-    else dqsize = default_dqsize;
+    if (dqsize == 0) dqsize = default_dqsize;
+    workers_dqsize = dqsize;
     lace_quits = 0;
     atomic_store_explicit(&workers_running, 0, memory_order_relaxed);
 
-- 
2.43.0


From 29a312783bb67ad2c9792897e6c0813e9dba5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:09 +0000
Subject: [PATCH 07/15] fix: make the barrier order memory accesses

With relaxed accesses nothing a worker did before entering the barrier was
ordered before what the others do after leaving it.
---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 7ba07db..55a3940 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -260,12 +260,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
diff --git a/src/lace14.c b/src/lace14.c
index f5d5f1d..6b44961 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -260,12 +260,12 @@ void
 lace_barrier()
 {
     int wait = lace_bar.wait;
-    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_relaxed))) {
+    if ((int)n_workers == 1+(atomic_fetch_add_explicit(&lace_bar.count, 1, memory_order_acq_rel))) {
         // we know for sure no other thread can be here
         atomic_store_explicit(&lace_bar.count, 0, memory_order_relaxed);
         atomic_store_explicit(&lace_bar.leaving, n_workers, memory_order_relaxed);
         // flip wait
-        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_relaxed);
+        atomic_store_explicit(&lace_bar.wait, 1-wait, memory_order_release);
     } else {
         while (wait == lace_bar.wait) {} // wait
     }
-- 
2.43.0


From 4b6fa0acab45942d87b5c7a74e839f8bbf0a51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:09 +0000
Subject: [PATCH 08/15] fix: no division by zero in the report of sessions
 under a millisecond

---
 src/lace.c   | 4 +++-
 src/lace14.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 55a3940..7c006ca 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1045,7 +1045,9 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
+    uint64_t us = us_elapsed();
+    if (us == 0) us = 1;
+    uint64_t count_per_ms = (count_at_end - count_at_start) * 1000 / us;
     double dcpm = (double)count_per_ms;
 
     uint64_t sum_count;
diff --git a/src/lace14.c b/src/lace14.c
index 6b44961..d65e712 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1045,7 +1045,9 @@ lace_count_report_file(FILE *file)
 #if LACE_PIE_TIMES
     count_at_end = gethrtime();
 
-    uint64_t count_per_ms = (count_at_end - count_at_start) / (us_elapsed() / 1000);
+    uint64_t us = us_elapsed();
+    if (us == 0) us = 1;
+    uint64_t count_per_ms = (count_at_end - count_at_start) * 1000 / us;
     double dcpm = (double)count_per_ms;
 
     uint64_t sum_count;
-- 
2.43.0


From 4667a98812522d8d30858afc9b9321f728935b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:09 +0000
Subject: [PATCH 09/15] fix: do not look for the deque head beyond the end of
 the deque

Deques of fewer than four tasks were read out of bounds, and a full one gave a
head beyond the end, which the overflow check does not notice.
---
 src/lace.c   | 10 +++++-----
 src/lace14.c | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 7c006ca..2159042 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -167,16 +167,16 @@ Task*
 lace_get_head(WorkerP *self)
 {
     Task *dq = self->dq;
+    const size_t size = self->end - self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    for (size_t i = 0; i < 4; i++) {
+        if (i == size || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
-    size_t high = self->end - self->dq;
+    size_t high = size;
 
     for (;;) {
         if (low*2 >= high) {
diff --git a/src/lace14.c b/src/lace14.c
index d65e712..47cca8b 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -167,16 +167,16 @@ Task*
 lace_get_head(WorkerP *self)
 {
     Task *dq = self->dq;
+    const size_t size = self->end - self->dq;
 
     /* First check the first tasks linearly */
-    if (dq[0].thief == 0) return dq;
-    if (dq[1].thief == 0) return dq+1;
-    if (dq[2].thief == 0) return dq+2;
-    if (dq[3].thief == 0) return dq+3;
+    for (size_t i = 0; i < 4; i++) {
+        if (i == size || dq[i].thief == 0) return dq+i;
+    }
 
     /* Then fast search for a low/high bound using powers of 2: 4, 8, 16... */
     size_t low = 2;
-    size_t high = self->end - self->dq;
+    size_t high = size;
 
     for (;;) {
         if (low*2 >= high) {
-- 
2.43.0


From 2650007f37c2de8ff0e98067aaf73857521596e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:10 +0000
Subject: [PATCH 10/15] fix: report failure to create a worker thread

lace_start ignored the failure; everything that waits for all workers hangs.
---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 2159042..c898c85 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -937,7 +937,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: Unable to create worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
diff --git a/src/lace14.c b/src/lace14.c
index 47cca8b..03215c9 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -937,7 +937,10 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Spawn all workers */
     for (unsigned int i=0; i<n_workers; i++) {
         pthread_t res;
-        pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i);
+        if (pthread_create(&res, &worker_attr, lace_worker_thread, (void*)(size_t)i) != 0) {
+            fprintf(stderr, "Lace error: Unable to create worker thread!\n");
+            exit(1);
+        }
     }
 
     /* Make sure we start resumed */
-- 
2.43.0


From 30828fa74d4ae4a3557ae59951f61f552efceb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:36 +0000
Subject: [PATCH 11/15] fix: do not leave a frame while an external task may
 start another one

A worker that is waiting for the end of a NEWFRAME or TOGETHER frame executes
external tasks. When such a task itself starts a frame while other workers are
already in the barrier that ends the current frame, the two barriers were mixed
up: the workers deadlock or execute the wrong frame.
---
 src/lace.c   | 45 ++++++++++++++++++++++++++++++++++++++++-----
 src/lace14.c | 45 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 80 insertions(+), 10 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index c898c85..e890b9d 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1213,11 +1213,23 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t);
 }
 
+/**
+ * Wait until no worker executes code in the current frame anymore.
+ * Other workers may still be executing an external task, which may start a new frame, so we
+ * must not yet wait in a barrier but participate in new frames.
+ */
+static void
+lace_finish_frame(WorkerP *__lace_worker, Task *__lace_dq_head, atomic_int *busy)
+{
+    *busy -= 1;
+    while (*busy != 0) YIELD_NEWFRAME();
+}
+
 /**
  * Root task for the TOGETHER method.
  * Ensures after executing, to steal random tasks until done.
  */
-VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
+VOID_TASK_3(lace_together_root, Task*, t, atomic_int*, finished, atomic_int*, busy)
 {
     // run the root task, using a local copy as the result overwrites the parameters
     Task _t;
@@ -1229,6 +1241,8 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 
     // while threads aren't done, steal randomly
     while (*finished != 0) STEAL_RANDOM();
+
+    lace_finish_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_together, Task*, task)
@@ -1236,6 +1250,9 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* synchronization integer (decrease by 1 when done...) */
     atomic_int done = n_workers;
 
+    /* number of workers that may still execute code in the new frame */
+    atomic_int busy = n_workers;
+
     /* wrap task in lace_together_root */
     Task _t2;
     TD_lace_together_root *t2 = (TD_lace_together_root *)&_t2;
@@ -1243,6 +1260,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1260,10 +1278,22 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
 
-VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
+VOID_TASK_3(lace_newframe_root, Task*, t, atomic_int*, done, atomic_int*, busy)
 {
     t->f(__lace_worker, __lace_dq_head, t);
     *done = 1;
+
+    lace_finish_frame(__lace_worker, __lace_dq_head, busy);
+}
+
+/**
+ * Task for the other workers of the NEWFRAME method.
+ */
+VOID_TASK_2(lace_newframe_loop, atomic_int*, done, atomic_int*, busy)
+{
+    CALL(lace_steal_loop, done);
+
+    lace_finish_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_newframe, Task*, task)
@@ -1271,12 +1301,16 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* synchronization integer (set to 1 when done...) */
     atomic_int done = 0;
 
-    /* create the lace_steal_loop task for the other workers */
+    /* number of workers that may still execute code in the new frame */
+    atomic_int busy = n_workers;
+
+    /* create the lace_newframe_loop task for the other workers */
     Task _s;
-    TD_lace_steal_loop *s = (TD_lace_steal_loop *)&_s;
-    s->f = &lace_steal_loop_WRAP;
+    TD_lace_newframe_loop *s = (TD_lace_newframe_loop *)&_s;
+    s->f = &lace_newframe_loop_WRAP;
     atomic_store_explicit(&s->thief, THIEF_TASK, memory_order_relaxed);
     s->d.args.arg_1 = &done;
+    s->d.args.arg_2 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1298,6 +1332,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
diff --git a/src/lace14.c b/src/lace14.c
index 03215c9..291e243 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1213,11 +1213,23 @@ lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t);
 }
 
+/**
+ * Wait until no worker executes code in the current frame anymore.
+ * Other workers may still be executing an external task, which may start a new frame, so we
+ * must not yet wait in a barrier but participate in new frames.
+ */
+static void
+lace_finish_frame(WorkerP *__lace_worker, Task *__lace_dq_head, atomic_int *busy)
+{
+    *busy -= 1;
+    while (*busy != 0) YIELD_NEWFRAME();
+}
+
 /**
  * Root task for the TOGETHER method.
  * Ensures after executing, to steal random tasks until done.
  */
-VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
+VOID_TASK_3(lace_together_root, Task*, t, atomic_int*, finished, atomic_int*, busy)
 {
     // run the root task, using a local copy as the result overwrites the parameters
     Task _t;
@@ -1229,6 +1241,8 @@ VOID_TASK_2(lace_together_root, Task*, t, atomic_int*, finished)
 
     // while threads aren't done, steal randomly
     while (*finished != 0) STEAL_RANDOM();
+
+    lace_finish_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_together, Task*, task)
@@ -1236,6 +1250,9 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* synchronization integer (decrease by 1 when done...) */
     atomic_int done = n_workers;
 
+    /* number of workers that may still execute code in the new frame */
+    atomic_int busy = n_workers;
+
     /* wrap task in lace_together_root */
     Task _t2;
     TD_lace_together_root *t2 = (TD_lace_together_root *)&_t2;
@@ -1243,6 +1260,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1260,10 +1278,22 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
 
-VOID_TASK_2(lace_newframe_root, Task*, t, atomic_int*, done)
+VOID_TASK_3(lace_newframe_root, Task*, t, atomic_int*, done, atomic_int*, busy)
 {
     t->f(__lace_worker, __lace_dq_head, t);
     *done = 1;
+
+    lace_finish_frame(__lace_worker, __lace_dq_head, busy);
+}
+
+/**
+ * Task for the other workers of the NEWFRAME method.
+ */
+VOID_TASK_2(lace_newframe_loop, atomic_int*, done, atomic_int*, busy)
+{
+    CALL(lace_steal_loop, done);
+
+    lace_finish_frame(__lace_worker, __lace_dq_head, busy);
 }
 
 VOID_TASK_1(lace_wrap_newframe, Task*, task)
@@ -1271,12 +1301,16 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* synchronization integer (set to 1 when done...) */
     atomic_int done = 0;
 
-    /* create the lace_steal_loop task for the other workers */
+    /* number of workers that may still execute code in the new frame */
+    atomic_int busy = n_workers;
+
+    /* create the lace_newframe_loop task for the other workers */
     Task _s;
-    TD_lace_steal_loop *s = (TD_lace_steal_loop *)&_s;
-    s->f = &lace_steal_loop_WRAP;
+    TD_lace_newframe_loop *s = (TD_lace_newframe_loop *)&_s;
+    s->f = &lace_newframe_loop_WRAP;
     atomic_store_explicit(&s->thief, THIEF_TASK, memory_order_relaxed);
     s->d.args.arg_1 = &done;
+    s->d.args.arg_2 = &busy;
 
     /* now try to be the one who sets it! */
     while (1) {
@@ -1298,6 +1332,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     atomic_store_explicit(&t2->thief, THIEF_TASK, memory_order_relaxed);
     t2->d.args.arg_1 = task;
     t2->d.args.arg_2 = &done;
+    t2->d.args.arg_3 = &busy;
 
     lace_exec_in_new_frame(__lace_worker, __lace_dq_head, &_t2);
 }
-- 
2.43.0


From eb39eabdf7d532f5b5a3f832cdfc553fe19ce7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:47 +0000
Subject: [PATCH 12/15] fix: restore the private split point after a frame

---
 src/lace.c   | 5 ++++-
 src/lace14.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index e890b9d..5edf542 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1157,6 +1157,9 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
     TailSplitNA old;
     uint8_t old_as;
 
+    // the private split point is not the shared one if all tasks have been stolen
+    Task *old_split = __lace_worker->split;
+
     // save old tail, split, allstolen and initiate new frame
     {
         Worker *wt = __lace_worker->_public;
@@ -1191,7 +1194,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
diff --git a/src/lace14.c b/src/lace14.c
index 291e243..88406f1 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1157,6 +1157,9 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
     TailSplitNA old;
     uint8_t old_as;
 
+    // the private split point is not the shared one if all tasks have been stolen
+    Task *old_split = __lace_worker->split;
+
     // save old tail, split, allstolen and initiate new frame
     {
         Worker *wt = __lace_worker->_public;
@@ -1191,7 +1194,7 @@ lace_exec_in_new_frame(WorkerP *__lace_worker, Task *__lace_dq_head, Task *root)
         Worker *wt = __lace_worker->_public;
         wt->allstolen = old_as;
         wt->ts.v = old.v;
-        __lace_worker->split = __lace_worker->dq + old.ts.split;
+        __lace_worker->split = old_split;
         __lace_worker->allstolen = old_as;
     }
 }
-- 
2.43.0


From 14f2ff6444bcd80454147c225a7973fe72fb4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:42 +0000
Subject: [PATCH 13/15] fix: make sure that the counters exist when lace_start
 returns

---
 src/lace.c   | 5 +++++
 src/lace14.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/lace.c b/src/lace.c
index 5edf542..2d26eae 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -946,6 +946,11 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Make sure we start resumed */
     lace_resume();
 
+#if LACE_COUNT_EVENTS
+    // The counters can be reset and reported when all workers have initialized them
+    while (workers_running != n_workers) {}
+#endif
+
     pthread_attr_destroy(&worker_attr);
 }
 
diff --git a/src/lace14.c b/src/lace14.c
index 88406f1..93265f9 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -946,6 +946,11 @@ lace_start(unsigned int _n_workers, size_t dqsize)
     /* Make sure we start resumed */
     lace_resume();
 
+#if LACE_COUNT_EVENTS
+    // The counters can be reset and reported when all workers have initialized them
+    while (workers_running != n_workers) {}
+#endif
+
     pthread_attr_destroy(&worker_attr);
 }
 
-- 
2.43.0


From e8f3f53965a0fbb77661c29bc9cb6329e91147a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:00 +0000
Subject: [PATCH 14/15] fix: let the task inspection macros compile in C++

std::atomic<T*> does not convert to size_t directly.
---
 src/lace.h   | 6 +++---
 src/lace.sh  | 6 +++---
 src/lace14.h | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lace.h b/src/lace.h
index 19ec73d..48db682 100644
--- a/src/lace.h
+++ b/src/lace.h
@@ -258,17 +258,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(struct _Worker*)(t)->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(struct _Worker*)(t)->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
  */
-#define TASK_RESULT(t) (&t->d[0])
+#define TASK_RESULT(t) (&(t)->d[0])
 
 /**
  * Compute a random number, thread-local (so scalable)
diff --git a/src/lace.sh b/src/lace.sh
index 8c82a4c..e654cfa 100755
--- a/src/lace.sh
+++ b/src/lace.sh
@@ -265,17 +265,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(struct _Worker*)(t)->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(struct _Worker*)(t)->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
  */
-#define TASK_RESULT(t) (&t->d[0])
+#define TASK_RESULT(t) (&(t)->d[0])
 
 /**
  * Compute a random number, thread-local (so scalable)
diff --git a/src/lace14.h b/src/lace14.h
index 53dba42..d6ff369 100644
--- a/src/lace14.h
+++ b/src/lace14.h
@@ -258,17 +258,17 @@ void lace_yield(WorkerP *__lace_worker, Task *__lace_dq_head);
 /**
  * True if the given task is stolen, False otherwise.
  */
-#define TASK_IS_STOLEN(t) ((size_t)t->thief > 1)
+#define TASK_IS_STOLEN(t) ((size_t)(struct _Worker*)(t)->thief > 1)
 
 /**
  * True if the given task is completed, False otherwise.
  */
-#define TASK_IS_COMPLETED(t) ((size_t)t->thief == 2)
+#define TASK_IS_COMPLETED(t) ((size_t)(struct _Worker*)(t)->thief == 2)
 
 /**
  * Retrieves a pointer to the result of the given task.
  */
-#define TASK_RESULT(t) (&t->d[0])
+#define TASK_RESULT(t) (&(t)->d[0])
 
 /**
  * Compute a random number, thread-local (so scalable)
-- 
2.43.0


From 22f13adfbbe1df3b9a1be047ae504c5e8ed5e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 15/15] fix: announce a new frame with a strong
 compare-and-swap

A spurious failure of the weak one sent the worker into lace_yield
although there was no frame to join, where it dereferenced NULL.
---
 src/lace.c   | 4 ++--
 src/lace14.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lace.c b/src/lace.c
index 2d26eae..d6bb8e5 100644
--- a/src/lace.c
+++ b/src/lace.c
@@ -1273,7 +1273,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1323,7 +1323,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
diff --git a/src/lace14.c b/src/lace14.c
index 93265f9..3d07456 100644
--- a/src/lace14.c
+++ b/src/lace14.c
@@ -1273,7 +1273,7 @@ VOID_TASK_1(lace_wrap_together, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_t2)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_t2)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
@@ -1323,7 +1323,7 @@ VOID_TASK_1(lace_wrap_newframe, Task*, task)
     /* now try to be the one who sets it! */
     while (1) {
         Task *expected = 0;
-        if (atomic_compare_exchange_weak(&lace_newframe.t, &expected, &_s)) break;
+        if (atomic_compare_exchange_strong(&lace_newframe.t, &expected, &_s)) break;
         lace_yield(__lace_worker, __lace_dq_head);
     }
 
-- 
2.43.0

