From 5cccd7a459691c8a2bf695d8bda9657bde2945d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 01/28] fix: report worker completion under the waiting
 driver's lock so its wake-up cannot be lost

---
 libman/coordinator.cpp |  4 +++-
 libman/task_thread.cpp | 16 ++--------------
 libman/thread.cpp      | 19 ++++++++++++++++++-
 libman/thread.hpp      |  9 ++++++++-
 4 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..7cc53e5 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -81,8 +81,10 @@ coordinator::get_rid_len_tup(const unsigned thd_id) {
 
 void coordinator::wake4run(const thread_state_t state) {
     pending_threads = nthreads;
-    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++)
+    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++) {
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->wake(state);
+    }
 }
 
 void coordinator::destroy_threads() {
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..0fad62c 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,26 +99,14 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    report_complete();
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
-    (*parent_pending_threads)--;
-    set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    report_complete();
 }
 
 void task_thread::wait() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..d72f41f 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -36,6 +36,19 @@ void thread::sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
+    report_complete();
+    pthread_mutex_unlock(&mutex);
+}
+
+// The caller holds this thread's own lock. The parent tests the pending count
+// under its lock, so update & signal under it too or the wake-up can be lost
+void thread::report_complete() {
+    int rc;
+    if (parent_mutex) {
+        rc = pthread_mutex_lock(parent_mutex);
+        if (rc) perror("pthread_mutex_lock");
+    }
+
     (*parent_pending_threads)--;
     set_thread_state(WAIT);
 
@@ -43,7 +56,11 @@ void thread::sleep() {
         rc = pthread_cond_signal(parent_cond); // Wake up parent thread
         if (rc) perror("pthread_cond_signal");
     }
-    pthread_mutex_unlock(&mutex);
+
+    if (parent_mutex) {
+        rc = pthread_mutex_unlock(parent_mutex);
+        if (rc) perror("pthread_mutex_unlock");
+    }
 }
 
 void thread::wait() {
diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..c0f24e4 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -101,6 +101,7 @@ protected:
     pthread_mutexattr_t mutex_attr;
 
     pthread_cond_t* parent_cond;
+    pthread_mutex_t* parent_mutex; // Guards the parent's wait, if it has one
     std::atomic<unsigned>* parent_pending_threads;
 
     metaunion meta;
@@ -121,7 +122,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
-        preallocd_data(false) {
+        parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
@@ -146,6 +147,8 @@ protected:
         this->state = state;
     }
 
+    void report_complete();
+
 public:
     typedef std::shared_ptr<thread> ptr;
 
@@ -233,6 +236,10 @@ public:
         parent_cond = cond;
     }
 
+    void set_parent_mutex(pthread_mutex_t* mutex) {
+        parent_mutex = mutex;
+    }
+
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
         parent_pending_threads = ppt;
     }
-- 
2.43.0


From f30793cce1abac61addb802b183d27daf205fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 02/28] fix: join the worker's hardware thread before
 destroying the lock it uses

---
 libman/thread.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index d72f41f..7e982a3 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -171,18 +171,20 @@ const unsigned thread::get_global_data_id(
 }
 
 thread::~thread() {
-    pthread_cond_destroy(&cond);
-    pthread_mutex_destroy(&mutex);
-    pthread_mutexattr_destroy(&mutex_attr);
-
-    if (f)
-        close_file_handle();
 #if VERBOSE
 #ifndef BIND
     printf("Thread %u being destroyed\n", thd_id);
 #endif
 #endif
+    // The hardware thread may still be using the lock until it's joined
     if (thd_id != INVALID_THD_ID)
         join();
+
+    pthread_cond_destroy(&cond);
+    pthread_mutex_destroy(&mutex);
+    pthread_mutexattr_destroy(&mutex_attr);
+
+    if (f)
+        close_file_handle();
 }
 } // End namespace knor
-- 
2.43.0


From cb8b845ea074b957f45cf199ad3df6a64758ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 03/28] fix: wait for the mixture-model M phase before testing
 convergence or starting the next phase

---
 libman/gmm_coordinator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index d4662e4..cc04629 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -279,6 +279,7 @@ base::gmm_t gmm_coordinator::soft_run(double* allocd_data) {
 
         update_clusters();
         wake4run(M);
+        wait4complete();
 
 #if VERBOSE
 #ifndef BIND
-- 
2.43.0


From 9726d3e06adee95a643ef27396cddb67a1e006a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 04/28] fix: measure the first centroid movement of pruned
 k-means against the initial centroids

---
 libauto/min-tri-kmeans.cpp         | 1 +
 libman/kmeans_task_coordinator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..3f03945 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -320,6 +320,7 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 
     if (prune_init) {
+        cls->set_prev_means();
         cls->clear();
     } else {
         cls->set_prev_means();
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..19de4ae 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -133,6 +133,7 @@ void kmeans_task_coordinator::update_clusters(const bool prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
+        cltrs->set_prev_means();
         cltrs->clear();
     } else {
         cltrs->set_prev_means();
-- 
2.43.0


From fd8ee27fb73027563096f8885acb82302caf4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 05/28] fix: draw k-means++ seeds with probability proportional
 to distance instead of always the first uncovered row

---
 libauto/kmeans.cpp                 | 2 +-
 libauto/min-tri-kmeans.cpp         | 2 +-
 libdist/dist_coordinator.cpp       | 2 +-
 libdist/dist_task_coordinator.cpp  | 2 +-
 libman/gmm_coordinator.cpp         | 2 +-
 libman/kmeans_coordinator.cpp      | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 libman/skmeans_coordinator.cpp     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 576d270..20e114b 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -159,7 +159,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 3f03945..39565fc 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -178,7 +178,7 @@ static void kmeanspp_init(const double* matrix,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..a65ad7b 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -175,7 +175,7 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..66c2771 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -158,7 +158,7 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index cc04629..19cfaed 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -128,7 +128,7 @@ void gmm_coordinator::kmeanspp_init() {
 // Sum the per thread cumulative dists
         double cuml_dist = reduction_on_cuml_sum();
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more  needed
             break;
 
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 6598064..b914a8d 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -116,7 +116,7 @@ void kmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 19de4ae..11ea211 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -210,7 +210,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..48beb6f 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -151,7 +151,7 @@ void skmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
-- 
2.43.0


From 7998339844bbe9692225d2b76f75d2d659a1f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 06/28] fix: medoid workers use the configured distance metric

---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 7 ++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..abc3ca6 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        const kbase::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..6b4a1e1 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                const kbase::dist_t dist_metric);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,11 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate, const kbase::dist_t dist_metric) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..8917a56 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -79,7 +79,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
-- 
2.43.0


From 506a9c56cbefe8ea291bafa5b18c185c65b25fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 07/28] fix: report and honour the iteration limit exactly

---
 libauto/kmeans.cpp                 | 3 ++-
 libauto/min-tri-kmeans.cpp         | 3 ++-
 libman/fcm_coordinator.cpp         | 1 +
 libman/kmeans_coordinator.cpp      | 1 +
 libman/kmeans_task_coordinator.cpp | 2 ++
 libman/medoid_coordinator.cpp      | 1 +
 libman/skmeans_coordinator.cpp     | 1 +
 7 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 20e114b..2cda46e 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -397,7 +397,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter++;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         if (iter == 1)
             std::fill(cluster_assignments,
                     (cluster_assignments)+NUM_ROWS,
@@ -451,6 +451,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
         printf("K-means converged in %lu iterations\n", iter);
 #endif
     } else {
+        iter = MAX_ITERS;
 #ifndef BIND
         fprintf(stderr, "[Warning]: K-means failed to converge "
                 "in %lu iterations\n", iter);
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 39565fc..779c5a0 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -512,7 +512,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter = 2;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         // Hold cluster assignment counter
 #ifndef BIND
         printf("E-step Iteration %lu "
@@ -577,6 +577,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         printf("K-means converged in %lu iterations\n", iter);
 #endif
     } else {
+        iter = MAX_ITERS;
 #ifndef BIND
         printf("[Warning]: K-means failed to converge in "
                 "%lu iterations", iter);
diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index f70859c..0cb0c9e 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -209,6 +209,7 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
         printf("Fuzzy C-means converged in %lu iterations\n", iter);
 #endif
     } else {
+        iter = max_iters;
 #ifndef BIND
         printf("[Warning]: Fuzzy C-means failed to converge in %lu"
             " iterations\n", iter);
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index b914a8d..4409456 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -223,6 +223,7 @@ kbase::cluster_t kmeans_coordinator::run(
         printf("K-means converged in %lu iterations\n", iter);
 #endif
     } else {
+        iter = max_iters;
 #ifndef BIND
         printf("[Warning]: K-means failed to converge in %lu"
             " iterations\n", iter);
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 11ea211..f0c7943 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -374,6 +374,7 @@ kbase::cluster_t kmeans_task_coordinator::mb_run(double* allocd_data) {
 
         if (frob_norm < tolerance) {
             converged = true;
+            iter++;
             break;
         }
     }
@@ -514,6 +515,7 @@ kbase::cluster_t kmeans_task_coordinator::run(
         printf("K-means converged in %lu iterations\n", iter);
 #endif
     } else {
+        iter = max_iters;
 #ifndef BIND
         printf("[Warning]: K-means failed to converge in %lu iterations\n",
                 iter);
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 8917a56..851bf86 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -279,6 +279,7 @@ kbase::cluster_t medoid_coordinator::run(
         printf("K-medoids converged in %lu iterations\n", iter);
 #endif
     } else {
+        iter = max_iters;
 #ifndef BIND
         printf("[Warning]: K-medoids failed to converge in %lu"
             " iterations\n", iter);
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 48beb6f..ae90acd 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -261,6 +261,7 @@ kbase::cluster_t skmeans_coordinator::run(
         printf("SKmeans converged in %lu iterations\n", iter);
 #endif
     } else {
+        iter = max_iters;
 #ifndef BIND
         printf("[Warning]: SKmeans failed to converge in %lu"
             " iterations\n", iter);
-- 
2.43.0


From 41ab1c974bd11863f8eaf0680ff4e483fe13f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 08/28] fix: workers take their lock before every phase so they
 never run a half handed-over one

---
 libman/thread.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index c0f24e4..4b01c57 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -66,8 +66,8 @@ void* callback(void* arg) {
 #endif
 
     while (true) { // So we can receive task after task
-        if (t->get_state() == knor::WAIT)
-            t->wait();
+        // Takes the lock, so a phase only starts once it's handed over entirely
+        t->wait();
 
         if (t->get_state() == knor::EXIT) {// No more work to do
             break;
-- 
2.43.0


From 6ea0fe939c30cec40be2afc5bfaa689d3974cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 09/28] fix: compute task positions in 64 bits so tasks past
 2^32 elements start at their own rows

---
 libman/task_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index e471c68..c63ac06 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -107,7 +107,7 @@ template<typename T>
 class task_queue: public data_container<double>, task_queue_interface<double> {
     private:
         unsigned curr_rid; // Last index (local to the task) processed in the Q
-        unsigned ncol;
+        size_t ncol;
     public:
         task_queue() {}
 
-- 
2.43.0


From 29a29fc008fb7fb669498b307451ec9b4e5a3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:28 +0000
Subject: [PATCH 10/28] fix: release the tasks handed to workers

---
 libman/kmeans_task_thread.cpp | 1 +
 libman/task_thread.cpp        | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 4c055b2..d7e32ac 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -112,6 +112,7 @@ void kmeans_task_thread::wake(thread_state_t state) {
             state == thread_state_t::MB_EM) {
         // Threads only sleep if they AND all other threads have no tasks
         tasks->reset(); // NOTE: Only place this is reset
+        delete curr_task; // The last one of the previous phase
         curr_task = tasks->get_task();
         assert(curr_task->get_nrow() <= tasks->get_nrow());
 
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 0fad62c..32dabd1 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -40,6 +40,7 @@ task_thread::task_thread(const int node_id, const unsigned thd_id,
 
                 ur_distribution =
                     std::uniform_real_distribution<double>(0.0, 1.0);
+                curr_task = NULL;
                 // Init task queue
                 tasks = new task_queue();
 
@@ -128,6 +129,7 @@ const unsigned task_thread::get_global_data_id(const unsigned row_id) const {
 }
 
 task_thread::~task_thread() {
+  delete curr_task;
   delete tasks;
 }
 } } // End namespace knor, prune
-- 
2.43.0


From 2831cae9e4558465c99095f424e51d9bd8d857e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:28 +0000
Subject: [PATCH 11/28] fix: never free the rows a caller handed in, nor rows
 never allocated

---
 libman/thread.cpp | 3 ++-
 libman/thread.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index 7e982a3..e7565a4 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -92,7 +92,7 @@ void thread::wake(thread_state_t state) {
 
 
 void thread::destroy_numa_mem() {
-    if (!preallocd_data) {
+    if (!preallocd_data && local_data) {
 #ifdef USE_NUMA
     numa_free(local_data, get_data_size());
 #else
@@ -148,6 +148,7 @@ void thread::set_local_data_ptr(double* data, bool offset) {
         local_data = &(data[start_rid*ncol]); // Grab your offset
     else
         local_data = data;
+    preallocd_data = true; // The caller's to free, even if we have a file
 }
 
 void thread::bind2node_id() {
diff --git a/libman/thread.hpp b/libman/thread.hpp
index 4b01c57..00da03d 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -121,7 +121,8 @@ protected:
             const std::string fn="",
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
-        start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
+        start_rid(start_rid), local_data(NULL),
+        local_clusters(nullptr), dist_metric(dist_metric),
         parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
-- 
2.43.0


From 6a243e050e5ef05877d8385b4fd02f6aab7c88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 12/28] fix: x-means inserted into one map from several threads
 when a child cluster was empty

---
 libman/xmeans_coordinator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..7ed8f9f 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -168,6 +168,13 @@ void xmeans_coordinator::compute_bic_scores(
     // Creates structures to hold cluster membership
     accumulate(cluster_assignments, memb_cltrs);
 
+    // A child without members needs an entry too: the parallel loops that use
+    //  the map must not insert into it
+    for (size_t idx = 0; idx < bic_scores.size(); idx++) {
+        memb_cltrs[bic_scores[idx].lid];
+        memb_cltrs[bic_scores[idx].rid];
+    }
+
     // Computes the bic scores for each parent, child combo
 #ifdef _OPENMP
 #pragma omp parallel for shared (bic_scores) schedule (dynamic)
-- 
2.43.0


From 14da1b46bdb3b3d9300efea385e11a65989cb5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 13/28] fix: every thread computed and wrote the whole pairwise
 distance matrix

---
 libkcommon/dist_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index 6d3ab48..64b93c9 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -124,7 +124,7 @@ void dist_matrix::compute_dist(knor::base::prune_clusters::ptr cls,
 void dist_matrix::compute_pairwise_dist(double* data,
         const size_t ncol, const knor::base::dist_t metric) {
 #ifdef _OPENMP
-#pragma omp parallel
+#pragma omp parallel for
 #endif
     for (size_t i = 0; i < rows; i++) {
         for (size_t j = i+1; j < rows+1; j++) {
-- 
2.43.0


From b7d8624080b8a27f7b8326a54eb4bdcb7e615751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 14/28] fix: spherical_projection normalised the first row for
 every row, from all threads at once

---
 libkcommon/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d0d26ed..7b93c66 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -60,9 +60,9 @@ void spherical_projection(double* data, const size_t nrow,
     for (unsigned row = 0; row < nrow; row++) {
         double norm2 = 0;
         for (unsigned col = 0; col < ncol; col++)
-            norm2 += (data[row]*data[row]);
+            norm2 += (data[row*ncol+col]*data[row*ncol+col]);
         for (unsigned col = 0; col < ncol; col++)
-            data[col] = data[col]/std::sqrt(norm2);
+            data[row*ncol+col] = data[row*ncol+col]/std::sqrt(norm2);
     }
 }
 
-- 
2.43.0


From 00b3ddf295882cf68320c4e3878edd0d687d3a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 15/28] fix: a row that coincides with a centre got the
 smallest fuzzy membership in its own cluster instead of the largest

---
 libman/fcm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..538d250 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -50,7 +50,9 @@ void fcm::Estep() {
                 um->set(cid, true_rid,
                         std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
             } else {
-                um->set(cid, true_rid, 2.2E-16);
+                // The row is the center: as close as can be, not as far
+                um->set(cid, true_rid,
+                        std::pow((1.0 / 2.2E-16), (1.0 / (fuzzindex-1))));
             }
         }
     }
-- 
2.43.0


From 3eb6c6afeee41178b49cf46d594bbc789cd2a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:27 +0000
Subject: [PATCH 16/28] fix: in a build without console output the processes
 that are not the root skipped whole statements (libdist did not compile with
 BIND)

---
 libdist/dist_coordinator.cpp      | 15 ++++++++-------
 libdist/dist_task_coordinator.cpp | 17 +++++++++--------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index a65ad7b..f991d5c 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -199,8 +199,8 @@ void dist_coordinator::kmeanspp_init() {
             cuml_dist -= g_dist_v[row];
             if (cuml_dist <= 0) {
 #if VERBOSE
-                if (mpi_rank == 0)
 #ifndef BIND
+                if (mpi_rank == 0)
                     printf("Choosing %lu as center k = %u\n", row, clust_idx);
 #endif
 #endif
@@ -231,8 +231,8 @@ void dist_coordinator::kmeanspp_init() {
     }
 #endif
     gettimeofday(&end, NULL);
-    if (mpi_rank == 0)
 #ifndef BIND
+    if (mpi_rank == 0)
         printf("Initialization time: %.6f sec\n",
                 kbase::time_diff(start, end));
 #endif
@@ -317,8 +317,8 @@ void dist_coordinator::run(kbase::cluster_t& ret,
             clear_cluster_assignments();
 
         // Init iteration
-        if (mpi_rank == root)
 #ifndef BIND
+        if (mpi_rank == root)
             printf("Running iteration %lu ...\n", iters);
 #endif
 
@@ -359,9 +359,10 @@ void dist_coordinator::run(kbase::cluster_t& ret,
 
         if (nchanged == 0 || perc_changed <= tolerance) {
             converged = true;
-            if (mpi_rank == root)
+            iters++;
 #ifndef BIND
-                printf("Algorithm converged in %lu iterations!\n", (++iters));
+            if (mpi_rank == root)
+                printf("Algorithm converged in %lu iterations!\n", iters);
 #endif
             break;
         }
@@ -370,14 +371,14 @@ void dist_coordinator::run(kbase::cluster_t& ret,
         iters++;
     }
 
-    if (!converged && mpi_rank == root)
 #ifndef BIND
+    if (!converged && mpi_rank == root)
         printf("Algorithm failed to converge in %lu iterations\n", iters);
 #endif
 
     gettimeofday(&end, NULL);
-    if (mpi_rank == root)
 #ifndef BIND
+    if (mpi_rank == root)
         printf("\nAlgorithmic time taken = %.5f sec\n",
                 kbase::time_diff(start, end));
 #endif
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 66c2771..9c5ffec 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -138,8 +138,8 @@ void dist_task_coordinator::kmeanspp_init() {
     cltrs->set_mean(&buff[0]);
 
 #if VERBOSE
-    if (mpi_rank == 0)
 #ifndef BIND
+    if (mpi_rank == 0)
         printf("Choosing %u as center k = 0\n", selected_idx);
 #endif
 #endif
@@ -182,8 +182,8 @@ void dist_task_coordinator::kmeanspp_init() {
             cuml_dist -= g_dist_v[row];
             if (cuml_dist <= 0) {
 #if VERBOSE
-                if (mpi_rank == 0)
 #ifndef BIND
+                if (mpi_rank == 0)
                     printf("Choosing r: %lu  as center k = %u\n",
                             row, clust_idx);
 #endif
@@ -216,8 +216,8 @@ void dist_task_coordinator::kmeanspp_init() {
     }
 #endif
     gettimeofday(&end, NULL);
-    if (mpi_rank == 0)
 #ifndef BIND
+    if (mpi_rank == 0)
         printf("Initialization time: %.6f sec\n",
             kbase::time_diff(start, end));
 #endif
@@ -303,8 +303,8 @@ void dist_task_coordinator::run(kbase::cluster_t& ret,
             set_prune_init(false);
 
         // Init iteration
-        if (mpi_rank == root)
 #ifndef BIND
+        if (mpi_rank == root)
             printf("Running iteration %lu ...\n", iters);
 #endif
 
@@ -382,23 +382,24 @@ void dist_task_coordinator::run(kbase::cluster_t& ret,
 
         if (nchanged == 0 || perc_changed <= tolerance) {
             converged = true;
-            if (mpi_rank == root)
+            iters++;
 #ifndef BIND
-                printf("Algorithm converged in %lu iterations!\n", (++iters));
+            if (mpi_rank == root)
+                printf("Algorithm converged in %lu iterations!\n", iters);
 #endif
             break;
         }
         iters++;
     }
 
-    if (!converged && mpi_rank == root)
 #ifndef BIND
+    if (!converged && mpi_rank == root)
         printf("Algorithm failed to converge in %lu iterations\n", iters);
 #endif
 
     gettimeofday(&end, NULL);
-    if (mpi_rank == root)
 #ifndef BIND
+    if (mpi_rank == root)
         printf("\nAlgorithmic time taken = %.6f sec\n",
                 kbase::time_diff(start, end));
 #endif
-- 
2.43.0


From 77f682e29820edf7ed4edc146362ffca65142aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:00 +0000
Subject: [PATCH 17/28] fix: the mixture workers wrote and read the shared
 responsibilities under their local row numbers

---
 libman/gmm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libman/gmm.cpp b/libman/gmm.cpp
index d0755a0..743e662 100644
--- a/libman/gmm.cpp
+++ b/libman/gmm.cpp
@@ -84,12 +84,13 @@ void gmm::Estep() {
 
             auto tmp = gaussian_density * Pk[cid];
             Px[true_row_id] += tmp;
-            P_nk->set(row, cid, tmp);
+            P_nk->set(true_row_id, cid, tmp);
         }
 
         // Finish P_nk
         for (unsigned cid = 0; cid < k; cid++) {
-            P_nk->set(row, cid, P_nk->get(row, cid)/Px[true_row_id]);
+            P_nk->set(true_row_id, cid,
+                    P_nk->get(true_row_id, cid)/Px[true_row_id]);
         }
 
         // L is Per thread
-- 
2.43.0


From bd298cdabf8699732ccea09d82ca48c3a765e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 18/28] fix: an empty half of a hierarchical split was recorded
 as a cluster of the result (assertion, or another cluster's centre
 overwritten)

---
 libman/hclust_coordinator.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..5d96262 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -211,10 +211,11 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[zeroid] < min_clust_size
                 || at_cluster_cap()) {
             deactivate(zeroid); // So we no longer process this
-            // Record this as an output
-            final_centroids[zeroid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(0),
-                    hcltrs[id]->get_mean_rawptr(0) + ncol);
+            // Record this as an output, unless no row is in it
+            if (cluster_assignment_counts[zeroid] > 0)
+                final_centroids[zeroid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(0),
+                        hcltrs[id]->get_mean_rawptr(0) + ncol);
             // Don't split
             l0_complete = l1_complete = true;
         }
@@ -222,9 +223,10 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[oneid] < min_clust_size
                 || at_cluster_cap()) {
             deactivate(oneid);
-            final_centroids[oneid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(1),
-                    hcltrs[id]->get_mean_rawptr(1) + ncol);
+            if (cluster_assignment_counts[oneid] > 0)
+                final_centroids[oneid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(1),
+                        hcltrs[id]->get_mean_rawptr(1) + ncol);
             // Don't split
             r0_complete = r1_complete = true;
         }
@@ -411,12 +413,15 @@ void hclust_coordinator::complete_final_centroids() {
     auto itr = hcltrs.get_iterator();
     while (itr.has_next()) {
         auto const& c = itr.next().second;
-        final_centroids[c->get_zeroid()] =
-            std::vector<double>(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(0) + ncol);
-        final_centroids[c->get_oneid()] =
-            std::vector<double>(c->get_mean_rawptr(1),
-                    c->get_mean_rawptr(1) + ncol);
+        // A half without rows is not a cluster of the result
+        if (cluster_assignment_counts[c->get_zeroid()] > 0)
+            final_centroids[c->get_zeroid()] =
+                std::vector<double>(c->get_mean_rawptr(0),
+                        c->get_mean_rawptr(0) + ncol);
+        if (cluster_assignment_counts[c->get_oneid()] > 0)
+            final_centroids[c->get_oneid()] =
+                std::vector<double>(c->get_mean_rawptr(1),
+                        c->get_mean_rawptr(1) + ncol);
     }
 }
 
-- 
2.43.0


From def4ff14088403c2a98c96bde249bd72e5eb2995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 19/28] fix: a smallest cluster size below two let a one-row
 cluster be split, which aborts

---
 libman/hclust_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 5d96262..78144c4 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -37,7 +37,8 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
         const unsigned min_clust_size) :
     coordinator(fn, nrow, ncol, (base::get_hclust_floor(k)/2), max_iters,
             nnodes, nthreads, centers, it, tolerance, dt),
-    min_clust_size(min_clust_size), curr_nclust(0) {
+    // A cluster of one row cannot be split
+    min_clust_size(std::max(min_clust_size, 2U)), curr_nclust(0) {
 
         ui_distribution = std::uniform_int_distribution<unsigned>(0, nrow-1);
 
-- 
2.43.0


From 687a29bcc9f7f6dce7bf0843a9658cad36a7ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 20/28] fix: the adjoint did not alternate the signs of its
 cofactors

---
 libkcommon/linalg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..7a9b776 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -102,7 +102,6 @@ namespace knor { namespace base {
 
             // temp is used to store cofactors of A[][]
             std::vector<double> temp(N*N);
-            double sign = 1;
 
             for (size_t i=0; i<N; i++) {
                 for (size_t j=0; j<N; j++) {
@@ -111,6 +110,8 @@ namespace knor { namespace base {
 
                     // sign of adj[j][i] positive if sum of row
                     // and column indexes is even.
+                    double sign = ((i+j) % 2 == 0) ? 1 : -1;
+
                     // Interchanging rows and columns to get the
                     // transpose of the cofactor matrix
                     adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
-- 
2.43.0


From 971451ddd0abab5a9e6fa3a7857ab99eafde439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 21/28] fix: standardising a vector summed it in integers and
 so subtracted a truncated mean

---
 libkcommon/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 7a9b776..9c6345d 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -196,7 +196,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
-- 
2.43.0


From 392cf478926d74e5b3c1f358207dfc8d9178ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 22/28] fix: raising a vector to a power left a result that
 already had room unchanged

---
 libkcommon/linalg.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 9c6345d..f93a58c 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -230,6 +230,9 @@ namespace knor { namespace base {
             if (!res.size()) {
                 for (double el : v)
                     res.push_back(std::pow(el, exp));
+            } else {
+                for (size_t i = 0; i < v.size(); i++)
+                    res[i] = std::pow(v[i], exp);
             }
         }
     };
-- 
2.43.0


From 8938525bc5f8803f7ca335524c614e0201d8a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 23/28] fix: the position of the largest entry was wrong when
 no entry is positive

---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From 42096a3364b4eace92860273a0862335a6f8d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:36 +0000
Subject: [PATCH 24/28] fix: hierarchical clustering made more clusters than
 its maximum (rejected splits, the reused id 0 and the other half were
 miscounted), beyond its tables

---
 libman/gmeans_coordinator.cpp |  5 ++---
 libman/hclust_coordinator.cpp | 11 ++++++-----
 libman/hclust_coordinator.hpp |  5 ++++-
 libman/xmeans_coordinator.cpp |  1 +
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 1cfc747..7e72cd9 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -50,8 +50,7 @@ void gmeans_coordinator::deactivate(const unsigned id) {
 
 void gmeans_coordinator::activate(const unsigned id) {
     cltr_active_vec->check_set(id, true);
-    if (id > 0)
-        curr_nclust++;
+    curr_nclust++;
 }
 
 void gmeans_coordinator::build_thread_state() {
@@ -151,7 +150,7 @@ void gmeans_coordinator::partition_decision() {
             // We can reuse these children ids
             ider->reclaim_id(lid);
             ider->reclaim_id(rid);
-            curr_nclust -= 2;
+            curr_nclust--; // One cluster in place of two
 
             final_centroids[pid] = std::vector<double>(
                     cltrs->get_mean_rawptr(pid),
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 78144c4..2fbe81e 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -46,7 +46,7 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
         hcltrs.set_capacity(max_nodes);
 
         cltr_active_vec = base::thd_safe_bool_vector::create(max_nodes, false);
-        activate(0);
+        cltr_active_vec->set(0, true); // Counted once it is split
 
         if (centers) {
             // There must be at least one
@@ -221,8 +221,9 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
             l0_complete = l1_complete = true;
         }
 
+        // NOTE: A split of zeroid makes one more cluster
         if (cluster_assignment_counts[oneid] < min_clust_size
-                || at_cluster_cap()) {
+                || at_cluster_cap(l0_complete ? 0 : 1)) {
             deactivate(oneid);
             if (cluster_assignment_counts[oneid] > 0)
                 final_centroids[oneid] = std::vector<double>(
@@ -282,6 +283,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[zeroid]->set_mean(get_thd_data(cp.l1), 1);
         activate(zero_child_ids.first);
         activate(zero_child_ids.second);
+        curr_nclust--; // Its halves replace it
     }
 
     if (cp.r_splittable()) {
@@ -292,6 +294,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[oneid]->set_mean(get_thd_data(cp.r1), 1);
         activate(one_child_ids.first);
         activate(one_child_ids.second);
+        curr_nclust--;
     }
 }
 
@@ -304,7 +307,6 @@ void hclust_coordinator::init_splits() {
         hcltrs.erase(id); // Delete
         deactivate(id);
         ider->reclaim_id(id);
-        curr_nclust--;
     }
 
     // Update partition ID
@@ -326,8 +328,7 @@ void hclust_coordinator::deactivate(const unsigned id) {
 
 void hclust_coordinator::activate(const unsigned id) {
     cltr_active_vec->set(id, true);
-    if (id > 0)
-        curr_nclust++;
+    curr_nclust++;
 }
 
 const bool hclust_coordinator::is_active(const unsigned id) const {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 2af46fe..b72380e 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -143,7 +143,10 @@ class hclust_coordinator : public coordinator {
         virtual const bool steady_state() const;
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
-        virtual bool at_cluster_cap() { return curr_nclust > k*2; }
+        // No more clusters can be made, `pending` of them already planned
+        virtual bool at_cluster_cap(const size_t pending=0) {
+            return curr_nclust + pending >= k*2;
+        }
         void verify_consistency();
 };
 }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 7ed8f9f..ade7b3f 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -233,6 +233,7 @@ void xmeans_coordinator::partition_decision() {
             {
                 ider->reclaim_id(score.lid);
                 ider->reclaim_id(score.rid);
+                curr_nclust--; // One cluster in place of two
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
                         cltrs->get_mean_rawptr(score.pid) + ncol);
-- 
2.43.0


From 4fa5171641b392032f6198dd126cc6461ee89fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:02 +0000
Subject: [PATCH 25/28] fix: vectors of different lengths are not equal

---
 libkcommon/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e979b2b..bfe020a 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -57,7 +57,8 @@ T get_max_hnodes(const T v) {
 // Vector equal function
 template <typename T>
 bool v_eq(const T& lhs, const T& rhs) {
-    return std::equal(lhs.begin(), lhs.end(), rhs.begin());
+    return lhs.size() == rhs.size() &&
+        std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <typename T>
-- 
2.43.0


From dc3206c75d69206a6726bf65abddc108f51f2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:02 +0000
Subject: [PATCH 26/28] fix: compare arrays up to and including the last
 element

---
 libkcommon/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index bfe020a..9bdca42 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -71,7 +71,7 @@ const bool v_eq_const(const std::vector<T>& v, const T var) {
 
 template <typename T>
 bool eq_all(const T* v1, const T* v2, const unsigned len) {
-    return (std::equal(&v1[0], &(v1[len-1]), &v2[0]));
+    return (std::equal(&v1[0], &(v1[len]), &v2[0]));
 }
 
 template <typename T>
-- 
2.43.0


From 83b8e70697dfa3b8d08fbc769cd1798e0ea1d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:02 +0000
Subject: [PATCH 27/28] fix: report the responsibility of every component, not
 only the first nrow values

---
 libkcommon/types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index ad2e52e..b66ee2d 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -189,8 +189,8 @@ gmm_t::gmm_t(const size_t nrow, const size_t ncol, const size_t iters,
             cov_mats.push_back(v);
         }
 
-        resp_mat.resize(nrow);
-        std::copy(&(_resp_mat[0]), &(_resp_mat[nrow]), resp_mat.begin());
+        resp_mat.resize(nrow*k);
+        std::copy(&(_resp_mat[0]), &(_resp_mat[nrow*k]), resp_mat.begin());
 
         gaussian_prob.resize(k);
         std::copy(&(_gaussian_prob[0]), &(_gaussian_prob[k]),
-- 
2.43.0


From 50954c57a3930e72f5b35bef784f1894f517cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:02 +0000
Subject: [PATCH 28/28] fix: mixtures with different numbers of components are
 not equal

---
 libkcommon/types.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index b66ee2d..68f7f3a 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -199,6 +199,9 @@ gmm_t::gmm_t(const size_t nrow, const size_t ncol, const size_t iters,
 
 bool gmm_t::operator==(const gmm_t& other) {
 
+    if (cov_mats.size() != other.cov_mats.size())
+        return false;
+
     for (size_t i = 0; i < cov_mats.size(); i++)
         if (!v_eq(cov_mats[i], other.cov_mats[i]))
             return false;
-- 
2.43.0

