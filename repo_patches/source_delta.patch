From 1c13f5bfd28310b9575c331166fc833a356a8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 01/41] fix: refuse CPU ids outside the node in LeWI mask
 operations

Negative ids (and, for lend_cpu_mask and check_cpu_availability, ids beyond
the last CPU) indexed the shared CPU table out of bounds.
---
 src/LB_comm/shmem_cpuinfo.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..a74daa4 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -668,7 +668,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error = DLB_SUCCESS;
     //DLB_DEBUG( cpu_set_t freed_cpus; )
@@ -720,7 +720,7 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
     shmem_lock(shm_handler);
     {
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
             lend_cpu(pid, cpuid, tasks);
 
@@ -865,7 +865,7 @@ int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     //DLB_DEBUG( cpu_set_t recovered_cpus; )
@@ -1181,7 +1181,7 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
 int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1534,7 +1534,7 @@ static int borrow_cpus_in_cpu_set_t(pid_t pid,
 
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1707,7 +1707,7 @@ int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
 
 int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -2110,6 +2110,8 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-- 
2.43.0


From 836f29babb003cb2d4fb3fbe9a28d8e74eed310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 02/41] fix: do not schedule a disable task for an idle CPU of
 a reclaimed core

---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index a74daa4..12d6adf 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -891,7 +891,8 @@ int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restr
                     cpuid_in_core = mu_get_next_cpu(core_mask->set, cpuid_in_core)) {
                 if (cpuid_in_core != cpuid) {
                     const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid_in_core];
-                    if (cpuinfo->guest != pid) {
+                    if (cpuinfo->guest != pid
+                            && cpuinfo->guest != NOBODY) {
                         array_cpuinfo_task_t_push(
                                 tasks,
                                 (const cpuinfo_task_t) {
-- 
2.43.0


From bc968e0e8300f6354a256c9cf9aca3e4435fc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 03/41] fix: check_cpu_availability keeps borrowed cores
 exclusive and indexed

An idle CPU was handed out without checking the rest of its core nor adding it
to the occupied cores, so a later reclaim_all or return_all skipped it.
---
 src/LB_comm/shmem_cpuinfo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 12d6adf..d7de1be 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2127,9 +2127,12 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
         /* Assign new guest if the CPU is empty */
         shmem_lock(shm_handler);
         {
-            if (cpuinfo->guest == NOBODY) {
+            if (cpuinfo->guest == NOBODY
+                    && (cpuinfo->owner == pid || cpuinfo->state == CPU_LENT)
+                    && core_is_eligible(pid, cpuid)) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(cpuinfo->owner, cpuid);
                 error = DLB_SUCCESS;
             }
         }
-- 
2.43.0


From 909190b341bfbda9335c0baf399287ca063e988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 04/41] fix: index a stolen CPU that is still in use as
 occupied

Without it, reclaiming all CPUs or a mask skipped the stolen CPU.
---
 src/LB_comm/shmem_cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index d7de1be..2b773d6 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1965,8 +1965,8 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                 if (cpuinfo->guest == NOBODY) {
                     cpuinfo->guest = pid;
                     CPU_CLR(cpuid, &shdata->free_cpus);
-                    CPU_CLR(cpuid, &shdata->occupied_cores);
                 }
+                update_occupied_cores(pid, cpuid);
                 if (tasks) {
                     if (cpuinfo->guest != pid) {
                         array_cpuinfo_task_t_push(
-- 
2.43.0


From e95c791fe73b06578534dad0b1b98a6555819853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 05/41] fix: return_cpu_mask reports success if any CPU was
 returned

---
 src/LB_comm/shmem_cpuinfo.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 2b773d6..e753a57 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1736,7 +1736,19 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
                 cpuid >= 0;
                 cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
             int local_error = return_cpu(pid, cpuid, tasks);
-            error = (error < 0) ? error : local_error;
+            switch(local_error) {
+                case DLB_ERR_REQST:
+                    // max priority, always overwrite
+                    error = DLB_ERR_REQST;
+                    break;
+                case DLB_SUCCESS:
+                    // medium priority, only update if error is in lowest priority
+                    error = (error == DLB_NOUPDT) ? DLB_SUCCESS : error;
+                    break;
+                case DLB_NOUPDT:
+                    // lowest priority, default value
+                    break;
+            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From ad24636b8c5c6880c9d2c88c0406e29c0e7f9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:41 +0000
Subject: [PATCH 06/41] fix: acquire each core once per request in SMT mode

A core with an idle CPU and a guested CPU was acquired twice, duplicating its
reclaim tasks, counting it twice against the number of CPUs requested, and
possibly overflowing the tasks array.
---
 src/LB_comm/shmem_cpuinfo.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e753a57..58786b7 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1136,16 +1136,17 @@ static int acquire_core(pid_t pid, cpuid_t core_id,
 
 static int acquire_cpus_in_array_cpuid_t(pid_t pid,
         const array_cpuid_t *restrict array_cpuid,
-        int *restrict ncpus, array_cpuinfo_task_t *restrict tasks) {
+        int *restrict ncpus, cpu_set_t *restrict visited_cores,
+        array_cpuinfo_task_t *restrict tasks) {
 
     int error = DLB_NOUPDT;
     int _ncpus = ncpus != NULL ? *ncpus : INT_MAX;
     const bool hw_has_smt = shdata->flags.hw_has_smt;
 
     /* Acquire all CPUs in core if possible
-     * (there is a high chance that consecutive CPUs belong to the same core,
-     * try to skip those ones) */
-    int prev_core_id = -1;
+     * (each core is acquired only once, even if its CPUs are not consecutive
+     * or if it was already visited in a previous array, otherwise the CPUs
+     * still guested by other processes would be reclaimed more than once) */
     for (unsigned int i = 0;
             _ncpus > 0 && i < array_cpuid->count;
             ++i) {
@@ -1155,14 +1156,14 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
         if (hw_has_smt) {
             cpuid_t core_id = shdata->node_info[cpuid].core_id;
-            if (prev_core_id != core_id) {
+            if (!CPU_ISSET(core_id, visited_cores)) {
                 unsigned int num_acquired;
                 local_error = acquire_core(pid, core_id, tasks, &num_acquired);
                 if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
                     _ncpus -= num_acquired;
                     if (error != DLB_NOTED) error = local_error;
                 }
-                prev_core_id = core_id;
+                CPU_SET(core_id, visited_cores);
             }
         } else {
             local_error = acquire_cpu(pid, cpuid, tasks);
@@ -1205,10 +1206,14 @@ int shmem_cpuinfo__acquire_from_cpu_subset(
         const array_cpuid_t *restrict array_cpuid,
         array_cpuinfo_task_t *restrict tasks) {
 
+    cpu_set_t visited_cores;
+    CPU_ZERO(&visited_cores);
+
     int error;
     shmem_lock(shm_handler);
     {
-        error = acquire_cpus_in_array_cpuid_t(pid, array_cpuid, NULL, tasks);
+        error = acquire_cpus_in_array_cpuid_t(pid, array_cpuid, NULL,
+                &visited_cores, tasks);
     }
     shmem_unlock(shm_handler);
     return error;
@@ -1304,15 +1309,20 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
             }
         }
 
+        cpu_set_t visited_cores;
+        CPU_ZERO(&visited_cores);
+
         /* Acquire first owned CPUs that are IDLE */
-        int local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_idle, &ncpus, tasks);
+        int local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_idle, &ncpus,
+                &visited_cores, tasks);
         if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
             /* Update error code if needed */
             if (error != DLB_NOTED) error = local_error;
         }
 
         /* Acquire the rest of owned CPUs */
-        local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_non_idle, &ncpus, tasks);
+        local_error = acquire_cpus_in_array_cpuid_t(pid, &owned_non_idle, &ncpus,
+                &visited_cores, tasks);
         if (local_error == DLB_SUCCESS || local_error == DLB_NOTED) {
             /* Update error code if needed */
             if (error != DLB_NOTED) error = local_error;
-- 
2.43.0


From b2acfeb1a84a25bfef4b679efc2aa4a4def805c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 07/41] fix: do not grant a disabled CPU to a queued request

Only lent CPUs can be guested by a process other than the owner.
---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 58786b7..eb8e6d8 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -221,7 +221,8 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     if (cpuinfo->state == CPU_BUSY) {
         /* If CPU is claimed, ignore requests and assign owner */
         new_guest = cpuinfo->owner;
-    } else if (shdata->flags.queues_enabled) {
+    } else if (cpuinfo->state == CPU_LENT
+            && shdata->flags.queues_enabled) {
         /* Pop first PID in queue that is eligible for this CPU */
         for (pid_t *it = queue_pid_t_front(&cpuinfo->requests);
                 it != NULL && new_guest == NOBODY;
-- 
2.43.0


From 41e1e7239193ead6e24de80d6dcf48f4b5c6f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 08/41] fix: drop the pending request of a process for a CPU it
 becomes the owner of

Otherwise the request survives the deregistration of the process and the CPU
can be assigned to a process that does not exist.
---
 src/LB_comm/shmem_cpuinfo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index eb8e6d8..9208581 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1985,6 +1985,9 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                 // Not owned: Steal CPU
                 cpuinfo->owner = pid;
                 cpuinfo->state = CPU_BUSY;
+                if (shdata->flags.queues_enabled) {
+                    queue_pid_t_remove(&cpuinfo->requests, pid);
+                }
                 if (cpuinfo->guest == NOBODY) {
                     cpuinfo->guest = pid;
                     CPU_CLR(cpuid, &shdata->free_cpus);
-- 
2.43.0


From 371ff1707f48f18fa55b8730fea543f1c25fdd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 09/41] fix: remove the global requests of a dead process when
 cleaning up cpuinfo

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 9208581..7084cf3 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -325,6 +325,11 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    // Remove any previous global request
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From 61aa670d92b0b8ea88c6712e02ac8dd2e2962eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 10/41] fix: drop own requests when max parallelism is already
 exceeded

---
 src/LB_comm/shmem_cpuinfo.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 7084cf3..c4cad66 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1928,6 +1928,24 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
     SMALL_ARRAY(cpuid_t, guested_cpus, node_size);
     shmem_lock(shm_handler);
     {
+        // Remove any request if the process already exceeds the new limit,
+        // otherwise the CPUs lent below could be assigned to itself again
+        if (shdata->flags.queues_enabled) {
+            unsigned int num_cpus = 0;
+            for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
+                const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+                if (cpuinfo->owner == pid || cpuinfo->guest == pid) {
+                    ++num_cpus;
+                }
+            }
+            if (num_cpus > max) {
+                queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
+                for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
+                    queue_pid_t_remove(&shdata->node_info[cpuid].requests, pid);
+                }
+            }
+        }
+
         for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->owner == pid) {
-- 
2.43.0


From 1c2cf307e9266d4ba50833f07eaac9c569c5021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 11/41] fix: refuse the CPU and core ids just past the last one

---
 src/support/mask_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index bed6b9e..2821e89 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -552,7 +552,7 @@ int mu_get_num_cores(void) {
 
 int mu_get_core_id(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return -1;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return -1;
 
     for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
         if (CPU_ISSET_S(cpuid, mu_cpuset_alloc_size,
@@ -566,14 +566,14 @@ int mu_get_core_id(int cpuid) {
 
 const mu_cpuset_t* mu_get_core_mask(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return NULL;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return NULL;
 
     return sys.core_masks_by_cpuid[cpuid];
 }
 
 const mu_cpuset_t* mu_get_core_mask_by_coreid(int core_id) {
 
-    if (core_id < 0 || (unsigned)core_id > sys.num_cores) return NULL;
+    if (core_id < 0 || (unsigned)core_id >= sys.num_cores) return NULL;
 
     return &sys.core_masks_by_coreid[core_id];
 }
-- 
2.43.0


From 41f63644f9decb7d61cfcb53460e572afef84458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 12/41] fix: allocate enough space for the slurm mask

---
 src/support/mask_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 2821e89..bbbc1a5 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1169,8 +1169,9 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
 }
 
 char * mu_parse_to_slurm_format(const cpu_set_t *mask) {
-    char *str = malloc((mu_cpuset_setsize >> 2) + 3);
-    if (str < 0)
+    /* "0x", one hexadecimal digit per 4 CPUs, and '\0' */
+    char *str = malloc(mu_cpuset_alloc_size * 2 + 3);
+    if (str == NULL)
         return NULL;
     unsigned int offset = 2;
     unsigned long long val = 0;
-- 
2.43.0


From e65fb2bce94d2435d0dfad786d1f36deb4e590cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:01 +0000
Subject: [PATCH 13/41] fix: order the CPUs of a partially owned core
 consistently

---
 src/support/mask_utils.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index bbbc1a5..06dbff8 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1239,15 +1239,12 @@ int mu_cmp_cpuids_by_ownership(const void *cpuid1, const void *cpuid2, void *mas
             int first_core = mu_get_core_id(first_cpu);
             int cpu1_core_id = mu_get_core_id(_cpuid1);
             int cpu2_core_id = mu_get_core_id(_cpuid2);
-            if ((cpu1_core_id > first_core
-                        && cpu2_core_id > first_core)
-                    || (cpu1_core_id < first_core
-                        && cpu2_core_id < first_core)) {
+            if ((cpu1_core_id < first_core) == (cpu2_core_id < first_core)) {
                 /* Both CPUs are either before or after the process mask */
                 return cmp_cpuids(_cpuid1, _cpuid2);
             } else {
-                /* Compare with respect to process mask */
-                return cmp_cpuids(first_cpu, _cpuid1);
+                /* The CPU after the start of the process mask goes first */
+                return cpu1_core_id < first_core ? 1 : -1;
             }
         }
     }
@@ -1301,15 +1298,12 @@ int mu_cmp_cpuids_by_affinity(const void *cpuid1, const void *cpuid2, void *affi
         int first_core = mu_get_core_id(first_cpu);
         int cpu1_core_id = mu_get_core_id(_cpuid1);
         int cpu2_core_id = mu_get_core_id(_cpuid2);
-        if ((cpu1_core_id > first_core
-                    && cpu2_core_id > first_core)
-                || (cpu1_core_id < first_core
-                    && cpu2_core_id < first_core)) {
+        if ((cpu1_core_id < first_core) == (cpu2_core_id < first_core)) {
             /* Both CPUs are either before or after the process mask */
             return cmp_cpuids(_cpuid1, _cpuid2);
         } else {
-            /* Compare with respect to process mask */
-            return cmp_cpuids(first_cpu, _cpuid1);
+            /* The CPU after the start of the process mask goes first */
+            return cpu1_core_id < first_core ? 1 : -1;
         }
     }
 
-- 
2.43.0


From 2ea634a41ea573e4e95cd58ff0676ed3db422883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 14/41] fix: accept ranges of a single CPU in masks

---
 src/support/mask_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 06dbff8..6dcf757 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1086,7 +1086,7 @@ void mu_parse_mask( const char *str, cpu_set_t *mask ) {
                 ptr = endptr;
 
                 // Valid range
-                if ( end > start ) {
+                if ( end >= start ) {
                     for ( unsigned long i=start; i<=end && i<mu_cpuset_setsize; i++ ) {
                         CPU_SET( i, mask );
                     }
-- 
2.43.0


From dbcbb4df56dee03d85a801002e631b646c970f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:39 +0000
Subject: [PATCH 15/41] fix: keep the occupied cores index whole when
 deregistering

---
 src/LB_comm/shmem_cpuinfo.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index c4cad66..22fb381 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1861,8 +1861,10 @@ int shmem_cpuinfo__deregister(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
                 }
                 cpuinfo->owner = NOBODY;
 
-                /* It will be consistent as long as one core belongs to one process only */
-                CPU_CLR(cpuid, &shdata->occupied_cores);
+                /* Clear all CPUs in core from the occupied. It will be consistent
+                 * as long as one core belongs to one process only */
+                const cpu_set_t *core_mask = mu_get_core_mask(cpuid)->set;
+                mu_substract(&shdata->occupied_cores, &shdata->occupied_cores, core_mask);
             } else {
                 // Free external CPUs that I might be using
                 if (cpuinfo->guest == pid) {
-- 
2.43.0


From 9726fde9f4cf62766ed3b31ae52bc162d4c864ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:24 +0000
Subject: [PATCH 16/41] fix: release every CPU of a mask before handing them
 out

---
 src/LB_comm/shmem_cpuinfo.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 22fb381..2d89970 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -606,7 +606,7 @@ int shmem_cpuinfo_ext__postfinalize(pid_t pid) {
  * If the process originally owns the CPU:      State => CPU_LENT
  * If the process is currently using the CPU:   Guest => NOBODY
  */
-static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
+static void release_cpu(pid_t pid, int cpuid) {
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
     if (cpuinfo->owner == pid) {
@@ -621,6 +621,11 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
     if (cpuinfo->guest == pid) {
         cpuinfo->guest = NOBODY;
     }
+}
+
+/* Find a new guest for a CPU that may have been released, and update the CPU sets */
+static void assign_released_cpu(int cpuid, array_cpuinfo_task_t *restrict tasks) {
+    cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
     // If the CPU is free, find a new guest
     if (cpuinfo->guest == NOBODY) {
@@ -672,6 +677,11 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
     update_occupied_cores(cpuinfo->owner, cpuinfo->id);
 }
 
+static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
+    release_cpu(pid, cpuid);
+    assign_released_cpu(cpuid, tasks);
+}
+
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
     if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
@@ -725,10 +735,18 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
 
     shmem_lock(shm_handler);
     {
+        // Release all CPUs before looking for new guests. Otherwise, a CPU in mask
+        // could be assigned along with others in its core and then be lent again.
+        for (int cpuid = mu_get_first_cpu(mask);
+                cpuid >= 0 && cpuid < node_size;
+                cpuid = mu_get_next_cpu(mask, cpuid)) {
+            release_cpu(pid, cpuid);
+        }
+
         for (int cpuid = mu_get_first_cpu(mask);
                 cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
-            lend_cpu(pid, cpuid, tasks);
+            assign_released_cpu(cpuid, tasks);
 
             //// Look for Idle CPUs, only in DEBUG or INSTRUMENTATION
             //if (is_idle(cpuid)) {
-- 
2.43.0


From 1a50b5d614ba7cf67c52b3b6e881a4aaec00d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:02 +0000
Subject: [PATCH 17/41] fix: setting the pending mask on a process must not
 free CPUs taken by others

---
 src/LB_comm/shmem_procinfo.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..0352540 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -833,7 +833,14 @@ static int shmem_procinfo__setprocessmask_self(const cpu_set_t *mask, dlb_drom_f
     pinfo_t *process = my_pinfo;
     shmem_lock(shm_handler);
     {
-        if (!process->dirty || CPU_EQUAL(mask, &process->future_process_mask)) {
+        if (process->dirty && CPU_EQUAL(mask, &process->future_process_mask)) {
+            /* The mask is already assigned to this process, the current mask may
+             * still contain CPUs that now belong to other processes */
+            error = shdata->flags.allow_cpu_sharing ? DLB_ERR_NOCOMP : DLB_SUCCESS;
+            if (error == DLB_SUCCESS && free_cpu_mask != NULL) {
+                CPU_ZERO(free_cpu_mask);
+            }
+        } else if (!process->dirty) {
             error = set_new_mask(process, mask, false /* sync */, return_stolen, free_cpu_mask);
         } else {
             error = DLB_ERR_PDIRTY;
-- 
2.43.0


From 877fe0d5b966dcdbe176c95ccd18e5b1f243e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:41 +0000
Subject: [PATCH 18/41] fix: detect a process that is already registered behind
 a free entry

---
 src/LB_comm/shmem_procinfo.c | 50 +++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 0352540..858548f 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -292,11 +292,6 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                 /* This process is already registered */
                 error = DLB_ERR_INIT;
             }
-            if (empty_spot
-                    && ((preinit_pid && preinit_process) || !preinit_pid)) {
-                /* Everything needed is found */
-                break;
-            }
         }
 
         // If it's a new process, initialize structure
@@ -492,38 +487,41 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
     pinfo_t *process = NULL;
     shmem_lock(shm_handler);
     {
+        pinfo_t *empty_spot = NULL;
         int p;
         for (p = 0; p < max_processes; p++) {
             if (shdata->process_info[p].pid == pid) {
                 // PID already registered
                 error = DLB_ERR_INIT;
                 break;
-            } else if (shdata->process_info[p].pid == NOBODY) {
-                process = &shdata->process_info[p];
-                *process = (const pinfo_t){
-                    .pid = pid,
-                    .preregistered = true};
-
-                // Register process mask into the system
-                if (!steal) {
-                    // If no stealing, register as usual
-                    error = register_mask(process, mask);
-                } else {
-                    // Otherwise, steal CPUs if necessary
-                    error = set_new_mask(process, mask, sync, return_stolen, NULL);
-                }
-                if (error) {
-                    // Release shared memory spot
-                    process->pid = NOBODY;
-                    break;
-                }
+            } else if (empty_spot == NULL
+                    && shdata->process_info[p].pid == NOBODY) {
+                empty_spot = &shdata->process_info[p];
+            }
+        }
 
+        if (error == DLB_SUCCESS && empty_spot != NULL) {
+            process = empty_spot;
+            *process = (const pinfo_t){
+                .pid = pid,
+                .preregistered = true};
+
+            // Register process mask into the system
+            if (!steal) {
+                // If no stealing, register as usual
+                error = register_mask(process, mask);
+            } else {
+                // Otherwise, steal CPUs if necessary
+                error = set_new_mask(process, mask, sync, return_stolen, NULL);
+            }
+            if (error) {
+                // Release shared memory spot
+                process->pid = NOBODY;
+            } else {
                 // Set process initial values
                 memcpy(&process->current_process_mask, mask, sizeof(cpu_set_t));
                 memcpy(&process->future_process_mask, mask, sizeof(cpu_set_t));
                 process->dirty = false;
-
-                break;
             }
         }
     }
-- 
2.43.0


From 67bdad792a15526d28380ed30c664454bfb382ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:41 +0000
Subject: [PATCH 19/41] fix: forget stolen CPUs that a process recovers while
 inheriting

---
 src/LB_comm/shmem_procinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 858548f..5e8e7c1 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -336,7 +336,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     error = DLB_ERR_PDIRTY;
                 } else {
                     // Register the new CPUs in a placeholder process
-                    pinfo_t new_process;
+                    pinfo_t new_process = {.pid = pid};
                     cpu_set_t new_cpus;
                     CPU_ZERO(&new_cpus);
                     mu_substract(&new_cpus, process_mask, preinit_mask);
@@ -348,6 +348,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                         process->preregistered = false;
                         memcpy(&process->current_process_mask, process_mask, sizeof(cpu_set_t));
                         memcpy(&process->future_process_mask, process_mask, sizeof(cpu_set_t));
+                        mu_substract(&process->stolen_cpus, &process->stolen_cpus, &new_cpus);
                     } else {
                         error = DLB_ERR_PERM;
                     }
@@ -386,7 +387,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                     error = DLB_ERR_NOMEM;
                 } else {
                     // Register the new CPUs in a placeholder process
-                    pinfo_t new_process;
+                    pinfo_t new_process = {.pid = pid};
                     cpu_set_t new_cpus;
                     CPU_ZERO(&new_cpus);
                     mu_substract(&new_cpus, process_mask, preinit_mask);
-- 
2.43.0


From 7ca5db221da3797e80d6dd1c540e3c983328b7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:41 +0000
Subject: [PATCH 20/41] fix: do not write to process lists of no length

---
 src/LB_comm/shmem_procinfo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 5e8e7c1..2f76454 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -993,14 +993,11 @@ int shmem_procinfo__getpidlist(pid_t *pidlist, int *nelems, int max_len) {
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             pid_t pid = shdata->process_info[p].pid;
             if (pid != NOBODY) {
                 pidlist[(*nelems)++] = pid;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1050,13 +1047,10 @@ void shmem_procinfo__getcpuusage_list(double *usagelist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 usagelist[(*nelems)++] = shdata->process_info[p].cpu_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1068,13 +1062,10 @@ void shmem_procinfo__getcpuavgusage_list(double *avgusagelist, int *nelems, int
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 avgusagelist[(*nelems)++] = shdata->process_info[p].cpu_avg_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1137,13 +1128,10 @@ void shmem_procinfo__getactivecpus_list(pid_t *cpuslist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 cpuslist[(*nelems)++] = shdata->process_info[p].active_cpus;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 13fb250cbfce397fece8fdfc5c99456e80e4e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:17 +0000
Subject: [PATCH 21/41] fix: roll back a failed steal to the processes it took
 the CPUs from

---
 src/LB_comm/shmem_procinfo.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 2f76454..ee777ef 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -35,6 +35,7 @@
 
 #include <sched.h>
 #include <unistd.h>
+#include <stdlib.h>
 #include <string.h>
 #include <pthread.h>
 #include <sys/types.h>
@@ -1375,6 +1376,9 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
     cpu_set_t cpus_left_to_steal;
     memcpy(&cpus_left_to_steal, mask, sizeof(cpu_set_t));
 
+    // CPUs stolen from each process by this call, only needed to roll them back
+    cpu_set_t *stolen_now = dry_run ? NULL : calloc(max_processes, sizeof(cpu_set_t));
+
     // Iterate per process, steal in batch
     int p;
     for (p = 0; p < max_processes; ++p) {
@@ -1391,6 +1395,7 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
                         mu_substract(&victim->future_process_mask,
                                 &victim->current_process_mask, &target_cpus);
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
+                        if (stolen_now) memcpy(&stolen_now[p], &target_cpus, sizeof(cpu_set_t));
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
                                 mu_to_str(mask), victim->pid);
                     }
@@ -1463,26 +1468,29 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         new_owner->dirty = true;
     }
 
-    if (error && !dry_run) {
+    if (error && stolen_now != NULL) {
         // Some CPUs could not be stolen, roll everything back
         for (p = 0; p < max_processes; ++p) {
             pinfo_t *victim = &shdata->process_info[p];
             if (victim != new_owner && victim->pid != NOBODY) {
                 cpu_set_t cpus_to_return;
-                CPU_AND(&cpus_to_return, &victim->stolen_cpus, mask);
+                CPU_AND(&cpus_to_return, &victim->stolen_cpus, &stolen_now[p]);
                 if (CPU_COUNT(&cpus_to_return) > 0) {
-                    // warning: we may return some CPU to a wrong process
-                    // if more than one contains that CPU as stolen
                     CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
                             &cpus_to_return);
                     mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
+                    mu_substract(&stolen_now[p], &stolen_now[p], &cpus_to_return);
                     victim->dirty = !CPU_EQUAL(
                             &victim->current_process_mask, &victim->future_process_mask);
                 }
             }
+            // CPUs stolen from a process that is no longer registered
+            CPU_OR(&shdata->free_mask, &shdata->free_mask, &stolen_now[p]);
         }
     }
 
+    free(stolen_now);
+
     return error;
 }
 
-- 
2.43.0


From ed0cccd8b1a7fd2ad0c8df51bd3247cabc3d2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:37 +0000
Subject: [PATCH 22/41] fix: forget a finalized subprocess handler in the
 calling thread

---
 src/apis/DLB_interface_sp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/apis/DLB_interface_sp.c b/src/apis/DLB_interface_sp.c
index 7e2336b..33e25e4 100644
--- a/src/apis/DLB_interface_sp.c
+++ b/src/apis/DLB_interface_sp.c
@@ -46,6 +46,7 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
     int error = Initialize(spd, get_atomic_spid(), ncpus, mask, dlb_args);
     if (error != DLB_SUCCESS) {
         spd_unregister(spd);
+        spd_enter_dlb(NULL);
         free(spd);
         return NULL;
     }
@@ -56,6 +57,7 @@ int DLB_Finalize_sp(dlb_handler_t handler) {
     spd_enter_dlb(handler);
     int error = Finish(handler);
     spd_unregister(handler);
+    spd_enter_dlb(NULL);
     free(handler);
     return error;
 }
-- 
2.43.0


From c9e36c74f558d636e18c764551b076a612581339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:45 +0000
Subject: [PATCH 23/41] fix: enable a CPU through the add-mask callback when
 there is no other

---
 src/LB_numThreads/numThreads.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_numThreads/numThreads.c b/src/LB_numThreads/numThreads.c
index 2405a27..7fb34db 100644
--- a/src/LB_numThreads/numThreads.c
+++ b/src/LB_numThreads/numThreads.c
@@ -231,7 +231,8 @@ int enable_cpu(const pm_interface_t *pm, int cpuid) {
         cpu_set_t cpu_set;
         CPU_ZERO(&cpu_set);
         CPU_SET(cpuid, &cpu_set);
-        return enable_cpu_set(pm, &cpu_set);
+        return pm->dlb_callback_enable_cpu_set_ptr != NULL ?
+            enable_cpu_set(pm, &cpu_set) : add_mask(pm, &cpu_set);
     }
 
     if (pm->dlb_callback_enable_cpu_ptr == NULL) {
-- 
2.43.0


From 6ea0815e80852196f4cbf88ac309130f2520ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 24/41] fix: notice a process that leaves while a DROM call
 waits for it

---
 src/LB_comm/shmem_procinfo.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index ee777ef..3678d37 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -516,7 +516,9 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
                 // Otherwise, steal CPUs if necessary
                 error = set_new_mask(process, mask, sync, return_stolen, NULL);
             }
-            if (error) {
+            if (error == DLB_ERR_NOPROC) {
+                // Process was unregistered while waiting, the spot is no longer ours
+            } else if (error) {
                 // Release shared memory spot
                 process->pid = NOBODY;
             } else {
@@ -764,6 +766,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
     int error = DLB_SUCCESS;
     bool done = false;
     pinfo_t *process;
+    pid_t process_pid = NOBODY; // the registered pid may be an ancestor of pid
 
     shmem_lock(shm_handler);
     {
@@ -775,6 +778,7 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
         }
 
         if (!error) {
+            process_pid = process->pid;
             if (!process->dirty) {
                 // Get current mask if not dirty
                 memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
@@ -801,7 +805,11 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             // Polling
             shmem_lock(shm_handler);
             {
-                if (!process->dirty) {
+                if (process->pid != process_pid) {
+                    // process no longer valid
+                    error = DLB_ERR_NOPROC;
+                    done = true;
+                } else if (!process->dirty) {
                     memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
                     done = true;
                 }
@@ -888,12 +896,15 @@ int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *mask, dlb_drom_fl
     bool return_stolen = flags & DLB_RETURN_STOLEN;
     int error = DLB_SUCCESS;
     pinfo_t *process;
+    pid_t process_pid = NOBODY; // the registered pid may be an ancestor of pid
     shmem_lock(shm_handler);
     {
         // Find process
         process = get_process(pid);
         if (process == NULL) {
             error = DLB_ERR_NOPROC;
+        } else {
+            process_pid = process->pid;
         }
 
         // Process already dirty
@@ -919,7 +930,7 @@ int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *mask, dlb_drom_fl
             // Poll
             shmem_lock(shm_handler);
             {
-                if (process->pid != pid) {
+                if (process->pid != process_pid) {
                     // process no longer valid
                     error = DLB_ERR_NOPROC;
                     done = true;
@@ -1418,6 +1429,7 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
 
     if (!error && sync && !dry_run) {
         // Relase lock and poll until victims update their masks or timeout
+        pid_t new_owner_pid = new_owner->pid;
         shmem_unlock(shm_handler);
 
         bool done = false;
@@ -1459,6 +1471,11 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
         } while (!done && error == DLB_SUCCESS);
 
         shmem_lock(shm_handler);
+
+        if (new_owner->pid != new_owner_pid) {
+            // The new owner is no longer registered
+            error = DLB_ERR_NOPROC;
+        }
     }
 
     if (!error && !dry_run) {
-- 
2.43.0


From 168eb05d65876934e934833384def2ddf85aa7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:16 +0000
Subject: [PATCH 25/41] fix: classic LeWI decides on one value of the idle CPU
 counter

Other processes update the counter at any time; reading it again between
the decision and the compare-and-swap could create or lose CPUs.
---
 src/LB_comm/comm_lend_light.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..bf10fff 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -130,7 +130,12 @@ int acquireCpus(int current_cpus) {
 //I don't care if there aren't enough cpus
 
     if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
+        int idle = shdata->idleCpus;
+        while(idle > 0
+                && !__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, 0)) {
+            idle = shdata->idleCpus;
+        }
+        if (idle > 0) cpus += idle;
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
@@ -146,23 +151,22 @@ that are assigned
 int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
     int cpus;
-    int aux;
+    //other processes may update the counter at any time, decide on one value
+    int idle=shdata->idleCpus;
 //WARNING//
     //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
-        cpus=min_int(abs(aux), myCpus-defaultCPUS);
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
+    if ((idle < 0) && (myCpus>defaultCPUS) ) {
+        cpus=min_int(abs(idle), myCpus-defaultCPUS);
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle+cpus)) {
             myCpus-=cpus;
         }
 
         //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
-        if(aux>maxResources) { aux=maxResources; }
+    } else if( idle > 0) {
+        cpus=min_int(idle, maxResources);
 
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
-            myCpus+=aux;
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle-cpus)) {
+            myCpus+=cpus;
         }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
-- 
2.43.0


From 2869d14f9a42b4427fa5004d9f68d302e463666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:16 +0000
Subject: [PATCH 26/41] fix: classic LeWI gives back what it holds when
 disabled or finalized

A process that finalized with borrowed or lent CPUs left the shared counter
wrong, greedy mode lost CPUs when disabled, and borrowing a negative number
of CPUs was accepted.
---
 src/LB_policies/lewi.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index e19ea93..0d4cf1b 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -70,6 +70,11 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 }
 
 int lewi_Finalize(subprocess_descriptor_t *spd) {
+    if (myCPUS != default_cpus) {
+        /* Return the CPUs borrowed from others, or take the lent ones */
+        releaseCpus(myCPUS - default_cpus);
+    }
+    myCPUS = default_cpus = 0;
     finalize_comm();
     return DLB_SUCCESS;
 }
@@ -83,7 +88,11 @@ int lewi_EnableDLB(const subprocess_descriptor_t *spd) {
 int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
     if (enabled && !single) {
         verbose(VB_MICROLB, "ResetDLB");
-        acquireCpus(myCPUS);
+        int cpus = acquireCpus(myCPUS);
+        if (cpus > default_cpus) {
+            /* greedy mode may have acquired more CPUs */
+            releaseCpus(cpus - default_cpus);
+        }
         setThreads_Lend_light(&spd->pm, default_cpus);
     }
     enabled = 0;
@@ -157,6 +166,7 @@ int lewi_Borrow(const subprocess_descriptor_t *spd) {
 
 int lewi_BorrowCpus(const subprocess_descriptor_t *spd, int maxResources) {
     int error = DLB_NOUPDT;
+    if (maxResources < 0) return DLB_ERR_PERM;
     if (enabled && !single) {
         int max_resources = max_parallelism > 0 ?
             min_int(maxResources, max_parallelism - myCPUS) : maxResources;
-- 
2.43.0


From a1b39510114fa9587a391f0eff1d45744029c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:26 +0000
Subject: [PATCH 27/41] fix: LeWI async table forgets processes that die or do
 not fit

The entry, the requests and the CPUs of a dead process stayed in the table
and a process without room was counted.
---
 src/LB_comm/shmem_lewi_async.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..4fb7604 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -69,8 +69,30 @@ static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
 
 static void cleanup_shmem(void *shdata_ptr, int pid) {
     lewi_async_shdata_t *shared_data = shdata_ptr;
-    if (shared_data->attached_nprocs > 0) {
-        --shared_data->attached_nprocs;
+    for (unsigned int p = 0; p < shared_data->proc_list_head; ++p) {
+        lewi_process_t *process = &shared_data->processes[p];
+        if (process->pid == pid) {
+
+            /* Remove pending requests */
+            queue_lewi_reqs_remove(&shared_data->requests, pid);
+
+            /* Leave the excess of CPUs to the rest of processes, or take away
+             * the CPUs that the process lent and are not in use */
+            if (process->current_ncpus > process->initial_ncpus) {
+                shared_data->idle_cpus +=
+                    process->current_ncpus - process->initial_ncpus;
+            } else {
+                shared_data->idle_cpus -= min_uint(shared_data->idle_cpus,
+                        process->initial_ncpus - process->current_ncpus);
+            }
+
+            /* Remove process data */
+            *process = (const lewi_process_t) {};
+
+            if (shared_data->attached_nprocs > 0) {
+                --shared_data->attached_nprocs;
+            }
+        }
     }
 }
 
-- 
2.43.0


From 20bc5c81394bce6ed18a1af43f67aec7a18dad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:33 +0000
Subject: [PATCH 28/41] fix: LeWI async finalizes with its own CPUs when it is
 not registered

---
 src/LB_policies/lewi_async.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..c4ea88a 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -104,7 +104,7 @@ int lewi_async_Init(subprocess_descriptor_t *spd) {
 
 int lewi_async_Finalize(subprocess_descriptor_t *spd) {
 
-    unsigned int new_ncpus;
+    unsigned int new_ncpus = spd->lewi_ncpus;
     unsigned int num_requests;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
     shmem_lewi_async__finalize(spd->id, &new_ncpus, requests,
-- 
2.43.0


From 9e56d1bcd5d9cc32f727451ecbe3289b84eef41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:33 +0000
Subject: [PATCH 29/41] fix: LeWI async refuses to borrow a negative number of
 CPUs

---
 src/LB_policies/lewi_async.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index c4ea88a..ca38bfe 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -295,6 +295,8 @@ int lewi_async_Borrow(const subprocess_descriptor_t *spd) {
 }
 
 int lewi_async_BorrowCpus(const subprocess_descriptor_t *spd, int ncpus) {
+    if (ncpus < 0) return DLB_ERR_PERM;
+
     unsigned int new_ncpus;
     int error = shmem_lewi_async__borrow_cpus(spd->id, ncpus, &new_ncpus);
     if (error == DLB_SUCCESS) {
-- 
2.43.0


From 8b7ac7b8d83613be066ee6778191833d2f370384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:33 +0000
Subject: [PATCH 30/41] fix: disabling LeWI async removes pending requests,
 enabling asks for them once

Requests of a process with exactly its own CPUs stayed in the queue after
DLB_Disable, and DLB_Enable requested the saved CPUs twice.
---
 src/LB_comm/shmem_lewi_async.c | 14 +++++++++++---
 src/LB_comm/shmem_lewi_async.h |  2 +-
 src/LB_policies/lewi_async.c   | 29 ++++++++++++++++++-----------
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index 4fb7604..54d09ed 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -135,13 +135,18 @@ size_t shmem_lewi_async__size(void) {
 /*  Queue management                                                             */
 /*********************************************************************************/
 
-void shmem_lewi_async__remove_requests(pid_t pid) {
-    if (unlikely(shm_handler == NULL)) return;
+/* Remove pending requests, return the number of CPUs that were requested */
+unsigned int shmem_lewi_async__remove_requests(pid_t pid) {
+    if (unlikely(shm_handler == NULL)) return 0;
+    unsigned int num_requests;
+
     shmem_lock(shm_handler);
     {
-        queue_lewi_reqs_remove(&shdata->requests, pid);
+        num_requests = queue_lewi_reqs_remove(&shdata->requests, pid);
     }
     shmem_unlock(shm_handler);
+
+    return num_requests;
 }
 
 /* Only for testing purposes */
@@ -217,6 +222,9 @@ void shmem_lewi_async__init(pid_t pid, unsigned int ncpus, const char *shmem_key
                 .current_ncpus = ncpus,
             };
             my_process = process;
+        } else {
+            // No room for this process
+            --shdata->attached_nprocs;
         }
     }
     shmem_unlock(shm_handler);
diff --git a/src/LB_comm/shmem_lewi_async.h b/src/LB_comm/shmem_lewi_async.h
index 804a6b3..5200118 100644
--- a/src/LB_comm/shmem_lewi_async.h
+++ b/src/LB_comm/shmem_lewi_async.h
@@ -28,7 +28,7 @@ int shmem_lewi_async__version(void);
 
 size_t shmem_lewi_async__size(void);
 
-void shmem_lewi_async__remove_requests(pid_t pid);
+unsigned int shmem_lewi_async__remove_requests(pid_t pid);
 
 unsigned int shmem_lewi_async__get_num_requests(pid_t pid);
 
diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index ca38bfe..7ace9f6 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -130,10 +130,13 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 
     /* Restore previously requested CPUs */
     lewi_info_t *lewi_info = spd->lewi_info;
-    if (lewi_info->prev_requested > 0) {
-        error = lewi_async_AcquireCpus(spd, lewi_info->prev_requested);
-        if (error == DLB_SUCCESS || error == DLB_NOTED) {
-            lewi_info->prev_requested = 0;
+    unsigned int prev_requested = lewi_info->prev_requested;
+    if (prev_requested > 0) {
+        /* Saved requests are added in AcquireCpus, do not count them twice */
+        lewi_info->prev_requested = 0;
+        error = lewi_async_AcquireCpus(spd, prev_requested);
+        if (error != DLB_SUCCESS && error != DLB_NOTED) {
+            lewi_info->prev_requested = prev_requested;
         }
     }
 
@@ -143,20 +146,24 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 int lewi_async_Disable(const subprocess_descriptor_t *spd) {
     verbose(VB_MICROLB, "Reset LeWI");
 
+    /* Pending requests need to be removed even if no CPU needs to be moved */
+    unsigned int num_cpus_in_queue = shmem_lewi_async__remove_requests(spd->id);
+
     unsigned int new_ncpus;
     unsigned int num_requests;
-    unsigned int prev_requested;
+    unsigned int prev_requested = 0;
     SMALL_ARRAY(lewi_request_t, requests, node_size);
     int error = shmem_lewi_async__reset(spd->id, &new_ncpus, requests,
             &num_requests, node_size, &prev_requested);
 
-    if (error == DLB_SUCCESS) {
+    /* Save previously requested CPUs to push request again later */
+    prev_requested += num_cpus_in_queue;
+    if (prev_requested > 0 ) {
+        lewi_info_t *lewi_info = spd->lewi_info;
+        lewi_info->prev_requested = prev_requested;
+    }
 
-        /* Save previously requested CPUs to push request again later */
-        if (prev_requested > 0 ) {
-            lewi_info_t *lewi_info = spd->lewi_info;
-            lewi_info->prev_requested = prev_requested;
-        }
+    if (error == DLB_SUCCESS) {
 
         /* Set num_threads = new_ncpus */
         lewi_async_set_num_threads(&spd->pm, new_ncpus);
-- 
2.43.0


From 8c129baf3221baed48d494766e11d5c75843a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 31/41] fix: option values print and read back consistently

A list without items printed the text of an earlier call (verbose format,
debug options, omptool options), the text of a talp summary could overflow its
buffer, and numbers that do not fit an int were truncated.
---
 src/support/types.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/support/types.c b/src/support/types.c
index 961747b..daafc5d 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -79,7 +79,8 @@ int parse_int(const char *str, int *value) {
     char *endptr;
     long val = strtol(str, &endptr, 0);
     if ((val == 0 && endptr == str)
-            || ((val == LONG_MIN || val == LONG_MAX) && errno == ERANGE)) {
+            || ((val == LONG_MIN || val == LONG_MAX) && errno == ERANGE)
+            || val < INT_MIN || val > INT_MAX) {
         debug_warning("Error parsing integer. str: %s, strlen: %lu, val: %ld, "
                 "errno: %d, strptr: %p, endptr: %p", str, strlen(str), val,
                 errno, str, endptr);
@@ -218,6 +219,7 @@ int parse_verbose_fmt(const char *str, verbose_fmt_t *value) {
 
 const char* verbose_fmt_tostr(verbose_fmt_t value) {
     static char str[sizeof(verbose_fmt_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=0; i<verbose_fmt_nelems; ++i) {
@@ -352,6 +354,7 @@ int parse_debug_opts(const char *str, debug_opts_t *value) {
 
 const char* debug_opts_tostr(debug_opts_t value) {
     static char str[sizeof(debug_opts_choices_str)] = "";
+    str[0] = '\0';
     char *p = str;
     int i;
     for (i=0; i<debug_opts_nelems; ++i) {
@@ -505,7 +508,8 @@ const char* talp_summary_tostr(talp_summary_t value) {
         return "all";
     }
 
-    static char str[sizeof(talp_summary_choices_str)] = "";
+    /* large enough for any combination of values, including the deprecated ones */
+    static char str[sizeof("pop-metrics:pop-raw:node:process")] = "";
     char *p = str;
     int i;
     for (i=2; i<talp_summary_nelems; ++i) {
@@ -726,6 +730,11 @@ int parse_omptool_opts(const char *str, omptool_opts_t *value) {
 }
 
 const char* omptool_opts_tostr(omptool_opts_t value) {
+    // particular case
+    if (value == OMPTOOL_OPTS_NONE) {
+        return "none";
+    }
+
     static char str[sizeof(omptool_opts_choices_str)] = "";
     char *p = str;
     int i;
-- 
2.43.0


From 4637ee45649ad2bdcee7d28b7388dc60171d395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 32/41] fix: parsing of option lists

An option list with a lone '=' dereferenced a null pointer, values lost
everything after a second '=', lists separated by tabs or newlines made the
removal of a word read past the end, giving the same file name option in both
DLB_Init and DLB_ARGS read text as a pointer, and reading a large number
overflowed an 8 byte buffer.
---
 src/support/options.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index c3f3da6..c062da3 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -621,7 +621,7 @@ static int set_value(option_type_t type, void *option, const char *str_value) {
 }
 
 static const char * get_value(option_type_t type, const void *option) {
-    static char int_value[8];
+    static char int_value[16];
     switch(type) {
         case OPT_BOOL_T:
             return *(bool*)option ? "yes" : "no";
@@ -673,8 +673,7 @@ static bool values_are_equivalent(option_type_t type, const char *value1, const
         case OPT_STR_T:
             return strcmp(value1, value2) == 0;
         case OPT_PTR_PATH_T:
-            return *(const char**)value1 && *(const char**)value2
-                && strcmp(*(const char**)value1, *(const char**)value2) == 0;
+            return strcmp(value1, value2) == 0;
         case OPT_VB_T:
             return equivalent_verbose_opts(value1, value2);
         case OPT_VBFMT_T:
@@ -762,13 +761,14 @@ static void copy_value(option_type_t type, void *dest, const char *src) {
 /* Parse DLB_ARGS and remove argument if found */
 static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value, size_t arg_max_len) {
     *arg_value = 0;
-    /* Tokenize a copy of dlb_args with " "(blank) delimiter */
+    /* Tokenize a copy of dlb_args with the same delimiters as isspace */
+    static const char delim[] = " \t\n\v\f\r";
     char *progress = dlb_args;
     char *end_space = NULL;
     size_t len = strlen(dlb_args) + 1;
     char *dlb_args_copy = malloc(sizeof(char)*len);
     strcpy(dlb_args_copy, dlb_args);
-    char *token = strtok_r(dlb_args_copy, " ", &end_space);
+    char *token = strtok_r(dlb_args_copy, delim, &end_space);
     while (token) {
         /* Each token is a complete string representing an option */
 
@@ -778,14 +778,14 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
         /* progress pointer must be updated each iteration to skip spaces */
         while(isspace((unsigned char)*progress)) progress++;
 
-        if (strchr(token, '=')) {
+        char *equal = strchr(token, '=');
+        if (equal) {
             /* Option is of the form --argument=value */
-            char *end_equal;
-            char *argument = strtok_r(token, "=", &end_equal);
-            if (strcmp(argument, arg_name) == 0) {
+            *equal = '\0';
+            if (strcmp(token, arg_name) == 0) {
                 /* Obtain value */
-                char *value = strtok_r(NULL, "=", &end_equal);
-                if (value) {
+                char *value = equal + 1;
+                if (*value != '\0') {
                     snprintf(arg_value, arg_max_len, "%s", value);
                 } else {
                     warning("Bad format parsing of DLB_ARGS. Option %s with empty value", token);
@@ -819,7 +819,7 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
         }
 
         /* next token */
-        token = strtok_r(NULL, " ", &end_space);
+        token = strtok_r(NULL, delim, &end_space);
     }
     free(dlb_args_copy);
 }
-- 
2.43.0


From b296e195051232a90f7aafe8b554c79fc1cde06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:52 +0000
Subject: [PATCH 33/41] fix: a process that dies leaves free barrier places
 free

---
 src/LB_comm/shmem_barrier.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..3ed6daf 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -71,7 +71,8 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
-        if (--barrier->participants == 0) {
+        if (barrier->participants > 0
+                && --barrier->participants == 0) {
             *barrier = (const barrier_t){};
         }
     }
-- 
2.43.0


From ec84b7b0ec6f74282d9e8888df3d4e9093dabb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:52 +0000
Subject: [PATCH 34/41] fix: attaching to the default barrier returns the
 number of participants

---
 src/LB_comm/shmem_barrier.c | 4 ++++
 src/LB_comm/shmem_barrier.h | 1 +
 src/LB_core/node_barrier.c  | 4 +++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 3ed6daf..698a813 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -146,6 +146,10 @@ int shmem_barrier__get_max_barriers(void) {
     return max_barriers;
 }
 
+int shmem_barrier__get_num_participants(const barrier_t *barrier) {
+    return barrier != NULL ? (int)barrier->participants : 0;
+}
+
 /* Given a barrier_name, find whether the barrier is registered in the shared
  * memory. Note that this function is not thread-safe */
 barrier_t* shmem_barrier__find(const char *barrier_name) {
diff --git a/src/LB_comm/shmem_barrier.h b/src/LB_comm/shmem_barrier.h
index 476190c..9a58758 100644
--- a/src/LB_comm/shmem_barrier.h
+++ b/src/LB_comm/shmem_barrier.h
@@ -31,6 +31,7 @@ void shmem_barrier__init(const char *shmem_key);
 void shmem_barrier__finalize(const char *shmem_key);
 int  shmem_barrier__get_system_id(void);
 int  shmem_barrier__get_max_barriers(void);
+int  shmem_barrier__get_num_participants(const barrier_t *barrier);
 barrier_t* shmem_barrier__find(const char *barrier_name);
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi);
 int  shmem_barrier__attach(barrier_t *barrier);
diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index df967df..f92ede0 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -283,7 +283,9 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                         barrier_info->default_barrier_name,
                         lewi_barrier);
                 // return number of participants
-                error = barrier_info->default_barrier ? 1 : DLB_ERR_NOMEM;
+                error = barrier_info->default_barrier
+                    ? shmem_barrier__get_num_participants(barrier_info->default_barrier)
+                    : DLB_ERR_NOMEM;
             } else {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
-- 
2.43.0


From 3e01015119771d263d7a33292df95afe419bab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:38 +0000
Subject: [PATCH 35/41] fix: a barrier counts the arrivals of one round only

A process that entered the next round while another one had not yet left
the previous one was taken for the last to arrive: it waited without
lending its CPUs, and the round was counted twice.
---
 src/LB_comm/shmem_barrier.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 698a813..4af51ee 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -408,6 +408,11 @@ void shmem_barrier__barrier(barrier_t *barrier) {
         verbose(VB_BARRIER, "Entering barrier %s%s", barrier->name, last_in ? " (last)" : "");
 
         if (last_in) {
+            /* All participants have arrived. Reset the counter before any of
+             * them can leave, so that it only counts the arrivals of the next
+             * round even if some process still has not left this one. */
+            DLB_ATOMIC_ST(&barrier->count, 0);
+
             // Barrier
             pthread_barrier_wait(&barrier->barrier);
 
@@ -440,17 +445,7 @@ void shmem_barrier__barrier(barrier_t *barrier) {
             }
         }
 
-        unsigned int participants_left = DLB_ATOMIC_SUB_FETCH(&barrier->count, 1);
-        bool last_out = participants_left == 0;
-
-        verbose(VB_BARRIER, "Leaving barrier %s%s", barrier->name, last_out ? " (last)" : "");
-
-        /* WARNING: There may be a race condition with the 'count' value in
-         *          consecutive barriers (A -> B), if one process increases the
-         *          'count' value after entering B, while another process still
-         *          hasn't decreased it in B. Anyway, this is completely harmless
-         *          since it only affects the verbose message.
-         */
+        verbose(VB_BARRIER, "Leaving barrier %s", barrier->name);
     }
     pthread_rwlock_unlock(&barrier->rwlock);
 }
-- 
2.43.0


From f3b34ba38cbf3a9e0bbd7ff63e4b5a3037e33876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:10 +0000
Subject: [PATCH 36/41] fix: a process refused a helper thread leaves the
 shared memory

---
 src/LB_comm/shmem_async.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 467632c..d001e8b 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -219,6 +219,18 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     }
 }
 
+static void detach_shmem(void) {
+    pthread_mutex_lock(&mutex);
+    {
+        if (--subprocesses_attached == 0) {
+            shmem_finalize(shm_handler, NULL /* do not check if empty */);
+            shm_handler = NULL;
+            shdata = NULL;
+        }
+    }
+    pthread_mutex_unlock(&mutex);
+}
+
 int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *process_mask,
         const char *shmem_key) {
     int error = DLB_ERR_UNKNOWN;
@@ -289,6 +301,9 @@ int shmem_async_init(pid_t pid, const pm_interface_t *pm, const cpu_set_t *proce
     if (helper == NULL) {
         error = DLB_ERR_NOMEM;
         warn_error(DLB_ERR_NOMEM);
+
+        /* shmem_async_finalize does not detach processes without helper */
+        detach_shmem();
     }
 
     return error;
@@ -316,15 +331,7 @@ int shmem_async_finalize(pid_t pid) {
         shmem_unlock(shm_handler);
 
         /* Shared memory destruction */
-        pthread_mutex_lock(&mutex);
-        {
-            if (--subprocesses_attached == 0) {
-                shmem_finalize(shm_handler, NULL /* do not check if empty */);
-                shm_handler = NULL;
-                shdata = NULL;
-            }
-        }
-        pthread_mutex_unlock(&mutex);
+        detach_shmem();
     }
 
     return helper ? DLB_SUCCESS : DLB_ERR_NOPROC;
-- 
2.43.0


From 38e596a2ab645ce7d91a6b56f7eda3af097a4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:46 +0000
Subject: [PATCH 37/41] fix: resetting a started region closes it

---
 src/LB_core/DLB_talp.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..e549130 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -291,8 +291,8 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
@@ -303,8 +303,14 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         ._data = monitor->_data,
     };
 
+    /* A started region is also closed */
     monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        monitor_data->flags.started = false;
+        talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From ad4e08fca234327481699b550e2a523c215a804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:46 +0000
Subject: [PATCH 38/41] fix: a region started or stopped by a new thread uses
 the current time

---
 src/LB_core/DLB_talp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index e549130..0a86dbe 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -328,6 +328,9 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
     monitor_data_t *monitor_data = monitor->_data;
 
     if (!monitor_data->flags.started && monitor_data->flags.enabled) {
+        /* Make sure that the current thread has a sample to be updated */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
@@ -335,7 +338,6 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
 
         /* Thread sample was just updated, use timestamp as starting time */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->start_time = thread_sample->last_updated_timestamp;
         monitor->stop_time = 0;
 
@@ -380,11 +382,13 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
     monitor_data_t *monitor_data = monitor->_data;
 
     if (monitor_data->flags.started) {
+        /* Make sure that the current thread has a sample to be updated */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
         /* Stop timer */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->stop_time = thread_sample->last_updated_timestamp;
         monitor->elapsed_time += monitor->stop_time - monitor->start_time;
         ++(monitor->num_measurements);
-- 
2.43.0


From 5048b5f003299a4b9aa06603a20a554cbe280a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:46 +0000
Subject: [PATCH 39/41] fix: a TALP sample is initialized before other threads
 may read it

---
 src/LB_core/DLB_talp.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 0a86dbe..998f7ce 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -748,8 +748,23 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
 
-    /* Otherwise, allocate */
+    /* If a thread is created mid-region, its initial time is that of the
+     * innermost open region, otherwise it is the current time */
     talp_info_t *talp_info = spd->talp_info;
+    int64_t last_updated_timestamp;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (talp_info->open_regions) {
+            const dlb_monitor_t *monitor = talp_info->open_regions->data;
+            last_updated_timestamp = monitor->start_time;
+        } else {
+            last_updated_timestamp = get_time_in_ns();
+        }
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
+
+    /* Otherwise, allocate. The sample must be initialized before releasing the
+     * lock, other threads may aggregate it from then on */
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         int ncpus = ++talp_info->ncpus;
@@ -759,6 +774,9 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
             void *new_sample;
             if (posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
                 _tls_sample = new_sample;
+                *_tls_sample = (const talp_sample_t) {
+                    .last_updated_timestamp = last_updated_timestamp,
+                };
                 talp_info->samples[ncpus-1] = new_sample;
             }
         }
@@ -767,20 +785,6 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 
     fatal_cond(_tls_sample == NULL, "TALP: could not allocate thread sample");
 
-    /* If a thread is created mid-region, its initial time is that of the
-     * innermost open region, otherwise it is the current time */
-    int64_t last_updated_timestamp;
-    if (talp_info->open_regions) {
-        const dlb_monitor_t *monitor = talp_info->open_regions->data;
-        last_updated_timestamp = monitor->start_time;
-    } else {
-        last_updated_timestamp = get_time_in_ns();
-    }
-
-    *_tls_sample = (const talp_sample_t) {
-        .last_updated_timestamp = last_updated_timestamp,
-    };
-
     set_sample_state(_tls_sample, disabled, talp_info->flags.papi);
 
 #ifdef INSTRUMENTATION_VERSION
-- 
2.43.0


From 64ad6d449d04675d5714e98dc4ab6223e8002012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:46 +0000
Subject: [PATCH 40/41] fix: the end of a nested parallel region does not use
 freed samples

---
 src/LB_core/DLB_talp.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 998f7ce..f298538 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1992,10 +1992,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
             talp_aggregate_samples_parallel(spd,
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
-
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -2011,6 +2007,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        if (parallel_data->level > 1) {
+            /* free local data */
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From d588457fdb1ef158bd5061165d968faf4f70ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:46 +0000
Subject: [PATCH 41/41] fix: updating the samples from a thread without sample
 does not lock twice

---
 src/LB_core/DLB_talp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index f298538..3cbbc80 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -843,7 +843,7 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
 #ifdef PAPI_LIB
     if (papi) {
         /* Only read counters if we are updating this thread's sample */
-        if (sample == talp_get_thread_sample(thread_spd)) {
+        if (sample == _tls_sample) {
             if (sample->state == useful) {
                 /* Read */
                 long long papi_values[2];
-- 
2.43.0

