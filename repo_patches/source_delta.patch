From ff3597697bfa1afb9c6bf093c66b7014c656b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 01/18] fix: complete scaled nonblocking vector accumulates
 before releasing the scaled copy

---
 src/vector_nb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..de331c5 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -126,7 +126,9 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
 {
   int blocking = 0;
 
-  if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD) {
+  /* Scaling always goes through a temporary buffer, which is released below. */
+  if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD ||
+      ARMCII_Buf_acc_is_scaled(datatype, scale)) {
       blocking = 1;
   }
 
-- 
2.43.0


From 6246ad690845deba296e84db37979be404f3d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 02/18] fix: do not abort a fence when a live region excludes
 the target process

---
 src/gmr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..fad2cdc 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -989,7 +989,10 @@ int gmr_flush(gmr_t *mreg, int proc, int local_only) {
   int grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   int grp_me   = ARMCII_Translate_absolute_to_group(&mreg->group, ARMCI_GROUP_WORLD.rank);
 
-  ARMCII_Assert(grp_proc >= 0 && grp_me >= 0);
+  /* A region of a group that excludes the target has nothing to flush. */
+  if (grp_proc < 0) return 0;
+
+  ARMCII_Assert(grp_me >= 0);
   ARMCII_Assert_msg(mreg->window != MPI_WIN_NULL, "A non-null mreg contains a null window.");
   ARMCII_Assert_msg(grp_proc < mreg->group.size, "grp_proc exceeds group size!");
 
-- 
2.43.0


From 7f7db32585b50b98d0af805e8ca059527129c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 03/18] fix: report a handle without outstanding requests as
 complete

---
 src/onesided_nb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..c344cd9 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -329,6 +329,7 @@ int PARMCI_Test(armci_hdl_t* handle)
   } else if (handle->batch_size == 0) {
 
     ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
+    flag = 1; /* nothing is outstanding */
 
   } else if (handle->batch_size == 1) {
 
-- 
2.43.0


From 8c12720b092d3e7c9c4d3ea30cbac406f36625c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 04/18] fix: PutS_flag reports success with zero

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..79a8e6b 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -661,7 +661,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From 32d51db3d1117aab14eef3536dc5f80aa67a185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 05/18] fix: reject a fetch-and-op whose element does not fit
 in the slice

---
 src/gmr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index fad2cdc..5f97eb2 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -907,6 +907,7 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 {
   int        grp_proc;
   gmr_size_t disp;
+  MPI_Aint lb, extent;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   ARMCII_Assert(grp_proc >= 0);
@@ -916,8 +917,9 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
   disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[proc].base);
 
   // Perform checks
+  MPI_Type_get_true_extent(type, &lb, &extent);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + extent <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From a128e56ea3abb7a8039ec4779594dcbc88cee036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 06/18] fix: define the rank caches of a group the process does
 not belong to

---
 src/groups.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..0b40230 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -37,6 +37,9 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
   else
     group->noncoll_pgroup_comm = MPI_COMM_NULL;
 
+  group->abs_to_grp = NULL;
+  group->grp_to_abs = NULL;
+
   /* Check if translation caching is enabled */
   if (ARMCII_GLOBAL_STATE.cache_rank_translation) {
     if (group->comm != MPI_COMM_NULL) {
@@ -64,12 +67,6 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
       free(ranks);
     }
   }
-  
-  /* Translation caching is disabled */
-  else {
-    group->abs_to_grp = NULL;
-    group->grp_to_abs = NULL;
-  }
 }
 
 
-- 
2.43.0


From a1a7f882e56940367f1f4899671a7d5675fe9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 07/18] fix: read the group options before the world group is
 set up

---
 src/init_finalize.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..631482c 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -199,6 +199,16 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
+  /* Group formation options - these affect the world group, too */
+
+#ifdef ARMCI_GROUP
+  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#endif
+  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
+    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
+  }
+  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
+
   /* Setup groups and communicators - do this before ARMCII_Warning is called! */
 
   MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);
@@ -283,16 +293,6 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
-  /* Group formation options */
-
-#ifdef ARMCI_GROUP
-  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
-#endif
-  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
-    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-  }
-  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
-
   /* Check for IOV and Strided flags */
 
   /* Relevant bugs:
-- 
2.43.0


From 293b00b837837e2c906dff1586a87d7470590239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 08/18] fix: PARMCI_Free_memdev calls PARMCI_Free, not the
 interposable name

---
 src/armci-memdev.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armci-memdev.c b/src/armci-memdev.c
index 151129f..3f30794 100644
--- a/src/armci-memdev.c
+++ b/src/armci-memdev.c
@@ -44,5 +44,5 @@ int PARMCI_Malloc_group_memdev(void **ptr_arr, armci_size_t bytes, ARMCI_Group *
 /* -- end weak symbols block -- */
 int PARMCI_Free_memdev(void *ptr)
 {
-    return ARMCI_Free(ptr);
+    return PARMCI_Free(ptr);
 }
-- 
2.43.0


From 082045e7afdc7bd256d030584285bda686595658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 09/18] fix: define ARMCI_WaitProc where there are no weak
 symbols

---
 src/parmci.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parmci.c b/src/parmci.c
index a80f76c..62d4a24 100644
--- a/src/parmci.c
+++ b/src/parmci.c
@@ -172,6 +172,11 @@ int ARMCI_Test(armci_hdl_t* hdl) {
   return PARMCI_Test(hdl);
 }
 
+#pragma weak ARMCI_WaitProc
+int ARMCI_WaitProc(int proc) {
+  return PARMCI_WaitProc(proc);
+}
+
 #pragma weak ARMCI_WaitAll
 int ARMCI_WaitAll(void) {
   return PARMCI_WaitAll();
-- 
2.43.0


From 930b969811d2ded1c58fbee7974bf190a1af6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 10/18] fix: take absolute values in a node-scope absmin/absmax
 of a larger group

---
 src/message_gop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..6855bca 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -204,7 +204,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  if ((group->size == 1 || comm == MPI_COMM_SELF) && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From 599779d8a14e2c224d4f284e012c19ee86c68b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 11/18] fix: deliver the selected record through the prepared
 buffer

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..12aa5b1 100644
--- a/src/message.c
+++ b/src/message.c
@@ -436,7 +436,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From 734eb6c733040f18ac75c405c272ee29c18d98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 12/18] fix: reduce a selection record as one element, MPI may
 split a byte array

---
 src/message.c | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/message.c b/src/message.c
index 12aa5b1..eb8e97e 100644
--- a/src/message.c
+++ b/src/message.c
@@ -300,12 +300,16 @@ MPI_Op ARMCI_MPI_SELMAX_OP;
   */
 void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* The datatype is one whole record */
+  MPI_Type_size(*datatype, &size);
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -318,19 +322,19 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -347,12 +351,16 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
   */
 void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* The datatype is one whole record */
+  MPI_Type_size(*datatype, &size);
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -365,19 +373,19 @@ void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -401,6 +409,7 @@ void armci_msg_sel(void *x, int n, char *op, int type, int contribute) {
   */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute) {
   MPI_Comm    sel_comm;
+  MPI_Datatype sel_type;
   sel_data_t *data_in, *data_out;
   void      **x_buf;
 
@@ -428,14 +437,20 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   if (contribute)
     ARMCI_Copy(x, data_in->data, n);
 
+  /* One element, so that MPI does not split the record */
+  MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
+  MPI_Type_commit(&sel_type);
+
   if (strncmp(op, "min", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMIN_OP, sel_comm);
   } else if (strncmp(op, "max", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMAX_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMAX_OP, sel_comm);
   } else {
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
+  MPI_Type_free(&sel_type);
+
   ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
-- 
2.43.0


From 460a1aa72a333453456de965a86ebd4168d75a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 13/18] fix: copy back only the bytes received

---
 src/message.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index eb8e97e..5aae554 100644
--- a/src/message.c
+++ b/src/message.c
@@ -203,13 +203,15 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
   MPI_Status status;
+  int        nbytes;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 }
 
 
@@ -224,13 +226,15 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
   MPI_Status status;
+  int        nbytes;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From 4b78e736c2dcb4086b30e294112be58595294171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 14/18] fix: set the parent in a node-scope tree

---
 src/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.c b/src/message.c
index 5aae554..af343e4 100644
--- a/src/message.c
+++ b/src/message.c
@@ -263,6 +263,7 @@ void armci_msg_bintree(int scope, int *root, int *up, int *left, int *right) {
 
   if (scope == SCOPE_NODE) {
     *root  = 0;
+    *up    = -1;
     *left  = -1;
     *right = -1;
    
-- 
2.43.0


From 6a530d6625829ab8a7ee04e68ac4ee4b8e8947b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 15/18] fix: do not hold the handle mutex while waiting for
 another process's ARMCI mutex

With MPI_THREAD_MULTIPLE, a thread blocked in ARMCI_Lock kept every other thread
of its process from locking and unlocking any mutex, so two processes each
holding one mutex and waiting for the other's could deadlock. Only the access
epochs are serialised now.
---
 src/mutex.c           | 10 ++++++++--
 src/mutex_hdl_queue.c | 30 ++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/mutex.c b/src/mutex.c
index ef0f533..3ed5223 100644
--- a/src/mutex.c
+++ b/src/mutex.c
@@ -138,7 +138,7 @@ void PARMCI_Lock(int mutex, int proc) {
     ARMCII_Error("attempted to lock on unallocated ARMCI mutexes");
   }
 
-  ARMCIX_Lock_hdl(armci_mutex_hdl, mutex, proc);
+  armcix_mutex_hdl_t hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -146,6 +146,9 @@ void PARMCI_Lock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  /* Waits for other processes: must not keep other threads from their mutexes */
+  ARMCIX_Lock_hdl(hdl, mutex, proc);
 }
 
 
@@ -177,7 +180,7 @@ void PARMCI_Unlock(int mutex, int proc) {
     ARMCII_Error("attempted to unlock on unallocated ARMCI mutexes");
   }
 
-  ARMCIX_Unlock_hdl(armci_mutex_hdl, mutex, proc);
+  armcix_mutex_hdl_t hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -185,4 +188,7 @@ void PARMCI_Unlock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  /* Waits for other processes: must not keep other threads from their mutexes */
+  ARMCIX_Unlock_hdl(hdl, mutex, proc);
 }
diff --git a/src/mutex_hdl_queue.c b/src/mutex_hdl_queue.c
index c5b9360..67a9a59 100644
--- a/src/mutex_hdl_queue.c
+++ b/src/mutex_hdl_queue.c
@@ -11,6 +11,12 @@
 #include <armcix.h>
 #include <debug.h>
 
+#ifdef HAVE_PTHREADS
+#include <pthread.h>
+/* Threads of one process take turns in their access epochs */
+static pthread_mutex_t epoch_mutex = PTHREAD_MUTEX_INITIALIZER;
+#endif
+
 #define ARMCI_MUTEX_TAG 100
 
 /* TODO: Make these all no-ops for sequential runs */
@@ -127,6 +133,12 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
 
   /* Get all data from the lock_buf, except the byte belonging to
    * me. Set the byte belonging to me to 1. */
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_lock(&epoch_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
   MPI_Win_lock(MPI_LOCK_EXCLUSIVE, proc, 0, hdl->windows[mutex]);
   
   MPI_Put(&buf[rank], 1, MPI_BYTE, proc, rank, 1, MPI_BYTE, hdl->windows[mutex]);
@@ -142,6 +154,12 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   }
   
   MPI_Win_unlock(proc, hdl->windows[mutex]);
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_unlock(&epoch_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
 
   ARMCII_Assert(buf[rank] == 1);
 
@@ -200,6 +218,12 @@ void ARMCIX_Unlock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
 
   /* Get all data from the lock_buf, except the byte belonging to
    * me. Set the byte belonging to me to 0. */
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_lock(&epoch_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
   MPI_Win_lock(MPI_LOCK_EXCLUSIVE, proc, 0, hdl->windows[mutex]);
   
   MPI_Put(&buf[rank], 1, MPI_BYTE, proc, rank, 1, MPI_BYTE, hdl->windows[mutex]);
@@ -215,6 +239,12 @@ void ARMCIX_Unlock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   }
   
   MPI_Win_unlock(proc, hdl->windows[mutex]);
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_unlock(&epoch_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
 
   ARMCII_Assert(buf[rank] == 0);
 
-- 
2.43.0


From 269546afbfda93b4d8c9391749ed106006991518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 16/18] fix: strided displacements beyond 2 GiB

The distance of a block from the start of the array was computed in an int, which
overflows for arrays larger than 2 GiB although every stride fits.
---
 src/strided.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 79a8e6b..0217fe7 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -470,15 +470,15 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
       idx[i] = 0;
 
     for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      ptrdiff_t disp_src = 0;
+      ptrdiff_t disp_dst = 0;
 
       ARMCII_Assert(xfer < iov->ptr_array_len);
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += (ptrdiff_t)src_stride_ar[i]*idx[i];
+        disp_dst += (ptrdiff_t)dst_stride_ar[i]*idx[i];
       }
 
       // Add to the IO Vector
-- 
2.43.0


From 99831539e338809407d7588c08d95a4fd67ffede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 17/18] fix: strided datatypes when a stride is not a multiple
 of the one below it

ARMCII_Strided_to_dtype described the transfer as a subarray whose dimensions are
quotients of strides, so blocks went to the wrong addresses when the quotient is
not exact (ARMCI_STRIDED_METHOD=DIRECT).
---
 src/strided.c | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 0217fe7..f64dee1 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -12,7 +12,7 @@
 #include <debug.h>
 
 
-/** Convert an ARMCI strided access description into an MPI subarray datatype.
+/** Convert an ARMCI strided access description into an MPI datatype.
   *
   * @param[in]  stride_array    Array of strides
   * @param[in]  count           Array of transfer counts
@@ -23,9 +23,6 @@
 void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*stride_levels+1*/],
                              int stride_levels, MPI_Datatype old_type, MPI_Datatype *new_type)
 {
-  int sizes   [stride_levels+1];
-  int subsizes[stride_levels+1];
-  int starts  [stride_levels+1];
   int i, old_type_size;
 
   MPI_Type_size(old_type, &old_type_size);
@@ -34,14 +31,10 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
   for (i = stride_levels+1; (i > 0) && (stride_levels > 0) && (count[i-1] == 1); i--)
     stride_levels--;
 
-  /* A correct strided spec should me monotonic increasing and stride_array[i+1] should
-     be a multiple of stride_array[i]. */
+  /* A correct strided spec should me monotonic increasing. */
   if (stride_levels > 0) {
     for (i = 1; i < stride_levels; i++) {
       ARMCII_Assert(stride_array[i] >= stride_array[i-1]);
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.
-       * ARMCII_Assert((stride_array[i] % stride_array[i-1]) == 0); */
     }
   }
 
@@ -55,30 +48,20 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
 
   /* Transfer is non-contiguous */
   else {
-
-    for (i = 0; i < stride_levels+1; i++)
-      starts[i] = 0;
-
-    sizes   [stride_levels] = stride_array[0]/old_type_size;
-    subsizes[stride_levels] = count[0]/old_type_size;
+    MPI_Datatype block_type;
 
     ARMCII_Assert((stride_array[0] % old_type_size) == 0);
     ARMCII_Assert((count[0] % old_type_size) == 0);
 
-    for (i = 1; i < stride_levels; i++) {
-      /* Convert strides into dimensions by dividing out contributions from lower dims */
-      sizes   [stride_levels-i] = stride_array[i]/stride_array[i-1];
-      subsizes[stride_levels-i] = count[i];
+    MPI_Type_contiguous(count[0]/old_type_size, old_type, new_type);
 
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.  
-       * ARMCII_Assert_msg((stride_array[i] % stride_array[i-1]) == 0, "Invalid striding"); */
+    /* A stride need not be a multiple of the one below it (e.g. calls from GA's
+     * nga_strided_get), so this cannot be expressed as a subarray. */
+    for (i = 0; i < stride_levels; i++) {
+      block_type = *new_type;
+      MPI_Type_create_hvector(count[i+1], 1, stride_array[i], block_type, new_type);
+      MPI_Type_free(&block_type);
     }
-
-    sizes   [0] = count[stride_levels];
-    subsizes[0] = count[stride_levels];
-
-    MPI_Type_create_subarray(stride_levels+1, sizes, subsizes, starts, MPI_ORDER_C, old_type, new_type);
   }
 }
 
-- 
2.43.0


From e070fc332e8822fc2ba81949f6031294a82f1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 18/18] fix: look up the allocation of each segment of a
 conservative vector operation

A vector operation whose segments were found to lie in several allocations
is issued one segment at a time, but all segments were issued against the
allocation of the first, which fails the bounds check of the window.
---
 src/vector.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 850633a..a97c110 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,13 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    /* the segments may lie in different allocations */
+    if (consrv && i > 0) {
+      shr_ptr = (op == ARMCII_OP_GET) ? src[i] : dst[i];
+      mreg = gmr_lookup(shr_ptr, proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0

