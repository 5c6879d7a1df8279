From 04b307a220f24fb7c1b41eeb8b5cc307b7251c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 01/29] fix: ARMCI_Test must report completion of a handle with
 nothing outstanding

---
 src/onesided_nb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..466a534 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -329,6 +329,7 @@ int PARMCI_Test(armci_hdl_t* handle)
   } else if (handle->batch_size == 0) {
 
     ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
+    flag = 1; /* nothing is outstanding, so the handle is complete */
 
   } else if (handle->batch_size == 1) {
 
-- 
2.43.0


From a57303cefa30be0249e7771b0e80a53b92893689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 02/29] fix: complete scaled non-blocking vector accumulate
 before releasing its temporary

---
 src/vector_nb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..f8a54ea 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -141,8 +141,11 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
     same_alloc  = ARMCII_Iov_check_same_allocation(iov[v].dst_ptr_array, iov[v].ptr_array_len, proc);
 
     ARMCII_Buf_prepare_acc_vec(iov[v].src_ptr_array, &src_buf, iov[v].ptr_array_len, iov[v].bytes, datatype, scale);
+    /* A scaled source is a temporary copy that is released below, so the
+       transfer must be locally complete by then. */
     ARMCII_Iov_op_dispatch(ARMCII_OP_ACC, src_buf, iov[v].dst_ptr_array, iov[v].ptr_array_len, iov[v].bytes, datatype,
-                           overlapping, same_alloc, proc, blocking, handle);
+                           overlapping, same_alloc, proc,
+                           blocking || ARMCII_Buf_acc_is_scaled(datatype, scale), handle);
     ARMCII_Buf_finish_acc_vec(iov[v].src_ptr_array, src_buf, iov[v].ptr_array_len, iov[v].bytes);
   }
 
-- 
2.43.0


From d9d74f9ecb1b9bab75eb3f5df8934c5185008d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 03/29] fix: strided datatypes for strides that are not
 multiples of each other

---
 src/strided.c | 61 ++++++++++-----------------------------------------
 1 file changed, 11 insertions(+), 50 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..c62bbe6 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -12,7 +12,7 @@
 #include <debug.h>
 
 
-/** Convert an ARMCI strided access description into an MPI subarray datatype.
+/** Convert an ARMCI strided access description into an MPI datatype.
   *
   * @param[in]  stride_array    Array of strides
   * @param[in]  count           Array of transfer counts
@@ -23,62 +23,23 @@
 void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*stride_levels+1*/],
                              int stride_levels, MPI_Datatype old_type, MPI_Datatype *new_type)
 {
-  int sizes   [stride_levels+1];
-  int subsizes[stride_levels+1];
-  int starts  [stride_levels+1];
   int i, old_type_size;
 
   MPI_Type_size(old_type, &old_type_size);
 
-  /* Eliminate counts that don't count (all 1 counts at the end) */
-  for (i = stride_levels+1; (i > 0) && (stride_levels > 0) && (count[i-1] == 1); i--)
-    stride_levels--;
-
-  /* A correct strided spec should me monotonic increasing and stride_array[i+1] should
-     be a multiple of stride_array[i]. */
-  if (stride_levels > 0) {
-    for (i = 1; i < stride_levels; i++) {
-      ARMCII_Assert(stride_array[i] >= stride_array[i-1]);
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.
-       * ARMCII_Assert((stride_array[i] % stride_array[i-1]) == 0); */
-    }
-  }
-
-  /* Test for a contiguous transfer */
-  if (stride_levels == 0) {
-    int elem_count = count[0]/old_type_size;
-
-    ARMCII_Assert((count[0] % old_type_size) == 0);
-    MPI_Type_contiguous(elem_count, old_type, new_type);
-  }
-
-  /* Transfer is non-contiguous */
-  else {
+  ARMCII_Assert((count[0] % old_type_size) == 0);
+  MPI_Type_contiguous(count[0]/old_type_size, old_type, new_type);
 
-    for (i = 0; i < stride_levels+1; i++)
-      starts[i] = 0;
-
-    sizes   [stride_levels] = stride_array[0]/old_type_size;
-    subsizes[stride_levels] = count[0]/old_type_size;
-
-    ARMCII_Assert((stride_array[0] % old_type_size) == 0);
-    ARMCII_Assert((count[0] % old_type_size) == 0);
-
-    for (i = 1; i < stride_levels; i++) {
-      /* Convert strides into dimensions by dividing out contributions from lower dims */
-      sizes   [stride_levels-i] = stride_array[i]/stride_array[i-1];
-      subsizes[stride_levels-i] = count[i];
-
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.  
-       * ARMCII_Assert_msg((stride_array[i] % stride_array[i-1]) == 0, "Invalid striding"); */
-    }
+  /* Strides are byte displacements and need not be multiples of one another (e.g. the GA
+     API call nga_strided_get), so each level is a vector over the type of the level below. */
+  for (i = 0; i < stride_levels; i++) {
+    MPI_Datatype block_type = *new_type;
 
-    sizes   [0] = count[stride_levels];
-    subsizes[0] = count[stride_levels];
+    /* Eliminate counts that don't count */
+    if (count[i+1] == 1) continue;
 
-    MPI_Type_create_subarray(stride_levels+1, sizes, subsizes, starts, MPI_ORDER_C, old_type, new_type);
+    MPI_Type_create_hvector(count[i+1], 1, stride_array[i], block_type, new_type);
+    MPI_Type_free(&block_type);
   }
 }
 
-- 
2.43.0


From 968f29dc2e1db7be1b98f9643442a5eee11682df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 04/29] fix: fence to a process outside the group of some live
 allocation

---
 src/gmr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..35c4e88 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -989,7 +989,12 @@ int gmr_flush(gmr_t *mreg, int proc, int local_only) {
   int grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   int grp_me   = ARMCII_Translate_absolute_to_group(&mreg->group, ARMCI_GROUP_WORLD.rank);
 
-  ARMCII_Assert(grp_proc >= 0 && grp_me >= 0);
+  ARMCII_Assert(grp_me >= 0);
+
+  /* Fence and WaitProc visit every allocation, including those of groups proc is
+     not a member of.  Nothing can be outstanding to proc there. */
+  if (grp_proc < 0) return 0;
+
   ARMCII_Assert_msg(mreg->window != MPI_WIN_NULL, "A non-null mreg contains a null window.");
   ARMCII_Assert_msg(grp_proc < mreg->group.size, "grp_proc exceeds group size!");
 
-- 
2.43.0


From e432eabd3166cc10d24246e60720953e9552cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 05/29] fix: conservative vector operations whose segments span
 several allocations

---
 src/vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 850633a..c01a358 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,12 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    /* Conservative: the remote segments may belong to different allocations */
+    if (consrv && i > 0) {
+      mreg = gmr_lookup(op == ARMCII_OP_GET ? src[i] : dst[i], proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0


From d986cebeb93582b29ed3b482ab8e95b5d1d2ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 06/29] fix: ARMCI_PutS_flag must return zero on success

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index c62bbe6..a151136 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -622,7 +622,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From d3e64fcbbb3643cad02937446560459c4ca3df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 07/29] fix: freeing a group on a process that is not a member
 of it

---
 src/groups.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..983bab8 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -37,6 +37,10 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
   else
     group->noncoll_pgroup_comm = MPI_COMM_NULL;
 
+  /* Processes that are not members have no translation tables to free */
+  group->abs_to_grp = NULL;
+  group->grp_to_abs = NULL;
+
   /* Check if translation caching is enabled */
   if (ARMCII_GLOBAL_STATE.cache_rank_translation) {
     if (group->comm != MPI_COMM_NULL) {
@@ -64,12 +68,6 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
       free(ranks);
     }
   }
-  
-  /* Translation caching is disabled */
-  else {
-    group->abs_to_grp = NULL;
-    group->grp_to_abs = NULL;
-  }
 }
 
 
-- 
2.43.0


From 599f360abf643294bbb70b3d9ad8bb3eb6c60a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 08/29] fix: clamp out-of-range integer settings instead of
 truncating them

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 2229c77..540c52e 100644
--- a/src/util.c
+++ b/src/util.c
@@ -167,7 +167,7 @@ char *ARMCII_Getenv(const char *varname) {
 int ARMCII_Getenv_int(const char *varname, int default_value) {
   const char *var = getenv(varname);
   if (var) {
-    int value = atol(var);
+    long value = atol(var);
     /* clamp to the range of int, just in case */
     if (value > INT_MAX) value = INT_MAX;
     if (value < INT_MIN) value = INT_MIN;
-- 
2.43.0


From 46485a24010a824c69a3e56e22736969edc287a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 09/29] fix: armci_msg_bintree must set the parent for the node
 scope

---
 src/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..ac9af01 100644
--- a/src/message.c
+++ b/src/message.c
@@ -259,6 +259,7 @@ void armci_msg_bintree(int scope, int *root, int *up, int *left, int *right) {
 
   if (scope == SCOPE_NODE) {
     *root  = 0;
+    *up    = -1;
     *left  = -1;
     *right = -1;
    
-- 
2.43.0


From 124400a3830b207ddef5179d7e79ae3f198c44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 10/29] fix: armci_msg_sel result lost for a shared buffer with
 the COPY method

---
 src/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index ac9af01..4bbf1ea 100644
--- a/src/message.c
+++ b/src/message.c
@@ -427,7 +427,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   data_in->type       = type;
 
   if (contribute)
-    ARMCI_Copy(x, data_in->data, n);
+    ARMCI_Copy(x_buf[0], data_in->data, n);
 
   if (strncmp(op, "min", 3) == 0) {
     MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
@@ -437,7 +437,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From 83c713a1b2d9d192b9e7d331ff9a96c7f989ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 11/29] fix: armci_msg_sel packets must not be split by the MPI
 reduction

---
 src/message.c | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/message.c b/src/message.c
index 4bbf1ea..40d8e09 100644
--- a/src/message.c
+++ b/src/message.c
@@ -301,12 +301,17 @@ MPI_Op ARMCI_MPI_SELMAX_OP;
   */
 void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* One element is one whole packet */
+  ARMCII_Assert(*len == 1);
+  MPI_Type_size(*datatype, &size);
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -319,19 +324,19 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -348,12 +353,17 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
   */
 void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* One element is one whole packet */
+  ARMCII_Assert(*len == 1);
+  MPI_Type_size(*datatype, &size);
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -366,19 +376,19 @@ void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -402,6 +412,7 @@ void armci_msg_sel(void *x, int n, char *op, int type, int contribute) {
   */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute) {
   MPI_Comm    sel_comm;
+  MPI_Datatype sel_type;
   sel_data_t *data_in, *data_out;
   void      **x_buf;
 
@@ -429,10 +440,14 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   if (contribute)
     ARMCI_Copy(x_buf[0], data_in->data, n);
 
+  /* A packet is a single element, so that MPI never splits it in a reduction */
+  MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
+  MPI_Type_commit(&sel_type);
+
   if (strncmp(op, "min", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMIN_OP, sel_comm);
   } else if (strncmp(op, "max", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMAX_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMAX_OP, sel_comm);
   } else {
       ARMCII_Error("Invalid operation (%s)", op);
   }
@@ -441,6 +456,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
+  MPI_Type_free(&sel_type);
   free(data_in);
   free(data_out);
 }
-- 
2.43.0


From b3523c4b9b3d47372fdff630f9c4a17a9ec78c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 12/29] fix: absmin and absmax over the node scope must take
 absolute values

---
 src/message_gop.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..2edb440 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -139,7 +139,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
   MPI_Op       mpi_op;
   MPI_Datatype mpi_type;
   MPI_Comm     comm;
-  int          mpi_type_size;
+  int          mpi_type_size, comm_size;
 
   /* FIXME: scope argument presently ignored */
   if (scope == SCOPE_ALL || scope == SCOPE_MASTERS)
@@ -199,12 +199,13 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
   }
 
   MPI_Type_size(mpi_type, &mpi_type_size);
+  MPI_Comm_size(comm, &comm_size);
 
   ARMCII_Buf_prepare_read_vec(&x, &x_buf, 1, n*mpi_type_size);
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  if (comm_size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From 3f1f856ca166fb4ecfcd666de78f81442035d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 13/29] fix: reject read-modify-write on a location that ends
 outside the allocation

---
 src/gmr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gmr.c b/src/gmr.c
index 35c4e88..0a6ae8e 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -905,7 +905,7 @@ int gmr_get_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype
 int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 		MPI_Datatype type, MPI_Op op, int proc)
 {
-  int        grp_proc;
+  int        grp_proc, type_size;
   gmr_size_t disp;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
@@ -916,8 +916,9 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
   disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[proc].base);
 
   // Perform checks
+  MPI_Type_size(type, &type_size);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + type_size <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From 9c761f2419d33477ee2023c14189a8536c80eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 14/29] fix: reject direct vector operations that run past the
 end of the allocation

---
 src/gmr.c    | 8 ++++----
 src/vector.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gmr.c b/src/gmr.c
index 0a6ae8e..cf9eb88 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -543,7 +543,7 @@ int gmr_put_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src_type,
   // Perform checks
   MPI_Type_get_true_extent(dst_type, &lb, &extent);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + lb + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
@@ -646,7 +646,7 @@ int gmr_get_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src_type,
   // Perform checks
   MPI_Type_get_true_extent(src_type, &lb, &extent);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + src_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + lb + src_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
@@ -752,7 +752,7 @@ int gmr_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src
   // Perform checks
   MPI_Type_get_true_extent(dst_type, &lb, &extent);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + lb + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
@@ -849,7 +849,7 @@ int gmr_get_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype
   // Perform checks
   MPI_Type_get_true_extent(dst_type, &lb, &extent);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + lb + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
diff --git a/src/vector.c b/src/vector.c
index c01a358..62056c2 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -372,7 +372,7 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
       ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
     }
 
-- 
2.43.0


From 315b6abcd656d53b107a57bc95e361db88ff6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 15/29] fix: non-collective groups need the world group set up
 for them

---
 src/init_finalize.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..d61136e 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -199,6 +199,15 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
+  /* Group formation options - the world group must be set up with them */
+
+#ifdef ARMCI_GROUP
+  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#endif
+  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
+    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
+  }
+
   /* Setup groups and communicators - do this before ARMCII_Warning is called! */
 
   MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);
@@ -283,14 +292,6 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
-  /* Group formation options */
-
-#ifdef ARMCI_GROUP
-  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
-#endif
-  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
-    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-  }
   ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
 
   /* Check for IOV and Strided flags */
-- 
2.43.0


From f4cf53d5e5e52264c36840d94faa391313739684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 16/29] fix: receive into a shared buffer must not write beyond
 the message (COPY method)

---
 src/message.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 40d8e09..86c0fc9 100644
--- a/src/message.c
+++ b/src/message.c
@@ -202,14 +202,16 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
   */
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
+  int        nbytes_rcvd;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes_rcvd);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_rcvd);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes_rcvd;
 }
 
 
@@ -223,14 +225,16 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
   */
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
+  int        nbytes_rcvd;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes_rcvd);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_rcvd);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes_rcvd;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From c81dfb73374a1b2cba22d1663541caa6e4aa53b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 17/29] fix: range-check contiguous transfers to the caller's
 own memory

Put, Get, NbPut and NbGet copy directly when the target is the calling
process, without the range check every other transfer gets, so a transfer
running past the end of the allocation was performed silently.
---
 src/onesided.c    | 4 ++++
 src/onesided_nb.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/onesided.c b/src/onesided.c
index 490626a..e037b1b 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -99,6 +99,8 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg(((uint8_t*) src) + size <= ((uint8_t*) src_mreg->slices[target].base) + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
@@ -162,6 +164,8 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+    ARMCII_Assert_msg(((uint8_t*) dst) + size <= ((uint8_t*) dst_mreg->slices[target].base) + dst_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 466a534..2d7c3e6 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -97,6 +97,8 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+      ARMCII_Assert_msg(((uint8_t*) dst) + size <= ((uint8_t*) dst_mreg->slices[target].base) + dst_mreg->slices[target].size,
+                        "Transfer is out of range");
       ARMCI_Copy(src, dst, size);
   }
   else {
@@ -136,6 +138,8 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg(((uint8_t*) src) + size <= ((uint8_t*) src_mreg->slices[target].base) + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
   else {
-- 
2.43.0


From 63b9eddb5b1caf14b046f618a085eb7740d16e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 18/29] fix: reject scaled complex accumulates of partial
 elements

The scaling loop works on pairs, so a size holding an odd number of
components read past the source and wrote past the scratch buffer before
the size check in the caller was reached.
---
 src/buffer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffer.c b/src/buffer.c
index 28c15f8..3f56321 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -381,6 +381,7 @@ void ARMCII_Buf_acc_scale(void *buf_in, void *buf_out, int size, int datatype, v
     case ARMCI_ACC_CPL:
       MPI_Type_size(MPI_FLOAT, &type_size);
       nelem= size/type_size;
+      ARMCII_Assert_msg(nelem % 2 == 0, "Transfer size is not a multiple of the datatype size");
 
       {
         float *src_fc = (float*) buf_in;
@@ -405,6 +406,7 @@ void ARMCII_Buf_acc_scale(void *buf_in, void *buf_out, int size, int datatype, v
     case ARMCI_ACC_DCP:
       MPI_Type_size(MPI_DOUBLE, &type_size);
       nelem= size/type_size;
+      ARMCII_Assert_msg(nelem % 2 == 0, "Transfer size is not a multiple of the datatype size");
 
       {
         double *src_dc = (double*) buf_in;
-- 
2.43.0


From ba782150344e3a07ac3a5eec92eef2c7fac91267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 19/29] fix: check vector segment offsets before narrowing them

ARMCII_Iov_op_datatype truncated the byte offset of each remote segment to
int before the range check, so an address a multiple of 4 GB away from the
window passed it and the transfer went to an unrelated location; windows of
2 GB and more were rejected for the same reason.
---
 src/vector.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 62056c2..0a8028d 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -312,7 +312,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
-    int           dst_win_size, i, type_size;
+    gmr_size_t    dst_win_size;
+    int           i, type_size;
     void        **buf_rem, **buf_loc;
     MPI_Aint      base_rem;
     int flush_local = 0; /* used only for MPI-3 */
@@ -362,18 +363,20 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     }
 
     for (i = 0; i < count; i++) {
-      MPI_Aint target_rem, off_loc;
+      MPI_Aint target_rem, off_loc, off_rem;
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
-      disp_rem[i]  = (target_rem - base_rem)/type_size;    /* element offset within the window */
+      off_rem      = target_rem - base_rem;                /* byte offset within the window */
       block_len[i] = elem_count;
 
       ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
-      ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
-      ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg(off_rem % type_size == 0, "Transfer size is not a multiple of type size");
+      ARMCII_Assert_msg(off_rem >= 0 && off_rem < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg(off_rem/type_size <= INT_MAX, "Remote offset exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
+      disp_rem[i]  = (int)(off_rem/type_size);             /* element offset within the window */
     }
 
     /* Optionally chunk the blocks across several ops so the flattened datatype
-- 
2.43.0


From 1e174031e96c25f00abe949a77d66a0471904d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 20/29] fix: reject a null remote address in batched vector
 operations

The typed transfer functions read MPI_BOTTOM as the start of the window, so
a null segment address was performed there instead of being rejected.
---
 src/gmr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gmr.c b/src/gmr.c
index cf9eb88..5f624dc 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -504,6 +504,7 @@ gmr_t *gmr_lookup(void *ptr, int proc) {
 int gmr_put(gmr_t *mreg, void *src, void *dst, int size, int proc, armci_hdl_t * handle)
 {
   ARMCII_Assert_msg(src != NULL, "Invalid local address");
+  ARMCII_Assert_msg(dst != NULL, "Invalid remote address");
   return gmr_put_typed(mreg, src, size, MPI_BYTE, dst, size, MPI_BYTE, proc, handle);
 }
 
@@ -607,6 +608,7 @@ int gmr_put_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src_type,
 int gmr_get(gmr_t *mreg, void *src, void *dst, int size, int proc, armci_hdl_t * handle)
 {
   ARMCII_Assert_msg(dst != NULL, "Invalid local address");
+  ARMCII_Assert_msg(src != NULL, "Invalid remote address");
   return gmr_get_typed(mreg, src, size, MPI_BYTE, dst, size, MPI_BYTE, proc, handle);
 }
 
@@ -713,6 +715,7 @@ int gmr_accumulate(gmr_t *mreg, void *src, void *dst, int count, MPI_Datatype ty
                    int proc, armci_hdl_t * handle)
 {
   ARMCII_Assert_msg(src != NULL, "Invalid local address");
+  ARMCII_Assert_msg(dst != NULL, "Invalid remote address");
   return gmr_accumulate_typed(mreg, src, count, type, dst, count, type, proc, handle);
 }
 
@@ -806,6 +809,7 @@ int gmr_get_accumulate(gmr_t *mreg, void *src, void *out, void *dst, int count,
                        MPI_Datatype type, MPI_Op op, int proc, armci_hdl_t * handle)
 {
   ARMCII_Assert_msg(src != NULL && out != NULL, "Invalid local address(es)");
+  ARMCII_Assert_msg(dst != NULL, "Invalid remote address");
   return gmr_get_accumulate_typed(mreg, src, count, type, out, count, type, dst, count, type, op, proc, handle);
 }
 
-- 
2.43.0


From adf3a5c7e236c9be51983c81765da6f42d7b5132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 21/29] fix: ARMCI_Free_memdev frees through the internal name
 so profiling tools do not see the library's own call

---
 src/armci-memdev.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armci-memdev.c b/src/armci-memdev.c
index 151129f..3f30794 100644
--- a/src/armci-memdev.c
+++ b/src/armci-memdev.c
@@ -44,5 +44,5 @@ int PARMCI_Malloc_group_memdev(void **ptr_arr, armci_size_t bytes, ARMCI_Group *
 /* -- end weak symbols block -- */
 int PARMCI_Free_memdev(void *ptr)
 {
-    return ARMCI_Free(ptr);
+    return PARMCI_Free(ptr);
 }
-- 
2.43.0


From 82d861f9d45bdcf31151c88f38d44299231dca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 22/29] fix: provide ARMCI_WaitProc when weak aliases are not
 available

---
 src/parmci.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parmci.c b/src/parmci.c
index a80f76c..62d4a24 100644
--- a/src/parmci.c
+++ b/src/parmci.c
@@ -172,6 +172,11 @@ int ARMCI_Test(armci_hdl_t* hdl) {
   return PARMCI_Test(hdl);
 }
 
+#pragma weak ARMCI_WaitProc
+int ARMCI_WaitProc(int proc) {
+  return PARMCI_WaitProc(proc);
+}
+
 #pragma weak ARMCI_WaitAll
 int ARMCI_WaitAll(void) {
   return PARMCI_WaitAll();
-- 
2.43.0


From 9959c3a2b971a5969b27099f88a60f76e6e1b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 23/29] fix: profiling library counts every descriptor of a
 vector operation

---
 profiler/profiling.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/profiler/profiling.c b/profiler/profiling.c
index 4495cbb..7d1db49 100644
--- a/profiler/profiling.c
+++ b/profiler/profiling.c
@@ -140,9 +140,13 @@ static inline int64_t ARMCII_Strided_count(int count[], int stride_levels)
     return size;
 }
 
-static inline int64_t ARMCII_Vector_count(armci_giov_t * v)
+static inline int64_t ARMCII_Vector_count(armci_giov_t * v, int iov_len)
 {
-    return (v->bytes * v->ptr_array_len);
+    int64_t size = 0;
+    for (int i=0; i<iov_len; i++) {
+        size += (int64_t)v[i].bytes * v[i].ptr_array_len;
+    }
+    return size;
 }
 
 /*********************************************************/
@@ -530,7 +534,7 @@ int ARMCI_PutV(armci_giov_t *iov, int iov_len, int proc) {
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_PutV(iov, iov_len, proc);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_hist(&profiling_state.put, t1-t0, size);
   return rc;
 }
@@ -539,7 +543,7 @@ int ARMCI_GetV(armci_giov_t *iov, int iov_len, int proc) {
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_GetV(iov, iov_len, proc);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_hist(&profiling_state.get, t1-t0, size);
   return rc;
 }
@@ -548,7 +552,7 @@ int ARMCI_AccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int pr
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_AccV(datatype, scale, iov, iov_len, proc);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_hist(&profiling_state.acc, t1-t0, size);
   return rc;
 }
@@ -632,7 +636,7 @@ int ARMCI_NbPutV(armci_giov_t *iov, int iov_len, int proc, armci_hdl_t* handle)
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_NbPutV(iov, iov_len, proc, handle);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_stats(&profiling_state.nbput, t1-t0, size);
   return rc;
 }
@@ -641,7 +645,7 @@ int ARMCI_NbGetV(armci_giov_t *iov, int iov_len, int proc, armci_hdl_t* handle)
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_NbGetV(iov, iov_len, proc, handle);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_stats(&profiling_state.nbget, t1-t0, size);
   return rc;
 }
@@ -650,7 +654,7 @@ int ARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_NbAccV(datatype, scale, iov, iov_len, proc, handle);
   const double t1 = MPI_Wtime();
-  const int64_t size = ARMCII_Vector_count(iov);
+  const int64_t size = ARMCII_Vector_count(iov, iov_len);
   ARMCII_Update_stats(&profiling_state.nbacc, t1-t0, size);
   return rc;
 }
-- 
2.43.0


From 1f037b1deef48f41650987dee885f974401d4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 24/29] fix: profiling library starts when the application
 calls ARMCI_Init_mpi_comm

---
 profiler/profiling.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/profiler/profiling.c b/profiler/profiling.c
index 7d1db49..c1bd220 100644
--- a/profiler/profiling.c
+++ b/profiler/profiling.c
@@ -369,6 +369,12 @@ int ARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
   return rc;
 }
 
+int ARMCI_Init_mpi_comm(MPI_Comm comm) {
+  const int rc = PARMCI_Init_mpi_comm(comm);
+  ARMCII_Profile_init();
+  return rc;
+}
+
 int ARMCI_Finalize(void) {
   ARMCII_Profile_dump(profiling_state.file);
   return PARMCI_Finalize();
-- 
2.43.0


From 4b8f3ebeae723de58a1d31e3d3e710b3c3130f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 25/29] fix: profiling library records ARMCI_WaitProc as a wait

---
 profiler/profiling.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/profiler/profiling.c b/profiler/profiling.c
index c1bd220..f47bf11 100644
--- a/profiler/profiling.c
+++ b/profiler/profiling.c
@@ -579,6 +579,14 @@ int ARMCI_Test(armci_hdl_t* hdl) {
   return rc;
 }
 
+int ARMCI_WaitProc(int proc) {
+  const double t0 = MPI_Wtime();
+  const int rc = PARMCI_WaitProc(proc);
+  const double t1 = MPI_Wtime();
+  ARMCII_Update_stats(&profiling_state.wait, t1-t0, 0);
+  return rc;
+}
+
 int ARMCI_WaitAll(void) {
   const double t0 = MPI_Wtime();
   const int rc = PARMCI_WaitAll();
-- 
2.43.0


From 6e56af1f983fdfe9cfb4456b3d0dd9b6782abed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 26/29] fix: guard every traversal of the region list against
 threads that create or free allocations

---
 src/gmr.c         | 24 ++++++++++++++++++++++++
 src/gmr.h         |  4 ++++
 src/onesided_nb.c | 14 ++++++++++++++
 src/util.c        | 12 ++++++++++++
 4 files changed, 54 insertions(+)

diff --git a/src/gmr.c b/src/gmr.c
index 5f624dc..060608e 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -16,6 +16,26 @@ gmr_t *gmr_list = NULL;
 static pthread_mutex_t gmr_list_mutex = PTHREAD_MUTEX_INITIALIZER;
 #endif
 
+void gmr_list_lock(void)
+{
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_lock(&gmr_list_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
+
+void gmr_list_unlock(void)
+{
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_unlock(&gmr_list_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
+
 #ifdef USE_RMA_REQUESTS
 
 #if defined(OPEN_MPI) && defined(OMPI_MAJOR_VERSION) && (OMPI_MAJOR_VERSION >= 5)
@@ -471,6 +491,8 @@ int gmr_destroy_all(void) {
 gmr_t *gmr_lookup(void *ptr, int proc) {
   gmr_t *mreg;
 
+  gmr_list_lock();
+
   mreg = gmr_list;
 
   while (mreg != NULL) {
@@ -488,6 +510,8 @@ gmr_t *gmr_lookup(void *ptr, int proc) {
     mreg = mreg->next;
   }
 
+  gmr_list_unlock();
+
   return mreg;
 }
 
diff --git a/src/gmr.h b/src/gmr.h
index 602593b..afe929e 100644
--- a/src/gmr.h
+++ b/src/gmr.h
@@ -39,6 +39,10 @@ typedef struct gmr_s {
 
 extern gmr_t *gmr_list;
 
+/* Guard traversals of gmr_list against threads that create or destroy regions. */
+void gmr_list_lock(void);
+void gmr_list_unlock(void);
+
 gmr_t *gmr_create(gmr_size_t local_size, void **base_ptrs, ARMCI_Group *group);
 void   gmr_destroy(gmr_t *mreg, ARMCI_Group *group);
 int    gmr_destroy_all(void);
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 2d7c3e6..7d7ac93 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -284,6 +284,8 @@ int PARMCI_Wait(armci_hdl_t* handle)
 
 #else
 
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   if(handle->aggregate > 0) {
@@ -300,6 +302,8 @@ int PARMCI_Wait(armci_hdl_t* handle)
     }
   }
 
+  gmr_list_unlock();
+
 #endif
 
   return 0;
@@ -394,12 +398,17 @@ int PARMCI_Test(armci_hdl_t* handle)
   */
 int PARMCI_WaitProc(int proc)
 {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_flush(cur_mreg, proc, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
+
   return 0;
 }
 
@@ -418,12 +427,17 @@ int PARMCI_WaitProc(int proc)
   */
 int PARMCI_WaitAll(void)
 {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_flushall(cur_mreg, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
+
   return 0;
 }
 
diff --git a/src/util.c b/src/util.c
index 540c52e..0604335 100644
--- a/src/util.c
+++ b/src/util.c
@@ -58,12 +58,16 @@ void PARMCI_Barrier(void) {
   * @param[in] proc Process to target
   */
 void PARMCI_Fence(int proc) {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_flush(cur_mreg, proc, 0);
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
   return;
 }
 
@@ -81,12 +85,16 @@ void PARMCI_Fence(int proc) {
 /** Wait for remote completion on all one-sided operations.
   */
 void PARMCI_AllFence(void) {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_flushall(cur_mreg, 0);
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
   return;
 }
 
@@ -235,10 +243,14 @@ int ARMCII_Is_win_unified(MPI_Win win)
 /** Sync all windows
   */
 void ARMCII_Sync(void) {
+  gmr_list_lock();
+
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
     gmr_sync(cur_mreg);
     cur_mreg = cur_mreg->next;
   }
+
+  gmr_list_unlock();
 }
-- 
2.43.0


From cd3bca28d7f15e58ff23a1288bb3176945ae72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 27/29] fix: compute strided displacements in address-sized
 arithmetic

The displacement of a block was accumulated in an int, which overflows for
regions that span 2 GB or more, so blocks were transferred to or from wrong
addresses.
---
 src/strided.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index a151136..ab5d524 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -431,15 +431,15 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
       idx[i] = 0;
 
     for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      MPI_Aint disp_src = 0;
+      MPI_Aint disp_dst = 0;
 
       ARMCII_Assert(xfer < iov->ptr_array_len);
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += ((MPI_Aint) src_stride_ar[i])*idx[i];
+        disp_dst += ((MPI_Aint) dst_stride_ar[i])*idx[i];
       }
 
       // Add to the IO Vector
-- 
2.43.0


From 4c4f9f947122f08fff2f62d5ac918d8634f4a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 28/29] fix: Intel MPI version string overflows its buffer
 during initialization

---
 src/init_finalize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index d61136e..3b48d77 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -149,7 +149,7 @@ static void ARMCII_Parse_library_version(char * library_version, enum ARMCII_MPI
       char impi_patch[6] = {0}; /* ".PrcX" is max since major=2+ */
       for (int major = 2030; major >= 2000; major--) {
         for (int minor = 30; minor >= 0; minor--) {
-          char version_string[7] = {0};
+          char version_string[8] = {0};
           sprintf(version_string,"%d.%d",major,minor);
           char * p = strstr(library_version,version_string);
           if (p != NULL) {
-- 
2.43.0


From 3e511ccdfd24ace98d8fc435975a7124cc75c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 29/29] fix: vector operations with many segments overflow the
 stack (DIRECT method)

---
 src/vector.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 0a8028d..791695e 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -305,10 +305,10 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
 
     gmr_t *mreg;
     MPI_Datatype  type_loc, type_rem;
-    int           disp_loc[count];
-    int           disp_rem[count];
-    int           block_len[count];
-    MPI_Aint      loc_addr[count];
+    int          *disp_loc;
+    int          *disp_rem;
+    int          *block_len;
+    MPI_Aint     *loc_addr;
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
@@ -343,6 +343,14 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
 
     MPI_Get_address(dst_win_base, &base_rem);
 
+    /* There is no limit on the number of segments, so these can be too big for the stack. */
+    disp_loc  = malloc(count*sizeof(int));
+    disp_rem  = malloc(count*sizeof(int));
+    block_len = malloc(count*sizeof(int));
+    loc_addr  = malloc(count*sizeof(MPI_Aint));
+
+    ARMCII_Assert(disp_loc != NULL && disp_rem != NULL && block_len != NULL && loc_addr != NULL);
+
     /* Build both origin and target as element-indexed (indexed_block) types relative to a
      * real base buffer, instead of absolute-address hindexed types used from MPI_BOTTOM:
      * osc/ucx (OMPI4/OMPI5) segfaults when handed an hindexed/MPI_BOTTOM origin datatype in
@@ -419,6 +427,11 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       gmr_flush(mreg, proc, flush_local);
     }
 
+    free(disp_loc);
+    free(disp_rem);
+    free(block_len);
+    free(loc_addr);
+
     return 0;
 }
 
-- 
2.43.0

