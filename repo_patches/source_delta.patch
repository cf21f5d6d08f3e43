From 47d32d5a00b22712e26b891a6d9577d94b63f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 01/18] fix: assertion in comm_parallel_env_reduce_ext assigned
 instead of comparing

---
 src/p4est_communication.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index b4aa05d..5bb4cb7 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -279,7 +279,7 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
     p4est->global_first_quadrant[p + 1] =
       p4est->global_first_quadrant[p] + n_quadrants[ranks[p]];
   }
-  P4EST_ASSERT (p4est->global_first_quadrant[submpisize] =
+  P4EST_ASSERT (p4est->global_first_quadrant[submpisize] ==
                 p4est->global_num_quadrants);
   P4EST_FREE (n_quadrants);
 
-- 
2.43.0


From 508c1a50320c39528542d08e27dd1f68c1cfa797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 02/18] fix: check the result of reading the saved quadrant
 partition

---
 src/p4est.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p4est.c b/src/p4est.c
index bd0a058..3095ce5 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3837,8 +3837,8 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
     if (!autopartition) {
       P4EST_ASSERT (num_procs == save_num_procs);
       u64a = P4EST_REALLOC (u64a, uint64_t, num_procs);
-      sc_io_source_read (src, u64a, sizeof (uint64_t) * (size_t) num_procs,
-                         NULL);
+      retval = sc_io_source_read
+        (src, u64a, sizeof (uint64_t) * (size_t) num_procs, NULL);
       SC_CHECK_ABORT (!retval, "read quadrant partition");
       for (i = 0; i < num_procs; ++i) {
         gfq[i + 1] = (p4est_gloidx_t) u64a[i];
@@ -4147,8 +4147,8 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
     if (!autopartition) {
       P4EST_ASSERT (num_procs == save_num_procs);
       u64a = P4EST_REALLOC (u64a, uint64_t, num_procs);
-      sc_io_source_read (src, u64a, sizeof (uint64_t) * (size_t) num_procs,
-                         NULL);
+      retval = sc_io_source_read
+        (src, u64a, sizeof (uint64_t) * (size_t) num_procs, NULL);
       SC_CHECK_ABORT (!retval, "read quadrant partition");
       for (i = 0; i < num_procs; ++i) {
         gfq[i + 1] = (p4est_gloidx_t) u64a[i];
-- 
2.43.0


From 896b5370ddf144a698fc38af308e4cd7aef61aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 03/18] fix: check that the output file of a saved forest was
 completed

---
 src/p4est.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/p4est.c b/src/p4est.c
index 3095ce5..6824999 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3572,7 +3572,8 @@ p4est_save_ext (const char *filename, p4est_t * p4est,
 
 #ifdef P4EST_MPIIO_WRITE
     /* we will close the sequential access to the file */
-    sc_io_sink_destroy (sink);
+    retval = sc_io_sink_destroy (sink);
+    SC_CHECK_ABORT (!retval, "sink destroy");
     sink = NULL;
 #else
     /* file is still open for sequential write mode */
@@ -3662,7 +3663,8 @@ p4est_save_ext (const char *filename, p4est_t * p4est,
 
 #ifndef P4EST_MPIIO_WRITE
   if (p4est->mpirank == 0) {
-    sc_io_sink_destroy (sink);
+    retval = sc_io_sink_destroy (sink);
+    SC_CHECK_ABORT (!retval, "sink destroy");
     sink = NULL;
   }
   else {
-- 
2.43.0


From 578d6fcbc19bbf5747873b6f774b49ff305d8f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 04/18] fix: check that the connectivity of a saved forest was
 written

---
 src/p4est.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p4est.c b/src/p4est.c
index 6824999..31870ea 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3524,7 +3524,8 @@ p4est_save_ext (const char *filename, p4est_t * p4est,
     sink = sc_io_sink_new (SC_IO_TYPE_FILENAME, SC_IO_MODE_WRITE,
                            SC_IO_ENCODE_NONE, filename);
     SC_CHECK_ABORT (sink != NULL, "file open");
-    p4est_connectivity_sink (p4est->connectivity, sink);
+    retval = p4est_connectivity_sink (p4est->connectivity, sink);
+    SC_CHECK_ABORT (!retval, "write connectivity");
 
     /* align the start of the header */
     fpos = sink->bytes_out;
-- 
2.43.0


From 3cd8e52784d79d7a5c2cb4a0aad1407187deaedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 05/18] fix: check the result of several MPI calls

---
 src/p4est_connectivity.c | 1 +
 src/p4est_lnodes.c       | 9 +++++++--
 src/p6est_ghost.c        | 1 +
 src/p6est_lnodes.c       | 1 +
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index b7646b6..0754aaf 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -802,6 +802,7 @@ p4est_connectivity_mission (p4est_connectivity_t *conn_in,
   mpiret = sc_MPI_Comm_split (world_comm,
                               node_rank == 0 ? 0 : sc_MPI_UNDEFINED,
                               world_rank, &head_comm);
+  SC_CHECK_MPI (mpiret);
   if (node_rank == 0) {
     /* broadcast the connectivity to the first rank of each node */
     head_conn = p4est_connectivity_bcast (conn_in, 0, head_comm);
diff --git a/src/p4est_lnodes.c b/src/p4est_lnodes.c
index d4482c1..3742174 100644
--- a/src/p4est_lnodes.c
+++ b/src/p4est_lnodes.c
@@ -2314,6 +2314,7 @@ p4est_lnodes_global_and_sharers (p4est_lnodes_data_t * data,
 {
   int                 i, j, k, l;
   int                 mpisize = p4est->mpisize;
+  int                 mpiret;
   p4est_gloidx_t     *gnodes = lnodes->nonlocal_nodes, gtotal;
   size_t              count, zz;
   p4est_locidx_t     *lp, li, *inode;
@@ -2350,8 +2351,10 @@ p4est_lnodes_global_and_sharers (p4est_lnodes_data_t * data,
 
   global_num_indep = lnodes->global_owned_count = P4EST_ALLOC (p4est_locidx_t,
                                                                mpisize);
-  sc_MPI_Allgather (&owned_count, 1, P4EST_MPI_LOCIDX, global_num_indep, 1,
-                    P4EST_MPI_LOCIDX, p4est->mpicomm);
+  mpiret = sc_MPI_Allgather (&owned_count, 1, P4EST_MPI_LOCIDX,
+                             global_num_indep, 1, P4EST_MPI_LOCIDX,
+                             p4est->mpicomm);
+  SC_CHECK_MPI (mpiret);
 
   global_offsets[0] = 0;
   for (i = 0; i < mpisize; i++) {
@@ -3495,6 +3498,7 @@ p4est_lnodes_share_owned_begin (sc_array_t * node_data,
   P4EST_ASSERT (node_data->elem_count == (size_t) lnodes->num_local_nodes);
 
   mpiret = sc_MPI_Comm_rank (comm, &mpirank);
+  SC_CHECK_MPI (mpiret);
 
   buffer = P4EST_ALLOC (p4est_lnodes_buffer_t, 1);
 
@@ -3603,6 +3607,7 @@ p4est_lnodes_share_all_begin (sc_array_t * node_data, p4est_lnodes_t * lnodes)
   int                 mpirank;
 
   mpiret = sc_MPI_Comm_rank (comm, &mpirank);
+  SC_CHECK_MPI (mpiret);
 
   P4EST_ASSERT (node_data->elem_count == (size_t) lnodes->num_local_nodes);
 
diff --git a/src/p6est_ghost.c b/src/p6est_ghost.c
index 323b3d1..789a420 100644
--- a/src/p6est_ghost.c
+++ b/src/p6est_ghost.c
@@ -185,6 +185,7 @@ p6est_ghost_send_front_layers (p6est_ghost_t * ghost,
                            (int) lcount * sizeof (p2est_quadrant_t),
                            sc_MPI_BYTE, i, P6EST_COMM_GHOST, p6est->mpicomm,
                            req);
+    SC_CHECK_MPI (mpiret);
     P4EST_ASSERT (lmpfo[i + 1] == loffset);
   }
 
diff --git a/src/p6est_lnodes.c b/src/p6est_lnodes.c
index 3a8a9e9..b207aa3 100644
--- a/src/p6est_lnodes.c
+++ b/src/p6est_lnodes.c
@@ -129,6 +129,7 @@ p6est_lnodes_new (p6est_t * p6est, p6est_ghost_t * ghost, int degree)
     mpiret = sc_MPI_Allgather (&newowned, 1, P4EST_MPI_LOCIDX,
                                lnodes->global_owned_count, 1,
                                P4EST_MPI_LOCIDX, p6est->mpicomm);
+    SC_CHECK_MPI (mpiret);
 
     owned_offsets[0] = 0;
     for (i = 0; i < mpisize; i++) {
-- 
2.43.0


From 36040adf795830f736c54aa33bdb20efbc24b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 06/18] fix: p4est_nodes.h and p8est_nodes.h can be included in
 one C program

Both defined a union tagged p4est_indep_data.
---
 src/p8est_nodes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p8est_nodes.h b/src/p8est_nodes.h
index 12671bf..627083b 100644
--- a/src/p8est_nodes.h
+++ b/src/p8est_nodes.h
@@ -37,7 +37,7 @@ typedef struct p8est_indep
   p4est_qcoord_t      x, y, z;
   int8_t              level, pad8;
   int16_t             pad16;
-  union p4est_indep_data
+  union p8est_indep_data
   {
     void               *unused;
     p4est_topidx_t      which_tree;
-- 
2.43.0


From 62e3adfc9c996750f2f88cd5bf13be186c152604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 07/18] fix: two face connections of the 2D drop connectivity
 match its vertices

---
 src/p4est_connectivity.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 0754aaf..afdfed4 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -1921,10 +1921,10 @@ p4est_connectivity_new_drop (void)
   };
   const int8_t        tree_to_face[5 * 4] = {
     0, 0, 2, 2,
-    1, 2, 2, 3,
-    0, 1, 1, 1,
-    3, 3, 2, 3,
-    0, 1, 3, 0,
+    1, 6, 2, 3,
+    0, 1, 5, 1,
+    7, 3, 2, 3,
+    0, 1, 3, 4,
   };
 
   const p4est_topidx_t tree_to_corner[5 * 4] = {
-- 
2.43.0


From 6e29858bf96a5b1b90904bece948d1ed8379b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 08/18] fix: release temporary arrays when writing VTK data
 fails

---
 src/p4est_vtk.c | 1 +
 src/p6est_vtk.c | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/p4est_vtk.c b/src/p4est_vtk.c
index 039a06c..36c9d0c 100644
--- a/src/p4est_vtk.c
+++ b/src/p4est_vtk.c
@@ -1103,6 +1103,7 @@ p4est_vtk_write_header_ho (p4est_vtk_context_t * cont, sc_array_t * positions,
   if (retval) {
     P4EST_LERROR (P4EST_STRING "_vtk: Error encoding connectivity\n");
     p4est_vtk_context_destroy (cont);
+    P4EST_FREE (locidx_data);
     return NULL;
   }
 #endif
diff --git a/src/p6est_vtk.c b/src/p6est_vtk.c
index 6f80d3d..aef2a92 100644
--- a/src/p6est_vtk.c
+++ b/src/p6est_vtk.c
@@ -307,6 +307,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding points\n");
     fclose (vtufile);
+    P4EST_FREE (float_data);
     return -1;
   }
 #endif
@@ -338,6 +339,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding connectivity\n");
     fclose (vtufile);
+    P4EST_FREE (locidx_data);
     return -1;
   }
 #endif
@@ -365,6 +367,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding offsets\n");
     fclose (vtufile);
+    P4EST_FREE (locidx_data);
     return -1;
   }
 #endif
@@ -394,6 +397,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding types\n");
     fclose (vtufile);
+    P4EST_FREE (locidx_data);
     return -1;
   }
 #endif
@@ -430,6 +434,7 @@ p6est_vtk_write_header (p6est_t * p6est,
     if (retval) {
       P4EST_LERROR ("p6est_vtk: Error encoding types\n");
       fclose (vtufile);
+      P4EST_FREE (locidx_data);
       return -1;
     }
 #endif
@@ -475,6 +480,7 @@ p6est_vtk_write_header (p6est_t * p6est,
     if (retval) {
       P4EST_LERROR ("p6est_vtk: Error encoding types\n");
       fclose (vtufile);
+      P4EST_FREE (locidx_data);
       return -1;
     }
 #endif
@@ -629,6 +635,7 @@ p6est_vtk_write_point_scalar (p6est_t * p6est,
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding points\n");
     fclose (vtufile);
+    P4EST_FREE (float_data);
     return -1;
   }
   P4EST_FREE (float_data);
-- 
2.43.0


From 6063f5df8923d870bf91d25e86e47746f2434fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 09/18] fix: p4est_connectivity_is_equivalent releases its
 transforms on mismatch

---
 src/p4est_connectivity.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index afdfed4..696aa1f 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5061,12 +5061,16 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p8est_find_edge_transform (conn1, t, e, &e1);
         p8est_find_edge_transform (conn2, t, e, &e2);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
+          sc_array_reset (&e1.edge_transforms);
+          sc_array_reset (&e2.edge_transforms);
           return 0;
         }
         /* sort so memory comparison is correct */
         sc_array_sort (&e1.edge_transforms, p8est_edge_compare);
         sc_array_sort (&e2.edge_transforms, p8est_edge_compare);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
+          sc_array_reset (&e1.edge_transforms);
+          sc_array_reset (&e2.edge_transforms);
           return 0;
         }
         for (zz = 0; zz < e1.edge_transforms.elem_count; zz++) {
@@ -5081,6 +5085,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
               t1->naxis[2] != t2->naxis[2] ||
               t1->nedge != t2->nedge ||
               t1->nflip != t2->nflip || t1->ntree != t2->ntree) {
+            sc_array_reset (&e1.edge_transforms);
+            sc_array_reset (&e2.edge_transforms);
             return 0;
           }
         }
@@ -5104,6 +5110,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p4est_find_corner_transform (conn2, t, c, &c2);
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
+          sc_array_reset (&c1.corner_transforms);
+          sc_array_reset (&c2.corner_transforms);
           return 0;
         }
         /* sort so memory comparison is correct */
@@ -5112,6 +5120,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
 
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
+          sc_array_reset (&c1.corner_transforms);
+          sc_array_reset (&c2.corner_transforms);
           return 0;
         }
         for (zz = 0; zz < c1.corner_transforms.elem_count; zz++) {
@@ -5121,6 +5131,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
             (&c2.corner_transforms, zz);
 
           if (t1->ncorner != t2->ncorner || t1->ntree != t2->ntree) {
+            sc_array_reset (&c1.corner_transforms);
+            sc_array_reset (&c2.corner_transforms);
             return 0;
           }
         }
-- 
2.43.0


From c7b0c33da905dd663199b7b3879b11d87177c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 10/18] fix: p4est_balance_seeds wrote through its optional
 argument when the quadrant lies inside

---
 src/p4est_balance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index 80d9776..e568aa4 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -994,9 +994,11 @@ p4est_balance_seeds (p4est_quadrant_t * q, p4est_quadrant_t * p,
   switch (type) {
   case 0:
     /* q is inside p, so it is its own seed */
-    sc_array_resize (seeds, seeds->elem_count + 1);
-    s = p4est_quadrant_array_index (seeds, seeds->elem_count - 1);
-    *s = *q;
+    if (seeds != NULL) {
+      sc_array_resize (seeds, seeds->elem_count + 1);
+      s = p4est_quadrant_array_index (seeds, seeds->elem_count - 1);
+      *s = *q;
+    }
     return 1;
   case 1:
     for (i = 0; i < P4EST_DIM; i++) {
-- 
2.43.0


From 9559b9edeaf11decf34df23a1a82d6e171b96c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 11/18] fix: p4est_mesh_new_params read its optional parameters
 in an assertion

---
 src/p4est_mesh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 70961a6..7abaa78 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -1265,9 +1265,6 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
   p4est_locidx_t      jl;
   p4est_mesh_t       *mesh;
 
-  /* check whether input condition for p4est is met */
-  P4EST_ASSERT (p4est_is_balanced (p4est, params->btype));
-
   mesh = P4EST_ALLOC_ZERO (p4est_mesh_t, 1);
 
   /* store mesh creation parameters in mesh */
@@ -1279,6 +1276,9 @@ p4est_mesh_new_params (p4est_t * p4est, p4est_ghost_t * ghost,
     p4est_mesh_params_init (&mesh->params);
   }
 
+  /* check whether input condition for p4est is met */
+  P4EST_ASSERT (p4est_is_balanced (p4est, mesh->params.btype));
+
   /* number of local quadrants and number of local ghost cells */
   lq = mesh->local_num_quadrants = p4est->local_num_quadrants;
   ng = mesh->ghost_num_quadrants = (p4est_locidx_t) ghost->ghosts.elem_count;
-- 
2.43.0


From caa2c745032487cfd06bba4161ef4ab7fea4a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 12/18] fix: p6est coarsening read the user data pool when
 there is no user data

---
 src/p6est.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 36af898..b5afb44 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1446,7 +1446,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
   int                 i, stackheight;
 #ifdef P4EST_ENABLE_DEBUG
-  size_t              mcount = p6est->user_data_pool->elem_count;
+  size_t              mcount = p6est->user_data_pool == NULL ? 0 :
+    p6est->user_data_pool->elem_count;
   p4est_qcoord_t      startpos, endpos;
 #endif
 
@@ -1553,7 +1554,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   sc_array_resize (descendants, new_count);
 
 #ifdef P4EST_ENABLE_DEBUG
-  P4EST_ASSERT (mcount - p6est->user_data_pool->elem_count ==
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                mcount - p6est->user_data_pool->elem_count ==
                 (old_count - new_count));
 
   q = p2est_quadrant_array_index (descendants, new_count - 1);
@@ -1755,7 +1757,8 @@ p6est_coarsen_layers_ext (p6est_t * p6est, int coarsen_recursive,
   }
   p6est_compress_columns (p6est);
   p6est_update_offsets (p6est);
-  P4EST_ASSERT (p6est->user_data_pool->elem_count == layers->elem_count);
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                p6est->user_data_pool->elem_count == layers->elem_count);
 
   p4est_log_indent_pop ();
   P4EST_GLOBAL_PRODUCTIONF
-- 
2.43.0


From 01c0b25d627e65765d71ca22e51a341f0b44cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 13/18] fix: p6est partition conversions stored one offset more
 than they allocated

---
 src/p6est.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index b5afb44..dc7ce8a 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2186,8 +2186,8 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2226,7 +2226,7 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2253,8 +2253,8 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->columns->global_num_quadrants;
 
@@ -2296,7 +2296,7 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2325,8 +2325,8 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     p6est->columns->global_first_quadrant[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2366,7 +2366,7 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
-- 
2.43.0


From 474f99568f21e3f3aab3616ac84771a10bad8c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 14/18] fix: p4est_vtk_write_footer reports a failure to close
 its files

---
 src/p4est_vtk.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/p4est_vtk.c b/src/p4est_vtk.c
index 36c9d0c..cb594b4 100644
--- a/src/p4est_vtk.c
+++ b/src/p4est_vtk.c
@@ -2106,6 +2106,7 @@ int
 p4est_vtk_write_footer (p4est_vtk_context_t * cont)
 {
   int                 p;
+  int                 retval;
   int                 procRank = cont->p4est->mpirank;
   int                 numProcs = cont->p4est->mpisize;
   char               *filename_basename, filename_cpy[BUFSIZ];
@@ -2158,8 +2159,22 @@ p4est_vtk_write_footer (p4est_vtk_context_t * cont)
     }
   }
 
+  /* Close all files here to be able to report an error */
+  retval = fclose (cont->vtufile);
+  cont->vtufile = NULL;
+  if (procRank == 0) {
+    retval = fclose (cont->pvtufile) || retval;
+    cont->pvtufile = NULL;
+    retval = fclose (cont->visitfile) || retval;
+    cont->visitfile = NULL;
+  }
+
   /* Destroy context structure. */
   p4est_vtk_context_destroy (cont);
 
+  if (retval) {
+    P4EST_LERROR (P4EST_STRING "_vtk: Error closing files\n");
+    return -1;
+  }
   return 0;
 }
-- 
2.43.0


From 61fadf12d8fe9c87d68012a67c65c57825420766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 15/18] fix: p4est_connectivity_permute moves tree attributes
 and tolerates missing vertices

---
 src/p4est_connectivity.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 696aa1f..e420590 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4214,9 +4214,18 @@ p4est_connectivity_permute (p4est_connectivity_t * conn, sc_array_t * inperm,
   /* now we reorder the various tables via in-place permutation */
 
   /* tree_to_vertex */
-  sc_array_init_data (&array_view, conn->tree_to_vertex,
-                      P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
-  sc_array_permute (&array_view, permarray, 1);
+  if (conn->tree_to_vertex != NULL) {
+    sc_array_init_data (&array_view, conn->tree_to_vertex,
+                        P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
+    sc_array_permute (&array_view, permarray, 1);
+  }
+
+  /* tree_to_attr */
+  if (conn->tree_to_attr != NULL) {
+    sc_array_init_data (&array_view, conn->tree_to_attr,
+                        conn->tree_attr_bytes, ntrees);
+    sc_array_permute (&array_view, permarray, 1);
+  }
 
   /* tree_to_tree */
   sc_array_init_data (&array_view, conn->tree_to_tree,
-- 
2.43.0


From 811f5aa3429959866e63b2eea8a78cec322cfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:36 +0000
Subject: [PATCH 16/18] fix: initialise the data of a joined column's layer
 after choosing the layer

p6est_replace_column_join called p6est_layer_init_data before the loop that
may overwrite the new layer by one of the outgoing ones.  The new data was
lost and the layer kept the data of an outgoing layer, which is then freed.
---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index dc7ce8a..12024d5 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1611,13 +1611,13 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
     }
     p = p2est_quadrant_array_push (work_array);
     *p = *q[0];
-    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 1; j < num_outgoing; j++) {
       P4EST_ASSERT (q[j]->z == p->z);
       if (q[j]->level < p->level) {
         *p = *q[j];
       }
     }
+    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 0; j < num_outgoing; j++) {
       if (q[j]->level > p->level) {
         P4EST_ASSERT (p2est_quadrant_is_ancestor (p, q[j]));
-- 
2.43.0


From 56e10d031d25bb6238d0ddff901a4f09dc10b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:25 +0000
Subject: [PATCH 17/18] fix: p6est copied without user data must not share the
 pool of its original

---
 src/p6est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p6est.c b/src/p6est.c
index 12024d5..0b3b977 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -609,6 +609,7 @@ p6est_copy_ext (p6est_t * input, int copy_data, int duplicate_comm)
   }
   else {
     p6est->data_size = 0;
+    p6est->user_data_pool = NULL;
   }
   p6est->layer_pool = p2est_quadrant_mempool_new ();
 
-- 
2.43.0


From b4e3840f5387b67224311d7462689bd382e614cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:58 +0000
Subject: [PATCH 18/18] fix: p6est_load_ext without data to load

With a data size of zero load_data is ignored as documented, instead of
allocating from a pool that does not exist.  Layers of a p6est with data
whose data is not loaded get space for it, as on creation.
---
 src/p6est.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/p6est.c b/src/p6est.c
index 0b3b977..ed6204d 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -939,6 +939,11 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_load %s\n", filename);
   p4est_log_indent_push ();
 
+  /* without data there is nothing to load */
+  if (data_size == 0) {
+    load_data = 0;
+  }
+
   /* open file on all processors */
   src = sc_io_source_new (SC_IO_TYPE_FILENAME, SC_IO_ENCODE_NONE, filename);
   SC_CHECK_ABORT (src != NULL, "file source");
@@ -1052,6 +1057,9 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
         layer->p.user_data = sc_mempool_alloc (p6est->user_data_pool);
         memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
       }
+      else {
+        p6est_layer_init_data (p6est, -1, NULL, layer, NULL);
+      }
     }
     sc_array_destroy (loaddata);
   }
-- 
2.43.0

