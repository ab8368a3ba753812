From 8760717f46da1c21326fbba5750cdf4cede3dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:27 +0000
Subject: [PATCH 001/146] fix: do not overwrite unread data when redistributing
 a graph with a user permutation

---
 src/libscotch/dgraph_redist.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/dgraph_redist.c b/src/libscotch/dgraph_redist.c
index a541294..fef56f0 100644
--- a/src/libscotch/dgraph_redist.c
+++ b/src/libscotch/dgraph_redist.c
@@ -351,10 +351,9 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
            dstveloloctax  = ((srcgrafptr->veloloctax != NULL) ? dstveloloctax - baseval : NULL),
            dstvlblloctax -= baseval,
            memAllocGroup ((void **) (void *)
-                          &dstedgeloctax, (size_t) ((dstedlolocsiz +  /* TRICK: extra space required only if edge loads                                */
-                                                     MAX (dstedgelocdlt, srcgrafptr->degrglbmax)) * sizeof (Gnum)), /* TRICK: degrmax to avoid overlap */
-                          &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)), /* TRICK: send space will be edgeloctab or edloloctab                 */
-                          &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed              */
+                          &dstedgeloctax, (size_t) ((dstedgelocsiz + dstedlolocsiz) * sizeof (Gnum)), /* No overlap, as data may be read in any order */
+                          &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)),
+                          &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed */
     errorPrint ("dgraphRedist2: out of memory (3)");
     cheklocval = 1;
   }
@@ -461,12 +460,12 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
       drcvdatidx += dstdegrval;
     }
 #ifdef SCOTCH_DEBUG_DGRAPH2
-    if (abs ((dstedgeloctax + dstedgelocnum) - (drcvdattab + drcvdatidx)) < dstdegrval) { /* TRICK: memory areas should never overlap because of degrmax */
+    if (abs ((dstedgeloctax + dstedgelocnum) - (drcvdattab + drcvdatidx)) < dstdegrval) { /* Memory areas should never overlap */
       errorPrint ("dgraphRedist2: internal error (2)");
       return (1);
     }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
-    memCpy (dstedgeloctax + dstedgelocnum, drcvdattab + drcvdatidx, dstdegrval * sizeof (Gnum)); /* TRICK: will never overlap */
+    memCpy (dstedgeloctax + dstedgelocnum, drcvdattab + drcvdatidx, dstdegrval * sizeof (Gnum));
 
     dstedgelocnum += dstdegrval;
   }
-- 
2.43.0


From afd4613973f11343219f91b36899ad135718457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:45 +0000
Subject: [PATCH 002/146] fix: receive the edge loads of processes without
 edges when loading a centralized graph

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 6c173b3..22dc2c2 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -597,7 +597,7 @@ const int                   protnum)              /* Root process number
           errorPrint ("dgraphLoadCent: communication error (13)");
           return     (1);
         }
-        if (edlolocnbr != 0) {
+        if ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) { /* Even if no local edges, as root will send a message */
           edloloctax = edgeloctax + edgelocnbr;
           if (MPI_Irecv (edloloctax, edgelocnbr, GNUM_MPI, protnum, TAGEDLOLOCTAB, grafptr->proccomm, &requtab[requnbr ++]) != MPI_SUCCESS) {
             errorPrint ("dgraphLoadCent: communication error (14)");
-- 
2.43.0


From 7a0573aa386e2d71e46461ec0b4c95d6fa6f4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:36 +0000
Subject: [PATCH 003/146] fix: translate labels of non-compact edge arrays when
 building a distributed graph

---
 src/libscotch/dgraph_build.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/dgraph_build.c b/src/libscotch/dgraph_build.c
index fb36e01..6a427d6 100644
--- a/src/libscotch/dgraph_build.c
+++ b/src/libscotch/dgraph_build.c
@@ -396,10 +396,13 @@ const Gnum                  degrlocmax)
       return (1);
     }
 
-    for (edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr, edgelocnum = baseval;
-         edsolocptr < edsoloctnd; edsolocptr ++, edgelocnum ++) {
-      edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
-      edsolocptr->edgelocnum = edgelocnum;
+    for (vertlocnum = baseval, edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr; /* Edge array may not be compact */
+         vertlocnum < vertlocnbr + baseval; vertlocnum ++) {
+      for (edgelocnum = vertloctax[vertlocnum];
+           edgelocnum < vendloctax[vertlocnum]; edgelocnum ++, edsolocptr ++) {
+        edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
+        edsolocptr->edgelocnum = edgelocnum;
+      }
     }
     intSort2asc2 (edsoloctab, grafptr->edgelocnbr);
 
-- 
2.43.0


From 82584c8757ea5402525db08cbda30e4accc9b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:44 +0000
Subject: [PATCH 004/146] fix: do not overflow vertex arrays when vertex loads
 are not to be loaded

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 22dc2c2..c803db6 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -267,7 +267,7 @@ const int                   protnum)              /* Root process number
     vertloctax  =
     vertlocptr -= baseval;
     vertlocptr += vertglbmax + 2;                 /* TRICK: "+2" for space for velolocsum */
-    if (proptab[2] != 0) {
+    if ((proptab[2] != 0) && ((flagval & GRAPHIONOLOADVERT) == 0)) {
       veloloctax  = vertlocptr;
       vertlocptr += vertglbmax;
     }
-- 
2.43.0


From bd88c705103ce5fa15621e043340e161715f0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:00 +0000
Subject: [PATCH 005/146] fix: do not copy a non-existent multinode array when
 folded coarsening is not performed

---
 src/libscotch/library_dgraph_coarsen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_coarsen.c b/src/libscotch/library_dgraph_coarsen.c
index c413063..1a90817 100644
--- a/src/libscotch/library_dgraph_coarsen.c
+++ b/src/libscotch/library_dgraph_coarsen.c
@@ -150,7 +150,8 @@ SCOTCH_Num * const          multloctab)           /* Pointer to multinode array
       memFree (multlocptr);                       /* Free allocated multinode array (folded or not) */
   }
   else {                                          /* User provided a multinode array                */
-    if (foldval != DGRAPHCOARSENNONE) {           /* If folding took place, user array was not used */
+    if ((foldval != DGRAPHCOARSENNONE) &&         /* If folding took place, user array was not used */
+        (multlocptr != NULL)) {                   /* And if we got some folded multinode data       */
 #ifdef SCOTCH_DEBUG_LIBRARY2
       SCOTCH_Num          multlocsiz;             /* Size that the user may have reserved for the multinode folded array */
 
-- 
2.43.0


From 47d33dd7fa56055e6bad0ed67e00a11c6c0102f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 006/146] fix: do not look for a receiver when a folding
 process keeps all of its vertices

---
 src/libscotch/dgraph_fold_comm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_fold_comm.c b/src/libscotch/dgraph_fold_comm.c
index 171884a..7f6223a 100644
--- a/src/libscotch/dgraph_fold_comm.c
+++ b/src/libscotch/dgraph_fold_comm.c
@@ -325,6 +325,8 @@ Gnum * restrict * restrict const                vertdlttabptr) /* Pointer to glo
           vertglbtmp  = (vertsndnbr - vertrcvnbr + commnbr) / (commnbr + 1); /* Compute overload including sender process */
           vertglbdlt += vertglbtmp;               /* Add extra overload to current overload                               */
           vertsndnbr -= vertglbtmp;               /* Extra overload vertices will not be sent by sender receiver process  */
+          if (vertsndnbr <= 0)                    /* If sender receiver process keeps all of its vertices                 */
+            continue;                             /* It has nothing to send; there may even be no more receivers          */
         }
       }
       else {                                      /* There is room for adding messages       */
-- 
2.43.0


From a4aa9c6cef26d01ec88143196704666d46bd4ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:28 +0000
Subject: [PATCH 007/146] fix: take band vertices from the frontier array and
 not from labels in SCOTCH_dgraphBand

---
 src/libscotch/library_dgraph_band.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 49bb48d..214d910 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -260,7 +260,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -290,7 +290,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -326,7 +326,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
       Gnum              vertlocnum;
       Gnum              bandedgelocnum;
 
-      vertlocnum     = bandvlblloctax[bandvertlocnum] - vertlocadj;
+      vertlocnum     = fronloctax[bandvertlocnum];
       bandedgelocnum = bandvertloctax[bandvertlocnum];
       memCpy (bandedloloctax + bandedgelocnum,    /* Copy edge load array */
               &edloloctax[vertloctax[vertlocnum]],
-- 
2.43.0


From 1bb9ec66d921a52cca83a5c584991000e4c22f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:38 +0000
Subject: [PATCH 008/146] fix: set the start of the last level when a band of
 null width is grown

---
 src/libscotch/dgraph_band_grow.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index 4f1942c..e3a2c95 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -176,6 +176,7 @@ Context *                         contptr)        /*+ Execution context
   }
   procvgbtab[procngbnum] = grafptr->procvrttab[grafptr->procglbnbr];
 
+  *bandvertlvlptr =                               /* In case no level is grown                */
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
@@ -432,6 +433,7 @@ Context *                         contptr)        /*+ Execution context
     } while (procngbnum != procngbnxt);
   }
 
+  *bandvertlvlptr =                               /* In case no level is grown                */
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
-- 
2.43.0


From c0cc332ea558e922dda2b6b3bdd8aebdfbdfcda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:04 +0000
Subject: [PATCH 009/146] fix: account for colours in the internal check of the
 collective growing routine

---
 src/libscotch/dgraph_band_grow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index e3a2c95..1b68179 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -237,7 +237,7 @@ Context *                         contptr)        /*+ Execution context
 #ifdef SCOTCH_DEBUG_DGRAPH2
           if ((grafptr->procvrttab[grafptr->procngbtab[procngbnum]]     >  vertglbend) ||
               (grafptr->procvrttab[grafptr->procngbtab[procngbnum] + 1] <= vertglbend) ||
-              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + grafptr->procrcvtab[grafptr->procngbtab[procngbnum]]))) {
+              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + DGRAPHBANDGROWSMUL (grafptr->procrcvtab[grafptr->procngbtab[procngbnum]])))) {
             errorPrint (DGRAPHBANDGROWNSTR "Coll: internal error (1)");
             return     (1);
           }
-- 
2.43.0


From 378490723c6a61b73dd5f8c8921dd28f0252a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 010/146] fix: set the vertex load sum of band graphs without
 vertex loads

---
 src/libscotch/library_dgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 214d910..900dd32 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -339,7 +339,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
   bandgrafptr->vertlocnnd = bandvertlocnbr + bandgrafptr->baseval;
   bandgrafptr->vendloctax = bandvertloctax + 1;   /* Band graph is compact */
   bandgrafptr->veloloctax = bandveloloctax;
-  bandgrafptr->velolocsum = bandvelolocsum;
+  bandgrafptr->velolocsum = (bandveloloctax != NULL) ? bandvelolocsum : bandvertlocnbr;
   bandgrafptr->vlblloctax = bandvlblloctax;
   bandgrafptr->edgeloctax = bandedgeloctax;
   bandgrafptr->edloloctax = bandedloloctax;
-- 
2.43.0


From 8a5f7aa6497fabd5322b12b740e70297b927720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:57 +0000
Subject: [PATCH 011/146] fix: build a compact identity permutation when a
 distributed ordering is empty

---
 src/libscotch/dorder_perm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dorder_perm.c b/src/libscotch/dorder_perm.c
index 3b89b8c..5ba8053 100644
--- a/src/libscotch/dorder_perm.c
+++ b/src/libscotch/dorder_perm.c
@@ -137,7 +137,7 @@ Gnum * restrict const         permloctab)
 
     memFree (senddsptab);                         /* Free group leader */
 
-    for (vnodlocnum = 0, ordelocval = grafptr->procvrttab[grafptr->proclocnum]; /* Build identity permutation */
+    for (vnodlocnum = 0, ordelocval = grafptr->procdsptab[grafptr->proclocnum]; /* Build identity permutation */
          vnodlocnum < grafptr->vertlocnbr; vnodlocnum ++)
       permloctab[vnodlocnum] = ordelocval ++;
 
-- 
2.43.0


From c5756548a2f3a945835e4e987f02da9c3567c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:13 +0000
Subject: [PATCH 012/146] fix: dispose of the leaf column blocks that parallel
 nested dissection orders elsewhere

---
 src/libscotch/hdgraph_order_nd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index 977fec3..352ca62 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -322,9 +322,11 @@ const HdgraphOrderNdParam * restrict const  paraptr)
     memFree (vspgrafdat.partgsttax + vspgrafdat.s.baseval); /* Free useless space */
     memFree (vspgrafdat.fronloctab);
 
-    hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    hdgraphExit    (grafptr);                     /* Free graph at this level   */
-    return (0);                                   /* Leaf has been processed    */
+    o = hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
+    if (grafptr->levlnum > 0)                     /* If not original column block   */
+      dorderDispose (cblkptr);                    /* Dispose of it if not needed    */
+    hdgraphExit (grafptr);                        /* Free graph at this level       */
+    return (o);                                   /* Leaf has been processed        */
   }
 
   vspvnumtab[0] = vspgrafdat.fronloctab + vspgrafdat.complocsize[2]; /* TRICK: build vertex lists within frontier array */
-- 
2.43.0


From b964dba08e241a78c465b54a21a71c1b60e1a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:51 +0000
Subject: [PATCH 013/146] fix: order distributed graphs the global numbering of
 which has holes

---
 src/libscotch/hdgraph_gather.c   | 23 +++++++++++++++++++++++
 src/libscotch/hdgraph_induce.c   |  2 +-
 src/libscotch/hdgraph_order_nd.c |  8 ++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hdgraph_gather.c b/src/libscotch/hdgraph_gather.c
index 89137a3..68ff69a 100644
--- a/src/libscotch/hdgraph_gather.c
+++ b/src/libscotch/hdgraph_gather.c
@@ -259,6 +259,29 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
         errorPrint ("hdgraphGather: communication error (5)");
         return     (1);
       }
+
+      if (dgrfptr->s.procvrttab[dgrfptr->s.procglbnbr] != dgrfptr->s.procdsptab[dgrfptr->s.procglbnbr]) { /* If graph has holes */
+        for (vertnum = dgrfptr->s.baseval; vertnum < cgrfptr->vnohnnd; vertnum ++) { /* Turn global indices into compact indices */
+          for (edgenum = cgrfptr->s.verttax[vertnum]; edgenum < cgrfptr->vnhdtax[vertnum]; edgenum ++) {
+            Gnum               vertend;
+            int                procngbnum;
+            int                procngbmax;
+
+            vertend = cgrfptr->s.edgetax[edgenum];
+            for (procngbnum = 0, procngbmax = dgrfptr->s.procglbnbr; /* Find owner of end vertex by dichotomy */
+                 procngbmax - procngbnum > 1; ) {
+              int                procngbmed;
+
+              procngbmed = (procngbmax + procngbnum) / 2;
+              if (dgrfptr->s.procvrttab[procngbmed] <= vertend)
+                procngbnum = procngbmed;
+              else
+                procngbmax = procngbmed;
+            }
+            cgrfptr->s.edgetax[edgenum] = vertend - dgrfptr->s.procvrttab[procngbnum] + dgrfptr->s.procdsptab[procngbnum];
+          }
+        }
+      }
     }
     else {
       if (MPI_Gatherv (dgrfptr->s.vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
diff --git a/src/libscotch/hdgraph_induce.c b/src/libscotch/hdgraph_induce.c
index f23c1f3..25a9d69 100644
--- a/src/libscotch/hdgraph_induce.c
+++ b/src/libscotch/hdgraph_induce.c
@@ -326,7 +326,7 @@ Hdgraph * restrict const    indgrafptr)
   else {
     Gnum                orgvertglbadj;
 
-    orgvertglbadj = orggrafptr->s.procvrttab[orggrafptr->s.proclocnum] - orggrafptr->s.baseval; /* Set adjustement for global ordering */
+    orgvertglbadj = orggrafptr->s.procdsptab[orggrafptr->s.proclocnum] - orggrafptr->s.baseval; /* Set adjustement for global ordering */
     for (indvertlocnum = orggrafptr->s.baseval; indvertlocnum < indvertlocnnd; indvertlocnum ++)
       indgrafptr->s.vnumloctax[indvertlocnum] = indlisttax[indvertlocnum] + orgvertglbadj;
   }
diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index 352ca62..c6aefb3 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -373,6 +373,14 @@ const HdgraphOrderNdParam * restrict const  paraptr)
       errorPrint ("hdgraphOrderNd2: cannot build induced subgraph (1)");
       goto abort;
     }
+    if (grafptr->s.vnumloctax == NULL) {          /* If original graph, it may have holes */
+      Gnum                vertlocadj;
+      Gnum                vertlocnum;
+
+      vertlocadj = grafptr->s.procvrttab[grafptr->s.proclocnum] - grafptr->s.procdsptab[grafptr->s.proclocnum];
+      for (vertlocnum = indgrafdat2.s.baseval; vertlocnum < indgrafdat2.s.vertlocnnd; vertlocnum ++)
+        indgrafdat2.s.vnumloctax[vertlocnum] -= vertlocadj; /* Orderings are based on compact indices */
+    }
     indgrafdat2.vhallocnbr = 0;                   /* No halo on graph */
     indgrafdat2.vhndloctax = indgrafdat2.s.vendloctax;
     indgrafdat2.ehallocnbr = 0;
-- 
2.43.0


From 2409bdac56cd5fa6d64180017fb67ba4bc218da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:15 +0000
Subject: [PATCH 014/146] fix: pass the execution context to the partitioning
 performed by the block ordering method

---
 src/libscotch/hgraph_order_kp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 4288c35..d6e1379 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -108,6 +108,7 @@ const HgraphOrderKpParam * restrict const paraptr)
 
   hgraphUnhalo (grafptr, &actgrafdat.s);          /* Extract non-halo part of given graph       */
   actgrafdat.s.vnumtax = NULL;                    /* Do not keep numbers from nested dissection */
+  actgrafdat.contptr   = grafptr->contptr;        /* Use context of ordering                    */
 
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
-- 
2.43.0


From d691991646c4f8c19ad3cd3f1b74fe6f6c1976a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 015/146] fix: pass the execution context to edge
 bipartitioning in vertex separation

---
 src/libscotch/vgraph_separate_es.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index 65e8b82..f5905a9 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -490,6 +490,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
   actgrafdat.veextax   = NULL;                    /* No external gains                           */
   actgrafdat.parttax   = grafptr->parttax;        /* Inherit arrays from vertex separation graph */
   actgrafdat.frontab   = grafptr->frontab;
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context */
   bgraphInit2 (&actgrafdat, 1, grafptr->dwgttab[0], grafptr->dwgttab[1], 0, 0); /* Complete initialization and set all vertices to part 0 */
 
   if (bgraphBipartSt (&actgrafdat, paraptr->strat) != 0) { /* Bipartition active subgraph */
-- 
2.43.0


From 6cc296fd1a5fabf057fbf376c69a4da7fcea8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:06 +0000
Subject: [PATCH 016/146] fix: do not shift vertex labels when saving
 distributed orderings of based graphs

---
 src/libscotch/dorder_io.c      | 5 +++--
 src/libscotch/dorder_io_tree.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/dorder_io.c b/src/libscotch/dorder_io.c
index bc23b26..bbcf556 100644
--- a/src/libscotch/dorder_io.c
+++ b/src/libscotch/dorder_io.c
@@ -113,6 +113,7 @@ FILE * restrict const         stream)
 
   reduloctab[0] = 0;
   permtab       = NULL;
+  vlbltax       = NULL;
   if (protnum == ordeptr->proclocnum) {
     Gnum                  vlblnbr;
 
@@ -128,6 +129,8 @@ FILE * restrict const         stream)
       return (1);
 #endif /* SCOTCH_DEBUG_DORDER1 */
     }
+    else
+      vlbltax -= ordeptr->baseval;                /* Base label array, as procdsptab holds based values */
   }
 #ifdef SCOTCH_DEBUG_DORDER1                       /* This communication cannot be covered by a useful one */
   if (MPI_Bcast (&reduloctab[0], 1, MPI_INT, protnum, ordeptr->proccomm) != MPI_SUCCESS) {
@@ -200,8 +203,6 @@ FILE * restrict const         stream)
     orderPeri (peritab, ordeptr->baseval, ordeptr->vnodglbnbr, permtab, ordeptr->baseval); /* Compute direct permutation */
 
     if (grafptr->vlblloctax != NULL) {            /* If ordering has label array */
-      vlbltax -= ordeptr->baseval;                /* Base label array            */
-
       for (vertnum = 0; vertnum < ordeptr->vnodglbnbr; vertnum ++) {
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
                      (Gnum) vlbltax[vertnum + ordeptr->baseval],
diff --git a/src/libscotch/dorder_io_tree.c b/src/libscotch/dorder_io_tree.c
index f40fd19..a8ab69c 100644
--- a/src/libscotch/dorder_io_tree.c
+++ b/src/libscotch/dorder_io_tree.c
@@ -128,7 +128,8 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
     if (cheklocval != 0)
       return (1);
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltab, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     (vlbltab != NULL) ? vlbltab - grafptr->baseval : NULL, /* procdsptab holds based values */
+                     grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSaveTree2: communication error (3)");
       return     (1);
     }
@@ -148,7 +149,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
   if (protnum == ordeptr->proclocnum) {
     cheklocval = dorderGather (ordeptr, &corddat); /* Need inverse permutation too */
     if (cheklocval == 0)
-      cheklocval = funcptr (&corddat, vlbltab, stream);
+      cheklocval = funcptr (&corddat, (vlbltab != NULL) ? vlbltab - grafptr->baseval : NULL, stream);
     orderExit (&corddat);
   }
   else
-- 
2.43.0


From 4200945e288ea7b962e03666a28fbef0437f89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:21 +0000
Subject: [PATCH 017/146] fix: return based father indices in the separator
 tree of distributed orderings

---
 src/libscotch/dorder_tree_dist.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dorder_tree_dist.c b/src/libscotch/dorder_tree_dist.c
index c61e9b6..60e7c47 100644
--- a/src/libscotch/dorder_tree_dist.c
+++ b/src/libscotch/dorder_tree_dist.c
@@ -118,6 +118,7 @@ Gnum * restrict const         sizeglbtab)
   Gnum                        dblkglbnbr;         /* Global number of distributed column blocks */
   Gnum                        dblkglbnum;
   Gnum                        dblkglbtmp;
+  Gnum                        fathglbnum;
   int * restrict              dblkcnttab;
   int * restrict              dblkdsptab;
   int * restrict              cblkdsptab;
@@ -295,7 +296,8 @@ Gnum * restrict const         sizeglbtab)
       return     (1);
     }
 #endif /* SCOTCH_DEBUG_DORDER2 */
-    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    fathglbnum = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = (fathglbnum < 0) ? -1 : (fathglbnum + ordeptr->baseval); /* Node indices are based, root is always -1 */
     sizeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 3];
   }
 
-- 
2.43.0


From 666281ae66ead2920f8bf70718a8eeec305eb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 018/146] fix: let the halo minimum degree and fill orderings
 accept vertices of null weight

---
 src/libscotch/hgraph_order_hd.c | 13 +++++--------
 src/libscotch/hgraph_order_hf.c | 13 +++++--------
 src/libscotch/hgraph_order_hx.c | 33 ++++++++++++++++++++++++++++++---
 src/libscotch/hgraph_order_hx.h |  3 ++-
 src/libscotch/module.h          |  1 +
 5 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/libscotch/hgraph_order_hd.c b/src/libscotch/hgraph_order_hd.c
index fe5a39e..2d800c3 100644
--- a/src/libscotch/hgraph_order_hd.c
+++ b/src/libscotch/hgraph_order_hd.c
@@ -116,7 +116,7 @@ const HgraphOrderHdParam * restrict const paraptr)
     return (hgraphOrderSi (grafptr, ordeptr, ordenum, cblkptr));
 
   n     = grafptr->s.vertnbr;
-  norig = grafptr->s.velosum;
+  norig = hgraphOrderHxOrig (grafptr);
   iwlen = (Gnum) ((double) grafptr->s.edgenbr * HGRAPHORDERHDCOMPRAT) + 32;
   if (iwlen < n)                                  /* Prepare to re-use array */
     iwlen = n;
@@ -138,7 +138,9 @@ const HgraphOrderHdParam * restrict const paraptr)
     return (1);
   }
 
-  hgraphOrderHxFill (grafptr, petab, lentab, iwtab, nvartab, elentab, &pfree);
+  hgraphOrderHxFill (grafptr, norig, petab, lentab, iwtab, nvartab, elentab, &pfree);
+  if (grafptr->s.velotax != NULL)                 /* Save column weights before they are modified */
+    memCpy (cwgttax, nvartab, n * sizeof (Gnum));
 
   hallOrderHdR2Halmd (norig, n, 0, iwlen, petab, pfree, /* No elements here */
                       lentab, iwtab, nvartab, elentab, lasttab, &ncmpa,
@@ -149,12 +151,7 @@ const HgraphOrderHdParam * restrict const paraptr)
     return (1);
   }
 
-  if (grafptr->s.velotax != NULL) {
-    memCpy (cwgttax, grafptr->s.velotax + grafptr->s.baseval, n * sizeof (Gnum));
-    cwgttax -= grafptr->s.baseval;
-  }
-  else
-    cwgttax = NULL;
+  cwgttax = (grafptr->s.velotax != NULL) ? (cwgttax - grafptr->s.baseval) : NULL; /* Base array if it exists */
 
   o = hallOrderHxBuild (grafptr->s.baseval, n, grafptr->vnohnbr,
                         grafptr->s.vnumtax, ordeptr, cblkptr,
diff --git a/src/libscotch/hgraph_order_hf.c b/src/libscotch/hgraph_order_hf.c
index 4dd30de..cdd1176 100644
--- a/src/libscotch/hgraph_order_hf.c
+++ b/src/libscotch/hgraph_order_hf.c
@@ -116,7 +116,7 @@ const HgraphOrderHfParam * restrict const paraptr)
     return (hgraphOrderSi (grafptr, ordeptr, ordenum, cblkptr));
 
   n      = grafptr->s.vertnbr;
-  norig  = grafptr->s.velosum;
+  norig  = hgraphOrderHxOrig (grafptr);
   nbbuck = norig * 2;
   iwlen  = (Gnum) ((double) grafptr->s.edgenbr * HGRAPHORDERHFCOMPRAT) + 32;
   if (iwlen < n)                                  /* TRICK: make sure to be able to re-use array */
@@ -140,7 +140,9 @@ const HgraphOrderHfParam * restrict const paraptr)
     return (1);
   }
 
-  hgraphOrderHxFill (grafptr, petab, lentab, iwtab, nvtab, elentab, &pfree);
+  hgraphOrderHxFill (grafptr, norig, petab, lentab, iwtab, nvtab, elentab, &pfree);
+  if (grafptr->s.velotax != NULL)                 /* Save column weights before they are modified */
+    memCpy (cwgttax, nvtab, n * sizeof (Gnum));
 
   hallOrderHfR3Hamdf4 (norig, n, 0, nbbuck, iwlen, petab, pfree,
                        lentab, iwtab, nvtab, elentab, lasttab, &ncmpa,
@@ -151,12 +153,7 @@ const HgraphOrderHfParam * restrict const paraptr)
     return (1);
   }
 
-  if (grafptr->s.velotax != NULL) {
-    memCpy (cwgttax, grafptr->s.velotax + grafptr->s.baseval, n * sizeof (Gnum));
-    cwgttax -= grafptr->s.baseval;
-  }
-  else
-    cwgttax = NULL;
+  cwgttax = (grafptr->s.velotax != NULL) ? (cwgttax - grafptr->s.baseval) : NULL; /* Base array if it exists */
 
   o = hallOrderHxBuild (grafptr->s.baseval, n, grafptr->vnohnbr,
                         grafptr->s.vnumtax, ordeptr, cblkptr,
diff --git a/src/libscotch/hgraph_order_hx.c b/src/libscotch/hgraph_order_hx.c
index 06d424b..d1c6b00 100644
--- a/src/libscotch/hgraph_order_hx.c
+++ b/src/libscotch/hgraph_order_hx.c
@@ -66,6 +66,32 @@
 /*                                 */
 /***********************************/
 
+/* This routine computes the number of columns
+** of the uncompressed graph. Since columns of
+** null weight make no sense to the halo ordering
+** routines, such vertices count for one.
+** It returns:
+** - >=0  : number of columns.
+*/
+
+Gnum
+hgraphOrderHxOrig (
+const Hgraph * restrict const grafptr)
+{
+  Gnum                vertnum;
+  Gnum                norig;
+
+  const Gnum * restrict const velotax = grafptr->s.velotax;
+
+  if (velotax == NULL)
+    return (grafptr->s.vertnbr);
+
+  for (vertnum = grafptr->s.baseval, norig = 0; vertnum < grafptr->s.vertnnd; vertnum ++)
+    norig += MAX (1, velotax[vertnum]);
+
+  return (norig);
+}
+
 /* This routine fills the input arrays for
 ** the graph ordering routines.
 ** It returns:
@@ -75,6 +101,7 @@
 void
 hgraphOrderHxFill (
 const Hgraph * restrict const grafptr,
+const Gnum                    norig,              /*+ Number of columns of uncompressed graph +*/
 Gnum * restrict const         petab,
 Gnum * restrict const         lentab,
 Gnum * restrict const         iwtab,
@@ -107,7 +134,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnew]   = edgenew;
     lentax[vertnew]  = degrval;
     elentax[vertnew] = 0;
-    nvtax[vertnew]   = (velotax != NULL) ? velotax[vertnum] : 1;
+    nvtax[vertnew]   = (velotax != NULL) ? MAX (1, velotax[vertnum]) : 1;
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++, edgenew ++)
       iwtax[edgenew] = edgetax[edgenum] + vertadj;
@@ -118,9 +145,9 @@ Gnum * restrict const         pfreptr)
 
     degrval = verttax[vertnum] - vendtax[vertnum]; /* Negative degree */
     petax[vertnew]   = edgenew;
-    lentax[vertnew]  = (degrval != 0) ? degrval : (-1 - grafptr->s.velosum);
+    lentax[vertnew]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnew] = 0;
-    nvtax[vertnew]   = (velotax != NULL) ? velotax[vertnum] : 1;
+    nvtax[vertnew]   = (velotax != NULL) ? MAX (1, velotax[vertnum]) : 1;
 
     for (edgenum = grafptr->s.verttax[vertnum];
          edgenum < grafptr->s.vendtax[vertnum]; edgenum ++, edgenew ++)
diff --git a/src/libscotch/hgraph_order_hx.h b/src/libscotch/hgraph_order_hx.h
index e165b10..94eefa4 100644
--- a/src/libscotch/hgraph_order_hx.h
+++ b/src/libscotch/hgraph_order_hx.h
@@ -51,4 +51,5 @@
 **  The function prototypes.
 */
 
-void                        hgraphOrderHxFill   (const Hgraph * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const);
+Gnum                        hgraphOrderHxOrig   (const Hgraph * restrict const);
+void                        hgraphOrderHxFill   (const Hgraph * restrict const, const Gnum, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const);
diff --git a/src/libscotch/module.h b/src/libscotch/module.h
index 3ced1d6..dbd85de 100644
--- a/src/libscotch/module.h
+++ b/src/libscotch/module.h
@@ -902,6 +902,7 @@
 #define hgraphOrderHd               SCOTCH_NAME_INTERN (hgraphOrderHd)
 #define hgraphOrderHf               SCOTCH_NAME_INTERN (hgraphOrderHf)
 #define hgraphOrderHxFill           SCOTCH_NAME_INTERN (hgraphOrderHxFill)
+#define hgraphOrderHxOrig           SCOTCH_NAME_INTERN (hgraphOrderHxOrig)
 #define hgraphOrderKp               SCOTCH_NAME_INTERN (hgraphOrderKp)
 #define hgraphOrderNd               SCOTCH_NAME_INTERN (hgraphOrderNd)
 #define hgraphOrderSi               SCOTCH_NAME_INTERN (hgraphOrderSi)
-- 
2.43.0


From bf5d8909e9812fdbd616ba035d190aeb1d80d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 019/146] fix: free the exchange arrays when no valid
 distributed separator is uncoarsened

---
 src/libscotch/vdgraph_separate_ml.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/vdgraph_separate_ml.c b/src/libscotch/vdgraph_separate_ml.c
index 091d604..b512d8f 100644
--- a/src/libscotch/vdgraph_separate_ml.c
+++ b/src/libscotch/vdgraph_separate_ml.c
@@ -450,6 +450,7 @@ const DgraphCoarsenMulti * restrict const coarmulttax) /*+ Based multinode array
 #ifdef SCOTCH_DEBUG_BDGRAPH2
     errorPrintW ("vdgraphSeparateMlUncoarsen: no valid partition");
 #endif /* SCOTCH_DEBUG_BDGRAPH2 */
+    memFree (vsndcnttab);                         /* Free group leader */
     return (1);                                   /* All invalid partitions will lead to low method be applied at upper level */
   }
 
-- 
2.43.0


From 3f0534ba83347f09bb944c302e5ce3cd5dba8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:08 +0000
Subject: [PATCH 020/146] fix: account for the weight of isolated vertices in
 halo minimum degree ordering

---
 src/libscotch/hall_order_hd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index b3b07e1..3d19984 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -495,7 +495,7 @@ Gnum * restrict     w)                            /* Flag array
       head[deg] = i;
     }
     else {
-      nel ++;
+      nel    += nv[i];
       elen[i] = - nel;
       pe[i]   = 0;
       w[i]    = 0;
-- 
2.43.0


From be34c164178ccb4ba3876afe5775282a8b534d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:28 +0000
Subject: [PATCH 021/146] fix: gather distributed graphs which are compact on
 some processes only

---
 src/libscotch/dgraph_coarsen.c    |  2 +-
 src/libscotch/dgraph_gather_all.c | 46 ++++++-------------------------
 2 files changed, 10 insertions(+), 38 deletions(-)

diff --git a/src/libscotch/dgraph_coarsen.c b/src/libscotch/dgraph_coarsen.c
index c51412e..5973426 100644
--- a/src/libscotch/dgraph_coarsen.c
+++ b/src/libscotch/dgraph_coarsen.c
@@ -1063,7 +1063,7 @@ DgraphCoarsenData * restrict const  coarptr)
   esndcnttab = NULL;                              /* In case of memory allocation error                      */
 #if (defined SCOTCH_PTHREAD) && (! defined DGRAPHCOARSENNOTHREAD)
   if (thrdmin > 1)                                /* If more than one thread    */
-    vendlocsiz = coarptr->multlocnbr;             /* Create a non-compact graph */
+    vendlocsiz = MAX (2, coarptr->multlocnbr);    /* Create a non-compact graph, even if it has a single local vertex */
   else
 #endif /* (defined SCOTCH_PTHREAD) && (! defined DGRAPHCOARSENNOTHREAD) */
     vendlocsiz = 1;                               /* Else create a compact graph */
diff --git a/src/libscotch/dgraph_gather_all.c b/src/libscotch/dgraph_gather_all.c
index 3ccadb7..9ab1d88 100644
--- a/src/libscotch/dgraph_gather_all.c
+++ b/src/libscotch/dgraph_gather_all.c
@@ -116,7 +116,6 @@ const int                     protnum)            /* -1 means allgather */
   Gnum * restrict     vlbltax;                    /* Target vertex label array for root, dummy for non-roots            */
   Gnum * restrict     edgetax;                    /* Target edge array for root, dummy for non-roots                    */
   Gnum * restrict     edlotax;                    /* Target edge load array for root, dummy for non-roots               */
-  Gnum                vertlocnbr;                 /* Size of temporary distributed vertex array                         */
   Gnum *              vertloctax;                 /* Temporary vertex array if graph is not compact [norestrict]        */
   Gnum                edgelocnbr;                 /* Size of temporary distributed edge array                           */
   Gnum *              edgeloctab;                 /* Temporary edge array if distributed graph not compact [norestrict] */
@@ -179,20 +178,16 @@ const int                     protnum)            /* -1 means allgather */
     }
   }
 
-  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is compact */
-    vertlocnbr =                                  /* No need to recompact arrays             */
-    edgelocnbr = 0;
-  }
-  else {                                          /* Need extra space to compact vertex and edge arrays before sending */
-    vertlocnbr = dgrfptr->vertlocnbr;
+  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) /* If distributed graph is compact */
+    edgelocnbr = 0;                               /* No need to recompact edge array        */
+  else                                            /* Need extra space to compact edge array before sending */
     edgelocnbr = dgrfptr->edgelocnbr;
-  }
 
   if (cheklocval == 0) {
     if (memAllocGroup ((void **) (void *)
                        &recvcnttab, (size_t) (dgrfptr->procglbnbr * sizeof (Gnum)), /* Allocated for non-roots too but don't care as these are very small */
                        &recvdsptab, (size_t) (dgrfptr->procglbnbr * sizeof (Gnum)),
-                       &vertloctax, (size_t) (vertlocnbr          * sizeof (Gnum)),
+                       &vertloctax, (size_t) (dgrfptr->vertlocnbr * sizeof (Gnum)),
                        &edgeloctab, (size_t) (edgelocnbr          * sizeof (Gnum)), NULL) == NULL) {
       errorPrint ("dgraphGatherAll2: out of memory (3)");
       cheklocval = 1;
@@ -253,32 +248,7 @@ const int                     protnum)            /* -1 means allgather */
   }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
 
-  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is compact                                                */
-    if (dgraphGatherAll3 (dgrfptr->vertloctax + baseval + 1, dgrfptr->vertlocnbr, /* Do not send first index, it is always equal to baseval */
-                          vendtax,                /* First index will always be equal to baseval too, and procdsptab holds based values     */
-                          dgrfptr->proccnttab, dgrfptr->procdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
-      errorPrint ("dgraphGatherAll2: communication error (3)");
-      return (1);
-    }
-
-    if (cgrfptr != NULL) {
-      Gnum                procnum;
-
-      verttax[baseval] = baseval;
-      for (procnum = 1; procnum < dgrfptr->procglbnbr; procnum ++) { /* Adjust index sub-arrays for all processes except the first one */
-        Gnum                vertnum;
-        Gnum                vertnnd;
-        Gnum                edgedlt;
-
-        for (vertnum = dgrfptr->procdsptab[procnum] + 1,
-             vertnnd = dgrfptr->proccnttab[procnum] + vertnum,
-             edgedlt = verttax[vertnum - 1] - baseval;
-             vertnum < vertnnd; vertnum ++)
-          verttax[vertnum] += edgedlt;
-      }
-    }
-  }
-  else {                                          /* Distributed graph is not compact */
+  {                                               /* Send vertex degrees, since some processes may be compact and others not */
     Gnum                vertlocnum;
     Gnum * restrict     edgelocptr;
 
@@ -289,8 +259,10 @@ const int                     protnum)            /* -1 means allgather */
 
       vertloctax[vertlocnum] = dgrfptr->vendloctax[vertlocnum] - dgrfptr->vertloctax[vertlocnum]; /* Get edge counts */
 
-      for (edgelocnum = dgrfptr->vertloctax[vertlocnum]; edgelocnum < dgrfptr->vendloctax[vertlocnum]; edgelocnum ++)
-        *edgelocptr ++ = edgeloctax[edgelocnum];
+      if (edgelocnbr > 0) {                       /* If edge array has to be compacted */
+        for (edgelocnum = dgrfptr->vertloctax[vertlocnum]; edgelocnum < dgrfptr->vendloctax[vertlocnum]; edgelocnum ++)
+          *edgelocptr ++ = edgeloctax[edgelocnum];
+      }
     }
 
     if (dgraphGatherAll3 (vertloctax + baseval, dgrfptr->vertlocnbr,
-- 
2.43.0


From accad0cc2087d4a72a4afe6a8bc3ab9dfaa67b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:25 +0000
Subject: [PATCH 022/146] fix: discriminate the gain links of vertices of null
 weight in vertex separator refinement

---
 src/libscotch/vgraph_separate_fm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/vgraph_separate_fm.c b/src/libscotch/vgraph_separate_fm.c
index 07f6fad..b4db75f 100644
--- a/src/libscotch/vgraph_separate_fm.c
+++ b/src/libscotch/vgraph_separate_fm.c
@@ -120,7 +120,7 @@ const int                   partval)              /* Current preferred */
 
     vertpart = 0;                                 /* Assume we point to gainlink0      */
     vexxptr  = (VgraphSeparateFmVertex *) linkptr; /* TRICK: gainlink0 is at beginning */
-    if (vexxptr->veloval >= 0) {                  /* If in fact we point to gainlink1  */
+    if (vexxptr->veloval > 0) {                   /* If in fact we point to gainlink1  */
       vertpart = 1;                               /* Then point to vertex structure    */
       vexxptr  = (VgraphSeparateFmVertex *) ((byte *) vexxptr - ((byte *) &vexxdat.gainlink1 - (byte *) &vexxdat));
     }
@@ -378,7 +378,7 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
       Gnum                edgenum;
 
       partval = 0;                                /* Assume we point to gainlink0     */
-      if (vexxptr->veloval >= 0) {                /* If in fact we point to gainlink1 */
+      if (vexxptr->veloval > 0) {                 /* If in fact we point to gainlink1 */
         partval = 1;                              /* Then point to vertex structure   */
         vexxptr = (VgraphSeparateFmVertex *) ((byte *) vexxptr - ((byte *) &vexxptr->gainlink1 - (byte *) vexxptr));
       }
-- 
2.43.0


From f8e23b029db73e9cd9f9e741e4bc493b22564d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:51 +0000
Subject: [PATCH 023/146] fix: split the column blocks of an existing block
 ordering without ordering the graph again

---
 src/libscotch/hgraph_order_bl.c | 260 ++++++++++++++++++++------------
 src/libscotch/hmesh_order_bl.c  |  69 +++++----
 2 files changed, 209 insertions(+), 120 deletions(-)

diff --git a/src/libscotch/hgraph_order_bl.c b/src/libscotch/hgraph_order_bl.c
index 1bb4daa..d622ddc 100644
--- a/src/libscotch/hgraph_order_bl.c
+++ b/src/libscotch/hgraph_order_bl.c
@@ -65,6 +65,159 @@
 #include "hgraph_order_bl.h"
 #include "hgraph_order_st.h"
 
+/* This routine splits the leaf column blocks
+** of the given column block tree.
+** It returns:
+** - 0   : if the column blocks could be split.
+** - !0  : on error.
+*/
+
+static
+int
+hgraphOrderBl2 (
+Order * restrict const      ordeptr,
+OrderCblk * restrict const  cblkptr,              /*+ Column block to split                            +*/
+const Gnum * restrict const velotab,              /*+ Loads of columns of block, in order, if weighted +*/
+const Gnum                  cblkmin)              /*+ Minimum size of blocks                           +*/
+{
+  Gnum                cblknbr;                    /* Number of column blocks for splitting */
+  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  Gnum                cblknum;
+  Gnum                vnlosum;                    /* Overall weight of column block        */
+  Gnum                vnodnum;
+
+  if (cblkptr->cblktab != NULL) {                 /* If block already partitioned */
+    for (cblknum = 0, vnodnum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
+      if (hgraphOrderBl2 (ordeptr, cblkptr->cblktab + cblknum,
+                          (velotab != NULL) ? (velotab + vnodnum) : NULL, cblkmin) != 0)
+        return (1);
+      vnodnum += cblkptr->cblktab[cblknum].vnodnbr;
+    }
+    return (0);
+  }
+
+  vnlosum = cblkptr->vnodnbr;
+  if (velotab != NULL) {
+    for (vnodnum = 0, vnlosum = 0; vnodnum < cblkptr->vnodnbr; vnodnum ++)
+      vnlosum += velotab[vnodnum];
+  }
+
+  if ((cblkptr->vnodnbr <= 1) ||                  /* If block has only one column  */
+      (vnlosum < (2 * cblkmin)))                  /* Or does not need to be split  */
+    return (0);
+
+  cblknbr = vnlosum / cblkmin;                    /* Get new (maximum) number of blocks  */
+  cblksiz = MIN (cblknbr, cblkptr->vnodnbr);      /* No more column blocks than columns  */
+
+  if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
+    errorPrint ("hgraphOrderBl2: out of memory");
+    return (1);
+  }
+
+  if (velotab == NULL) {                          /* For unweighted graphs, split blocks evenly      */
+    for (cblknum = 0; cblknum < cblksiz; cblknum ++) /* No more column blocks than those allocated   */
+      cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (cblkptr->vnodnbr, cblknbr, cblknum);
+  }
+  else {
+    Gnum                vnlomax;                  /* Maximum weight to reach for this subblock      */
+    Gnum                vnlocur;                  /* Current accumulated weight                     */
+    Gnum                vnodbas;                  /* Starting permuted node index for current block */
+    Gnum                cblkidx;                  /* Ghost column block index for even splitting    */
+
+    vnlocur = 0;
+    vnodbas =
+    vnodnum = 0;
+    cblknum =
+    cblkidx = 0;
+    do {                                          /* Go on filling column blocks    */
+      do {                                        /* Compute bound of next subblock */
+        cblkidx ++;
+        vnlomax = DATASCAN (vnlosum, cblknbr, cblkidx); /* Bound of next subblock     */
+      } while (vnlomax <= vnlocur);               /* Next bound must be higher than current state */
+
+      do                                          /* Accumulate weights until bound is reached */
+        vnlocur += velotab[vnodnum ++];
+      while (vnlocur < vnlomax);
+      if (vnlocur >= vnlosum)                     /* If only columns of null weight remain */
+        vnodnum = cblkptr->vnodnbr;               /* Add them to last block                */
+
+      cblkptr->cblktab[cblknum ++].vnodnbr = vnodnum - vnodbas; /* One more effective column block */
+      vnodbas = vnodnum;                          /* Reset base for next block                     */
+    } while (vnodnum < cblkptr->vnodnbr);         /* As long as columns remain                     */
+
+    cblksiz = cblknum;                            /* Use effective number of blocks */
+    if (cblksiz <= 1) {                           /* If block cannot be split       */
+      memFree (cblkptr->cblktab);
+      cblkptr->cblktab = NULL;
+      return (0);
+    }
+  }
+
+  for (cblknum = 0; cblknum < cblksiz; cblknum ++) {
+    cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF; /* Build column blocks */
+    cblkptr->cblktab[cblknum].cblknbr = 0;
+    cblkptr->cblktab[cblknum].cblktab = NULL;
+  }
+  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
+  cblkptr->cblknbr = cblksiz;
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_lock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+  ordeptr->treenbr += cblksiz;                    /* That many more tree nodes    */
+  ordeptr->cblknbr += cblksiz - 1;                /* That many more column blocks */
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_unlock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+
+  return (0);
+}
+
+/* This routine fills the array of column
+** loads, in the order of the columns.
+** It returns:
+** - 0   : if the array could be filled.
+** - !0  : on error.
+*/
+
+static
+int
+hgraphOrderBlLoad (
+const Hgraph * restrict const grafptr,
+const Gnum * restrict const   peritab,            /*+ Inverse permutation of graph                  +*/
+Gnum * restrict const         velotab)            /*+ Array of loads to fill                        +*/
+{
+  Gnum * restrict     sorttab;                    /* Array of (original number, load) pairs */
+  Gnum                vertnum;
+  Gnum                vnodnum;
+
+  const Gnum * restrict const velotax = grafptr->s.velotax;
+  const Gnum * restrict const vnumtax = grafptr->s.vnumtax;
+
+  if (vnumtax == NULL) {                          /* If permutation is on indices of graph */
+    for (vnodnum = 0; vnodnum < grafptr->vnohnbr; vnodnum ++)
+      velotab[vnodnum] = velotax[peritab[vnodnum]];
+    return (0);
+  }
+
+  if ((sorttab = (Gnum *) memAlloc (grafptr->vnohnbr * 4 * sizeof (Gnum))) == NULL) {
+    errorPrint ("hgraphOrderBlLoad: out of memory");
+    return (1);
+  }
+  for (vertnum = grafptr->s.baseval, vnodnum = 0; vertnum < grafptr->vnohnnd; vertnum ++, vnodnum ++) {
+    sorttab[2 * vnodnum]     = vnumtax[vertnum];
+    sorttab[2 * vnodnum + 1] = velotax[vertnum];
+    sorttab[2 * (grafptr->vnohnbr + vnodnum)]     = peritab[vnodnum];
+    sorttab[2 * (grafptr->vnohnbr + vnodnum) + 1] = vnodnum;
+  }
+  intSort2asc1 (sorttab, grafptr->vnohnbr);       /* Match columns through their original indices */
+  intSort2asc1 (sorttab + 2 * grafptr->vnohnbr, grafptr->vnohnbr);
+  for (vnodnum = 0; vnodnum < grafptr->vnohnbr; vnodnum ++)
+    velotab[sorttab[2 * (grafptr->vnohnbr + vnodnum) + 1]] = sorttab[2 * vnodnum + 1];
+  memFree (sorttab);
+
+  return (0);
+}
+
 /*****************************/
 /*                           */
 /* This is the main routine. */
@@ -85,8 +238,8 @@ const Gnum                                ordenum, /*+ Zero-based ordering numbe
 OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
 const HgraphOrderBlParam * restrict const paraptr)
 {
-  Gnum                cblknbr;                    /* Number of column blocks for splitting */
-  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  Gnum * restrict     velotab;                    /* Column loads in the order of columns, if weighted */
+  int                 o;
 
   if (paraptr->cblkmin <= 0) {
     errorPrint ("hgraphOrderBl: invalid minimum block size");
@@ -96,103 +249,22 @@ const HgraphOrderBlParam * restrict const paraptr)
   if (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
     return (1);
 
-  if (cblkptr->cblktab == NULL) {                 /* If single column block */
-#ifdef SCOTCH_DEBUG_HGRAPH2
-    if (cblkptr->vnodnbr != grafptr->vnohnbr) {
-      errorPrint ("hgraphOrderBl: invalid column block");
-      return (1);
-    }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-
-    if ((cblkptr->vnodnbr <= 1) ||                /* Il block has only one column    */
-        (grafptr->vnlosum < (2 * paraptr->cblkmin))) /* Or does not need to be split */
-      return (0);
-
-    cblknbr = grafptr->vnlosum / paraptr->cblkmin; /* Get new (maximum) number of blocks */
-    cblksiz = MIN (cblknbr, grafptr->vnohnbr);    /* No more column blocks than columns  */
-
-    if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
+  velotab = NULL;
+  if (grafptr->s.velotax != NULL) {
+    if ((velotab = (Gnum *) memAlloc (grafptr->vnohnbr * sizeof (Gnum))) == NULL) {
       errorPrint ("hgraphOrderBl: out of memory");
       return (1);
     }
-
-    if (grafptr->s.velotax == NULL) {             /* For unweighted graphs, split blocks evenly */
-      Gnum                cblknum;
-
-      for (cblknum = 0; cblknum < cblksiz; cblknum ++) { /* No more column blocks than those allocated */
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
-        cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (grafptr->vnlosum, cblknbr, cblknum);
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-      }
-    }
-    else {
-      Gnum                vnlomax;                /* Maxumum weight to reach for this subblock      */
-      Gnum                vnlosum;                /* Current accumulated weight                     */
-      Gnum                vnodnum;                /* Current permuted node index                    */
-      Gnum                vnodbas;                /* Starting permuted node index for current block */
-      Gnum                cblknum;                /* Current number of column subblocks             */
-      Gnum                cblkidx;                /* Ghost column block index for even splitting    */
-
-      vnlomax =
-      vnlosum = 0;
-      vnodbas =
-      vnodnum = 0;
-      cblknum =
-      cblkidx = 0;
-      do {                                        /* Go on filling column blocks    */
-#ifdef SCOTCH_DEBUG_HGRAPH2
-        if (cblknum >= cblksiz) {                 /* No more column blocks than those allocated */
-          errorPrint ("hgraphOrderBl: internal error (1)");
-          return (1);
-        }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-        do {                                      /* Compute bound of next subblock */
-          cblkidx ++;
-#ifdef SCOTCH_DEBUG_HGRAPH2
-          if (cblkidx > cblknbr) {                /* No more ghost indices than ghost column blocks */
-            errorPrint ("hgraphOrderBl: internal error (2)");
-            return (1);
-          }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-          vnlomax = DATASCAN (grafptr->vnlosum, cblknbr, cblkidx); /* Bound of next subblock      */
-        } while (vnlomax <= vnlosum);             /* Next bound must be higher than current state */
-
-        do {                                      /* Accumulate weights until bound is reached */
-          vnlosum += grafptr->s.velotax[ordeptr->peritab[vnodnum]];
-          vnodnum ++;
-        } while (vnlosum < vnlomax);
-
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF; /* Build relevant column block */
-        cblkptr->cblktab[cblknum].vnodnbr = vnodnum - vnodbas;
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-        cblknum ++;                               /* One more effective column block */
-        vnodbas = vnodnum;                        /* Reset base for next block       */
-      } while (vnlosum < grafptr->vnlosum);       /* As long as columns remain       */
-
-      cblknbr = cblknum;                          /* Use effective number of blocks */
+    if (hgraphOrderBlLoad (grafptr, ordeptr->peritab + ordenum, velotab) != 0) {
+      memFree (velotab);
+      return (1);
     }
-
-    cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
-    cblkptr->cblknbr = cblknbr;
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_lock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
-    ordeptr->treenbr += cblknbr;                  /* That many more tree nodes    */
-    ordeptr->cblknbr += cblknbr - 1;              /* That many more column blocks */
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_unlock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
   }
-  else {                                          /* Block already partitioned */
-    Gnum                cblknum;
 
-    for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hgraphOrderBl (grafptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
-        return (1);
-    }
-  }
+  o = hgraphOrderBl2 (ordeptr, cblkptr, velotab, paraptr->cblkmin); /* Split all column blocks */
 
-  return (0);
+  if (velotab != NULL)
+    memFree (velotab);
+
+  return (o);
 }
diff --git a/src/libscotch/hmesh_order_bl.c b/src/libscotch/hmesh_order_bl.c
index 2d80412..31cc697 100644
--- a/src/libscotch/hmesh_order_bl.c
+++ b/src/libscotch/hmesh_order_bl.c
@@ -62,45 +62,31 @@
 #include "hmesh_order_bl.h"
 #include "hmesh_order_st.h"
 
-/*****************************/
-/*                           */
-/* This is the main routine. */
-/*                           */
-/*****************************/
-
-/* This routine performs the ordering.
+/* This routine splits the leaf column blocks
+** of the given column block tree.
 ** It returns:
-** - 0   : if the ordering could be computed.
+** - 0   : if the column blocks could be split.
 ** - !0  : on error.
 */
 
+static
 int
-hmeshOrderBl (
-Hmesh * restrict const                    meshptr,
-Order * restrict const                    ordeptr,
-const Gnum                                ordenum, /*+ Zero-based ordering number +*/
-OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
-const HmeshOrderBlParam * restrict const  paraptr)
+hmeshOrderBl2 (
+Order * restrict const      ordeptr,
+OrderCblk * restrict const  cblkptr,              /*+ Column block to split  +*/
+const Gnum                  cblkmin)              /*+ Minimum size of blocks +*/
 {
   Gnum                cblknbr;                    /* Number of old column blocks before splitting */
   Gnum                cblknum;                    /* Number of current column block               */
 
-  if (paraptr->cblkmin <= 0) {
-    errorPrint ("hmeshOrderBl: invalid minimum block size");
-    return (1);
-  }
-
-  if (hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
-    return (1);
-
   if (cblkptr->cblktab == NULL) {                 /* If single column block    */
-    if (cblkptr->vnodnbr < (2 * paraptr->cblkmin)) /* If block cannot be split */
+    if (cblkptr->vnodnbr < (2 * cblkmin))         /* If block cannot be split */
 	return (0);
 
-    cblknbr = cblkptr->vnodnbr / paraptr->cblkmin; /* Get new number of blocks */
+    cblknbr = cblkptr->vnodnbr / cblkmin;         /* Get new number of blocks */
 
     if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblknbr * sizeof (OrderCblk))) == NULL) {
-      errorPrint ("hgraphOrderBl: out of memory");
+      errorPrint ("hmeshOrderBl2: out of memory");
       return (1);
     }
     cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
@@ -123,10 +109,41 @@ const HmeshOrderBlParam * restrict const  paraptr)
   }
   else {                                          /* Block already partitioned */
     for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hmeshOrderBl (meshptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
+      if (hmeshOrderBl2 (ordeptr, cblkptr->cblktab + cblknum, cblkmin) != 0)
         return (1);
     }
   }
 
   return (0);
 }
+
+/*****************************/
+/*                           */
+/* This is the main routine. */
+/*                           */
+/*****************************/
+
+/* This routine performs the ordering.
+** It returns:
+** - 0   : if the ordering could be computed.
+** - !0  : on error.
+*/
+
+int
+hmeshOrderBl (
+Hmesh * restrict const                    meshptr,
+Order * restrict const                    ordeptr,
+const Gnum                                ordenum, /*+ Zero-based ordering number +*/
+OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
+const HmeshOrderBlParam * restrict const  paraptr)
+{
+  if (paraptr->cblkmin <= 0) {
+    errorPrint ("hmeshOrderBl: invalid minimum block size");
+    return (1);
+  }
+
+  if (hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
+    return (1);
+
+  return (hmeshOrderBl2 (ordeptr, cblkptr, paraptr->cblkmin)); /* Split all column blocks */
+}
-- 
2.43.0


From 01dcb18467ab8359ecef363ad3b7cd20034dcef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:22 +0000
Subject: [PATCH 024/146] fix: let parallel separator diffusion process
 isolated separator vertices

---
 src/libscotch/vdgraph_separate_df.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/vdgraph_separate_df.c b/src/libscotch/vdgraph_separate_df.c
index dfb5454..fab1ef8 100644
--- a/src/libscotch/vdgraph_separate_df.c
+++ b/src/libscotch/vdgraph_separate_df.c
@@ -168,13 +168,10 @@ const VdgraphSeparateDfParam * const  paraptr)    /*+ Method parameters +*/
 
   for (vertlocnum = grafptr->s.baseval, vanclocnnd = grafptr->s.vertlocnnd - 2; /* Do not account for anchor vertices in diffusion computations */
        vertlocnum < vanclocnnd; vertlocnum ++) {
-#ifdef SCOTCH_DEBUG_VDGRAPH2
-    if ((grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum]) == 0) {
-      errorPrint ("vdgraphSeparateDf: internal error (1)");
-      return     (1);
-    }
-#endif /* SCOTCH_DEBUG_VDGRAPH2 */
-    ielsloctax[vertlocnum] = 1.0F / (float) (grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum]);
+    Gnum                degrlocval;
+
+    degrlocval = grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum];
+    ielsloctax[vertlocnum] = 1.0F / (float) MAX (1, degrlocval); /* Separator vertices may be isolated */
     difogsttax[vertlocnum] = 0.0F;
   }
   ielsloctax[vanclocnnd]     = 1.0F / (float) reduglbtab[0];
-- 
2.43.0


From a5eecd3b495ade4791135ed91dbaf594231e99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:28 +0000
Subject: [PATCH 025/146] fix: do not loop endlessly in vertex separator
 refinement when balance cannot be achieved

---
 src/libscotch/vgraph_separate_fm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/vgraph_separate_fm.c b/src/libscotch/vgraph_separate_fm.c
index b4db75f..7b037ba 100644
--- a/src/libscotch/vgraph_separate_fm.c
+++ b/src/libscotch/vgraph_separate_fm.c
@@ -593,8 +593,9 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
 
       comploadabsdltbst = abs (comploaddltbst);
       comploadabsdlt    = abs (comploaddlt);
-      if ((comploadabsdlt    < comploaddltmat) || /* Record move only if it is within bounds */
-          (comploadabsdltbst > comploaddltmat)) { /* Or if we have always been out of bounds */
+      if ((comploadabsdlt    < comploaddltmat) || /* Record move only if it is within bounds       */
+          ((comploadabsdltbst > comploaddltmat) && /* Or if we have always been out of bounds      */
+           (comploadabsdlt <= comploadabsdltbst))) { /* And imbalance is not made worse, to prevent looping */
         if (compload2 < compload2bst) {           /* If move improves the cost               */
           compload2bst   = compload2;             /* This move was effective                 */
           comploaddltbst = comploaddlt;
@@ -627,7 +628,8 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
         comploaddlttmp = comploaddltmax;          /* Save old working compdeltmax value           */
         comploaddltmax = MAX (comploaddltmat, comploadabsdlt); /* Restrict at most to the maximum */
         if ((comploadabsdltbst > comploaddltmat) &&  /* If we have never achieved balance yet     */
-            (comploaddltmax < comploaddlttmp)) {  /* And if we have done something useful         */
+            (comploadabsdlt < comploadabsdltbst) && /* And if we have done something useful       */
+            (comploaddltmax < comploaddlttmp)) {
           compload2bst   = compload2;             /* Then record best move done                   */
           comploaddltbst = comploaddlt;
           movenbr =                               /* Never set moveflag so as not to create an infinite loop */
-- 
2.43.0


From ef855504b2f6ba1d032028c885f0ebf9a6a76871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:53 +0000
Subject: [PATCH 026/146] fix: keep a single leaf when the partition of the
 block ordering method has a single part

---
 src/libscotch/hgraph_order_kp.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index d6e1379..9f53ce3 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -158,16 +158,22 @@ const HgraphOrderKpParam * restrict const paraptr)
     }
   }
 
-  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
-  cblkptr->cblknbr = cblknbr;
+  if (cblknbr == 1) {                             /* If all vertices are in the same part, node remains a leaf */
+    memFree (cblkptr->cblktab);
+    cblkptr->cblktab = NULL;
+  }
+  else {
+    cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
+    cblkptr->cblknbr = cblknbr;
 #ifdef SCOTCH_PTHREAD
-  pthread_mutex_lock (&ordeptr->mutedat);
+    pthread_mutex_lock (&ordeptr->mutedat);
 #endif /* SCOTCH_PTHREAD */
-  ordeptr->treenbr += cblknbr;                    /* These more number of tree nodes    */
-  ordeptr->cblknbr += cblknbr - 1;                /* These more number of column blocks */
+    ordeptr->treenbr += cblknbr;                    /* These more number of tree nodes    */
+    ordeptr->cblknbr += cblknbr - 1;                /* These more number of column blocks */
 #ifdef SCOTCH_PTHREAD
-  pthread_mutex_unlock (&ordeptr->mutedat);
+    pthread_mutex_unlock (&ordeptr->mutedat);
 #endif /* SCOTCH_PTHREAD */
+  }
 
   peritab = ordeptr->peritab;
   if (grafptr->s.vnumtax == NULL) {               /* If graph is original graph */
-- 
2.43.0


From eedd876e7464554404162c283be0857a6d6d6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:37 +0000
Subject: [PATCH 027/146] fix: initialize the overlapping partition before
 applying a strategy that saves it

---
 src/libscotch/library_graph_part_ovl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index 5bc5b89..497d01a 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -114,6 +114,7 @@ SCOTCH_Num * const          parttab)              /*+ Partition array       +*/
     errorPrint (STRINGIFY (SCOTCH_graphPartOvl) ": out of memory");
     goto abort;
   }
+  wgraphZero (&grafdat);                          /* Set all vertices to part 0 as strategy may save the initial state */
 
   o = wgraphPartSt (&grafdat, partstraptr);
 
-- 
2.43.0


From de3a0a4c70e6287ee7beb743ac321cd2fba1e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:13 +0000
Subject: [PATCH 028/146] fix: set proper terminal domain numbers in
 decomposition-defined architectures

---
 src/libscotch/arch_deco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index e5d88b9..c3fa1d4 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -464,7 +464,7 @@ const ArchDomNum            domnnum)
     if (archptr->domverttab[domvertnum].size == 1) { /* If terminal vertex                      */
       domtermnum --;                              /* One more terminal scanned                  */
       if (archptr->domverttab[domvertnum].labl == domnnum) { /* If terminal domain number found */
-        domnptr->num = domvertnum;                /* Set domain number                          */
+        domnptr->num = domvertnum + 1;            /* Set domain number, which starts from one   */
         return (0);
       }
     }
-- 
2.43.0


From 04cb6bf96e1250d419a9ccb1af1ad2f987481159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:13 +0000
Subject: [PATCH 029/146] fix: process the last fixed vertex load slot when
 splitting domains

---
 src/libscotch/kgraph_map_rb.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7256549..9650f40 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -392,6 +392,13 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
       compload0 += vflotab[vflonum ++].veloval;
       compload1 += vflotab[vflonnd --].veloval;
     }
+    if (vflonum == vflonnd) {                     /* If a single slot remains, it has not been processed yet */
+      archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
+      if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1)
+        compload0 += vflotab[vflonum ++].veloval;
+      else
+        compload1 += vflotab[vflonum].veloval;
+    }
   }
   else {                                          /* If variable-sized architecture, pseudo-terminals may not always be included */
     for (vflonum = 0, vflonnd = vflonbr - 1; vflonum <= vflonnd; ) {
-- 
2.43.0


From 43fc55c4593059a103448a62ee5a2aa531a3bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:34 +0000
Subject: [PATCH 030/146] fix: free and set untied domain arrays in recursive
 bipartitioning mapping

---
 src/libscotch/kgraph_map_rb_map.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index c59f952..7748d1c 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -166,6 +166,7 @@ Context * const                         contptr)
       memFree    (poolptr->jobtab);
       return (1);
     }
+    memCpy (poolptr->domntab[1], mappptr->domntab, mappptr->domnnbr * sizeof (ArchDom)); /* In case kgraphMapRbPoolExit() is called just afterwards */
   }
 
   poolptr->flagval = flagval;
@@ -207,6 +208,8 @@ KgraphMapRbMapPoolData * restrict const poolptr)
     mappptr->flagval |= MAPPINGFREEDOMN;          /* Keep current domain array as private mapping domain array */
     mappptr->domntab  = poolptr->domntab[1];
   }
+  else if (poolptr->domntab[0] != poolptr->domntab[1]) /* If mappings are not tied, free other domain array */
+    memFree (poolptr->domntab[0]);
 
   memFree (poolptr->jobtab);
 }
-- 
2.43.0


From 212da5a7782c298b6647364cc4b40e24787aa0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:08 +0000
Subject: [PATCH 031/146] fix: do not read domains of empty parts when turning
 a mapping into a vertex overlapping partition

---
 src/libscotch/wgraph_part_es.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 0986624..ebf9c9e 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -77,7 +77,6 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
   Gnum * restrict     comploadtab;
   Gnum * restrict     compsizetab;
   Gnum * restrict     npfltab;                    /* Neighbor part flag array           */
-  Anum                partnum;
   Gnum                fronnum;
   Gnum                frlosum;
   Gnum                vertnum;
@@ -105,21 +104,22 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
 
   if (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) { /* Map active subgraph */
     errorPrint ("wgraphPartEs: cannot partition active graph");
+    kgraphExit (&actgrafdat);
+    memFree    (npfltab - 1);
     return (1);
   }
 
   comploadtab = grafptr->compload;
   compsizetab = grafptr->compsize;
 
-  for (partnum = 0; partnum < partnbr; partnum ++)
-    comploadtab[archDomNum (&archdat, &actgrafdat.m.domntab[partnum])] = actgrafdat.comploadavg[partnum] + actgrafdat.comploaddlt[partnum];
-
+  memSet (comploadtab, 0, partnbr * sizeof (Gnum)); /* Some parts may be empty and have no domain */
   memSet (compsizetab, 0, partnbr * sizeof (Gnum));
   for (vertnum = grafptr->s.baseval; vertnum < grafptr->s.vertnnd; vertnum ++) {
     Anum                partnum;
 
     partnum = archDomNum (&archdat, &actgrafdat.m.domntab[actgrafdat.m.parttax[vertnum]]); /* Set part as value of terminal domain */
     grafptr->parttax[vertnum] = partnum;
+    comploadtab[partnum] += (velotax != NULL) ? velotax[vertnum] : 1;
     compsizetab[partnum] ++;
   }
 
-- 
2.43.0


From dc4f23637f14a8074e8f7bcfee14e19ee2f5c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:36 +0000
Subject: [PATCH 032/146] fix: account for target weights in edge-based vertex
 separation

---
 src/libscotch/vgraph_separate_es.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index f5905a9..67373a7 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -757,7 +757,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
     }
   }
 
-  grafptr->comploaddlt = grafptr->compload[0] - grafptr->compload[1];
+  grafptr->comploaddlt = grafptr->compload[0] * grafptr->dwgttab[1] - grafptr->compload[1] * grafptr->dwgttab[0];
   grafptr->compload[2] = grafptr->s.velosum - grafptr->compload[0] - grafptr->compload[1];
   grafptr->fronnbr     = grafptr->s.vertnbr - grafptr->compsize[0] - grafptr->compsize[1];
 
-- 
2.43.0


From 218e0e4010fbfee4de8be539f68d2f9f85137fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:58 +0000
Subject: [PATCH 033/146] fix: coarsen all of the original architecture when
 building sub-architectures

---
 src/libscotch/arch_sub.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index d0e2b4b..40e5ab9 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -475,7 +475,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
     treetab[orgtermnum].vertnum = orgtermnum;     /* Vertex number in original architecture                    */
   }
 
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, orgtermnbr);
 
   orgarchptr->clasptr->matchExit (&matcdat);      /* Free matching structure */
 
-- 
2.43.0


From ee64ff2ed149e6abd892a17814799bc494502997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:58 +0000
Subject: [PATCH 034/146] fix: check room for saved domains only when restoring
 a mapping

---
 src/libscotch/kgraph_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_store.c b/src/libscotch/kgraph_store.c
index 2190621..631ef9e 100644
--- a/src/libscotch/kgraph_store.c
+++ b/src/libscotch/kgraph_store.c
@@ -156,7 +156,7 @@ Kgraph * const              grafptr,
 const KgraphStore * const   storptr)
 {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-  if (grafptr->m.domnmax < storptr->domnmax) {
+  if (grafptr->m.domnmax < storptr->domnnbr) {
     errorPrint ("kgraphStoreUpdt: cannot update state");
     return;
   }
-- 
2.43.0


From 51fcfba089fe2895161bbdd7296c13e3cfc8d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:33 +0000
Subject: [PATCH 035/146] fix: use domain data of recomputed mapping in k-way
 FM

---
 src/libscotch/kgraph_map_fm.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 4943341..96426ad 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -994,8 +994,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   const Gnum * restrict const     edgetax = grafptr->s.edgetax;
   const Gnum * restrict const     edlotax = grafptr->s.edlotax;
   const Arch * restrict const     archptr = grafptr->m.archptr;
-  const Gnum                      domnnbr = grafptr->m.domnnbr;
-  const ArchDom * restrict const  domntab = grafptr->m.domntab;
+  Gnum                            domnnbr = grafptr->m.domnnbr; /* Domain data may change if mapping has to be recomputed */
+  const ArchDom * restrict        domntab = grafptr->m.domntab;
   Anum * restrict const           parttax = grafptr->m.parttax;
   Anum * restrict const           parotax = grafptr->r.m.parttax;
   const Gnum * restrict const     pfixtax = grafptr->pfixtax;
@@ -1034,10 +1034,20 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       return  (0);
     }
     else {                                        /* Imbalance must be fought */
-      const Strat *         strat;
+      Strat *               strat;
+      int                   o;
 
       strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}"); /* Use a standard algorithm */
-      kgraphMapSt (grafptr, strat);               /* Perform mapping */
+      o = (strat == NULL) ? 1 : kgraphMapSt (grafptr, strat); /* Perform mapping */
+      if (strat != NULL)
+        stratExit (strat);
+      if (o != 0) {
+        errorPrint ("kgraphMapFm: cannot recompute mapping");
+        memFree    (comploadmax);
+        return     (1);
+      }
+      domnnbr = grafptr->m.domnnbr;               /* Domain data may have changed after mapping */
+      domntab = grafptr->m.domntab;
 
       if (grafptr->fronnbr == 0) {                /* If new partition has no frontier */
         memFree (comploadmax);
-- 
2.43.0


From 00be4db8ba738bd2f6d4ae5617f9456624e9bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:47 +0000
Subject: [PATCH 036/146] fix: keep terminal domains when swapping untied
 domain arrays

---
 src/libscotch/kgraph_map_rb_map.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index 7748d1c..16b9208 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -235,6 +235,9 @@ KgraphMapRbMapPoolData * restrict const poolptr)
   domntmp             = poolptr->domntab[0];
   poolptr->domntab[0] = poolptr->domntab[1];
   poolptr->domntab[1] = domntmp;
+
+  if (poolptr->domntab[0] != poolptr->domntab[1]) /* If mappings are not tied, keep domains that will no longer be processed */
+    memCpy (poolptr->domntab[0], poolptr->domntab[1], poolptr->mappptr->domnnbr * sizeof (ArchDom));
 }
 
 /* This routine doubles the size all of the arrays
-- 
2.43.0


From ef3bc93c913ef6c864856bd32871e45249835921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:39 +0000
Subject: [PATCH 037/146] fix: do not count fixed vertex loads twice when
 resetting or swapping bipartitions

---
 src/libscotch/bgraph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/bgraph.c b/src/libscotch/bgraph.c
index 120b9d2..586fadf 100644
--- a/src/libscotch/bgraph.c
+++ b/src/libscotch/bgraph.c
@@ -222,7 +222,7 @@ Bgraph * restrict const     grafptr)
   for (vertnum = grafptr->s.baseval, vertnnd = grafptr->s.vertnnd; vertnum < vertnnd; vertnum ++)
     parttax[vertnum] ^= 1;
 
-  comploadsum = grafptr->s.velosum + grafptr->vfixload[0] + grafptr->vfixload[1]; /* Overall load sum, including fixed vertex loads */
+  comploadsum = grafptr->s.velosum;               /* Overall load sum, as part loads do not account for fixed vertices */
   grafptr->compload0    =   comploadsum - grafptr->compload0;
   grafptr->compload0dlt =   comploadsum - grafptr->compload0dlt - 2 * grafptr->compload0avg;
   grafptr->compsize0    =   grafptr->s.vertnbr - grafptr->compsize0; /* Size does not account for fixed vertices */
@@ -243,7 +243,7 @@ Bgraph * restrict const     grafptr)
 {
   Gnum                compload0;
 
-  compload0 = grafptr->s.velosum + grafptr->vfixload[0];
+  compload0 = grafptr->s.velosum;                 /* Part load does not account for fixed vertices */
   grafptr->fronnbr      = 0;                      /* No frontier vertices */
   grafptr->compload0dlt = compload0 - grafptr->compload0avg;
   grafptr->compload0    = compload0;
-- 
2.43.0


From 2013493d2ec04c1b394329e220d5b7090ac66465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:02 +0000
Subject: [PATCH 038/146] fix: make distance symmetric in multilevel
 decomposition-defined architectures

---
 src/libscotch/arch_deco2.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 24e021d..b60d59d 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -514,6 +514,10 @@ const ArchDeco2Dom * const  dom1ptr)
   domnidx1 = dom1ptr->domnidx;
   if (domnidx0 == domnidx1)                       /* If same domains, zero distance */
     return (0);
+  if (domnidx0 > domnidx1) {                      /* Distance estimation depends on start domain, so make it symmetric */
+    domnidx0 = dom1ptr->domnidx;
+    domnidx1 = dom0ptr->domnidx;
+  }
 
   levlnum0 = doextab[domnidx0].levlnum;
   levlnum1 = doextab[domnidx1].levlnum;
-- 
2.43.0


From 709eb85d5742e27db952fcdc902254b3d15bfcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:39 +0000
Subject: [PATCH 039/146] fix: start from first based edge when linking anchors
 of band graphs with fixed vertices

---
 src/libscotch/kgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 42c2a9a..52f2825 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -583,7 +583,7 @@ abort:
 
   if (pfixtax != NULL) {                          /* We have fixed vertices */
     memFree (termhashtab);                        /* Free group leader      */
-    for (bandvertnum = bandgrafptr->s.baseval, bandedgenum = 0; bandvertnum < bandvertnnd;
+    for (bandvertnum = bandedgenum = bandgrafptr->s.baseval; bandvertnum < bandvertnnd;
         bandvertnum ++) {                         /* Link anchors to vertices */
       for ( ; bandedgenum < bandverttax[bandvertnum + 1]; bandedgenum ++) {
         Gnum                  bandvertend;
-- 
2.43.0


From 642b5720d0e2e9d47d2e896c236dab5b69d25c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:32 +0000
Subject: [PATCH 040/146] fix: stop bipartitioning by greedy growing when all
 vertices have been moved

---
 src/libscotch/bgraph_bipart_gp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph_bipart_gp.c b/src/libscotch/bgraph_bipart_gp.c
index ed266c6..16b222f 100644
--- a/src/libscotch/bgraph_bipart_gp.c
+++ b/src/libscotch/bgraph_bipart_gp.c
@@ -128,8 +128,11 @@ const BgraphBipartGpParam * const paraptr)        /*+ Method parameters +*/
     Gnum                diamdeg;                  /* Degree of current diameter vertex                  */
     int                 diamflag;                 /* Flag set if improvement in diameter between passes */
 
-    while (vexxtax[rootnum].passnum != 0)         /* Find first unallocated vertex */
+    while ((rootnum < grafptr->s.vertnnd) &&      /* Find first unallocated vertex */
+           (vexxtax[rootnum].passnum != 0))
       rootnum ++;
+    if (rootnum >= grafptr->s.vertnnd)            /* If all vertices already moved, target load cannot be reached */
+      break;
 
     for (diamnum = rootnum, diamval = diamdeg = 0, diamflag = 1, passnum = 1; /* Start from root   */
          (passnum < paraptr->passnbr) && (diamflag -- != 0); passnum ++) { /* Loop if improvements */
-- 
2.43.0


From b1c0bad5489b9290d194947fde6d13e95ac86952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:06 +0000
Subject: [PATCH 041/146] fix: use proper vertex index for distance between
 nested domains of multilevel decomposition-defined architectures

---
 src/libscotch/arch_deco2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index b60d59d..3315a5f 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -582,7 +582,7 @@ const ArchDeco2Dom * const  dom1ptr)
   }
 
   if (domnidx0 == domnidx1)                       /* If same domains after leveling, half distance of largest domain */
-    return (levlptr->grafdat.velotax[vnumtab[domnidx0]]);
+    return (levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]]);
 
   if (memAllocGroup ((void **) (void *)
                      &queutab, (size_t) ((vertnbr + ARCHDECO2PASSNBR + 1) * sizeof (Anum)), /* Room for pass markers */
@@ -716,7 +716,7 @@ loop: vertnum = queutab[queutailidx ++];          /* Get vertex number from queu
     }
 
     if (domnidx0 == domnidx1) {                   /* If same domains after leveling, half distance of largest domain */
-      distmin = levlptr->grafdat.velotax[vnumtab[domnidx0]];
+      distmin = levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]];
       break;
     }
 #ifdef SCOTCH_DEBUG_ARCH2
-- 
2.43.0


From 4504789f6d5b16bc12d4adf7c3c10590324766a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:56 +0000
Subject: [PATCH 042/146] fix: set old parts of all anchors of band graphs when
 remapping

---
 src/libscotch/kgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 52f2825..149fcfa 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -264,7 +264,7 @@ abort:
       errorPrint ("kgraphBand: out of memory (5)");
       goto abort;
     }
-    memSet (bandparotax + bandvertnbr - bandgrafptr->r.m.domnnbr, ~0, bandgrafptr->r.m.domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
+    memSet (bandparotax + bandvertnbr - domnnbr, ~0, domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
     bandparotax -= bandgrafptr->s.baseval;
     bandgrafptr->r.m.flagval |= MAPPINGINCOMPLETE | MAPPINGFREEPART; /* Remapping may be incomplete */
     bandgrafptr->r.m.parttax  = bandparotax;
-- 
2.43.0


From 28613b4d168071a08cb107a02e3a27218ebec203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:48 +0000
Subject: [PATCH 043/146] fix: synchronize all threads before leaving k-way
 diffusion

---
 src/libscotch/kgraph_map_df.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/libscotch/kgraph_map_df.c b/src/libscotch/kgraph_map_df.c
index b8b7a68..54be166 100644
--- a/src/libscotch/kgraph_map_df.c
+++ b/src/libscotch/kgraph_map_df.c
@@ -177,7 +177,7 @@ KgraphMapDfData * restrict const  loopptr)
       if ((vendtax[vertnum] - verttax[vertnum]) == 0) { /* Non-anchor vertices should not be isolated */
         errorPrint ("kgraphMapDfLoop: internal error (1)");
         loopptr->abrtval = 1;
-        goto abort;
+        goto skip;
       }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
 
@@ -205,7 +205,7 @@ KgraphMapDfData * restrict const  loopptr)
       if ((vendtax[vertnum] - verttax[vertnum]) == 0) { /* Non-anchor vertices should not be isolated */
         errorPrint ("kgraphMapDfLoop: internal error (2)");
         loopptr->abrtval = 1;
-        goto abort;
+        goto skip;
       }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
 
@@ -220,14 +220,14 @@ KgraphMapDfData * restrict const  loopptr)
     }
   }
   if (velsmsk == 0) {                             /* If graph is too small to have any usable anchors */
-    loopptr->abrtval = 1;                         /* We will leave during the first iteration         */
-    goto abort;
+    loopptr->abrtval = 1;                         /* We will leave after the next synchronization     */
+    goto skip;
   }
 
   if ((sorttab = memAlloc (domnnbr * sizeof (KgraphMapDfSort))) == NULL) { /* Allocate here for memory affinity as it is a private array */
     errorPrint ("kgraphMapDfLoop: out of memory");
     loopptr->abrtval = 1;
-    goto abort;
+    goto skip;
   }
 
   if (velotax == NULL) {
@@ -253,10 +253,17 @@ KgraphMapDfData * restrict const  loopptr)
     difntax[vertnum].mdidval = 0.0F;
   }
 
+skip :
 #ifndef KGRAPHMAPDFNOTHREAD
   threadBarrier (descptr);                        /* Make sure all of velstax is written */
 #endif /* KGRAPHMAPDFNOTHREAD */
 
+  if (loopptr->abrtval == 1) {                    /* If process alone or some decided to quit; all threads read same value */
+    if (sorttab != NULL)
+      memFree (sorttab);                          /* Free local array */
+    return;
+  }
+
   for (domnnum = domnbas, vertnum = vancnnd + domnbas; /* For all the subset of anchor vertices */
        domnnum < domnnnd; domnnum ++, vertnum ++) {
     float               vancval;
@@ -288,11 +295,6 @@ KgraphMapDfData * restrict const  loopptr)
   threadBarrier (descptr);
 #endif /* KGRAPHMAPDFNOTHREAD */
 
-  if (loopptr->abrtval == 1) {                    /* If process alone or some decided to quit */
-    memFree (sorttab);                            /* Free local array                         */
-    return;
-  }
-
 #ifndef KGRAPHDIFFMAPPNONE
   if (! archPart (archptr))
     mappflag = 1;
@@ -426,7 +428,7 @@ endloop1 : ;
 #ifdef SCOTCH_DEBUG_KGRAPH2
         errorPrintW ("kgraphMapDfLoop: overflow (1)");
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-        loopptr->abrtval = 1;                     /* Threads need to halt              */
+        loopptr->abrtval = (int) passnum;         /* Threads need to halt at this pass */
         goto abort;                               /* Skip computations but synchronize */
       }
 
@@ -514,7 +516,7 @@ endloop2 : ;
 #ifdef SCOTCH_DEBUG_KGRAPH2
         errorPrintW ("kgraphMapDfLoop: overflow (2)");
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-        loopptr->abrtval = 1;                     /* Threads need to halt              */
+        loopptr->abrtval = (int) passnum;         /* Threads need to halt at this pass */
         goto abort;                               /* Skip computations but synchronize */
       }
 
@@ -530,7 +532,7 @@ abort : ;                                         /* If overflow occured, resume
     threadBarrier (descptr);
 #endif /* KGRAPHMAPDFNOTHREAD */
 
-    if (loopptr->abrtval == 1)                    /* If all threads need to abort */
+    if (loopptr->abrtval == (int) passnum)        /* If all threads need to abort at this pass */
       break;
   }
 
-- 
2.43.0


From fe09ebe5acd2c7dbc5d597bf031863349a3713bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 044/146] fix: fix node loads in halo minimum degree and fill
 orderings of meshes

---
 src/libscotch/hmesh_order_hd.c | 4 ++--
 src/libscotch/hmesh_order_hf.c | 4 ++--
 src/libscotch/hmesh_order_hx.c | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/hmesh_order_hd.c b/src/libscotch/hmesh_order_hd.c
index 0fc53c8..3ad236a 100644
--- a/src/libscotch/hmesh_order_hd.c
+++ b/src/libscotch/hmesh_order_hd.c
@@ -150,8 +150,8 @@ const HmeshOrderHdParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum)); /* Node columns come first */
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0,                  meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
diff --git a/src/libscotch/hmesh_order_hf.c b/src/libscotch/hmesh_order_hf.c
index 3212638..fa99f6d 100644
--- a/src/libscotch/hmesh_order_hf.c
+++ b/src/libscotch/hmesh_order_hf.c
@@ -153,8 +153,8 @@ const HmeshOrderHfParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum)); /* Node columns come first */
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0,                  meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 6f133b1..37d5953 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -103,7 +103,7 @@ Gnum * restrict const         pfreptr)
   Gnum * restrict const       elentax = elentab - 1;
   const Gnum * restrict const verttax = meshptr->m.verttax;
   const Gnum * restrict const vendtax = meshptr->m.vendtax;
-  const Gnum * restrict const velotax = meshptr->m.velotax;
+  const Gnum * restrict const vnlotax = meshptr->m.vnlotax;
   const Gnum * restrict const edgetax = meshptr->m.edgetax;
 
   n     = meshptr->m.velmnbr + meshptr->m.vnodnbr;
@@ -127,7 +127,7 @@ Gnum * restrict const         pfreptr)
 
     petax[vertnum]  = edgenum;
     lentax[vertnum] = vendtax[vnodnum] - verttax[vnodnum];
-    nvtax[vertnum]  = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]  = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum], nghbnbr = -1; /* -1 since loop edge will be processed in the main loop */
          enodnum < vendtax[vnodnum]; enodnum ++) {
@@ -165,7 +165,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnum]   = edgenum;
     lentax[vertnum]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnum] = 0;
-    nvtax[vertnum]   = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]   = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum];
          enodnum < vendtax[vnodnum]; enodnum ++)
-- 
2.43.0


From 1dc62cd778e49b2482e994a24e47cd7cdb0d466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 045/146] fix: report failure of ordering consistency checks

---
 src/libscotch/library_graph_order.c | 2 +-
 src/libscotch/library_mesh_order.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 3ecb02e..4aa6b3e 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -369,7 +369,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 
 #ifdef SCOTCH_DEBUG_LIBRARY2
-  if (orderCheck (&libordeptr->o) != 0)
+  if ((o = orderCheck (&libordeptr->o)) != 0)    /* Report any inconsistency */
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 3752a36..014e13c 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -273,7 +273,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 
 #ifdef SCOTCH_DEBUG_LIBRARY2
-  if (orderCheck (&libordeptr->o) != 0)
+  if ((o = orderCheck (&libordeptr->o)) != 0)    /* Report any inconsistency */
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
-- 
2.43.0


From c2648c7924dd27b98a8513b825831360d15495f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:26 +0000
Subject: [PATCH 046/146] fix: get mesh from its context in mesh ordering
 routines

---
 src/libscotch/library_mesh_order.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 014e13c..a97c99b 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -107,7 +107,7 @@ SCOTCH_Num * const          treetab)              /*+ Separator tree array
   }
 #endif /* SCOTCH_DEBUG_LIBRARY1 */
 
-  srcmeshptr = (Mesh *) meshptr;                  /* Use structure as source mesh */
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);  /* Use structure as source mesh */
   libordeptr = (LibOrder *) ordeptr;
   libordeptr->permtab = ((permtab == NULL) || ((void *) permtab == (void *) meshptr)) ? NULL : (Gnum *) permtab;
   libordeptr->peritab = ((peritab == NULL) || ((void *) peritab == (void *) meshptr)) ? NULL : (Gnum *) peritab;
@@ -144,7 +144,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine saves the mapping data
@@ -161,7 +161,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine saves to the given stream
@@ -178,7 +178,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine computes an ordering
-- 
2.43.0


From 6e1064d3267041a913f06a6d69191b466f9eda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:26 +0000
Subject: [PATCH 047/146] fix: fix node loads of compressed meshes

---
 src/libscotch/hmesh_order_cp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 634f766..9ab642e 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -370,7 +370,12 @@ loop_failed: ;
     memSet (coarmeshdat.m.vnlotax + coarmeshdat.m.vnodbas, 0, coarmeshdat.m.vnodnbr * sizeof (Gnum));
 
     for (finevnodnum = finemeshptr->m.vnodbas; finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) { /* Compute vertex loads for compressed mesh */
-      coarmeshdat.m.vnlotax[finecoartax[finevnodnum]] += finemeshptr->m.vnlotax[finevnodnum];
+      Gnum                coarvnodnum;
+
+      coarvnodnum = finecoartax[finevnodnum];     /* Get index of corresponding coarse node */
+      if (coarvnodnum < 0)                        /* If node is not cluster leader          */
+        coarvnodnum = -2 - coarvnodnum;           /* Get index of cluster leader            */
+      coarmeshdat.m.vnlotax[coarvnodnum] += finemeshptr->m.vnlotax[finevnodnum];
     }
   }
 
-- 
2.43.0


From 32b1009cd7e916beba934027ab3e3e808559763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:36 +0000
Subject: [PATCH 048/146] fix: set context of halo graphs built from meshes

---
 src/libscotch/hmesh_hgraph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/hmesh_hgraph.c b/src/libscotch/hmesh_hgraph.c
index 19c719f..1f9c043 100644
--- a/src/libscotch/hmesh_hgraph.c
+++ b/src/libscotch/hmesh_hgraph.c
@@ -121,6 +121,8 @@ Hgraph * restrict const       grafptr)            /*+ Graph to build +*/
   grafptr->vnohnbr   = meshptr->vnohnbr;
   grafptr->vnohnnd   = meshptr->vnohnbr + grafptr->s.baseval;
   grafptr->vnlosum   = meshptr->vnhlsum;
+  grafptr->levlnum   = meshptr->levlnum;          /* Graph is at level of mesh */
+  grafptr->contptr   = meshptr->contptr;
 
   for (hashsiz = 2, hashnbr = meshptr->m.degrmax * meshptr->m.degrmax * 2; /* Compute size of hash table */
        hashsiz < hashnbr; hashsiz <<= 1) ;
-- 
2.43.0


From 6bd999f1e1e9444f19a5cb5db909d9ee33ded0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:21 +0000
Subject: [PATCH 049/146] fix: make edge arrays of graphs built from meshes
 grow

---
 src/libscotch/mesh_graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index fba9556..f63d602 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -174,7 +174,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
               Gnum * restrict     edgetmp;
 
               edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-              edgemax = edgemax + (edgemax >> 2);
+              edgemax = edgemax + (edgemax >> 2) + 4; /* Make sure size increases */
 
               if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                 errorPrint ("meshGraph: out of memory (3)");
@@ -325,7 +325,7 @@ test:         if (nghbnbr <= 0) {                 /* If new instance allows us t
                   Gnum * restrict     edgetmp;
 
                   edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-                  edgemax = edgemax + (edgemax >> 2);
+                  edgemax = edgemax + (edgemax >> 2) + 4; /* Make sure size increases */
 
                   if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                     errorPrint ("meshGraphDual: out of memory (3)");
-- 
2.43.0


From 9339cb38d46a89fefd966843650bca06e2bf5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:21 +0000
Subject: [PATCH 050/146] fix: set part weights and free graph in
 vmeshSeparateGr

---
 src/libscotch/vmesh_separate_gr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libscotch/vmesh_separate_gr.c b/src/libscotch/vmesh_separate_gr.c
index 2570516..9f6dd1c 100644
--- a/src/libscotch/vmesh_separate_gr.c
+++ b/src/libscotch/vmesh_separate_gr.c
@@ -94,6 +94,8 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
   grafdat.comploaddlt = meshptr->ncmploaddlt;
   grafdat.compsize[0] = meshptr->ncmpsize[0];
   grafdat.compsize[1] = meshptr->ncmpsize[1];
+  grafdat.dwgttab[0]  =                           /* Parts should have about the same weights */
+  grafdat.dwgttab[1]  = 1;
   grafdat.fronnbr     = meshptr->fronnbr;
   grafdat.frontab     = meshptr->frontab;         /* Re-use frontier array */
   grafdat.levlnum     = meshptr->levlnum;
@@ -105,12 +107,14 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
 #ifdef SCOTCH_DEBUG_VMESH2
   if (vgraphCheck (&grafdat) != 0) {
     errorPrint ("vmeshSeparateGr: internal error (1)");
+    graphExit  (&grafdat.s);
     return (1);
   }
 #endif /* SCOTCH_DEBUG_VMESH2 */
 
   if (vgraphSeparateSt (&grafdat, paraptr->stratptr) != 0) {
     errorPrint ("vmeshSeparateGr: cannot separate graph");
+    graphExit  (&grafdat.s);
     return (1);
   }
 
@@ -124,6 +128,8 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
   meshptr->ncmpsize[1] = grafdat.compsize[1];
   meshptr->fronnbr     = grafdat.fronnbr;
 
+  graphExit (&grafdat.s);                         /* Free graph; part and frontier arrays belong to mesh */
+
   for (velmnum = meshptr->m.velmbas, ecmpsize1 = 0;
        velmnum < meshptr->m.velmnnd; velmnum ++) { /* Compute part of all elements */
     Gnum                              eelmnum;
-- 
2.43.0


From c5f42ac740769f5509245a22374773c2bd1ced4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:30 +0000
Subject: [PATCH 051/146] fix: eliminate all variables in halo orderings of
 meshes

---
 src/libscotch/hall_order_hd.c | 1 +
 src/libscotch/hall_order_hf.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index 3d19984..c824b37 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -437,6 +437,7 @@ Gnum * restrict     w)                            /* Flag array
       else {                                      /* i \in Ve or V0 */
         if (elen[i] < 0) {                        /* If i \in Ve    */
           nel    += nv[i];
+          totel  += nv[i];                        /* Elements are counted as already eliminated */
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
diff --git a/src/libscotch/hall_order_hf.c b/src/libscotch/hall_order_hf.c
index 8ec12b9..2ee315b 100644
--- a/src/libscotch/hall_order_hf.c
+++ b/src/libscotch/hall_order_hf.c
@@ -780,6 +780,7 @@ Gnum * restrict     head /* [0:nbbuck+1] */)      /* Linked list structure
       else {                                      /* Non-halo vertex or element */
         if (elen[i] < 0) {                        /* If i \in Ve                */
           nel    += nv[i];
+          totel  += nv[i];                        /* Elements are counted as already eliminated */
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
-- 
2.43.0


From 4d7267905f24132c3ac20bb88ba6bbab5b66fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:30 +0000
Subject: [PATCH 052/146] fix: handle isolated nodes in mesh compression

---
 src/libscotch/hmesh_order_cp.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 9ab642e..8b5e07f 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -325,6 +325,22 @@ loop_failed: ;
     return (1);
   }
 #endif /* SCOTCH_DEBUG_ORDER2 */
+
+  for (finevnodnum = finemeshptr->m.vnodbas;      /* Process nodes that do not belong to any element */
+       finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) {
+    if (finecoartax[finevnodnum] != ~0)           /* If node already processed */
+      continue;
+
+    if (coarvnodnnd >= (coarvnodmax + coarmeshdat.m.vnodbas)) { /* If mesh needs not be compressed */
+      memFree (coarverttax + coarmeshdat.m.baseval);
+      return  (hmeshOrderSt (finemeshptr, fineordeptr, ordenum, cblkptr, paraptr->stratunc));
+    }
+
+    finecoartax[finevnodnum] = coarvnodnnd;       /* Isolated node is leader of cluster of size one */
+    coarfinetax[coarvnodnnd] = finevnodnum;
+    coarvsiztax[coarvnodnnd] = 1;
+    coarvnodnnd ++;
+  }
   coarmeshdat.m.vnodnnd = coarvnodnnd;
   coarmeshdat.m.vnodnbr = coarvnodnnd - coarmeshdat.m.vnodbas;
 
-- 
2.43.0


From 3762a2b4cd80e5eb8a2ff3b4b59db72ea2e778b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:51 +0000
Subject: [PATCH 053/146] fix: handle isolated nodes in halo orderings of
 meshes

---
 src/libscotch/hmesh_order_hx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 37d5953..d517704 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -153,8 +153,8 @@ Gnum * restrict const         pfreptr)
             break;                                /* Skip to next end vertex        */
         }
       }
-      elentax[vertnum] = nghbnbr;
     }
+    elentax[vertnum] = MAX (nghbnbr, 0);          /* Nodes that do not belong to any element have no neighbors */
   }
 
   for ( ; vnodnum < meshptr->m.vnodnnd; vnodnum ++, vertnum ++) { /* Copy halo vertices with base 1 */
-- 
2.43.0


From 4a12dff03b8b3bd818b33660c009c1bc6d3475cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:31 +0000
Subject: [PATCH 054/146] fix: use node loads in separator meshes

---
 src/libscotch/mesh_induce_sepa.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index 524f781..c31b569 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -177,13 +177,13 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   hashmsk = hashmsk * 4 + 3;                      /* Compute size of node hash table */
 
   indvertnbr = indvelmnbr + orgsepanbr;           /* Upper bound on number of all vertices */
-  if (orgmeshptr->velotax != NULL) {
+  if (orgmeshptr->vnlotax != NULL) {
     p = memAllocGroup ((void **) (void *)
           &indmeshptr->verttax, (size_t) (indvertnbr * sizeof (Gnum)), /* verttab is not compact */
           &indmeshptr->vendtax, (size_t) (indvertnbr * sizeof (Gnum)),
           &indmeshptr->vnumtax, (size_t) (orgsepanbr * sizeof (Gnum)), /* vnumtab is of size indnodenbr                */
-          &indmeshptr->velotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
-    indmeshptr->velotax -= indmeshptr->vnodbas;
+          &indmeshptr->vnlotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
+    indmeshptr->vnlotax -= indmeshptr->vnodbas;
   }
   else
     p = memAllocGroup ((void **) (void *)
@@ -224,12 +224,12 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
       orgindxtax[orgvnodnum] = indvnodnum ++;     /* One more node vertex created                */
     indmeshptr->verttax[orgindxtax[orgvnodnum]] = indedgenum; /* Set beginning of edge sub-array */
     indmeshptr->vnumtax[orgindxtax[orgvnodnum]] = orgvnodnum - (orgmeshptr->vnodbas - orgmeshptr->baseval);
-    if (indmeshptr->velotax != NULL) {
+    if (indmeshptr->vnlotax != NULL) {
       Gnum                indvnloval;
 
-      indvnloval  = orgmeshptr->velotax[orgvnodnum];
+      indvnloval  = orgmeshptr->vnlotax[orgvnodnum];
       indvnlosum += indvnloval;
-      indmeshptr->velotax[orgindxtax[orgvnodnum]] = indvnloval;
+      indmeshptr->vnlotax[orgindxtax[orgvnodnum]] = indvnloval;
     }
 
     indenodnum  = indedgenum;                     /* Record position of node edge sub-array */
@@ -344,7 +344,7 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   indmeshptr->edgetax -= indmeshptr->baseval;
 
   indmeshptr->velosum = indmeshptr->velmnbr;      /* TODO: account for element weights */
-  indmeshptr->vnlosum = (indmeshptr->velotax == NULL) ? orgsepanbr : indvnlosum;
+  indmeshptr->vnlosum = (indmeshptr->vnlotax == NULL) ? orgsepanbr : indvnlosum;
   indmeshptr->degrmax = orgmeshptr->degrmax;      /* Rough estimate */
 
   if (orgmeshptr->vnumtax != NULL) {              /* If mesh is a submesh */
-- 
2.43.0


From d58d2db6fc5c11a888b270320c80142a16be0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:52 +0000
Subject: [PATCH 055/146] fix: fix indexing of element loads of compressed
 meshes

---
 src/libscotch/hmesh_order_cp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 8b5e07f..e734cc4 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -206,7 +206,8 @@ const HmeshOrderCpParam * restrict const  paraptr)
 
   coarmeshdat.m.verttax = coarverttax;
   coarmeshdat.m.vendtax = coarverttax + 1;        /* Use compact representation of arrays     */
-  coarmeshdat.m.velotax = finemeshptr->m.velotax; /* Re-use element vertex load array, if any */
+  coarmeshdat.m.velotax = (finemeshptr->m.velotax == NULL) /* Re-use element vertex load array, if any */
+                          ? NULL : finemeshptr->m.velotax + (finemeshptr->m.velmbas - coarmeshdat.m.velmbas);
   coarmeshdat.m.vnlotax = coarvnlotax;
   coarmeshdat.m.edgetax = coaredgetax;
 
-- 
2.43.0


From 9360ca311c6afd072a68df654b03fc3543ea155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:53 +0000
Subject: [PATCH 056/146] fix: fix coarsening of meshes with nodes first or
 isolated nodes

---
 src/libscotch/mesh_coarsen.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 64a14c4..45f93f0 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -119,6 +119,7 @@ Context * restrict const      contptr)            /*+ Execution context
   Gnum                        coarvelmnum;        /* Number of currently selected coarse element */
   Gnum                        coareelmnum;
   Gnum                        coarvnodnum;
+  Gnum                        finevnodnum;
   Gnum                        coardegrmax;
   MeshCoarsenMult * restrict  finemulttax;
   Gnum                        coaredgetmp;
@@ -165,6 +166,12 @@ Context * restrict const      contptr)            /*+ Execution context
 
   meshCoarsenFuncTab[coartype] (finemeshptr, finemulttax, finecoartax, &coarvelmnbr, &coarvnodnbr, &coaredgenbr, contptr); /* Call proper matching function */
 
+  if ((double) coarvelmnbr > (double) finemeshptr->velmnbr * coarrat) { /* If mesh could not be coarsened enough */
+    memFree (coarverttax);                        /* Free group leader, not based yet */
+    memFree (finecoartax + finemeshptr->baseval);
+    return (1);
+  }
+
 #ifndef DEAD_CODE
   coarvnodnbr = finemeshptr->vnodnbr;             /* TODO : coarvnodnbr estimator is wrong : too tight */
   coaredgenbr = finemeshptr->edgenbr;
@@ -293,6 +300,14 @@ Context * restrict const      contptr)            /*+ Execution context
     if (coardegrval > coardegrmax)
       coardegrmax = coardegrval;
   }
+  for (finevnodnum = finemeshptr->vnodbas; finevnodnum < finemeshptr->vnodnnd; finevnodnum ++) {
+    if (finecoartax[finevnodnum] == ~0) {         /* If node does not belong to any element */
+      finecoartax[finevnodnum] = coarvnodnum;     /* Keep it as is                          */
+      coarverttax[coarvnodnum] = 0;
+      coarvelotax[coarvnodnum] = (finemeshptr->vnlotax != NULL) ? finemeshptr->vnlotax[finevnodnum] : 1;
+      coarvnodnum ++;
+    }
+  }
   coarmeshptr->veisnbr = coarveisnbr;
   coarmeshptr->vnodnnd = coarvnodnum;
   coarmeshptr->vnodnbr = coarvnodnum - coarmeshptr->vnodbas;
@@ -341,6 +356,8 @@ Context * restrict const      contptr)            /*+ Execution context
 #ifdef SCOTCH_DEBUG_MESH2
   if (meshCheck (coarmeshptr) != 0) {             /* Check mesh consistency */
     errorPrint ("meshCoarsen: internal error (7)");
+    meshExit   (coarmeshptr);
+    memFree    (finecoartax + finemeshptr->baseval);
     return (2);
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
@@ -428,7 +445,6 @@ Context * restrict const          contptr)
           finecoartax[finevelmnum] = coarvelmnum;
           finemulttax[coarvelmnum].finevelmnum[0] =
           finemulttax[coarvelmnum].finevelmnum[1] = finevelmnum;
-fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax[finevelmnum]); /* TODO REMOVE */
           coarvelmnum ++;                         /* One more single vertex created */
         }
         continue;
@@ -606,7 +622,7 @@ fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax
 
   memFree (finehashtab);
 
-  *coarvelmptr = coarvelmnum - finemeshptr->velmbas;
+  *coarvelmptr = coarvelmnum - finemeshptr->baseval; /* Coarse elements are numbered from base value */
   *coarvnodptr = coarvnodnbr;
   *coaredgeptr = coaredgenbr;
 
-- 
2.43.0


From 288240b1c74d5a4ab284a8c4410439a02d1864da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 057/146] fix: use given start index in hgraphOrderCc

---
 src/libscotch/hgraph_order_cc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cc.c b/src/libscotch/hgraph_order_cc.c
index aacbb03..0703b97 100644
--- a/src/libscotch/hgraph_order_cc.c
+++ b/src/libscotch/hgraph_order_cc.c
@@ -177,7 +177,7 @@ const HgraphOrderCcParam * restrict const paraptr)
     cblkptr->cblktab[rootnum].cblktab = NULL;
   }
 
-  for (rootnum = 0, indordenum = 0; rootnum < rootnbr; rootnum ++) {
+  for (rootnum = 0, indordenum = ordenum; rootnum < rootnbr; rootnum ++) {
     Gnum                indvnohnbr;
     int                 o;
 
-- 
2.43.0


From 00a69522c2337a792db9c7fbb6e71f28dcf7c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:40 +0000
Subject: [PATCH 058/146] fix: use given start index when expanding compressed
 orderings

---
 src/libscotch/hgraph_order_cp.c | 2 +-
 src/libscotch/hmesh_order_cp.c  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index 20a65d0..7200adf 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -127,7 +127,7 @@ const HgraphOrderCpParam * const  paraptr)
 #endif /* SCOTCH_DEBUG_ORDER2 */
 
 
-  Gnum * restrict const         fineperitab = fineordeptr->peritab;
+  Gnum * restrict const         fineperitab = fineordeptr->peritab + ordenum;
   const Gnum * restrict const   fineverttax = finegrafptr->s.verttax;
   const Gnum * restrict const   finevelotax = finegrafptr->s.velotax;
   const Gnum * restrict const   finevendtax = finegrafptr->s.vendtax;
diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index e734cc4..d542886 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -450,7 +450,9 @@ loop_failed: ;
     coarvnodnum = finecoartax[finevnodnum];       /* Get index of corresponding coarse node */
     if (coarvnodnum < 0)                          /* If node is not cluster leader          */
       coarvnodnum = -2 - coarvnodnum;             /* Get index of cluster leader            */
-    fineordeptr->peritab[coarvpostax[coarvnodnum] ++] = finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas);
+    fineordeptr->peritab[ordenum + coarvpostax[coarvnodnum] ++] = (finemeshptr->m.vnumtax == NULL)
+                                                                  ? (finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas))
+                                                                  : finemeshptr->m.vnumtax[finevnodnum];
   }
 
   orderExit (&coarordedat);
-- 
2.43.0


From 7221abfaa0847268c982aaa1b737131ef529577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:55 +0000
Subject: [PATCH 059/146] fix: skip empty elements when compressing adjacency
 lists in mesh orderings

---
 src/libscotch/hmesh_order_hx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index d517704..89e3429 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -176,8 +176,8 @@ Gnum * restrict const         pfreptr)
   for (velmnum = meshptr->m.velmbas; velmnum < meshptr->m.velmnnd; velmnum ++, vertnum ++) {
     Gnum                      eelmnum;
 
-    petax[vertnum]   = edgenum;
     lentax[vertnum]  = meshptr->m.vendtax[velmnum] - meshptr->m.verttax[velmnum];
+    petax[vertnum]   = (lentax[vertnum] != 0) ? edgenum : 0; /* Compression of adjacency lists must skip empty elements */
     elentax[vertnum] = - (n + 1);
     nvtax[vertnum]   = 1;                         /* Elements always have weight 1 */
 
-- 
2.43.0


From db3c56a26e011ca3b1b1247d02d78e1465df9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:55 +0000
Subject: [PATCH 060/146] fix: do not coarsen meshes without elements to merge

---
 src/libscotch/mesh_coarsen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 45f93f0..0523fa4 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -133,6 +133,9 @@ Context * restrict const      contptr)            /*+ Execution context
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
 
+  if (finemeshptr->velmnbr < 2)                   /* If no elements to merge */
+    return (1);
+
   memSet (coarmeshptr, 0, sizeof (Mesh));         /* Initialize coarse mesh */
   coarmeshptr->flagval = GRAPHFREEVERT;
   coarmeshptr->baseval = finemeshptr->baseval;
-- 
2.43.0


From 63aa1603e7d6f211a042292a9204924e81d5311e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:45:42 +0000
Subject: [PATCH 061/146] fix: do not let thread scheduling change
 deterministic partitioning results

Threads store domains and frontier vertices in the order in which they
finish, and this order influences the refinement methods run afterwards.
---
 src/libscotch/kgraph_map_rb_part.c | 68 ++++++++++++++++++++++++++++++
 src/libscotch/wgraph_part_rb.c     | 11 +++++
 2 files changed, 79 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_part.c b/src/libscotch/kgraph_map_rb_part.c
index 5dc7392..e94315a 100644
--- a/src/libscotch/kgraph_map_rb_part.c
+++ b/src/libscotch/kgraph_map_rb_part.c
@@ -69,6 +69,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "parser.h"
 #include "graph.h"
 #include "arch.h"
@@ -338,6 +339,63 @@ end3:
   }
 }
 
+/* This routine sorts the domains of the mapping
+** by ascending domain number, so that their order
+** does not depend on the order in which threads
+** have created them.
+** It returns:
+** - 0   : on success.
+** - !0  : on error.
+*/
+
+#ifndef KGRAPHMAPRBPARTNOTHREAD
+static
+int
+kgraphMapRbPartSort (
+const Graph * restrict const  grafptr,            /*+ Graph to map +*/
+Mapping * restrict const      mappptr)
+{
+  ArchDom * restrict  domntab;                    /* Array of sorted domains            */
+  Anum * restrict     sorttab;                    /* Array of (domain, old index) pairs */
+  Anum * restrict     permtab;                    /* New index of old domains           */
+  Anum                domnnum;
+  Gnum                vertnum;
+  Gnum                vertnnd;
+
+  const Anum                domnnbr = mappptr->domnnbr;
+  Anum * restrict const     parttax = mappptr->parttax;
+
+  if (memAllocGroup ((void **) (void *)
+                     &domntab, (size_t) (domnnbr * sizeof (ArchDom)),
+                     &sorttab, (size_t) (domnnbr * sizeof (Anum) * 2),
+                     &permtab, (size_t) (domnnbr * sizeof (Anum)), NULL) == NULL) {
+    errorPrint ("kgraphMapRbPartSort: out of memory");
+    return (1);
+  }
+
+  for (domnnum = 0; domnnum < domnnbr; domnnum ++) {
+    sorttab[2 * domnnum]     = archDomNum (mappptr->archptr, &mappptr->domntab[domnnum]);
+    sorttab[2 * domnnum + 1] = domnnum;
+  }
+  intSort2asc1 (sorttab, domnnbr);
+  for (domnnum = 0; domnnum < domnnbr; domnnum ++) {
+    permtab[sorttab[2 * domnnum + 1]] = domnnum;
+    domntab[domnnum] = mappptr->domntab[sorttab[2 * domnnum + 1]];
+  }
+  memCpy (mappptr->domntab, domntab, domnnbr * sizeof (ArchDom));
+
+  for (vertnum = grafptr->baseval, vertnnd = grafptr->vertnnd; vertnum < vertnnd; vertnum ++) {
+    const Gnum          vertorg = (grafptr->vnumtax != NULL) ? grafptr->vnumtax[vertnum] : vertnum; /* Skip fixed vertices */
+
+    parttax[vertorg] = permtab[parttax[vertorg]];
+  }
+
+  memFree (domntab);                              /* Free group leader */
+
+  return (0);
+}
+#endif /* KGRAPHMAPRBPARTNOTHREAD */
+
 /* This routine is the entry point for
 ** the degenerated, graph partitioning
 ** version, of the Dual Recursive
@@ -390,6 +448,16 @@ Context * restrict const                contptr)  /*+ Execution context
   o = 0;                                          /* Assume everything will run without error */
   kgraphMapRbPart2 (contptr, 0, &spltdat);        /* Run recursive partitioning on main graph */
 
+#ifndef KGRAPHMAPRBPARTNOTHREAD
+  if ((o == 0) && (contextThreadNbr (contptr) > 1)) { /* If domains may have been created in any order */
+    Gnum                deteval;
+
+    contextValuesGetInt (contptr, CONTEXTOPTIONNUMDETERMINISTIC, &deteval);
+    if (deteval != 0)                             /* If deterministic behavior wanted */
+      o = kgraphMapRbPartSort (grafptr, mappptr);
+  }
+#endif /* KGRAPHMAPRBPARTNOTHREAD */
+
 #ifdef SCOTCH_PTHREAD
   pthread_mutex_destroy (&mappptr->mutedat);      /* Destroy local mutex */
 #endif /* SCOTCH_PTHREAD */
diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 42e886f..fffb99e 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -60,6 +60,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "parser.h"
 #include "graph.h"
 #include "arch.h"
@@ -448,6 +449,16 @@ const WgraphPartRbParam * restrict const  paraptr)
   }
   grafptr->fronnbr = datadat.fronnbr;             /* Set overall number of frontier vertices */
 
+#ifndef WGRAPHPARTRBNOTHREAD
+  if (contextThreadNbr (grafptr->contptr) > 1) {  /* If frontier vertices may have been stored in any order */
+    Gnum                deteval;
+
+    contextValuesGetInt (grafptr->contptr, CONTEXTOPTIONNUMDETERMINISTIC, &deteval);
+    if (deteval != 0)                             /* If deterministic behavior wanted */
+      intSort1asc1 (grafptr->frontab, grafptr->fronnbr);
+  }
+#endif /* WGRAPHPARTRBNOTHREAD */
+
   if (wgraphCost (grafptr) != 0) {
     errorPrint ("wgraphPartRb: could not compute partition cost");
     return (1);
-- 
2.43.0


From eab723f8105b1eef1d6e5ff1642bea7e0cd6771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:08 +0000
Subject: [PATCH 062/146] fix: do not leave a half-loaded random state after a
 failed load

---
 src/libscotch/common_integer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/common_integer.c b/src/libscotch/common_integer.c
index 8dd059d..32ffe1f 100644
--- a/src/libscotch/common_integer.c
+++ b/src/libscotch/common_integer.c
@@ -337,6 +337,7 @@ intRandLoad (
 IntRandContext * restrict const randptr,          /*+ Random context to load +*/
 FILE * restrict const           stream)           /*+ Stream to read from    +*/
 {
+  IntRandContext      randdat;                    /* Data to be loaded before being put in use */
   INT                 versval;
 
   if (intLoad (stream, &versval) != 1) {          /* Read version number */
@@ -349,15 +350,18 @@ FILE * restrict const           stream)           /*+ Stream to read from    +*/
   }
 
   if (fscanf (stream, "%d%" PRIu64,
-              &randptr->procval,
-              &randptr->seedval) != 2) {
+              &randdat.procval,
+              &randdat.seedval) != 2) {
     errorPrint ("intRandLoad: bad input (2)");
     return (2);
   }
+  if (intRandLoad2 (&randdat.statdat, stream) != 0)
+    return (2);
 
-  randptr->flagval = 1;                           /* Assume state has been initialized */
+  randdat.flagval = 1;                            /* Assume state has been initialized             */
+  *randptr = randdat;                             /* Only change generator if everything went well */
 
-  return (intRandLoad2 (&randptr->statdat, stream));
+  return (0);
 }
 
 /* This routine saves the random state.
-- 
2.43.0


From e4e52eec9654f812758ab9aaf12673042a2c56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:54 +0000
Subject: [PATCH 063/146] fix: save the affinity of the main thread when
 importing threads

---
 src/libscotch/common_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/common_thread.c b/src/libscotch/common_thread.c
index 1134a2c..c8730e1 100644
--- a/src/libscotch/common_thread.c
+++ b/src/libscotch/common_thread.c
@@ -588,6 +588,8 @@ threadContextImport1 (
 ThreadContext * const       contptr,
 const int                   thrdnbr)
 {
+  threadProcessStateSave (contptr);               /* Save state of main thread, as it will be restored on exit */
+
   contptr->thrdnbr = thrdnbr;
   contptr->paraptr = NULL;
   contptr->funcptr = NULL;
-- 
2.43.0


From 88b49f25290a70caf9aa6abac191f22fd73c2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:26 +0000
Subject: [PATCH 064/146] fix: release the threads already started when a
 thread cannot be created

---
 src/libscotch/common_thread.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/common_thread.c b/src/libscotch/common_thread.c
index c8730e1..6f60bdc 100644
--- a/src/libscotch/common_thread.c
+++ b/src/libscotch/common_thread.c
@@ -146,8 +146,12 @@ const int * const           coretab)
 
     if (threadCreate (&desctab[thrdnum], thrdnum, corenum) != 0) {
       errorPrint ("threadContextInit: cannot create thread (%d)", thrdnum);
-      contptr->thrdnbr = thrdnum;                 /* Terminate all threads that have been launched to date */
-      threadContextExit (contptr);
+      pthread_mutex_lock   (&contptr->lockdat);
+      contptr->thrdnbr = thrdnum;                 /* Only consider the threads that have been launched to date */
+      pthread_mutex_unlock (&contptr->lockdat);
+      threadContextBarrier (contptr);             /* Wait for them to complete their initialization */
+      threadContextExit    (contptr);             /* Terminate them                                 */
+      memFree (desctab);
       return (1);
     }
   }
-- 
2.43.0


From fd8b4da017b627838833e544e3c526a92a7079e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 065/146] fix: report compressed files that cannot be completed
 and close files on errors

---
 src/libscotch/common_file_compress.c   | 15 ++++++++++++---
 src/libscotch/common_file_decompress.c |  5 +++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/common_file_compress.c b/src/libscotch/common_file_compress.c
index 5255cdc..b352311 100644
--- a/src/libscotch/common_file_compress.c
+++ b/src/libscotch/common_file_compress.c
@@ -287,6 +287,7 @@ FileCompress * const        compptr)
   if ((encoptr = BZ2_bzWriteOpen (&flagval, compptr->oustptr, 9, 0, 0)) == NULL) {
     errorPrint ("fileCompressBz2: cannot start compression");
     BZ2_bzWriteClose (&flagval, encoptr, 1, NULL, NULL);
+    fclose (compptr->oustptr);
     return;
   }
 
@@ -303,7 +304,9 @@ FileCompress * const        compptr)
   }
 
   BZ2_bzWriteClose (&flagval, encoptr, (flagval != BZ_OK) ? 1 : 0, NULL, NULL);
-  fclose (compptr->oustptr);                      /* Do as zlib does */
+  if ((fclose (compptr->oustptr) != 0) ||         /* Do as zlib does */
+      (flagval != BZ_OK))
+    errorPrint ("fileCompressBz2: cannot complete compressed file");
 }
 #endif /* COMMON_FILE_COMPRESS_BZ2 */
 
@@ -325,6 +328,7 @@ FileCompress * const        compptr)
 
   if ((encoptr = gzdopen (fileno (compptr->oustptr), "wb")) == NULL) {
     errorPrint ("fileCompressGz: cannot start compression");
+    fclose (compptr->oustptr);
     return;
   }
   gzsetparams (encoptr, 9, Z_DEFAULT_STRATEGY);   /* Maximum compression */
@@ -338,7 +342,8 @@ FileCompress * const        compptr)
   if (bytenbr < 0)
     errorPrint ("fileCompressGz: cannot read");
 
-  gzclose (encoptr);                              /* Closes oustptr */
+  if (gzclose (encoptr) != Z_OK)                  /* Closes oustptr */
+    errorPrint ("fileCompressGz: cannot complete compressed file");
 }
 #endif /* COMMON_FILE_COMPRESS_GZ */
 
@@ -362,12 +367,14 @@ FileCompress * const        compptr)
 
   if ((obuftab = memAlloc (FILECOMPRESSDATASIZE)) == NULL) {
     errorPrint ("fileCompressLzma: out of memory");
+    fclose (compptr->oustptr);
     return;
   }
 
   if (lzma_easy_encoder (&encodat, LZMA_PRESET_EXTREME, LZMA_CHECK_CRC64) != LZMA_OK) {
     errorPrint ("fileCompressLzma: cannot start compression");
     memFree    (obuftab);
+    fclose     (compptr->oustptr);
     return;
   }
 
@@ -409,6 +416,8 @@ FileCompress * const        compptr)
   lzma_end (&encodat);
   memFree  (obuftab);
 
-  fclose (compptr->oustptr);                      /* Do as zlib does */
+  if ((fclose (compptr->oustptr) != 0) ||         /* Do as zlib does */
+      (enreval != LZMA_STREAM_END))
+    errorPrint ("fileCompressLzma: cannot complete compressed file");
 }
 #endif /* COMMON_FILE_COMPRESS_LZMA */
diff --git a/src/libscotch/common_file_decompress.c b/src/libscotch/common_file_decompress.c
index 6e80222..02d9f33 100644
--- a/src/libscotch/common_file_decompress.c
+++ b/src/libscotch/common_file_decompress.c
@@ -263,11 +263,13 @@ FileCompress * const        compptr)
 
   if (FILECOMPRESSDATASIZE < (BZ_MAX_UNUSED)) {
     errorPrint ("fileDecompressBz2: cannot start decompression (1)");
+    fclose (compptr->oustptr);
     return;
   }
   if ((decoptr = BZ2_bzReadOpen (&flagval, compptr->oustptr, 0, 0, NULL, 0)) == NULL) {
     errorPrint ("fileDecompressBz2: cannot start decompression (2)");
     BZ2_bzReadClose (&flagval, decoptr);
+    fclose (compptr->oustptr);
     return;
   }
 
@@ -321,6 +323,7 @@ FileCompress * const        compptr)
 
   if ((decoptr = gzdopen (fileno (compptr->oustptr), "rb")) == NULL) {
     errorPrint ("fileDecompressGz: cannot start decompression");
+    fclose (compptr->oustptr);
     return;
   }
 
@@ -357,12 +360,14 @@ FileCompress * const        compptr)
 
   if ((obuftab = memAlloc (FILECOMPRESSDATASIZE)) == NULL) {
     errorPrint ("fileDecompressLzma: out of memory");
+    fclose (compptr->oustptr);
     return;
   }
 
   if (lzma_stream_decoder (&decodat, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK) {
     errorPrint ("fileDecompressLzma: cannot start decompression");
     memFree    (obuftab);
+    fclose     (compptr->oustptr);
     return;
   }
 
-- 
2.43.0


From 700718f24e3355929c5b4bcc7c45c7c1d740e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 066/146] fix: keep extremal loads of parallel bipartitions
 within possible loads

---
 src/libscotch/kdgraph_map_rb_part.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index c60c710..d9eb9c3 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -391,6 +391,10 @@ const KdgraphMapRbPartData * restrict const dataptr)
   actgrafdat.compglbload0max = actgrafdat.compglbload0avg +
                                (Gnum) MIN ((comploadavg - dataptr->comploadmin) * actgrafdat.domnwght[0],
                                            (dataptr->comploadmax - comploadavg) * actgrafdat.domnwght[1]);
+  if (actgrafdat.compglbload0min < 0)             /* Keep extrema within possible loads when subgraph is imbalanced */
+    actgrafdat.compglbload0min = 0;
+  if (actgrafdat.compglbload0max > actgrafdat.s.veloglbsum)
+    actgrafdat.compglbload0max = actgrafdat.s.veloglbsum;
 
   if ((o != 0) || (bdgraphBipartSt (&actgrafdat, dataptr->paraptr->stratsep) != 0)) { /* Bipartition edge-separation graph   */
     bdgraphExit (&actgrafdat);
-- 
2.43.0


From a3fdc4c12edfaa3ac2fb6b0b9ed280bb40539e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:14 +0000
Subject: [PATCH 067/146] fix: index vertices by their global numbers when
 saving distributed mappings

---
 src/libscotch/dmapping_io.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/dmapping_io.c b/src/libscotch/dmapping_io.c
index e3e425b..09a88a9 100644
--- a/src/libscotch/dmapping_io.c
+++ b/src/libscotch/dmapping_io.c
@@ -133,7 +133,7 @@ FILE * restrict const           stream)
   if (protnum == grafptr->proclocnum) {
     Gnum                  vlblnbr;
 
-    vlblnbr = (grafptr->vlblloctax != NULL) ? grafptr->vertglbnbr : 0;
+    vlblnbr = (grafptr->vlblloctax != NULL) ? (grafptr->procvrttab[grafptr->procglbnbr] - grafptr->baseval) : 0; /* Indexed by global vertex numbers */
     if ((termloctab = memAllocGroup ((void **) (void *) /* termloctab not used on root processor, but used only for freeing the block              */
                                      &termrcvtab, (size_t) (vertrcvmax * 2 * sizeof (Gnum)), /* TRICK: "*2" as vnumrcvtab is sent after termrcvtab */
                                      &vlbltax,    (size_t) (vlblnbr        * sizeof (Gnum)), NULL)) == NULL) {
@@ -167,12 +167,12 @@ FILE * restrict const           stream)
   }
 
   if (grafptr->vlblloctax != NULL) {
+    vlbltax -= grafptr->baseval;                  /* Base label array, as displacements are based */
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltax, grafptr->proccnttab, grafptr->procvrttab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dmapSave: communication error (3)");
       return     (1);
     }
-    vlbltax -= grafptr->baseval;                  /* Base label array */
   }
 
   if (protnum == grafptr->proclocnum) {
@@ -189,7 +189,7 @@ FILE * restrict const           stream)
 
         vnumnum = fragptr->vnumtab[fraglocnum];
 #ifdef SCOTCH_DEBUG_DMAP2
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < grafptr->baseval) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (2)");
           return     (1);
         }
@@ -247,7 +247,7 @@ FILE * restrict const           stream)
         Gnum                vnumnum;
 
         vnumnum = fragptr->vnumtab[fraglocnum];
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < grafptr->baseval) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (3)");
           return     (1);
         }
-- 
2.43.0


From a460927a5f3b19d25b1c6f2cb413991a5eacb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 068/146] fix: do not use an unset part array when mapping both
 subdomains

---
 src/libscotch/kdgraph_map_rb_part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index d9eb9c3..9ddeee2 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -254,7 +254,8 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
 
   if ((indflagtab[0] | indflagtab[1]) == 0) {     /* If both subjobs stop    */
     fldgrafptr->procnbr = 0;                      /* Nothing to do on return */
-    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, actgrafptr->partgsttax + actgrafptr->s.baseval)); /* Map both subdomains in the same time */
+    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, /* Map both subdomains in the same time */
+                                 (actgrafptr->partgsttax != NULL) ? (actgrafptr->partgsttax + actgrafptr->s.baseval) : NULL));
   }
 
   if ((2 * actgrafptr->compglbsize0) >= actgrafptr->s.vertglbnbr) { /* Get part of largest subgraph */
-- 
2.43.0


From 770f0fd73b89462985eb2d4f3e7a7de20be4a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 069/146] fix: free MPI objects when a graph cannot be
 centralized

---
 src/libscotch/bdgraph_bipart_sq.c   | 4 +++-
 src/libscotch/vdgraph_separate_sq.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/bdgraph_bipart_sq.c b/src/libscotch/bdgraph_bipart_sq.c
index 0df2e75..1431b21 100644
--- a/src/libscotch/bdgraph_bipart_sq.c
+++ b/src/libscotch/bdgraph_bipart_sq.c
@@ -167,7 +167,9 @@ const BdgraphBipartSqParam * const  paraptr)      /*+ Method parameters +*/
   dgrfptr->s.vnumloctax = vnumloctax;             /* Restore vertex number array */
   if (o != 0) {
     errorPrint ("bdgraphBipartSq: cannot build centralized graph");
-    return     (1);
+    MPI_Op_free   (&bestoperdat);
+    MPI_Type_free (&besttypedat);
+    return        (1);
   }
 
   if (bgraphBipartSt (&cgrfdat, paraptr->strat) != 0) { /* Bipartition centralized graph */
diff --git a/src/libscotch/vdgraph_separate_sq.c b/src/libscotch/vdgraph_separate_sq.c
index 7281594..f5900db 100644
--- a/src/libscotch/vdgraph_separate_sq.c
+++ b/src/libscotch/vdgraph_separate_sq.c
@@ -159,7 +159,9 @@ const VdgraphSeparateSqParam * const  paraptr)    /*+ Method parameters +*/
   dgrfptr->s.vnumloctax = vnumloctax;             /* Restore vertex number array */
   if (o != 0) {
     errorPrint ("vdgraphSeparateSq: cannot build centralized graph");
-    return     (1);
+    MPI_Op_free   (&bestoperdat);
+    MPI_Type_free (&besttypedat);
+    return        (1);
   }
 
   if (vgraphSeparateSt (&cgrfdat, paraptr->strat) != 0) { /* Separate centralized graph */
-- 
2.43.0


From 1fa0dbf9684ae56df1e44c702be37f5d86a2a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:09 +0000
Subject: [PATCH 070/146] fix: free compact arrays when a scatter is refused

---
 src/libscotch/dgraph_scatter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_scatter.c b/src/libscotch/dgraph_scatter.c
index b9f2a24..0714b97 100644
--- a/src/libscotch/dgraph_scatter.c
+++ b/src/libscotch/dgraph_scatter.c
@@ -204,6 +204,8 @@ const Graph * restrict const  cgrfptr)            /* Centralized graph to scatte
   }
   if (reduglbtab[0] != 1) {
     errorPrint ("dgraphScatter: should have only one root");
+    if ((cgrfptr != NULL) && (cgrfptr->verttax != verttax))
+      memFree (verttax + cgrfptr->baseval);       /* Free group leader */
     return     (1);
   }
 
-- 
2.43.0


From 1f79a8d53200517521e4d79df41c2e4bce223ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 071/146] fix: write node loads and report errors in meshSave

---
 src/libscotch/mesh_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 2a916a2..d9e0145 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -353,7 +353,7 @@ FILE * restrict const       stream)
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
-    velotabtab[0] = meshptr->vnlotax;
+    velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
   else {
@@ -364,7 +364,7 @@ FILE * restrict const       stream)
     velotabtab[1] = meshptr->velotax;
     edgeadjtab[1] = meshptr->vnodbas - meshptr->baseval;
   }
-  for (i = 0; i < 2; i ++) {                      /* For both kinds of vertices */
+  for (i = 0, o = 0; (i < 2) && (o == 0); i ++) { /* For both kinds of vertices */
     Gnum                vertbas;
     Gnum                vertnnd;
     Gnum * restrict     velotax;
@@ -376,7 +376,7 @@ FILE * restrict const       stream)
     velotax = velotabtab[i];
     edgeadj = edgeadjtab[i];
 
-    for (vertnum = vertbas, o = 0; (vertnum < vertnnd) && (o == 0); vertnum ++) {
+    for (vertnum = vertbas; (vertnum < vertnnd) && (o == 0); vertnum ++) {
       Gnum                edgenum;
 
       if (meshptr->vlbltax != NULL)               /* Write vertex label if necessary */
-- 
2.43.0


From 62328aaf32004d05fcb842d3f581a7ba334f8bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 072/146] fix: keep load array in meshLoad when element loads
 are all one

---
 src/libscotch/mesh_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index d9e0145..78fec00 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -91,6 +91,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   Gnum                vlblmax;                    /* Maximum vertex label number      */
   Gnum                vlblval;                    /* Value where to read vertex label */
   Gnum                velonbr;                    /* Size of vertex load array        */
+  Gnum * restrict     velotax;                    /* Load array of all vertices       */
   Gnum                veloval;                    /* Value where to read vertex load  */
   Gnum                vlblnbr;                    /* Size of vertex label array       */
   Gnum                edloval;                    /* Value where to read edge load    */
@@ -169,6 +170,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->vendtax  = meshptr->verttax + 1;       /* Use compact vertex array */
   meshptr->velotax  = (velonbr != 0) ? (meshptr->velotax - meshptr->baseval) : NULL; /* Store based load array access in velotax */
   meshptr->vnlotax  = meshptr->velotax;
+  velotax           = meshptr->velotax;           /* Keep access to array even if one kind of loads is dropped */
   meshptr->vlbltax  = (vlblnbr != 0) ? (meshptr->vlbltax - meshptr->baseval) : NULL;
   meshptr->velosum  = meshptr->velmnbr;           /* Assume element and node vertices not weighted */
   meshptr->vnlosum  = meshptr->vnodnbr;
@@ -231,7 +233,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         }
         if (veloval > velomax)
           velomax = veloval;
-        meshptr->velotax[vertnum] = veloval;
+        velotax[vertnum] = veloval;
         velosum += veloval;
       }
       if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
-- 
2.43.0


From 47c2f37fb161db27686b1cb4ae4f2b14fed78470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 073/146] fix: adjust edge ends to wanted base in meshLoad

---
 src/libscotch/mesh_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 78fec00..e8f0535 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -207,7 +207,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
 
     vertbas = vertbastab[i];
     vertnnd = vertnndtab[i];
-    edgeadj = edgeadjtab[i];
+    edgeadj = edgeadjtab[i] + baseadj;            /* Edge ends are relative to file base */
     velosum = 0;
     velomax = 1;                                  /* Assume vertex loads all equal to 1 */
 
-- 
2.43.0


From e9d505cce15a77476f692df83ceb6973eaa88c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 074/146] fix: refuse negative arc counts in meshLoad

---
 src/libscotch/mesh_io.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index e8f0535..944ad08 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -122,6 +122,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       (intLoad (stream, &propval)          != 1) ||
       (velmnbr < 0)                              ||
       (vnodnbr < 0)                              ||
+      (meshptr->edgenbr < 0)                     ||
       (velmbas < 0)                              ||
       (vnodbas < 0)                              ||
       (propval < 0)                              ||
@@ -236,7 +237,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         velotax[vertnum] = veloval;
         velosum += veloval;
       }
-      if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
+      if ((intLoad (stream, &degrval) != 1) ||    /* Read vertex degree */
+          (degrval < 0)) {
         errorPrint ("meshLoad: bad input (5)");
         meshFree   (meshptr);
         return     (1);
@@ -245,12 +247,12 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         degrmax = degrval;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
-      degrval += edgenum;
-      if (degrval > edgennd) {                    /* Check if edge array overflows */
+      if (degrval > (edgennd - edgenum)) {        /* Check if edge array overflows */
         errorPrint ("meshLoad: invalid arc count (1)");
         meshFree   (meshptr);
         return     (1);
       }
+      degrval += edgenum;
 
       for ( ; edgenum < degrval; edgenum ++) {
         if (proptab[1] != 0) {                    /* If must read edge load        */
-- 
2.43.0


From 0d38e09df00b5fa772962f802a041b31d4ebbaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:44 +0000
Subject: [PATCH 075/146] fix: relabel elements and nodes separately in
 meshLoad

---
 src/libscotch/mesh_io.c | 73 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 944ad08..713bc62 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -66,6 +66,64 @@
 /*                                        */
 /******************************************/
 
+/* This routine replaces, in the adjacency lists of
+** vertices of one kind, the labels of the vertices
+** of the other kind by their numbers. Labels have
+** to be unique only among vertices of the same kind.
+** It returns:
+** - 0   : on success.
+** - !0  : on error.
+*/
+
+static
+int
+meshLoad3 (
+const Mesh * restrict const meshptr,              /* Mesh structure to relabel                  */
+const Gnum                  vertbas,              /* Range of vertices which bear the edge ends */
+const Gnum                  vertnnd,
+const Gnum                  vlblbas,              /* Range of vertices which bear the labels    */
+const Gnum                  vlblnnd,
+const Gnum                  vlblmax)              /* Maximum vertex label number                */
+{
+  Gnum                vertnum;
+  Gnum * restrict     indxtab;                    /* Vertex label/number index table */
+
+  if ((indxtab = (Gnum *) memAlloc (((size_t) vlblmax + 1) * sizeof (Gnum))) == NULL) {
+    errorPrint ("meshLoad3: out of memory");
+    return     (1);
+  }
+
+  memSet (indxtab, ~0, ((size_t) vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
+  for (vertnum = vlblbas; vertnum < vlblnnd; vertnum ++) {
+    if (indxtab[meshptr->vlbltax[vertnum]] != ~0) { /* If vertex label already used */
+      errorPrint ("meshLoad3: duplicate vertex label");
+      memFree    (indxtab);
+      return     (1);
+    }
+    indxtab[meshptr->vlbltax[vertnum]] = vertnum; /* Set vertex number index */
+  }
+  for (vertnum = vertbas; vertnum < vertnnd; vertnum ++) {
+    Gnum                edgenum;
+
+    for (edgenum = meshptr->verttax[vertnum]; edgenum < meshptr->vendtax[vertnum]; edgenum ++) {
+      Gnum                edgeval;
+
+      edgeval = meshptr->edgetax[edgenum];
+      if ((edgeval < 0) || (edgeval > vlblmax) || /* If invalid edge end label */
+          (indxtab[edgeval] == ~0)) {
+        errorPrint ("meshLoad3: invalid arc end number");
+        memFree    (indxtab);
+        return     (1);
+      }
+      meshptr->edgetax[edgenum] = indxtab[edgeval]; /* Replace label by number */
+    }
+  }
+
+  memFree (indxtab);
+
+  return (0);
+}
+
 /* This routine loads a source mesh from
 ** the given stream.
 ** Edge loads, whenever present, are
@@ -216,14 +274,15 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       Gnum                degrval;
 
       if (meshptr->vlbltax != NULL) {             /* If must read label */
-        if (intLoad (stream, &vlblval) != 1) {    /* Read label data    */
+        if ((intLoad (stream, &vlblval) != 1) ||  /* Read label data    */
+            (vlblval < 0)) {
           errorPrint ("meshLoad: bad input (3)");
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->vlbltax[vertnum] = vlblval + vertbas + baseadj; /* Adjust vertex label */
-        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label           */
-          vlblmax = meshptr->vlbltax[vertnum];
+        meshptr->vlbltax[vertnum] = vlblval;
+        if (vlblval > vlblmax)                    /* Get maximum vertex label */
+          vlblmax = vlblval;
       }
       if (proptab[2] != 0) {                      /* If must read vertex load */
         if ((intLoad (stream, &veloval) != 1) ||  /* Read vertex load data    */
@@ -267,7 +326,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->edgetax[edgenum] = edgeval + edgeadj;
+        meshptr->edgetax[edgenum] = (meshptr->vlbltax != NULL) ? edgeval : edgeval + edgeadj; /* If labels, edge ends are labels */
       }
     }
 
@@ -295,8 +354,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->degrmax = degrmax;
 
   if (meshptr->vlbltax != NULL) {                 /* If vertex label renaming necessary                 */
-    if (graphLoad2 (meshptr->baseval, vertnbr + meshptr->baseval, meshptr->verttax, /* Rename edge ends */
-                    meshptr->vendtax, meshptr->edgetax, vlblmax, meshptr->vlbltax) != 0) {
+    if ((meshLoad3 (meshptr, meshptr->velmbas, meshptr->velmnnd, meshptr->vnodbas, meshptr->vnodnnd, vlblmax) != 0) || /* Rename edge ends */
+        (meshLoad3 (meshptr, meshptr->vnodbas, meshptr->vnodnnd, meshptr->velmbas, meshptr->velmnnd, vlblmax) != 0)) {
       errorPrint ("meshLoad: cannot relabel vertices");
       meshFree   (meshptr);
       return     (1);
-- 
2.43.0


From 7a77148e58ffdc0e764b4c8467be7f1f77646d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:02 +0000
Subject: [PATCH 076/146] fix: count isolated elements in meshLoad

---
 src/libscotch/mesh_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 713bc62..3bf867d 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -302,6 +302,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         meshFree   (meshptr);
         return     (1);
       }
+      if ((degrval == 0) && (vertbas == meshptr->velmbas) && (vertnnd == meshptr->velmnnd)) /* Count isolated elements */
+        meshptr->veisnbr ++;
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
 
@@ -330,7 +332,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
     }
 
-    if (vertbastab[i] == meshptr->velmbas) {      /* If elements are processed        */
+    if ((vertbas == meshptr->velmbas) && (vertnnd == meshptr->velmnnd)) { /* If elements are processed */
       if (velomax == 1)                           /* If element loads not significant */
         meshptr->velotax = NULL;
       else
-- 
2.43.0


From 9c23836b52694304d707b09e7627016c197b0d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 077/146] fix: set dimension and match labels when loading
 geometry

---
 src/libscotch/graph_io_scot.c | 11 +++++++----
 src/libscotch/mesh_io_scot.c  | 13 ++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index a0f385d..4a87755 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -113,8 +113,10 @@ const char * const          dataptr)              /* No use           */
   if (grafptr->vertnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL)) {
+  if (geomptr->geomtab != NULL)                   /* Former geometry may be of another size */
+    memFree (geomptr->geomtab);
+  geomptr->dimnnbr = (int) dimnnbr;
+  if ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("graphGeomLoadScot: out of memory (1)");
     return     (1);
   }
@@ -180,9 +182,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vertsorttab, grafptr->vertnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++)
-      vertsorttab[vertnum].labl =
+    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
+      vertsorttab[vertnum].labl = vertnum + grafptr->baseval; /* Labels are vertex numbers */
       vertsorttab[vertnum].num  = vertnum;
+    }
   }
 
   for (coornum = vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) { /* For all vertices in graph */
diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index 0a42b0a..c42a00f 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -111,8 +111,10 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vnodnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL)) {
+  if (geomptr->geomtab != NULL)                   /* Former geometry may be of another size */
+    memFree (geomptr->geomtab);
+  geomptr->dimnnbr = (int) dimnnbr;
+  if ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("meshGeomLoadScot: out of memory (1)");
     return     (1);
   }
@@ -166,7 +168,7 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vlbltax != NULL) {                 /* If graph has vertex labels */
     vnodsortflag = 1;                             /* Assume graph data sorted   */
     for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
-      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->baseval];
+      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->vnodbas];
       vnodsorttab[vnodnum].num  = vnodnum;
       if ((vnodnum > 0) &&                        /* Check if graph data sorted */
           (vnodsorttab[vnodnum].labl < vnodsorttab[vnodnum - 1].labl))
@@ -176,9 +178,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vnodsorttab, meshptr->vnodnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++)
-      vnodsorttab[vnodnum].labl =
+    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
+      vnodsorttab[vnodnum].labl = vnodnum + meshptr->vnodbas; /* Labels are vertex numbers */
       vnodsorttab[vnodnum].num  = vnodnum;
+    }
   }
 
   for (coornum = vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) { /* For all vertices in graph */
-- 
2.43.0


From 436e7c2deb7c176cfad82c2232c9e945a4e289d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 078/146] fix: index labels from base and bound search in
 graphTabLoad

---
 src/libscotch/library_graph_map_io.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/library_graph_map_io.c b/src/libscotch/library_graph_map_io.c
index c982276..b3e02df 100644
--- a/src/libscotch/library_graph_map_io.c
+++ b/src/libscotch/library_graph_map_io.c
@@ -97,7 +97,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
   memSet (parttab, ~0, vertnbr * sizeof (Anum));  /* Pre-initialize the partition array */
 
   if ((fscanf (stream, GNUMSTRING, &mappfileval) != 1) || /* Read number of mapping pairs */
-      (mappfileval < 1)) {
+      (mappfileval < 0)) {
     errorPrint (STRINGIFY (SCOTCH_graphTabLoad) ": bad input (1)");
     return     (1);
   }
@@ -150,7 +150,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
     vertsortflag = 1;                             /* Assume graph data sorted */
     vertsortlabl = GNUMMIN;
     for (vertsortnum = 0; vertsortnum < vertnbr; vertsortnum ++) {
-      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum];
+      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum + grafptr->baseval];
       vertsorttab[vertsortnum].num  = vertsortnum;
 
       if (vertsorttab[vertsortnum].labl < vertsortlabl) /* Check if graph data sorted */
@@ -161,15 +161,14 @@ FILE * const                  stream)             /*+ Input stream  +*/
       intSort2asc1 (vertsorttab, vertnbr);        /* Sort sort area by ascending labels */
 
     for (vertsortnum = 0, mappfilenum = 0; vertsortnum < vertnbr; vertsortnum ++) { /* For all vertices in graph */
-      while (mappsorttab[mappfilenum].labl < vertsorttab[vertsortnum].labl) {
-        mappfilenum ++;                           /* Search mapping vertex with same label */
-        if (mappfilenum >= mappfilenbr)           /* If all mapping data processed         */
-          goto end;                               /* Exit main loop                        */
-      }
+      while ((mappfilenum < mappfilenbr) &&       /* Search mapping vertex with same label */
+             (mappsorttab[mappfilenum].labl < vertsorttab[vertsortnum].labl))
+        mappfilenum ++;
+      if (mappfilenum >= mappfilenbr)             /* If all mapping data processed */
+        break;                                    /* Exit main loop                */
       if (mappsorttab[mappfilenum].labl == vertsorttab[vertsortnum].labl) /* If label match found */
         ((Anum *) parttab)[vertsorttab[vertsortnum].num] = mappsorttab[mappfilenum ++].num;
     }
-end: ;
   }
   else {                                          /* Graph does not have vertex labels */
     const Gnum          baseval = grafptr->baseval;
-- 
2.43.0


From dafe3b657f1ea66620026588e5c7b40ba980c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 079/146] fix: free exactly what a failed architecture load has
 allocated

---
 src/libscotch/arch.c        | 5 ++++-
 src/libscotch/arch_cmpltw.c | 1 +
 src/libscotch/arch_deco2.c  | 3 +++
 src/libscotch/arch_sub.c    | 9 +++++++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/arch.c b/src/libscotch/arch.c
index 86239fe..2e3026e 100644
--- a/src/libscotch/arch.c
+++ b/src/libscotch/arch.c
@@ -208,10 +208,13 @@ FILE * const                stream)
   archptr->clasptr = clasptr;                     /* Set architecture class                                                         */
   archptr->flagval = archptr->clasptr->flagval | ARCHFREE; /* Copy architecture flag before it can be modified and set freeing flag */
 
+  memSet (&archptr->data, 0, sizeof (archptr->data)); /* Allow cleaning-up of partially loaded data */
+
   if (clasptr->archLoad != NULL) {                /* If class has loading function */
     if (clasptr->archLoad (&archptr->data, stream) != 0) { /* Load class data      */
       errorPrint ("archLoad: cannot load architecture data");
-      clasptr->archFree (&archptr->data);         /* Perform clean-up             */
+      if (archptr->clasptr->archFree != NULL)     /* TRICK: class may have changed during loading */
+        archptr->clasptr->archFree (&archptr->data); /* Perform clean-up                          */
       memSet (archptr, 0, sizeof (Arch));         /* Initialize architecture body */
       return (1);
     }
diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 71fbb18..d4efe82 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -247,6 +247,7 @@ FILE * restrict const       stream)
     if ((fscanf (stream, "%ld", &velotmp) != 1) ||
         (velotmp < 1)) {
       errorPrint ("archCmpltwArchLoad: bad input (2)");
+      memFree    (vecwtab);
       return (1);
     }
     veloval = (Anum) velotmp;
diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 3315a5f..4b804c8 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -81,6 +81,7 @@ ArchDeco2 * const           archptr)
 
   if (archptr->vnumtab != NULL)
     memFree (archptr->vnumtab);
+  archptr->vnumtab = NULL;
 
   if ((levltab = archptr->levltab) != NULL) {
     ArchDeco2Levl *     levlptr;
@@ -90,9 +91,11 @@ ArchDeco2 * const           archptr)
 
     memFree (levltab);
   }
+  archptr->levltab = NULL;
 
   if (archptr->termtab != NULL)                   /* Free group leader */
     memFree (archptr->termtab);
+  archptr->termtab = NULL;                        /* Free routine may be called again after a failed load */
 
   return (0);
 }
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 40e5ab9..a5cae55 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -112,12 +112,15 @@ FILE * restrict const       stream)
     return (1);
   }
 
+  archInit (orgarchptr);
   o = archLoad (orgarchptr, stream);
   if (o == 0)
     o = archSubArchBuild (subarchptr, orgarchptr, termnbr, termtab);
   if (o != 0) {
     archExit (orgarchptr);
     memFree  (orgarchptr);
+    subarchptr->archptr = NULL;                   /* Nothing left to free in sub-architecture */
+    subarchptr->termtab = NULL;
   }
 
   memFree (termtab);
@@ -190,12 +193,14 @@ ArchSub * const             archptr)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if ((archArch (archptr)->flagval & ARCHFREE) != 0) { /* If sub-architecture needs to be freed too */
+  if (((archArch (archptr)->flagval & ARCHFREE) != 0) && /* If sub-architecture needs to be freed too */
+      (archptr->archptr != NULL)) {               /* And load did not fail before it was set           */
     archFree (archptr->archptr);
     memFree  (archptr->archptr);
   }
 
-  memFree (archptr->termtab);                     /* Free group leader */
+  if (archptr->termtab != NULL)
+    memFree (archptr->termtab);                   /* Free group leader */
 
   return (0);
 }
-- 
2.43.0


From 110da249091ca1e905427791c7e81f33187a5239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:50 +0000
Subject: [PATCH 080/146] fix: allocate the encapsulated architecture when
 loading a dist architecture

---
 src/libscotch/arch_dist.c | 32 ++++++++++++++++++++++++++++++--
 src/libscotch/arch_dist.h |  2 +-
 src/libscotch/module.h    |  1 +
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/arch_dist.c b/src/libscotch/arch_dist.c
index 2620b6c..99f33d7 100644
--- a/src/libscotch/arch_dist.c
+++ b/src/libscotch/arch_dist.c
@@ -96,7 +96,35 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-  return (archLoad (archptr->archptr, stream));   /* Load sub-architecture */
+  if ((archptr->archptr = memAlloc (sizeof (Arch))) == NULL) {
+    errorPrint ("archDistArchLoad: out of memory");
+    return     (1);
+  }
+  archInit (archptr->archptr);
+
+  return (archLoad (archptr->archptr, stream));   /* Load sub-architecture, freed by archDistArchFree() */
+}
+
+/* This routine frees the distance graph
+** architecture. The encapsulated architecture
+** is freed only if it was loaded with it.
+** It returns:
+** - 0   : if the architecture has been successfully freed.
+** - !0  : on error.
+*/
+
+int
+archDistArchFree (
+ArchDist * const            archptr)
+{
+  if (((archArch (archptr)->flagval & ARCHFREE) != 0) &&
+      (archptr->archptr != NULL)) {
+    archExit (archptr->archptr);
+    memFree  (archptr->archptr);
+  }
+  archptr->archptr = NULL;
+
+  return (0);
 }
 
 /* This routine saves the
@@ -144,7 +172,7 @@ const Anum                  crloval)
 
   archInit (archptr);                             /* Initialize architecture body */
   archptr->clasptr = archClass ("dist");          /* Set architecture class       */
-  archptr->flagval = orgarchptr->flagval;         /* Set architecture flag        */
+  archptr->flagval = orgarchptr->flagval & ~ARCHFREE; /* Set architecture flag; original architecture is not ours to free */
   archdataptr = (ArchDist *) (void *) &archptr->data;
   archdataptr->archptr = orgarchptr;
   archdataptr->crloval = crloval;
diff --git a/src/libscotch/arch_dist.h b/src/libscotch/arch_dist.h
index eb08060..59a4602 100644
--- a/src/libscotch/arch_dist.h
+++ b/src/libscotch/arch_dist.h
@@ -78,7 +78,7 @@ typedef struct ArchDist_ {
 
 int                         archDistArchLoad    (ArchDist * restrict const, FILE * restrict const);
 int                         archDistArchSave    (const ArchDist * const, FILE * restrict const);
-#define archDistArchFree            NULL
+int                         archDistArchFree    (ArchDist * const);
 
 #define archDistMatchInit           NULL
 #define archDistMatchExit           NULL
diff --git a/src/libscotch/module.h b/src/libscotch/module.h
index dbd85de..aa1865d 100644
--- a/src/libscotch/module.h
+++ b/src/libscotch/module.h
@@ -480,6 +480,7 @@
 #define archDeco2DomBipart          SCOTCH_NAME_INTERN (archDeco2DomBipart)
 #define archDeco2DomMpiType         SCOTCH_NAME_INTERN (archDeco2DomMpiType)
 #define archDeco2MatchInit          SCOTCH_NAME_INTERN (archDeco2MatchInit)
+#define archDistArchFree            SCOTCH_NAME_INTERN (archDistArchFree)
 #define archDistArchLoad            SCOTCH_NAME_INTERN (archDistArchLoad)
 #define archDistArchSave            SCOTCH_NAME_INTERN (archDistArchSave)
 #define archDistArchBuild           SCOTCH_NAME_INTERN (archDistArchBuild)
-- 
2.43.0


From 3ff621c1a34c61dd7fc770bb1105932ec3302153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 081/146] fix: set number of domains when loading a deco-2
 architecture

---
 src/libscotch/arch_deco2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 4b804c8..3ac1836 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -150,7 +150,8 @@ FILE * restrict const       stream)
   archptr->levltab = NULL;
 
   termnbr = archptr->termnbr;
-  domnnbr = 2 * termnbr - 1;
+  domnnbr =
+  archptr->domnnbr = 2 * termnbr - 1;
   levlnbr = archptr->levlmax --;                  /* Get levlmax */
   if (memAllocGroup ((void **) (void *)
                      &archptr->termtab, (size_t) (termnbr * sizeof (ArchSubTerm)),
-- 
2.43.0


From 8ac990013258d3a695c5c5921cbf57a8c3c4683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 082/146] fix: check sizes read by tleaf and deco architecture
 loading

---
 src/libscotch/arch_deco.c  | 12 +++++++++---
 src/libscotch/arch_tleaf.c | 13 ++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index c3fa1d4..478ff56 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -159,8 +159,9 @@ const Anum * const              termdisttab)      /*+ Terminal distance map
   }
 #ifdef SCOTCH_DEBUG_ARCH1
   if (archptr->domverttab[0].size != termdomnbr) { /* If incorrect accumulation */
-    errorPrint ("archDecoArchBuild2: bad terminal count");
-    return     (1);
+    errorPrint       ("archDecoArchBuild2: bad terminal count");
+    archDecoArchFree (archptr);
+    return           (1);
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
@@ -226,6 +227,7 @@ FILE * restrict const       stream)
   ArchDecoTermVert * restrict termverttab;        /* Table of terminal vertex data                    */
   Anum * restrict             termdisttab;        /* Table of terminal-to-terminal distances          */
   INT                         i, j;
+  int                         o;
 
 #ifdef SCOTCH_DEBUG_ARCH1
   if ((sizeof (ArchDeco)    > sizeof (ArchDummy)) ||
@@ -250,6 +252,7 @@ FILE * restrict const       stream)
   if ((intLoad (stream, &termdomnbr) != 1) ||     /* Proceed with type-0 and type-1 architectures */
       (intLoad (stream, &termdommax) != 1) ||
       (termdommax < termdomnbr)            ||
+      (termdommax > 46340)                 ||     /* Size of distance map must not overflow */
       (termdomnbr < 1)) {
     errorPrint ("archDecoArchLoad: bad input (2)");
     return     (1);
@@ -294,9 +297,12 @@ FILE * restrict const       stream)
       termdisttab[i] = (Anum) termdistval;
     }
 
-    archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
+    o = archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
 
     memFree (termverttab);                        /* Free group leader */
+
+    if (o != 0)
+      return (1);
   }
   else {                                          /* If it is a compiled decomposition */
     if (memAllocGroup ((void **) (void *)
diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 39a8f3d..1de2459 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -112,7 +112,9 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &archptr->levlnbr) != 1) {
+  if ((intLoad (stream, &archptr->levlnbr) != 1) ||
+      (archptr->levlnbr < 0)                     ||
+      (archptr->levlnbr > (Anum) (sizeof (Anum) << 3))) { /* As levels have at least two sons, number of terminals would overflow */
     errorPrint ("archTleafArchLoad: bad input (1)");
     return     (1);
   }
@@ -129,7 +131,8 @@ FILE * restrict const       stream)
     if ((intLoad (stream, &archptr->sizetab[levlnum]) != 1) ||
         (intLoad (stream, &archptr->linktab[levlnum]) != 1) ||
         (archptr->sizetab[levlnum] < 2)                     ||
-        (archptr->linktab[levlnum] < 1)) {
+        (archptr->linktab[levlnum] < 1)                     ||
+        (archptr->sizetab[levlnum] > (ANUMMAX / sizeval))) { /* If number of terminals overflows */
       errorPrint ("archTleafArchLoad: bad input (2)");
       return (1);
     }
@@ -694,9 +697,9 @@ FILE * restrict const       stream)
     Anum                levlnum;
     Anum                sizeval;
 
-    for (levlnum = archptr->levlnbr - 1, sizeval = archptr->sizetab[levlnum];
-         sizeval != archptr->permnbr; levlnum --, sizeval *= archptr->sizetab[levlnum]) {
-      if (levlnum < 0) {
+    for (levlnum = archptr->levlnbr, sizeval = 1;
+         sizeval != archptr->permnbr; sizeval *= archptr->sizetab[levlnum]) {
+      if (-- levlnum < 0) {
         errorPrint ("archLtleafArchLoad: permutation size does not match level boundaries");
         return     (1);
       }
-- 
2.43.0


From 07419aa111589107d3873eafe626f25bf33979ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 083/146] fix: refuse empty dimensions when loading meshXD and
 sub architectures

---
 src/libscotch/arch_mesh.c | 1 +
 src/libscotch/arch_sub.c  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 0cc08ce..4ed100a 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -632,6 +632,7 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
+      (archptr->dimnnbr < 1)                     ||
       (archptr->dimnnbr > ARCHMESHDIMNMAX)) {
     errorPrint ("archMeshXArchLoad: bad input (1)");
     return     (1);
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index a5cae55..8f46975 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -88,7 +88,8 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &termnbr) != 1) {
+  if ((intLoad (stream, &termnbr) != 1) ||
+      (termnbr < 1)) {
     errorPrint ("archSubArchLoad: bad input (1)");
     return (1);
   }
-- 
2.43.0


From 960b1cda254454a2673cf8b4b3b99e9fc96502bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:34 +0000
Subject: [PATCH 084/146] fix: give MESHVERTGROUP a bit of its own

---
 src/libscotch/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh.h b/src/libscotch/mesh.h
index 6bbc31c..16589a3 100644
--- a/src/libscotch/mesh.h
+++ b/src/libscotch/mesh.h
@@ -63,7 +63,7 @@
 #define MESHFREEVNUM                0x0008        /* Free vnumtab array        */
 #define MESHFREEOTHR                0x0010        /* Free all other arrays     */
 #define MESHFREETABS                0x001F        /* Free all mesh arrays      */
-#define MESHVERTGROUP               0x0010        /* All vertex arrays grouped */
+#define MESHVERTGROUP               0x0020        /* All vertex arrays grouped */
 
 /*+ The Mesh flag type. +*/
 
-- 
2.43.0


From cdea302d3eca8f5f727bd36678b2c52ee6becf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:51 +0000
Subject: [PATCH 085/146] fix: accept saved hypercubes of dimension zero

---
 src/libscotch/arch_hcub.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_hcub.c b/src/libscotch/arch_hcub.c
index a0b371d..84e3ea7 100644
--- a/src/libscotch/arch_hcub.c
+++ b/src/libscotch/arch_hcub.c
@@ -102,7 +102,7 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
-      (archptr->dimnnbr < 1)                     ||
+      (archptr->dimnnbr < 0)                     ||
       (archptr->dimnnbr > (Anum) (sizeof (Anum) << 3))) { /* Should have enough bits in ArchHcubDom bitsset field */
     errorPrint ("archHcubArchLoad: bad input");
     return (1);
-- 
2.43.0


From 8d598ea0a43d4c6e4333bf38f46cb03b13b54c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:48 +0000
Subject: [PATCH 086/146] fix: check sizes and end of file in graphGeomLoadMmkt

---
 src/libscotch/graph_io_mmkt.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index 2d89f68..9439da5 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -98,7 +98,7 @@ const char * const          dataptr)              /* Fake base value  */
   Gnum                degrmax;
   char                linetab[1025];
   char *              lineptr;
-  char                c;
+  int                 c;                          /* Must be able to hold EOF */
 
   baseval = 1;                                    /* Regular MatrixMarket indices start from 1 */
 
@@ -137,7 +137,10 @@ const char * const          dataptr)              /* Fake base value  */
 
   if ((intLoad (filesrcptr, &mrownbr) != 1) ||    /* Read number of rows    */
       (intLoad (filesrcptr, &mcolnbr) != 1) ||    /* Read number of columns */
-      (intLoad (filesrcptr, &linenbr) != 1)) {    /* Read number of lines   */
+      (intLoad (filesrcptr, &linenbr) != 1) ||    /* Read number of lines   */
+      (mrownbr < 0)                         ||
+      (linenbr < 0)                         ||
+      (linenbr > (GNUMMAX / 2))) {
     errorPrint ("graphGeomLoadMmkt: bad input (3)");
     return     (1);
   }
@@ -165,7 +168,7 @@ const char * const          dataptr)              /* Fake base value  */
   grafptr->vnumtax  = NULL;
   grafptr->vlbltax  = NULL;
 
-  if ((sorttab = (GraphGeomMmktEdge *) memAlloc (2 * linenbr * sizeof (GraphGeomMmktEdge))) == NULL) { /* Twice the space for symmetric edges */
+  if ((sorttab = (GraphGeomMmktEdge *) memAlloc (2 * (size_t) linenbr * sizeof (GraphGeomMmktEdge))) == NULL) { /* Twice the space for symmetric edges */
     errorPrint ("graphGeomLoadMmkt: out of memory (2)");
     graphExit  (grafptr);
     return     (1);
@@ -224,7 +227,7 @@ const char * const          dataptr)              /* Fake base value  */
   edgetmp = edgenum - edgetmp;                    /* Compute degree and see if it is maximum degree */
   if (edgetmp > degrmax)
     degrmax = edgetmp;
-  while (vertnum < mrownbr)                       /* Fill gaps with isolated vertices and mark beginning of new one */
+  while (vertnum < (mrownbr + baseval - 1))       /* Fill gaps with isolated vertices and mark beginning of new one */
     grafptr->verttax[++ vertnum] = edgenum;
   grafptr->verttax[++ vertnum] = edgenum;         /* Mark end of array */
 
@@ -237,7 +240,12 @@ const char * const          dataptr)              /* Fake base value  */
 #endif /* SCOTCH_DEBUG_GRAPH2 */
 
   grafptr->edgenbr = edgenum - baseval;
-  grafptr->edgetax = ((Gnum *) memRealloc (edgetax + baseval, grafptr->edgenbr * sizeof (Gnum))) - baseval; /* TRICK: keep only useful space in re-used array */
+  if (grafptr->edgenbr > 0) {                     /* TRICK: keep only useful space in re-used array */
+    Gnum * restrict     edgetab;
+
+    if ((edgetab = (Gnum *) memRealloc (edgetax + baseval, grafptr->edgenbr * sizeof (Gnum))) != NULL) /* If cannot shrink array, keep it as is */
+      grafptr->edgetax = edgetab - baseval;
+  }
   grafptr->edlotax = NULL;
   grafptr->edlosum = grafptr->edgenbr;
   grafptr->degrmax = degrmax;
-- 
2.43.0


From 6e01d818d1809697e2eb9db86d4c583de3996b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:48 +0000
Subject: [PATCH 087/146] fix: check arc counts before writing in
 graphGeomLoadChac

---
 src/libscotch/graph_io_chac.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 53c97ea..05db038 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -112,7 +112,11 @@ const char * const          dataptr)              /* No use           */
       (sscanf (chalinetab, "%ld%ld%ld",
                &chavertnbr,
                &chaedgenbr,
-               &chaflagval) < 2)) {
+               &chaflagval) < 2)  ||
+      (chavertnbr < 0)            ||
+      (chaedgenbr < 0)            ||
+      (chavertnbr > (GNUMMAX - 1)) ||
+      (chaedgenbr > (GNUMMAX / 2 - 1))) {
     errorPrint ("graphGeomLoadChac: bad input (1)");
     return     (1);
   }
@@ -126,6 +130,8 @@ const char * const          dataptr)              /* No use           */
   chaflagstr[1] = '0' + ((chaflagval / 10)  % 10);
   chaflagstr[2] = '0' + ((chaflagval)       % 10);
 
+  memSet (grafptr, 0, sizeof (Graph));
+
   grafptr->flagval = GRAPHFREETABS | GRAPHVERTGROUP | GRAPHEDGEGROUP;
   grafptr->baseval = 1;                         /* Chaco graphs are based */
   grafptr->vertnbr = chavertnbr;
@@ -145,6 +151,7 @@ const char * const          dataptr)              /* No use           */
                       &grafptr->edlotax, (size_t) (edlosiz          * sizeof (Gnum)), NULL) == NULL)) {
     if (grafptr->verttax != NULL)
       memFree (grafptr->verttax);
+    memSet (grafptr, 0, sizeof (Graph));          /* Nothing left to free in graph */
     errorPrint ("graphGeomLoadChac: out of memory");
     return     (1);
   }
@@ -212,6 +219,11 @@ const char * const          dataptr)              /* No use           */
 
       ungetc (chabuffcar, filesrcptr);            /* Else put character back to stream */
 
+      if (edgenum > grafptr->edgenbr) {           /* Test edge array overflow before writing */
+        errorPrint ("graphGeomLoadChac: bad input (5)");
+        graphFree  (grafptr);
+        return     (1);
+      }
       if ((intLoad (filesrcptr, &chavertnum) != 1) ||
           (chavertnum < 1)                         ||
           (chavertnum > chavertnbr)                ||
@@ -222,11 +234,6 @@ const char * const          dataptr)              /* No use           */
         graphFree  (grafptr);
         return     (1);
       }
-      if (edgenum > (grafptr->edgenbr + 1)) { /* Test edge array overflow */
-        errorPrint ("graphGeomLoadChac: bad input (5)");
-        graphFree  (grafptr);
-        return     (1);
-      }
       grafptr->edgetax[edgenum ++] = chavertnum;
     }
 
@@ -234,6 +241,11 @@ const char * const          dataptr)              /* No use           */
       degrmax = edgenum - grafptr->verttax[vertnum];
   }
   grafptr->verttax[vertnum] = edgenum;            /* Set end of based vertex array */
+  if (edgenum != (grafptr->edgenbr + 1)) {        /* If edges are missing          */
+    errorPrint ("graphGeomLoadChac: bad input (6)");
+    graphFree  (grafptr);
+    return     (1);
+  }
   grafptr->velosum = velosum;
   grafptr->edlosum = edlosum;
   grafptr->degrmax = degrmax;
-- 
2.43.0


From c5960031c1193397ac0b3d7f83639a0889c85d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:17 +0000
Subject: [PATCH 088/146] fix: check degrees and labels in graphLoad

---
 src/libscotch/graph_io.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 57da146..a2edd3d 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -123,6 +123,7 @@ const GraphFlag             flagval)              /* Graph loading flags
       (intLoad (stream, &grafptr->edgenbr) != 1) ||
       (intLoad (stream, &baseadj)          != 1) ||
       (intLoad (stream, &propval)          != 1) ||
+      (baseadj < 0)                              ||
       (propval < 0)                              ||
       (propval > 111)) {
     errorPrint ("graphLoad: bad input (2)");
@@ -167,8 +168,8 @@ const GraphFlag             flagval)              /* Graph loading flags
                       &grafptr->edlotax, (size_t) (edlosiz                * sizeof (Gnum)), NULL) == NULL)) {
     if (grafptr->verttax != NULL)
       memFree (grafptr->verttax);
+    memSet     (grafptr, 0, sizeof (Graph));      /* Nothing left to free in graph */
     errorPrint ("graphLoad: out of memory");
-    graphFree  (grafptr);
     return (1);
   }
   grafptr->vertnnd  = grafptr->vertnbr + grafptr->baseval;
@@ -212,7 +213,8 @@ const GraphFlag             flagval)              /* Graph loading flags
         velosum                  +=
         grafptr->velotax[vertnum] = veloval;
     }
-    if (intLoad (stream, &degrval) != 1) {        /* Read vertex degree */
+    if ((intLoad (stream, &degrval) != 1) ||      /* Read vertex degree */
+        (degrval < 0)) {
       errorPrint ("graphLoad: bad input (5)");
       graphFree  (grafptr);
       return (1);
@@ -221,12 +223,12 @@ const GraphFlag             flagval)              /* Graph loading flags
       degrmax = degrval;
 
     grafptr->verttax[vertnum] = edgenum;          /* Set index in edge array */
-    degrval += edgenum;
-    if (degrval > edgennd) {                      /* Check if edge array overflows */
+    if (degrval > (edgennd - edgenum)) {          /* Check if edge array overflows */
       errorPrint ("graphLoad: invalid arc count (1)");
       graphFree  (grafptr);
       return (1);
     }
+    degrval += edgenum;
 
     for ( ; edgenum < degrval; edgenum ++) {
       if (proptab[1] != 0) {                      /* If must read edge load        */
@@ -292,13 +294,19 @@ const Gnum * const          vlbltax)
   Gnum                vertnum;                    /* Number of current vertex        */
   Gnum * restrict     indxtab;                    /* Vertex label/number index table */
 
-  if ((indxtab = (Gnum *) memAlloc ((vlblmax + 1) * sizeof (Gnum))) == NULL) {
+  if ((indxtab = (Gnum *) memAlloc (((size_t) vlblmax + 1) * sizeof (Gnum))) == NULL) {
     errorPrint  ("graphLoad2: out of memory");
     return (1);
   }
 
-  memSet (indxtab, ~0, (vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
+  memSet (indxtab, ~0, ((size_t) vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
   for (vertnum = baseval; vertnum < vertnnd; vertnum ++) {
+    if ((vlbltax[vertnum] < 0) ||                 /* If invalid vertex label */
+        (vlbltax[vertnum] > vlblmax)) {
+      errorPrint  ("graphLoad2: invalid vertex label");
+      memFree     (indxtab);
+      return (1);
+    }
     if (indxtab[vlbltax[vertnum]] != ~0) {        /* If vertex label already used */
       errorPrint  ("graphLoad2: duplicate vertex label");
       memFree     (indxtab);
@@ -310,7 +318,8 @@ const Gnum * const          vlbltax)
     Gnum                edgenum;                  /* Number of current edge */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++) {
-      if (edgetax[edgenum] > vlblmax) {           /* If invalid edge end number */
+      if ((edgetax[edgenum] < 0) ||               /* If invalid edge end number */
+          (edgetax[edgenum] > vlblmax)) {
         errorPrint ("graphLoad2: invalid arc end number (1)");
         memFree    (indxtab);
         return (1);
-- 
2.43.0


From 68a0f667cd91a8db320d61d87d1d4327d3aaec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:48 +0000
Subject: [PATCH 089/146] fix: free ghost label array when the header cannot be
 written in dgraphSave

---
 src/libscotch/dgraph_io_save.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_save.c b/src/libscotch/dgraph_io_save.c
index 78b19d5..bcb2b68 100644
--- a/src/libscotch/dgraph_io_save.c
+++ b/src/libscotch/dgraph_io_save.c
@@ -128,7 +128,9 @@ FILE * const                stream)
                (Gnum) grafptr->baseval,
                propstr) == EOF) {
     errorPrint ("dgraphSave: bad output (1)");
-    return     (1);
+    if (vlblgsttax != NULL)
+      memFree (vlblgsttax + grafptr->baseval);
+    return (1);
   }
 
   o = 0;
-- 
2.43.0


From fa400b98a9b392ae534d366dc21977a4d4c4a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:39 +0000
Subject: [PATCH 090/146] fix: save node labels in mesh ordering files

---
 src/libscotch/library_mesh_order.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index a97c99b..09850fb 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -131,6 +131,23 @@ SCOTCH_Ordering * const     ordeptr)
   orderExit (&((LibOrder *) ordeptr)->o);
 }
 
+/*+ This routine returns the label array
+*** of the nodes of the given mesh, such that
+*** the label of the first node is at index
+*** baseval, as orderings only number nodes.
+*** It returns:
+*** - !NULL  : based array of node labels.
+*** - NULL   : if the mesh has no labels.
++*/
+
+static
+const Gnum *
+meshOrderVlbl (
+const Mesh * const          meshptr)              /*+ Mesh to order +*/
+{
+  return ((meshptr->vlbltax != NULL) ? (meshptr->vlbltax + (meshptr->vnodbas - meshptr->baseval)) : NULL);
+}
+
 /*+ This routine saves the contents of
 *** the given ordering to the given stream.
 *** It returns:
@@ -144,7 +161,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
+  return (orderSave (&((LibOrder *) ordeptr)->o, meshOrderVlbl ((const Mesh *) CONTEXTOBJECT (meshptr)), stream));
 }
 
 /*+ This routine saves the mapping data
@@ -161,7 +178,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
+  return (orderSaveMap (&((LibOrder *) ordeptr)->o, meshOrderVlbl ((const Mesh *) CONTEXTOBJECT (meshptr)), stream));
 }
 
 /*+ This routine saves to the given stream
@@ -178,7 +195,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
+  return (orderSaveTree (&((LibOrder *) ordeptr)->o, meshOrderVlbl ((const Mesh *) CONTEXTOBJECT (meshptr)), stream));
 }
 
 /*+ This routine computes an ordering
-- 
2.43.0


From 30bd41ce1c9ec8cfc9139cdf88bd424c12f31979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:24 +0000
Subject: [PATCH 091/146] fix: allow meshExit after a failed mesh load

---
 src/libscotch/mesh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/mesh.c b/src/libscotch/mesh.c
index 3ca20db..b50e25e 100644
--- a/src/libscotch/mesh.c
+++ b/src/libscotch/mesh.c
@@ -135,6 +135,7 @@ Mesh * const                meshptr)
 #ifdef SCOTCH_DEBUG_MESH2
   memSet (meshptr, ~0, sizeof (Mesh));            /* Purge mesh fields */
 #endif /* SCOTCH_DEBUG_MESH2 */
+  meshptr->flagval = MESHNONE;                    /* Allow to double-call meshFree or call meshExit */
 }
 
 /* This routine sets the base of the given
-- 
2.43.0


From d669b6c95136d0a73d3ce687a8b0437f3acffed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 092/146] fix: check data in meshGeomLoadHabo

---
 src/libscotch/mesh_io_habo.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index daa7853..8116f1d 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -81,6 +81,7 @@ const char * const          dataptr)              /* No use           */
   long              habrhsnbr;                    /* Number of right hand side lines           */
   int               habcolsiz;                    /* Size of column type                       */
   int               habnzrsiz;                    /* Size of non-zero type                     */
+  Gnum              habcolold;                    /* Value of previous column                  */
   Gnum              habvixnbr;                    /* Number of element matrix variable indices */
   Gnum              habeltnbr;                    /* Number of elements                        */
   Gnum              habvarnbr;                    /* Number of variables, that is, nodes       */
@@ -91,8 +92,11 @@ const char * const          dataptr)              /* No use           */
   Gnum              degrmax;                      /* Maximum degree                            */
   int               c;
 
-  if (((habmattag = atol (dataptr)) == 0) &&      /* Get tag value */
-      (dataptr[0] != '0') && (dataptr[0] != '\0')) {
+  habmattag = 0;                                  /* Read first matrix by default */
+  if ((dataptr != NULL)                   &&      /* If tag value provided        */
+      (dataptr[0] != '\0')                &&
+      ((habmattag = atol (dataptr)) == 0) &&      /* Get tag value */
+      (dataptr[0] != '0')) {
     errorPrint ("meshGeomLoadHabo: bad input (1)");
     return     (1);
   }
@@ -161,6 +165,13 @@ const char * const          dataptr)              /* No use           */
     return     (1);
   }
 
+  if ((habeltnbr < 0) || (habvarnbr < 0) || (habvixnbr < 0) ||
+      (habeltnbr > (GNUMMAX - 2 - habvarnbr)) ||
+      (habvixnbr > ((GNUMMAX - 2) / 2))) {
+    errorPrint ("meshGeomLoadHabo: invalid sizes");
+    return (1);
+  }
+
   if (((meshptr->verttax = (Gnum *) memAlloc ((habeltnbr + habvarnbr + 1) * sizeof (Gnum))) == NULL) ||
       ((meshptr->edgetax = (Gnum *) memAlloc (habvixnbr * 2               * sizeof (Gnum))) == NULL)) {
     errorPrint ("meshGeomLoadHabo: out of memory (1)");
@@ -168,6 +179,7 @@ const char * const          dataptr)              /* No use           */
       memFree (meshptr->verttax);
       meshptr->verttax = NULL;
     }
+    meshptr->edgetax = NULL;
     return (1);
   }
 
@@ -180,11 +192,14 @@ const char * const          dataptr)              /* No use           */
   meshptr->velmnbr = habeltnbr;
   meshptr->velmbas = habvarnbr + 1;
   meshptr->velmnnd = habeltnbr + habvarnbr + 1;
+  meshptr->veisnbr = 0;
+  meshptr->velosum = habeltnbr;
   meshptr->vnodnbr = habvarnbr;
   meshptr->vnodbas = 1;
   meshptr->vnodnnd = meshptr->velmbas;
   meshptr->vnlosum = habvarnbr;
 
+  habcolold = 1;
   for (velmnum = meshptr->velmbas; velmnum <= meshptr->velmnnd; velmnum ++) { /* Read ELTPTR as second part of vertex array */
     Gnum              habcolval;                  /* Current column value                                                   */
     int               habcolidx;                  /* Current index in column value                                          */
@@ -200,12 +215,15 @@ const char * const          dataptr)              /* No use           */
       meshFree   (meshptr);
       return     (1);
     }
-#ifdef SCOTCH_DEBUG_MESH2
-    if ((habcolval < 1) || (habcolval > (habvixnbr + 1))) {
+    if ((habcolval < habcolold) || (habcolval > (habvixnbr + 1)) || /* Indices must start from one and increase */
+        ((velmnum == meshptr->velmbas) && (habcolval != 1))) {
       errorPrint ("meshGeomLoadHabo: bad input (7)");
+      meshFree   (meshptr);
       return     (1);
     }
-#endif /* SCOTCH_DEBUG_MESH2 */
+    if ((velmnum > meshptr->velmbas) && (habcolval == habcolold)) /* If previous element has no nodes */
+      meshptr->veisnbr ++;
+    habcolold = habcolval;
 
     meshptr->verttax[velmnum] = habcolval + habvixnbr;
   }
@@ -232,12 +250,11 @@ const char * const          dataptr)              /* No use           */
       meshFree   (meshptr);
       return     (1);
     }
-#ifdef SCOTCH_DEBUG_MESH2
     if ((habnodval < 1) || (habnodval > habvarnbr)) {
       errorPrint ("meshGeomLoadHabo: bad input (10)");
+      meshFree   (meshptr);
       return     (1);
     }
-#endif /* SCOTCH_DEBUG_MESH2 */
     meshptr->edgetax[edgenum] = habnodval;
     meshptr->verttax[habnodval] ++;
   }
@@ -297,6 +314,7 @@ const char * const          dataptr)              /* No use           */
 #ifdef SCOTCH_DEBUG_MESH2
   if (meshCheck (meshptr) != 0) {
     errorPrint ("meshGeomLoadHabo: inconsistent mesh data");
+    meshFree   (meshptr);
     return     (1);
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
-- 
2.43.0


From ba423ef4d59fd36c6f66f29832bc4ebf0ca0f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:11 +0000
Subject: [PATCH 093/146] fix: check data in graphGeomLoadHabo

---
 src/libscotch/graph_io_habo.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index b961f0e..ba2a149 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -184,6 +184,12 @@ const char * const          dataptr)              /* Tag value        */
     return (1);
   }
 
+  if ((habcolnbr < 0) || (habcolnbr > (GNUMMAX - 2)) ||
+      (habnzrnbr < 0) || (habnzrnbr > ((GNUMMAX - 2) / 2))) {
+    errorPrint ("graphGeomLoadHabo: invalid sizes");
+    return (1);
+  }
+
   if (((grafptr->verttax = (Gnum *) memAlloc ((habcolnbr + 1) * sizeof (Gnum))) == NULL) ||
       (memAllocGroup ((void **) (void *)
                       &grafptr->edgetax, (size_t) (habnzrnbr * 2   * sizeof (Gnum)),
@@ -194,6 +200,7 @@ const char * const          dataptr)              /* Tag value        */
       memFree (grafptr->verttax);
       grafptr->verttax = NULL;
     }
+    grafptr->edgetax = NULL;
     return (1);
   }
   grafptr->flagval = GRAPHFREETABS | GRAPHVERTGROUP | GRAPHEDGEGROUP;
@@ -219,7 +226,7 @@ const char * const          dataptr)              /* Tag value        */
     if (habvalnum ++ >= habcolfmt.datanbr) {      /* If all useful data read from line */
       habvalnum = 1;                              /* Start at beginning of new line    */
 
-      while ((c != '\n') && (c != '\r'))          /* Eat up all remaining spaces */
+      while ((c != '\n') && (c != '\r') && (c != EOF)) /* Eat up all remaining spaces */
         c = getc (filesrcptr);
       while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
@@ -237,6 +244,12 @@ const char * const          dataptr)              /* Tag value        */
       graphFree  (grafptr);
       return (1);
     }
+    if ((habcolval < 1) || (habcolval > (habnzrnbr + 1)) || /* Column indices must be increasing */
+        ((habcolnum > 0) && (habcolval < habcoltab[habcolnum - 1]))) {
+      errorPrint ("graphGeomLoadHabo: invalid column index");
+      graphFree  (grafptr);
+      return (1);
+    }
     habcoltab[habcolnum] = habcolval;
   }
   if (habcoltab[habcolnbr] != (Gnum) habnzrnbr + 1) {
@@ -257,7 +270,7 @@ const char * const          dataptr)              /* Tag value        */
       if (habvalnum ++ >= habnzrfmt.datanbr) {    /* If all useful data read from line */
         habvalnum = 1;                            /* Start at beginning of new line    */
 
-        while ((c != '\n') && (c != '\r'))        /* Eat up all remaining spaces */
+        while ((c != '\n') && (c != '\r') && (c != EOF)) /* Eat up all remaining spaces */
           c = getc (filesrcptr);
         while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
@@ -274,6 +287,11 @@ const char * const          dataptr)              /* Tag value        */
         graphFree  (grafptr);
         return (1);
       }
+      if ((habnzrval < 1) || (habnzrval > habcolnbr)) {
+        errorPrint ("graphGeomLoadHabo: invalid row index");
+        graphFree  (grafptr);
+        return (1);
+      }
       habnzrtab[habnzrnum] = habnzrval;
       if (habnzrval != vertnum) {                 /* If not loop edge      */
         grafptr->verttax[vertnum] ++;             /* Account for arc       */
@@ -404,7 +422,7 @@ const char * const                  dataptr)      /* Format string       */
     for (charptr ++; *charptr != '\0'; charptr ++) {
       if (*charptr == '\0')                       /* Error if end of string */
         return (1);
-      if (! isdigit (*charptr < '0'))
+      if (! isdigit ((int) (unsigned char) *charptr))
         break;
       number = number * 10 + *charptr - '0';
     }
-- 
2.43.0


From 212b8d4fd63540add8282a208a9c8e60e21d5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:08 +0000
Subject: [PATCH 094/146] fix: check ordering data in orderLoad

---
 src/libscotch/order_io.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/order_io.c b/src/libscotch/order_io.c
index 0a98d2c..3d75d35 100644
--- a/src/libscotch/order_io.c
+++ b/src/libscotch/order_io.c
@@ -81,6 +81,8 @@ const Gnum * restrict const vlbltax,
 FILE * restrict const       stream)
 {
   Gnum * restrict     permtab;
+  Gnum * restrict     peritab;
+  Gnum                vnodnbr;
   Gnum                vertnum;
 
   if (vlbltax != NULL) {
@@ -88,12 +90,14 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-  if ((permtab = memAlloc (ordeptr->vnodnbr * sizeof (Gnum))) == NULL) {
+  if ((permtab = memAlloc (ordeptr->vnodnbr * 2 * sizeof (Gnum))) == NULL) {
     errorPrint ("orderLoad: out of memory");
     return     (1);
   }
+  peritab = permtab + ordeptr->vnodnbr;
 
-  if (intLoad (stream, &ordeptr->vnodnbr) != 1) {
+  if ((intLoad (stream, &vnodnbr) != 1) ||
+      (vnodnbr != ordeptr->vnodnbr)) {
     errorPrint ("orderLoad: bad input (1)");
     memFree    (permtab);
     return     (1);
@@ -109,7 +113,9 @@ FILE * restrict const       stream)
         memFree    (permtab);
         return     (1);
       }
-      if (vertval != (vertnum + ordeptr->baseval)) { /* Read item data */
+      if ((vertval != (vertnum + ordeptr->baseval)) || /* Check item data */
+          (permtab[vertnum] <  ordeptr->baseval)    ||
+          (permtab[vertnum] >= (ordeptr->baseval + ordeptr->vnodnbr))) {
         errorPrint ("orderLoad: bad input (3)");
         memFree    (permtab);
         return     (1);
@@ -117,7 +123,19 @@ FILE * restrict const       stream)
     }
   }
 
-  orderPeri (permtab, ordeptr->baseval, ordeptr->vnodnbr, ordeptr->peritab, ordeptr->baseval); /* Compute inverse permutation */
+  memSet (peritab, ~0, ordeptr->vnodnbr * sizeof (Gnum)); /* Check that data are a permutation */
+  for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) {
+    Gnum                perinum;
+
+    perinum = permtab[vertnum] - ordeptr->baseval;
+    if (peritab[perinum] != ~0) {
+      errorPrint ("orderLoad: invalid permutation");
+      memFree    (permtab);
+      return     (1);
+    }
+    peritab[perinum] = vertnum + ordeptr->baseval; /* Compute inverse permutation */
+  }
+  memCpy (ordeptr->peritab, peritab, ordeptr->vnodnbr * sizeof (Gnum)); /* Only valid permutations replace existing one */
 
   memFree (permtab);
   return  (0);
-- 
2.43.0


From 6e97ef5acdc68871b69d74a907746224f6b83f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:38 +0000
Subject: [PATCH 095/146] fix: check base and sizes in graphLoad and meshLoad

---
 src/libscotch/graph_io.c | 6 ++++--
 src/libscotch/mesh_io.c  | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index a2edd3d..9bfea85 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -129,11 +129,13 @@ const GraphFlag             flagval)              /* Graph loading flags
     errorPrint ("graphLoad: bad input (2)");
     return (1);
   }
-  if (grafptr->vertnbr < 0) {
+  if ((grafptr->vertnbr < 0) ||
+      (grafptr->vertnbr > (GNUMMAX - 2 - baseadj))) {       /* Bounds of based arrays must hold */
     errorPrint ("graphLoad: invalid number of vertices");
     return (1);
   }
-  if ((grafptr->edgenbr < 0) ||
+  if ((grafptr->edgenbr < 0)                       ||
+      (grafptr->edgenbr > (GNUMMAX - 2 - baseadj)) ||
       ((grafptr->edgenbr & 1) != 0)) {
     errorPrint ("graphLoad: invalid number of edges");
     return (1);
diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 3bf867d..4670c40 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -183,6 +183,9 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       (meshptr->edgenbr < 0)                     ||
       (velmbas < 0)                              ||
       (vnodbas < 0)                              ||
+      (velmnbr > (GNUMMAX - 2 - vnodnbr))        || /* Bounds of based arrays must hold */
+      (MIN (velmbas, vnodbas) > (GNUMMAX - 2 - vnodnbr - velmnbr)) ||
+      (MIN (velmbas, vnodbas) > (GNUMMAX - 2 - meshptr->edgenbr)) ||
       (propval < 0)                              ||
       (propval > 111)                            ||
       (((velmbas + velmnbr) != vnodbas) &&
-- 
2.43.0


From 2177ce8af1975f1269083502d0b466f39a22359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:38 +0000
Subject: [PATCH 096/146] fix: check data and agree on errors in dgraphLoad

---
 src/libscotch/dgraph_build.c   |  11 ++-
 src/libscotch/dgraph_io_load.c | 153 ++++++++++++++++++++++-----------
 2 files changed, 112 insertions(+), 52 deletions(-)

diff --git a/src/libscotch/dgraph_build.c b/src/libscotch/dgraph_build.c
index 6a427d6..08df76d 100644
--- a/src/libscotch/dgraph_build.c
+++ b/src/libscotch/dgraph_build.c
@@ -210,7 +210,7 @@ const Gnum                  degrlocmax)
   grafptr->procdsptab[0] =                        /* Build vertex-to-process array */
   grafptr->procvrttab[0] = baseval;
   for (procnum = 0; procnum < grafptr->procglbnbr; procnum ++) {
-    if (grafptr->procngbtab[procnum] < 0) {       /* If error notified by another process during memory allocation */
+    if (grafptr->procngbtab[2 * procnum] < 0) {   /* If error notified by another process during memory allocation */
       memFree (grafptr->procdsptab);
       grafptr->procdsptab = NULL;                 /* Free memory that has just been allocated */
       return (1);
@@ -454,6 +454,13 @@ const Gnum                  degrlocmax)
       }
     }
 
+    for (edsolocptr = edsoloctab; edsolocptr < edsoloctnd; edsolocptr ++) {
+      if (edsolocptr->edgelocnum != -1) {         /* If label of end vertex is not known */
+        cheklocval = 1;
+        break;
+      }
+    }
+
     memFree (vesongbtab[0]);
 
 #ifdef SCOTCH_DEBUG_DGRAPH1                       /* Communication cannot be merged with a useful one */
@@ -462,7 +469,7 @@ const Gnum                  degrlocmax)
     chekglbval = cheklocval;
 #endif /* SCOTCH_DEBUG_DGRAPH1 */
     if (chekglbval != 0) {
-      errorPrint ("dgraphBuild3: duplicate vertex label (2)");
+      errorPrint ("dgraphBuild3: duplicate or unknown vertex label");
       return (1);
     }
   }
diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index c803db6..868088f 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -76,7 +76,7 @@
 */
 
 DGRAPHALLREDUCEMAXSUMOP (6, 3)
-DGRAPHALLREDUCEMAXSUMOP (10, 2)
+DGRAPHALLREDUCEMAXSUMOP (11, 2)
 
 int
 dgraphLoad (
@@ -196,6 +196,7 @@ const int                   protnum)              /* Root process number
   Gnum *              edloloctax;
   Gnum * restrict     edloredtax;
   Gnum                degrglbmax;
+  Gnum                edgeglbnbr;
   Gnum                baseadj;
   Gnum                reduglbtab[5];
   char                proptab[4];                 /* Property string array */
@@ -215,16 +216,21 @@ const int                   protnum)              /* Root process number
   }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
 
-  reduglbtab[0] = 0;                              /* Assume everything will be fine */
+  memSet (reduglbtab, 0, sizeof (reduglbtab));    /* Assume everything will be fine */
   if (stream != NULL) {
     if ((intLoad (stream, &reduglbtab[1]) != 1) || /* Read rest of header */
         (intLoad (stream, &reduglbtab[2]) != 1) ||
         (intLoad (stream, &reduglbtab[3]) != 1) ||
         (intLoad (stream, &reduglbtab[4]) != 1) ||
+        (reduglbtab[1] < 0)                     ||
+        (reduglbtab[2] < 0)                     ||
+        (reduglbtab[3] < 0)                     ||
+        (reduglbtab[3] > (GNUMMAX - 2 - reduglbtab[1])) || /* Bounds of based arrays must hold */
+        (reduglbtab[3] > (GNUMMAX - 2 - reduglbtab[2])) ||
         (reduglbtab[4] < 0)                     ||
         (reduglbtab[4] > 111)) {
       errorPrint ("dgraphLoadCent: bad input (1)");
-      cheklocval = 1;
+      reduglbtab[0] = 1;                          /* Have all processes abort */
     }
   }
 
@@ -259,7 +265,7 @@ const int                   protnum)              /* Root process number
   edgeloctax =                                    /* Send arrays not allocated yet for root process */
   edgeredtax = NULL;                              /* No read edge array yet                         */
   cheklocval = 0;
-  if ((vertlocptr = memAlloc ((vertglbmax + 2 + velolocnbr + vlbllocnbr) * sizeof (Gnum))) == NULL) { /* TRICK: "+2" for space for velolocsum */
+  if ((vertlocptr = memAlloc (((size_t) vertglbmax + 2 + velolocnbr + vlbllocnbr) * sizeof (Gnum))) == NULL) { /* TRICK: "+2" for space for velolocsum */
     errorPrint ("dgraphLoadCent: out of memory (1)");
     cheklocval = 1;
   }
@@ -281,10 +287,11 @@ const int                   protnum)              /* Root process number
       Gnum                edloredmax;
 
       edgeredmax  = reduglbtab[2] / grafptr->procglbnbr + 1;
-      edgeredmax += (edgeredmax >> 2) + 4;        /* Add 25% more space for edges than average */
+      if (edgeredmax <= (GNUMMAX / 2))
+        edgeredmax += (edgeredmax >> 2) + 4;      /* Add 25% more space for edges than average */
       edloredmax  = ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) ? edgeredmax : 0;
 
-      if ((edgeredtax = memAlloc ((edgeredmax + edloredmax) * sizeof (Gnum))) == NULL) {
+      if ((edgeredtax = memAlloc (((size_t) edgeredmax + edloredmax) * sizeof (Gnum))) == NULL) {
         errorPrint ("dgraphLoadCent: out of memory (2)");
         cheklocval = 1;
       }
@@ -317,6 +324,7 @@ const int                   protnum)              /* Root process number
   if (stream != NULL) {
     Gnum                procnum;
 
+    edgeglbnbr = reduglbtab[2];                   /* Get number of edges that remain to be read */
     for (procnum = 0; procnum < grafptr->procglbnbr; procnum ++) {
       Gnum                vertrednnd;
       Gnum                vertrednum;
@@ -350,7 +358,8 @@ const int                   protnum)              /* Root process number
             veloredsum            +=
             veloredtax[vertrednum] = veloredval;
         }
-        if (intLoad (stream, &degrredval) != 1) { /* Read vertex degree */
+        if ((intLoad (stream, &degrredval) != 1) || /* Read vertex degree */
+            (degrredval < 0)) {
           errorPrint ("dgraphLoadCent: bad input (4)");
           cheklocval = 1;
           break;
@@ -358,6 +367,13 @@ const int                   protnum)              /* Root process number
         if (degrglbmax < degrredval)              /* Set maximum degree */
           degrglbmax = degrredval;
 
+        if (degrredval > edgeglbnbr) {            /* Check if more edges than expected */
+          errorPrint ("dgraphLoadCent: invalid arc count (1)");
+          cheklocval = 1;
+          break;
+        }
+        edgeglbnbr -= degrredval;
+
         vertredtax[vertrednum] = edgerednum;      /* Set index in edge array */
         degrredval += edgerednum;
         if (degrredval > edgeredmnd) {            /* Check if edge array overflows */
@@ -411,6 +427,13 @@ const int                   protnum)              /* Root process number
       }
       vertredtax[vertrednum ++] = edgerednum;     /* Set end of edge array */
 
+      if ((cheklocval == 0)                       &&
+          (procnum == (grafptr->procglbnbr - 1)) && /* If last vertices have been read */
+          (edgeglbnbr != 0)) {                    /* Number of edges must be reached   */
+        errorPrint ("dgraphLoadCent: invalid arc count (2)");
+        cheklocval = 1;
+      }
+
       if (cheklocval == 0) {
         if (procnum != grafptr->proclocnum) {     /* If arrays have to be sent */
           MPI_Request         requtab[5];
@@ -443,8 +466,11 @@ const int                   protnum)              /* Root process number
             errorPrint ("dgraphLoadCent: communication error (8)");
             return     (1);
           }
-          if (stattab[0].MPI_TAG != TAGOK)        /* If receiver could not allocate memory for edge arrays */
+          if (stattab[0].MPI_TAG != TAGOK) {      /* If receiver could not allocate memory for edge arrays */
+            MPI_Waitall (requnbr, &requtab[0], &stattab[0]);
             cheklocval = 1;
+            procnum ++;                           /* Receiver already knows that an error occurred */
+          }
           else {
             if (MPI_Isend (edgeredtax + baseval, edgerednum - baseval, GNUM_MPI,
                            procnum, TAGEDGELOCTAB, grafptr->proccomm, &requtab[requnbr ++]) != MPI_SUCCESS) {
@@ -465,27 +491,29 @@ const int                   protnum)              /* Root process number
           velolocsum = (veloredtax != NULL) ? veloredsum : vertlocnbr; /* Save accumulated values as local data */
           edgelocnbr = edgerednum - baseval;
           if (edgeredmnd - edgerednum > 10000) {  /* If array can be compacted */
+            Gnum * restrict     edgenewtab;
+            size_t              edgenewsiz;
+
+            edgenewsiz = edgelocnbr;
             if (edloredtax != NULL) {
               memMov (edgeredtax + edgerednum, edloredtax + baseval, edgelocnbr * sizeof (Gnum));
-              edgeredtax  = memRealloc (edgeredtax + baseval, edgelocnbr * 2 * sizeof (Gnum));
-              edgeredtax -= baseval;
-              edloredtax  = edgeredtax + edgelocnbr;
-            }
-            else {
-              edgeredtax  = memRealloc (edgeredtax + baseval, edgelocnbr * sizeof (Gnum));
-              edgeredtax -= baseval;
+              edgenewsiz *= 2;
             }
+            if ((edgenewtab = memRealloc (edgeredtax + baseval, edgenewsiz * sizeof (Gnum))) != NULL) /* Keep array as is if it cannot be compacted */
+              edgeredtax = edgenewtab - baseval;
+            if (edloredtax != NULL)
+              edloredtax = edgeredtax + edgelocnbr;
           }
           edgeloctax = edgeredtax;                /* Keep read edge array as local edge array */
           edloloctax = edloredtax;
+          edgeredtax = NULL;                      /* Read edge array no longer belongs to reader */
 
           if (grafptr->proclocnum == (grafptr->procglbnbr - 1)) { /* If root process is last process */
-            vertredtax =                          /* No need to reallocate read arrays               */
-            edgeredtax = NULL;
+            vertredtax = NULL;                    /* No need to reallocate read arrays               */
             break;                                /* And we can exit now */
           }
 
-          if ((vertlocptr = memAlloc ((vertglbmax + 2 + velolocnbr + vlbllocnbr) * sizeof (Gnum))) == NULL) { /* TRICK: "+2" for space for velolocsum */
+          if ((vertlocptr = memAlloc (((size_t) vertglbmax + 2 + velolocnbr + vlbllocnbr) * sizeof (Gnum))) == NULL) { /* TRICK: "+2" for space for velolocsum */
             errorPrint ("dgraphLoadCent: out of memory (4)");
             cheklocval = 1;
           }
@@ -505,7 +533,7 @@ const int                   protnum)              /* Root process number
 
             edgeredmax = edgeredmnd - baseval;
             edloredmax = (edloloctax != NULL) ? edgeredmax : 0;
-            if ((edgeredtax = memAlloc ((edgeredmax + edloredmax) * sizeof (Gnum))) == NULL) {
+            if ((edgeredtax = memAlloc (((size_t) edgeredmax + edloredmax) * sizeof (Gnum))) == NULL) {
               errorPrint ("dgraphLoadCent: out of memory (5)");
               cheklocval = 1;
             }
@@ -532,7 +560,8 @@ const int                   protnum)              /* Root process number
     if (vertredtax != NULL) {                     /* Free reader arrays if reallocated                   */
       if (vertredtax != vertloctax)               /* If equal, vertloctax will be deallocated afterwards */
         memFree (vertredtax + baseval);
-      memFree (edgeredtax + baseval);
+      if (edgeredtax != NULL)
+        memFree (edgeredtax + baseval);
     }
   }
   else {                                          /* Process is not reader */
@@ -587,7 +616,7 @@ const int                   protnum)              /* Root process number
       edlolocnbr = ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) ? edgelocnbr : 0;
       edloloctax = NULL;                          /* Assume no edge load array */
 
-      if ((edgeloctax = memAlloc ((edgelocnbr + edlolocnbr) * sizeof (Gnum))) == NULL) {
+      if ((edgeloctax = memAlloc (((size_t) edgelocnbr + edlolocnbr) * sizeof (Gnum))) == NULL) {
         errorPrint ("dgraphLoadCent: out of memory (6)");
         MPI_Send   (&cheklocval, 0, MPI_INT, protnum, TAGBAD, grafptr->proccomm); /* Memory could not be allocated */
         cheklocval = 1;
@@ -627,9 +656,15 @@ const int                   protnum)              /* Root process number
   o = dgraphBuild2 (grafptr, baseval,             /* Build distributed graph */
                     vertlocnbr, vertlocnbr, vertloctax, vertloctax + 1, veloloctax, velolocsum, NULL, vlblloctax,
                     edgelocnbr, edgelocnbr, edgeloctax, NULL, edloloctax, degrglbmax); /* Non-readers will have degrglbmax set to 0 */
+  if (o != 0) {
+    memFree    (edgeloctax + baseval);            /* Arrays do not belong to graph yet */
+    memFree    (vertloctax + baseval);
+    dgraphFree (grafptr);
+    return     (1);
+  }
   grafptr->flagval |= DGRAPHFREETABS | DGRAPHVERTGROUP | DGRAPHEDGEGROUP;
 
-  return (o);
+  return (0);
 }
 
 /* This routine loads a distributed source
@@ -666,8 +701,8 @@ const DgraphFlag            flagval)              /* Graph loading flags
   Gnum * restrict     edloloctax;
   Gnum                degrlocmax;
   Gnum                baseadj;
-  Gnum                reduloctab[12];
-  Gnum                reduglbtab[12];
+  Gnum                reduloctab[13];
+  Gnum                reduglbtab[13];
   char                proptab[4];                 /* Property string array */
   int                 cheklocval;
   int                 chekglbval;
@@ -680,18 +715,27 @@ const DgraphFlag            flagval)              /* Graph loading flags
   }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
 
-  reduloctab[0] = 0;                              /* Assume everything will be fine */
-  o  = intLoad (stream, &reduloctab[1]);          /* Read rest of header            */
-  o += intLoad (stream, &proclocnum);
-  o += intLoad (stream, &reduloctab[3]);
-  o += intLoad (stream, &reduloctab[5]);
-  o += intLoad (stream, &reduloctab[10]);
-  o += intLoad (stream, &reduloctab[11]);
-  o += intLoad (stream, &reduloctab[7]);
-  o += intLoad (stream, &reduloctab[9]);
-  if ((o != 8)            ||
-      (reduloctab[9] < 0) ||
-      (reduloctab[9] > 111)) {
+  memSet (reduloctab, 0, sizeof (reduloctab));    /* Assume everything will be fine */
+  proclocnum = -1;
+  if ((intLoad (stream, &reduloctab[1])  != 1)     || /* Read rest of header */
+      (intLoad (stream, &proclocnum)     != 1)     ||
+      (intLoad (stream, &reduloctab[3])  != 1)     ||
+      (intLoad (stream, &reduloctab[5])  != 1)     ||
+      (intLoad (stream, &reduloctab[11]) != 1)     ||
+      (intLoad (stream, &reduloctab[12]) != 1)     ||
+      (intLoad (stream, &reduloctab[7])  != 1)     ||
+      (intLoad (stream, &reduloctab[9])  != 1)     ||
+      (reduloctab[3] < 0)                          ||
+      (reduloctab[5] < 0)                          ||
+      (reduloctab[7] < 0)                          ||
+      (reduloctab[7] > (GNUMMAX - 2 - reduloctab[3])) || /* Bounds of based arrays must hold */
+      (reduloctab[7] > (GNUMMAX - 2 - reduloctab[5])) ||
+      (reduloctab[9] < 0)                          ||
+      (reduloctab[9] > 111)                        ||
+      (reduloctab[11] < 0)                         ||
+      (reduloctab[11] > reduloctab[3])             ||
+      (reduloctab[12] < 0)                         ||
+      (reduloctab[12] > reduloctab[5])) {
     errorPrint ("dgraphLoadDist: bad input (1)");
     reduloctab[0] = 2;                            /* Immediate abort has maximum value so as to be propagated by MAX reduce */
   }
@@ -699,6 +743,7 @@ const DgraphFlag            flagval)              /* Graph loading flags
   reduloctab[4]  = - reduloctab[3];
   reduloctab[6]  = - reduloctab[5];
   reduloctab[8]  = - reduloctab[7];
+  reduloctab[10] = - reduloctab[9];
   if ((int) proclocnum != grafptr->proclocnum)    /* If fragment is not read by proper process */
     reduloctab[0] |= 1;
   if ((int) reduloctab[1] != grafptr->procglbnbr) {
@@ -706,7 +751,7 @@ const DgraphFlag            flagval)              /* Graph loading flags
     reduloctab[0] = 2;
   }
 
-  if (dgraphAllreduceMaxSum (reduloctab, reduglbtab, 10, 2, grafptr->proccomm) != 0) {
+  if (dgraphAllreduceMaxSum (reduloctab, reduglbtab, 11, 2, grafptr->proccomm) != 0) {
     errorPrint ("dgraphLoadDist: communication error (1)");
     reduglbtab[0] = 2;
   }
@@ -716,7 +761,8 @@ const DgraphFlag            flagval)              /* Graph loading flags
   if ((reduglbtab[2] != - reduglbtab[1]) ||
       (reduglbtab[4] != - reduglbtab[3]) ||
       (reduglbtab[6] != - reduglbtab[5]) ||
-      (reduglbtab[8] != - reduglbtab[7])) {
+      (reduglbtab[8] != - reduglbtab[7]) ||
+      (reduglbtab[10] != - reduglbtab[9])) {
     errorPrint ("dgraphLoadDist: inconsistent distributed graph headers");
     return     (1);
   }
@@ -725,11 +771,11 @@ const DgraphFlag            flagval)              /* Graph loading flags
   if (reduglbtab[0] != 0)                         /* If cannot go on anyway */
     return (1);
 
-  if ((reduglbtab[10] != reduloctab[3]) ||
-      (reduglbtab[11] != reduloctab[5]))
+  if ((reduglbtab[11] != reduloctab[3]) ||
+      (reduglbtab[12] != reduloctab[5]))
     errorPrint ("dgraphLoadDist: bad input (2)");
-  if ((reduglbtab[10] != reduglbtab[3]) ||
-      (reduglbtab[11] != reduglbtab[5]))
+  if ((reduglbtab[11] != reduglbtab[3]) ||
+      (reduglbtab[12] != reduglbtab[5]))
     return (1);
 
   if (baseval == -1) {                            /* If keep file graph base     */
@@ -739,8 +785,8 @@ const DgraphFlag            flagval)              /* Graph loading flags
   else                                            /* If set graph base  */
     baseadj = baseval - reduglbtab[7];            /* Update base adjust */
 
-  vertlocnbr = reduloctab[10];
-  edgelocnbr = reduloctab[11];
+  vertlocnbr = reduloctab[11];
+  edgelocnbr = reduloctab[12];
 
   sprintf (proptab, "%3.3d", (int) reduglbtab[9]); /* Compute file properties */
   proptab[0] -= '0';                              /* Vertex labels flag       */
@@ -754,7 +800,7 @@ const DgraphFlag            flagval)              /* Graph loading flags
   vertloctax =
   edgeloctax = NULL;
   cheklocval = 0;
-  if ((vertlocptr = memAlloc ((vertlocnbr + 1 + velolocnbr + vlbllocnbr) * sizeof (Gnum))) == NULL) {
+  if ((vertlocptr = memAlloc (((size_t) vertlocnbr + 1 + velolocnbr + vlbllocnbr) * sizeof (Gnum))) == NULL) {
     errorPrint ("dgraphLoadDist: out of memory (1)");
     cheklocval = 1;
   }
@@ -774,7 +820,7 @@ const DgraphFlag            flagval)              /* Graph loading flags
     }
 
     edlolocnbr = ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) ? edgelocnbr : 0;
-    if ((edgeloctax = memAlloc ((edgelocnbr + edlolocnbr) * sizeof (Gnum))) == NULL) {
+    if ((edgeloctax = memAlloc (((size_t) edgelocnbr + edlolocnbr) * sizeof (Gnum))) == NULL) {
       errorPrint ("dgraphLoadDist: out of memory (2)");
       cheklocval = 1;
     }
@@ -824,7 +870,8 @@ const DgraphFlag            flagval)              /* Graph loading flags
         velolocsum            +=
         veloloctax[vertlocnum] = velolocval;
     }
-    if (intLoad (stream, &degrlocval) != 1) {     /* Read vertex degree */
+    if ((intLoad (stream, &degrlocval) != 1) ||   /* Read vertex degree */
+        (degrlocval < 0)) {
       errorPrint ("dgraphLoadDist: bad input (4)");
       cheklocval = 1;
       break;
@@ -833,12 +880,12 @@ const DgraphFlag            flagval)              /* Graph loading flags
       degrlocmax = degrlocval;
 
     vertloctax[vertlocnum] = edgelocnum;          /* Set index in edge array */
-    degrlocval += edgelocnum;
-    if (degrlocval > edgelocnnd) {                /* Check if edge array overflows */
+    if (degrlocval > (edgelocnnd - edgelocnum)) { /* Check if edge array overflows */
       errorPrint ("dgraphLoadDist: invalid arc count (1)");
       cheklocval = 1;
       break;
     }
+    degrlocval += edgelocnum;
 
     for ( ; edgelocnum < degrlocval; edgelocnum ++) {
       Gnum                edgelocval;         /* Value where to read edge end */
@@ -883,9 +930,15 @@ const DgraphFlag            flagval)              /* Graph loading flags
   o = dgraphBuild2 (grafptr, baseval,             /* Build distributed graph */
                     vertlocnbr, vertlocnbr, vertloctax, vertloctax + 1, veloloctax, velolocsum, NULL, vlblloctax,
                     edgelocnbr, edgelocnbr, edgeloctax, NULL, edloloctax, degrlocmax);
+  if (o != 0) {
+    memFree    (edgeloctax + baseval);            /* Arrays do not belong to graph yet */
+    memFree    (vertloctax + baseval);
+    dgraphFree (grafptr);
+    return     (1);
+  }
   grafptr->flagval |= DGRAPHFREETABS | DGRAPHVERTGROUP | DGRAPHEDGEGROUP;
 
-  return (o);
+  return (0);
 }
 
 /* This routine loads a distributed source
-- 
2.43.0


From 07384cd856769f15c2d13f7b5efd322600d75a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:38 +0000
Subject: [PATCH 097/146] fix: check end vertices, indices and loads of all
 edges in dgraphCheck

---
 src/libscotch/dgraph_check.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index 600bc32..40f7385 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -104,6 +104,7 @@ const Dgraph * restrict const grafptr)
   Gnum * restrict     vendngbtab[2];              /* Array of two neighbor end vertex arrays      */
   Gnum * restrict     vendngbptr;                 /* Pointer to working neighbor end vertex array */
   Gnum                edgelocnbr;                 /* Local number of edges                        */
+  Gnum                edgefndnbr;                 /* Number of local edges with valid end vertex  */
   int                 edgengbnbr[2];              /* Size of the neighbor vertex arrays           */
   Gnum * restrict     edgengbtab[2];              /* Array of two neighbor edge arrays            */
   Gnum * restrict     edgengbptr;                 /* Pointer to working neighbor edge array       */
@@ -292,7 +293,8 @@ const Dgraph * restrict const grafptr)
   for (vertlocnum = grafptr->baseval, edgelocnbr = 0; vertlocnum < grafptr->vertlocnnd; vertlocnum ++) {
     Gnum                edgelocnum;
 
-    if ((vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
+    if ((vertloctax[vertlocnum] < grafptr->baseval)       ||
+        (vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
         (vendloctax[vertlocnum] > (grafptr->edgelocsiz + grafptr->baseval))) {
       errorPrint ("dgraphCheck: inconsistent local vertex arrays");
       edgelocnbr = grafptr->edgelocnbr;           /* Avoid unwanted cascaded error messages */
@@ -311,9 +313,13 @@ const Dgraph * restrict const grafptr)
           cheklocval = 1;
           break;
         }
+      }
+    }
 
-        if ((edloloctax != NULL) &&
-            (edloloctax[edgelocnum] <= 0)) {
+    if ((edloloctax != NULL) &&
+        (vertlocnum < grafptr->vertlocnnd)) {
+      for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+        if (edloloctax[edgelocnum] <= 0) {
           errorPrint ("dgraphCheck: invalid edge load");
           edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
           vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
@@ -406,6 +412,7 @@ const Dgraph * restrict const grafptr)
   edlongbptr = edloloctax;
   vertngbnbr[0] = grafptr->vertlocnbr;            /* Set number of local vertices and edges to send      */
   edgengbnbr[0] = grafptr->edgelocsiz;            /* Send all of edge array is case graph is not compact */
+  edgefndnbr    = 0;                              /* No end vertex found yet                             */
   for (procnum = 0; procnum < procglbnbr; procnum ++) { /* For all processes including self              */
     Gnum                procngbnum;
     Gnum                vertlocnum;
@@ -413,7 +420,7 @@ const Dgraph * restrict const grafptr)
 
     procngbnum = (proclocnum + procnum) % procglbnbr; /* Compute neighbor process number */
     vertngbmin = grafptr->procvrttab[procngbnum]; /* Get neighbor vertex number range    */
-    vertngbmax = grafptr->procvrttab[procngbnum + 1];
+    vertngbmax = vertngbmin + grafptr->proccnttab[procngbnum]; /* Only consider existing vertices */
 
 #ifdef SCOTCH_DEBUG_DGRAPH2
     if ((vertngbnbr[procngbsel] != grafptr->proccnttab[procngbnum]) ||
@@ -457,6 +464,7 @@ const Dgraph * restrict const grafptr)
           Gnum                edgengbnnd;
           Gnum                edgengbsum;
 
+          edgefndnbr ++;                          /* One more edge with existing end vertex */
           for (edgengbnum = vertngbptr[vertglbend - vertngbmin],
                edgengbnnd = vendngbptr[vertglbend - vertngbmin], edgengbsum = 0;
                edgengbnum < edgengbnnd; edgengbnum ++) {
@@ -474,6 +482,10 @@ const Dgraph * restrict const grafptr)
         }
       }
     }
+    if ((procnum == (procglbnbr - 1)) &&          /* If all end vertices have been searched for */
+        (edgefndnbr != edgelocnbr)    &&
+        (cheklocval == 0))
+      cheklocval = 1;
     MPI_Allreduce (&cheklocval, &chekglbval, 1, MPI_INT, MPI_MAX, proccomm);
 
     if (chekglbval != 0) {                        /* Error number ranges from 1 to 3 */
-- 
2.43.0


From a5d0fc915118ba3aa7d4fa94b401b3238f678f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:03 +0000
Subject: [PATCH 098/146] fix: check all vertex indices before using them in
 graphCheck and meshCheck

---
 src/libscotch/graph_check.c | 20 +++++++++++++-------
 src/libscotch/mesh_check.c  | 23 ++++++++++++-----------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/libscotch/graph_check.c b/src/libscotch/graph_check.c
index e631391..93ec92e 100644
--- a/src/libscotch/graph_check.c
+++ b/src/libscotch/graph_check.c
@@ -115,9 +115,7 @@ const Graph * const         grafptr)
 
   degrmax =
   edgenbr = 0;
-  velosum = (velotax == NULL) ? grafptr->vertnbr : 0;
-  edlosum = (edlotax == NULL) ? grafptr->edgenbr : 0;
-  for (vertnum = baseval; vertnum < grafptr->vertnnd; vertnum ++) {
+  for (vertnum = baseval; vertnum < grafptr->vertnnd; vertnum ++) { /* Check all indices before using any of them */
     Gnum                degrval;
 
     if ((verttax[vertnum] < baseval) ||
@@ -129,8 +127,20 @@ const Graph * const         grafptr)
     degrval = vendtax[vertnum] - verttax[vertnum];
     if (degrval > degrmax)
       degrmax = degrval;
+    if (degrval > (grafptr->edgenbr - edgenbr)) {
+      errorPrint ("graphCheck: invalid number of edges");
+      return (1);
+    }
     edgenbr += degrval;
+  }
+  if (grafptr->edgenbr != edgenbr) {
+    errorPrint ("graphCheck: invalid number of edges");
+    return (1);
+  }
 
+  velosum = (velotax == NULL) ? grafptr->vertnbr : 0;
+  edlosum = (edlotax == NULL) ? grafptr->edgenbr : 0;
+  for (vertnum = baseval; vertnum < grafptr->vertnnd; vertnum ++) {
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++) {
       Gnum                vertend;                /* Number of end vertex      */
       Gnum                edgeend;                /* Number of end vertex edge */
@@ -186,10 +196,6 @@ const Graph * const         grafptr)
       velosum = velotmp;
     }
   }
-  if (grafptr->edgenbr != edgenbr) {
-    errorPrint ("graphCheck: invalid number of edges");
-    return (1);
-  }
   if (grafptr->velosum != velosum) {
     errorPrint ("graphCheck: invalid vertex load sum");
     return (1);
diff --git a/src/libscotch/mesh_check.c b/src/libscotch/mesh_check.c
index a781dce..c56a4ce 100644
--- a/src/libscotch/mesh_check.c
+++ b/src/libscotch/mesh_check.c
@@ -75,6 +75,7 @@ const Mesh * const          meshptr)
 {
   Gnum                vertnnd;                    /* Maximum vertex index                */
   Gnum                vertnum;                    /* Number of current vertex            */
+  Gnum                edgenbr;                    /* Number of edges (arcs)              */
   Gnum                veisnbr;                    /* Number of isolated element vertices */
   Gnum                velosum;                    /* Vertex element load sum             */
   Gnum                vnlosum;                    /* Vertex node load sum                */
@@ -91,18 +92,23 @@ const Mesh * const          meshptr)
   }
 
   vertnnd = meshptr->velmnbr + meshptr->vnodnbr + meshptr->baseval;
+
+  for (vertnum = meshptr->baseval, edgenbr = 0; vertnum < vertnnd; vertnum ++) { /* Check all indices before using any of them */
+    if ((meshptr->verttax[vertnum] < meshptr->baseval)          ||
+        (meshptr->vendtax[vertnum] < meshptr->verttax[vertnum]) ||
+        ((meshptr->vendtax[vertnum] - meshptr->verttax[vertnum]) > (meshptr->edgenbr - edgenbr))) {
+      errorPrint ("meshCheck: invalid vertex arrays");
+      return     (1);
+    }
+    edgenbr += meshptr->vendtax[vertnum] - meshptr->verttax[vertnum];
+  }
+
   degrmax = 0;
   veisnbr = 0;
   for (vertnum = meshptr->velmbas; vertnum < meshptr->velmnnd; vertnum ++) { /* For all element vertices */
     Gnum                degrval;
     Gnum                edgenum;
 
-    if ((meshptr->verttax[vertnum] < meshptr->baseval)          ||
-        (meshptr->vendtax[vertnum] < meshptr->verttax[vertnum])) {
-      errorPrint ("meshCheck: invalid vertex arrays (1)");
-      return     (1);
-    }
-
     degrval = meshptr->vendtax[vertnum] - meshptr->verttax[vertnum];
     if (degrval > degrmax)
       degrmax = degrval;
@@ -149,11 +155,6 @@ const Mesh * const          meshptr)
   for (vertnum = meshptr->vnodbas; vertnum < meshptr->vnodnnd; vertnum ++) { /* For all node vertices */
     Gnum                edgenum;
 
-    if ((meshptr->verttax[vertnum] < meshptr->baseval)          ||
-        (meshptr->vendtax[vertnum] < meshptr->verttax[vertnum])) {
-      errorPrint ("meshCheck: invalid vertex arrays (2)");
-      return     (1);
-    }
     if ((meshptr->vendtax[vertnum] - meshptr->verttax[vertnum]) > degrmax)
       degrmax = meshptr->vendtax[vertnum] - meshptr->verttax[vertnum];
 
-- 
2.43.0


From ca6f1515c62d1ae4dd3de00eb901c64ea7ea1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:47 +0000
Subject: [PATCH 099/146] fix: handle missing sizes, weights and isolated nodes
 in METIS_PartMeshDual

---
 src/libscotchmetis/metis_graph_part_dual.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part_dual.c b/src/libscotchmetis/metis_graph_part_dual.c
index 037dc40..0cbfe7a 100644
--- a/src/libscotchmetis/metis_graph_part_dual.c
+++ b/src/libscotchmetis/metis_graph_part_dual.c
@@ -202,7 +202,7 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
     edlotab = NULL;
 
   SCOTCH_graphInit  (&graftmp);
-  SCOTCH_graphBuild (&graftmp, baseval, vertnbr, verttab, vendtab, vwgt, NULL, edgenbr, edgetab, edlotab);
+  SCOTCH_graphBuild (&graftmp, baseval, vertnbr, verttab, vendtab, (vwgt != ne) ? vwgt : NULL, NULL, edgenbr, edgetab, edlotab);
   SCOTCH_stratInit  (&stradat);
 
   if (SCOTCH_graphMap (&graftmp, &archdat, &stradat, epart) == 0) {
@@ -215,7 +215,8 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
 
     if (((vsize != NULL) && (vsize != ne)) ||     /* If computation of communication volume wanted */
         ((options != NULL) && (options != ne) && (options[METIS_OPTION_OBJTYPE] == METIS_OBJTYPE_VOL)))
-      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval, vsize - baseval, *nparts, epart - baseval, objval);
+      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval,
+                                   ((vsize != NULL) && (vsize != ne)) ? (vsize - baseval) : NULL, *nparts, epart - baseval, objval);
     else
       o = _SCOTCH_METIS_OutputCut (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval,
                                    (edlotab != NULL) ? (edlotab - baseval) : NULL, epart - baseval, objval);
@@ -242,7 +243,7 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
     SCOTCH_Num          edgenum;
 
     edgenum = verttab[vnodnum + (vnodbas - baseval)];
-    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : 0; /* If non-isolated node, get part of first neighbor element, else 0 */
+    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : baseval; /* If non-isolated node, get part of first neighbor element, else first part */
   }
 
   SCOTCH_meshExit (&meshdat);
-- 
2.43.0


From 0c8d1bdaa631aedea6bdbf811c9f1a578a2ef2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:09 +0000
Subject: [PATCH 100/146] fix: accept null imbalance array in
 METIS_V5_PartGraphRecursive

---
 src/libscotchmetis/metis_graph_part.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index 3559d5a..c800bfa 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -583,16 +583,18 @@ SCOTCH_Num * const          objval,
 SCOTCH_Num * const          part)
 {
   SCOTCH_Num          baseval;
+  double              kbalval;
 
+  kbalval = 0.01;
   baseval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_NUMBERING] : 0;
 
   return ((vsize == NULL)
           ? _SCOTCH_METIS_PartGraph (nvtxs, ncon, xadj, adjncy, vwgt, adjwgt,
                                      &baseval, nparts, tpwgts, options, objval, part,
-                                     SCOTCH_STRATRECURSIVE, ubvec)
+                                     SCOTCH_STRATRECURSIVE, (ubvec != NULL) ? ubvec : &kbalval)
           : _SCOTCH_METIS_PartGraph_Volume (nvtxs, ncon, xadj, adjncy, vwgt, vsize,
                                             &baseval, nparts, tpwgts, options, objval, part,
-                                            SCOTCH_STRATRECURSIVE, ubvec));
+                                            SCOTCH_STRATRECURSIVE, (ubvec != NULL) ? ubvec : &kbalval));
 }
 
 /*******************/
-- 
2.43.0


From 118118005c4c5c0bdd1386c24b98623526f8eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:09 +0000
Subject: [PATCH 101/146] fix: report errors of METIS_MeshToDual

---
 src/libscotchmetis/metis_graph_dual.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_dual.c b/src/libscotchmetis/metis_graph_dual.c
index decc768..77bc33f 100644
--- a/src/libscotchmetis/metis_graph_dual.c
+++ b/src/libscotchmetis/metis_graph_dual.c
@@ -102,7 +102,7 @@ const SCOTCH_Num * const    edgetab)              /*+ Array of elements
     }
     for ( ; edgenum < edgennd; edgenum ++) {
       if ((edgetax[edgenum] <  baseval) ||
-          (edgetax[edgenum] > (baseval + vnodnbr))) {
+          (edgetax[edgenum] >= (baseval + vnodnbr))) {
         SCOTCH_errorPrint ("_SCOTCH_METIS_MeshToDual2: invalid input indices (2)");
         return            (METIS_ERROR_INPUT);
       }
@@ -193,7 +193,8 @@ const SCOTCH_Num * const    edgetab)              /*+ Array of elements
       srcedgetax[srcverttax[edgetax[edgenum] + velmnbr] ++] = vertnum;
   }
 
-  memMov (srcverttax + velmnnd + 1, srcverttax + velmnnd, (vnodnbr - 1) * sizeof (Gnum));  /* Re-build node part of vertex array */
+  if (vnodnbr > 0)                                /* Re-build node part of vertex array */
+    memMov (srcverttax + velmnnd + 1, srcverttax + velmnnd, (vnodnbr - 1) * sizeof (Gnum));
   srcverttax[velmnnd] = verttax[velmnnd];
 
   return (METIS_OK);
@@ -238,7 +239,7 @@ SCOTCH_Num ** const         adjncy)
   SCOTCH_meshExit (&meshdat);                     /* Mesh structure is no longer needed */
   if (o != 0) {
     SCOTCH_errorPrint ("METIS_MeshToDual: cannot create graph from mesh");
-    return (o);
+    return (METIS_ERROR);
   }
 
   SCOTCH_graphData (&grafdat, &baseval, &vertnbr, &verttab, &vendtab, NULL, NULL, &edgenbr, &edgetab, NULL);
@@ -246,8 +247,10 @@ SCOTCH_Num ** const         adjncy)
   if (((*xadj   = malloc ((vertnbr + 1) * sizeof (SCOTCH_Num))) == NULL) || /* Do not use libScotch memory allocation as freed by user */
       ((*adjncy = malloc (edgenbr       * sizeof(SCOTCH_Num)))  == NULL)) {
     SCOTCH_errorPrint ("METIS_MeshToDual: out of memory");
-    if (*xadj != NULL)
+    if (*xadj != NULL) {
       free (*xadj);
+      *xadj = NULL;
+    }
     SCOTCH_graphExit (&grafdat);
     return           (METIS_ERROR_MEMORY);
   }
-- 
2.43.0


From f3e2934abe6bce8cee63ae05d0d1d61e62f97c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:09 +0000
Subject: [PATCH 102/146] fix: status of ParMETIS_V3_NodeND tells whether graph
 was ordered

---
 src/libscotchmetis/parmetis_dgraph_order.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_order.c b/src/libscotchmetis/parmetis_dgraph_order.c
index 731d06c..eb93e1c 100644
--- a/src/libscotchmetis/parmetis_dgraph_order.c
+++ b/src/libscotchmetis/parmetis_dgraph_order.c
@@ -147,14 +147,15 @@ MPI_Comm *                  commptr)
         SCOTCH_Num          bitsnbr;
         SCOTCH_Num          proctmp;
 
-        SCOTCH_dgraphOrderCompute (&grafdat, &ordedat, &stradat);
-        SCOTCH_dgraphOrderPerm    (&grafdat, &ordedat, order);
+        if ((SCOTCH_dgraphOrderCompute (&grafdat, &ordedat, &stradat) == 0) &&
+            (SCOTCH_dgraphOrderPerm    (&grafdat, &ordedat, order)    == 0))
+          o = METIS_OK;                           /* Ordering is valid, whatever is known of its separator tree */
 
         for (levlmax = -1, bitsnbr = 0, proctmp = procglbnbr; /* Count number of bits set to 1 in procglbnbr */
              proctmp != 0; levlmax ++, proctmp >>= 1)
           bitsnbr += proctmp & 1;
 
-        if (bitsnbr == 1) {
+        if ((o == METIS_OK) && (bitsnbr == 1)) {
           SCOTCH_Num          cblkglbnbr;
 
           if ((cblkglbnbr = SCOTCH_dgraphOrderCblkDist (&grafdat, &ordedat)) >= 0) {
@@ -206,7 +207,6 @@ MPI_Comm *                  commptr)
                 if ((rootnum >= 0) && (sizes != NULL)) { /* If no error above, go on processing separator tree         */
                   memSet (sizes, 0, (2 * procglbnbr - 1) * sizeof (SCOTCH_Num)); /* Set array of sizes to 0 by default */
                   _SCOTCH_ParMETIS_V3_NodeNDTree (sizes + (2 * procglbnbr - 1), sizeglbtab, sepaglbtab, levlmax, 0, rootnum, 1);
-                  o = METIS_OK;
                 }
               }
 
-- 
2.43.0


From 1d14bf6bea805aab94a42f308ed2c0ad38093fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 103/146] fix: status and part weights of ParMETIS_V3_PartKway

---
 src/libscotchmetis/parmetis_dgraph_part.c | 34 +++++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_part.c b/src/libscotchmetis/parmetis_dgraph_part.c
index c30a5c6..69fb83a 100644
--- a/src/libscotchmetis/parmetis_dgraph_part.c
+++ b/src/libscotchmetis/parmetis_dgraph_part.c
@@ -73,6 +73,7 @@
 */
 
 #define EPSILON 1e-6F
+#define WEIGHTMAX 1e6F
 
 static
 void
@@ -87,7 +88,7 @@ SCOTCH_Num * const          intetab)
   SCOTCH_Num          i;
 
   flotold = -1.0F;                                /* No previous value yet */
-  for (i = 0, flotadj = 1.0; i < valunbr; i ++) {
+  for (i = 0, flotadj = 1.0; (i < valunbr) && (flotadj <= WEIGHTMAX); i ++) {
     float               flotval;
     float               flottmp;
 
@@ -100,10 +101,20 @@ SCOTCH_Num * const          intetab)
     flottmp  = flotval - floorf (flotval + EPSILON); /* Determine its possible fractional part */
     if (fabs (flottmp) >= EPSILON) {              /* If a residual fractional part exists      */
       flottmp = flotadj / flottmp;                /* Incorporate it in renormalization factor  */
-      flotadj = (flotadj * flottmp) / (float) intGcd ((SCOTCH_Num) round (flotadj), (SCOTCH_Num) round (flottmp));
+      flotadj = (fabs (flottmp) <= WEIGHTMAX)     /* Value is too large to be of use if it is above bound */
+                ? (flotadj * flottmp) / (float) intGcd ((SCOTCH_Num) round (flotadj), (SCOTCH_Num) round (flottmp))
+                : 2.0F * WEIGHTMAX;
     }
   }
 
+  if (flotadj > WEIGHTMAX) {                      /* If values do not have a common ratio of reasonable size */
+    float               flotsum;
+
+    for (i = 0, flotsum = 0.0F; i < valunbr; i ++)
+      flotsum += flottab[i];
+    flotadj = WEIGHTMAX / flotsum;                /* Keep proportions only up to the precision of integers */
+  }
+
   flotold = -1.0F;                                /* No previous value yet */
   inteold = 0;
   for (i = 0; i < valunbr; i ++) {
@@ -113,6 +124,8 @@ SCOTCH_Num * const          intetab)
     if (flotval != flotold) {                     /* If not same value  */
       flotold = flotval;                          /* Remember old value */
       inteold = (SCOTCH_Num) round (flotval * flotadj);
+      if ((inteold == 0) && (flotval > 0.0F))     /* Non-null weights must not vanish */
+        inteold = 1;
     }
     intetab[i] = inteold;
   }
@@ -149,6 +162,7 @@ MPI_Comm *                  commptr)
   SCOTCH_Num          edgelocnbr;
   SCOTCH_Num *        edloloctab;
   SCOTCH_Num *        twintab;                    /* Integer array of target weights                               */
+  int                 o;
 
   if ((twintab = malloc (*nparts * sizeof (SCOTCH_Num))) == NULL)
     return (METIS_ERROR_MEMORY);
@@ -169,6 +183,7 @@ MPI_Comm *                  commptr)
   edloloctab = ((adjwgt != NULL) && ((*wgtflag & 1) != 0)) ? adjwgt : NULL;
 
   *edgecut = 0;
+  o = METIS_ERROR;                                /* Assume something will go wrong */
 
   if (SCOTCH_dgraphBuild (&grafdat, baseval,
                           vertlocnbr, vertlocnbr, xadj, xadj + 1, veloloctab, NULL,
@@ -184,11 +199,12 @@ MPI_Comm *                  commptr)
           (SCOTCH_dgraphMapInit (&grafdat, &mappdat, &archdat, part) == 0)) {
         SCOTCH_Num          cdsttab[256];         /* Communication load histogram */
 
-        SCOTCH_dgraphMapCompute (&grafdat, &mappdat, &stradat);
-
-        SCOTCH_dgraphMapStat (&grafdat, &mappdat, NULL, NULL, NULL, NULL, NULL, NULL,
-                              NULL, NULL, NULL, NULL, cdsttab, NULL, NULL, NULL);
-        *edgecut = cdsttab[1];                    /* For mapping onto complete graphs, distance 1 is the cut */
+        if ((SCOTCH_dgraphMapCompute (&grafdat, &mappdat, &stradat) == 0) &&
+            (SCOTCH_dgraphMapStat (&grafdat, &mappdat, NULL, NULL, NULL, NULL, NULL, NULL,
+                                   NULL, NULL, NULL, NULL, cdsttab, NULL, NULL, NULL) == 0)) {
+          *edgecut = cdsttab[1];                  /* For mapping onto complete graphs, distance 1 is the cut */
+          o = METIS_OK;
+        }
 
         SCOTCH_dgraphMapExit (&grafdat, &mappdat);
       }
@@ -200,14 +216,14 @@ MPI_Comm *                  commptr)
 
   free (twintab);
 
-  if (baseval != 0) {                             /* MeTiS part array is based, Scotch is not */
+  if ((o == METIS_OK) && (baseval != 0)) {        /* MeTiS part array is based, Scotch is not */
     SCOTCH_Num          vertlocnum;
 
     for (vertlocnum = 0; vertlocnum < vertlocnbr; vertlocnum ++)
       part[vertlocnum] += baseval;
   }
 
-  return (METIS_OK);
+  return (o);
 }
 
 /*
-- 
2.43.0


From 76faa7c330577283d6ca033ea254f22ab4db3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 104/146] fix: part weights without small common ratio in MeTiS
 interface

---
 src/libscotchmetis/metis_graph_part.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index c800bfa..efa8c66 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -203,6 +203,7 @@ SCOTCH_Num * const          cvolptr)
 */
 
 #define EPSILON 1e-6
+#define WEIGHTMAX 1e6
 
 void
 _SCOTCH_METIS_doubleToInt (
@@ -213,7 +214,7 @@ SCOTCH_Num * const          intetab)
   double              doubadj;
   SCOTCH_Num          i;
 
-  for (i = 0, doubadj = 1.0; i < valunbr; i ++) {
+  for (i = 0, doubadj = 1.0; (i < valunbr) && (doubadj <= WEIGHTMAX); i ++) {
     double              doubval;
     double              doubtmp;
 
@@ -222,11 +223,23 @@ SCOTCH_Num * const          intetab)
     doubtmp  = doubval - floor (doubval + EPSILON); /* Determine its possible fractional part */
     if (fabs (doubtmp) >= EPSILON) {            /* If a residual fractional part exists       */
       doubtmp = doubadj / doubtmp;              /* Incorporate it in renormalization factor   */
-      doubadj = (doubadj * doubtmp) / (double) intGcd ((int) round (doubadj), (int) round (doubtmp));
+      doubadj = (fabs (doubtmp) <= WEIGHTMAX)   /* Value is too large to be of use if it is above bound */
+                ? (doubadj * doubtmp) / (double) intGcd ((int) round (doubadj), (int) round (doubtmp))
+                : 2.0 * WEIGHTMAX;
     }
   }
-  for (i = 0; i < valunbr; i ++)
+  if (doubadj > WEIGHTMAX) {                    /* If values do not have a common ratio of reasonable size */
+    double              doubsum;
+
+    for (i = 0, doubsum = 0.0; i < valunbr; i ++)
+      doubsum += doubtab[i];
+    doubadj = WEIGHTMAX / doubsum;              /* Keep proportions only up to the precision of integers */
+  }
+  for (i = 0; i < valunbr; i ++) {
     intetab[i] = (SCOTCH_Num) round (doubtab[i] * doubadj);
+    if ((intetab[i] == 0) && (doubtab[i] > 0.0)) /* Non-null weights must not vanish */
+      intetab[i] = 1;
+  }
 }
 
 /* This routine is the interface between MeTiS
-- 
2.43.0


From 635aa5f3fb08eed5ceffbc97ecab650d615858a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:12 +0000
Subject: [PATCH 105/146] fix: context option dispatch on the option instead of
 its value

---
 src/libscotch/library_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_context.c b/src/libscotch/library_context.c
index 09b6c79..9939c61 100644
--- a/src/libscotch/library_context.c
+++ b/src/libscotch/library_context.c
@@ -303,7 +303,7 @@ const SCOTCH_Num            optival)
   optitmp = optival;                              /* Set working value */
   o = 0;                                          /* Assume no error   */
 
-  switch (optival) {
+  switch (optinum) {
     case CONTEXTOPTIONNUMRANDOMFIXEDSEED :
       if (optitmp != 0)
         optitmp = 1;                              /* Only two values available */
-- 
2.43.0


From 3a08c18cd68c9603e56cab006c7ba4430f918c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 106/146] fix: edge load statistics of distributed graphs

---
 src/libscotch/library_dgraph_stat.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/library_dgraph_stat.c b/src/libscotch/library_dgraph_stat.c
index 26f7551..466d907 100644
--- a/src/libscotch/library_dgraph_stat.c
+++ b/src/libscotch/library_dgraph_stat.c
@@ -246,7 +246,7 @@ double *                    edlodltptr)
         errorPrint (STRINGIFY (SCOTCH_dgraphStat) ": communication error (1)");
         return (1);
       }
-      edloglbavg = (double) edloglbsum / (double) (2 * srcgrafptr->edgeglbnbr);
+      edloglbavg = (double) edloglbsum / (double) srcgrafptr->edgeglbnbr;
 
       for (vertlocnum = srcgrafptr->baseval; vertlocnum < srcgrafptr->vertlocnnd; vertlocnum ++) {
         Gnum                edgelocnum;
@@ -255,6 +255,9 @@ double *                    edlodltptr)
              edgelocnum < srcgrafptr->vendloctax[vertlocnum]; edgelocnum ++)
           edlolocdlt += fabs ((double) srcgrafptr->edloloctax[edgelocnum] - edloglbavg);
       }
+
+      srclstadat.edlomin = edlolocmin;
+      srclstadat.edlomax = edlolocmax;
     }
     else {
       srclstadat.edlomin =
@@ -269,6 +272,7 @@ double *                    edlodltptr)
     edloglbsum         = 0;
     edloglbavg         = 0.0L;
   }
+  srclstadat.edlosum = 0;                         /* Sum has already been computed */
   srclstadat.edlodlt = edlolocdlt;
 
 #if ((defined MPI_VERSION) && (MPI_VERSION >= 3))
@@ -310,7 +314,7 @@ double *                    edlodltptr)
   if (veloavgptr != NULL)
     *veloavgptr = (double) veloglbavg;
   if (velodltptr != NULL)
-    *velodltptr = srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr;
+    *velodltptr = (srcgrafptr->vertglbnbr > 0) ? srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr : 0.0L;
 
   if (degrminptr != NULL)
     *degrminptr = (SCOTCH_Num) srcgstadat.degrmin;
@@ -319,7 +323,7 @@ double *                    edlodltptr)
   if (degravgptr != NULL)
     *degravgptr = (double) degrglbavg;
   if (degrdltptr != NULL)
-    *degrdltptr = srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr;
+    *degrdltptr = (srcgrafptr->vertglbnbr > 0) ? srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr : 0.0L;
 
   if (edlominptr != NULL)
     *edlominptr = (SCOTCH_Num) srcgstadat.edlomin;
@@ -330,7 +334,7 @@ double *                    edlodltptr)
   if (edloavgptr != NULL)
     *edloavgptr = (double) edloglbavg;
   if (edlodltptr != NULL)
-    *edlodltptr = srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr;
+    *edlodltptr = (srcgrafptr->edgeglbnbr > 0) ? srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr : 0.0L;
 
   return (0);
 }
-- 
2.43.0


From 1931c7c60a099bc0c396b84cb1500cd61fc2d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 107/146] fix: write errors ignored by distributed mapping view

---
 src/libscotch/library_dgraph_map_view.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libscotch/library_dgraph_map_view.c b/src/libscotch/library_dgraph_map_view.c
index 3c1ed7d..f60c082 100644
--- a/src/libscotch/library_dgraph_map_view.c
+++ b/src/libscotch/library_dgraph_map_view.c
@@ -152,5 +152,10 @@ FILE * const                  stream)
              (Anum) cdstnum,
              (double) cdsttab[cdstnum] / (double) cmlosum);
 
+  if (ferror (stream) != 0) {
+    errorPrint (STRINGIFY (SCOTCH_dgraphMapView) ": bad output");
+    return (1);
+  }
+
   return (0);
 }
-- 
2.43.0


From be7ca08c215d5bd29f868dfe909bd2bd62bd3ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 108/146] fix: mapping views changed the mapping and misused
 renumbered parts

---
 src/libscotch/library_graph_map_view.c | 58 +++++++++++++++++---------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 2d42a6a..0bedd99 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -126,11 +126,11 @@ const Anum                  partval)              /*+ Part value +*/
   for (passnum = 1, rootnum = grafptr->baseval; ; passnum ++) { /* For all connected components */
     Gnum                diamnum;                  /* Vertex which achieves diameter             */
 
-    while ((rootnum < grafptr->vertnbr) &&
+    while ((rootnum < grafptr->vertnnd) &&
            ((vexxtax[rootnum].passnum != 0) ||    /* Find first unallocated vertex */
             (parttax[rootnum] != partval)))
       rootnum ++;
-    if (rootnum >= grafptr->vertnbr)              /* Exit if all of graph processed */
+    if (rootnum >= grafptr->vertnnd)              /* Exit if all of graph processed */
       break;
 
     diambase = ++ diamdist;                       /* Start from previous distance */
@@ -200,8 +200,9 @@ FILE * const                  stream)             /*+ Output stream
 {
   const Arch * restrict     archptr;
   LibMapping * restrict     lmaoptr;
-  Anum * restrict           parttax;              /* Part array                                   */
-  Anum * restrict           parotax;              /* Old part array                               */
+  const Anum * restrict     parttax;              /* Part array                                   */
+  const Anum * restrict     parotax;              /* Old part array                               */
+  Anum * restrict           pcpttax;              /* Compact part array; ~0 for unmapped vertices */
   MappingSort * restrict    domntab;              /* Pointer to domain sort array                 */
   ArchDom                   domnfrst;             /* Largest domain in architecture               */
   ArchDom                   domnorg;              /* Vertex domain                                */
@@ -268,7 +269,7 @@ FILE * const                  stream)             /*+ Output stream
 
   if (libmapoptr != NULL) {
     lmaoptr = (LibMapping *) libmapoptr;
-    parotax = lmaoptr->parttab;
+    parotax = lmaoptr->parttab - grafptr->baseval;
   }
   else {
     lmaoptr = NULL;
@@ -287,24 +288,30 @@ FILE * const                  stream)             /*+ Output stream
   }
 #endif /* SCOTCH_DEBUG_LIBRARY1 */
   archptr = lmapptr->archptr;
-  parttax = lmapptr->parttab;
+  parttax = lmapptr->parttab - grafptr->baseval;
 
   if (memAllocGroup ((void **) (void *)
                      &domntab, (size_t) ((grafptr->vertnbr + 1) * sizeof (MappingSort)),
-                     &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)), NULL) == NULL) {
+                     &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)),
+                     &pcpttax, (size_t) (grafptr->vertnbr       * sizeof (Anum)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphMapView) ": out of memory");
     return (1);
   }
 
-  for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
-    domntab[vertnum].labl = parttax[vertnum];     /* Un-based array at this stage    */
-    domntab[vertnum].peri = vertnum + grafptr->baseval; /* Build inverse permutation */
+  memSet (pcpttax, ~0, grafptr->vertnbr * sizeof (Anum)); /* Assume all vertices unmapped */
+  pcpttax -= grafptr->baseval;
+
+  for (vertnum = grafptr->baseval, vertidx = 0; vertnum < grafptr->vertnnd; vertnum ++) {
+    if (parttax[vertnum] == ~0)                   /* Skip unmapped vertices */
+      continue;
+    domntab[vertidx].labl = parttax[vertnum];
+    domntab[vertidx].peri = vertnum;              /* Build inverse permutation */
+    vertidx ++;
   }
-  parttax -= grafptr->baseval;
-  domntab[grafptr->vertnbr].labl = ARCHDOMNOTTERM; /* TRICK: avoid testing (i+1)   */
-  domntab[grafptr->vertnbr].peri = ~0;            /* Prevent Valgrind from yelling */
+  domntab[vertidx].labl = ARCHDOMNOTTERM;         /* TRICK: avoid testing (i+1)    */
+  domntab[vertidx].peri = ~0;                     /* Prevent Valgrind from yelling */
 
-  intSort2asc2 (domntab, grafptr->vertnbr);       /* Sort domain label array by increasing target labels */
+  intSort2asc2 (domntab, vertidx);                /* Sort domain label array by increasing target labels */
 
   archDomFrst (archptr, &domnfrst);               /* Get architecture domain */
   tgtnbr = archDomSize (archptr, &domnfrst);      /* Get architecture size   */
@@ -313,7 +320,7 @@ FILE * const                  stream)             /*+ Output stream
   mapsum  = 0;
   veloval = 1;                                    /* Assume unweighted vertices */
   for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
-    parttax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
+    pcpttax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
     if (domntab[vertidx].labl != domntab[vertidx + 1].labl) /* TRICK: if new (or end) domain label */
       mapnbr ++;
     if (velotax != NULL)
@@ -387,20 +394,21 @@ FILE * const                  stream)             /*+ Output stream
       Gnum                edgennd;
       Anum                partnum;
 
-      partnum = parttax[domntab[vertidx].peri];
+      partnum = pcpttax[domntab[vertidx].peri];
       for (edgenum = verttax[domntab[vertidx].peri],
            edgennd = vendtax[domntab[vertidx].peri];
            edgenum < edgennd; edgenum ++) {
         Anum                partend;
 
-        partend = parttax[edgetax[edgenum]];
+        partend = pcpttax[edgetax[edgenum]];
         if ((partend != partnum) &&               /* If edge is not internal                                      */
+            (partend != ~0) &&                    /* And end vertex is mapped                                     */
             (partend != nghbtab[nghbnbr])) {      /* And neighbor is not sole neighbor or has not just been found */
           Anum                partmin;
           Anum                partmax;
 
           partmin = 0;
-          partmax = nghbnbr;
+          partmax = nghbnbr + 1;
           while ((partmax - partmin) > 1) {
             Anum                partmed;
 
@@ -484,7 +492,7 @@ FILE * const                  stream)             /*+ Output stream
         continue;
       if (parotax[vertnum] != parttax[vertnum]) {
         migrnbr ++;
-        archDomTerm (archptr, &domnorg, parotax[vertnum]); /* Get terminal domains */
+        archDomTerm (archptr, &domnorg, parttax[vertnum]); /* Get terminal domains */
         archDomTerm (archptr, &domnold, parotax[vertnum]);
         migrdistavg += archDomDist (archptr, &domnorg, &domnold);
         migrloadavg += (grafptr->velotax == NULL) ? 1 : grafptr->velotax[vertnum];
@@ -535,7 +543,7 @@ FILE * const                  stream)             /*+ Output stream
     do {
       Gnum                diamval;
 
-      diamval  = graphMapView3 (grafptr, parttax, mapnum);
+      diamval  = graphMapView3 (grafptr, pcpttax, mapnum);
       diamsum += diamval;
       if (diamval < diammin)
         diammin = diamval;
@@ -600,6 +608,11 @@ FILE * const                  stream)             /*+ Output stream
 
   memFree (domntab);                              /* Free group leader */
 
+  if (ferror (stream) != 0) {
+    errorPrint (STRINGIFY (SCOTCH_graphMapView) ": bad output");
+    return (1);
+  }
+
   return (0);
 }
 
@@ -792,5 +805,10 @@ FILE * const                        stream)
 
   memFree (compload);
 
+  if (ferror (stream) != 0) {
+    errorPrint (STRINGIFY (SCOTCH_graphPartOvlView) ": bad output");
+    return (1);
+  }
+
   return (0);
 }
-- 
2.43.0


From 8182d809d04ff21c588c3802e61daff552e736bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:10 +0000
Subject: [PATCH 109/146] fix: write errors on output files of programs ignored

---
 src/libscotch/common_file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/common_file.c b/src/libscotch/common_file.c
index eeb55e6..da067d8 100644
--- a/src/libscotch/common_file.c
+++ b/src/libscotch/common_file.c
@@ -293,7 +293,12 @@ const int                   filenbr)
     if ((filetab[i].fileptr != NULL) &&           /* If stream exists     */
         (filetab[i].nameptr != NULL) &&           /* And it has a name    */
         (filetab[i].nameptr[0] != '-')) {         /* Which is not default */
-      fclose (filetab[i].fileptr);                /* Close the stream     */
+      int                 o;
+
+      o  = ferror (filetab[i].fileptr);           /* Data may have been lost before */
+      o |= fclose (filetab[i].fileptr);           /* Close the stream     */
+      if ((o != 0) && ((filetab[i].flagval & FILEMODE) != FILEMODER))
+        errorPrint ("fileBlockClose: cannot write file (%d)", i);
       if (filetab[i].flagval & FILEFREENAME)
         memFree (filetab[i].nameptr);
     }
-- 
2.43.0


From a723e4769448b747b9d81f5592bd68fb377e0fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 110/146] fix: write errors ignored by gscat

---
 src/scotch/gscat.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scotch/gscat.c b/src/scotch/gscat.c
index 29a6873..36b8909 100644
--- a/src/scotch/gscat.c
+++ b/src/scotch/gscat.c
@@ -195,6 +195,7 @@ const SCOTCH_Num            vertlocmin)           /* Number of vertices for all
     SCOTCH_Num          vertlocnbr;
     SCOTCH_Num          vertlocnum;
     SCOTCH_Num          edgelocnbr;
+    int                 o;
 
     ostream = NULL;
     naexptr = fileNameDistExpand (nameptr, procnbr, procnum);
@@ -293,7 +294,7 @@ const SCOTCH_Num            vertlocmin)           /* Number of vertices for all
       putc ('\n', ostream);
     }
 
-    rewind (ostream);
+    fseek (ostream, 0, SEEK_SET);                 /* Unlike "rewind", does not clear the error flag */
 
     if (fprintf (ostream, "2\n" SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING "\n" SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING "\n" SCOTCH_NUMSTRING "\t%015lld\n" SCOTCH_NUMSTRING "\t%3s\n", /* Write file header */
                  (SCOTCH_Num) procnbr,
@@ -308,7 +309,12 @@ const SCOTCH_Num            vertlocmin)           /* Number of vertices for all
       return (1);
     }
 
-    fclose (ostream);
+    o  = ferror (ostream);                        /* Data may have been lost before */
+    o |= fclose (ostream);
+    if (o != 0) {
+      errorPrint ("C_graphScat: bad output (3)");
+      return (1);
+    }
   }
 
   return (0);
-- 
2.43.0


From a38a66a6db312b657cd07e2915c8e2d7c8943ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 111/146] fix: option -s ignored by dgmap and dgpart

---
 src/scotch/dgmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/dgmap.c b/src/scotch/dgmap.c
index 2c339f0..a99eb0e 100644
--- a/src/scotch/dgmap.c
+++ b/src/scotch/dgmap.c
@@ -363,7 +363,7 @@ char *                      argv[])
   clockStart (&runtime[0]);
 
   SCOTCH_dgraphInit (&grafdat, MPI_COMM_WORLD);   /* Initialize distributed source graph */
-  SCOTCH_dgraphLoad (&grafdat, C_filepntrsrcinp, -1, 0);
+  SCOTCH_dgraphLoad (&grafdat, C_filepntrsrcinp, -1, grafflag);
 
   SCOTCH_archInit (&archdat);                     /* Create architecture structure             */
   if ((flagval & C_FLAGPART) != 0) {              /* If program run as the partitioner         */
-- 
2.43.0


From 20e7aed7da4d1ee97710d81d406c03f68e0e48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 112/146] fix: strategy string ignored by dgmap and dgpart

---
 src/scotch/dgmap.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/scotch/dgmap.c b/src/scotch/dgmap.c
index a99eb0e..6ee9b76 100644
--- a/src/scotch/dgmap.c
+++ b/src/scotch/dgmap.c
@@ -387,10 +387,12 @@ char *                      argv[])
   if (((straval != 0) || ((flagval & C_FLAGKBALVAL) != 0)) && (straptr != NULL))
     errorPrint ("main: options '-b' / '-c' and '-m' are exclusive");
 
-  if ((flagval & C_FLAGCLUSTER) != 0)             /* If clustering wanted */
-    SCOTCH_stratDgraphClusterBuild (&stradat, straval, (SCOTCH_Num) procglbnbr, (SCOTCH_Num) C_partNbr, 1.0, kbalval);
-  else
-    SCOTCH_stratDgraphMapBuild (&stradat, straval, (SCOTCH_Num) procglbnbr, (SCOTCH_Num) C_partNbr, kbalval);
+  if (straptr == NULL) {                          /* If no strategy string provided */
+    if ((flagval & C_FLAGCLUSTER) != 0)           /* If clustering wanted           */
+      SCOTCH_stratDgraphClusterBuild (&stradat, straval, (SCOTCH_Num) procglbnbr, (SCOTCH_Num) C_partNbr, 1.0, kbalval);
+    else
+      SCOTCH_stratDgraphMapBuild (&stradat, straval, (SCOTCH_Num) procglbnbr, (SCOTCH_Num) C_partNbr, kbalval);
+  }
 
   SCOTCH_contextBindDgraph (&contdat, &grafdat, &cogrdat);
 
-- 
2.43.0


From 81802529192d639f0c5dd14fee880b7381194f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 113/146] fix: distance deviation computed by atst

---
 src/scotch/atst.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scotch/atst.c b/src/scotch/atst.c
index 32caa0e..61a753f 100644
--- a/src/scotch/atst.c
+++ b/src/scotch/atst.c
@@ -180,10 +180,7 @@ char *                      argv[])
   distdlt = 0.0L;
 
   for (ter0num = 0; ter0num < termnbr; ter0num ++) { /* For all pairs of terminal domains */
-    for (ter1num = 0; ter1num < termnbr; ter1num ++) {
-      if (ter1num == ter0num)
-	continue;
-
+    for (ter1num = ter0num + 1; ter1num < termnbr; ter1num ++) {
       distdlt += fabs ((double) SCOTCH_archDomDist (&archdat, &termtab[ter0num], &termtab[ter1num]) - distavg);
     }
   }
-- 
2.43.0


From 5dc9a0af124853c61fc6f56423807e8fe5cadcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 114/146] fix: minimum distance computed by atst

---
 src/scotch/atst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/atst.c b/src/scotch/atst.c
index 61a753f..813bac6 100644
--- a/src/scotch/atst.c
+++ b/src/scotch/atst.c
@@ -158,7 +158,7 @@ char *                      argv[])
       (termnum != termnbr))
     errorPrint ("main: cannot enumerate terminal domains");
 
-  distmin = (SCOTCH_Num) (((unsigned long) ((SCOTCH_Num) -1)) >> 1); /* Set to maximum number in Anum */
+  distmin = SCOTCH_NUMMAX;                        /* Set to maximum number in Anum */
   distmax = 0;
   distsum = 0;
 
-- 
2.43.0


From ac94c3b4a0e98f7d85f8cec5daafee2830e5b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 115/146] fix: vertex list of amk_grf with labels and a base

---
 src/scotch/amk_grf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/amk_grf.c b/src/scotch/amk_grf.c
index f4cf2a2..25f15c8 100644
--- a/src/scotch/amk_grf.c
+++ b/src/scotch/amk_grf.c
@@ -215,7 +215,7 @@ char *                      argv[])
             (sorttab[vertnum].vlblnum > listtab[listnum]))
           errorPrint ("main: list label '" SCOTCH_NUMSTRING "' not in graph", (SCOTCH_Num) listtab[listnum]);
 
-        listtab[listnum] = sorttab[vertnum ++].vertnum; /* Replace label by number */
+        listtab[listnum] = sorttab[vertnum ++].vertnum + baseval; /* Replace label by number */
       }
       memFree (sorttab);                          /* Free sort area */
     }
-- 
2.43.0


From 2cdc9c8731e63b2dd83a29f259459c7ff664bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 116/146] fix: edge count of small finite-element tori

---
 src/scotch/gmk_m2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/gmk_m2.c b/src/scotch/gmk_m2.c
index c088341..52fbd05 100644
--- a/src/scotch/gmk_m2.c
+++ b/src/scotch/gmk_m2.c
@@ -196,7 +196,7 @@ char *                      argv[])
 
   if ((flagval & C_FLAGTORUS) != 0) {             /* Build a torus           */
     edgenbr = ((flagval & C_FLAGELEM) != 0)       /* Compute number of edges */
-              ? (8 * (d[0] * d[1]) - ((d[0] < 3) ? (6 * d[1]) : 0) - ((d[1] < 3) ? (6 * d[0]) : 0))
+              ? ((MIN (d[0], 3) * MIN (d[1], 3) - 1) * (d[0] * d[1]))
               : (4 * (d[0] * d[1]) - ((d[0] < 3) ? (2 * d[1]) : 0) - ((d[1] < 3) ? (2 * d[0]) : 0));
 
     fprintf (C_filepntrsrcout, "0\n" SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING "\n" SCOTCH_NUMSTRING "\t000\n",
-- 
2.43.0


From ba88877ff9a80181f74f3875c1b83ac7a17bccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 117/146] fix: cluster load ignored by gmap and gpart

---
 src/scotch/gmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scotch/gmap.c b/src/scotch/gmap.c
index edbd5e3..b56242b 100644
--- a/src/scotch/gmap.c
+++ b/src/scotch/gmap.c
@@ -402,7 +402,8 @@ char *                      argv[])
       (((flagval & C_FLAGRMAPRAT) != 0) || ((flagval & C_FLAGRMAPCST) != 0)))
         errorPrint ("main: an old mapping file must be provided ('-ro' flag) when '-rr' or '-rv' flags are set");
 
-  if ((straval != 0) || ((flagval & C_FLAGKBALVAL) != 0)) {
+  if ((straval != 0) || ((flagval & C_FLAGKBALVAL) != 0) ||
+      (((flagval & C_FLAGCLUSTER) != 0) && (straptr == NULL))) { /* Clustering strategy depends on cluster load */
     if (straptr != NULL)
       errorPrint ("main: options '-b' / '-c' and '-m' are exclusive");
 
-- 
2.43.0


From 298ba595c992f9e6572deecc8c63ec2c52ff54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 118/146] fix: option -t of mord not implemented

---
 src/scotch/mord.c | 9 +++++++++
 src/scotch/mord.h | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scotch/mord.c b/src/scotch/mord.c
index 2f621dc..c29ce87 100644
--- a/src/scotch/mord.c
+++ b/src/scotch/mord.c
@@ -71,6 +71,7 @@ static File                 C_fileTab[C_FILENBR] = { /* File array
                               { FILEMODER },
                               { FILEMODEW },
                               { FILEMODEW },
+                              { FILEMODEW },
                               { FILEMODEW } };
 
 static const char *         C_usageList[] = {
@@ -179,6 +180,12 @@ char *                      argv[])
           if ((SCOTCH_stratMeshOrder (&stradat, straptr)) != 0)
             errorPrint ("main: invalid ordering strategy");
           break;
+        case 'T' :                                /* Output separator tree */
+        case 't' :
+          flagval |= C_FLAGTREOUT;
+          if (argv[i][2] != '\0')
+            C_filenametreout = &argv[i][2];
+          break;
         case 'V' :
           fprintf (stderr, "mord, version " SCOTCH_VERSION_STRING "\n");
           fprintf (stderr, SCOTCH_COPYRIGHT_STRING "\n");
@@ -243,6 +250,8 @@ char *                      argv[])
   SCOTCH_meshOrderSave (&meshdat, &ordedat, C_filepntrordout); /* Write ordering     */
   if (flagval & C_FLAGMAPOUT)                     /* If mapping wanted               */
     SCOTCH_meshOrderSaveMap (&meshdat, &ordedat, C_filepntrmapout); /* Write mapping */
+  if (flagval & C_FLAGTREOUT)                     /* If separator tree wanted        */
+    SCOTCH_meshOrderSaveTree (&meshdat, &ordedat, C_filepntrtreout); /* Write tree   */
 
   clockStop  (&runtime[0]);                       /* Get output time */
 
diff --git a/src/scotch/mord.h b/src/scotch/mord.h
index 0449b4c..a2c8a57 100644
--- a/src/scotch/mord.h
+++ b/src/scotch/mord.h
@@ -52,18 +52,20 @@
 
 /*+ File name aliases. +*/
 
-#define C_FILENBR                   4             /* Number of files in list                */
+#define C_FILENBR                   5             /* Number of files in list                */
 #define C_FILEARGNBR                3             /* Number of files which can be arguments */
 
 #define C_filenamesrcinp            fileBlockName (C_fileTab, 0) /* Source graph input file name */
 #define C_filenameordout            fileBlockName (C_fileTab, 1) /* Ordering output file name    */
 #define C_filenamelogout            fileBlockName (C_fileTab, 2) /* Log file name                */
 #define C_filenamemapout            fileBlockName (C_fileTab, 3) /* Separator mapping file name  */
+#define C_filenametreout            fileBlockName (C_fileTab, 4) /* Separator tree file name     */
 
 #define C_filepntrsrcinp            fileBlockFile (C_fileTab, 0) /* Source graph input file */
 #define C_filepntrordout            fileBlockFile (C_fileTab, 1) /* Ordering output file    */
 #define C_filepntrlogout            fileBlockFile (C_fileTab, 2) /* Log file                */
 #define C_filepntrmapout            fileBlockFile (C_fileTab, 3) /* Separator mapping file  */
+#define C_filepntrtreout            fileBlockFile (C_fileTab, 4) /* Separator tree file     */
 
 /*+ Process flags. +*/
 
@@ -71,3 +73,4 @@
 #define C_FLAGMAPOUT                0x0001        /* Output mapping data       */
 #define C_FLAGVERBSTR               0x0002        /* Output strategy string    */
 #define C_FLAGVERBTIM               0x0004        /* Output timing information */
+#define C_FLAGTREOUT                0x0008        /* Output separator tree data */
-- 
2.43.0


From 77effaefeb57cddf9de3828659c97b185a1ae8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 119/146] fix: load sum of dual graphs of meshes with weighted
 elements

---
 src/libscotch/mesh_graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index f63d602..c3e30fd 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -264,7 +264,7 @@ const Gnum                  noconbr)              /*+ number of common points to
   grafptr->verttax -= grafptr->baseval;
   grafptr->vendtax  = grafptr->verttax + 1;
   grafptr->velotax  = NULL;                       /* TODO: not implemented */
-  grafptr->velosum  = meshptr->velosum;
+  grafptr->velosum  = meshptr->velmnbr;           /* As vertex loads are not kept */
 
   edgemax = 2 * meshptr->edgenbr;                 /* Compute lower bound on number of edges in graph */
 
-- 
2.43.0


From 97dbeb0bc041bd6e5d2ab49aa5dca79d8dda131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 120/146] fix: unknown output formats accepted by gcv and mcv

---
 src/scotch/gcv.c | 2 +-
 src/scotch/mcv.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scotch/gcv.c b/src/scotch/gcv.c
index 0618e44..d135660 100644
--- a/src/scotch/gcv.c
+++ b/src/scotch/gcv.c
@@ -184,7 +184,7 @@ char *                      argv[])
               break;
             }
           }
-          if (C_inpFormatTab[j].code == '\0')
+          if (C_outFormatTab[j].code == '\0')
             errorPrint ("main: unprocessed option '%s'", argv[i]);
           break;
         case 'V' :
diff --git a/src/scotch/mcv.c b/src/scotch/mcv.c
index dda38e6..e9105b1 100644
--- a/src/scotch/mcv.c
+++ b/src/scotch/mcv.c
@@ -157,7 +157,7 @@ char *                      argv[])
               break;
             }
           }
-          if (C_inpFormatTab[j].code == '\0')
+          if (C_outFormatTab[j].code == '\0')
             errorPrint ("main: unprocessed option '%s'", argv[i]);
           break;
         case 'V' :
-- 
2.43.0


From 08d7d93cd0597685e372b678ab1f537843dce3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 121/146] fix: vertex migration cost file of gmap opened for
 writing

---
 src/scotch/gmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/gmap.c b/src/scotch/gmap.c
index b56242b..f1d8d24 100644
--- a/src/scotch/gmap.c
+++ b/src/scotch/gmap.c
@@ -97,7 +97,7 @@ static File                 C_fileTab[C_FILENBR] = { /* File array
                               { FILEMODEW },
                               { FILEMODER },
                               { FILEMODER },
-                              { FILEMODEW } };
+                              { FILEMODER } };
 
 static const char *         C_usageList[] = {     /* Usage */
   "gmap [<input source file> [<input target file> [<output mapping file> [<output log file>]]]] <options>",
-- 
2.43.0


From 40b3ab76f9ddf75a35b97a5e823837966016eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 122/146] fix: part array index when building decompositions of
 graphs of base 1

---
 src/libscotch/arch_build.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index d5ce943..a369de8 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -306,7 +306,7 @@ Context * const             contptr)              /*+ Execution context
     tgtvertnum = (tgtlistptr != NULL) ? tgtlistptr->vnumtab[termdomnum] : (termdomnum + tgtgrafptr->baseval);
     termverttab[termdomnum].labl = tgtvertnum;
     termverttab[termdomnum].wght = (tgtgrafptr->velotax != NULL) ? tgtgrafptr->velotax[tgtvertnum] : 1;
-    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum - tgtgrafptr->baseval));
+    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum));
     if (termverttab[termdomnum].num > termdommax) /* Find maximum terminal number */
       termdommax = termverttab[termdomnum].num;
   }
-- 
2.43.0


From 7b5d440b0f3fc41216ad33fded9aa64fe9b7d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 123/146] fix: size of edge load arrays when building
 decompositions of non compact graphs

---
 src/libscotch/arch_build.c  | 10 +++++++++-
 src/libscotch/arch_build2.c | 27 +++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index a369de8..5cdc76f 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -162,7 +162,15 @@ Context * const             contptr)              /*+ Execution context
   if (termdomnbr == 0)                            /* If nothing to do */
     return (0);
 
-  invedlosiz = (tgtedlotax != NULL) ? tgtgrafptr->edgenbr : 0;
+  invedlosiz = 0;
+  if (tgtedlotax != NULL) {                       /* Edge arrays may not be compact */
+    Gnum                tgtvertnum;
+
+    for (tgtvertnum = tgtgrafptr->baseval; tgtvertnum < tgtgrafptr->vertnnd; tgtvertnum ++) {
+      if ((tgtvendtax[tgtvertnum] - tgtgrafptr->baseval) > invedlosiz)
+        invedlosiz = tgtvendtax[tgtvertnum] - tgtgrafptr->baseval;
+    }
+  }
   if ((memAllocGroup ((void **) (void *)
                       &jobtab,     (size_t) (termdomnbr * sizeof (ArchDecoBuildJob)),
                       &actfrontab, (size_t) (termdomnbr * sizeof (Gnum)),
diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 3037afe..3829e22 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -110,6 +110,29 @@ ArchDeco2BuildMatch * restrict const  matcptr)
   memFree (matcptr->hashtab);
 }
 
+/* This routine computes the size of the edge
+** arrays of the given graph, which may not be
+** compact.
+** It returns:
+** - >=0  : size of edge arrays.
+*/
+
+static
+Gnum
+archDeco2BuildEdgeSize (
+const Graph * restrict const  grafptr)
+{
+  Gnum                vertnum;
+  Gnum                edgennd;
+
+  for (vertnum = edgennd = grafptr->baseval; vertnum < grafptr->vertnnd; vertnum ++) {
+    if (grafptr->vendtax[vertnum] > edgennd)
+      edgennd = grafptr->vendtax[vertnum];
+  }
+
+  return (edgennd - grafptr->baseval);
+}
+
 /* This routine initializes the matching
 ** data structure according to the original
 ** graph to be coarsened.
@@ -194,7 +217,7 @@ Context * const                       contptr)
   if (matcptr->levltab[0].grafdat.edlotax != NULL) { /* If original graph has edge loads */
     Gnum                edgenbr;
 
-    edgenbr = matcptr->levltab[0].grafdat.edgenbr;
+    edgenbr = archDeco2BuildEdgeSize (&matcptr->levltab[0].grafdat);
     if ((matcptr->lewgtab[0].edwgtab = memAlloc (edgenbr * sizeof (Gnum))) == NULL) {
       errorPrint ("archDeco2BuildMatchInit: out of memory (5)");
       archDeco2BuildMatchExit (matcptr);
@@ -681,7 +704,7 @@ Context * const             contptr)              /*+ Execution context
       levlptr->grafdat.velosum = levlptr->grafdat.vertnbr;
     }
     if (lewgptr->edwgtab != NULL) {
-      memCpy (levlptr->grafdat.edlotax + levlptr->grafdat.baseval, lewgptr->edwgtab, levlptr->grafdat.edgenbr * sizeof (Gnum));
+      memCpy (levlptr->grafdat.edlotax + levlptr->grafdat.baseval, lewgptr->edwgtab, archDeco2BuildEdgeSize (&levlptr->grafdat) * sizeof (Gnum));
       levlptr->grafdat.edlosum = lewgptr->edwgsum;
       memFree (lewgptr->edwgtab);
       lewgptr->edwgtab = NULL;
-- 
2.43.0


From 0c3e2d885975a83e64971930fab6bb57cbf9caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 124/146] fix: type-2 decompositions restricted to a single
 vertex

---
 src/libscotch/arch_build2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 3829e22..27288f6 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -672,7 +672,7 @@ Context * const             contptr)              /*+ Execution context
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   matcdat.vertsum = vnumnbr;                      /* Account for kept vertices of original graph */
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vertnbr);
 
   if (velotmp != NULL)                            /* Temporary vertex load array will no longer be necessary */
     memFree (velotmp);
-- 
2.43.0


From 184c1a3d12e48beb39fe5864d29563be88dcc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 125/146] fix: recursion on graphs with an empty part in
 overlapped partitioning

---
 src/libscotch/wgraph_part_rb.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index fffb99e..f7c1441 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -282,7 +282,6 @@ const WgraphPartRbSplit * const spltptr)
 {
   Vgraph              actgrafdat;
   WgraphPartRbSplit   spltdat;
-  int                 partval;
   int                 o;
 
   WgraphPartRbData * restrict const dataptr = spltptr->dataptr;
@@ -353,15 +352,13 @@ const WgraphPartRbSplit * const spltptr)
   spltdat.grafptr = &actgrafdat.s;
   spltdat.revaptr = &o;
 
-  if ((partval = 1, actgrafdat.compsize[0] <= 0) || /* If a subpart is empty, run on other part (without considering separator vertices) */
-      (partval = 0, actgrafdat.compsize[1] <= 0)) {
-    spltdat.splttab[1].vertnbr = actgrafdat.s.vertnbr; /* TRICK: use fake part 1 for calling */
-    spltdat.splttab[1].domnnum = spltdat.splttab[partval].domnnum;
-    spltdat.splttab[1].domnsiz = spltdat.splttab[partval].domnsiz;
+  if ((actgrafdat.compsize[0] <= 0) ||            /* If a subpart is empty, run on other part (without considering separator vertices) */
+      (actgrafdat.compsize[1] <= 0)) {
+    spltdat.splttab[1].vertnbr = actgrafdat.s.vertnbr; /* TRICK: use fake part 1 for calling, as its domain is never terminal */
     spltdat.frontab = NULL;                       /* No separator vertices, even if they were some */
     spltdat.fronnbr = 0;
     spltdat.parttax = NULL;
-    wgraphPartRb2 (contptr, partval, &spltdat);
+    wgraphPartRb2 (contptr, 1, &spltdat);
     vgraphExit    (&actgrafdat);
     if (o != 0)
       goto abort;
-- 
2.43.0


From 4f56a875e647f3db8d420eeee4cf665d1bb1a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 126/146] fix: average load of centralized distributed band
 graphs

---
 src/libscotch/bdgraph_gather_all.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/bdgraph_gather_all.c b/src/libscotch/bdgraph_gather_all.c
index cb0775d..f19e5f3 100644
--- a/src/libscotch/bdgraph_gather_all.c
+++ b/src/libscotch/bdgraph_gather_all.c
@@ -183,7 +183,7 @@ Bgraph * restrict              cgrfptr)            /* Centralized graph */
 
   cgrfptr->compload0min  = dgrfptr->compglbload0min; /* Set constant fields of the centralized graph as those of the distibuted graph */
   cgrfptr->compload0max  = dgrfptr->compglbload0max;
-  cgrfptr->compload0avg  = dgrfptr->compglbload0avg;
+  cgrfptr->compload0avg  = (Gnum) (((double) cgrfptr->s.velosum * (double) dgrfptr->domnwght[0]) / (double) (dgrfptr->domnwght[0] + dgrfptr->domnwght[1])); /* Recompute average, as that of band graphs is adjusted */
   cgrfptr->commloadextn0 = dgrfptr->commglbloadextn0;
   cgrfptr->commgainextn0 = dgrfptr->commglbgainextn0;
   cgrfptr->domndist      = dgrfptr->domndist;
@@ -246,7 +246,7 @@ Bgraph * restrict              cgrfptr)            /* Centralized graph */
   intPerm (cgrfptr->frontab, dgrfptr->fronglbnbr, cgrfptr->contptr); /* Compute permutation of frontier array to have different solutions on every process */
 
   cgrfptr->compload0     = dgrfptr->compglbload0; /* Update other fields */
-  cgrfptr->compload0dlt  = dgrfptr->compglbload0dlt;
+  cgrfptr->compload0dlt  = cgrfptr->compload0 - cgrfptr->compload0avg;
   cgrfptr->compsize0     = dgrfptr->compglbsize0;
   cgrfptr->commload      = dgrfptr->commglbload;
   cgrfptr->commgainextn  = dgrfptr->commglbgainextn;
-- 
2.43.0


From c1d0eee3ae431faa37b0e1f2f90570cf8f727e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:02 +0000
Subject: [PATCH 127/146] fix: parentheses in saved strategy conditions

---
 src/libscotch/parser.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index f7df8cc..acffcd5 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -549,7 +549,7 @@ StratTest * const           testptr)
 */
 
 static char                 strattestsaveop[STRATTESTNBR] = "|&!=><+-*%##";
-static char *               strattestsavepa[2][2] = { { "(", ")" }, { "", "" } };
+static char *               strattestsavepa[2][2] = { { "", "" }, { "(", ")" } };
 
 int
 stratTestSave (
@@ -584,15 +584,17 @@ FILE * const                stream)
     case STRATTESTMUL :                           /* Multiplication operator */
     case STRATTESTMOD :                           /* Modulus operator        */
       i = (testptr->data.testtab[0]->testval < testptr->testval) ? 1 : 0;
-      fprintf (stream, "%s", strattestsavepa[i][0]);
-      o = stratTestSave (testptr->data.testtab[0], stream);
-      fprintf (stream, "%s", strattestsavepa[i][1]);
+      if ((fprintf (stream, "%s", strattestsavepa[i][0]) < 0) ||
+          (stratTestSave (testptr->data.testtab[0], stream) != 0) ||
+          (fprintf (stream, "%s", strattestsavepa[i][1]) < 0))
+        o = 1;
       if (o == 0) {
-        fprintf (stream, "%c", strattestsaveop[testptr->testval]);
-        i = (testptr->data.testtab[1]->testval < testptr->testval) ? 1 : 0;
-        fprintf (stream, "%s", strattestsavepa[i][0]);
-        stratTestSave (testptr->data.testtab[1], stream);
-        fprintf (stream, "%s", strattestsavepa[i][1]);
+        i = ((testptr->data.testtab[1]->testval <= testptr->testval) || /* Operators are left-associative */
+             ((testptr->data.testtab[1]->testval == STRATTESTSUB) && (testptr->testval == STRATTESTADD))) ? 1 : 0;
+        if ((fprintf (stream, "%c%s", strattestsaveop[testptr->testval], strattestsavepa[i][0]) < 0) ||
+            (stratTestSave (testptr->data.testtab[1], stream) != 0) ||
+            (fprintf (stream, "%s", strattestsavepa[i][1]) < 0))
+          o = 1;
       }
       break;
     case STRATTESTVAL :                           /* Constant value */
-- 
2.43.0


From 33df4d576c089e36398b3a3ec889692430a0aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 128/146] fix: type of the maximum degree variable of ordering
 strategies

---
 src/libscotch/hdgraph_order_st.c | 2 +-
 src/libscotch/hgraph_order_st.c  | 2 +-
 src/libscotch/hmesh_order_st.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_st.c b/src/libscotch/hdgraph_order_st.c
index e481b28..eebd06b 100644
--- a/src/libscotch/hdgraph_order_st.c
+++ b/src/libscotch/hdgraph_order_st.c
@@ -128,7 +128,7 @@ static StratParamTab        hdgraphorderstcondtab[] = { /* Graph condition param
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.veloglbsum,
                                 NULL },
-                              { STRATNODECOND,         STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,         STRATPARAMINT,    "mdeg",
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.degrglbmax,
                                 NULL },
diff --git a/src/libscotch/hgraph_order_st.c b/src/libscotch/hgraph_order_st.c
index 146d3c9..1692ca6 100644
--- a/src/libscotch/hgraph_order_st.c
+++ b/src/libscotch/hgraph_order_st.c
@@ -228,7 +228,7 @@ static StratParamTab        hgraphorderstcondtab[] = { /* Graph condition parame
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.vnlosum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.s.degrmax,
                                 NULL },
diff --git a/src/libscotch/hmesh_order_st.c b/src/libscotch/hmesh_order_st.c
index b7dd2db..906491c 100644
--- a/src/libscotch/hmesh_order_st.c
+++ b/src/libscotch/hmesh_order_st.c
@@ -204,7 +204,7 @@ static StratParamTab        hmeshorderstcondtab[] = { /* Mesh condition paramete
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.vnhlsum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.m.degrmax,
                                 NULL },
-- 
2.43.0


From 8c6b7275189420949f4607bdd23fa835e5657e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 129/146] fix: error report for values of strategy parameters

---
 src/libscotch/parser_yy.y | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index a9b236d..14d66bb 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -495,9 +495,10 @@ PARAMVAL      : VALCASE
               }
               | error
               {
-                errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
-                            penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
-                            (@1).libenum, (@1).cobenum, (@1).tebeptr);
+                if ((penvptr->straptr != NULL) && (penvptr->paraptr != NULL)) /* If error not in some sub-strategy, the state of which is not restored */
+                  errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
+                              (@1).libenum, (@1).cobenum, (@1).tebeptr);
                 YYABORT;
               }
               ;
-- 
2.43.0


From 8b0fe3ba05aaa9ab757db2e3f7bf6d0ff1735438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 130/146] fix: refused allocations while coarsening a graph

---
 src/libscotch/graph_coarsen.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index 1c23fad..3edebc6 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -253,8 +253,10 @@ GraphCoarsenData * restrict const coarptr)
                         &coarmulttab,          (size_t) (coarmultsiz * sizeof (GraphCoarsenMulti)), NULL) == NULL) ||
         ((coargrafptr->edgetax = memAlloc (finegrafptr->edgenbr * 2 * sizeof (Gnum))) == NULL)) { /* "* 2" for edlotab */
       errorPrint ("graphCoarsen3: out of memory (1)");
-      if (coargrafptr->verttax != NULL)
+      if (coargrafptr->verttax != NULL) {
         memFree (coargrafptr->verttax);
+        coargrafptr->verttax = NULL;
+      }
       coarptr->retuval = 2;
 #ifdef GRAPHCOARSENNOTHREAD
 #ifdef SCOTCH_PTHREAD
@@ -524,8 +526,11 @@ GraphCoarsenData * restrict const     coarptr)
     coarptr->flagval &= ~GRAPHCOARSENNOCOMPACT;   /* Non-compact graphs always imply more than one thread */
 
   if ((coarptr->flagval & GRAPHCOARSENUSEMATE) == 0) { /* If mating array not provided          */
-    if (graphMatchInit (coarptr, thrdnbr) != 0)   /* Initialize global data needed for matching */
+    if (graphMatchInit (coarptr, thrdnbr) != 0) { /* Initialize global data needed for matching */
+      if (finematetab != NULL)
+        memFree (finematetab);
       return (2);
+    }
   }
 
   if (coarptr->coarmulttab != NULL)               /* Record that multinode array was provided */
@@ -538,6 +543,8 @@ GraphCoarsenData * restrict const     coarptr)
     return (2);
   }
   coarptr->retuval = 0;                           /* Assume no error */
+  if (coargrafptr != NULL)
+    coargrafptr->verttax = NULL;                  /* Assume coarse graph not created */
 
   contextThreadLaunch (coarptr->contptr, (ThreadFunc) graphCoarsen3, (void *) coarptr);
 
@@ -546,6 +553,13 @@ GraphCoarsenData * restrict const     coarptr)
   if ((coarptr->flagval & GRAPHCOARSENDSTMATE) == 0) /* If mating array destination not provided */
     memFree (finematetab);                        /* Do not keep mating data array               */
 
+  if (coarptr->retuval == 2) {                    /* If an error occurred                 */
+    if ((coargrafptr != NULL) &&                  /* If coarse graph only partially created */
+        (coargrafptr->verttax != NULL))
+      graphFree (coargrafptr);
+    return (2);
+  }
+
   if (coarptr->coarvertnbr >= coarptr->coarvertmax) /* If coarsened graph is said to be too small, return here */
     return (coarptr->retuval);
 
-- 
2.43.0


From 8996c517288c37865dc3d7aeb579e2fe21b31073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 131/146] fix: do not read the result of a mapping that failed

---
 src/libscotch/library_graph_map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index b8191d7..5aba695 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -292,7 +292,8 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy
   mapgrafdat.contptr = CONTEXTGETDATA (actgrafptr);
 
   o = kgraphMapSt (&mapgrafdat, mapstraptr);
-  mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
+  if (o == 0)                                     /* If mapping was computed */
+    mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
 
   kgraphExit (&mapgrafdat);
 
-- 
2.43.0


From 926ad6d44ccd756ed274f97b8a6826c4b88ffcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 132/146] fix: neighbors with the same color in
 SCOTCH_graphColor

---
 src/libscotch/library_graph_color.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_color.c b/src/libscotch/library_graph_color.c
index 9065781..279c621 100644
--- a/src/libscotch/library_graph_color.c
+++ b/src/libscotch/library_graph_color.c
@@ -142,7 +142,8 @@ const SCOTCH_Num                    flagval)      /* Flag value (not used)
 
         vertend = edgetax[edgenum];
 
-        if (colotax[vertend] >= 0)
+        if ((colotax[vertend] >= 0) &&            /* If neighbor colored in a previous round */
+            (colotax[vertend] != colonum))
           continue;
 
         randend = randtax[vertend];
-- 
2.43.0


From 54ea0dce49c65b20a773487b9916be9556477745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 133/146] fix: SCOTCH_graphInducePart on a graph bound to a
 context

---
 src/libscotch/library_graph_induce.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_induce.c b/src/libscotch/library_graph_induce.c
index 050ff36..102bbb5 100644
--- a/src/libscotch/library_graph_induce.c
+++ b/src/libscotch/library_graph_induce.c
@@ -108,8 +108,10 @@ const SCOTCH_GraphPart2 * restrict const  parttab,
 const SCOTCH_GraphPart2                   partval,
 SCOTCH_Graph * restrict const             indgrafptr)
 {
-  return (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           ((GraphPart * restrict const) parttab) - ((const Graph * const) orggrafptr)->baseval,
+  const Graph * restrict const  srcgrafptr = (const Graph *) CONTEXTOBJECT (orggrafptr);
+
+  return (graphInducePart (srcgrafptr,
+                           ((GraphPart * restrict const) parttab) - srcgrafptr->baseval,
                            (const Gnum) vnumnbr,
                            (const GraphPart) partval,
                            (Graph * restrict const) indgrafptr));
-- 
2.43.0


From c00911187444e92524f39f947fe56a84413143e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 134/146] fix: dump of graphs with gaps, with edge loads, or
 bound to a context

---
 src/libscotch/graph_dump.c         | 12 ++++++++++--
 src/libscotch/library_graph_dump.c |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/graph_dump.c b/src/libscotch/graph_dump.c
index 4098a03..e0c9c7d 100644
--- a/src/libscotch/graph_dump.c
+++ b/src/libscotch/graph_dump.c
@@ -128,7 +128,7 @@ FILE * const                fileptr)              /* Output stream       */
                  dataptr, prefptr, suffptr, grafptr->baseval) < 0);
   if (grafptr->edlotax != NULL)
     o |= (fprintf (fileptr,
-                   "  %sedlotax = %sdelotab%s - " GNUMSTRING ";\n",
+                   "  %sedlotax = %sedlotab%s - " GNUMSTRING ";\n",
                    dataptr, prefptr, suffptr, grafptr->baseval) < 0);
   o |= (fprintf (fileptr,
                  "  %sedlosum = " GNUMSTRING ";\n"
@@ -194,10 +194,18 @@ FILE * const                fileptr)              /* Output stream     */
 
   const Gnum                        baseval = grafptr->baseval;
   const Gnum                        vertnbr = grafptr->vertnbr;
-  const Gnum                        edgenbr = grafptr->edgenbr;
+  Gnum                              edgenbr;      /* Size of edge arrays, including possible gaps */
 
   o = 0;
+  edgenbr = grafptr->edgenbr;
   if (grafptr->vendtax != (grafptr->verttax + 1)) {
+    Gnum                              vertnum;
+
+    for (vertnum = baseval; vertnum < grafptr->vertnnd; vertnum ++) {
+      if ((grafptr->vendtax[vertnum] - baseval) > edgenbr)
+        edgenbr = grafptr->vendtax[vertnum] - baseval;
+    }
+
     o |= graphDumpArray (grafptr->verttax + baseval, vertnbr, tyinptr, prefptr, "verttab", suffptr, fileptr);
     o |= graphDumpArray (grafptr->vendtax + baseval, vertnbr, tyinptr, prefptr, "vendtab", suffptr, fileptr);
   }
diff --git a/src/libscotch/library_graph_dump.c b/src/libscotch/library_graph_dump.c
index 3a0036b..4c589c5 100644
--- a/src/libscotch/library_graph_dump.c
+++ b/src/libscotch/library_graph_dump.c
@@ -52,6 +52,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "graph.h"
 #include "graph_dump.h"
 #include "scotch.h"
@@ -84,7 +85,7 @@ FILE * const                fileptr)
 
   prefstr = (prefptr != NULL) ? prefptr : "";
   suffstr = (suffptr != NULL) ? suffptr : "";
-  grafptr = (const Graph *) libgrafptr;
+  grafptr = (const Graph *) CONTEXTOBJECT (libgrafptr);
 
   o = graphDumpArrays (grafptr, "SCOTCH_Num", prefstr, suffstr, fileptr);
 
-- 
2.43.0


From 2894dd29af4c821cf76259e4d99594a272cb8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 135/146] fix: mesh routines called on a mesh bound to a
 context

---
 src/libscotch/library_mesh.c         | 11 ++++++-----
 src/libscotch/library_mesh_graph.c   |  5 +++--
 src/libscotch/library_mesh_io_scot.c |  5 +++--
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/libscotch/library_mesh.c b/src/libscotch/library_mesh.c
index c36256e..7bbfae8 100644
--- a/src/libscotch/library_mesh.c
+++ b/src/libscotch/library_mesh.c
@@ -58,6 +58,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "graph.h"
 #include "mesh.h"
 #include "scotch.h"
@@ -169,7 +170,7 @@ SCOTCH_meshSave (
 const SCOTCH_Mesh * const   meshptr,
 FILE * const                stream)
 {
-  return (meshSave ((const Mesh * const) meshptr, stream));
+  return (meshSave ((const Mesh * const) CONTEXTOBJECT (meshptr), stream));
 }
 
 /*+ This routine fills the contents of the given
@@ -304,7 +305,7 @@ int
 SCOTCH_meshCheck (
 const SCOTCH_Mesh * const   meshptr)
 {
-  return (meshCheck ((const Mesh * const) meshptr));
+  return (meshCheck ((const Mesh * const) CONTEXTOBJECT (meshptr)));
 }
 
 /*+ This routine accesses mesh size data.
@@ -323,7 +324,7 @@ SCOTCH_Num * const          edgenbr)
 {
   const Mesh *        srcmeshptr;
 
-  srcmeshptr = (Mesh *) meshptr;
+  srcmeshptr = (const Mesh *) CONTEXTOBJECT (meshptr);
 
   if (velmnbr != NULL)
     *velmnbr = (SCOTCH_Num) srcmeshptr->velmnbr;
@@ -359,7 +360,7 @@ SCOTCH_Num * const          degrnbr)              /* Maximum degree            *
 {
   const Mesh *       srcmeshptr;                  /* Pointer to source mesh structure */
 
-  srcmeshptr = (const Mesh *) meshptr;
+  srcmeshptr = (const Mesh *) CONTEXTOBJECT (meshptr);
 
   if (velmnbr != NULL)
     *velmnbr = srcmeshptr->velmnbr;
@@ -420,7 +421,7 @@ double * const              ndegdltptr)
   double                degravg;
   double                degrdlt;
 
-  srcmeshptr = (Mesh *) meshptr;
+  srcmeshptr = (const Mesh *) CONTEXTOBJECT (meshptr);
 
   vnlodlt = 0.0L;
   if (srcmeshptr->vnodnbr > 0) {
diff --git a/src/libscotch/library_mesh_graph.c b/src/libscotch/library_mesh_graph.c
index e09c63b..c4a8683 100644
--- a/src/libscotch/library_mesh_graph.c
+++ b/src/libscotch/library_mesh_graph.c
@@ -54,6 +54,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "graph.h"
 #include "mesh.h"
 #include "scotch.h"
@@ -77,7 +78,7 @@ SCOTCH_meshGraph (
 const SCOTCH_Mesh * restrict const  meshptr,
 SCOTCH_Graph * restrict const       grafptr)
 {
-  return (meshGraph ((Mesh *) meshptr, (Graph *) grafptr));
+  return (meshGraph ((Mesh *) CONTEXTOBJECT (meshptr), (Graph *) grafptr));
 }
 
 /*+ This routine builds an opaque dual graph structure
@@ -94,5 +95,5 @@ const SCOTCH_Mesh * restrict const  meshptr,
 SCOTCH_Graph * restrict const       grafptr,
 const SCOTCH_Num                    ncommon)
 {
-  return (meshGraphDual ((Mesh *) meshptr, (Graph *) grafptr, ncommon));
+  return (meshGraphDual ((Mesh *) CONTEXTOBJECT (meshptr), (Graph *) grafptr, ncommon));
 }
diff --git a/src/libscotch/library_mesh_io_scot.c b/src/libscotch/library_mesh_io_scot.c
index 997890b..4d1dd8f 100644
--- a/src/libscotch/library_mesh_io_scot.c
+++ b/src/libscotch/library_mesh_io_scot.c
@@ -52,6 +52,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "geom.h"
 #include "graph.h"
 #include "mesh.h"
@@ -79,7 +80,7 @@ FILE * const                  filesrcptr,
 FILE * const                  filegeoptr,
 const char * const            dataptr)            /* No use */
 {
-  return (meshGeomLoadScot ((Mesh *) meshptr, (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
+  return (meshGeomLoadScot ((Mesh *) CONTEXTOBJECT (meshptr), (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
 }
 
 /*+ This routine saves the contents of the given
@@ -97,5 +98,5 @@ FILE * const                        filesrcptr,
 FILE * const                        filegeoptr,
 const char * const                  dataptr)      /* No use */
 {
-  return (meshGeomSaveScot ((Mesh *) meshptr, (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
+  return (meshGeomSaveScot ((Mesh *) CONTEXTOBJECT (meshptr), (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
 }
-- 
2.43.0


From 79173ea2aad7d9ae026fd75295cf26f317177e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 136/146] fix: refused allocations in SCOTCH_graphDiamPV and in
 the graph building from meshes

---
 src/libscotch/library_graph_diam.c | 2 +-
 src/libscotch/mesh_graph.c         | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_diam.c b/src/libscotch/library_graph_diam.c
index ee2f4e9..2bd6c02 100644
--- a/src/libscotch/library_graph_diam.c
+++ b/src/libscotch/library_graph_diam.c
@@ -80,7 +80,7 @@ const SCOTCH_Graph * const  libgrafptr)
 
   if (CONTEXTINIT (libgrafptr) != 0) {
     errorPrint (STRINGIFY (SCOTCH_graphDiamPV) ": cannot initialize context");
-    return     (1);
+    return     (-1);
   }
 
   diamval = (SCOTCH_Num) graphDiamPV ((Graph * const) CONTEXTGETOBJECT (libgrafptr), CONTEXTGETDATA (libgrafptr));
diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index c3e30fd..a949d0d 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -136,6 +136,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
   if ((grafptr->edgetax = memAlloc (edgemax * sizeof (Gnum))) == NULL) {
     errorPrint ("meshGraph: out of memory (2)");
     graphFree  (grafptr);
+    memFree    (hashtab);
     return (1);
   }
   grafptr->edgetax -= grafptr->baseval;
@@ -271,6 +272,7 @@ const Gnum                  noconbr)              /*+ number of common points to
   if ((grafptr->edgetax = memAlloc (edgemax * sizeof (Gnum))) == NULL) {
     errorPrint ("meshGraphDual: out of memory (2)");
     graphFree  (grafptr);
+    memFree    (hashtab);
     return (1);
   }
   grafptr->edgetax -= grafptr->baseval;
-- 
2.43.0


From 1c2ea82fe8e4be96b1b208711841b0220eddf135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:09 +0000
Subject: [PATCH 137/146] fix: errors when the default context of a call is
 initialized

---
 src/libscotch/context.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/context.h b/src/libscotch/context.h
index 5d3271f..d3314bc 100644
--- a/src/libscotch/context.h
+++ b/src/libscotch/context.h
@@ -114,8 +114,11 @@ int                         contextOptionsInit  (Context * const);
    : (c##_contptr = (void *) &c##_contdat,      \
       c##_cdatptr = (void *) (c),               \
       contextInit        (&c##_contdat),        \
-      contextOptionsInit (&c##_contdat),        \
-      contextCommit      (&c##_contdat)))
+      ((contextOptionsInit (&c##_contdat) != 0) \
+       ? 1                                      \
+       : ((contextCommit (&c##_contdat) != 0)   \
+          ? (contextExit (&c##_contdat), 1)     \
+          : 0))))
 
 #define CONTEXTGETDATA(c)           c##_contptr
 #define CONTEXTGETOBJECT(c)         c##_cdatptr
-- 
2.43.0


From b15e44d6fae6437cfbc06a4dc93f644e4ba201d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 138/146] fix: leak when a target is built from a single vertex

---
 src/libscotch/arch_build.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index 5cdc76f..18472f8 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -223,6 +223,8 @@ Context * const             contptr)              /*+ Execution context
     jobtab[0].joblink = joblink;                  /* Add initial job to list        */
     joblink = &jobtab[0];
   }
+  else                                            /* Else job will never be processed */
+    graphExit (&jobtab[0].grafdat);               /* Free it if it is not a clone     */
   while (joblink != NULL) {                       /* For all jobs in list */
     joborgptr          = joblink;                 /* Get job              */
     joblink            = joblink->joblink;        /* Remove job from list */
-- 
2.43.0


From 2d7e083d565f0e6bf4abfed3a0f8dc2da6a30d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 139/146] fix: block form of distributed orderings

---
 src/libscotch/dorder_io_block.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/dorder_io_block.c b/src/libscotch/dorder_io_block.c
index efb6dd5..338b138 100644
--- a/src/libscotch/dorder_io_block.c
+++ b/src/libscotch/dorder_io_block.c
@@ -95,28 +95,35 @@ FILE * const                  stream)
                (Gnum) cordptr->cblknbr,
                (Gnum) cordptr->vnodnbr) < 0) {
     errorPrint ("dorderSaveBlock2: bad output (1)");
+    memFree    (rangtab);
     return     (1);
   }
 
   for (cblknum = 0, o = 1; (o == 1) && (cblknum < cordptr->cblknbr); cblknum ++) { /* Save column-block range array */
     o = intSave (stream, rangtab[cblknum]);
-    putc (((cblknum & 7) == 7) ? '\n' : '\t', stream);
+    if (putc (((cblknum & 7) == 7) ? '\n' : '\t', stream) == EOF)
+      o = 0;
   }
-  o = intSave (stream, rangtab[cblknum]);
-  putc ('\n', stream);
+  if ((o == 1) &&
+      ((intSave (stream, rangtab[cblknum]) != 1) || (putc ('\n', stream) == EOF)))
+    o = 0;
 
   orderPeri (cordptr->peritab, cordptr->baseval, cordptr->vnodnbr, rangtab, cordptr->baseval); /* TRICK: re-use rangtab as permtab */
 
   for (vertnum = 0; (o == 1) && (vertnum < (cordptr->vnodnbr - 1)); vertnum ++) { /* Save direct permutation */
     o = intSave (stream, rangtab[vertnum]);
-    putc (((vertnum & 7) == 7) ? '\n' : '\t', stream);
+    if (putc (((vertnum & 7) == 7) ? '\n' : '\t', stream) == EOF)
+      o = 0;
   }
-  o = intSave (stream, rangtab[vertnum]);
-  putc ('\n', stream);
+  if ((o == 1) &&
+      ((intSave (stream, rangtab[vertnum]) != 1) || (putc ('\n', stream) == EOF)))
+    o = 0;
 
   if (o != 1)
     errorPrint ("dorderSaveBlock2: bad output (2)");
 
+  memFree (rangtab);
+
   return (1 - o);
 }
 
-- 
2.43.0


From 39417529f053716dfea3c40b1cb204881fe011e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 140/146] fix: read .bz2 files whose size is a multiple of the
 read size

---
 src/libscotch/common_file_decompress.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/common_file_decompress.c b/src/libscotch/common_file_decompress.c
index 02d9f33..aec8b67 100644
--- a/src/libscotch/common_file_decompress.c
+++ b/src/libscotch/common_file_decompress.c
@@ -284,9 +284,15 @@ FileCompress * const        compptr)
       int                 byunnbr;
 
       BZ2_bzReadGetUnused (&flagval, decoptr, &byunptr, &byunnbr); /* Get remaining chars in stream */
-      if ((byunnbr == 0) && (feof (compptr->oustptr) != 0)) { /* If end of decompressed stream too  */
-        flagval = BZ_STREAM_END;
-        break;
+      if (byunnbr == 0) {                         /* If no data left over from compressed stream */
+        int                 charval;
+
+        charval = getc (compptr->oustptr);        /* End of file may not have been met yet      */
+        if (charval == EOF) {                     /* If end of decompressed stream too          */
+          flagval = (ferror (compptr->oustptr) != 0) ? BZ_IO_ERROR : BZ_STREAM_END;
+          break;
+        }
+        ungetc (charval, compptr->oustptr);
       }
       memMov (compptr->bufftab, byunptr, byunnbr);
       BZ2_bzReadClose (&flagval, decoptr);
-- 
2.43.0


From e747bf977c34b39df28267e038bb66623eaccee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 141/146] fix: take all arguments by reference in Fortran
 routines

---
 src/libscotch/library_dgraph_band_f.c  |  6 +++---
 src/libscotch/library_graph_induce_f.c | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/library_dgraph_band_f.c b/src/libscotch/library_dgraph_band_f.c
index e26c91b..c28eaf1 100644
--- a/src/libscotch/library_dgraph_band_f.c
+++ b/src/libscotch/library_dgraph_band_f.c
@@ -69,12 +69,12 @@
 SCOTCH_FORTRAN (                        \
 DGRAPHBAND, dgraphband, (               \
 SCOTCH_Dgraph * const       srcgrafptr, \
-const SCOTCH_Num            fronlocnbr, \
+const SCOTCH_Num * const    fronlocnbr, \
 SCOTCH_Num * const          fronloctab, \
-const SCOTCH_Num            distval,    \
+const SCOTCH_Num * const    distval,    \
 SCOTCH_Dgraph * const       bndgrafptr, \
 int * const                 revaptr),   \
 (srcgrafptr, fronlocnbr, fronloctab, distval, bndgrafptr, revaptr))
 {
-  *revaptr = SCOTCH_dgraphBand (srcgrafptr, fronlocnbr, fronloctab, distval, bndgrafptr);
+  *revaptr = SCOTCH_dgraphBand (srcgrafptr, *fronlocnbr, fronloctab, *distval, bndgrafptr);
 }
diff --git a/src/libscotch/library_graph_induce_f.c b/src/libscotch/library_graph_induce_f.c
index 60f12c3..cf686ac 100644
--- a/src/libscotch/library_graph_induce_f.c
+++ b/src/libscotch/library_graph_induce_f.c
@@ -68,13 +68,13 @@
 SCOTCH_FORTRAN (                              \
 GRAPHINDUCELIST, graphinducelist, (           \
 SCOTCH_Graph * restrict const     orggrafptr, \
-const SCOTCH_Num                  vnumnbr,    \
+const SCOTCH_Num * const          vnumnbr,    \
 const SCOTCH_Num * restrict const vnumtab,    \
 SCOTCH_Graph * restrict const     indgrafptr, \
 int * const                       revaptr),   \
 (orggrafptr, vnumnbr, vnumtab, indgrafptr, revaptr))
 {
-  *revaptr = SCOTCH_graphInduceList (orggrafptr, vnumnbr, vnumtab, indgrafptr);
+  *revaptr = SCOTCH_graphInduceList (orggrafptr, *vnumnbr, vnumtab, indgrafptr);
 }
 
 /*
@@ -84,12 +84,12 @@ int * const                       revaptr),   \
 SCOTCH_FORTRAN (                                      \
 GRAPHINDUCEPART, graphinducepart, (                   \
 SCOTCH_Graph * restrict const             orggrafptr, \
-const SCOTCH_Num                          vnumnbr,    \
+const SCOTCH_Num * const                  vnumnbr,    \
 const SCOTCH_GraphPart2 * restrict const  parttab,    \
-const SCOTCH_GraphPart2                   partval,    \
+const SCOTCH_GraphPart2 * const           partval,    \
 SCOTCH_Graph * restrict const             indgrafptr, \
 int * const                               revaptr),   \
 (orggrafptr, vnumnbr, parttab, partval, indgrafptr, revaptr))
 {
-  *revaptr = SCOTCH_graphInducePart (orggrafptr, vnumnbr, parttab, partval, indgrafptr);
+  *revaptr = SCOTCH_graphInducePart (orggrafptr, *vnumnbr, parttab, *partval, indgrafptr);
 }
-- 
2.43.0


From 916af3a205daec45664cdd95f324b2ef76af06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 142/146] fix: name and return value of Fortran statistics
 routines

---
 src/libscotch/library_dgraph_map_stat_f.c | 16 +++++++++-------
 src/libscotch/library_dgraph_stat_f.c     |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/library_dgraph_map_stat_f.c b/src/libscotch/library_dgraph_map_stat_f.c
index bb844c0..1706484 100644
--- a/src/libscotch/library_dgraph_map_stat_f.c
+++ b/src/libscotch/library_dgraph_map_stat_f.c
@@ -81,16 +81,18 @@ SCOTCH_Num * const            cdstmaxptr,   \
 SCOTCH_Num                    cdsttab[256], \
 SCOTCH_Num * const            cmlosumptr,   \
 SCOTCH_Num * const            cmdisumptr,   \
-SCOTCH_Num * const            cmexsumptr),  \
+SCOTCH_Num * const            cmexsumptr,   \
+int * const                   revaptr),     \
 (grafptr, mapptr, tgtnbrptr,                \
  mapnbrptr, mapminptr, mapmaxptr,           \
  mapavgptr, mapdltptr,		            \
  ngbsumptr, ngbminptr, ngbmaxptr,           \
- cdstmaxptr, cdsttab, cmlosumptr, cmdisumptr, cmexsumptr))
+ cdstmaxptr, cdsttab, cmlosumptr,           \
+ cmdisumptr, cmexsumptr, revaptr))
 {
-  SCOTCH_dgraphMapStat (grafptr, mapptr, tgtnbrptr,
-                        mapnbrptr, mapminptr, mapmaxptr, mapavgptr, mapdltptr,
-                        ngbsumptr, ngbminptr, ngbmaxptr,
-                        cdstmaxptr, cdsttab,
-                        cmlosumptr, cmdisumptr, cmexsumptr);
+  *revaptr = SCOTCH_dgraphMapStat (grafptr, mapptr, tgtnbrptr,
+                                   mapnbrptr, mapminptr, mapmaxptr, mapavgptr, mapdltptr,
+                                   ngbsumptr, ngbminptr, ngbmaxptr,
+                                   cdstmaxptr, cdsttab,
+                                   cmlosumptr, cmdisumptr, cmexsumptr);
 }
diff --git a/src/libscotch/library_dgraph_stat_f.c b/src/libscotch/library_dgraph_stat_f.c
index 22826a8..03948e1 100644
--- a/src/libscotch/library_dgraph_stat_f.c
+++ b/src/libscotch/library_dgraph_stat_f.c
@@ -68,7 +68,7 @@
 */
 
 SCOTCH_FORTRAN (                              \
-DGRAPHSTAT, Dgraphstat, (                     \
+DGRAPHSTAT, dgraphstat, (                     \
 const SCOTCH_Dgraph * const grafptr,          \
 SCOTCH_Num * const          velominptr,       \
 SCOTCH_Num * const          velomaxptr,       \
-- 
2.43.0


From 11d2eaf88525e3212850c24a56ad45ceba4e1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:14 +0000
Subject: [PATCH 143/146] fix: accept descriptor -1 in Fortran routines which
 save distributed data

---
 src/libscotch/library_dgraph_map_f.c      | 28 +++++++-----
 src/libscotch/library_dgraph_order_io_f.c | 56 +++++++++++++----------
 2 files changed, 48 insertions(+), 36 deletions(-)

diff --git a/src/libscotch/library_dgraph_map_f.c b/src/libscotch/library_dgraph_map_f.c
index 376c97d..c3f90d3 100644
--- a/src/libscotch/library_dgraph_map_f.c
+++ b/src/libscotch/library_dgraph_map_f.c
@@ -108,22 +108,26 @@ int * const                 revaptr), \
   int                 filenum;                    /* Duplicated handle           */
   int                 o;
 
-  if ((filenum = dup (*fileptr)) < 0) {           /* If cannot duplicate file descriptor */
-    errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHMAPSAVE)) ": cannot duplicate handle");
-
-    *revaptr = 1;                                 /* Indicate error */
-    return;
-  }
-  if ((stream = fdopen (filenum, "w")) == NULL) { /* Build stream from handle */
-    errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHMAPSAVE)) ": cannot open output stream");
-    close      (filenum);
-    *revaptr = 1;
-    return;
+  if (*fileptr == -1)                             /* If process is not the root */
+    stream = NULL;
+  else {
+    if ((filenum = dup (*fileptr)) < 0) {         /* If cannot duplicate file descriptor */
+      errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHMAPSAVE)) ": cannot duplicate handle");
+      *revaptr = 1;                               /* Indicate error */
+      return;
+    }
+    if ((stream = fdopen (filenum, "w")) == NULL) { /* Build stream from handle */
+      errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHMAPSAVE)) ": cannot open output stream");
+      close      (filenum);
+      *revaptr = 1;
+      return;
+    }
   }
 
   o = SCOTCH_dgraphMapSave (grafptr, mappptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (stream != NULL)                             /* If process has an open stream */
+    fclose (stream);                              /* This closes filenum too       */
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_dgraph_order_io_f.c b/src/libscotch/library_dgraph_order_io_f.c
index adee63c..fd5a2bc 100644
--- a/src/libscotch/library_dgraph_order_io_f.c
+++ b/src/libscotch/library_dgraph_order_io_f.c
@@ -75,22 +75,26 @@ int * const                     revaptr), \
   int                 filenum;                    /* Duplicated handle           */
   int                 o;
 
-  if ((filenum = dup (*fileptr)) < 0) {           /* If cannot duplicate file descriptor */
-    errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVEMAP)) ": cannot duplicate handle");
-
-    *revaptr = 1;                                 /* Indicate error */
-    return;
-  }
-  if ((stream = fdopen (filenum, "w")) == NULL) { /* Build stream from handle */
-    errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVEMAP)) ": cannot open output stream");
-    close      (filenum);
-    *revaptr = 1;
-    return;
+  if (*fileptr == -1)                             /* If process is not the root */
+    stream = NULL;
+  else {
+    if ((filenum = dup (*fileptr)) < 0) {         /* If cannot duplicate file descriptor */
+      errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVEMAP)) ": cannot duplicate handle");
+      *revaptr = 1;                               /* Indicate error */
+      return;
+    }
+    if ((stream = fdopen (filenum, "w")) == NULL) { /* Build stream from handle */
+      errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVEMAP)) ": cannot open output stream");
+      close      (filenum);
+      *revaptr = 1;
+      return;
+    }
   }
 
   o = SCOTCH_dgraphOrderSaveMap (grafptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (stream != NULL)                             /* If process has an open stream */
+    fclose (stream);                              /* This closes filenum too       */
 
   *revaptr = o;
 }
@@ -111,22 +115,26 @@ int * const                     revaptr),   \
   int                 filenum;                    /* Duplicated handle           */
   int                 o;
 
-  if ((filenum = dup (*fileptr)) < 0) {           /* If cannot duplicate file descriptor */
-    errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVETREE)) ": cannot duplicate handle");
-
-    *revaptr = 1;                                 /* Indicate error */
-    return;
-  }
-  if ((stream = fdopen (filenum, "w")) == NULL) { /* Build stream from handle */
-    errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVETREE)) ": cannot open output stream");
-    close      (filenum);
-    *revaptr = 1;
-    return;
+  if (*fileptr == -1)                             /* If process is not the root */
+    stream = NULL;
+  else {
+    if ((filenum = dup (*fileptr)) < 0) {         /* If cannot duplicate file descriptor */
+      errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVETREE)) ": cannot duplicate handle");
+      *revaptr = 1;                               /* Indicate error */
+      return;
+    }
+    if ((stream = fdopen (filenum, "w")) == NULL) { /* Build stream from handle */
+      errorPrint (STRINGIFY (SCOTCH_NAME_PUBLICFU (DGRAPHORDERSAVETREE)) ": cannot open output stream");
+      close      (filenum);
+      *revaptr = 1;
+      return;
+    }
   }
 
   o = SCOTCH_dgraphOrderSaveTree (grafptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (stream != NULL)                             /* If process has an open stream */
+    fclose (stream);                              /* This closes filenum too       */
 
   *revaptr = o;
 }
-- 
2.43.0


From 4d7116285cb86f5a9b864da528df0f3b480f7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 144/146] fix: report errors met when closing files in Fortran
 routines

---
 src/libscotch/library_arch_f.c                  |  3 ++-
 src/libscotch/library_dgraph_io_save_f.c        |  3 ++-
 src/libscotch/library_dgraph_map_f.c            |  5 +++--
 src/libscotch/library_dgraph_map_view_f.c       |  5 +++--
 src/libscotch/library_dgraph_order_f.c          |  5 +++--
 src/libscotch/library_dgraph_order_io_block_f.c |  5 +++--
 src/libscotch/library_dgraph_order_io_f.c       | 10 ++++++----
 src/libscotch/library_graph_f.c                 |  3 ++-
 src/libscotch/library_graph_io_chac_f.c         |  6 ++++--
 src/libscotch/library_graph_io_mmkt_f.c         |  6 ++++--
 src/libscotch/library_graph_io_scot_f.c         |  6 ++++--
 src/libscotch/library_graph_map_io_f.c          |  6 ++++--
 src/libscotch/library_graph_map_view_f.c        |  3 ++-
 src/libscotch/library_graph_order_f.c           |  9 ++++++---
 src/libscotch/library_mesh_f.c                  |  3 ++-
 src/libscotch/library_mesh_io_scot_f.c          |  6 ++++--
 src/libscotch/library_mesh_order_f.c            |  9 ++++++---
 src/libscotch/library_parser_f.c                |  3 ++-
 src/libscotch/library_random_f.c                |  3 ++-
 19 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/src/libscotch/library_arch_f.c b/src/libscotch/library_arch_f.c
index 2d1ee84..f8dcc6f 100644
--- a/src/libscotch/library_arch_f.c
+++ b/src/libscotch/library_arch_f.c
@@ -188,7 +188,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_archSave (archptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_dgraph_io_save_f.c b/src/libscotch/library_dgraph_io_save_f.c
index 55f3625..118f5b4 100644
--- a/src/libscotch/library_dgraph_io_save_f.c
+++ b/src/libscotch/library_dgraph_io_save_f.c
@@ -95,7 +95,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_dgraphSave (grafptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_dgraph_map_f.c b/src/libscotch/library_dgraph_map_f.c
index c3f90d3..b9b5fd6 100644
--- a/src/libscotch/library_dgraph_map_f.c
+++ b/src/libscotch/library_dgraph_map_f.c
@@ -126,8 +126,9 @@ int * const                 revaptr), \
 
   o = SCOTCH_dgraphMapSave (grafptr, mappptr, stream);
 
-  if (stream != NULL)                             /* If process has an open stream */
-    fclose (stream);                              /* This closes filenum too       */
+  if ((stream != NULL) &&                         /* If process has an open stream */
+      (fclose (stream) != 0))                     /* This closes filenum too       */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_dgraph_map_view_f.c b/src/libscotch/library_dgraph_map_view_f.c
index c3e0e5c..b605256 100644
--- a/src/libscotch/library_dgraph_map_view_f.c
+++ b/src/libscotch/library_dgraph_map_view_f.c
@@ -97,8 +97,9 @@ int * const                   revaptr), \
 
   o = SCOTCH_dgraphMapView (grafptr, mapptr, stream);
 
-  if (stream != NULL)                             /* If process has an open stream */
-    fclose (stream);                              /* This closes filenum too       */
+  if ((stream != NULL) &&                         /* If process has an open stream */
+      (fclose (stream) != 0))                     /* This closes filenum too       */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_dgraph_order_f.c b/src/libscotch/library_dgraph_order_f.c
index 4e61d83..36543c0 100644
--- a/src/libscotch/library_dgraph_order_f.c
+++ b/src/libscotch/library_dgraph_order_f.c
@@ -126,8 +126,9 @@ int * const                   revaptr), \
 
   o = SCOTCH_dgraphOrderSave (grafptr, ordeptr, stream);
 
-  if (stream != NULL)
-    fclose (stream);                              /* This closes filenum too */
+  if ((stream != NULL) &&                         /* If process has an open stream */
+      (fclose (stream) != 0))                     /* This closes filenum too       */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_dgraph_order_io_block_f.c b/src/libscotch/library_dgraph_order_io_block_f.c
index e1e9fed..fca1b1f 100644
--- a/src/libscotch/library_dgraph_order_io_block_f.c
+++ b/src/libscotch/library_dgraph_order_io_block_f.c
@@ -95,8 +95,9 @@ int * const                     revaptr),     \
 
   o = SCOTCH_dgraphOrderSaveBlock (grafptr, ordeptr, stream);
 
-  if (stream != NULL)
-    fclose (stream);                              /* This closes filenum too */
+  if ((stream != NULL) &&                         /* If process has an open stream */
+      (fclose (stream) != 0))                     /* This closes filenum too       */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_dgraph_order_io_f.c b/src/libscotch/library_dgraph_order_io_f.c
index fd5a2bc..ca7dc67 100644
--- a/src/libscotch/library_dgraph_order_io_f.c
+++ b/src/libscotch/library_dgraph_order_io_f.c
@@ -93,8 +93,9 @@ int * const                     revaptr), \
 
   o = SCOTCH_dgraphOrderSaveMap (grafptr, ordeptr, stream);
 
-  if (stream != NULL)                             /* If process has an open stream */
-    fclose (stream);                              /* This closes filenum too       */
+  if ((stream != NULL) &&                         /* If process has an open stream */
+      (fclose (stream) != 0))                     /* This closes filenum too       */
+    o = 1;
 
   *revaptr = o;
 }
@@ -133,8 +134,9 @@ int * const                     revaptr),   \
 
   o = SCOTCH_dgraphOrderSaveTree (grafptr, ordeptr, stream);
 
-  if (stream != NULL)                             /* If process has an open stream */
-    fclose (stream);                              /* This closes filenum too       */
+  if ((stream != NULL) &&                         /* If process has an open stream */
+      (fclose (stream) != 0))                     /* This closes filenum too       */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_graph_f.c b/src/libscotch/library_graph_f.c
index 9249a70..3861268 100644
--- a/src/libscotch/library_graph_f.c
+++ b/src/libscotch/library_graph_f.c
@@ -191,7 +191,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_graphSave (grafptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_graph_io_chac_f.c b/src/libscotch/library_graph_io_chac_f.c
index 525eb8d..f71d952 100644
--- a/src/libscotch/library_graph_io_chac_f.c
+++ b/src/libscotch/library_graph_io_chac_f.c
@@ -169,8 +169,10 @@ const int                   datanbr),             \
 
   o = SCOTCH_graphGeomSaveChac (grafptr, geomptr, filegrfstream, filegeostream, NULL);
 
-  fclose (filegrfstream);                         /* This closes file descriptors too */
-  fclose (filegeostream);
+  if (fclose (filegrfstream) != 0)                /* This closes file descriptors too */
+    o = 1;
+  if (fclose (filegeostream) != 0)
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_graph_io_mmkt_f.c b/src/libscotch/library_graph_io_mmkt_f.c
index 3a1bbd9..220d8f0 100644
--- a/src/libscotch/library_graph_io_mmkt_f.c
+++ b/src/libscotch/library_graph_io_mmkt_f.c
@@ -169,8 +169,10 @@ const int                   datanbr),             \
 
   o = SCOTCH_graphGeomSaveMmkt (grafptr, geomptr, filegrfstream, filegeostream, NULL);
 
-  fclose (filegrfstream);                         /* This closes file descriptors too */
-  fclose (filegeostream);
+  if (fclose (filegrfstream) != 0)                /* This closes file descriptors too */
+    o = 1;
+  if (fclose (filegeostream) != 0)
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_graph_io_scot_f.c b/src/libscotch/library_graph_io_scot_f.c
index 4b405d4..8ada429 100644
--- a/src/libscotch/library_graph_io_scot_f.c
+++ b/src/libscotch/library_graph_io_scot_f.c
@@ -169,8 +169,10 @@ const int                   datanbr),             \
 
   o = SCOTCH_graphGeomSaveScot (grafptr, geomptr, filegrfstream, filegeostream, NULL);
 
-  fclose (filegrfstream);                         /* This closes file descriptors too */
-  fclose (filegeostream);
+  if (fclose (filegrfstream) != 0)                /* This closes file descriptors too */
+    o = 1;
+  if (fclose (filegeostream) != 0)
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_graph_map_io_f.c b/src/libscotch/library_graph_map_io_f.c
index a453f92..97fbed5 100644
--- a/src/libscotch/library_graph_map_io_f.c
+++ b/src/libscotch/library_graph_map_io_f.c
@@ -123,7 +123,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_graphTabSave (grafptr, parttab, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
@@ -194,7 +195,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_graphMapSave (grafptr, mappptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_graph_map_view_f.c b/src/libscotch/library_graph_map_view_f.c
index 00a8315..dbc4a1c 100644
--- a/src/libscotch/library_graph_map_view_f.c
+++ b/src/libscotch/library_graph_map_view_f.c
@@ -96,7 +96,8 @@ int * const                   revaptr), \
 
   o = SCOTCH_graphMapView (grafptr, mappptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_graph_order_f.c b/src/libscotch/library_graph_order_f.c
index a21fce8..6d704b9 100644
--- a/src/libscotch/library_graph_order_f.c
+++ b/src/libscotch/library_graph_order_f.c
@@ -132,7 +132,8 @@ int * const                   revaptr), \
 
   o = SCOTCH_graphOrderSave (grafptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
@@ -168,7 +169,8 @@ int * const                   revaptr), \
 
   o = SCOTCH_graphOrderSaveMap (grafptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
@@ -204,7 +206,8 @@ int * const                   revaptr),   \
 
   o = SCOTCH_graphOrderSaveTree (grafptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_mesh_f.c b/src/libscotch/library_mesh_f.c
index af724ec..e82af12 100644
--- a/src/libscotch/library_mesh_f.c
+++ b/src/libscotch/library_mesh_f.c
@@ -174,7 +174,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_meshSave (meshptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_mesh_io_scot_f.c b/src/libscotch/library_mesh_io_scot_f.c
index d153481..a56aa93 100644
--- a/src/libscotch/library_mesh_io_scot_f.c
+++ b/src/libscotch/library_mesh_io_scot_f.c
@@ -169,8 +169,10 @@ const int                   datanbr),             \
 
   o = SCOTCH_meshGeomSaveScot (meshptr, geomptr, filegrfstream, filegeostream, NULL);
 
-  fclose (filegrfstream);                         /* This closes file descriptors too */
-  fclose (filegeostream);
+  if (fclose (filegrfstream) != 0)                /* This closes file descriptors too */
+    o = 1;
+  if (fclose (filegeostream) != 0)
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_mesh_order_f.c b/src/libscotch/library_mesh_order_f.c
index 41f4e7f..f998f81 100644
--- a/src/libscotch/library_mesh_order_f.c
+++ b/src/libscotch/library_mesh_order_f.c
@@ -131,7 +131,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_meshOrderSave (meshptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
@@ -167,7 +168,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_meshOrderSaveMap (meshptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
@@ -203,7 +205,8 @@ int * const                 revaptr),   \
 
   o = SCOTCH_meshOrderSaveTree (meshptr, ordeptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_parser_f.c b/src/libscotch/library_parser_f.c
index e9f9322..2ffcbfc 100644
--- a/src/libscotch/library_parser_f.c
+++ b/src/libscotch/library_parser_f.c
@@ -129,7 +129,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_stratSave (stratptr, stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
diff --git a/src/libscotch/library_random_f.c b/src/libscotch/library_random_f.c
index c9eb5b8..c42084d 100644
--- a/src/libscotch/library_random_f.c
+++ b/src/libscotch/library_random_f.c
@@ -126,7 +126,8 @@ int * const                 revaptr), \
 
   o = SCOTCH_randomSave (stream);
 
-  fclose (stream);                                /* This closes filenum too */
+  if (fclose (stream) != 0)                       /* This closes filenum too */
+    o = 1;
 
   *revaptr = o;
 }
-- 
2.43.0


From 496ff24fe42015caaef87edbdc0b323aa6803f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 145/146] fix: leave non-root graphs alone when gathering

---
 src/libscotch/library_dgraph_gather.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_gather.c b/src/libscotch/library_dgraph_gather.c
index 1a001ca..7ec5b83 100644
--- a/src/libscotch/library_dgraph_gather.c
+++ b/src/libscotch/library_dgraph_gather.c
@@ -118,7 +118,7 @@ SCOTCH_Graph * const        cgrfptr)
     return (1);
   }
   if (reduglbtab[0] == 1)                         /* If only one single root */
-    return (dgraphGatherAll2 (srcdgrfptr, (Graph *) cgrfptr, reduglbtab[2], (int) reduglbtab[1]));
+    return (dgraphGatherAll2 (srcdgrfptr, (reduloctab[0] == 1) ? (Graph *) cgrfptr : NULL, reduglbtab[2], (int) reduglbtab[1]));
   else if (reduglbtab[0] == srcdgrfptr->procglbnbr) /* If all processes are roots */
     return (dgraphGatherAll2 (srcdgrfptr, (Graph *) cgrfptr, reduglbtab[2], -1));
 
-- 
2.43.0


From 5325feabf55003d59b600262fb6f4a1b1f751425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 146/146] fix: dgraphData on processes without a part of the
 graph

---
 src/libscotch/library_dgraph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph.c b/src/libscotch/library_dgraph.c
index f095317..1674e0f 100644
--- a/src/libscotch/library_dgraph.c
+++ b/src/libscotch/library_dgraph.c
@@ -217,7 +217,8 @@ MPI_Comm * const            comm)                 /* MPI Communicator
   if (vertlocptr != NULL)
     *vertlocptr = srcgrafptr->vertlocnbr;
   if (vertlocptz != NULL)
-    *vertlocptz = srcgrafptr->procvrttab[srcgrafptr->proclocnum + 1] - srcgrafptr->procvrttab[srcgrafptr->proclocnum];
+    *vertlocptz = (srcgrafptr->procvrttab != NULL) /* Process may not hold any part of folded graph */
+                  ? srcgrafptr->procvrttab[srcgrafptr->proclocnum + 1] - srcgrafptr->procvrttab[srcgrafptr->proclocnum] : 0;
   if (vertgstptr != NULL)
     *vertgstptr = ((srcgrafptr->flagval & DGRAPHHASEDGEGST) != 0) ? srcgrafptr->vertgstnbr : -1;
   if (vertloctab != NULL)
-- 
2.43.0

