From 7615813cdc1937cb3f3386c6f44089f71e6ddeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 01/83] sim: guarded hooks (SPMP_SIM) to override the RCM and
 level-search thresholds

---
 LevelSchedule.cpp  | 9 +++++++++
 reordering/RCM.cpp | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c40defe..639e3de 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -40,6 +40,11 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 using namespace std;
 
+#ifdef SPMP_SIM
+// simulation builds choose the serial/parallel threshold of findLevels per run
+extern "C" int spmp_sim_level_thresh;
+#endif
+
 namespace SpMP
 {
 
@@ -228,7 +233,11 @@ void findLevels_(
           bar->wait(tid); // wake up other threads
           break;
         }
+#ifdef SPMP_SIM
+#define THRESH spmp_sim_level_thresh
+#else
 #define THRESH 64
+#endif
         currIterSerial = qTail[0] < THRESH*2;
         if (!currIterSerial) {
           *endSynchronized = begin;
diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 3672b64..61eac2d 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -54,7 +54,14 @@ using namespace std;
 namespace SpMP
 {
 
+#ifdef SPMP_SIM
+// simulation builds choose the threshold per run so that small graphs reach
+// the parallel path
+extern "C" int spmp_sim_par_thr;
+#define PAR_THR spmp_sim_par_thr
+#else
 const int PAR_THR = 65536;
+#endif
 
 void findConnectedComponents(
   const CSR *A,
-- 
2.43.0


From 43c411f2acdce2efee4e89a103f765b6e3e2ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 02/83] fix: level search overflows a thread's queue when it
 discovers more than twice its share

The per-thread queues of findLevels_ hold 2*ceil(n/nthreads) entries, but a
thread that works on a level whose rows have many children can discover up to
n rows. Allocate a larger queue for the thread in that case.
---
 LevelSchedule.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 639e3de..9191c24 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -196,6 +196,7 @@ template<int BASE = 0>
 static
 void findLevels_(
   int *qTail, int *nnzPrefixSum, int *nparents, int **q, int **rowPtrs,
+  int qCapacity,
   const int *diagptr, const int *extptr,
   const int *colidx,
   int *reversePerm, vector<int>& levIndices,
@@ -221,6 +222,11 @@ void findLevels_(
   bool prevIterSerial = false;
   unsigned long long tTemp = __rdtsc();
 
+  // used instead of q[tid] and rowPtrs[tid] when this thread can discover more
+  // nodes in a level than they can hold
+  vector<int> largeQ, largeRowPtrs;
+  int capacity = qCapacity;
+
   int end = 0;
 
   while (true) { // until all nodes are visited
@@ -404,6 +410,20 @@ void findLevels_(
       if (0 == tid) tt5 += __rdtsc() - tTemp;
 
       tTemp = __rdtsc();
+
+      int maxDiscovered = 0;
+      for (int i = iBegin; i < iEnd; ++i) {
+        maxDiscovered += extptr[reversePerm[i]] - diagptr[reversePerm[i]] - 1;
+      }
+      maxDiscovered = min(maxDiscovered, m);
+      if (maxDiscovered + 1 > capacity) {
+        capacity = maxDiscovered + 1;
+        largeQ.resize(capacity);
+        largeRowPtrs.resize(capacity);
+        q[tid] = &largeQ[0];
+        rowPtrs[tid] = &largeRowPtrs[0];
+      }
+
       int *tailPtr = q[tid];
       int *rowPtr = rowPtrs[tid];
       *rowPtr = 0;
@@ -576,6 +596,7 @@ void findLevels_(
   assert(q[0]);
   findLevels_<BASE>(
     qTail, nnzPrefixSum, nparents, q, rowPtrs,
+    max(nthreads, n + nthreads - 1)/nthreads*2,
     diagptr, extptr, colidx,
     levContToOrigPerm, levIndices, m,
     tt2, tt3, tt4, tt5, tt6);
-- 
2.43.0


From 27dbde87d9f76f2143ed5fe042460a0577a7bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 03/83] fix: fused schedule's parent lists overlap

The offset of a task's list in parentsBuf advanced by the in-degree of the
task in the backward schedule rather than by the length of the list stored
there, so later tasks overwrote the tail of earlier lists.
---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 9191c24..2044df5 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1301,7 +1301,7 @@ void constructTaskGraph_(
         fusedSchedule->parents[task] = fusedSchedule->parentsBuf + cnt;
         fusedSchedule->nparents[task] = tempParents[task].size();
         copy(tempParents[task].begin(), tempParents[task].end(), fusedSchedule->parents[task]);
-        cnt += taskInvAdjacencyLengths[task];
+        cnt += fusedSchedule->nparents[task];
       }
 
       /*int cnt = 0;
-- 
2.43.0


From 9c4f86fa0a64d98cac22241e0e2db7b73fbf8b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 04/83] fix: reduction barrier mixes the values of consecutive
 rounds

The partner value slots were shared by all rounds although the flags alternate
between two sets, so a core that had finished a round could overwrite its
partner's slot before the partner had read it. Alternate the slots, too.
---
 synk/reduce.hpp | 74 +++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index bad5891..8d19da1 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -57,8 +57,8 @@ struct PseudoCore {
     uint8_t             parity;
     uint8_t             sense;
 
-    volatile T          *myRvals;
-    T                   **partnerRvals;
+    volatile T          *myRvals[2];
+    T                   **partnerRvals[2];
 };
 
 
@@ -75,8 +75,8 @@ struct ReduceCoreBarrier {
 
     volatile T          rval;
     volatile T          *threadRvals;
-    volatile T          *myRvals;
-    T                   **partnerRvals;
+    volatile T          *myRvals[2];
+    T                   **partnerRvals[2];
 
     PseudoCore<T>       *pseudoCore;
 };
@@ -144,8 +144,10 @@ void ReduceBarrier<T>::init(int tid)
         core->sense = 1;
 
         core->threadRvals = MALLOC(volatile T, numThreadsPerCore);
-        core->myRvals = MALLOC(volatile T, lgNumCores);
-        core->partnerRvals = MALLOC(T *, lgNumCores);
+        for (int i = 0;  i < 2;  i++) {
+            core->myRvals[i] = MALLOC(volatile T, lgNumCores);
+            core->partnerRvals[i] = MALLOC(T *, lgNumCores);
+        }
 
         core->pseudoCore = NULL;
 
@@ -164,8 +166,10 @@ void ReduceBarrier<T>::init(int tid)
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
 
-            pseudoCore->myRvals = MALLOC(volatile T, lgNumCores);
-            pseudoCore->partnerRvals = MALLOC(T *, lgNumCores);
+            for (int i = 0;  i < 2;  i++) {
+                pseudoCore->myRvals[i] = MALLOC(volatile T, lgNumCores);
+                pseudoCore->partnerRvals[i] = MALLOC(T *, lgNumCores);
+            }
 
             core->pseudoCore = pseudoCore;
         }
@@ -186,54 +190,58 @@ void ReduceBarrier<T>::init(int tid)
     /* core thread 0 finishes setup */
     if (coreTid == 0) {
         for (int i = 0;  i < lgNumCores;  i++) {
-            core->myRvals[i] = (volatile T)NULL;
+            core->myRvals[0][i] = core->myRvals[1][i] = (volatile T)NULL;
 
             /* find reduction partner and link */
             int reduceCid = (cid + (1 << i)) % nearestPow2Cores;
 
             /* is our reduction partner a real core? */
             if (reduceCid < numCores) {
-                core->partnerRvals[i] = (T *)&cores[reduceCid]->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j][i] = (T *)&cores[reduceCid]->myRvals[j][i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* no, it's a pseudo core */
             else {
                 reduceCid -= numCores;
-                core->partnerRvals[i] = (T *)
-                    &cores[reduceCid]->pseudoCore->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j][i] = (T *)
+                        &cores[reduceCid]->pseudoCore->myRvals[j][i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->
                         pseudoCore->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* if this is one of the cores that represents a pseudo
                core, we have to initialize and link its fields too */
             if (pseudoCore) {
-                pseudoCore->myRvals[i] = (volatile T)NULL;
+                pseudoCore->myRvals[0][i] = pseudoCore->myRvals[1][i] = (volatile T)NULL;
 
                 reduceCid = (pseudoCore->coreId + (1 << i)) % nearestPow2Cores;
 
                 /* this pseudo core's reduction partner might be a real
                    core or a pseudo core */
                 if (reduceCid < numCores) {
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j][i] = (T *)
+                            &cores[reduceCid]->myRvals[j][i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                    }
                 }
                 else {
                     reduceCid -= numCores;
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->pseudoCore->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j][i] = (T *)
+                            &cores[reduceCid]->pseudoCore->myRvals[j][i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->
                             pseudoCore->myFlags[j][i * CacheLineSize];
+                    }
                 }
             }
         }
@@ -279,8 +287,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
            handle both */
         if (numThreadsPerCore == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                *bar->partnerRvals[bar->parity][i] = redVal;
+                *bar->pseudoCore->partnerRvals[bar->pseudoCore->parity][i] = zeroVal;
 
                 sfence();
 
@@ -295,8 +303,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[bar->parity][i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[bar->pseudoCore->parity][i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -309,14 +317,14 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         /* no pseudo core, only handle self */
         else {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
+                *bar->partnerRvals[bar->parity][i] = redVal;
                 sfence();
                 *bar->partnerFlags[bar->parity][i] = bar->sense;
                 while (bar->myFlags[bar->parity][di] != bar->sense)
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[bar->parity][i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -334,7 +342,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
     else {
         if (coreTid == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                *bar->pseudoCore->partnerRvals[bar->pseudoCore->parity][i] = zeroVal;
                 sfence();
                 *bar->pseudoCore->partnerFlags[bar->pseudoCore->parity][i]
                     = bar->pseudoCore->sense;
@@ -343,7 +351,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[bar->pseudoCore->parity][i]);
             }
             if (bar->pseudoCore->parity == 1)
                 bar->pseudoCore->sense = !bar->pseudoCore->sense;
@@ -367,19 +375,19 @@ ReduceBarrier<T>::~ReduceBarrier()
     if (initState) {
         for (int i = 0;  i < numCores;  i++) {
             if (cores[i]->pseudoCore) {
-                _mm_free((void *)cores[i]->pseudoCore->partnerRvals);
-                _mm_free((void *)cores[i]->pseudoCore->myRvals);
                 for (int j = 0;  j < 2;  j++) {
+                    _mm_free((void *)cores[i]->pseudoCore->partnerRvals[j]);
+                    _mm_free((void *)cores[i]->pseudoCore->myRvals[j]);
                     _mm_free((void *)cores[i]->pseudoCore->partnerFlags[j]);
                     _mm_free((void *)cores[i]->pseudoCore->myFlags[j]);
                 }
                 _mm_free((void *)cores[i]->pseudoCore);
             }
-            _mm_free((void *)cores[i]->partnerRvals);
-            _mm_free((void *)cores[i]->myRvals);
             _mm_free((void *)cores[i]->threadRvals);
             _mm_free((void *)cores[i]->threadSenses);
             for (int j = 0;  j < 2;  j++) {
+                _mm_free((void *)cores[i]->partnerRvals[j]);
+                _mm_free((void *)cores[i]->myRvals[j]);
                 _mm_free((void *)cores[i]->partnerFlags[j]);
                 _mm_free((void *)cores[i]->myFlags[j]);
             }
-- 
2.43.0


From 09f9087e77d90b36e628dadef8077f86b84e312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 05/83] fix: single-core reduction barrier counts every value
 twice

With one core the core was its own partner and reduced its value with itself.
---
 synk/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index 8d19da1..0d8243c 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -315,7 +315,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         }
 
         /* no pseudo core, only handle self */
-        else {
+        else if (numCores > 1) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
                 *bar->partnerRvals[bar->parity][i] = redVal;
                 sfence();
-- 
2.43.0


From 4388d5ac0979299d2904176d8095e60bc12ae8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 06/83] fix: parallel union in connected components loses links

When two threads linked the same root, the one whose compare-and-swap failed
overwrote the winner's link with a plain store, so the component could fall
apart. Retry from the new state instead.
---
 reordering/ConnectedComponents.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0c33f39..cfea0df 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -167,8 +167,10 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) break;
+            // another thread linked r_x in the meantime. Don't overwrite its link
+            continue;
           }
           p[r_x] = p_r_y;
           r_x = p_r_x;
-- 
2.43.0


From 48810ca057b6e8bfada9bea91302654c6da3fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 07/83] fix: self-check of connected components reads past the
 component offsets

The offset after the last component is not part of the array with one thread,
and belongs to another thread otherwise.
---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index cfea0df..7c19b08 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -314,7 +314,7 @@ void findConnectedComponents_(
 
     for (int j = (*compSizePrefixSum)[i]; j < (*compSizePrefixSum)[i] + (*compSizes)[i]; ++j) {
       assert(p[(*nodesSortedByComp)[j]] == (*compToRoot)[i]);
-      if (j < (*compSizePrefixSum)[i + 1] - 1) {
+      if (j < (*compSizePrefixSum)[i] + (*compSizes)[i] - 1) {
         assert((*nodesSortedByComp)[j] < (*nodesSortedByComp)[j + 1]);
       }
     }
-- 
2.43.0


From ce827c90ee17178c6b41dc509797c7ed33a252de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 08/83] fix: connected components leaks its union-find array

---
 reordering/ConnectedComponents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 7c19b08..d7f9fb9 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -323,6 +323,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (nodesToFind) delete[] nodesToFind;
 }
-- 
2.43.0


From 845a32c156fbe8b02643e126b833209e1d272a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 09/83] fix: RCM work arrays are too small for path-like
 components

A breadth-first search of a component of k rows reports up to k + 1 levels, so
the prefix sum of levels has k + 2 entries and write_offset is indexed up to
m + 1. The per-thread parts of prefixSum_array also add up to
nthreads*(PAR_THR + 1) entries.
---
 reordering/RCM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 61eac2d..bb8740d 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -697,8 +697,8 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   int singletonCnt = 0, twinCnt = 0;
 
   bfsAuxData aux(m);
-  volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*PAR_THR, m) + 1];
+  volatile int *write_offset = new int[(m + 2)*16];
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 2)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From 551beb5c949f674f0c8575d5b524c5f017628d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 10/83] fix: path splicing in connected components undoes
 concurrent unions

Moving r_x from its parent to p_r_y keeps the old parent connected only through
the rest of this thread's union, which may in turn end early because of a path
that led through r_x. Shorten the path to an ancestor of r_x instead, which
never disconnects anything.
---
 reordering/ConnectedComponents.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index d7f9fb9..b8694bc 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -172,7 +172,9 @@ void findConnectedComponents_(
             // another thread linked r_x in the meantime. Don't overwrite its link
             continue;
           }
-          p[r_x] = p_r_y;
+          // path halving. Linking r_x to p_r_y here instead could undo a union
+          // that another thread does at the same time
+          p[r_x] = p[p_r_x];
           r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
-- 
2.43.0


From e9be72195f2574af0a929b0f0663630ccbecc145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 11/83] fix: breadth-first search of a 1x1 matrix writes past
 rowptrs

---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index bb8740d..ca1d30c 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -191,7 +191,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From 2139de12fa6c8750925f289df2c3bb27bfd3074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 12/83] fix: pseudo-diameter source selection overflows its
 candidate list

Threads may discover a node of the last level concurrently and each put it in
its own queue, so the queues together can hold up to nthreads*m nodes.
---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index ca1d30c..f0b3ab4 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -194,7 +194,7 @@ bfsAuxData::bfsAuxData(int m)
   rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
-  candidates = new int[m];
+  candidates = new int[m*omp_get_max_threads()];
 }
 
 bfsAuxData::~bfsAuxData()
-- 
2.43.0


From 9289b31a04cebc68f2983a1ba47667489f0d110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 13/83] fix: bipartite BFS overruns its per-thread row offsets
 when a thread discovers a whole side

---
 reordering/BFSBipartite.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 31e393a..9862491 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -450,7 +450,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*(m + 1)];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
@@ -563,6 +563,8 @@ int bfs(
   int *qTailPrefixSum = aux->qTailPrefixSum;
   qTailPrefixSum[0] = 0;
 
+  // a thread can discover all max(m, n) vertices of a side
+  int rowptrsStride = max(A->m, A->n) + 1;
   int *rowptrs = aux->rowptrs;
   rowptrs[0] = 0;
   rowptrs[1] = A->rowptr[source + 1] - A->rowptr[source];
@@ -640,9 +642,9 @@ int bfs(
     }
     else {
       iBegin = upper_bound(
-          rowptrs + tBegin*max(A->m, A->n), rowptrs + tBegin*max(A->m, A->n) + qTail[1 - numLevels%2][tBegin],
+          rowptrs + tBegin*rowptrsStride, rowptrs + tBegin*rowptrsStride + qTail[1 - numLevels%2][tBegin],
           nnzPerThread*tid - nnzPrefixSum[tBegin]) -
-        (rowptrs + tBegin*max(A->m, A->n)) - 1;
+        (rowptrs + tBegin*rowptrsStride) - 1;
     }
 
     if (tEnd == nthreads) {
@@ -650,9 +652,9 @@ int bfs(
     }
     else {
       iEnd = upper_bound(
-          rowptrs + tEnd*max(A->m, A->n), rowptrs + tEnd*max(A->m, A->n) + qTail[1 - numLevels%2][tEnd],
+          rowptrs + tEnd*rowptrsStride, rowptrs + tEnd*rowptrsStride + qTail[1 - numLevels%2][tEnd],
           nnzPerThread*(tid + 1) - nnzPrefixSum[tEnd]) -
-        (rowptrs + tEnd*max(A->m, A->n)) - 1;
+        (rowptrs + tEnd*rowptrsStride) - 1;
     }
 
     memcpy(
@@ -663,7 +665,7 @@ int bfs(
     synk::Barrier::getInstance()->wait(tid);
 
     int *tailPtr = q[numLevels%2] + tid*max(A->m, A->n);
-    int *rowptr = rowptrs + tid*max(A->m, A->n);
+    int *rowptr = rowptrs + tid*rowptrsStride;
     *rowptr = 0;
 
     for (int t = tBegin; t <= tEnd; ++t) {
-- 
2.43.0


From 5622fc37dc9cc1f4f6f5feeb11887bea8e81cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 14/83] fix: transpose of a matrix without columns has no row
 pointers

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..30918c9 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -493,6 +493,8 @@ CSR *CSR::transpose() const
   }
 
   if (0 == n) {
+    AT->rowptr = MALLOC(int, 1);
+    AT->rowptr[0] = base;
     return AT;
   }
 
-- 
2.43.0


From 3a4bf7c0bf82e395d8dd9022d01869496b023477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 15/83] fix: in-place matrix-vector product copies only the
 first m elements of the input

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..d159c3b 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From 9ec64d4cb8dfcaea285b919d13e6249a5f024935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 16/83] fix: strided multi-vector product of a 1-based matrix
 is off by stride - 1

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index d159c3b..9946205 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From 171d1bcff2fddf48dd30a869190ca5cad781274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 17/83] fix: multi-vector product of a pattern-only matrix
 dereferences its missing values

---
 SpMV.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 9946205..fb302c9 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -197,7 +197,7 @@ static void SpMDM_(
 
   rowptr -= base;
   colidx -= base;
-  values -= base;
+  if (values) values -= base;
 
   W -= base*wRowStride;
   X -= base*xRowStride;
@@ -223,8 +223,10 @@ static void SpMDM_(
           sum[i3] = 0;
         }
         for (int i2 = rowptr[i1]; i2 < rowptr[i1 + 1]; ++i2) {
+          // pattern-only matrix: assume all non-zero values are 1
+          const T v = values ? values[i2] : 1;
           for (int i3 = 0; i3 < k; ++i3) {
-            sum[i3] += values[i2]*X[colidx[i2] + i3*xColumnStride];
+            sum[i3] += v*X[colidx[i2] + i3*xColumnStride];
           }
         }
         for (int i3 = 0; i3 < k; ++i3) {
@@ -238,8 +240,10 @@ static void SpMDM_(
           sum[i3] = 0;
         }
         for (int i2 = rowptr[i1]; i2 < rowptr[i1 + 1]; ++i2) {
+          // pattern-only matrix: assume all non-zero values are 1
+          const T v = values ? values[i2] : 1;
           for (int i3 = 0; i3 < k; ++i3) {
-            sum[i3] += values[i2]*X[colidx[i2]*xRowStride + i3*xColumnStride];
+            sum[i3] += v*X[colidx[i2]*xRowStride + i3*xColumnStride];
           }
         }
         for (int i3 = 0; i3 < k; ++i3) {
-- 
2.43.0


From 334cf6a79db21913ebedf677cde3a0f9fa431c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 18/83] fix: permuting a pattern-only matrix dereferences its
 missing values

---
 Permute.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..5d3d943 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -308,7 +308,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
@@ -318,17 +318,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            double v = values ? newValues[j] : 0;
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (values) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (values) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From bedaa56d34fed7ff3e9a69656f45045add4a2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 19/83] fix: permuteColsInPlace mishandles pattern-only
 matrices and rejects the last column of 1-based ones

---
 Permute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 5d3d943..4fbb89f 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,7 +121,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
 
@@ -130,9 +130,9 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     int diagCol = -1;
     for (int j = rowptr[i]; j < extptr[i]; ++j) {
       int c = colidx[j];
-      assert(c >= 0 && c < m);
+      assert(c >= BASE && c < A->n + BASE);
       colidx[j] = perm[c - BASE] + BASE;
-      assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < m);
+      assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < A->n);
       if (c == i) diagCol = perm[c - BASE] + BASE;
     }
 
@@ -205,17 +205,17 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     else {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
-        double v = values[j];
+        double v = values ? values[j] : 0;
 
         int k = j - 1;
         while (k >= rowptr[i] && colidx[k] > c) {
           colidx[k + 1] = colidx[k];
-          values[k + 1] = values[k];
+          if (values) values[k + 1] = values[k];
           --k;
         }
 
         colidx[k + 1] = c;
-        values[k + 1] = v;
+        if (values) values[k + 1] = v;
       }
     }
   } // for each row
-- 
2.43.0


From 99127d80afd23afe6a341f1060dcfded95b9adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 20/83] fix: permuteRows of a 1-based matrix uses its
 neighbours' row pointers

---
 Permute.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 4fbb89f..6210f8d 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -385,23 +385,23 @@ static void permuteRowsMain_(
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr, m);
     iBegin += BASE;
     iEnd += BASE;
 
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = out->rowptr[i - BASE] - BASE;
 
       if (values)
         memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
       memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        out->diagptr[i - BASE] =
+          out->rowptr[i - BASE] + (diagptr[row] - rowptr[row]);
+      if (idiag) out->idiag[i - BASE] = idiag[row];
     }
   }
 }
-- 
2.43.0


From eb75f4d24e0f5916813cd0008ded95bdce6c130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 21/83] fix: self-check of permuteRowptr rejects the identity
 given as NULL

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 6210f8d..3d2b2d6 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -34,7 +34,7 @@ namespace SpMP
 
 void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 {
-  assert(isPerm(inversePerm, m));
+  assert(!inversePerm || isPerm(inversePerm, m));
 
   int base = getBase();
 
-- 
2.43.0


From 93ebe9b51ed866305627e3f367dddcfd2470e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 22/83] fix: symmetrising the pattern of a 1-based matrix
 shifts its arrays once per thread or not at all

---
 SymGS.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..1d68a13 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -194,7 +194,7 @@ bool getSymmetricNnzPattern(
         for (int i = base; i < m + base; ++i) {
           (*symRowPtr)[i + 1] += (*symRowPtr)[i];
         }
-        *symColIdx = MALLOC(int, (*symRowPtr)[m]);
+        *symColIdx = MALLOC(int, (*symRowPtr)[m + base] - base);
         *symColIdx -= base;
 
         *symDiagPtr = MALLOC(int, m + 1);
@@ -204,6 +204,7 @@ bool getSymmetricNnzPattern(
           *symExtPtr -= base;
         }
         cnts = MALLOC(int, m);
+        cnts -= base;
       }
 
 #ifdef PRINT_TIME_BREAKDOWN
@@ -268,9 +269,6 @@ bool getSymmetricNnzPattern(
       }
 #undef PRINT_TIME_BREAKDOWN
 #endif
-
-      *symColIdx += base;
-      if (*symExtPtr) *symExtPtr += base;
     } // !isSymmetric
   } // omp parallel
 
@@ -285,6 +283,12 @@ bool getSymmetricNnzPattern(
       *symRowPtr = NULL;
     }
   }
+  else {
+    *symColIdx += base;
+    *symDiagPtr += base;
+    if (A->extptr) *symExtPtr += base;
+    cnts += base;
+  }
 
   FREE(cnts);
 
-- 
2.43.0


From d6196abc4127d61bde7000e70275e48030453688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 23/83] fix: index-base conversion leaves the partial-row
 markers behind

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 30918c9..9b815f2 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -415,6 +415,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -436,6 +442,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From 43f01b915fac68d4c38164aed9df4cc23a6c963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 24/83] fix: copying a matrix loses its partial-row markers

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 9b815f2..7b95a0b 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -89,6 +89,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (A.diagptr) diagptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
+  if (A.extptr) extptr = MALLOC(int, m);
 
   copyVector(rowptr, A.rowptr, A.m + 1);
   copyVector(colidx, A.colidx, nnz);
@@ -96,6 +97,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (diagptr) copyVector(diagptr, A.diagptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
-- 
2.43.0


From 96c8c9f6e16986d3598eec7c0cd0ac147d238f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 25/83] fix: isSymmetric ignores the last row's column of
 1-based matrices

---
 CSR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 7b95a0b..49a6651 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -193,7 +193,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
@@ -219,7 +219,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
-- 
2.43.0


From 71f692b4a3d7ef691bae09de40dcb4b2c131c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 26/83] fix: hasZeroDiag reads past the arrays of 1-based and
 pattern-only matrices

---
 CSR.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 49a6651..ea1babd 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -250,6 +250,11 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values ? this->values - base : NULL;
+
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
@@ -262,7 +267,7 @@ bool CSR::hasZeroDiag() const
     for (int i = iBegin; i < iEnd; ++i) {
       bool hasDiag = false;
       for (int j = rowptr[i]; j < rowptr[i + 1]; ++j) {
-        if (colidx[j] == i && values[j] != 0) {
+        if (colidx[j] == i && (!values || values[j] != 0)) {
           hasDiag = true;
           break;
         }
-- 
2.43.0


From 67572b2c9cc8acf49e31b208cbca3127d0878bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 27/83] fix: comparing pattern-only matrices dereferences their
 missing values

---
 CSR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index ea1babd..e9dcdf4 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -746,6 +746,10 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
     if (print) printf("number of non-zeros differs %d vs. %d\n", rowptr[m], A.rowptr[A.m]);
     return false;
   }
+  if (!values != !A.values) {
+    if (print) printf("only one of the matrices has values\n");
+    return false;
+  }
   for (int i = 0; i < m; ++i) {
     if (rowptr[i] != A.rowptr[i]) {
       if (print) printf("rowptr[%d] differs %d vs. %d\n", i, rowptr[i], A.rowptr[i]);
@@ -756,7 +760,7 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
         if (print) printf("colidx[%d:%d] differs %d vs. %d\n", i, j, colidx[j], A.colidx[j]);
         return false;
       }
-      if (values[j] != A.values[j]) {
+      if (values && values[j] != A.values[j]) {
         if (print) printf("values[%d:%d] differs %g vs. %g\n", i, j, values[j], A.values[j]);
         return false;
       }
-- 
2.43.0


From b04a2e2624ab314b2ccc5ca97684a1abb58baa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 28/83] fix: reloading a COO that held a symmetric matrix from
 a general file overruns its arrays

coo.isSymmetric was never reset, so the entries of the general file were
mirrored into arrays that have no room for them.
---
 COO.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..7440e48 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -224,8 +224,8 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   n = (n + pad - 1)/pad*pad;
 
   size_t count;
-  if (force_symmetric || mm_is_symmetric (matcode) == 1) {
-    coo.isSymmetric = true;
+  bool isSymmetric = force_symmetric || mm_is_symmetric (matcode) == 1;
+  if (isSymmetric) {
     count = 2L*nnz;
   }
   else {
@@ -244,7 +244,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
 
   int *colidx_temp, *rowcnt = NULL;
-  if (coo.isSymmetric) {
+  if (isSymmetric) {
     colidx_temp = MALLOC(int, count);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
@@ -277,7 +277,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
     ++count;
     ++lines;
-    if (coo.isSymmetric) rowcnt[x]++;
+    if (isSymmetric) rowcnt[x]++;
       // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
   }
   // padding for vectorization
@@ -294,7 +294,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       rowidx[i]++;
       colidx[i]++;
     }
-    if (coo.isSymmetric) {
+    if (isSymmetric) {
       for (int i = m; i > 0; --i) {
         rowcnt[i] = rowcnt[i - 1];
       }
@@ -307,7 +307,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     return false;
   }
     
-  if (coo.isSymmetric) {
+  if (isSymmetric) {
     // add transposed elements only if it doesn't exist
     size_t real_count = count;
     // preix-sum
@@ -350,6 +350,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   coo.m = m;
   coo.n = n;
   coo.nnz = count;
+  coo.isSymmetric = isSymmetric;
   coo.dealloc();
   coo.values = values;
   coo.colidx = colidx;
-- 
2.43.0


From dbe5d5c355b87632104728941a5243544564282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 29/83] fix: Matrix Market files are written with too few
 digits to read the same values back

---
 CSR.cpp   | 2 +-
 mm_io.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index e9dcdf4..c536a74 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -303,7 +303,7 @@ void CSR::storeMatrixMarket(const char *fileName) const
   // print values
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j) {
-      fprintf(fp, "%d %d %20.16g\n", i + 1, colidx[j] - base + 1, values[j]);
+      fprintf(fp, "%d %d %24.17g\n", i + 1, colidx[j] - base + 1, values[j]);
     }
   }
 
diff --git a/mm_io.cpp b/mm_io.cpp
index 7aac638..da9edac 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -742,11 +742,11 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     else
     if (mm_is_real(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+            fprintf(f, "%d %d %24.17g\n", I[i], J[i], val[i]);
     else
     if (mm_is_complex(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2*i], 
+            fprintf(f, "%d %d %24.17g %24.17g\n", I[i], J[i], val[2*i], 
                         val[2*i+1]);
     else
     {
-- 
2.43.0


From c3b1b02c0ac7b331725e5bface5e9b7a705c8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 30/83] fix: storing a pattern-only matrix dereferences its
 missing values

Write the pattern form of Matrix Market, and ones in the binary format, which
is what loading a pattern gives.
---
 CSR.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index c536a74..7df77a8 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -291,7 +291,8 @@ void CSR::storeMatrixMarket(const char *fileName) const
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
   mm_set_sparse(&matcode);
-  mm_set_real(&matcode);
+  if (values) mm_set_real(&matcode);
+  else mm_set_pattern(&matcode);
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
@@ -303,7 +304,12 @@ void CSR::storeMatrixMarket(const char *fileName) const
   // print values
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j) {
-      fprintf(fp, "%d %d %24.17g\n", i + 1, colidx[j] - base + 1, values[j]);
+      if (values) {
+        fprintf(fp, "%d %d %24.17g\n", i + 1, colidx[j] - base + 1, values[j]);
+      }
+      else {
+        fprintf(fp, "%d %d\n", i + 1, colidx[j] - base + 1);
+      }
     }
   }
 
@@ -394,7 +400,15 @@ void CSR::storeBin(const char *fileName)
   free(rownnz);
 
   fwrite(colidx, sizeof(colidx[0]), nnz, fp);
-  fwrite(values, sizeof(values[0]), nnz, fp);
+  if (values) {
+    fwrite(values, sizeof(values[0]), nnz, fp);
+  }
+  else {
+    const double one = 1;
+    for (int i = 0; i < nnz; ++i) {
+      fwrite(&one, sizeof(one), 1, fp);
+    }
+  }
 
   fclose(fp);
 
-- 
2.43.0


From 48435ee015c92099b2a1f63d67d1e333355da2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 31/83] fix: expanding symmetric files that are padded or
 0-based goes by wrong row counts

The padding entries were not counted although they are put into colidx_temp,
and for 0-based files the count of row 0 was kept in rowcnt[0] and hence added
to every row.
---
 COO.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 7440e48..e1fa16c 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -245,7 +245,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   int *colidx_temp, *rowcnt = NULL;
   if (isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
@@ -277,8 +277,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
     ++count;
     ++lines;
-    if (isSymmetric) rowcnt[x]++;
-      // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
   }
   // padding for vectorization
   for (int i = min(origM, origN); i < min(m, n); ++i) {
@@ -294,11 +292,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       rowidx[i]++;
       colidx[i]++;
     }
-    if (isSymmetric) {
-      for (int i = m; i > 0; --i) {
-        rowcnt[i] = rowcnt[i - 1];
-      }
-    } 
   }
 
   if (lines != nnz) {
@@ -310,6 +303,10 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   if (isSymmetric) {
     // add transposed elements only if it doesn't exist
     size_t real_count = count;
+    for (size_t i = 0; i < count; ++i) {
+      rowcnt[rowidx[i]]++;
+        // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
+    }
     // preix-sum
     for (int i = 0; i < m; ++i) {
       rowcnt[i + 1] += rowcnt[i];
-- 
2.43.0


From 4cf88848c6241aeb48b9bf0abc765602493992f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 32/83] fix: padding of 0-based files ends up one row too far

---
 COO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index e1fa16c..d280996 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -280,8 +280,8 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
   // padding for vectorization
   for (int i = min(origM, origN); i < min(m, n); ++i) {
-    rowidx[count] = i + 1;
-    colidx[count] = i + 1;
+    rowidx[count] = i + base;
+    colidx[count] = i + base;
     values[count] = 1;
     ++count;
   }
-- 
2.43.0


From 6c0238a6f34e80e68cc618a9bf3ecddc5119c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 33/83] fix: only the stored half of skew-symmetric files is
 loaded

---
 COO.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index d280996..9e2aff2 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -224,7 +224,8 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   n = (n + pad - 1)/pad*pad;
 
   size_t count;
-  bool isSymmetric = force_symmetric || mm_is_symmetric (matcode) == 1;
+  bool isSkew = mm_is_skew (matcode);
+  bool isSymmetric = force_symmetric || mm_is_symmetric (matcode) == 1 || isSkew;
   if (isSymmetric) {
     count = 2L*nnz;
   }
@@ -333,7 +334,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
             colidx_temp + rowcnt[y - 1], colidx_temp + rowcnt[y], x)) {
           rowidx[real_count] = y;
           colidx[real_count] = x;
-          values[real_count] = values[i];
+          values[real_count] = isSkew ? -values[i] : values[i];
           ++real_count;
         }
       }
@@ -347,7 +348,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   coo.m = m;
   coo.n = n;
   coo.nnz = count;
-  coo.isSymmetric = isSymmetric;
+  coo.isSymmetric = isSymmetric && !isSkew;
   coo.dealloc();
   coo.values = values;
   coo.colidx = colidx;
-- 
2.43.0


From faf54701507969d30848d6a53285a3eef669881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 34/83] fix: loading an array without columns writes in front
 of it

---
 Vector.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..ca2bfca 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -42,16 +42,8 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
 
   *v = MALLOC(double, (*m)*(*n));
 
-  for (int i = 0; i < *m; i++) {
-    for (int j = 0; j < *n - 1; j++) {
-      if (fscanf(fp, "%lg", *v + i*(*n) + j) != 1) {
-        fprintf(stderr, "Error: premature EOF.\n");
-        FREE(*v);
-        fclose(fp);
-        return false;
-      }
-    }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
+  for (int i = 0; i < (*m)*(*n); i++) {
+    if (fscanf(fp, "%lg", *v + i) != 1) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
       fclose(fp);
-- 
2.43.0


From e3a113e2caf34fe39885a97dcced7f0103971059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 35/83] fix: storeBin leaves a 1-based matrix 0-based when the
 file cannot be opened

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 7df77a8..f59cd0c 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -381,6 +381,9 @@ void CSR::storeBin(const char *fileName)
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
+    if (was1Based) {
+      make1BasedIndexing();
+    }
     return;
   }
 
-- 
2.43.0


From 8dc3a08a1f608de96d3e210bfc4adaaa2b2a874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 36/83] fix: storeBin ignores write errors

---
 CSR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index f59cd0c..58e8ff8 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -413,7 +413,11 @@ void CSR::storeBin(const char *fileName)
     }
   }
 
-  fclose(fp);
+  bool failed = ferror(fp);
+  if (fclose(fp) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "Failed to write %s\n", fileName);
+  }
 
   if (was1Based) {
     make1BasedIndexing();
-- 
2.43.0


From a75ffbf4dec4c978624d8164f206124bbb8c3e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 37/83] fix: storeMatrixMarket writes to a null stream when the
 file cannot be opened

---
 CSR.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 58e8ff8..3c1626a 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -285,7 +285,10 @@ void CSR::storeMatrixMarket(const char *fileName) const
   int base = getBase();
 
   FILE *fp = fopen(fileName, "w");
-  assert(fp);
+  if (!fp) {
+    fprintf(stderr, "Failed to open %s\n", fileName);
+    return;
+  }
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
-- 
2.43.0


From 583de299c390cbc845efd61c615f2261cf285fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:48 +0000
Subject: [PATCH 38/83] fix: Matrix Market writers ignore write errors

---
 CSR.cpp   | 6 +++++-
 mm_io.cpp | 7 ++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 3c1626a..0345a0a 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -316,7 +316,11 @@ void CSR::storeMatrixMarket(const char *fileName) const
     }
   }
 
-  fclose(fp);
+  bool failed = ferror(fp);
+  if (fclose(fp) != 0) failed = true;
+  if (failed) {
+    fprintf(stderr, "Failed to write %s\n", fileName);
+  }
 }
 
 static const int MAT_FILE_CLASSID = 1211216;
diff --git a/mm_io.cpp b/mm_io.cpp
index da9edac..163d14e 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -716,7 +716,7 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 */
 {
     FILE *f;
-    int i;
+    int i, ret_code;
 
     if (strcmp(fname, "stdout") == 0) 
         f = stdout;
@@ -754,11 +754,12 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
         return MM_UNSUPPORTED_TYPE;
     }
 
+  ret_code = ferror(f) ? MM_COULD_NOT_WRITE_FILE : 0;
   if ( f !=stdout ) 
   {
-    fclose(f);
+    if (fclose(f) != 0) ret_code = MM_COULD_NOT_WRITE_FILE;
   }
-  return 0;
+  return ret_code;
 }
 /******************************************************************************/
 
-- 
2.43.0


From 1ec326e05cfb5a0763351eae2580769738c736c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 39/83] fix: COO::storeMatrixMarket leaves a stream open

mm_write_mtx_crd opens and closes the file itself.
---
 COO.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 9e2aff2..d5e8302 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -52,12 +52,6 @@ void COO::dealloc()
 
 void COO::storeMatrixMarket(const char *fileName) const
 {
-  FILE *fp = fopen(fileName, "w");
-  if (NULL == fp) {
-    fprintf(stderr, "Fail to open file %s\n", fileName);
-    return;
-  }
-
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
-- 
2.43.0


From f3fabfbcff3578b37c0671e397f69ef78ad2e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 40/83] fix: Matrix Market writers leak the type string

---
 CSR.cpp   | 4 +++-
 mm_io.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 0345a0a..1294828 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -299,7 +299,9 @@ void CSR::storeMatrixMarket(const char *fileName) const
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
-  fprintf(fp, "%s\n", mm_typecode_to_str(matcode));
+  char *typecode = mm_typecode_to_str(matcode);
+  fprintf(fp, "%s\n", typecode);
+  free(typecode);
 
   // print matrix size and nonzeros.
   fprintf(fp, "%d %d %d\n", m, n, rowptr[m] - base);
diff --git a/mm_io.cpp b/mm_io.cpp
index 163d14e..8377e83 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -726,8 +726,10 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 /*
   print banner followed by typecode.
 */
+    char *typecode = mm_typecode_to_str(matcode);
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    fprintf(f, "%s\n", typecode);
+    free(typecode);
 
 /*
   print matrix sizes and nonzeros.
-- 
2.43.0


From 03d0b2e0b4fa45ead710c99adc983b4b003dc1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 41/83] fix: overlong words in a Matrix Market banner overrun
 the stack

Bound each %s by MM_MAX_TOKEN_LENGTH - 1.
---
 mm_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 8377e83..7e4c15f 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -83,7 +83,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) 
         return MM_PREMATURE_EOF;
 
-    if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type, 
+    if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type, 
         storage_scheme) != 5)
         return MM_PREMATURE_EOF;
 
-- 
2.43.0


From 08cce817b65ffa062500b430844193e619810339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 42/83] fix: a non-numeric Matrix Market size line is read
 forever

Nothing consumes what fscanf fails to match, so retrying never gets anywhere.
---
 mm_io.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 7e4c15f..9b7c885 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -208,15 +208,11 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
   }
   else
   {
-    do
-    { 
-      num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF ) 
-      {
-        return MM_PREMATURE_EOF;
-      }
+    num_items_read = fscanf ( f, "%d %d", M, N ); 
+    if ( num_items_read != 2 ) 
+    {
+      return MM_PREMATURE_EOF;
     }
-    while ( num_items_read != 2 );
   }
   return 0;
 }
@@ -455,14 +451,11 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   }
   else
   {
-    do
-    { 
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF) 
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
+    if (num_items_read != 3) 
+    {
+      return MM_PREMATURE_EOF;
+    }
   }
   return 0;
 }
-- 
2.43.0


From 5c9ed32763a251a40266d4c87f829b64a1f03731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 43/83] fix: CSR::alloc goes on with null arrays when memory
 cannot be allocated

The assertions are compiled out of release builds.
---
 CSR.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 1294828..a6ad96e 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -58,16 +58,17 @@ void CSR::alloc(int m, int nnz, bool createSeparateDiagData /*= true*/)
   values = MALLOC(double, nnz);
   diagptr = MALLOC(int, m);
 
-  assert(rowptr != NULL);
-  assert(colidx != NULL);
-  assert(values != NULL);
-  assert(diagptr != NULL);
+  bool failed = !rowptr || !colidx || !values || !diagptr;
 
   if (createSeparateDiagData) {
     idiag = MALLOC(double, m);
     diag = MALLOC(double, m);
-    assert(idiag != NULL);
-    assert(diag != NULL);
+    failed |= !idiag || !diag;
+  }
+
+  if (failed) {
+    fprintf(stderr, "Failed to allocate memory\n");
+    exit(-1);
   }
 
   ownData_ = true;
-- 
2.43.0


From 98bf462bceb59af13b6c7a442887d13d39d45627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 44/83] fix: constructing a CSR from a damaged Matrix Market
 file yields garbage

Exit as when the file cannot be opened; the loader has already reported why.
---
 CSR.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index a6ad96e..b7db971 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -119,7 +119,9 @@ CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/,
   }
   else {
     COO Acoo;
-    loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad);
+    if (!loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad)) {
+      exit(-1);
+    }
 
     alloc(Acoo.m, Acoo.nnz);
 
-- 
2.43.0


From dd66afb65057914e45a5852af380044b23fa994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 45/83] fix: complex matrices are loaded as their real parts

The error message already says only real matrices are supported.
---
 COO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index d5e8302..6aa4cf9 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -193,7 +193,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     return false;
   }
 
-  if (!mm_is_valid (matcode) || mm_is_array (matcode) || mm_is_dense (matcode) ) {
+  if (!mm_is_valid (matcode) || mm_is_array (matcode) || mm_is_dense (matcode) || mm_is_complex (matcode) ) {
     fprintf(stderr, "Error: only support sparse and real matrices.\n");
     fclose(fp);
     return false;
-- 
2.43.0


From 06b27979d4d09bd1a601a42d456ae4520e644dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 46/83] fix: Matrix Market headers with invalid sizes are
 accepted

---
 COO.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/COO.cpp b/COO.cpp
index 6aa4cf9..1fa8437 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -22,6 +22,7 @@ ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
 SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
+#include <climits>
 #include <cstring>
 #include <algorithm>
 
@@ -208,6 +209,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
+  if (m < 0 || n < 0 || nnz < 0 || max(m, n) > INT_MAX - pad) {
+    fprintf(stderr, "Error: invalid matrix size (%d %d %d).\n", m, n, nnz);
+    fclose(fp);
+    return false;
+  }
   if (transpose) {
     assert(!force_symmetric);
     swap(m, n);
-- 
2.43.0


From 278fc5c33ae1ca61dbbad9a835012ad6d58d1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 47/83] fix: non-square files declared symmetric are expanded
 out of bounds

---
 COO.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/COO.cpp b/COO.cpp
index 1fa8437..9b338db 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -232,6 +232,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   else {
     count = nnz;
   }
+  if (isSymmetric && origM != origN) {
+    fprintf(stderr, "Error: a symmetric matrix must be square (%d %d).\n", origM, origN);
+    fclose(fp);
+    return false;
+  }
 
   // allocate memory
   size_t extraCount = min(m, n) - min(origM, origN);
-- 
2.43.0


From 060831cf21fbdfbc85cb1c771d2b973a891fb323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 48/83] fix: Matrix Market files with surplus entries or
 negative indices overrun the arrays

---
 COO.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 9b338db..bd1b033 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -270,7 +270,12 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (lines >= nnz) { // more entries than announced, reported below
+      ++lines;
+      break;
+    }
+
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
       return false;
-- 
2.43.0


From b8109d16a80c9ad74b5105f5caf528673a9c44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 49/83] fix: 0-based files with an index past the last row or
 column overrun the arrays

---
 COO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/COO.cpp b/COO.cpp
index bd1b033..026a2b3 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -302,6 +302,10 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     for (size_t i = 0; i < count; ++i) {
       rowidx[i]++;
       colidx[i]++;
+      if (i < (size_t)lines && (rowidx[i] > origM || colidx[i] > origN)) {
+        fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", rowidx[i] - 1, colidx[i] - 1);
+        return false;
+      }
     }
   }
 
-- 
2.43.0


From b989a429d01bd6356e60c20515b6962d9a5507d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 50/83] fix: a read error at the end of a Matrix Market file
 goes unnoticed

---
 COO.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/COO.cpp b/COO.cpp
index 026a2b3..5d3999d 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -289,6 +289,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     ++count;
     ++lines;
   }
+  if (ferror(fp)) {
+    fprintf(stderr, "Error: could not read %s.\n", file);
+    fclose(fp);
+    return false;
+  }
   // padding for vectorization
   for (int i = min(origM, origN); i < min(m, n); ++i) {
     rowidx[count] = i + base;
-- 
2.43.0


From f8f51bc341490840c3b06849e28afb4c279dee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 51/83] fix: failed Matrix Market loads leak their arrays

---
 COO.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 5d3999d..260d6b3 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -243,18 +243,27 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   double *values = MALLOC(double, count + extraCount);
   int *colidx = MALLOC(int, count + extraCount);
   int *rowidx = MALLOC(int, count + extraCount);
+  int *colidx_temp = NULL, *rowcnt = NULL;
+  auto cleanup = [&]() {
+    FREE(values);
+    FREE(colidx);
+    FREE(rowidx);
+    FREE(colidx_temp);
+    FREE(rowcnt);
+  };
   if (!values || !colidx || !rowidx) {
     fprintf(stderr, "Failed to allocate memory\n");
+    cleanup();
     fclose(fp);
     return false;
   }
 
-  int *colidx_temp, *rowcnt = NULL;
   if (isSymmetric) {
     colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
+      cleanup();
       fclose(fp);
       return false;
     }
@@ -277,6 +286,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
     if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
+      cleanup();
       fclose(fp);
       return false;
     }
@@ -291,6 +301,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
   if (ferror(fp)) {
     fprintf(stderr, "Error: could not read %s.\n", file);
+    cleanup();
     fclose(fp);
     return false;
   }
@@ -309,6 +320,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       colidx[i]++;
       if (i < (size_t)lines && (rowidx[i] > origM || colidx[i] > origN)) {
         fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", rowidx[i] - 1, colidx[i] - 1);
+        cleanup();
         return false;
       }
     }
@@ -317,6 +329,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
             nnz, lines, file);
+    cleanup();
     return false;
   }
     
-- 
2.43.0


From 6dfd940d1f31bece0e8a8a8077fda39607ef8c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 52/83] fix: loadBin trusts whatever it can read

Check the header, the sizes, that everything could be read, and that the
row lengths and columns fit, and leave an empty matrix otherwise.
---
 CSR.cpp | 58 ++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index b7db971..8c7b384 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -116,6 +116,9 @@ CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/,
   else if (l > 4 && !strcmp(fileName + l - 4, ".bin")) {
     assert(!forceSymmetric);
     loadBin(fileName, base);
+    if (!rowptr) {
+      exit(-1);
+    }
   }
   else {
     COO Acoo;
@@ -333,6 +336,7 @@ static const int MAT_FILE_CLASSID = 1211216;
 void CSR::loadBin(const char *file_name, int base /*=0*/)
 {
   dealloc();
+  m = n = 0;
 
   FILE *fp = fopen(file_name, "r");
   if (!fp) {
@@ -340,28 +344,50 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     return;
   }
 
-  int id;
-  fread(&id, sizeof(id), 1, fp);
-  if (MAT_FILE_CLASSID != id) {
-    fprintf(stderr, "Wrong file ID (%d)\n", id);
+  int header[4]; // id, m, n, nnz
+  if (fread(header, sizeof(header[0]), 4, fp) != 4) {
+    fprintf(stderr, "Failed to read %s\n", file_name);
+    fclose(fp);
+    return;
+  }
+  if (MAT_FILE_CLASSID != header[0]) {
+    fprintf(stderr, "Wrong file ID (%d)\n", header[0]);
+    fclose(fp);
+    return;
+  }
+  int nnz = header[3];
+  if (header[1] < 0 || header[1] == INT_MAX || header[2] < 0 || nnz < 0) {
+    fprintf(stderr, "Invalid matrix size (%d %d %d)\n", header[1], header[2], nnz);
+    fclose(fp);
+    return;
   }
 
-  fread(&m, sizeof(m), 1, fp);
-  fread(&n, sizeof(n), 1, fp);
-  int nnz;
-  fread(&nnz, sizeof(nnz), 1, fp);
-
+  m = header[1];
+  n = header[2];
   alloc(m, nnz);
 
-  fread(rowptr + 1, sizeof(rowptr[0]), m, fp);
+  bool valid =
+    fread(rowptr + 1, sizeof(rowptr[0]), m, fp) == (size_t)m &&
+    fread(colidx, sizeof(colidx[0]), nnz, fp) == (size_t)nnz &&
+    fread(values, sizeof(values[0]), nnz, fp) == (size_t)nnz;
+  fclose(fp);
+
   rowptr[0] = 0;
-  for (int i = 1; i < m; ++i) {
-    rowptr[i + 1] += rowptr[i];
+  for (int i = 0; i < m && valid; ++i) {
+    valid = rowptr[i + 1] >= 0 && rowptr[i + 1] <= nnz - rowptr[i];
+    if (valid) rowptr[i + 1] += rowptr[i];
+  }
+  valid = valid && rowptr[m] == nnz;
+  for (int j = 0; j < nnz && valid; ++j) {
+    valid = colidx[j] >= 0 && colidx[j] < n;
+  }
+  if (!valid) {
+    fprintf(stderr, "%s is truncated or damaged\n", file_name);
+    dealloc();
+    m = n = 0;
+    return;
   }
 
-  fread(colidx, sizeof(colidx[0]), nnz, fp);
-  fread(values, sizeof(values[0]), nnz, fp);
-
 #pragma omp parallel for
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i]; j < rowptr[i + 1]; ++j) {
@@ -373,8 +399,6 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     }
   }
 
-  fclose(fp);
-
   if (1 == base) {
     make1BasedIndexing();
   }
-- 
2.43.0


From 6ecd89d09baacfc2fe4168f63f584f865e919e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 53/83] fix: complex arrays are loaded as if they were real

---
 Vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index ca2bfca..2819485 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -28,8 +28,8 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  if (!mm_is_array(matcode)) {
-    fprintf(stderr, "Error: only support arrays.\n");
+  if (!mm_is_array(matcode) || mm_is_complex(matcode) || mm_is_pattern(matcode)) {
+    fprintf(stderr, "Error: only support real arrays.\n");
     fclose(fp);
     return false;
   }
-- 
2.43.0


From 767971e68b76c29481b4ac5d800ec345bb1bc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 54/83] fix: loadVectorMatrixMarket ignores invalid sizes and
 failed allocations

---
 Vector.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index 2819485..7512fb0 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <stdint.h>
 
 #include "Utils.hpp"
 #include "Vector.hpp"
@@ -40,9 +41,21 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  *v = MALLOC(double, (*m)*(*n));
+  if (*m < 0 || *n < 0) {
+    fprintf(stderr, "Error: invalid array size (%d %d).\n", *m, *n);
+    fclose(fp);
+    return false;
+  }
+
+  size_t len = (size_t)*m * *n;
+  *v = len > SIZE_MAX/sizeof(double) ? NULL : MALLOC(double, len);
+  if (!*v) {
+    fprintf(stderr, "Failed to allocate memory\n");
+    fclose(fp);
+    return false;
+  }
 
-  for (int i = 0; i < (*m)*(*n); i++) {
+  for (size_t i = 0; i < len; i++) {
     if (fscanf(fp, "%lg", *v + i) != 1) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
-- 
2.43.0


From 7764035bcc908282256f087b07ab2ca1c332d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 55/83] fix: a read error within the last number of a vector
 file goes unnoticed

---
 Vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vector.cpp b/Vector.cpp
index 7512fb0..b0f8cbd 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -56,7 +56,7 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
   }
 
   for (size_t i = 0; i < len; i++) {
-    if (fscanf(fp, "%lg", *v + i) != 1) {
+    if (fscanf(fp, "%lg", *v + i) != 1 || ferror(fp)) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
       fclose(fp);
-- 
2.43.0


From 58e84bdb389a4c2d17c1d4f307a42a5ace995c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 56/83] fix: an incomplete Matrix Market size line is skipped
 and entries are taken for the size

---
 mm_io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mm_io.cpp b/mm_io.cpp
index 9b7c885..5ff1428 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -208,6 +208,10 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
   }
   else
   {
+    if ( line[strspn ( line, " \t\r\n" )] != '\0' )
+    {
+      return MM_PREMATURE_EOF;
+    }
     num_items_read = fscanf ( f, "%d %d", M, N ); 
     if ( num_items_read != 2 ) 
     {
@@ -451,6 +455,10 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   }
   else
   {
+    if (line[strspn(line, " \t\r\n")] != '\0')
+    {
+      return MM_PREMATURE_EOF;
+    }
     num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
     if (num_items_read != 3) 
     {
-- 
2.43.0


From 03ec6ea6bc59e90db205a3438163c33dec02a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 57/83] fix: half of integer hermitian files is loaded as a
 general matrix

Like real hermitian, the combination is not a valid one.
---
 mm_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 5ff1428..4361afd 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -37,7 +37,7 @@ int mm_is_valid ( MM_typecode matcode )
     return 0;
   }
 
-  if ( mm_is_real ( matcode ) && mm_is_hermitian ( matcode ) ) 
+  if ( ( mm_is_real ( matcode ) || mm_is_integer ( matcode ) ) && mm_is_hermitian ( matcode ) ) 
   {
     return 0;
   }
-- 
2.43.0


From 21d1da1bdf706919bf1117e6d4816125a5565ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 58/83] fix: schedules without transitive reduction free memory
 of the pool

---
 LevelSchedule.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 2044df5..686e6be 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1711,8 +1711,6 @@ void constructTaskGraph_(
         cForward += nparentsForward[i];
         cBackward += nparentsBackward[i];
       }
-      FREE(taskInvAdjacencyLengths);
-
       parentsBuf[0] = schedule->allocate<int>(cForward);
       parentsBuf[1] = schedule->allocate<int>(cBackward);
 
@@ -1737,6 +1735,10 @@ void constructTaskGraph_(
         }
       }
 
+      if (!useMemoryPool) {
+        FREE(taskInvAdjacencyLengths);
+      }
+
       taskAdjacency.~CSR();
       taskInvAdjacency.~CSR();
     } // omp single
-- 
2.43.0


From 68aa2cf7fa0e8d88fa270427fd1533cdcbd0905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 59/83] fix: schedules without transitive reduction leak the
 task graph

---
 LevelSchedule.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 686e6be..a6fb339 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1737,6 +1737,12 @@ void constructTaskGraph_(
 
       if (!useMemoryPool) {
         FREE(taskInvAdjacencyLengths);
+
+        FREE(taskAdjacency.rowptr);
+        FREE(taskAdjacency.colidx);
+
+        FREE(taskInvAdjacency.rowptr);
+        FREE(taskInvAdjacency.colidx);
       }
 
       taskAdjacency.~CSR();
-- 
2.43.0


From e03cbea20e2c27ee0171d48c07742e7917b8a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 60/83] fix: schedules in pool memory leak their fused schedule

It is always allocated by new, also when the pool is used.
---
 LevelSchedule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index a6fb339..d3d8ee9 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -113,9 +113,9 @@ LevelSchedule::~LevelSchedule() {
     FREE(threadContToOrigPerm);
     FREE(parentsBuf[0]);
     FREE(parentsBuf[1]);
-
-    if (fusedSchedule) delete fusedSchedule;
   }
+
+  if (fusedSchedule) delete fusedSchedule;
 }
 
 void LevelSchedule::init_()
-- 
2.43.0


From 5e87a71bc4e9069db464e3ab4a46448e6e361e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 61/83] fix: an exhausted memory pool hands out memory that is
 in use

Return NULL: the assertions are compiled out of release builds, and did not
cover requests larger than the pool.
---
 MemoryPool.cpp | 10 ++++++----
 MemoryPool.hpp |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..0f2cba3 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -126,12 +126,13 @@ size_t MemoryPool::getTail() const
 
 void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 {
+  if (sz > size_) return NULL; // overflow
   sz = (sz + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
     if (tail_ + sz >= size_) { // wrap around
+      if (sz >= head_) return NULL; // overflow
       tail_ = sz;
-      assert(tail_ < head_); // check overflow
       return buffer_;
     }
     else {
@@ -140,7 +141,7 @@ void *MemoryPool::allocate(size_t sz, int align /*=64*/)
     }
   }
   else { // wrapped around
-    assert(tail_ + sz < head_); // check overflow
+    if (tail_ + sz >= head_) return NULL; // overflow
     tail_ += sz;
     return buffer_ + (tail_ - sz);
   }
@@ -148,19 +149,20 @@ void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 
 void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 {
+  if (sz > size_) return NULL; // overflow
   sz = (sz + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
+      if (sz > size_ || size_ - sz <= tail_) return NULL; // overflow
       head_ = size_ - sz;
-      assert(head_ > tail_); // check overflow
     }
     else {
       head_ -= sz;
     }
   }
   else { // wrapped around
-    assert(head_ > tail_ + sz); // check overflow
+    if (head_ <= tail_ + sz) return NULL; // overflow
     head_ -= sz;
   }
 
diff --git a/MemoryPool.hpp b/MemoryPool.hpp
index 3923f7c..eaeacd9 100644
--- a/MemoryPool.hpp
+++ b/MemoryPool.hpp
@@ -66,6 +66,7 @@ public :
   size_t getHead() const;
   size_t getTail() const;
 
+  // return NULL when the pool is exhausted
   void *allocate(size_t sz, int align = 64);
   void *allocateFront(size_t sz, int align = 64);
   void deallocateAll();
-- 
2.43.0


From 39ebf0a406cfeabdb30a6855882c24e864b49ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 62/83] fix: malloc_huge_pages writes to MAP_FAILED when memory
 is exhausted

posix_memalign leaves the pointer alone when it fails.
---
 Utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utils.hpp b/Utils.hpp
index 088cec1..cc486da 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -164,6 +164,7 @@ MAP_PRIVATE | MAP_ANONYMOUS |
 MAP_POPULATE | MAP_HUGETLB, -1, 0);
 if (ptr == MAP_FAILED) {
 // The mmap() call failed. Try to malloc instead
+ptr = NULL;
 posix_memalign((void **)&ptr, 4096, real_size);
 if (ptr == NULL) return NULL;
 real_size = 0;
-- 
2.43.0


From 63a07c7cbfac6b80fdbf781d892956c0a49a1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 63/83] fix: pool blocks are misaligned after blocks or in
 pools of another alignment

Only the size was rounded up, not the position.
---
 MemoryPool.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 0f2cba3..3902e84 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -129,21 +129,23 @@ void *MemoryPool::allocate(size_t sz, int align /*=64*/)
   if (sz > size_) return NULL; // overflow
   sz = (sz + align - 1)/align*align;
 
+  size_t begin = (tail_ + align - 1)/align*align;
+
   if (tail_ >= head_) { // not wrapped around
-    if (tail_ + sz >= size_) { // wrap around
+    if (begin + sz >= size_) { // wrap around
       if (sz >= head_) return NULL; // overflow
       tail_ = sz;
       return buffer_;
     }
     else {
-      tail_ += sz;
-      return buffer_ + (tail_ - sz);
+      tail_ = begin + sz;
+      return buffer_ + begin;
     }
   }
   else { // wrapped around
-    if (tail_ + sz >= head_) return NULL; // overflow
-    tail_ += sz;
-    return buffer_ + (tail_ - sz);
+    if (begin + sz >= head_) return NULL; // overflow
+    tail_ = begin + sz;
+    return buffer_ + begin;
   }
 }
 
@@ -154,16 +156,16 @@ void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
-      if (sz > size_ || size_ - sz <= tail_) return NULL; // overflow
-      head_ = size_ - sz;
+      if (sz > size_ || (size_ - sz)/align*align <= tail_) return NULL; // overflow
+      head_ = (size_ - sz)/align*align;
     }
     else {
-      head_ -= sz;
+      head_ = (head_ - sz)/align*align;
     }
   }
   else { // wrapped around
-    if (head_ <= tail_ + sz) return NULL; // overflow
-    head_ -= sz;
+    if (head_ < sz || (head_ - sz)/align*align <= tail_) return NULL; // overflow
+    head_ = (head_ - sz)/align*align;
   }
 
   return buffer_ + head_;
-- 
2.43.0


From 1cbface8db3d08f19c986751f60bf7029a23d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 64/83] fix: malloc_huge_pages overflows on sizes near the
 address space

---
 Utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utils.hpp b/Utils.hpp
index cc486da..589a987 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -158,6 +158,7 @@ inline void *malloc_huge_pages(size_t size)
 {
 // Use 1 extra page to store allocation metadata
 // (libhugetlbfs is more efficient in this regard)
+if (size > (size_t)-1 - 2*HUGE_PAGE_SIZE) return NULL;
 size_t real_size = ALIGN_TO_PAGE_SIZE(size + HUGE_PAGE_SIZE);
 char *ptr = (char *)mmap(NULL, real_size, PROT_READ | PROT_WRITE,
 MAP_PRIVATE | MAP_ANONYMOUS |
-- 
2.43.0


From 85482d5f3b001a1f208b3a4ab6a9660560059c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 65/83] fix: a memory pool without memory hands out null-based
 addresses

A pool whose memory could not be allocated, or was given back by finalize,
has size 0, so that allocate returns NULL.
---
 MemoryPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 3902e84..46346a2 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -66,7 +66,7 @@ void MemoryPool::initialize(size_t sz)
   {
     buffer_ = (char *)malloc_huge_pages(sz);
   }
-  assert(buffer_);
+  if (!buffer_) size_ = 0;
 }
 
 void MemoryPool::finalize()
@@ -84,6 +84,7 @@ void MemoryPool::finalize()
     }
   }
   buffer_ = NULL;
+  size_ = 0;
   head_ = 0;
   tail_ = 0;
 }
-- 
2.43.0


From 019378356fc9d6145c54fb5a82f1668c9a349d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 66/83] fix: the balanced partition overflows near INT_MAX
 non-zeros

The work targets of the threads were computed in int; with a total close
to INT_MAX they wrapped and one thread got everything.
---
 Utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..09b2c3f 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -50,9 +50,9 @@ void getLoadBalancedPartition(int *begin, int *end, const int *prefixSum, int n)
   int nthreads = omp_get_num_threads();
   int tid = omp_get_thread_num();
 
-  int base = prefixSum[0];
-  int total_work = prefixSum[n] - base;
-  int work_per_thread = (total_work + nthreads - 1)/nthreads;
+  long base = prefixSum[0];
+  long total_work = prefixSum[n] - base;
+  long work_per_thread = (total_work + nthreads - 1)/nthreads;
 
   *begin = tid == 0 ? 0 : lower_bound(prefixSum, prefixSum + n, work_per_thread*tid + base) - prefixSum;
   *end = tid == nthreads - 1 ? n : lower_bound(prefixSum, prefixSum + n, work_per_thread*(tid + 1) + base) - prefixSum;
-- 
2.43.0


From d4df235428fec605f0d8da45920e06ce16d510a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 67/83] fix: the even partition overflows near INT_MAX elements

n + nthreads - 1 and n_per_thread*tid wrapped to negative ranges.
---
 Utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 09b2c3f..ffdcdb1 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -39,10 +39,10 @@ void getSimpleThreadPartition(int* begin, int *end, int n)
   int nthreads = omp_get_num_threads();
   int tid = omp_get_thread_num();
 
-  int n_per_thread = (n + nthreads - 1)/nthreads;
+  long n_per_thread = ((long)n + nthreads - 1)/nthreads;
 
-  *begin = std::min(n_per_thread*tid, n);
-  *end = std::min(*begin + n_per_thread, n);
+  *begin = std::min<long>(n_per_thread*tid, n);
+  *end = std::min<long>(*begin + n_per_thread, n);
 }
 
 void getLoadBalancedPartition(int *begin, int *end, const int *prefixSum, int n)
-- 
2.43.0


From 5abdbd9ef9a9bbb0274bc7f411c7b10b76bf6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 68/83] fix: parMemset and parMemcpy fail on blocks of 2 GB and
 more

The byte offsets of the threads were computed in int.
---
 Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index ffdcdb1..659df28 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -70,8 +70,8 @@ void parMemset(void *ptr, int c, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memset((char *)ptr + nBegin, c, nEnd - nBegin);
   }
@@ -85,8 +85,8 @@ void parMemcpy(void *dst, const void *src, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memcpy((char *)dst + nBegin, (char *)src + nBegin, nEnd - nBegin);
   }
-- 
2.43.0


From d5db0de76cb22425456267bac0116a14ca61a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 69/83] fix: isPerm accepts values out of range and leaks when
 it rejects

Only duplicates were looked for, so n distinct values of which some lie
outside 0..n-1 passed for a permutation.
---
 Utils.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 659df28..f49d110 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -105,22 +105,17 @@ bool isPerm(const int *perm, int n)
   int *temp = new int[n];
   memcpy(temp, perm, sizeof(int)*n);
   sort(temp, temp + n);
-  int *last = unique(temp, temp + n);
-  if (last != temp + n) {
-    memcpy(temp, perm, sizeof(int)*n);
-    sort(temp, temp + n);
-
-    for (int i = 0; i < n; ++i) {
-      if (temp[i] == i - 1) {
+  for (int i = 0; i < n; ++i) {
+    if (temp[i] != i) {
+      if (i > 0 && temp[i] == i - 1) {
         printf("%d duplicated\n", i - 1);
-        assert(false);
-        return false;
       }
-      else if (temp[i] != i) {
+      else {
         printf("%d missed\n", i);
-        assert(false);
-        return false;
       }
+      assert(false);
+      delete[] temp;
+      return false;
     }
   }
   delete[] temp;
-- 
2.43.0


From 70daa9c51f7cf58daa8186bbd4b14d3d9d8be526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 70/83] fix: the memory of transposed matrices is never
 released

The result of transpose() was marked as not owning the arrays allocated
for it.
---
 CSR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CSR.cpp b/CSR.cpp
index 8c7b384..f53021e 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -554,6 +554,7 @@ CSR *CSR::transpose() const
   int nnz = getNnz();
 
   CSR *AT = new CSR();
+  AT->ownData_ = true;
 
   AT->m = n;
   AT->n = m;
-- 
2.43.0


From 7826deb2d07ad8fd4fab965eb02718a3893c78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 71/83] fix: the memory of permuted matrices is never released

The results of permute(), permuteRows() and permuteRowptr() were marked
as not owning the arrays allocated for them.
---
 Permute.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Permute.cpp b/Permute.cpp
index 3d2b2d6..9504a51 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -81,6 +81,7 @@ void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 CSR *CSR::permuteRowptr(const int *inversePerm) const
 {
   CSR *ret = new CSR();
+  ret->ownData_ = true;
 
   ret->m = m;
   ret->n = n;
-- 
2.43.0


From 53ca4442b347494746361899fcc7269570b4b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 72/83] fix: the memory of the factors made by splitLU is never
 released

The outputs stayed marked as not owning the arrays allocated for them.
---
 CSR.hpp   | 2 ++
 SymGS.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/CSR.hpp b/CSR.hpp
index c9722cd..af2b7b2 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -188,6 +188,8 @@ public:
     }
   }
 
+  friend void splitLU(CSR& A, CSR *L, CSR *U);
+
 private:
   bool ownData_;
 }; // CSR
diff --git a/SymGS.cpp b/SymGS.cpp
index 1d68a13..21df2dd 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -16,6 +16,7 @@ void splitLU(CSR& A, CSR *L, CSR *U)
 
   L->dealloc();
   U->dealloc();
+  L->ownData_ = U->ownData_ = true;
 
   L->m = U->m = A.m;
   L->n = U->n = A.n;
-- 
2.43.0


From 3adcb7e532237b44b14b7a30a7ef52f09fb07ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 73/83] fix: the memory of generated grid matrices is never
 released

A matrix that owned no data stayed marked so although arrays were
allocated for it.
---
 CSR.hpp       | 1 +
 Laplacian.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CSR.hpp b/CSR.hpp
index af2b7b2..fa0dae1 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -189,6 +189,7 @@ public:
   }
 
   friend void splitLU(CSR& A, CSR *L, CSR *U);
+  friend void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base);
 
 private:
   bool ownData_;
diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..64294a7 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -29,6 +29,7 @@ namespace SpMP
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   A->dealloc();
+  A->ownData_ = true;
 
   A->m = A->n = nx*ny*nz;
   A->rowptr = MALLOC(int, A->m + 1);
-- 
2.43.0


From 11fb8aa4d0df7da54b15591b42198cb1cd3e8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 74/83] fix: RCM and BFS orderings leak the connected
 components

---
 reordering/RCM.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index f0b3ab4..b88cb1b 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -951,6 +951,10 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   delete[] children_array;
   delete[] write_offset;
   delete[] prefixSum_array;
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
 
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
@@ -1115,6 +1119,11 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
 
   timeSecondPhase += omp_get_wtime();
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
-- 
2.43.0


From 78ad7b5842272d2969431293e69149b399e7f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 75/83] fix: constructing a schedule again leaks the former
 task graph

Only the two permutations were released, with FREE even if they lie in
the memory pool.
---
 LevelSchedule.cpp | 14 ++++++++++++--
 LevelSchedule.hpp |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index d3d8ee9..887fa97 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -100,6 +100,11 @@ LevelSchedule::LevelSchedule()
 }
 
 LevelSchedule::~LevelSchedule() {
+  dealloc_();
+}
+
+void LevelSchedule::dealloc_()
+{
   if (!useMemoryPool) {
     FREE(nparentsForward);
     FREE(nparentsBackward);
@@ -116,6 +121,11 @@ LevelSchedule::~LevelSchedule() {
   }
 
   if (fusedSchedule) delete fusedSchedule;
+
+  nparentsForward = nparentsBackward = NULL;
+  parentsForward = parentsBackward = NULL;
+  taskFinished = NULL;
+  init_();
 }
 
 void LevelSchedule::init_()
@@ -761,8 +771,6 @@ void findLevels_(
     threadBoundaries[tid + 1] += threadBoundaries[tid];
   }
 
-  FREE(schedule->origToThreadContPerm);
-  FREE(schedule->threadContToOrigPerm);
   schedule->origToThreadContPerm = schedule->allocate<int>(m + 64);
   schedule->threadContToOrigPerm = schedule->allocate<int>(m + 64);
   int *origToThreadContPerm = schedule->origToThreadContPerm;
@@ -1805,6 +1813,8 @@ void LevelSchedule::constructTaskGraph(
   const int *rowptr, const int *diagptr, const int *extptr, const int *colidx,
   const CostFunction& costFunction)
 {
+  dealloc_();
+
   if (0 == rowptr[0]) {
     return constructTaskGraph_<0>(this, m, rowptr, diagptr, extptr, colidx, costFunction);
   }
diff --git a/LevelSchedule.hpp b/LevelSchedule.hpp
index d70f843..43bb40d 100644
--- a/LevelSchedule.hpp
+++ b/LevelSchedule.hpp
@@ -248,6 +248,7 @@ public :
 protected:
 
   void init_();
+  void dealloc_();
 };
 
 /**
-- 
2.43.0


From 84586e57f37c3dcdee62bc9fccc60fa50768fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 76/83] fix: grids of thickness 1 in x or y give a broken
 Laplacian

The stencil width in x and y was derived from the thickness in z, so row
pointers and entries disagreed.
---
 Laplacian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Laplacian.cpp b/Laplacian.cpp
index 64294a7..1e78ea1 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -67,11 +67,11 @@ void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   for (int iz = 0; iz < nz; ++iz) {
     int dz = (iz >= 1 && iz < nz - 1) ? 3 : (nz == 1 ? 1 : 2);
     for (int iy = 0; iy < ny; ++iy) {
-      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (nz == 1 ? 1 : 2))*dz;
+      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (ny == 1 ? 1 : 2))*dz;
       for (int ix = 0; ix < nx; ++ix) {
         int row = (iz*ny + iy)*nx + ix;
 
-        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nz == 1 ? 1 : 2);
+        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nx == 1 ? 1 : 2);
         idx += dx*dy;
         A->rowptr[row + 1] = idx;
       } // ix
-- 
2.43.0


From 132712dbbb121511dd7c743c30a9fce0127af410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 77/83] fix: isSymmetric() reads the values of matrices that
 have none

checkValues is on by default.
---
 CSR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CSR.cpp b/CSR.cpp
index f53021e..574f433 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -185,6 +185,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
   const int *extptr = this->extptr ? this->extptr - base : rowptr + 1;
   const int *colidx = this->colidx - base;
   const double *values = this->values ? this->values - base : NULL;
+  if (!values) checkValues = false;
 
   if (!printFirstNonSymmetry) {
     volatile bool isSymmetric = true;
-- 
2.43.0


From a4ab02cc64acbf2aa8194f52abd688f3d5dd1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 78/83] fix: rows of zero cost at the end of a level fall out
 of the schedule

With a cost function that returns 0 for the last rows of a level, the last
thread's share ended before the level did: the rows belonged to no task, or
(with aggregateForVectorization) the shift loop ran with t == nthreads and
read past the array. The last thread now always takes what is left.
---
 LevelSchedule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 887fa97..eb69170 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -673,7 +673,9 @@ void findLevels_(
     nnz = 0;
     int t;
     for (t = 0; t < nthreads; ++t) {
-      int newr = lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
+      // the last thread takes what is left, including rows of zero cost
+      int newr = t == nthreads - 1 ? levelEnd :
+        lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
       if (aggregateForVectorization) {
         // make task size a multiple of 8 as much as possible
         if (0 == t) {
-- 
2.43.0


From 84618cca1c4eb87fdab72271c9d867efcb935c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 79/83] fix: dependency counts of hub tasks overflow short

A row coupled to more than 32767 tasks of another thread has more parents
(or children) than nparentsForward/nparentsBackward can hold.  Tasks of a
thread run in order, so such a list is cut down to one task per thread.
---
 LevelSchedule.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index eb69170..a045877 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -24,6 +24,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <cstring>
 #include <cassert>
+#include <climits>
 #include <cmath>
 #include <algorithm>
 #include <omp.h>
@@ -1111,6 +1112,13 @@ void constructTaskGraph_(
         if (v2 == oldV2) continue;
         oldV2 = v2;
 
+        // more dependencies than short nparents can count:
+        // the first child in each thread implies the rest
+        if (size > SHRT_MAX && l > 0 &&
+            v2 < *upper_bound(threadBoundaries.begin(), threadBoundaries.end(), adjList[l - 1])) {
+          continue;
+        }
+
         adjList[l] = v2;
         ++l;
 
@@ -1165,9 +1173,21 @@ void constructTaskGraph_(
   }
 
   for (int task = v1Begin; task < v1End; ++task) {
-    sort(
-      taskInvAdjacency.colidx + taskInvAdjacency.rowptr[task],
-      taskInvAdjacency.colidx + taskInvAdjacency.rowptr[task] + taskInvAdjacencyLengths[task]);
+    int *invAdj = taskInvAdjacency.colidx + taskInvAdjacency.rowptr[task];
+    int invAdjSize = taskInvAdjacencyLengths[task];
+    sort(invAdj, invAdj + invAdjSize);
+
+    // the last parent in each thread implies the rest
+    if (invAdjSize > SHRT_MAX) {
+      int l = 0;
+      for (int i = 0; i < invAdjSize; ++i) {
+        if (i == invAdjSize - 1 ||
+            invAdj[i + 1] >= *upper_bound(threadBoundaries.begin(), threadBoundaries.end(), invAdj[i])) {
+          invAdj[l++] = invAdj[i];
+        }
+      }
+      taskInvAdjacencyLengths[task] = l;
+    }
   }
 
   //t5 = __rdtsc() - tempTimer;
@@ -1555,7 +1575,7 @@ void constructTaskGraph_(
           int *itr2 = &tempAdj[0];
           int *itr2End = itr2 + size;
 
-          bool toRemove = false;
+          bool toRemove = !binary_search(itr1, itr1End, j);
 
           if (itr2 != itr2End) {
             itr1 = lower_bound(itr1, itr1End, *itr2);
-- 
2.43.0


From b4d7a4ea93ec7fb14f592029c43d6c6f406d4e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 80/83] fix: serial levels overflow the enlarged queue of
 thread 0

When a parallel level made thread 0 grow its queue, a later level that is
searched serially may discover more rows than the grown queue holds.
---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index a045877..084a135 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -428,7 +428,7 @@ void findLevels_(
       }
       maxDiscovered = min(maxDiscovered, m);
       if (maxDiscovered + 1 > capacity) {
-        capacity = maxDiscovered + 1;
+        capacity = (0 == tid ? m : maxDiscovered) + 1; // thread 0 also keeps serial levels in it
         largeQ.resize(capacity);
         largeRowPtrs.resize(capacity);
         q[tid] = &largeQ[0];
-- 
2.43.0


From b16fece12c11440e8aa91484dca4cfaccdbc0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 81/83] fix: printing a pattern matrix reads missing values

---
 CSR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 574f433..0f2a27e 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -834,7 +834,7 @@ void CSR::print() const
   int base = getBase();
   for (int i = 0; i < m; i++) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; j++) {
-      printf("%d %d %g\n", i + base, colidx[j], values[j]);
+      printf("%d %d %g\n", i + base, colidx[j], values ? values[j] : 1.);
     }
   }
 }
-- 
2.43.0


From 5059be088b9bc2417a5fdf2e7a385fd5ec729168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 82/83] fix: connected components of a matrix without rows

With no node to look at, the first component size was written to an empty array.
---
 reordering/ConnectedComponents.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index b8694bc..bd1ddc5 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -120,6 +120,17 @@ void findConnectedComponents_(
     delete[] nodesToFindArray;
   } // WITH_BIT_VECTOR
 
+  if (0 == m) { // no node, no component
+    *compToRoot = new int[0];
+    *compSizes = new int[0];
+    *compSizePrefixSum = new int[0];
+
+    delete[] p;
+    delete[] rootToComp;
+    if (nodesToFind) delete[] nodesToFind;
+    return;
+  }
+
 #pragma omp parallel
   {
   int tid = omp_get_thread_num();
-- 
2.43.0


From 5739247a5b5cb5597c63ec0c4a74c370288d6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 83/83] fix: BFS permutation of a matrix without rows

The search started from node 0 even when there is none.
---
 reordering/RCM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index b88cb1b..deacf26 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -986,6 +986,8 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
   }
   assert(isSymmetric(false)); // check structural symmetry
 
+  if (0 == m) return; // no node to start from
+
   BitVector bv(m);
 
   bfsAuxData aux(m);
-- 
2.43.0

