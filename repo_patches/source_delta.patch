From dd5dee629afdf084cea5c9fc21d2756020047543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 01/54] fix: sawtooth upper bound must not be loosened by a
 backup

The initial fast informed bound is not uniformly improvable, so the first
backup at a corner belief (or at a node) could replace the stored upper
bound by a larger value.
---
 src/pomdpBounds/SawtoothUpperBound.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 033e627..dc81fbf 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -26,6 +26,7 @@
 #include <stdlib.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <iostream>
 #include <list>
 
@@ -74,7 +75,9 @@ void SawtoothUpperBound::initNodeBound(MDPNode &cn) {
 }
 
 void SawtoothUpperBound::update(MDPNode &cn, int *maxUBActionP) {
-  double newUBVal = getNewUBValue(cn, maxUBActionP);
+  // the fast informed bound is not uniformly improvable, so a backup can
+  // come out looser than the bound we already have; keep the tighter one
+  double newUBVal = std::min(getNewUBValue(cn, maxUBActionP), cn.ubVal);
   setUBForNode(cn, newUBVal, true);
 }
 
-- 
2.43.0


From 7588053b903dd0e93dbf43bb1dd8bc6313db442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 02/54] fix: state hash keys must not be truncated or left over
 from an earlier call

---
 src/common/MatrixUtils.h | 51 +++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index c2dfd2a..43e7c1b 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -189,39 +189,36 @@ inline int chooseFromDistribution(const cvector &b) {
   return 0;
 }
 
-inline const char *hashable(const dvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
-
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
+// Appends the text that identifies one vector entry to a hash key.  Entries
+// that do not fit in HASH_VECTOR_LEN characters (large indices or values)
+// must not be truncated, or distinct vectors could share a key.
+inline void appendHashEntry(std::string &key, int i, double val) {
+  char buf[HASH_VECTOR_LEN];
+  unsigned int len =
+      snprintf(buf, sizeof(buf), HASH_VECTOR_PRECISION, i, val);
+  if (len < sizeof(buf)) {
+    key.append(buf, len);
+  } else {
+    std::vector<char> longBuf(len + 1);
+    snprintf(&longBuf[0], longBuf.size(), HASH_VECTOR_PRECISION, i, val);
+    key.append(&longBuf[0], len);
   }
+}
 
-  char *pos = buf;
-  FOR(i, b.size()) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, i, b(i));
-  }
-  return buf;
+inline const char *hashable(const dvector &b) {
+  static std::string key;
+
+  key.clear();
+  FOR(i, b.size()) { appendHashEntry(key, i, b(i)); }
+  return key.c_str();
 }
 
 inline const char *hashable(const cvector &b) {
-  static char *buf = NULL;
-  static unsigned int n = 0;
-
-  if (b.size() > n) {
-    n = b.size();
-    if (NULL != buf) delete[] buf;
-    buf = new char[n * HASH_VECTOR_LEN + 1];
-  }
+  static std::string key;
 
-  char *pos = buf;
-  FOR_CV(b) {
-    pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, CV_INDEX(b),
-                    CV_VAL(b));
-  }
-  return buf;
+  key.clear();
+  FOR_CV(b) { appendHashEntry(key, CV_INDEX(b), CV_VAL(b)); }
+  return key.c_str();
 }
 
 // Calculates the average and standard deviation for a collection.
-- 
2.43.0


From 51d35ebd245e87513818dcebd9a9dbaba43837ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 03/54] fix: matrix-vector product must have as many entries as
 the matrix has rows

---
 src/common/sla.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/sla.h b/src/common/sla.h
index 676163d..29b39c4 100644
--- a/src/common/sla.h
+++ b/src/common/sla.h
@@ -701,7 +701,7 @@ inline void mult(dvector &result, const cmatrix &A, const cvector &x) {
   int xind;
   double xval;
 
-  result.resize(x.size());
+  result.resize(A.size1());
 
   FOR_EACH(xi, x.data) {
     xind = xi->index;
@@ -729,19 +729,19 @@ inline void mult(cvector &result, const cmatrix &A, const cvector &x) {
     cvector tmp;
     cvector accum;
 
-    accum.resize(x.size());
+    accum.resize(A.size1());
     FOR_EACH(xi, x.data) {
       xind = xi->index;
       xval = xi->value;
       col_end = A.data.begin() + A.col_starts[xind + 1];
-      tmp.resize(x.size());
+      tmp.resize(A.size1());
       for (Ai = A.data.begin() + A.col_starts[xind]; Ai != col_end; Ai++) {
         tmp.push_back(Ai->index, xval * Ai->value);
       }
       accum += tmp;
     }
 
-    result.resize(x.size());
+    result.resize(A.size1());
     FOR_EACH(ai, accum.data) {
       if (fabs(ai->value) > SPARSE_EPS) {
         result.data.push_back(*ai);
-- 
2.43.0


From 4e5526ac8f632b87c7a6ffc1e58eb7afb2e8fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 04/54] fix: a model file without reward statements must not
 abort the full parser

---
 src/parsers/decision-tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/decision-tree.c b/src/parsers/decision-tree.c
index 7158131..292eae9 100644
--- a/src/parsers/decision-tree.c
+++ b/src/parsers/decision-tree.c
@@ -342,6 +342,9 @@ double dtGet(int action, int cur_state, int next_state, int obs) {
   vec[2] = next_state;
   vec[3] = obs;
 
+  /* no reward entry was ever given, so dtInit() was not called: all are 0 */
+  if (NULL == gTree) return 0;
+
   return dtGetInternal(gTree, vec, 0);
 }
 
-- 
2.43.0


From 4371eef25045063b39058fe90913d9306285cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 05/54] fix: relaxation upper bound must discount path costs,
 or discounted racetracks never finish initialising

---
 src/bounds/RelaxUBInitializer.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bounds/RelaxUBInitializer.cc b/src/bounds/RelaxUBInitializer.cc
index 5b0513b..1dca97a 100644
--- a/src/bounds/RelaxUBInitializer.cc
+++ b/src/bounds/RelaxUBInitializer.cc
@@ -18,6 +18,7 @@
 #include "RelaxUBInitializer.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -37,6 +38,7 @@ using namespace sla;
 using namespace MatrixUtils;
 
 #define OBS_IS_ZERO_EPS (1e-10)
+#define RELAX_PRIO_EPS (1e-10)
 
 namespace zmdp {
 
@@ -154,9 +156,11 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   double maxUBVal, secondBestUBVal;
   int maxUBAction = getMaxUBAction(cn, &maxUBVal, &secondBestUBVal);
 
-  // check for termination
-  double actionPrio = costSoFar + cn.ubVal;
-  if (altActionPrio > actionPrio) {
+  // check for termination (all costs are discounted to the root of the trial;
+  // the slack absorbs rounding error in the comparison)
+  double discountFactor = pow(problem->getDiscount(), depth);
+  double actionPrio = costSoFar + discountFactor * cn.ubVal;
+  if (altActionPrio > actionPrio + RELAX_PRIO_EPS) {
     if (zmdpDebugLevelG >= 1) {
       printf(
           "  RB trialRecurse: depth=%d [%g .. %g] costSoFar=%g "
@@ -191,9 +195,10 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   }
 
   // recurse to successor
-  double nextCostSoFar = costSoFar + cn.Q[maxUBAction].immediateReward;
+  double nextCostSoFar =
+      costSoFar + discountFactor * cn.Q[maxUBAction].immediateReward;
   double nextAltActionPrio =
-      std::max(altActionPrio, secondBestUBVal + costSoFar);
+      std::max(altActionPrio, costSoFar + discountFactor * secondBestUBVal);
   trialRecurse(cn.getNextState(maxUBAction, bestOutcome), nextCostSoFar,
                nextAltActionPrio, depth + 1);
 
-- 
2.43.0


From d90b8d2feb3d919cf7182bc4f8352942a4e6719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 06/54] fix: carry a full second when adding times

---
 src/common/zmdpCommonTime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/zmdpCommonTime.cc b/src/common/zmdpCommonTime.cc
index 1f41e04..75c9df5 100644
--- a/src/common/zmdpCommonTime.cc
+++ b/src/common/zmdpCommonTime.cc
@@ -77,7 +77,7 @@ timeval operator+(const timeval &a, const timeval &b) {
   timeval result;
   result.tv_sec = a.tv_sec + b.tv_sec;
   result.tv_usec = a.tv_usec + b.tv_usec;
-  if (result.tv_usec > 1000000) {
+  if (result.tv_usec >= 1000000) {
     result.tv_sec++;
     result.tv_usec -= 1000000;
   }
-- 
2.43.0


From 40fe68a6e9cf4438b8aa0e4fc7d7553c2c8f3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 07/54] fix: keep microseconds normalised when converting
 negative or long times

---
 src/common/zmdpCommonTime.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/zmdpCommonTime.cc b/src/common/zmdpCommonTime.cc
index 75c9df5..1b47065 100644
--- a/src/common/zmdpCommonTime.cc
+++ b/src/common/zmdpCommonTime.cc
@@ -22,6 +22,7 @@
 #include "zmdpCommonTime.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
@@ -53,8 +54,14 @@ double StopWatch::elapsedTime(void) {
 
 struct timeval secondsToTimeval(double d) {
   timeval a;
-  a.tv_sec = static_cast<int>(d);
-  a.tv_usec = static_cast<int>(1e+6 * (d - a.tv_sec));
+  // round down so that tv_usec is in [0, 1000000) for negative times too
+  double sec = floor(d);
+  a.tv_sec = static_cast<time_t>(sec);
+  a.tv_usec = static_cast<int>(1e+6 * (d - sec));
+  if (a.tv_usec >= 1000000) {
+    a.tv_sec++;
+    a.tv_usec -= 1000000;
+  }
   return a;
 }
 
-- 
2.43.0


From 4aea15d513e4caf4cd109ba036337b1952aa30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 08/54] fix: never sample an impossible outcome, or abort, when
 the random number is at an end of [0,1]

---
 src/common/MatrixUtils.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index 43e7c1b..271ab42 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -155,38 +155,48 @@ inline int argmax_elt(const cvector &v) {
   }
 }
 
+// How far the sum of an outcome distribution may be from 1.  The parsers
+// accept rows of T and O that are off by 1e-5.
+#define PROB_SUM_EPS (1e-4)
+
 // b represents a discrete probability distribution Pr(outcome = i) = b(i).
 // Chooses an outcome according to the distribution.
 inline int chooseFromDistribution(const dvector &b) {
   double r = unit_rand();
+  int last = 0;
   FOR(i, b.size()) {
+    if (b(i) <= 0) continue;  // never choose an impossible outcome
     r -= b(i);
     if (r <= 0) return i;
+    last = i;
   }
-  if (r >= 1e-10) {
+  if (r >= PROB_SUM_EPS) {
     // should never reach this point if b is normalized properly
-    //   (up to round-off error)
+    //   (up to round-off error and the tolerance of the model parser)
     printf("chooseFromDistribution: b=%s 1-sum(b)=%g\n", denseRep(b).c_str(),
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 inline int chooseFromDistribution(const cvector &b) {
   double r = unit_rand();
+  int last = 0;
   FOR_CV(b) {
+    if (CV_VAL(b) <= 0) continue;  // never choose an impossible outcome
     r -= CV_VAL(b);
     if (r <= 0) return CV_INDEX(b);
+    last = CV_INDEX(b);
   }
-  if (r >= 1e-10) {
+  if (r >= PROB_SUM_EPS) {
     // should never reach this point if b is normalized properly
-    //   (up to round-off error)
+    //   (up to round-off error and the tolerance of the model parser)
     printf("chooseFromDistribution: b=%s 1-sum(b)=%g\n", sparseRep(b).c_str(),
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return last;
 }
 
 // Appends the text that identifies one vector entry to a hash key.  Entries
-- 
2.43.0


From b50dfa91010cd6902aa793a4122203a7afd366ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 09/54] fix: a simulated search step could follow a NULL
 outcome when outcome probabilities sum to less than the random number

---
 src/bounds/BoundPairCore.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bounds/BoundPairCore.cc b/src/bounds/BoundPairCore.cc
index 9fcf7e0..d167876 100644
--- a/src/bounds/BoundPairCore.cc
+++ b/src/bounds/BoundPairCore.cc
@@ -67,11 +67,9 @@ int BoundPairCore::getSimulatedOutcome(MDPNode &cn, int a) {
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
+      result = o;  // if round-off leaves r > 0, keep the last possible outcome
       r -= e->obsProb;
-      if (r <= 0) {
-        result = o;
-        break;
-      }
+      if (r <= 0) break;
     }
   }
 
-- 
2.43.0


From bcc91836e38cb7f67f5e91bcc5db5dc549c694b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 10/54] fix: bootstrap resampling read past the samples when
 the random number is 1

---
 src/common/MatrixUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index 271ab42..656a8e4 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -283,7 +283,7 @@ inline void calc_bootstrap_mean_quantile(const dvector &vals, double alpha,
   for (int i = 0; i < numBootstrapSamples; i++) {
     sum = 0.0;
     for (int j = 0; j < n; j++) {
-      int k = static_cast<int>(unit_rand() * n);
+      int k = std::min(static_cast<int>(unit_rand() * n), n - 1);
       sum += vals(k);
     }
     bvals(i) = sum / n;
-- 
2.43.0


From 24dd93f56f2e1865e9beb954d67c0b5f24900ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 11/54] fix: cached policy evaluation repeated the action of an
 earlier visit for executives with a state of their own

---
 src/exec/PolicyEvaluator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 83ffa45..1b7a0d3 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -193,7 +193,9 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
          (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
          j++) {
       int a;
-      if (-1 == simState->userInt) {
+      // the simulator's state determines the action only if the executive
+      // tracks the same state
+      if (!assumeIdenticalModels || -1 == simState->userInt) {
         a = exec->chooseAction();
         simState->userInt = a;
       } else {
-- 
2.43.0


From 3118593e2f30a562912dc575eac4cd0d6a7d2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 12/54] fix: reading an alpha-vector file appended a bogus
 constant plane at end of file

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index abd2778..8409b1c 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -691,8 +691,7 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   mask_set_all(plane.mask, pomdp->numStates);
   plane.numBackupsAtCreation = -1;
 
-  while (!inFile.eof()) {
-    inFile >> plane.action;
+  while (inFile >> plane.action) {
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-- 
2.43.0


From f8d15e8633188e6a0b43621c9b689a413165b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 13/54] fix: reading a state index dropped states whose entries
 are all zero, shifting all later state numbers

---
 src/search/StateLog.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index cd31ca8..bdf9068 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -121,6 +121,7 @@ void StateIndex::readFromFile(const std::string &inFile) {
   int id;
   double val;
   int lnum = 0;
+  bool inState = false;
   while (!in.eof()) {
     in.getline(buf, sizeof(buf));
     lnum++;
@@ -131,11 +132,13 @@ void StateIndex::readFromFile(const std::string &inFile) {
     if ('#' == s[0]) continue;
 
     if (string::npos != s.find("state")) {
-      if (accum.filled() > 0) {
+      // (a state whose entries are all 0 has no entry lines)
+      if (inState) {
         accum.canonicalize();
         getStateId(accum);
         accum.clear();
       }
+      inState = true;
     } else {
       if (2 != sscanf(s.c_str(), "%d %lf", &id, &val)) {
         fprintf(stderr,
@@ -148,7 +151,7 @@ void StateIndex::readFromFile(const std::string &inFile) {
   }
 
   // fold in last state
-  if (accum.filled() > 0) {
+  if (inState) {
     accum.canonicalize();
     getStateId(accum);
     accum.clear();
-- 
2.43.0


From b1d19ffd3ce3cf0112d262e62e69291601b69e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 14/54] fix: zeros in a reward matrix override earlier rewards
 in the full parser

The matrix form of the R statement was added to the reward tree from its
sparse representation, so an entry written as 0 left an earlier value in
place although later statements override earlier ones.
---
 src/parsers/imm-reward.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index fbd6af2..1627e91 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -260,7 +260,8 @@ void enterImmReward(int cur_state, int next_state, int obs, double value) {
 } /* enterImmReward */
 /**********************************************************************/
 void irAddToDecisionTree(Imm_Reward_List node) {
-  int i, j, k;
+  int i, j, k, num_cols;
+  double val;
   Matrix m;
 
   assert(node != NULL);
@@ -295,14 +296,23 @@ void irAddToDecisionTree(Imm_Reward_List node) {
       break;
 
     case ir_matrix:
+      /* the sparse matrix only holds the non-zero entries, but the zeros
+         written in the file override earlier values as well */
       m = node->rep.matrix;
+      num_cols = (gProblemType == POMDP_problem_type) ? gNumObservations
+                                                      : gNumStates;
       for (i = 0; i < m->num_rows; i++) {
-        for (j = 0; j < m->row_length[i]; j++) {
-          k = m->row_start[i] + j;
+        k = m->row_start[i];
+        for (j = 0; j < num_cols; j++) {
+          val = 0.0;
+          if (k < m->row_start[i] + m->row_length[i] && m->col[k] == j) {
+            val = m->mat_val[k];
+            k++;
+          }
           if (gProblemType == POMDP_problem_type) { /* pomdp */
-            dtAdd(node->action, node->cur_state, i, m->col[k], m->mat_val[k]);
+            dtAdd(node->action, node->cur_state, i, j, val);
           } else { /* mdp */
-            dtAdd(node->action, i, m->col[k], WILDCARD_SPEC, m->mat_val[k]);
+            dtAdd(node->action, i, j, WILDCARD_SPEC, val);
           }
         }
       }
-- 
2.43.0


From bc5b9ad490313a14c0efb3806215146599af6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 15/54] fix: the full parser loads costs as negated rewards

'values: cost' was accepted but the costs were maximized as if they were
rewards.
---
 src/parsers/CassandraParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 3c99c76..a0af6a8 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -86,6 +86,10 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
   kmatrix Rk;
   copy(Rk, CASSANDRA_GLOBAL(Q), p.numStates);
   kmatrix_transpose_in_place(Rk);
+  if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {
+    // the rest of the code maximizes reward
+    FOR_EACH(entry, Rk.data) { entry->value = -entry->value; }
+  }
   copy(p.R, Rk);
 
   // convert T, Tr, and O to sla format
-- 
2.43.0


From 4851c63c4887a880e7d0f62cf9880ba3bc7cf631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 16/54] fix: a reset row of an MDP replaces the whole row

Only the entry of the initial state was set, so a row that had been given
before no longer summed to one.
---
 src/parsers/pomdp_spec.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 367ff22..dae2f49 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -972,7 +972,8 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
+        for (j = 0; j < gNumStates; j++)
+          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0


From 8e85530685967c308e8f304cb4f152d6e25718e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 17/54] fix: '*' in a start include or exclude list means every
 state

It was used as index -1 of the initial belief.
---
 src/parsers/pomdp_spec.y | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index dae2f49..65909f7 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1353,12 +1353,21 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
+  int first = i, last = i;
+
+  if (WILDCARD_SPEC == i) { /* '*' lists every state */
+    first = 0;
+    last = gNumStates - 1;
+  }
+
   switch (curMatrixContext) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
+    for (i = first; i <= last; i++)
+      gInitialBelief[i] = 1.0;
     break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for (i = first; i <= last; i++)
+      gInitialBelief[i] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, BAD_MATRIX_CONTEXT,
-- 
2.43.0


From cf02dcd7d4008eba42b6c40e1673e4560172f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 18/54] fix: the fast parser rejects a model without a preamble
 statement or body

It printed the error and went on with uninitialized sizes, or with no
matrices at all if the file ended after the preamble.
---
 src/parsers/FastParser.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index b874219..f27206b 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -201,6 +201,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber            \
          << ": at end of preamble, no '" << (NAME) << "' statement found" \
          << endl;                                                         \
+    exit(EXIT_FAILURE);                                                   \
   }
 
         FP_CHECK_SET(discountSet, "discount");
@@ -277,6 +278,12 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     lineNumber++;
   }
 
+  if (inPreamble) {
+    cerr << "ERROR: " << p.fileName << ": no 'R', 'T', or 'O' statements found"
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+
   // post-process
   copy(p.R, Rx);
   Rx.clear();
-- 
2.43.0


From 04ea13233d3c654c2b2bdf6be8eb68d478655b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 19/54] fix: the fast parser rejects a model with less than one
 state, action or observation

---
 src/parsers/FastParser.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index f27206b..050b14d 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -158,7 +158,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d", &p.numActions)) {
+        if (1 != sscanf(buf, "actions: %d", &p.numActions) ||
+            p.numActions < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
@@ -166,7 +167,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d", &p.numObservations)) {
+          if (1 != sscanf(buf, "observations: %d", &p.numObservations) ||
+            p.numObservations < 1) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
@@ -178,7 +180,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates)) {
+        if (1 != sscanf(buf, "states: %d", &p.numStates) ||
+            p.numStates < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
-- 
2.43.0


From 0fee6fed278fe7dfdba603656ea537e697577d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 20/54] fix: the fast parser rejects a discount outside [0,1]

The full parser already does.
---
 src/parsers/FastParser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 050b14d..c55fa38 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -142,6 +142,11 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                << ": syntax error in 'discount' statement" << endl;
           exit(EXIT_FAILURE);
         }
+        if (!(p.discount >= 0.0 && p.discount <= 1.0)) {
+          cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+               << ": discount must be between 0 and 1" << endl;
+          exit(EXIT_FAILURE);
+        }
         discountSet = true;
       } else if (PM_PREFIX_MATCHES("values:")) {
         if (1 != sscanf(buf, "values: %s", sbuf)) {
-- 
2.43.0


From f226daca8fb6080b467900115b8e0641df47185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 21/54] fix: the fast parser rejects indexes that are out of
 range

They were used unchecked to access the matrices.
---
 src/parsers/FastParser.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index c55fa38..5410d43 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -55,6 +55,15 @@ static void trimTrailingWhiteSpace(char *s) {
   s[i + 1] = '\0';
 }
 
+static void checkIndex(const CassandraModel &p, int lineNumber,
+                       const char *what, int index, int limit) {
+  if (index < 0 || index >= limit) {
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber << ": " << what
+         << " " << index << " is out of range" << endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 /***************************************************************************
  * POMDP FUNCTIONS
  ***************************************************************************/
@@ -251,6 +260,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                << "  (expected format is '" << rFormat << "')" << endl;
           exit(EXIT_FAILURE);
         }
+        checkIndex(p, lineNumber, "action", a, p.numActions);
+        checkIndex(p, lineNumber, "state", s, p.numStates);
         kmatrix_set_entry(Rx, s, a, reward);
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
@@ -260,6 +271,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
         }
+        checkIndex(p, lineNumber, "action", a, p.numActions);
+        checkIndex(p, lineNumber, "state", s, p.numStates);
+        checkIndex(p, lineNumber, "state", sp, p.numStates);
         kmatrix_set_entry(Tx[a], s, sp, prob);
       } else if (PM_PREFIX_MATCHES("O:")) {
         if (expectPomdp) {
@@ -270,6 +284,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
           }
+          checkIndex(p, lineNumber, "action", a, p.numActions);
+          checkIndex(p, lineNumber, "state", s, p.numStates);
+          checkIndex(p, lineNumber, "observation", o, p.numObservations);
           kmatrix_set_entry(Ox[a], s, o, prob);
         } else {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
-- 
2.43.0


From 342131c780dfedcf38d5ce86626809ac4f8b71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 22/54] fix: the fast parser rejects probabilities outside
 [0,1]

A row such as (1.5 -0.5) sums to one and was accepted; the full parser
already rejects it.
---
 src/parsers/FastParser.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 5410d43..ad0fbc2 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -64,6 +64,14 @@ static void checkIndex(const CassandraModel &p, int lineNumber,
   }
 }
 
+static void checkProb(const CassandraModel &p, int lineNumber, double prob) {
+  if (!(prob >= 0.0 && prob <= 1.0)) {
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+         << ": probability must be between 0 and 1" << endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 /***************************************************************************
  * POMDP FUNCTIONS
  ***************************************************************************/
@@ -274,6 +282,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         checkIndex(p, lineNumber, "action", a, p.numActions);
         checkIndex(p, lineNumber, "state", s, p.numStates);
         checkIndex(p, lineNumber, "state", sp, p.numStates);
+        checkProb(p, lineNumber, prob);
         kmatrix_set_entry(Tx[a], s, sp, prob);
       } else if (PM_PREFIX_MATCHES("O:")) {
         if (expectPomdp) {
@@ -287,6 +296,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           checkIndex(p, lineNumber, "action", a, p.numActions);
           checkIndex(p, lineNumber, "state", s, p.numStates);
           checkIndex(p, lineNumber, "observation", o, p.numObservations);
+          checkProb(p, lineNumber, prob);
           kmatrix_set_entry(Ox[a], s, o, prob);
         } else {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
-- 
2.43.0


From 3f18a7bbdd1ccfd2d83651af4293fc3291c7ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 23/54] fix: the fast parser reads a POMDP start statement as
 its error message promises

A single start state or an empty statement crashed (atof of NULL), surplus
entries were silently ignored and negative ones dropped.
---
 src/parsers/FastParser.cc | 61 +++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index ad0fbc2..5074442 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -404,47 +404,40 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
   if (expectPomdp) {
     // POMDP case
 
-    int i;
     char *tok, *saveptr = NULL;
-    double val;
+    std::vector<double> vals;
 
     p.initialBelief.resize(p.numStates);
 
     // consume 'start:' token at the beginning of the statement
-    tok = strtok_r(data, " ", &saveptr);
+    tok = strtok_r(data, " \t", &saveptr);
+    while (NULL != (tok = strtok_r(NULL, " \t", &saveptr)) && '#' != tok[0]) {
+      vals.push_back(atof(tok));
+    }
 
-    for (i = 0; i < p.numStates; i++) {
-      if (NULL != tok) {
-        tok = strtok_r(NULL, " ", &saveptr);
-      }
-      if (NULL == tok) {
-        if (0 == i) {
-          double startState = atof(tok);
-          if (startState != floor(startState)) {
-            cout << "ERROR: " << p.fileName
-                 << ": POMDP 'start' statement must either contain a single "
-                    "integer "
-                 << "specifying a known start state or a list of the initial "
-                    "probabilities of "
-                 << "all states" << endl;
-            exit(EXIT_FAILURE);
-          }
-          p.initialBelief.push_back(static_cast<int>(startState), 1.0);
-          return;
-        } else {
-          cout << "ERROR: " << p.fileName
-               << ": POMDP 'start' statement must either contain a single "
-                  "integer "
-               << "specifying a known start state or a list of the initial "
-                  "probabilities of "
-               << "all states" << endl;
-          exit(EXIT_FAILURE);
-        }
-      }
+    if (1 == vals.size() && 1 != p.numStates &&
+        vals[0] == floor(vals[0]) && vals[0] >= 0 && vals[0] < p.numStates) {
+      p.initialBelief.push_back(static_cast<int>(vals[0]), 1.0);
+      return;
+    }
+    if (static_cast<int>(vals.size()) != p.numStates) {
+      cout << "ERROR: " << p.fileName
+           << ": POMDP 'start' statement must either contain a single "
+              "integer "
+           << "specifying a known start state or a list of the initial "
+              "probabilities of "
+           << "all states" << endl;
+      exit(EXIT_FAILURE);
+    }
 
-      val = atof(tok);
-      if (val > SPARSE_EPS) {
-        p.initialBelief.push_back(i, val);
+    FOR(i, p.numStates) {
+      if (!(vals[i] >= 0.0 && vals[i] <= 1.0)) {
+        cout << "ERROR: " << p.fileName
+             << ": initial probabilities must be between 0 and 1" << endl;
+        exit(EXIT_FAILURE);
+      }
+      if (vals[i] > SPARSE_EPS) {
+        p.initialBelief.push_back(i, vals[i]);
       }
     }
   } else {
-- 
2.43.0


From bb2530f5fe53efb4c192cc726b5c069ff648ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 24/54] fix: the fast parser rejects an MDP start state that is
 out of range

---
 src/parsers/FastParser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 5074442..412fe6f 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -460,6 +460,12 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
            << "specifying a known start state" << endl;
       exit(EXIT_FAILURE);
     }
+    if (startState < 0 || startState >= p.numStates) {
+      cout << "ERROR: " << p.fileName
+           << ": MDP 'start' statement specifies a state that is out of range"
+           << endl;
+      exit(EXIT_FAILURE);
+    }
     p.initialState.push_back(0, startState);
   }
 }
-- 
2.43.0


From 0453d43c1ea59b4ca3e04434a6b59fed4ad8e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 25/54] fix: the full parser rejects an MDP start state that is
 missing or out of range

---
 src/parsers/CassandraParser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index a0af6a8..536ce63 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -119,6 +119,12 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     copy(p.initialBelief, initialBeliefD);
   } else {
     // convert initialState to sla format
+    if (CASSANDRA_GLOBAL(gInitialState) < 0 ||
+        CASSANDRA_GLOBAL(gInitialState) >= p.numStates) {
+      cerr << "ERROR: " << p.fileName
+           << ": MDP start state is missing or out of range" << endl;
+      exit(EXIT_FAILURE);
+    }
     p.initialState.resize(1);
     p.initialState.push_back(0, CASSANDRA_GLOBAL(gInitialState));
   }
-- 
2.43.0


From 27024e505c99b89a12cb074eb7fd9fe6ae9ee0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 26/54] fix: the full parser forgets the start state of the
 previous model

An MDP without a start statement got the start state of the file read
before it.
---
 src/parsers/pomdp_spec.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 65909f7..1c406dc 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1515,6 +1515,7 @@ void initParser() {
   currentLineNumber = 1;
   curMnemonic = nt_unknown;
   curMatrixContext = mc_none;
+  gInitialState = INVALID_STATE;
 
 } /* initParser */
 /************************************************************************/
-- 
2.43.0


From 7b53ae7ec3a089d80c298606469b1ad7c4d785ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 27/54] fix: the full parser rejects an MDP where a POMDP is
 expected and vice versa

The observation matrices or the start state were used uninitialized.
---
 src/parsers/CassandraParser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 536ce63..f104bd7 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -71,6 +71,14 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     exit(EXIT_FAILURE);
   }
 
+  if ((POMDP_problem_type == CASSANDRA_GLOBAL(gProblemType)) != expectPomdp) {
+    cerr << "ERROR: " << p.fileName << ": expected "
+         << (expectPomdp ? "a POMDP but no 'observations' statement found"
+                         : "an MDP but found an 'observations' statement")
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
   p.discount = CASSANDRA_GLOBAL(gDiscount);
-- 
2.43.0


From fadb1e5ea51850dc88bb8c7d50de038bbf5e86c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 28/54] fix: the fast parser rejects statements with surplus
 entries

Whatever followed the first number of a T, O or R statement was silently
ignored.
---
 src/parsers/FastParser.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 412fe6f..0138cbe 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -55,6 +55,11 @@ static void trimTrailingWhiteSpace(char *s) {
   s[i + 1] = '\0';
 }
 
+static bool isEndOfStatement(const char *s) {
+  while (isspace(*s)) s++;
+  return '\0' == *s || '#' == *s;
+}
+
 static void checkIndex(const CassandraModel &p, int lineNumber,
                        const char *what, int index, int limit) {
   if (index < 0 || index >= limit) {
@@ -121,6 +126,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   char buf[1 << 20];
   int lineNumber;
   char sbuf[512];
+  int len;
   bool inPreamble = true;
 
   kmatrix Rx;
@@ -134,7 +140,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   bool startSet = false;
 
   const char *rFormat =
-      (expectPomdp ? "R: %d : %d : * : * %lf" : "R: %d : %d : * %lf");
+      (expectPomdp ? "R: %d : %d : * : * %lf%n" : "R: %d : %d : * %lf%n");
 
 #define PM_PREFIX_MATCHES(X) (0 == strncmp(buf, (X), strlen(X)))
 
@@ -262,10 +268,12 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       if (PM_PREFIX_MATCHES("R:")) {
         int s, a;
         double reward;
-        if (3 != sscanf(buf, rFormat, &a, &s, &reward)) {
+        if (3 != sscanf(buf, rFormat, &a, &s, &reward, &len) ||
+            !isEndOfStatement(buf + len)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in R statement\n"
-               << "  (expected format is '" << rFormat << "')" << endl;
+               << "  (expected format is '"
+               << std::string(rFormat, strlen(rFormat) - 2) << "')" << endl;
           exit(EXIT_FAILURE);
         }
         checkIndex(p, lineNumber, "action", a, p.numActions);
@@ -274,7 +282,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob)) {
+        if (4 != sscanf(buf, "T: %d : %d : %d %lf%n", &a, &s, &sp, &prob,
+                        &len) ||
+            !isEndOfStatement(buf + len)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
@@ -288,7 +298,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob)) {
+          if (4 != sscanf(buf, "O: %d : %d : %d %lf%n", &a, &s, &o, &prob,
+                          &len) ||
+              !isEndOfStatement(buf + len)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
-- 
2.43.0


From aa2649154c23c676a0bdbbfd9280bd76c997a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 29/54] Revert "fix: the full parser forgets the start state of
 the previous model"

This reverts commit 27024e505c99b89a12cb074eb7fd9fe6ae9ee0ff.
---
 src/parsers/pomdp_spec.y | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 1c406dc..65909f7 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1515,7 +1515,6 @@ void initParser() {
   currentLineNumber = 1;
   curMnemonic = nt_unknown;
   curMatrixContext = mc_none;
-  gInitialState = INVALID_STATE;
 
 } /* initParser */
 /************************************************************************/
-- 
2.43.0


From 667419d0577945247399f3381efa7256ce330ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 30/54] Revert "fix: '*' in a start include or exclude list
 means every state"

This reverts commit 8e85530685967c308e8f304cb4f152d6e25718e9.
---
 src/parsers/pomdp_spec.y | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 65909f7..dae2f49 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -1353,21 +1353,12 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
-  int first = i, last = i;
-
-  if (WILDCARD_SPEC == i) { /* '*' lists every state */
-    first = 0;
-    last = gNumStates - 1;
-  }
-
   switch (curMatrixContext) {
   case mc_start_include:
-    for (i = first; i <= last; i++)
-      gInitialBelief[i] = 1.0;
+    gInitialBelief[i] = 1.0;
     break;
   case mc_start_exclude:
-    for (i = first; i <= last; i++)
-      gInitialBelief[i] = 0.0;
+    gInitialBelief[i] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, BAD_MATRIX_CONTEXT,
-- 
2.43.0


From ad54791133b40923512042348dbd877534c118a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 31/54] Revert "fix: a reset row of an MDP replaces the whole
 row"

This reverts commit 4851c63c4887a880e7d0f62cf9880ba3bc7cf631.
---
 src/parsers/pomdp_spec.y | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index dae2f49..367ff22 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -972,8 +972,7 @@ void enterResetMatrix() {
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
-        for (j = 0; j < gNumStates; j++)
-          addEntryToIMatrix(IP[a], i, j, (j == gInitialState) ? 1.0 : 0.0);
+        addEntryToIMatrix(IP[a], i, gInitialState, 1.0);
 
 } /* enterResetMatrix */
 /******************************************************************************/
-- 
2.43.0


From 8f1c8a8be44456d8c2bee5801b4f17873664195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 32/54] fix: the full parser forgets the start state of the
 previous model

An MDP without a start statement got the start state of the file read
before it.
---
 src/parsers/mdp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsers/mdp.c b/src/parsers/mdp.c
index 1ed0d3d..257671f 100644
--- a/src/parsers/mdp.c
+++ b/src/parsers/mdp.c
@@ -168,6 +168,8 @@ int readMDP(char *filename) {
     return (0);
   }
 
+  gInitialState = INVALID_STATE; /* forget that of the previous file */
+
   if (readMDPFile(file) == 0) {
     fprintf(stderr, "MDP file '%s' was not successfully parsed!\n", filename);
     return (0);
-- 
2.43.0


From 302bb007c94929a463e88650ce5e3534fa3a3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 33/54] fix: malformed numbers in the configuration are
 rejected

They were read as zero, or up to the first character that does not belong
to the number.
---
 src/common/zmdpConfig.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 806fe72..f48fcb5 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -47,6 +48,13 @@ static bool allWhiteSpace(const char *buf) {
   return true;
 }
 
+static void badValue(const string &field, const string &val,
+                     const char *expected) {
+  fprintf(stderr, "ERROR: invalid value '%s' for config field '%s', expected %s\n",
+          val.c_str(), field.c_str(), expected);
+  exit(EXIT_FAILURE);
+}
+
 static void replace_string(string &s, const string &pattern,
                            const string &replacement) {
   size_t pos;
@@ -163,20 +171,28 @@ const std::string &ZMDPConfig::getString(const std::string &field) const {
 
 int ZMDPConfig::getInt(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like an integer here
-  return atoi(s.c_str());
+  char *end;
+  errno = 0;
+  long val = strtol(s.c_str(), &end, 10);
+  if (end == s.c_str() || *end != '\0' || errno != 0 || val < INT_MIN ||
+      val > INT_MAX) {
+    badValue(field, s, "an integer");
+  }
+  return val;
 }
 
 double ZMDPConfig::getDouble(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a double here
-  return atof(s.c_str());
+  char *end;
+  double val = strtod(s.c_str(), &end);
+  if (end == s.c_str() || *end != '\0') {
+    badValue(field, s, "a number");
+  }
+  return val;
 }
 
 bool ZMDPConfig::getBool(const std::string &field) const {
-  const std::string &s = getString(field);
-  // it would be smart to check if s looks like a boolean value here
-  return (0 != atoi(s.c_str()));
+  return (0 != getInt(field));
 }
 
 bool ZMDPConfig::defined(const std::string &field) const {
-- 
2.43.0


From aff7bbdd30d6f443419ac8d4bd5910e61f9da442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 34/54] fix: read config files with long lines or no newline at
 the end

The last line was dropped if it had no newline, and a line of more than
1023 characters made reading loop forever.
---
 src/common/zmdpConfig.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index f48fcb5..39df31c 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -84,12 +84,17 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
                                 std::istream &in) {
   sourceName = _sourceName;
 
-  char buf[1024], field[1024], val[1024];
+  // no fixed limit on the length of a line; the last line need not end
+  // with a newline
+  string line;
   int lnum = 0;
-  while (1) {
-    in.getline(buf, sizeof(buf));
+  while (getline(in, line)) {
+    std::vector<char> bufv(line.c_str(), line.c_str() + line.size() + 1);
+    std::vector<char> fieldv(bufv.size()), valv(bufv.size());
+    char *buf = &bufv[0];
+    char *field = &fieldv[0];
+    char *val = &valv[0];
     lnum++;
-    if (in.eof()) break;
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
     if (0 == strncmp(buf, "alias", 5)) {
@@ -108,7 +113,7 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
             sourceName.c_str(), lnum);
         exit(EXIT_FAILURE);
       }
-      snprintf(field, sizeof(field), "%s", bufp);
+      snprintf(field, fieldv.size(), "%s", bufp);
 
       // rest of line is value
       bufp = strtok_r(NULL, "", &saveptr);
@@ -119,7 +124,7 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
             sourceName.c_str(), lnum);
         exit(EXIT_FAILURE);
       }
-      snprintf(val, sizeof(field), "%s", bufp);
+      snprintf(val, valv.size(), "%s", bufp);
 
       setAlias(field, val);
     } else {
-- 
2.43.0


From 6ed0bb5e340769443c02ec2d3209032296598305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 35/54] fix: config aliases

A field whose name starts with 'alias' was taken for an alias statement,
and an alias whose replacement contains its own name was expanded forever.
---
 src/common/zmdpConfig.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 39df31c..ab099b4 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -57,9 +57,12 @@ static void badValue(const string &field, const string &val,
 
 static void replace_string(string &s, const string &pattern,
                            const string &replacement) {
-  size_t pos;
-  while (string::npos != (pos = s.find(pattern))) {
+  size_t pos = 0;
+  while (string::npos != (pos = s.find(pattern, pos))) {
     s.replace(pos, pattern.size(), replacement);
+    // resume after the replacement, which may itself contain the pattern;
+    // its last character (the padding) may start the next match
+    pos += replacement.size() - 1;
   }
 }
 
@@ -97,7 +100,7 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
     lnum++;
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
-    if (0 == strncmp(buf, "alias", 5)) {
+    if (0 == strncmp(buf, "alias", 5) && isspace(buf[5])) {
       // line is an alias
 
       // eat 'alias'
-- 
2.43.0


From cc74c0263d7e036487a10082ce6c9b499c0181e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 36/54] fix: accept the documented value maxPlanes of
 lowerBoundRepresentation

---
 src/main/solverUtils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index d53cb5b..b50f787 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -58,7 +58,11 @@ static EnumEntry modelTypeTableG[] = {{"-", -1},
                                       {NULL, -1}};
 
 static EnumEntry lowerBoundRepresentationTableG[] = {
-    {"-", -1}, {"point", V_POINT}, {"convex", V_MAXPLANES}, {NULL, -1}};
+    {"-", -1},
+    {"point", V_POINT},
+    {"maxPlanes", V_MAXPLANES},
+    {"convex", V_MAXPLANES},  // old name
+    {NULL, -1}};
 
 static EnumEntry upperBoundRepresentationTableG[] = {
     {"-", -1}, {"point", V_POINT}, {"sawtooth", V_SAWTOOTH}, {NULL, -1}};
-- 
2.43.0


From cb062b98fee336de6bbcaa11dba809f6c3ba5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 37/54] fix: a maxHorizon that is not positive means no horizon

Zero gave bounds for no steps at all, and values below -1 wrong ones.
---
 src/main/solverUtils.cc        | 4 ++--
 src/mdps/GenericDiscreteMDP.cc | 3 +++
 src/pomdpCore/Pomdp.cc         | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index b50f787..f005d64 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -294,9 +294,9 @@ void constructSolverObjects(SolverObjects &obj, SolverParams &p,
   obj.sim = new MDPSim(obj.problem);
 
   if (T_POMDP == p.modelType && obj.problem->getDiscount() >= 1.0 &&
-      -1 == p.maxHorizon) {
+      p.maxHorizon <= 0) {
     cerr << "ERROR: with modelType='pomdp', you must have either discount < 1\n"
-         << "  or maxHorizon defined (i.e. non-negative) in order to generate "
+         << "  or maxHorizon defined (i.e. positive) in order to generate "
             "initial\n"
          << "  bounds (-h for help)" << endl;
     exit(EXIT_FAILURE);
diff --git a/src/mdps/GenericDiscreteMDP.cc b/src/mdps/GenericDiscreteMDP.cc
index f4740c2..52c3e13 100644
--- a/src/mdps/GenericDiscreteMDP.cc
+++ b/src/mdps/GenericDiscreteMDP.cc
@@ -60,6 +60,9 @@ GenericDiscreteMDP::GenericDiscreteMDP(const std::string &fileName,
   numStateDimensions = 1;
 
   maxHorizon = config->getInt("maxHorizon");
+  if (maxHorizon <= 0) {
+    maxHorizon = -1;  // not specified
+  }
 }
 
 const state_vector &GenericDiscreteMDP::getInitialState(void) {
diff --git a/src/pomdpCore/Pomdp.cc b/src/pomdpCore/Pomdp.cc
index 9996197..87428f1 100644
--- a/src/pomdpCore/Pomdp.cc
+++ b/src/pomdpCore/Pomdp.cc
@@ -54,6 +54,9 @@ Pomdp::Pomdp(const std::string &fileName, const ZMDPConfig *config) {
   }
 
   maxHorizon = config->getInt("maxHorizon");
+  if (maxHorizon <= 0) {
+    maxHorizon = -1;  // not specified
+  }
 
   // belief vectors are the 'state vectors' of the belief-MDP; the
   // dimensionality of these vectors is the number of states in
-- 
2.43.0


From e886306def608357c498a2e958e4b9a0a9ff6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 38/54] fix: limits that are not positive are no limits

terminateNumBackups 0 ended the run after the first trial, and a negative
evaluationMaxStepsPerTrial overflowed the step count.
---
 src/exec/PolicyEvaluator.cc       | 3 +++
 src/exec/PolicyEvaluatorLSHack.cc | 3 +++
 src/search/RTDPCore.cc            | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 1b7a0d3..718bdc1 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -67,6 +67,9 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
+  if (evaluationMaxStepsPerTrial < 0) {
+    evaluationMaxStepsPerTrial = 0;  // no limit
+  }
   scoresOutputFile = config->getString("scoresOutputFile");
   simulationTraceOutputFile = config->getString("simulationTraceOutputFile");
   simulationTracesToLogPerEpoch =
diff --git a/src/exec/PolicyEvaluatorLSHack.cc b/src/exec/PolicyEvaluatorLSHack.cc
index 28b753a..bfc9f98 100644
--- a/src/exec/PolicyEvaluatorLSHack.cc
+++ b/src/exec/PolicyEvaluatorLSHack.cc
@@ -71,6 +71,9 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
+  if (evaluationMaxStepsPerTrial < 0) {
+    evaluationMaxStepsPerTrial = 0;  // no limit
+  }
   scoresOutputFile = config->getString("scoresOutputFile");
   simulationTraceOutputFile = config->getString("simulationTraceOutputFile");
   simulationTracesToLogPerEpoch =
diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 25fa9d3..4e6e8b6 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -78,7 +78,7 @@ void RTDPCore::planInit(MDP *_problem, const ZMDPConfig *_config) {
   initialized = false;
   targetPrecision = config->getDouble("terminateRegretBound");
   terminateNumBackups = config->getInt("terminateNumBackups");
-  if (terminateNumBackups < 0) {
+  if (terminateNumBackups <= 0) {
     terminateNumBackups = INT_MAX;
   }
   bool useTimeWithoutHeuristic = config->getBool("useTimeWithoutHeuristic");
-- 
2.43.0


From 4093721f6aa96e537c1b527401370640315d5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 39/54] fix: zmdp solve stops at the regret bound with every
 search strategy

RTDP, LRTDP and HDP do not compare the bounds with it, so the run went on.
---
 src/main/zmdp.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index d0fd8f7..c9a446f 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -96,6 +96,15 @@ void doSolve(const ZMDPConfig &config) {
                                  /* maxTime = */ -1, p.terminateRegretBound);
     numSolverCalls++;
 
+    // not every search strategy checks the regret bound itself
+    if (so.bounds->maintainLowerBound && so.bounds->maintainUpperBound &&
+        p.terminateRegretBound > 0) {
+      MDPNode *root = so.bounds->getRootNode();
+      if ((root->ubVal - root->lbVal) <= p.terminateRegretBound) {
+        reachedTargetPrecision = true;
+      }
+    }
+
     // check timeout
     double elapsed = run.elapsedTime();
     if (elapsed >= p.terminateWallclockSeconds) {
-- 
2.43.0


From a32ed8599837577e527b0bcdde0ce32d92bae891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 40/54] fix: solving without a regret bound

With a terminateRegretBound of zero or less the initial bounds were iterated
forever or trials descended without end or failed an assertion.
---
 src/bounds/BoundPair.cc     | 3 +++
 src/common/zmdpCommonDefs.h | 3 +++
 src/search/RTDPCore.cc      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/bounds/BoundPair.cc b/src/bounds/BoundPair.cc
index 9423f7f..240756a 100644
--- a/src/bounds/BoundPair.cc
+++ b/src/bounds/BoundPair.cc
@@ -99,6 +99,9 @@ void BoundPair::initialize(MDP *_problem, const ZMDPConfig *_config) {
   problem = _problem;
   config = _config;
   targetPrecision = config->getDouble("terminateRegretBound");
+  if (targetPrecision <= 0) {
+    targetPrecision = ZMDP_NO_REGRET_BOUND_PRECISION;
+  }
 
   if (maintainLowerBound) {
     lowerBound->initialize(BP_INITIALIZATION_PRECISION_FACTOR *
diff --git a/src/common/zmdpCommonDefs.h b/src/common/zmdpCommonDefs.h
index 281aa7f..2476d2f 100644
--- a/src/common/zmdpCommonDefs.h
+++ b/src/common/zmdpCommonDefs.h
@@ -33,6 +33,9 @@ namespace zmdp {
 #define OBS_IS_ZERO_EPS (1e-10)
 #define ZMDP_BOUNDS_PRUNE_EPS (1e-10)
 
+// precision to solve to if terminateRegretBound is not positive (not set)
+#define ZMDP_NO_REGRET_BOUND_PRECISION (1e-6)
+
 // argmax(start, end, f) returns the element x between start and end
 //   that has the highest f(x) value.
 // example: v is a vector, norm is a function defined for vectors
diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 4e6e8b6..92a34ef 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -77,6 +77,9 @@ void RTDPCore::planInit(MDP *_problem, const ZMDPConfig *_config) {
   problem = _problem;
   initialized = false;
   targetPrecision = config->getDouble("terminateRegretBound");
+  if (targetPrecision <= 0) {
+    targetPrecision = ZMDP_NO_REGRET_BOUND_PRECISION;
+  }
   terminateNumBackups = config->getInt("terminateNumBackups");
   if (terminateNumBackups <= 0) {
     terminateNumBackups = INT_MAX;
-- 
2.43.0


From 0e8abe3d7918b0e5438c3b8270bfe99fb48cd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 41/54] fix: LifeSurvey: terminate the reward level string of a
 state's name

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index 64f2dcd..e7c8ef7 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -68,6 +68,7 @@ std::string LSState::toString(void) const {
       snprintf(eltbuf, sizeof(eltbuf), "%1d", rewardLevelInRegion[i]);
       rbuf[i] = eltbuf[0];
     }
+    rbuf[rewardLevelInRegion.size()] = '\0';
     snprintf(buf, sizeof(buf), "sx%dy%dd%du%dn%d%d%dr%s", pos.x, pos.y,
              lastMoveDirection, usedLookaheadInThisCell, lifeInNeighborCell[0],
              lifeInNeighborCell[1], lifeInNeighborCell[2], rbuf);
-- 
2.43.0


From e486d72e382913b10b47a32d5aedc24698e15b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 42/54] fix: LifeSurvey: the null observation's index is
 OBS_NULL

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index e7c8ef7..b2fe7b0 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -156,7 +156,7 @@ LSObservation::LSObservation(int oi) {
 
 int LSObservation::toInt(void) const {
   if (isNull) {
-    return 0;
+    return OBS_NULL;
   } else {
     return lifeInNeighborConfidence[2] +
            LS_BASE_NUM_OBSERVATIONS *
-- 
2.43.0


From d8d043b8b10efa5fe3fa5ca74d8708595a11b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 43/54] fix: LifeSurvey: write the lookahead cost to the model
 file

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index b6df89d..48762e9 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -337,6 +337,7 @@ void LSModelFile::writeToFile(FILE *outFile) const {
   fprintf(outFile, "startX %d\n", startX);
   fprintf(outFile, "startY %d\n", startY);
   fprintf(outFile, "baseCost %lf\n", baseCost);
+  fprintf(outFile, "lookaheadCost %lf\n", lookaheadCost);
   writeDoubleVectorToFile(outFile, "regionPriors", regionPriors);
   writeDoubleVectorToFile(outFile, "obsDistributionLifeAbsent",
                           obsDistributionLifeAbsent);
-- 
2.43.0


From d1bb99250f0bf6c11c5405531499692b212f17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 44/54] fix: LifeSurvey: trailing white space does not add an
 entry to a vector

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 48762e9..57bb703 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -52,7 +52,9 @@ static void convertToDoubleVector(std::vector<double> &result,
   while (1) {
     p2 = s.find_first_of(" \t", p1);
     if (string::npos == p2) {
-      result.push_back(atof(s.substr(p1).c_str()));
+      if (p1 != s.size()) {
+        result.push_back(atof(s.substr(p1).c_str()));
+      }
       break;
     } else {
       if (p1 != p2) {
-- 
2.43.0


From bf1c469df0f5f9b05ef010591a2017a766ffd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 45/54] fix: LifeSurvey: keep the last map cell when the file
 has no final newline

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 57bb703..76a37d7 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -92,6 +92,13 @@ static std::string getVal(const ParamLookup &params,
   }
 }
 
+static void truncateNewline(char *line) {
+  int n = strlen(line);
+  if (n > 0 && '\n' == line[n - 1]) {
+    line[n - 1] = '\0';
+  }
+}
+
 static std::string parseRow(const char *inRow, int isOdd,
                             const std::string &fname, int lnum) {
   int n = strlen(inRow);
@@ -234,7 +241,7 @@ void LSModelFile::readFromFile(const std::string &fname) {
     if (strlen(lbuf) <= 1) continue;
     if ('#' == lbuf[0]) continue;
     if ('-' == lbuf[0]) goto preambleDone;
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate newline
+    truncateNewline(lbuf);
     if (2 != sscanf(lbuf, "%s %[-0-9.eE \t]", key, value)) {
       fprintf(stderr,
               "ERROR: %s: line %d: syntax error, expected '<key> <value>'\n",
@@ -285,7 +292,7 @@ preambleDone:
         exit(EXIT_FAILURE);
       }
     }
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate trailing newline
+    truncateNewline(lbuf);
     rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
   }
 
-- 
2.43.0


From 7479f7499d3c3f69e20ca84ae1ab1b9ab5954ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 46/54] fix: LifeSurvey: read maps with an even number of rows
 the way they are written

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 76a37d7..78d995a 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -279,6 +279,7 @@ preambleDone:
 
   /* read map data into intermediate data structure */
   std::vector<std::string> rows;
+  int firstMapLine = lnum + 1;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
     if (strlen(lbuf) <= 1) {
@@ -293,7 +294,13 @@ preambleDone:
       }
     }
     truncateNewline(lbuf);
-    rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
+    rows.push_back(lbuf);
+  }
+
+  /* the bottom row (y=0) is not shifted, and every other row is */
+  FOR(y0, rows.size()) {
+    int y = rows.size() - y0 - 1;
+    rows[y0] = parseRow(rows[y0].c_str(), y % 2, fname, firstMapLine + y0);
   }
 
   /* calculate dimensions of map */
-- 
2.43.0


From e25ca2e97e5121a6b63dbdfe424b753116f822aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 47/54] fix: LifeSurvey: a path that passes nine cells of a
 region counts them

---
 src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
index 4fb7cd3..c548eb4 100644
--- a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
+++ b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
@@ -40,6 +40,9 @@ using namespace MatrixUtils;
 using namespace sla;
 
 #define LS_NUM_PATHS_TO_EVALUATE (1000000)
+/* replaces the count of a region that was folded into unreachableRegionValue
+   (not LS_UNREACHABLE, which is also a possible count) */
+#define LS_COUNT_FOLDED (-1)
 #define LS_ABS(x) (((x) < 0) ? -(x) : (x))
 
 namespace zmdp {
@@ -283,12 +286,12 @@ void LSPathAndReactExec::getBestExtension(LSPath &bestPathMatchingPrefix,
   // (all regions are considered unreachable if we are at the exit)
   bool atExit = f.grid.getAtExit(entry.pos);
   FOR(r, f.regionPriors.size()) {
-    if (LS_UNREACHABLE != nextValueSoFar.regionCounts[r]) {
+    if (LS_COUNT_FOLDED != nextValueSoFar.regionCounts[r]) {
       if (atExit || !m.regionReachable[r].getCell(entry.pos)) {
         double probLifeIsSampledInRegion =
             1 - pow(1 - f.regionPriors[r], nextValueSoFar.regionCounts[r]);
         nextValueSoFar.unreachableRegionValue += probLifeIsSampledInRegion;
-        nextValueSoFar.regionCounts[r] = LS_UNREACHABLE;
+        nextValueSoFar.regionCounts[r] = LS_COUNT_FOLDED;
       }
     }
   }
-- 
2.43.0


From b19d7adf9b1188bf56d95091e2b1eab2e2f94ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 48/54] fix: LifeSurvey: keep a last map row of one cell when
 the file has no final newline

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 78d995a..e2e31ab 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -282,16 +282,11 @@ preambleDone:
   int firstMapLine = lnum + 1;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
-    if (strlen(lbuf) <= 1) {
-      if (feof(modelFile)) {
-        break;
-      } else {
-        fprintf(
-            stderr,
-            "ERROR: %s: line %d: found unexpected zero-length line in map\n",
-            fname.c_str(), lnum);
-        exit(EXIT_FAILURE);
-      }
+    if ('\n' == lbuf[0]) {
+      fprintf(stderr,
+              "ERROR: %s: line %d: found unexpected zero-length line in map\n",
+              fname.c_str(), lnum);
+      exit(EXIT_FAILURE);
     }
     truncateNewline(lbuf);
     rows.push_back(lbuf);
-- 
2.43.0


From 903b7ba413fc6fac04b008e8084fea9323318260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 49/54] fix: RockExplore: the zmdp policy uses the interface
 BoundPairExec has

The call to initMaxPlanes, which no longer exists, kept zmdpRockExplore
from compiling.
---
 src/pomdpModels/RockExplore/RockExplorePolicy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/RockExplore/RockExplorePolicy.cc b/src/pomdpModels/RockExplore/RockExplorePolicy.cc
index c8c47ed..669c1ab 100644
--- a/src/pomdpModels/RockExplore/RockExplorePolicy.cc
+++ b/src/pomdpModels/RockExplore/RockExplorePolicy.cc
@@ -358,9 +358,10 @@ MDPExecCore *getPolicy(int policyType) {
     case P_ZMDP: {
       ZMDPConfig *config = new ZMDPConfig();
       config->readFromString("<defaultConfig>", defaultConfig.data);
+      config->setBool("useFastModelParser", false);
+      config->setString("policyType", "maxPlanes");
       BoundPairExec *policy = new BoundPairExec();
-      policy->initMaxPlanes("RockExplore.pomdp",
-                            /* useFastParser = */ false, "out.policy", *config);
+      policy->initReadFiles("RockExplore.pomdp", "out.policy", *config);
       return policy;
     }
     default:
-- 
2.43.0


From d6e720c0099063a6bb4c866239b6168385d42885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 50/54] fix: RockExplore: never sample an impossible outcome or
 fall off the end

With rand() == 0 the first outcome or observation was selected even if its
probability is zero (which then aborts the belief update), and with round-off
error at the other end the functions ran into assert(0) or, without
assertions, off their end.
---
 src/pomdpModels/RockExplore/REBasicPomdp.cc | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pomdpModels/RockExplore/REBasicPomdp.cc b/src/pomdpModels/RockExplore/REBasicPomdp.cc
index 60092fe..b8309c6 100644
--- a/src/pomdpModels/RockExplore/REBasicPomdp.cc
+++ b/src/pomdpModels/RockExplore/REBasicPomdp.cc
@@ -280,13 +280,17 @@ int REBasicPomdp::chooseStochasticOutcome(const REBelief &b) {
   double p = (static_cast<double>(std::rand())) / RAND_MAX;
 
   // Select an outcome based on p.
+  int last = -1;
   for (int i = 0; i < static_cast<int>(b.size()); i++) {
+    if (b[i].prob <= 0) continue;  // never select an impossible outcome
+    last = b[i].index;
     p -= b[i].prob;
-    if (p <= 0) {
-      return b[i].index;
-    }
+    if (p <= 0) break;
   }
-  assert(0);  // never reach this point
+  // p may still be slightly positive here due to round-off error; in that
+  // case the last possible outcome is selected.
+  assert(last >= 0);
+  return last;
 }
 
 // Returns a stochastically selected observation from the distribution obsProbs.
@@ -295,13 +299,17 @@ int REBasicPomdp::chooseStochasticOutcome(const REObsProbs &obsProbs) {
   double p = (static_cast<double>(std::rand())) / RAND_MAX;
 
   // Select an outcome based on p.
+  int last = -1;
   for (int o = 0; o < static_cast<int>(obsProbs.size()); o++) {
+    if (obsProbs[o] <= 0) continue;  // never select an impossible outcome
+    last = o;
     p -= obsProbs[o];
-    if (p <= 0) {
-      return o;
-    }
+    if (p <= 0) break;
   }
-  assert(0);  // never reach this point
+  // p may still be slightly positive here due to round-off error; in that
+  // case the last possible outcome is selected.
+  assert(last >= 0);
+  return last;
 }
 
 // Returns the most likely state according to the distribution b.
-- 
2.43.0


From 74b8a70f72590edd92b8eccad91fadcef496858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 51/54] fix: RockExplore: the terminal state has no rocks to
 look at

getRockProbs read the empty rockIsGood vector of the terminal state, also
when drawing the map of a terminal state.
---
 src/pomdpModels/RockExplore/RockExplore.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pomdpModels/RockExplore/RockExplore.cc b/src/pomdpModels/RockExplore/RockExplore.cc
index 6799185..eb6c73c 100644
--- a/src/pomdpModels/RockExplore/RockExplore.cc
+++ b/src/pomdpModels/RockExplore/RockExplore.cc
@@ -287,6 +287,8 @@ RERockProbs RockExplore::getRockProbs(const REBelief &b) const {
     // Translate from the state index of the outcome, b[i].index, to the
     // corresponding state struct s.
     REState s = states[b[i].index];
+    // The terminal state has no rocks.
+    if (s.isTerminalState) continue;
     for (int r = 0; r < RE_NUM_ROCKS; r++) {
       // If rock r is good in outcome i, add the probability of
       // outcome i to result[r].
-- 
2.43.0


From 1bb3980ea150881de6d26e22dfe7fbc1b92e4066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 52/54] fix: RockExplore: include string.h for strerror

---
 src/pomdpModels/RockExplore/REBasicPomdp.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/RockExplore/REBasicPomdp.cc b/src/pomdpModels/RockExplore/REBasicPomdp.cc
index b8309c6..de3530f 100644
--- a/src/pomdpModels/RockExplore/REBasicPomdp.cc
+++ b/src/pomdpModels/RockExplore/REBasicPomdp.cc
@@ -26,6 +26,7 @@
 #include <getopt.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <sys/time.h>
 #include <unistd.h>
 
-- 
2.43.0


From e094e83e35237bb87aafe755ade249ace2616ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:50 +0000
Subject: [PATCH 53/54] fix: RockExplore: declare the embedded configuration
 before it is defined

zmdpRockExplore.cc did not compile.
---
 src/pomdpModels/RockExplore/zmdpRockExplore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdpModels/RockExplore/zmdpRockExplore.cc b/src/pomdpModels/RockExplore/zmdpRockExplore.cc
index c025f96..b39b54a 100644
--- a/src/pomdpModels/RockExplore/zmdpRockExplore.cc
+++ b/src/pomdpModels/RockExplore/zmdpRockExplore.cc
@@ -27,8 +27,8 @@
 #include "zmdpCommonTime.h"
 // #include "solverUtils.h"
 #include "RockExplorePolicy.h"
-#include "zmdpMainConfig.cc"  // embed default config file
 #include "zmdpMainConfig.h"
+#include "zmdpMainConfig.cc"  // embed default config file
 
 using namespace std;
 // using namespace MatrixUtils;
-- 
2.43.0


From d906c10d6e84a26ff41aca2e91485ee17f893e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 54/54] fix: evaluation cache: recognise despite rounding that
 every outcome was sampled

---
 src/exec/PolicyEvaluator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 718bdc1..73dce48 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -274,7 +274,7 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
           CMDPEdge *e = Qa->outcomes[o];
           if (NULL != e) {
             if (-1 != e->userInt) {
-              if (probSum == 1.0) {
+              if (fabs(probSum - 1.0) < 1e-10) {
                 e->userDouble = Qa->opv(o) / (e->userInt / cntSum);
               } else {
                 e->userDouble = 1.0;
-- 
2.43.0

