From 8d4be464fb54a859e2dc7f44a09a0a9ab2888e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 01/42] fix: accept the documented value 'maxPlanes' for
 lowerBoundRepresentation

---
 src/main/solverUtils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index d53cb5b..0f7b019 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -58,7 +58,11 @@ static EnumEntry modelTypeTableG[] = {{"-", -1},
                                       {NULL, -1}};
 
 static EnumEntry lowerBoundRepresentationTableG[] = {
-    {"-", -1}, {"point", V_POINT}, {"convex", V_MAXPLANES}, {NULL, -1}};
+    {"-", -1},
+    {"point", V_POINT},
+    {"maxPlanes", V_MAXPLANES},
+    {"convex", V_MAXPLANES},
+    {NULL, -1}};
 
 static EnumEntry upperBoundRepresentationTableG[] = {
     {"-", -1}, {"point", V_POINT}, {"sawtooth", V_SAWTOOTH}, {NULL, -1}};
-- 
2.43.0


From 9fb11d6b7486731039715578e287802122ce5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 02/42] fix: sawtooth backup must not raise a node's upper
 bound

The initial bound at a corner can be tighter than a backup through the
interpolated corner points, which is not uniformly improvable.  Keep the
old value in that case, as PointUpperBound already does.
---
 src/pomdpBounds/SawtoothUpperBound.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 033e627..884b36b 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -75,7 +75,9 @@ void SawtoothUpperBound::initNodeBound(MDPNode &cn) {
 
 void SawtoothUpperBound::update(MDPNode &cn, int *maxUBActionP) {
   double newUBVal = getNewUBValue(cn, maxUBActionP);
-  setUBForNode(cn, newUBVal, true);
+  // the interpolation through the corner points is not uniformly
+  // improvable, so a backup on its own can be looser than the old bound
+  setUBForNode(cn, std::min(cn.ubVal, newUBVal), true);
 }
 
 // returns the upper bound that the (belief,value) pair c induces on b.
-- 
2.43.0


From 2f3c676bd903ddd7205bb571344ab436c664520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 03/42] fix: LRTDP and HDP must not raise an upper bound

Where the initial bound is tighter than its own backup, storing the
backed-up value loosened the bound.  Keep the tighter one and count only
a decrease as residual.
---
 src/search/HDP.cc   | 5 +++--
 src/search/LRTDP.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/search/HDP.cc b/src/search/HDP.cc
index 68677ae..486d8c3 100644
--- a/src/search/HDP.cc
+++ b/src/search/HDP.cc
@@ -96,13 +96,14 @@ void HDP::cacheQ(MDPNode &cn) {
 // assumes correct Q values are already cached (using cacheQ)
 double HDP::residual(MDPNode &cn) {
   int maxUBAction = bounds->getMaxUBAction(cn);
-  return fabs(cn.ubVal - cn.Q[maxUBAction].ubVal);
+  // one-sided: a backup above the current upper bound is no improvement
+  return std::max(0.0, cn.ubVal - cn.Q[maxUBAction].ubVal);
 }
 
 void HDP::updateInternal(MDPNode &cn) {
   cacheQ(cn);
   int maxUBAction = bounds->getMaxUBAction(cn);
-  cn.ubVal = cn.Q[maxUBAction].ubVal;
+  cn.ubVal = std::min(cn.ubVal, cn.Q[maxUBAction].ubVal);
 }
 
 bool HDP::trialRecurse(MDPNode &cn, int depth) {
diff --git a/src/search/LRTDP.cc b/src/search/LRTDP.cc
index e68734f..20e3b0f 100644
--- a/src/search/LRTDP.cc
+++ b/src/search/LRTDP.cc
@@ -84,7 +84,8 @@ void LRTDP::cacheQ(MDPNode &cn) {
 // assumes correct Q values are already cached (using cacheQ)
 double LRTDP::residual(MDPNode &cn) {
   int maxUBAction = bounds->getMaxUBAction(cn);
-  return fabs(cn.ubVal - cn.Q[maxUBAction].ubVal);
+  // one-sided: a backup above the current upper bound is no improvement
+  return std::max(0.0, cn.ubVal - cn.Q[maxUBAction].ubVal);
 }
 
 bool LRTDP::checkSolved(MDPNode &cn) {
@@ -143,7 +144,7 @@ bool LRTDP::checkSolved(MDPNode &cn) {
 void LRTDP::updateInternal(MDPNode &cn) {
   cacheQ(cn);
   int maxUBAction = bounds->getMaxUBAction(cn);
-  cn.ubVal = cn.Q[maxUBAction].ubVal;
+  cn.ubVal = std::min(cn.ubVal, cn.Q[maxUBAction].ubVal);
 }
 
 bool LRTDP::trialRecurse(MDPNode &cn, int depth) {
-- 
2.43.0


From 1ac576c201e1558ae586ef7b4f4da95fe7f4f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 04/42] fix: blind-policy planes start below their own policy's
 value

The iteration for every action started from the worst case of the safest
action, which can lie above the blind value of another one; its plane then
overstated what following it earns and later backups fell below it.
---
 src/pomdpBounds/BlindLBInitializer.cc | 31 ++++++++++-----------------
 src/pomdpBounds/BlindLBInitializer.h  |  2 +-
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/pomdpBounds/BlindLBInitializer.cc b/src/pomdpBounds/BlindLBInitializer.cc
index a36c33f..745f0c3 100644
--- a/src/pomdpBounds/BlindLBInitializer.cc
+++ b/src/pomdpBounds/BlindLBInitializer.cc
@@ -48,23 +48,14 @@ void BlindLBInitializer::initialize(double targetPrecision) {
   initBlind(targetPrecision);
 }
 
-void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha) {
-  // set alpha to be a lower bound on the value of the best blind policy
-
-  double worstStateVal;
-  // int safestAction = -1;
-  double worstCaseReward = -99e+20;
-  // calculate worstCaseReward = max_a min_s R(s,a)
-  // safestAction = argmax_a min_s R(s,a)
-  FOR(a, pomdp->getNumActions()) {
-    worstStateVal = 99e+20;
-    FOR(s, pomdp->numStates) {
-      worstStateVal = std::min(worstStateVal, pomdp->R(s, a));
-    }
-    if (worstStateVal > worstCaseReward) {
-      // safestAction = a;
-      worstCaseReward = worstStateVal;
-    }
+void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha, int a) {
+  // set alpha to be a lower bound on the value of the blind policy
+  // "always take action a"
+
+  // calculate worstCaseReward = min_s R(s,a)
+  double worstCaseReward = 99e+20;
+  FOR(s, pomdp->numStates) {
+    worstCaseReward = std::min(worstCaseReward, pomdp->R(s, a));
   }
   dvector worstCaseDVector(pomdp->getNumStateDimensions());
 
@@ -106,7 +97,6 @@ void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha) {
 void BlindLBInitializer::initBlind(double targetPrecision) {
   alpha_vector al(pomdp->numStates);
   alpha_vector nextAl, tmp, diff;
-  alpha_vector weakAl;
   double maxResidual;
   alpha_vector default_mask;
 
@@ -116,12 +106,13 @@ void BlindLBInitializer::initBlind(double targetPrecision) {
     // mask will not be used; we can leave it empty
   }
 
-  initBlindWorstCase(weakAl);
   bound->planes.clear();
 
   // produce one alpha vector for each fixed policy "always take action a"
   FOR(a, pomdp->numActions) {
-    al = weakAl;
+    // starting below the policy's own value makes every iterate a valid
+    // lower bound that later backups can only improve
+    initBlindWorstCase(al, a);
 
     do {
       // calculate nextAl
diff --git a/src/pomdpBounds/BlindLBInitializer.h b/src/pomdpBounds/BlindLBInitializer.h
index f7a356b..4f8175c 100644
--- a/src/pomdpBounds/BlindLBInitializer.h
+++ b/src/pomdpBounds/BlindLBInitializer.h
@@ -34,7 +34,7 @@ struct BlindLBInitializer {
 
  protected:
   void initBlind(double targetPrecision);
-  void initBlindWorstCase(alpha_vector &weakAlpha);
+  void initBlindWorstCase(alpha_vector &weakAlpha, int a);
 };
 
 };  // namespace zmdp
-- 
2.43.0


From 63f4423c4c0eb684f7454cea00992a3d00c212a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 05/42] fix: do not add a bogus plane for trailing white space
 in alpha-vector files

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index abd2778..8d290c7 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -691,8 +691,9 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   mask_set_all(plane.mask, pomdp->numStates);
   plane.numBackupsAtCreation = -1;
 
-  while (!inFile.eof()) {
-    inFile >> plane.action;
+  // reading the action label fails at the end of the file, even if the last
+  // vector is followed by white space
+  while (inFile >> plane.action) {
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-- 
2.43.0


From 6764e8e1231609d797f3ab30cc0700b295c947c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 06/42] fix: a model without any R statement has zero rewards
 instead of crashing

---
 src/parsers/decision-tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/decision-tree.c b/src/parsers/decision-tree.c
index 7158131..a03621a 100644
--- a/src/parsers/decision-tree.c
+++ b/src/parsers/decision-tree.c
@@ -337,6 +337,10 @@ void dtAdd(int action, int cur_state, int next_state, int obs, double val) {
 
 double dtGet(int action, int cur_state, int next_state, int obs) {
   int vec[DT_TABLE_DEPTH];
+
+  /* no reward has been specified at all, so every reward is zero */
+  if (NULL == gTree) return 0.0;
+
   vec[0] = action;
   vec[1] = cur_state;
   vec[2] = next_state;
-- 
2.43.0


From bda1c681f0270703850b10fd9133041f5cd69904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 07/42] fix: explicit zeros in a reward matrix override earlier
 R statements

---
 src/parsers/imm-reward.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/parsers/imm-reward.c b/src/parsers/imm-reward.c
index fbd6af2..bb38cca 100644
--- a/src/parsers/imm-reward.c
+++ b/src/parsers/imm-reward.c
@@ -260,7 +260,8 @@ void enterImmReward(int cur_state, int next_state, int obs, double value) {
 } /* enterImmReward */
 /**********************************************************************/
 void irAddToDecisionTree(Imm_Reward_List node) {
-  int i, j, k;
+  int i, j, k, numCols;
+  double value;
   Matrix m;
 
   assert(node != NULL);
@@ -296,13 +297,21 @@ void irAddToDecisionTree(Imm_Reward_List node) {
 
     case ir_matrix:
       m = node->rep.matrix;
+      /* The sparse matrix does not store zeros, but every entry of the
+         statement, zero or not, overrides earlier statements. */
+      numCols =
+          (gProblemType == POMDP_problem_type) ? gNumObservations : gNumStates;
       for (i = 0; i < m->num_rows; i++) {
-        for (j = 0; j < m->row_length[i]; j++) {
-          k = m->row_start[i] + j;
+        k = m->row_start[i];
+        for (j = 0; j < numCols; j++) {
+          value = 0.0;
+          if (k < m->row_start[i] + m->row_length[i] && m->col[k] == j) {
+            value = m->mat_val[k++];
+          }
           if (gProblemType == POMDP_problem_type) { /* pomdp */
-            dtAdd(node->action, node->cur_state, i, m->col[k], m->mat_val[k]);
+            dtAdd(node->action, node->cur_state, i, j, value);
           } else { /* mdp */
-            dtAdd(node->action, i, m->col[k], WILDCARD_SPEC, m->mat_val[k]);
+            dtAdd(node->action, i, j, WILDCARD_SPEC, value);
           }
         }
       }
-- 
2.43.0


From 3af7a629335bbab4f39e8916bc1c41f0be9624e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 08/42] fix: 'values: cost' models minimize cost instead of
 maximizing it

---
 src/parsers/CassandraParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 3c99c76..26b5d60 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -86,6 +86,10 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
   kmatrix Rk;
   copy(Rk, CASSANDRA_GLOBAL(Q), p.numStates);
   kmatrix_transpose_in_place(Rk);
+  if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {
+    // the planner maximizes reward, which is the negative of cost
+    FOR_EACH(e, Rk.data) { e->value = -e->value; }
+  }
   copy(p.R, Rk);
 
   // convert T, Tr, and O to sla format
-- 
2.43.0


From 45273b3bc8c2b445c3d322a92867abe50148e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 09/42] fix: refuse models with a missing or out-of-range start
 state or the wrong kind instead of crashing

---
 src/parsers/CassandraParser.cc | 21 +++++++++++++++++++++
 src/parsers/pomdp_spec.y       | 15 ++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 26b5d60..10eeea4 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -71,6 +71,27 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     exit(EXIT_FAILURE);
   }
 
+  // check that the model is of the kind we are about to convert
+  if (expectPomdp && POMDP_problem_type != CASSANDRA_GLOBAL(gProblemType)) {
+    cerr << "ERROR: " << p.fileName
+         << ": no 'observations' statement found in POMDP" << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (!expectPomdp) {
+    if (MDP_problem_type != CASSANDRA_GLOBAL(gProblemType)) {
+      cerr << "ERROR: " << p.fileName
+           << ": got unexpected 'observations' statement in MDP" << endl;
+      exit(EXIT_FAILURE);
+    }
+    if (INVALID_STATE == CASSANDRA_GLOBAL(gInitialState)) {
+      cerr << "ERROR: " << p.fileName
+           << ": MDP must have a 'start' statement specifying a known start "
+              "state"
+           << endl;
+      exit(EXIT_FAILURE);
+    }
+  }
+
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
   p.discount = CASSANDRA_GLOBAL(gDiscount);
diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index 367ff22..db152b2 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -969,6 +969,9 @@ void enterResetMatrix() {
         for (j = 0; j < gNumStates; j++)
           addEntryToIMatrix(IP[a], i, j, gInitialBelief[j]);
 
+  else if (gInitialState == INVALID_STATE) /* an MDP with no start state */
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_RESET_USAGE, "");
+
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
@@ -1171,7 +1174,10 @@ void enterMatrix(double value) {
       gTooManyEntries = 1;
 
     else {
-      gInitialState = (int)value;
+      if ((value < 0) || (value >= gNumStates))
+        ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_STATE_VAL, "");
+      else
+        gInitialState = (int)value;
       curCol++;
     }
     break;
@@ -1352,6 +1358,12 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
+  if (i == WILDCARD_SPEC) {
+    for (i = 0; i < gNumStates; i++)
+      enterStartState(i);
+    return;
+  }
+
   switch (curMatrixContext) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
@@ -1505,6 +1517,7 @@ void initParser() {
   currentLineNumber = 1;
   curMnemonic = nt_unknown;
   curMatrixContext = mc_none;
+  gInitialState = INVALID_STATE;
 
 } /* initParser */
 /************************************************************************/
-- 
2.43.0


From 4a05cf5a19328a0e4a85b04ef62084a811e611ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 10/42] fix: the fast parser refuses malformed files and lets
 the last statement about an entry win

---
 src/parsers/FastParser.cc | 173 +++++++++++++++++++++++++-------------
 1 file changed, 114 insertions(+), 59 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index b874219..c8d1103 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -27,6 +27,7 @@
 #include <sys/time.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 
@@ -55,6 +56,42 @@ static void trimTrailingWhiteSpace(char *s) {
   s[i + 1] = '\0';
 }
 
+static void checkRange(const std::string &fileName, int lineNumber,
+                       const char *name, int val, int numVals) {
+  if (val < 0 || val >= numVals) {
+    cerr << "ERROR: " << fileName << ": line " << lineNumber << ": " << name
+         << " index " << val << " is out of range" << endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
+static void checkProb(const std::string &fileName, int lineNumber,
+                      double prob) {
+  if (!(prob >= 0.0 && prob <= 1.0)) {
+    cerr << "ERROR: " << fileName << ": line " << lineNumber
+         << ": probability " << prob << " is out of range" << endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
+static bool entryComesBefore(const kmatrix_entry &x, const kmatrix_entry &y) {
+  return (x.c != y.c) ? (x.c < y.c) : (x.r < y.r);
+}
+
+// If an entry was set more than once, keeps only the last setting.
+static void removeOverriddenEntries(kmatrix &A) {
+  std::stable_sort(A.data.begin(), A.data.end(), entryComesBefore);
+  unsigned int n = 0;
+  FOR(i, A.data.size()) {
+    if (n > 0 && A.data[n - 1].r == A.data[i].r &&
+        A.data[n - 1].c == A.data[i].c) {
+      n--;
+    }
+    A.data[n++] = A.data[i];
+  }
+  A.data.resize(n);
+}
+
 /***************************************************************************
  * POMDP FUNCTIONS
  ***************************************************************************/
@@ -104,6 +141,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   char buf[1 << 20];
   int lineNumber;
   char sbuf[512];
+  char junk;
   bool inPreamble = true;
 
   kmatrix Rx;
@@ -117,12 +155,13 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   bool startSet = false;
 
   const char *rFormat =
-      (expectPomdp ? "R: %d : %d : * : * %lf" : "R: %d : %d : * %lf");
+      (expectPomdp ? "R: %d : %d : * : * %lf %c" : "R: %d : %d : * %lf %c");
 
 #define PM_PREFIX_MATCHES(X) (0 == strncmp(buf, (X), strlen(X)))
 
-  lineNumber = 1;
+  lineNumber = 0;
   while (!in.eof()) {
+    lineNumber++;
     in.getline(buf, sizeof(buf));
     if (in.fail() && !in.eof()) {
       cerr << "ERROR: " << p.fileName << ": line " << lineNumber
@@ -137,14 +176,19 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
     if (inPreamble) {
       if (PM_PREFIX_MATCHES("discount:")) {
-        if (1 != sscanf(buf, "discount: %lf", &p.discount)) {
+        if (1 != sscanf(buf, "discount: %lf %c", &p.discount, &junk)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'discount' statement" << endl;
           exit(EXIT_FAILURE);
         }
+        if (!(p.discount >= 0.0 && p.discount <= 1.0)) {
+          cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+               << ": discount must be in the range 0 to 1" << endl;
+          exit(EXIT_FAILURE);
+        }
         discountSet = true;
       } else if (PM_PREFIX_MATCHES("values:")) {
-        if (1 != sscanf(buf, "values: %s", sbuf)) {
+        if (1 != sscanf(buf, "values: %511s %c", sbuf, &junk)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'values' statement" << endl;
           exit(EXIT_FAILURE);
@@ -158,7 +202,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d", &p.numActions)) {
+        if (1 != sscanf(buf, "actions: %d %c", &p.numActions, &junk) ||
+            p.numActions < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
@@ -166,7 +211,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d", &p.numObservations)) {
+          if (1 != sscanf(buf, "observations: %d %c", &p.numObservations,
+                          &junk) ||
+              p.numObservations < 1) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
@@ -178,7 +225,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates)) {
+        if (1 != sscanf(buf, "states: %d %c", &p.numStates, &junk) ||
+            p.numStates < 1) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
@@ -201,6 +249,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber            \
          << ": at end of preamble, no '" << (NAME) << "' statement found" \
          << endl;                                                         \
+    exit(EXIT_FAILURE);                                                   \
   }
 
         FP_CHECK_SET(discountSet, "discount");
@@ -236,31 +285,44 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       if (PM_PREFIX_MATCHES("R:")) {
         int s, a;
         double reward;
-        if (3 != sscanf(buf, rFormat, &a, &s, &reward)) {
+        if (3 != sscanf(buf, rFormat, &a, &s, &reward, &junk)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in R statement\n"
                << "  (expected format is '" << rFormat << "')" << endl;
           exit(EXIT_FAILURE);
         }
+        checkRange(p.fileName, lineNumber, "action", a, p.numActions);
+        checkRange(p.fileName, lineNumber, "state", s, p.numStates);
         kmatrix_set_entry(Rx, s, a, reward);
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob)) {
+        if (4 != sscanf(buf, "T: %d : %d : %d%*[ \t]%lf %c", &a, &s, &sp, &prob,
+                        &junk)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
         }
+        checkRange(p.fileName, lineNumber, "action", a, p.numActions);
+        checkRange(p.fileName, lineNumber, "state", s, p.numStates);
+        checkRange(p.fileName, lineNumber, "state", sp, p.numStates);
+        checkProb(p.fileName, lineNumber, prob);
         kmatrix_set_entry(Tx[a], s, sp, prob);
       } else if (PM_PREFIX_MATCHES("O:")) {
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob)) {
+          if (4 != sscanf(buf, "O: %d : %d : %d%*[ \t]%lf %c", &a, &s, &o, &prob,
+                          &junk)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
           }
+          checkRange(p.fileName, lineNumber, "action", a, p.numActions);
+          checkRange(p.fileName, lineNumber, "state", s, p.numStates);
+          checkRange(p.fileName, lineNumber, "observation", o,
+                     p.numObservations);
+          checkProb(p.fileName, lineNumber, prob);
           kmatrix_set_entry(Ox[a], s, o, prob);
         } else {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
@@ -273,11 +335,22 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         exit(EXIT_FAILURE);
       }
     }
+  }
 
-    lineNumber++;
+  if (inPreamble) {
+    cerr << "ERROR: " << p.fileName
+         << ": no statements found after the preamble" << endl;
+    exit(EXIT_FAILURE);
   }
 
   // post-process
+  removeOverriddenEntries(Rx);
+  FOR(a, p.numActions) {
+    removeOverriddenEntries(Tx[a]);
+    if (expectPomdp) {
+      removeOverriddenEntries(Ox[a]);
+    }
+  }
   copy(p.R, Rx);
   Rx.clear();
 
@@ -362,69 +435,51 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
   if (expectPomdp) {
     // POMDP case
 
-    int i;
-    char *tok, *saveptr = NULL;
-    double val;
-
-    p.initialBelief.resize(p.numStates);
+    char *tok, *end, *saveptr = NULL;
+    std::vector<double> vals;
+    bool wellFormed = true;
 
     // consume 'start:' token at the beginning of the statement
-    tok = strtok_r(data, " ", &saveptr);
-
-    for (i = 0; i < p.numStates; i++) {
-      if (NULL != tok) {
-        tok = strtok_r(NULL, " ", &saveptr);
-      }
-      if (NULL == tok) {
-        if (0 == i) {
-          double startState = atof(tok);
-          if (startState != floor(startState)) {
-            cout << "ERROR: " << p.fileName
-                 << ": POMDP 'start' statement must either contain a single "
-                    "integer "
-                 << "specifying a known start state or a list of the initial "
-                    "probabilities of "
-                 << "all states" << endl;
-            exit(EXIT_FAILURE);
-          }
-          p.initialBelief.push_back(static_cast<int>(startState), 1.0);
-          return;
-        } else {
-          cout << "ERROR: " << p.fileName
-               << ": POMDP 'start' statement must either contain a single "
-                  "integer "
-               << "specifying a known start state or a list of the initial "
-                  "probabilities of "
-               << "all states" << endl;
-          exit(EXIT_FAILURE);
-        }
-      }
+    strtok_r(data, " \t", &saveptr);
 
-      val = atof(tok);
-      if (val > SPARSE_EPS) {
-        p.initialBelief.push_back(i, val);
-      }
+    while (NULL != (tok = strtok_r(NULL, " \t", &saveptr))) {
+      double val = strtod(tok, &end);
+      wellFormed = wellFormed && ('\0' == *end) && (val >= 0.0);
+      vals.push_back(val);
     }
-  } else {
-    // MDP case
 
-    double x, y;
-    int ret = sscanf(data, "start: %lf %lf", &x, &y);
-    if ((ret != 1) || (x != floor(x))) {
+    p.initialBelief.resize(p.numStates);
+    if (wellFormed && static_cast<int>(vals.size()) == p.numStates) {
+      FOR(i, p.numStates) {
+        if (vals[i] > SPARSE_EPS) {
+          p.initialBelief.push_back(i, vals[i]);
+        }
+      }
+    } else if (wellFormed && 1 == vals.size() && vals[0] == floor(vals[0]) &&
+               vals[0] < p.numStates) {
+      p.initialBelief.push_back(static_cast<int>(vals[0]), 1.0);
+    } else {
       cout << "ERROR: " << p.fileName
-           << ": MDP 'start' statement must contain a single integer "
-           << "specifying a known start state" << endl;
+           << ": POMDP 'start' statement must either contain a single "
+              "integer "
+           << "specifying a known start state or a list of the initial "
+              "probabilities of "
+           << "all states" << endl;
       exit(EXIT_FAILURE);
     }
+  } else {
+    // MDP case
 
-    p.initialState.resize(1);
     int startState;
-    if (1 != sscanf(data, "start: %d", &startState)) {
+    char junk;
+    if (1 != sscanf(data, "start: %d %c", &startState, &junk) ||
+        startState < 0 || startState >= p.numStates) {
       cout << "ERROR: " << p.fileName
            << ": MDP 'start' statement must contain a single integer "
            << "specifying a known start state" << endl;
       exit(EXIT_FAILURE);
     }
+    p.initialState.resize(1);
     p.initialState.push_back(0, startState);
   }
 }
-- 
2.43.0


From 9250d9e62763c2809cf697006ee390acb861dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 11/42] fix: read the last line of a config file even without a
 final newline; refuse overlong lines instead of looping

---
 src/common/zmdpConfig.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 806fe72..c7a3df6 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -78,10 +78,16 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
 
   char buf[1024], field[1024], val[1024];
   int lnum = 0;
-  while (1) {
-    in.getline(buf, sizeof(buf));
+  string line;
+  // the last line counts even if it is not terminated by a newline
+  while (getline(in, line)) {
     lnum++;
-    if (in.eof()) break;
+    if (line.size() >= sizeof(buf)) {
+      fprintf(stderr, "ERROR: %s:%d: line too long\n", sourceName.c_str(),
+              lnum);
+      exit(EXIT_FAILURE);
+    }
+    snprintf(buf, sizeof(buf), "%s", line.c_str());
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
     if (0 == strncmp(buf, "alias", 5)) {
-- 
2.43.0


From 685c8c100293704e61354399d55f023090dc6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 12/42] fix: refuse config values that are not of the field's
 type instead of silently reading them as 0

---
 src/common/zmdpConfig.cc | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index c7a3df6..f721cc3 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -167,22 +168,44 @@ const std::string &ZMDPConfig::getString(const std::string &field) const {
   return ci->second;
 }
 
+static void badValue(const std::string &field, const std::string &val,
+                     const char *expected) {
+  fprintf(stderr,
+          "ERROR: invalid value '%s' for config field '%s', expected %s\n",
+          val.c_str(), field.c_str(), expected);
+  exit(EXIT_FAILURE);
+}
+
 int ZMDPConfig::getInt(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like an integer here
-  return atoi(s.c_str());
+  char *end;
+  errno = 0;
+  long val = strtol(s.c_str(), &end, 10);
+  if (end == s.c_str() || *end != '\0' || errno == ERANGE || val < INT_MIN ||
+      val > INT_MAX) {
+    badValue(field, s, "an integer");
+  }
+  return static_cast<int>(val);
 }
 
 double ZMDPConfig::getDouble(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a double here
-  return atof(s.c_str());
+  char *end;
+  double val = strtod(s.c_str(), &end);
+  if (end == s.c_str() || *end != '\0') {
+    badValue(field, s, "a number");
+  }
+  return val;
 }
 
 bool ZMDPConfig::getBool(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a boolean value here
-  return (0 != atoi(s.c_str()));
+  char *end;
+  long val = strtol(s.c_str(), &end, 10);
+  if (end == s.c_str() || *end != '\0') {
+    badValue(field, s, "a boolean (0 or 1)");
+  }
+  return (0 != val);
 }
 
 bool ZMDPConfig::defined(const std::string &field) const {
-- 
2.43.0


From 2a1de615a8180326945da4be6c93ec0577e0436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 13/42] fix: refuse policies that do not fit the model instead
 of reading out of bounds

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 58 +++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 8d290c7..2d8fb01 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -581,15 +581,14 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
     exit(EXIT_FAILURE);
   }
 
-  char buf[1024];
+  std::string buf;
   std::string s;
   LBPlane plane;
-  int entryIndex;
+  int entryIndex, lastEntryIndex = -1;
   double entryVal;
   int parseState = 0;
   int lnum = 0;
-  while (!inFile.eof()) {
-    inFile.getline(buf, sizeof(buf));
+  while (getline(inFile, buf)) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
@@ -627,7 +626,15 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
         /* at the start of a plane, read the action */
         if (string::npos != s.find("action") &&
             (1 == sscanf(s.c_str(), "action => %d", &plane.action))) {
+          if (plane.action < 0 || plane.action >= pomdp->numActions) {
+            fprintf(stderr,
+                    "ERROR: %s: line %d: action %d is out of range (model has "
+                    "%d actions)\n",
+                    inFileName.c_str(), lnum, plane.action, pomdp->numActions);
+            exit(EXIT_FAILURE);
+          }
           plane.alpha.resize(pomdp->numStates);
+          lastEntryIndex = -1;
           parseState = 2;
         } else {
           fprintf(stderr, "ERROR: %s: line %d: expected 'action => <int>'\n",
@@ -645,6 +652,16 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
           parseState = 1;
           goto parseLineAgain;
         } else if (2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal)) {
+          if (entryIndex <= lastEntryIndex ||
+              entryIndex >= pomdp->numStates) {
+            fprintf(stderr,
+                    "ERROR: %s: line %d: state index %d is out of range or out "
+                    "of order (model has %d states)\n",
+                    inFileName.c_str(), lnum, entryIndex, pomdp->numStates);
+            exit(EXIT_FAILURE);
+          }
+          lastEntryIndex = entryIndex;
+
           /* push another entry into the plane */
           plane.alpha.push_back(entryIndex, entryVal);
         } else {
@@ -666,6 +683,12 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
     addLBPlane(new LBPlane(plane));
   }
 
+  if (planes.empty()) {
+    fprintf(stderr, "ERROR: %s: policy contains no planes\n",
+            inFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
+
   inFile.close();
 
   // the set of planes should have been pruned before it was written out
@@ -685,6 +708,8 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
   }
 
   double val;
+  std::string word;
+  char *end;
   LBPlane plane;
 
   // initialize elements that are the same for all planes
@@ -693,16 +718,37 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
 
   // reading the action label fails at the end of the file, even if the last
   // vector is followed by white space
-  while (inFile >> plane.action) {
+  while (inFile >> word) {
+    plane.action = strtol(word.c_str(), &end, 10);
+    if (*end != '\0' || plane.action < 0 ||
+        plane.action >= pomdp->numActions) {
+      fprintf(stderr,
+              "ERROR: %s: expected an action number, got '%s' (model has %d "
+              "actions)\n",
+              inFileName.c_str(), word.c_str(), pomdp->numActions);
+      exit(EXIT_FAILURE);
+    }
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-      inFile >> val;
+      if (!(inFile >> val)) {
+        fprintf(stderr,
+                "ERROR: %s: alpha vector %d does not have %d numeric entries\n",
+                inFileName.c_str(), static_cast<int>(planes.size()),
+                pomdp->numStates);
+        exit(EXIT_FAILURE);
+      }
       plane.alpha.push_back(i, val);
     }
     addLBPlane(new LBPlane(plane));
   }
 
+  if (planes.empty()) {
+    fprintf(stderr, "ERROR: %s: policy contains no alpha vectors\n",
+            inFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
+
   inFile.close();
 
   // the set of planes should have been pruned before it was written out
-- 
2.43.0


From c5a3ec51f8753b98e7520e1a92fe31a3dd985e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 14/42] fix: blank lines of spaces are ignored in policy and
 log files, as intended, instead of refused

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 2 +-
 src/search/StateLog.cc                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 2d8fb01..12c4e5f 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -58,7 +58,7 @@ static std::string stripWhiteSpace(const std::string &s) {
   string::size_type p1, p2;
   p1 = s.find_first_not_of(" \t");
   if (string::npos == p1) {
-    return s;
+    return "";
   } else {
     p2 = s.find_last_not_of(" \t") + 1;
     return s.substr(p1, p2 - p1);
diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index cd31ca8..a8de34e 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -39,7 +39,7 @@ static std::string stripWhiteSpace(const std::string &s) {
   string::size_type p1, p2;
   p1 = s.find_first_not_of(" \t");
   if (string::npos == p1) {
-    return s;
+    return "";
   } else {
     p2 = s.find_last_not_of(" \t") + 1;
     return s.substr(p1, p2 - p1);
-- 
2.43.0


From f43226db8a54bb008fb42e471f9ae8452898c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 15/42] fix: check MDP start states and start-state wildcards
 outside the grammar, which stays as it was

---
 src/parsers/mdp.c           | 28 +++++++++++++++++++++++++---
 src/parsers/pomdp_spec.y    | 15 +--------------
 src/parsers/sparse-matrix.c |  8 ++++++++
 3 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/parsers/mdp.c b/src/parsers/mdp.c
index 1ed0d3d..af8ee09 100644
--- a/src/parsers/mdp.c
+++ b/src/parsers/mdp.c
@@ -89,6 +89,8 @@ Matrix Q; /* Immediate values for state action pairs.  These are
    especially when doing simulation type experiments.  The belief
    state is for POMDPs and the initial state for an MDP */
 
+#define NO_WILDCARD -1.0 /* no wildcard seen in a list of start states */
+
 double *gInitialBelief;
 int gInitialState = INVALID_STATE;
 
@@ -168,6 +170,9 @@ int readMDP(char *filename) {
     return (0);
   }
 
+  /* no start state is known until the file specifies one */
+  gInitialState = INVALID_STATE;
+
   if (readMDPFile(file) == 0) {
     fprintf(stderr, "MDP file '%s' was not successfully parsed!\n", filename);
     return (0);
@@ -216,7 +221,12 @@ void allocateIntermediateMDP() {
     /* way, so it is just a vector of the number of states. We */
     /* initialize it to be all zeroes.  */
 
-    gInitialBelief = (double *)calloc(gNumStates, sizeof(double));
+    /* The extra element in front is where the parser's entry for the
+       wildcard (state -1) in a list of start states goes, which is not
+       meaningful there; convertMatrices() refuses it. */
+
+    gInitialBelief = (double *)calloc(gNumStates + 1, sizeof(double)) + 1;
+    gInitialBelief[-1] = NO_WILDCARD;
 
   } /* if POMDP */
 
@@ -287,7 +297,7 @@ void deallocateIntermediateMDP() {
 
   if (gProblemType == POMDP_problem_type) {
     free(IR);
-    free(gInitialBelief);
+    free(gInitialBelief - 1);
   }
 
   destroyIMatrix(IQ);
@@ -356,6 +366,18 @@ void convertMatrices() {
   int a;
   struct timeval startTime, endTime;
 
+  /* The initial state of an MDP is used as an index from here on */
+  if ((gProblemType == MDP_problem_type) && (gInitialState != INVALID_STATE) &&
+      ((gInitialState < 0) || (gInitialState >= gNumStates))) {
+    fprintf(stderr, "ERROR: start state %d is out of range\n", gInitialState);
+    exit(EXIT_FAILURE);
+  }
+  if ((gProblemType == POMDP_problem_type) &&
+      (gInitialBelief[-1] != NO_WILDCARD)) {
+    fprintf(stderr, "ERROR: wildcard used in the list of start states\n");
+    exit(EXIT_FAILURE);
+  }
+
   /* Allocate room for each action */
   P = (Matrix *)malloc(gNumActions * sizeof(*P));
   R = (Matrix *)malloc(gNumActions * sizeof(*R));
@@ -470,7 +492,7 @@ void deallocateMDP() {
 
   if (gProblemType == POMDP_problem_type) {
     free(R);
-    free(gInitialBelief);
+    free(gInitialBelief - 1);
   }
 
   destroyMatrix(Q);
diff --git a/src/parsers/pomdp_spec.y b/src/parsers/pomdp_spec.y
index db152b2..367ff22 100644
--- a/src/parsers/pomdp_spec.y
+++ b/src/parsers/pomdp_spec.y
@@ -969,9 +969,6 @@ void enterResetMatrix() {
         for (j = 0; j < gNumStates; j++)
           addEntryToIMatrix(IP[a], i, j, gInitialBelief[j]);
 
-  else if (gInitialState == INVALID_STATE) /* an MDP with no start state */
-    ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_RESET_USAGE, "");
-
   else /* It is an MDP */
     for (a = minA; a <= maxA; a++)
       for (i = minI; i <= maxI; i++)
@@ -1174,10 +1171,7 @@ void enterMatrix(double value) {
       gTooManyEntries = 1;
 
     else {
-      if ((value < 0) || (value >= gNumStates))
-        ERR_enter("Parser<enterMatrix>:", currentLineNumber, BAD_STATE_VAL, "");
-      else
-        gInitialState = (int)value;
+      gInitialState = (int)value;
       curCol++;
     }
     break;
@@ -1358,12 +1352,6 @@ void enterStartState(int i) {
   if (gProblemType == MDP_problem_type)
     return;
 
-  if (i == WILDCARD_SPEC) {
-    for (i = 0; i < gNumStates; i++)
-      enterStartState(i);
-    return;
-  }
-
   switch (curMatrixContext) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
@@ -1517,7 +1505,6 @@ void initParser() {
   currentLineNumber = 1;
   curMnemonic = nt_unknown;
   curMatrixContext = mc_none;
-  gInitialState = INVALID_STATE;
 
 } /* initParser */
 /************************************************************************/
diff --git a/src/parsers/sparse-matrix.c b/src/parsers/sparse-matrix.c
index 0f6a534..8fbfed2 100644
--- a/src/parsers/sparse-matrix.c
+++ b/src/parsers/sparse-matrix.c
@@ -33,6 +33,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include "parse_err.h"
+
 /**********************************************************************/
 /********************  Routines for row linked lists  *****************/
 /**********************************************************************/
@@ -230,6 +232,12 @@ void destroyIMatrix(I_Matrix i_matrix) {
 int addEntryToIMatrix(I_Matrix i_matrix, int row, int col, double value) {
   assert((i_matrix != NULL) && (row >= 0) && (row < i_matrix->num_rows));
 
+  /* a 'reset' in an MDP with no start state */
+  if (col < 0) {
+    ERR_enter("addEntryToIMatrix:", NO_LINE, BAD_RESET_USAGE, "");
+    return (0);
+  }
+
   i_matrix->row[row] = addEntryToRow(i_matrix->row[row], col, value,
                                      &(i_matrix->row_length[row]), 0);
 
-- 
2.43.0


From 39e77be5d14b3a3d2679d32c3fe62b923e220982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 16/42] fix: HDP forgets low links between trials, so converged
 components get labelled

---
 src/search/HDP.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search/HDP.cc b/src/search/HDP.cc
index 486d8c3..288fcf9 100644
--- a/src/search/HDP.cc
+++ b/src/search/HDP.cc
@@ -193,9 +193,10 @@ bool HDP::doTrial(MDPNode &cn) {
 
   index = 0;
   trialRecurse(cn, 0);
-  // reset idx to +infinity for visited states
+  // reset idx and low to +infinity for visited states
   while (!visited.empty()) {
     getIdx(*visited.top()) = RT_IDX_PLUS_INFINITY;
+    getLow(*visited.top()) = RT_IDX_PLUS_INFINITY;
     visited.pop();
   }
   nodeStack.clear();
-- 
2.43.0


From 016f73287922b27aba108b34e5b17f076ceacd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 17/42] fix: evaluation runs exactly the requested number of
 trials

---
 src/exec/PolicyEvaluator.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 83ffa45..e6edd3b 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -93,19 +93,22 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   // parameter 30 is arbitrary, trying to guarantee valid statistics
   int numBatches = std::min(evaluationTrialsPerEpoch, 30);
-  int numTrialsPerBatch = evaluationTrialsPerEpoch / numBatches;
 
   rewards.resize(numBatches);
-  double successRateSum = 0.0;
+  double successSum = 0.0;
   int startTrialIndex = 0;
   for (int i = 0; i < numBatches; i++) {
+    // spread any remainder over the first batches so that the requested number
+    // of trials is run
+    int numTrials = evaluationTrialsPerEpoch / numBatches +
+                    ((i < evaluationTrialsPerEpoch % numBatches) ? 1 : 0);
     dvector batchRewards;
     double batchSuccessRate;
-    doBatch(batchRewards, batchSuccessRate, numTrialsPerBatch,
+    doBatch(batchRewards, batchSuccessRate, numTrials,
             std::max(0, simulationTracesToLogPerEpoch - startTrialIndex));
-    rewards(i) = sum(batchRewards) / numTrialsPerBatch;
-    successRateSum += batchSuccessRate;
-    startTrialIndex += numTrialsPerBatch;
+    rewards(i) = sum(batchRewards) / numTrials;
+    successSum += batchSuccessRate * numTrials;
+    startTrialIndex += numTrials;
   }
   printf("\n");
 
@@ -115,7 +118,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   }
   printf("\n");
 
-  successRate = successRateSum / numBatches;
+  successRate = successSum / evaluationTrialsPerEpoch;
 
   // cleanup
 #define DELETE_AND_NULL(x) \
-- 
2.43.0


From 596a46b03e689103412893bcd555a4ef17ae87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 18/42] fix: evaluate refuses a trial count below 1 and an
 unwritable scores file

---
 src/exec/PolicyEvaluator.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index e6edd3b..246f614 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -66,6 +66,12 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   useEvaluationCache = config->getBool("useEvaluationCache");
   evaluationTrialsPerEpoch = config->getInt("evaluationTrialsPerEpoch");
+  if (evaluationTrialsPerEpoch < 1) {
+    fprintf(stderr,
+            "ERROR: evaluationTrialsPerEpoch must be at least 1 (got %d)\n",
+            evaluationTrialsPerEpoch);
+    exit(EXIT_FAILURE);
+  }
   evaluationMaxStepsPerTrial = config->getInt("evaluationMaxStepsPerTrial");
   scoresOutputFile = config->getString("scoresOutputFile");
   simulationTraceOutputFile = config->getString("simulationTraceOutputFile");
@@ -84,7 +90,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   if (verbose) {
     scoresOutFile = new ofstream(scoresOutputFile.c_str());
-    if (!scoresOutFile) {
+    if (!(*scoresOutFile)) {
       fprintf(stderr, "ERROR: couldn't open %s for writing: %s\n",
               scoresOutputFile.c_str(), strerror(errno));
       exit(EXIT_FAILURE);
-- 
2.43.0


From c037dc4d2348cb644e689e7f15727aa9ec51b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 19/42] fix: evaluation cache no longer replays a cached action
 when the planner's belief differs

---
 src/exec/PolicyEvaluator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 246f614..3dfe715 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -202,7 +202,9 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
          (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
          j++) {
       int a;
-      if (-1 == simState->userInt) {
+      if (!assumeIdenticalModels || -1 == simState->userInt) {
+        // (when the models differ, the planner's belief can be different each
+        // time the simulator is in this state, so its choice can't be cached)
         a = exec->chooseAction();
         simState->userInt = a;
       } else {
-- 
2.43.0


From 3e4dda0177c804b9c61bc9f41de65997327c9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 20/42] fix: evaluation cache reweights whenever all outcomes
 were seen, independent of round-off

---
 src/exec/PolicyEvaluator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 3dfe715..f9ca6fc 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -24,6 +24,7 @@
 
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <sys/time.h>
@@ -280,7 +281,8 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
           CMDPEdge *e = Qa->outcomes[o];
           if (NULL != e) {
             if (-1 != e->userInt) {
-              if (probSum == 1.0) {
+              // (all outcomes were seen, up to round-off error)
+              if (fabs(probSum - 1.0) < 1e-9) {
                 e->userDouble = Qa->opv(o) / (e->userInt / cntSum);
               } else {
                 e->userDouble = 1.0;
-- 
2.43.0


From 124f612549253044ec3f063b14318e859d9399cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 21/42] fix: a sparse vector without entries hashes to its own
 key, not to the key of the vector hashed before it

---
 src/common/MatrixUtils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index c2dfd2a..f70ad86 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -193,13 +193,14 @@ inline const char *hashable(const dvector &b) {
   static char *buf = NULL;
   static unsigned int n = 0;
 
-  if (b.size() > n) {
+  if (b.size() > n || NULL == buf) {
     n = b.size();
     if (NULL != buf) delete[] buf;
     buf = new char[n * HASH_VECTOR_LEN + 1];
   }
 
   char *pos = buf;
+  *pos = '\0';
   FOR(i, b.size()) {
     pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, i, b(i));
   }
@@ -210,13 +211,14 @@ inline const char *hashable(const cvector &b) {
   static char *buf = NULL;
   static unsigned int n = 0;
 
-  if (b.size() > n) {
+  if (b.size() > n || NULL == buf) {
     n = b.size();
     if (NULL != buf) delete[] buf;
     buf = new char[n * HASH_VECTOR_LEN + 1];
   }
 
   char *pos = buf;
+  *pos = '\0';
   FOR_CV(b) {
     pos += snprintf(pos, HASH_VECTOR_LEN, HASH_VECTOR_PRECISION, CV_INDEX(b),
                     CV_VAL(b));
-- 
2.43.0


From 8342bd3b4d6eff1f78ae8e87c90709437c914d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 22/42] fix: race track map reading: last line without newline,
 places outside the map, invalid properties, missing map or start

---
 src/mdps/RaceTrack.cc | 87 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index b72b42a..f6c5666 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <float.h>
 #include <getopt.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -71,6 +72,7 @@ struct PropertyList {
   PropertyList(void);
   void setValue(const string &key, const string &value);
   const string &getValue(const string &key) const;
+  double getNumber(const string &key, double minVal, double maxVal) const;
   void readFromFile(const string &fname, char endMarker);
 };
 
@@ -90,6 +92,19 @@ const string &PropertyList::getValue(const string &key) const {
   return p->second;
 }
 
+double PropertyList::getNumber(const string &key, double minVal,
+                               double maxVal) const {
+  const string &value = getValue(key);
+  char *end;
+  double x = strtod(value.c_str(), &end);
+  if (end == value.c_str() || '\0' != *end || !(minVal <= x && x <= maxVal)) {
+    fprintf(stderr, "ERROR: invalid value '%s' for spec file parameter %s\n",
+            value.c_str(), key.c_str());
+    exit(EXIT_FAILURE);
+  }
+  return x;
+}
+
 void PropertyList::readFromFile(const string &fname, char endMarker) {
   inFile = fopen(fname.c_str(), "r");
   if (NULL == inFile) {
@@ -130,8 +145,17 @@ struct TrackMap {
 
   TrackMap(void);
   ~TrackMap(void);
-  bool getIsOpen(int x, int y) const { return open[width * y + x]; }
-  bool getIsFinish(int x, int y) const { return finish[width * y + x]; }
+  // cells outside the map are closed
+  bool isInside(int x, int y) const {
+    return 0 <= x && x < static_cast<int>(width) && 0 <= y &&
+           y < static_cast<int>(height);
+  }
+  bool getIsOpen(int x, int y) const {
+    return isInside(x, y) && open[width * y + x];
+  }
+  bool getIsFinish(int x, int y) const {
+    return isInside(x, y) && finish[width * y + x];
+  }
   int lineType(int x0, int y0, int dx, int dy) const;
   void readFromFile(const std::string &mapFileName, FILE *mapFile, int lnum);
 };
@@ -200,17 +224,25 @@ int TrackMap::lineType(int x0, int y0, int dx, int dy) const {
 void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
                             int lnum) {
   char lbuf[1024];
-  char data[1024 * 1024];
+  string data;
   unsigned int i = 0;
   width = 0;
+  height = 0;
   while (NULL != fgets(lbuf, sizeof(lbuf), mapFile)) {
     lnum++;
-    if (0 == strlen(lbuf)) continue;
     if ('#' == lbuf[0]) continue;
-    if (0 == width) {
-      width = strlen(lbuf);
+    string line(lbuf);
+    if (!line.empty() && '\n' == line[line.size() - 1]) {
+      line.erase(line.size() - 1);
+    } else if (!feof(mapFile)) {
+      fprintf(stderr, "ERROR: %s: line %d: map line is too long\n",
+              mapFileName.c_str(), lnum);
+      exit(EXIT_FAILURE);
+    }
+    if (0 == height) {
+      width = line.size();
     } else {
-      if (width != strlen(lbuf)) {
+      if (width != line.size()) {
         fprintf(stderr,
                 "ERROR: %s: line %d: map line lengths don't match (delete "
                 "trailing whitespace?)\n",
@@ -218,11 +250,13 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
         exit(EXIT_FAILURE);
       }
     }
-    assert(i + width < sizeof(data));
-    memcpy(&data[i], lbuf, width);
-    i += width;
+    data += line;
+    height++;
+  }
+  if (0 == width) {
+    fprintf(stderr, "ERROR: %s: the map is missing\n", mapFileName.c_str());
+    exit(EXIT_FAILURE);
   }
-  height = i / width;
 
   unsigned int numPixels = width * height;
   open = new unsigned char[numPixels];
@@ -236,6 +270,11 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
       startY.push_back(i / width);
     }
   }
+  if (startX.empty()) {
+    fprintf(stderr, "ERROR: %s: the map has no start cell ('s')\n",
+            mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 }
 
 /**********************************************************************
@@ -246,10 +285,19 @@ struct RTLowerBound : public AbstractBound {
   RaceTrack *problem;
 
   explicit RTLowerBound(RaceTrack *_problem) : problem(_problem) {}
-  void initialize(double targetPrecision) {}
+  void initialize(double targetPrecision);
   double getValue(const state_vector &s, const MDPNode *cn) const;
 };
 
+void RTLowerBound::initialize(double targetPrecision) {
+  if (!problem->useMaxCost && 1.0 == problem->discount) {
+    fprintf(stderr,
+            "ERROR: no lower bound is known for an undiscounted race track "
+            "without maxCost\n");
+    exit(EXIT_FAILURE);
+  }
+}
+
 double RTLowerBound::getValue(const state_vector &s, const MDPNode *cn) const {
   double maxCost;
   if (IS_TERMINAL_STATE(s)) {
@@ -398,15 +446,20 @@ void RaceTrack::readFromFile(const std::string &specFileName) {
 
   PropertyList plist;
   plist.readFromFile(specFileName, /* endMarker = */ '-');
-  discount = atof(plist.getValue("discount").c_str());
-  errorProbability = atof(plist.getValue("errorProbability").c_str());
-  useMaxCost = atoi(plist.getValue("useMaxCost").c_str());
+  discount = plist.getNumber("discount", 0, 1);
+  if (0 == discount) {
+    fprintf(stderr, "ERROR: %s: discount must be positive\n",
+            specFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
+  errorProbability = plist.getNumber("errorProbability", 0, 1);
+  useMaxCost = plist.getNumber("useMaxCost", 0, 1);
   if (useMaxCost) {
-    maxCost = atof(plist.getValue("maxCost").c_str());
+    maxCost = plist.getNumber("maxCost", 0, DBL_MAX);
   } else {
     maxCost = -1;  // n/a
   }
-  useErrorIsWind = atoi(plist.getValue("useErrorIsWind").c_str());
+  useErrorIsWind = plist.getNumber("useErrorIsWind", 0, 1);
 
   tmap = new TrackMap();
   tmap->readFromFile(specFileName, plist.inFile, plist.lnum);
-- 
2.43.0


From b1a65d36a0523e6b7f187fed474df49bad444680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 23/42] fix: a start cell in row or column 0 is one state
 however the car gets there

---
 src/mdps/RaceTrack.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index f6c5666..a13c71d 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -547,9 +547,12 @@ state_vector &RaceTrack::getNextState(state_vector &result,
                                       const state_vector &s, int a, int o) {
   if (IS_INITIAL_STATE(s)) {
     // transition to one of the starting line cells; which one indicated by o
-    result.resize(4);
-    result.push_back(0, tmap->startX[o]);
-    result.push_back(1, tmap->startY[o]);
+    sla::dvector tmp(4);
+    tmp(0) = tmap->startX[o];
+    tmp(1) = tmap->startY[o];
+    tmp(2) = 0;
+    tmp(3) = 0;
+    copy(result, tmp);
   } else if (IS_TERMINAL_STATE(s)) {
     // terminal state: self-transition with probability 1
     result = s;
-- 
2.43.0


From bb8e615d0bbbc39c96787c0d7406ea79ed45d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 24/42] fix: race track upper bound initialization took costs
 as undiscounted and never ended on most discounted tracks

---
 src/bounds/RelaxUBInitializer.cc | 26 +++++++++++++++++++-------
 src/bounds/RelaxUBInitializer.h  |  5 +++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/bounds/RelaxUBInitializer.cc b/src/bounds/RelaxUBInitializer.cc
index 5b0513b..b408077 100644
--- a/src/bounds/RelaxUBInitializer.cc
+++ b/src/bounds/RelaxUBInitializer.cc
@@ -38,6 +38,8 @@ using namespace MatrixUtils;
 
 #define OBS_IS_ZERO_EPS (1e-10)
 
+#define ZMDP_RELAX_PRIO_EPS (1e-10)
+
 namespace zmdp {
 
 RelaxUBInitializer::RelaxUBInitializer(MDP *_problem, const ZMDPConfig *_config)
@@ -148,15 +150,21 @@ int RelaxUBInitializer::getMaxUBAction(MDPNode &cn, double *maxUBValP,
 }
 
 void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
-                                      double altActionPrio, int depth) {
+                                      double discSoFar, double altActionPrio,
+                                      int depth) {
   // update to ensure cached values in cn.Q are correct
   update(cn);
   double maxUBVal, secondBestUBVal;
   int maxUBAction = getMaxUBAction(cn, &maxUBVal, &secondBestUBVal);
 
-  // check for termination
-  double actionPrio = costSoFar + cn.ubVal;
-  if (altActionPrio > actionPrio) {
+  // check for termination: nothing is left to gain from a node that has
+  // converged to within the precision wanted at the root
+  if (discSoFar * (cn.ubVal - cn.lbVal) < targetWidth) return;
+
+  // the alternative must be better by more than round-off error, otherwise
+  // trials could stop at this point forever without making progress
+  double actionPrio = costSoFar + discSoFar * cn.ubVal;
+  if (altActionPrio > actionPrio + ZMDP_RELAX_PRIO_EPS) {
     if (zmdpDebugLevelG >= 1) {
       printf(
           "  RB trialRecurse: depth=%d [%g .. %g] costSoFar=%g "
@@ -191,11 +199,13 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   }
 
   // recurse to successor
-  double nextCostSoFar = costSoFar + cn.Q[maxUBAction].immediateReward;
+  double nextCostSoFar =
+      costSoFar + discSoFar * cn.Q[maxUBAction].immediateReward;
+  double nextDiscSoFar = discSoFar * problem->getDiscount();
   double nextAltActionPrio =
-      std::max(altActionPrio, secondBestUBVal + costSoFar);
+      std::max(altActionPrio, costSoFar + discSoFar * secondBestUBVal);
   trialRecurse(cn.getNextState(maxUBAction, bestOutcome), nextCostSoFar,
-               nextAltActionPrio, depth + 1);
+               nextDiscSoFar, nextAltActionPrio, depth + 1);
 
   update(cn);
 }
@@ -203,6 +213,7 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
 void RelaxUBInitializer::doTrial(MDPNode &cn, double pTarget) {
   trialRecurse(cn,
                /* costSoFar = */ 0,
+               /* discSoFar = */ 1,
                /* altActionPrio = */ -99e+20,
                /* depth = */ 0);
 }
@@ -214,6 +225,7 @@ void RelaxUBInitializer::initialize(double targetPrecision) {
   }
 
   setup(targetPrecision);
+  targetWidth = targetPrecision;
 
   int trialNum = 1;
   double width;
diff --git a/src/bounds/RelaxUBInitializer.h b/src/bounds/RelaxUBInitializer.h
index c55e161..e0ce52d 100644
--- a/src/bounds/RelaxUBInitializer.h
+++ b/src/bounds/RelaxUBInitializer.h
@@ -28,6 +28,7 @@ namespace zmdp {
 struct RelaxUBInitializer : public AbstractBound {
   MDP *problem;
   MDPNode *root;
+  double targetWidth;
   MDPHash *lookup;
   AbstractBound *initLowerBound;
   AbstractBound *initUpperBound;
@@ -43,8 +44,8 @@ struct RelaxUBInitializer : public AbstractBound {
   void update(MDPNode &cn);
   int getMaxUBAction(MDPNode &cn, double *maxUBValP,
                      double *secondBestUBValP) const;
-  void trialRecurse(MDPNode &cn, double costSoFar, double altActionPrio,
-                    int depth);
+  void trialRecurse(MDPNode &cn, double costSoFar, double discSoFar,
+                    double altActionPrio, int depth);
   void doTrial(MDPNode &cn, double pTarget);
 
   // implementation of AbstractBound interface
-- 
2.43.0


From 38b84cbcbd43eb949bb67897ca6926493b36a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:49 +0000
Subject: [PATCH 25/42] fix: FRTDP's depth limit grew until the trial recursion
 overflowed the stack

---
 src/search/FRTDP.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/search/FRTDP.cc b/src/search/FRTDP.cc
index b75a5ec..092b948 100644
--- a/src/search/FRTDP.cc
+++ b/src/search/FRTDP.cc
@@ -37,6 +37,8 @@ using namespace MatrixUtils;
 
 #define FRTDP_INIT_MAX_DEPTH (10)
 #define FRTDP_MAX_DEPTH_ADJUST_RATIO (1.1)
+// trials recurse once per step, so the depth must stay well within the call stack
+#define FRTDP_MAX_DEPTH_LIMIT (10000.0)
 #define FRTDP_QUALITY_MARGIN (1e-5)
 
 namespace zmdp {
@@ -192,7 +194,8 @@ bool FRTDP::doTrial(MDPNode &cn) {
 
   if (updateQualityDiff > -FRTDP_QUALITY_MARGIN) {
     oldMaxDepth = maxDepth;
-    maxDepth *= FRTDP_MAX_DEPTH_ADJUST_RATIO;
+    maxDepth = std::min(maxDepth * FRTDP_MAX_DEPTH_ADJUST_RATIO,
+                        FRTDP_MAX_DEPTH_LIMIT);
     if (zmdpDebugLevelG >= 1) {
       printf("endTrial: updateQualityDiff=%g oldMaxDepth=%g maxDepth=%g\n",
              updateQualityDiff, oldMaxDepth, maxDepth);
-- 
2.43.0


From c68e42ff8ecd9c556d18e20a1650938cb21b0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 26/42] fix: masked planes valued states at 0 whose tiny
 probability had been dropped from a successor belief, so lower bounds could
 exceed the optimum

---
 src/pomdpBounds/BlindLBInitializer.h   |  2 +-
 src/pomdpBounds/MaxPlanesLowerBound.cc | 67 ++++++++++++++++++++++++--
 src/pomdpBounds/MaxPlanesLowerBound.h  |  2 +
 3 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/src/pomdpBounds/BlindLBInitializer.h b/src/pomdpBounds/BlindLBInitializer.h
index 4f8175c..fed7b6f 100644
--- a/src/pomdpBounds/BlindLBInitializer.h
+++ b/src/pomdpBounds/BlindLBInitializer.h
@@ -31,10 +31,10 @@ struct BlindLBInitializer {
 
   BlindLBInitializer(const MDP *_pomdp, MaxPlanesLowerBound *_bound);
   void initialize(double targetPrecision);
+  void initBlindWorstCase(alpha_vector &weakAlpha, int a);
 
  protected:
   void initBlind(double targetPrecision);
-  void initBlindWorstCase(alpha_vector &weakAlpha, int a);
 };
 
 };  // namespace zmdp
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 12c4e5f..b5b6242 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -75,6 +75,22 @@ static bool dominates(const LBPlane *a, const LBPlane *b,
   }
 }
 
+// result is a copy of alpha with extra entries from fillValues for the
+// non-zeros of s that are not in mask
+static void fill_uncovered(alpha_vector &result, const alpha_vector &alpha,
+                           const mvector &mask, const cvector &s,
+                           const dvector &fillValues) {
+  dvector tmp;
+  copy(tmp, alpha);
+  FOR_CV(s) {
+    int i = CV_INDEX(s);
+    if (0.0 == mask(i)) {
+      tmp(i) = fillValues(i);
+    }
+  }
+  copy(result, tmp);
+}
+
 /**********************************************************************
  * LBPLANE
  **********************************************************************/
@@ -150,6 +166,18 @@ void MaxPlanesLowerBound::initialize(double targetPrecision) {
   BlindLBInitializer blb(pomdp, this);
   blb.initialize(targetPrecision);
 
+  FOR(a, pomdp->numActions) {
+    alpha_vector worstCaseA;
+    blb.initBlindWorstCase(worstCaseA, a);
+    if (0 == a) {
+      copy(worstCase, worstCaseA);
+    } else {
+      FOR(s, pomdp->numStates) {
+        worstCase(s) = std::min(worstCase(s), worstCaseA(s));
+      }
+    }
+  }
+
   if (useMaxPlanesCache) {
     // planes from initialization should have their 'age' set appropriately
     FOR_EACH(planeP, planes) { (*planeP)->numBackupsAtCreation = 0; }
@@ -172,13 +200,27 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
   set_to_zero(betaA);
 
   bool defaultIsSet = false;
-  const alpha_vector *defaultBetaAO = NULL;
+  const LBPlane *defaultPlane = NULL;
   const MDPQEntry &Qa = cn.Q[a];
-  alpha_vector maskedBeta;
+  alpha_vector maskedBeta, filledBeta;
+  const mvector *betaMask;
+
+  // successors: the states reachable by taking action a from the states
+  // with non-zero probability in cn.s
+  cvector ones, successors, successorsO;
+  if (useMaxPlanesMasking) {
+    dvector tmpd;
+    mask_set_to_one(ones, cn.s);
+    mult(tmpd, pomdp->Ttr[a], ones);
+    copy(successors, tmpd);
+  }
+
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
-      betaAO = &getPlaneForNode(*e->nextState).alpha;
+      const LBPlane &plane = getPlaneForNode(*e->nextState);
+      betaAO = &plane.alpha;
+      betaMask = &plane.mask;
       if (useMaxPlanesMasking) {
         // occasionally, even if the nextState belief is sparse, the
         // corresponding betaAO is one of the dense alpha vectors produced
@@ -188,6 +230,7 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
         if (betaAO->filled() > cn.s.filled()) {
           mask_copy(maskedBeta, *betaAO, e->nextState->s);
           betaAO = &maskedBeta;
+          betaMask = &e->nextState->s;
         }
       }
     } else {
@@ -195,10 +238,24 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
       // pick the alpha that optimizes for the next belief.  plug in a
       // default alpha (arbitrarily chosen to optimize for cn.s).
       if (!defaultIsSet) {
-        defaultBetaAO = &getPlaneForNode(cn).alpha;
+        defaultPlane = &getPlaneForNode(cn);
         defaultIsSet = true;
       }
-      betaAO = defaultBetaAO;
+      betaAO = &defaultPlane->alpha;
+      betaMask = &defaultPlane->mask;
+    }
+
+    if (useMaxPlanesMasking) {
+      // very small probabilities are dropped from beliefs, so there can be
+      // states that are reachable from cn.s but not covered by betaAO.
+      // their probability is negligible at cn.s, but not at all the other
+      // beliefs that the new plane will apply to, so they must not be
+      // valued at 0.  use their worst-case value instead.
+      emult_column(successorsO, pomdp->O[a], o, successors);
+      if (!mask_subset(successorsO, *betaMask)) {
+        fill_uncovered(filledBeta, *betaAO, *betaMask, successorsO, worstCase);
+        betaAO = &filledBeta;
+      }
     }
 
     emult_column(tmp, pomdp->O[a], o, *betaAO);
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.h b/src/pomdpBounds/MaxPlanesLowerBound.h
index f55a3a6..33a74b4 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.h
+++ b/src/pomdpBounds/MaxPlanesLowerBound.h
@@ -70,6 +70,8 @@ struct MaxPlanesLowerBound : public IncrementalLowerBound {
   bool useMaxPlanesCache;
   bool useMaxPlanesExtraPruning;
   bool initialized;
+  // worst-case long-term reward of each state, whatever actions are taken
+  dvector worstCase;
 
   MaxPlanesLowerBound(const MDP *_pomdp, const ZMDPConfig *_config);
   ~MaxPlanesLowerBound(void);
-- 
2.43.0


From a144642e6c207e9580a9c2296c50d55d81f70c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 27/42] fix: without plane caching a backup could lower a
 node's stored lower bound

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index b5b6242..e36eca3 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -370,7 +370,9 @@ void MaxPlanesLowerBound::setPlaneForNode(MDPNode &cn, LBPlane *newPlane) {
     bdata->bestPlane = newPlane;
     bdata->lastSetPlaneNumBackups = core->numBackups;
     newPlane->backPointers.push_back(&bdata->bestPlane);
-  } else {
+  } else if (newLB > cn.lbVal) {
+    // (a backup can fall short of the previous bound where very small
+    // probabilities were dropped from the successor beliefs)
     cn.lbVal = newLB;
   }
 }
-- 
2.43.0


From f0e8b515c93d276b371e3d12093b35b642beee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 28/42] fix: a backup of a belief at or near a corner could
 raise the upper bound stored for that corner

---
 src/pomdpBounds/SawtoothUpperBound.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 884b36b..366b1db 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -282,7 +282,7 @@ void SawtoothUpperBound::addPoint(BVPair *bv) {
     }
     pts.push_back(bv);
   } else {
-    cornerPts(wc) = bv->v;
+    cornerPts(wc) = std::min(cornerPts(wc), bv->v);
     delete bv;
   }
 }
@@ -299,7 +299,7 @@ void SawtoothUpperBound::addPoint(const belief_vector &b, double val) {
 
     pts.push_back(bv);
   } else {
-    cornerPts(wc) = val;
+    cornerPts(wc) = std::min(cornerPts(wc), val);
   }
 }
 
-- 
2.43.0


From 24f68eb2c9ab56fffb54b0963bee58dca1b657b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 29/42] fix: terminateNumBackups 0 means no limit, as
 documented, instead of ending after one trial

---
 src/search/RTDPCore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 25fa9d3..4e6e8b6 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -78,7 +78,7 @@ void RTDPCore::planInit(MDP *_problem, const ZMDPConfig *_config) {
   initialized = false;
   targetPrecision = config->getDouble("terminateRegretBound");
   terminateNumBackups = config->getInt("terminateNumBackups");
-  if (terminateNumBackups < 0) {
+  if (terminateNumBackups <= 0) {
     terminateNumBackups = INT_MAX;
   }
   bool useTimeWithoutHeuristic = config->getBool("useTimeWithoutHeuristic");
-- 
2.43.0


From 943b8ed25a74121d3aea4f5ba6ce0f1e40b7a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 30/42] fix: the timeout of solve no longer counts the time
 spent reading the model, as documented

---
 src/main/zmdp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index d0fd8f7..0af5412 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -76,6 +76,9 @@ void doSolve(const ZMDPConfig &config) {
   SolverObjects so;
   constructSolverObjects(so, p, config);
 
+  // the timeout does not count time spent reading the model
+  StopWatch planning;
+
   // initialize the solver
   printf("%05d calculating initial heuristics\n",
          static_cast<int>(run.elapsedTime()));
@@ -98,7 +101,7 @@ void doSolve(const ZMDPConfig &config) {
 
     // check timeout
     double elapsed = run.elapsedTime();
-    if (elapsed >= p.terminateWallclockSeconds) {
+    if (planning.elapsedTime() >= p.terminateWallclockSeconds) {
       reachedTimeout = true;
     }
 
-- 
2.43.0


From 696596250aed909022fe147890b4f269b36cc84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 31/42] fix: solve says that the backup limit ended the run
 instead of claiming the regret target was reached

---
 src/main/zmdp.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index 0af5412..da992bf 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -119,7 +119,13 @@ void doSolve(const ZMDPConfig &config) {
   }
 
   // say why the run ended
-  if (reachedTargetPrecision) {
+  int terminateNumBackups = config.getInt("terminateNumBackups");
+  if (reachedTargetPrecision && terminateNumBackups > 0 &&
+      so.bounds->numBackups >= terminateNumBackups) {
+    // (the solver also returns true when it has performed enough backups)
+    printf("%05d terminating run; performed specified number of backups (%d)\n",
+           static_cast<int>(run.elapsedTime()), terminateNumBackups);
+  } else if (reachedTargetPrecision) {
     printf("%05d terminating run; reached target regret bound of %g\n",
            static_cast<int>(run.elapsedTime()), p.terminateRegretBound);
   } else if (reachedTimeout) {
-- 
2.43.0


From ee137b44563e4c6b20777b9ad320b6edc5ee3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 32/42] fix: an unwritable storage file is reported instead of
 silently ignored

---
 src/main/TestDriver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 0549add..48b150f 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -84,8 +84,8 @@ void TestDriver::batchTestIncremental(
   string storageOutputFileName = config.getString("storageOutputFile");
   if (storageOutputFileName != "none") {
     storageOutputFile = new ofstream(storageOutputFileName.c_str());
-    if (!storageOutputFile) {
-      cerr << "ERROR: couldn't open " << storageOutputFile
+    if (!*storageOutputFile) {
+      cerr << "ERROR: couldn't open " << storageOutputFileName
            << " for writing: " << strerror(errno) << endl;
       exit(EXIT_FAILURE);
     }
-- 
2.43.0


From c9bdd25c40c5bc5cb49c0808b897a9ea6220723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 33/42] fix: benchmark backs the policy up without a bash-only
 shell command, which made no backup under other shells

---
 src/main/TestDriver.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 48b150f..656ba65 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -152,19 +152,20 @@ void TestDriver::batchTestIncremental(
       if (NULL != outPolicyFileName) {
         // create a backup of the policy from the last epoch in case policy
         // writing is interrupted
-        string cmd = string("mv ") + outPolicyFileName + " " +
-                     outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to make policy backup");
+        string backupFileName = string(outPolicyFileName) + ".bak";
+        if (0 != rename(outPolicyFileName, backupFileName.c_str()) &&
+            ENOENT != errno) {
+          fprintf(stderr, "failed to make policy backup: %s\n",
+                  strerror(errno));
         }
 
         so.bounds->writePolicy(outPolicyFileName,
                                /* canModifyBounds = */ false);
 
         // delete the backup
-        cmd = string("rm -f ") + outPolicyFileName + ".bak >& /dev/null";
-        if (0 != system(cmd.c_str())) {
-          fprintf(stderr, "failed to delete policy backup");
+        if (0 != unlink(backupFileName.c_str()) && ENOENT != errno) {
+          fprintf(stderr, "failed to delete policy backup: %s\n",
+                  strerror(errno));
         }
       }
 
-- 
2.43.0


From bab028193f85d1ec34e33fcfb9ae753deb54c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:12 +0000
Subject: [PATCH 34/42] fix: the posterior of a very unlikely observation lost
 all its entries and crashed the planner

---
 src/pomdpCore/Pomdp.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pomdpCore/Pomdp.cc b/src/pomdpCore/Pomdp.cc
index 9996197..2d2cf99 100644
--- a/src/pomdpCore/Pomdp.cc
+++ b/src/pomdpCore/Pomdp.cc
@@ -80,13 +80,16 @@ obs_prob_vector &Pomdp::getObsProbVector(obs_prob_vector &result,
 belief_vector &Pomdp::getNextBelief(belief_vector &result,
                                     const belief_vector &b, int a,
                                     int o) const {
-  belief_vector tmp;
+  dvector tmp, joint;
 
-  // result = O_a(:,o) .* (T_a * b)
+  // joint = O_a(:,o) .* (T_a * b)
   mult(tmp, Ttr[a], b);
-  emult_column(result, O[a], o, tmp);
+  emult_column(joint, O[a], o, tmp);
 
-  // renormalize
+  // renormalize before dropping very small entries: if the observation is
+  // unlikely, all of them can be very small
+  joint *= (1.0 / sum(joint));
+  copy(result, joint);
   result *= (1.0 / sum(result));
 
   return result;
-- 
2.43.0


From 11591d1c7daf84a43a286ae83456a94d91658072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 35/42] fix: reading backup logs lost states without nonzero
 entries, looped on long lines and crashed on bad state numbers

---
 src/search/ScriptedUpdater.cc |  1 +
 src/search/StateLog.cc        | 43 +++++++++++++++++++++++------------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/search/ScriptedUpdater.cc b/src/search/ScriptedUpdater.cc
index 0ba7f71..621a013 100644
--- a/src/search/ScriptedUpdater.cc
+++ b/src/search/ScriptedUpdater.cc
@@ -101,6 +101,7 @@ bool ScriptedUpdater::doTrial(MDPNode &cn) {
 
 void ScriptedUpdater::finishLogging(void) {
   maybeLogBackups();
+  if (NULL == stateIndex) return;  // never planned
   stateIndex->writeBoundValuesToFile(boundValuesOutputFile, *bounds);
 }
 
diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index a8de34e..517cb7a 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -115,29 +115,38 @@ void StateIndex::readFromFile(const std::string &inFile) {
   entries.clear();
   lookup.clear();
 
-  char buf[1024];
-  std::string s;
+  std::string line, s;
   state_vector accum(numStateDimensions);
+  bool inState = false;
   int id;
   double val;
+  char extra;
   int lnum = 0;
-  while (!in.eof()) {
-    in.getline(buf, sizeof(buf));
+  while (std::getline(in, line)) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
-    s = stripWhiteSpace(buf);
+    s = stripWhiteSpace(line);
     if (0 == s.size()) continue;
     if ('#' == s[0]) continue;
 
-    if (string::npos != s.find("state")) {
-      if (accum.filled() > 0) {
+    if (0 == s.compare(0, 5, "state")) {
+      // fold in previous state; a state with no nonzero entries counts too
+      if (inState) {
         accum.canonicalize();
         getStateId(accum);
         accum.clear();
       }
+      if (1 != sscanf(s.c_str(), "state %d %c", &id, &extra) ||
+          id != static_cast<int>(entries.size())) {
+        fprintf(stderr, "ERROR: %s:%d: syntax error, expected 'state %d'\n",
+                inFile.c_str(), lnum, static_cast<int>(entries.size()));
+        exit(EXIT_FAILURE);
+      }
+      inState = true;
     } else {
-      if (2 != sscanf(s.c_str(), "%d %lf", &id, &val)) {
+      if (!inState || 2 != sscanf(s.c_str(), "%d %lf %c", &id, &val, &extra) ||
+          id < 0 || id >= numStateDimensions) {
         fprintf(stderr,
                 "ERROR: %s:%d: syntax error, expected '<index> <val>'\n",
                 inFile.c_str(), lnum);
@@ -148,7 +157,7 @@ void StateIndex::readFromFile(const std::string &inFile) {
   }
 
   // fold in last state
-  if (accum.filled() > 0) {
+  if (inState) {
     accum.canonicalize();
     getStateId(accum);
     accum.clear();
@@ -267,24 +276,28 @@ void StateLog::readFromFile(const std::string &inFile) {
 
   entries.clear();
 
-  char buf[1024];
-  std::string s;
+  std::string line, s;
   int id;
+  char extra;
   int lnum = 0;
-  while (!in.eof()) {
-    in.getline(buf, sizeof(buf));
+  while (std::getline(in, line)) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
-    s = stripWhiteSpace(buf);
+    s = stripWhiteSpace(line);
     if (0 == s.size()) continue;
     if ('#' == s[0]) continue;
 
-    if (1 != sscanf(s.c_str(), "%d", &id)) {
+    if (1 != sscanf(s.c_str(), "%d %c", &id, &extra)) {
       fprintf(stderr, "ERROR: %s:%d: syntax error, expected '<index>'\n",
               inFile.c_str(), lnum);
       exit(EXIT_FAILURE);
     }
+    if (id < 0 || id >= static_cast<int>(index->entries.size())) {
+      fprintf(stderr, "ERROR: %s:%d: there is no state %d in the state index\n",
+              inFile.c_str(), lnum, id);
+      exit(EXIT_FAILURE);
+    }
     entries.push_back(id);
   }
 
-- 
2.43.0


From 35d927a51aaed4571547019e07e7407ba67c7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 36/42] fix: aliases defined by other aliases through more than
 three levels stayed unexpanded, and an alias defined by itself looped

---
 src/common/zmdpConfig.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index f721cc3..978d315 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -248,12 +248,22 @@ std::string ZMDPConfig::expandAliases(const std::string &args) {
   // pad with spaces so padded fields will match
   string ret = (" " + args + " ");
 
-  const int numPasses = 3;
-  for (int i = 0; i < numPasses; i++) {
+  // aliases may be defined by other aliases; each pass resolves at least one
+  // level of definitions
+  bool changed = true;
+  for (size_t pass = 0; changed; pass++) {
+    changed = false;
     FOR_EACH(pr, aliases) {
       string field = " " + pr->first + " ";
       string val = " " + pr->second + " ";
+      if (string::npos == ret.find(field)) continue;
+      if (string::npos != val.find(field) || pass >= aliases.size()) {
+        fprintf(stderr, "ERROR: alias %s is defined by itself\n",
+                pr->first.c_str());
+        exit(EXIT_FAILURE);
+      }
       replace_string(ret, field, val);
+      changed = true;
     }
   }
 
-- 
2.43.0


From 37243a2644892d61840fdc77c4aed11bd6688dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 37/42] fix: life-survey states were told apart by an
 unterminated string

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index 64f2dcd..e7c8ef7 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -68,6 +68,7 @@ std::string LSState::toString(void) const {
       snprintf(eltbuf, sizeof(eltbuf), "%1d", rewardLevelInRegion[i]);
       rbuf[i] = eltbuf[0];
     }
+    rbuf[rewardLevelInRegion.size()] = '\0';
     snprintf(buf, sizeof(buf), "sx%dy%dd%du%dn%d%d%dr%s", pos.x, pos.y,
              lastMoveDirection, usedLookaheadInThisCell, lifeInNeighborCell[0],
              lifeInNeighborCell[1], lifeInNeighborCell[2], rbuf);
-- 
2.43.0


From 17622cccdf91fb4e262c7555ec28b087b3757005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 38/42] fix: life-survey maps lost the last character of a file
 without a final newline, and blanks after a list of numbers counted as a
 number

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 31 +++++++++++++----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index b6df89d..e0e511b 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -52,7 +52,10 @@ static void convertToDoubleVector(std::vector<double> &result,
   while (1) {
     p2 = s.find_first_of(" \t", p1);
     if (string::npos == p2) {
-      result.push_back(atof(s.substr(p1).c_str()));
+      // (there is nothing after trailing whitespace)
+      if (p1 < s.size()) {
+        result.push_back(atof(s.substr(p1).c_str()));
+      }
       break;
     } else {
       if (p1 != p2) {
@@ -90,6 +93,13 @@ static std::string getVal(const ParamLookup &params,
   }
 }
 
+/* removes the newline at the end of a line (the last line of a file may not
+   have one) */
+static void truncateNewline(char *line) {
+  int n = strlen(line);
+  if (n > 0 && '\n' == line[n - 1]) line[n - 1] = '\0';
+}
+
 static std::string parseRow(const char *inRow, int isOdd,
                             const std::string &fname, int lnum) {
   int n = strlen(inRow);
@@ -232,7 +242,7 @@ void LSModelFile::readFromFile(const std::string &fname) {
     if (strlen(lbuf) <= 1) continue;
     if ('#' == lbuf[0]) continue;
     if ('-' == lbuf[0]) goto preambleDone;
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate newline
+    truncateNewline(lbuf);
     if (2 != sscanf(lbuf, "%s %[-0-9.eE \t]", key, value)) {
       fprintf(stderr,
               "ERROR: %s: line %d: syntax error, expected '<key> <value>'\n",
@@ -272,18 +282,13 @@ preambleDone:
   std::vector<std::string> rows;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
-    if (strlen(lbuf) <= 1) {
-      if (feof(modelFile)) {
-        break;
-      } else {
-        fprintf(
-            stderr,
-            "ERROR: %s: line %d: found unexpected zero-length line in map\n",
-            fname.c_str(), lnum);
-        exit(EXIT_FAILURE);
-      }
+    truncateNewline(lbuf);
+    if (0 == strlen(lbuf)) {
+      fprintf(stderr,
+              "ERROR: %s: line %d: found unexpected zero-length line in map\n",
+              fname.c_str(), lnum);
+      exit(EXIT_FAILURE);
     }
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate trailing newline
     rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
   }
 
-- 
2.43.0


From 54b233d4f2a8b74564c9fb10fbd6cef79e2467bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 39/42] fix: life-survey maps whose start is not an open cell
 were accepted

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index e0e511b..857c451 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -327,6 +327,13 @@ preambleDone:
     }
   }
 
+  if (LS_OBSTACLE == grid.getCellBounded(LSPos(startX, startY))) {
+    fprintf(stderr,
+            "ERROR: %s: start position (%d,%d) is not an open cell of the map\n",
+            fname.c_str(), startX, startY);
+    exit(EXIT_FAILURE);
+  }
+
   if (static_cast<int>(regionPriors.size()) != grid.getMaxCellValue()) {
     int n = grid.getMaxCellValue();
     fprintf(stderr,
-- 
2.43.0


From 7366bfa435b8fe0331125e8eaa01ec3ded777561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 40/42] fix: life-survey maps with an even number of rows were
 sheared

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 857c451..5802878 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -93,6 +93,11 @@ static std::string getVal(const ParamLookup &params,
   }
 }
 
+/* returns the x coordinate of the first hex drawn in row y of the map.  the top
+   row is the one that is not indented, so which rows are indented (and with
+   them the alignment of the coordinates) depends on the number of rows. */
+static int getFirstXInRow(int y, int height) { return (y + height % 2) / 2; }
+
 /* removes the newline at the end of a line (the last line of a file may not
    have one) */
 static void truncateNewline(char *line) {
@@ -156,9 +161,8 @@ void LSGrid::writeToFile(FILE *outFile, bool showCoords, bool binaryMap) const {
   int y;
   if (showCoords) {
     y = height;
-    fprintf(outFile, "  ");
-    if ((y % 2) == 1) fputc(' ', outFile);
-    for (unsigned int x = (y + 1) / 2; x < width; x++) {
+    fprintf(outFile, "   ");
+    for (unsigned int x = getFirstXInRow(y, height); x < width; x++) {
       fprintf(outFile, "%d ", x % 10);
     }
     fprintf(outFile, "\n");
@@ -168,8 +172,8 @@ void LSGrid::writeToFile(FILE *outFile, bool showCoords, bool binaryMap) const {
     if (showCoords) {
       fprintf(outFile, "%d ", y % 10);
     }
-    if ((y % 2) == 1) fputc(' ', outFile);
-    for (unsigned int x = (y + 1) / 2; x < width; x++) {
+    if ((y0 % 2) == 1) fputc(' ', outFile);
+    for (unsigned int x = getFirstXInRow(y, height); x < width; x++) {
       unsigned char cell = getCell(LSPos(x, y));
       char outCell;
       if (LS_OBSTACLE == cell) {
@@ -194,7 +198,7 @@ void LSGrid::writeToFile(FILE *outFile, bool showCoords, bool binaryMap) const {
     fputc('\n', outFile);
   }
   if (showCoords) {
-    fprintf(outFile, "   ");
+    fprintf(outFile, (height % 2) ? "   " : "    ");
     for (unsigned int x = 0; x < width; x++) {
       fprintf(outFile, "%d ", x % 10);
     }
@@ -296,8 +300,8 @@ preambleDone:
   int maxRowWidth = 0;
   FOR(y0, rows.size()) {
     int y = rows.size() - y0 - 1;
-    maxRowWidth =
-        std::max(maxRowWidth, static_cast<int>((y + 1) / 2 + rows[y0].size()));
+    maxRowWidth = std::max(maxRowWidth, getFirstXInRow(y, rows.size()) +
+                                            static_cast<int>(rows[y0].size()));
   }
 
   /* allocate final map data structure */
@@ -309,7 +313,7 @@ preambleDone:
   FOR(y0, rows.size()) {
     int y = rows.size() - y0 - 1;
     FOR(x0, rows[y0].size()) {
-      int x = (y + 1) / 2 + x0;
+      int x = getFirstXInRow(y, rows.size()) + x0;
       char c = rows[y0][x0];
       unsigned char cell;
       if (' ' == c) {
-- 
2.43.0


From cf66d498604687125f191971543af3128e6b6802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:13 +0000
Subject: [PATCH 41/42] fix: path planning for life surveys lost a region after
 exactly nine cells of it

---
 src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
index 4fb7cd3..5b1aad8 100644
--- a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
+++ b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
@@ -40,6 +40,8 @@ using namespace MatrixUtils;
 using namespace sla;
 
 #define LS_NUM_PATHS_TO_EVALUATE (1000000)
+// (distinct from any count of cells in a region)
+#define LS_REGION_ALREADY_FOLDED (-1)
 #define LS_ABS(x) (((x) < 0) ? -(x) : (x))
 
 namespace zmdp {
@@ -283,12 +285,12 @@ void LSPathAndReactExec::getBestExtension(LSPath &bestPathMatchingPrefix,
   // (all regions are considered unreachable if we are at the exit)
   bool atExit = f.grid.getAtExit(entry.pos);
   FOR(r, f.regionPriors.size()) {
-    if (LS_UNREACHABLE != nextValueSoFar.regionCounts[r]) {
+    if (LS_REGION_ALREADY_FOLDED != nextValueSoFar.regionCounts[r]) {
       if (atExit || !m.regionReachable[r].getCell(entry.pos)) {
         double probLifeIsSampledInRegion =
             1 - pow(1 - f.regionPriors[r], nextValueSoFar.regionCounts[r]);
         nextValueSoFar.unreachableRegionValue += probLifeIsSampledInRegion;
-        nextValueSoFar.regionCounts[r] = LS_UNREACHABLE;
+        nextValueSoFar.regionCounts[r] = LS_REGION_ALREADY_FOLDED;
       }
     }
   }
-- 
2.43.0


From 79d64f9c2ec3b3facb590c5b4dc7437c177948ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:03 +0000
Subject: [PATCH 42/42] fix: products of a matrix that is not square with a
 vector had the wrong size

---
 src/common/sla.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/sla.h b/src/common/sla.h
index 676163d..29b39c4 100644
--- a/src/common/sla.h
+++ b/src/common/sla.h
@@ -701,7 +701,7 @@ inline void mult(dvector &result, const cmatrix &A, const cvector &x) {
   int xind;
   double xval;
 
-  result.resize(x.size());
+  result.resize(A.size1());
 
   FOR_EACH(xi, x.data) {
     xind = xi->index;
@@ -729,19 +729,19 @@ inline void mult(cvector &result, const cmatrix &A, const cvector &x) {
     cvector tmp;
     cvector accum;
 
-    accum.resize(x.size());
+    accum.resize(A.size1());
     FOR_EACH(xi, x.data) {
       xind = xi->index;
       xval = xi->value;
       col_end = A.data.begin() + A.col_starts[xind + 1];
-      tmp.resize(x.size());
+      tmp.resize(A.size1());
       for (Ai = A.data.begin() + A.col_starts[xind]; Ai != col_end; Ai++) {
         tmp.push_back(Ai->index, xval * Ai->value);
       }
       accum += tmp;
     }
 
-    result.resize(x.size());
+    result.resize(A.size1());
     FOR_EACH(ai, accum.data) {
       if (fabs(ai->value) > SPARSE_EPS) {
         result.data.push_back(*ai);
-- 
2.43.0

