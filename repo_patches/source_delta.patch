From f91533edc8e3ffdedc705429fb9166b9ee03be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 01/27] verif hook: PANDA_VERIF_HASH_BUCKETS sets the number of
 hash buckets of the visited list

---
 src/VisitedList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 8c22c10..c5f876f 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -96,6 +96,9 @@ VisitedList::VisitedList(Model *m, bool _noVisitedCheck, bool _noReOpening, bool
 
 
 	this->hashingP = tenMillionP; 
+#ifdef PANDA_VERIF_HASH_BUCKETS
+	this->hashingP = PANDA_VERIF_HASH_BUCKETS; // verification hook: a small table, so that buckets collide
+#endif
 	this->stateTable = new hash_table(hashingP);
 	if (!useSequencesMode)
 		this->bitsNeededPerTask = sizeof(int)*8 -  __builtin_clz(m->numTasks - 1);
-- 
2.43.0


From 12c5b904376f32098a7af99d74352f9d11f54f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 02/27] fix: match task networks with one consistent task
 mapping in the visited list

The GI check for partially ordered networks passed the mapping by value into
the comparison of a pair's successors, so siblings could map a shared successor
to different steps. Non-isomorphic networks were considered equal, and search
nodes were pruned although their network had not been visited.
---
 src/VisitedList.cpp | 47 +++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index c5f876f..be10d4e 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -159,7 +159,8 @@ void to_dfs(planStep *s, vector<int> &seq) {
 
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping);
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 list<pair<planStep *, planStep *>> todo);
 
 
 void getSortedTasks(planStep **network, int size, int *succ);
@@ -169,14 +170,22 @@ bool matchingGenerate(
         map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping,
         map<int, set<planStep *>> oneNextTasks,
         map<int, set<planStep *>> otherNextTasks,
-        unordered_set<int> tasks
+        unordered_set<int> tasks,
+        list<pair<planStep *, planStep *>> todo
 ) {
-    if (tasks.size() == 0)
-        return true; // done, all children
+    if (tasks.size() == 0) {
+        if (todo.empty()) return true; // done, all steps are matched
+
+        // all children are matched, now match the successors of the next pair. This must use the same mapping, as the
+        // successors of different steps may overlap.
+        auto [nextOne, nextOther] = todo.front();
+        todo.pop_front();
+        return matchingDFS(one, other, nextOne, nextOther, mapping, backmapping, todo);
+    }
 
     if (oneNextTasks[*tasks.begin()].size() == 0) {
         tasks.erase(*tasks.begin());
-        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, todo);
     }
 
     int task = *tasks.begin();
@@ -195,37 +204,33 @@ bool matchingGenerate(
         if (backmapping.count(psOther) && backmapping[psOther] != psOne) continue;
 		DEBUG(cout << "\tOK" << endl);
 
-        bool subRes = true;
         map<planStep *, planStep *> subMapping = mapping;
         map<planStep *, planStep *> subBackmapping = backmapping;
+        list<pair<planStep *, planStep *>> subTodo = todo;
 
         if (!mapping.count(psOne)) { // don't check again if we already did it
             subMapping[psOne] = psOther;
             subBackmapping[psOther] = psOne;
 
-            // run the DFS below this pair
-            subRes = matchingDFS(one, other, psOne, psOther, subMapping, subBackmapping);
+            // the steps below this pair have to be matched as well
+            subTodo.push_back({psOne, psOther});
         }
 
+        map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
+        subOtherNextTasks[task].erase(psOther);
 
-        if (subRes) {
-            map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
-            subOtherNextTasks[task].erase(psOther);
-
-            // continue the extraction with the next task
-            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks))
-                return true;
-        }
+        // continue the extraction with the next task
+        if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks, subTodo))
+            return true;
     }
 
     return false; // did not find any valid matching
 }
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping) {
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 list<pair<planStep *, planStep *>> todo) {
 	if (oneStep->numSuccessors != otherStep->numSuccessors) return false; // is not possible
-    if (oneStep->numSuccessors == 0) return true; // no successors, matching OK
-
 
     // groups the successors into buckets according to their task labels
     map<int, set<planStep *>> oneNextTasks;
@@ -249,7 +254,7 @@ bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep
 
     for (int t : tasks) if (oneNextTasks[t].size() != otherNextTasks[t].size()) return false;
 
-    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, todo);
 }
 
 
@@ -273,7 +278,7 @@ bool matching(searchNode *one, searchNode *other) {
     mapping[oneHead] = otherHead;
     backmapping[otherHead] = oneHead;
 
-    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping);
+    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping, {});
 
     //delete oneHead;
     //delete otherHead;
-- 
2.43.0


From 7ae68338700b20507469b21631dd5e08fcb0ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 03/27] fix: do not treat methods with forks or joins as
 parallel sequences

The check set isParallelSequences to false only if a method contained both a
step with several successors and a step with several predecessors. With only one
of them the visited list represented a network as a set of chains, which does
not determine the network, and pruned nodes that had not been visited.
---
 src/Model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 0782e92..88dfde1 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -3066,11 +3066,11 @@ newlyReachedMLMs = new noDelIntSet();
 
 			if (notOneSuccessor > 1 || notOnePredecessor > 1) {
 				isTotallyOrdered = false;
-				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask) {
+				// unique paths: every task has at most one successor, parallel sequences: also at most one predecessor
+				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask)
 					isUniquePaths = false;
-					if (notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
-						isParallelSequences = false;
-				}
+				if (notZeroOrOneSuccessor || notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
+					isParallelSequences = false;
 			}
 		}
 
-- 
2.43.0


From 4a9e2dc315fee246ea718765437865f443e5ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 04/27] fix: do not compare unset f-values in the visited list
 of suboptimal search

In suboptimal search nodes are inserted into the visited list before the fringe
sets their f-value. For partially ordered networks the uninitialised values
decided whether a visited node was explored again.
---
 src/VisitedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index be10d4e..45ff7aa 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -576,7 +576,7 @@ bool VisitedList::insertVisi(searchNode *n) {
 			//cout << endl << endl << "Comp " << result << endl;
 			//other->printNode(cout);
 			if (result) {
-				if (other->fValue > n->fValue){
+				if (!noReopening && other->fValue > n->fValue){ // f-values are only set in optimal search
 					toRemove = other;
 					continue;
 				}
-- 
2.43.0


From 0a2dbbfe5fbb9058e927b21b17982bad593462ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 05/27] fix: an action that adds and deletes a fact makes it
 true, also in SAT planner and invariants

---
 src/Model.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index 88dfde1..9693595 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1653,6 +1653,11 @@ newlyReachedMLMs = new noDelIntSet();
 			conditionalDelLists[i] = get<1>(dels);
 			conditionalDelListsCondition[i] = get<2>(dels);
 
+			// a fact that is both added and deleted is true afterwards, i.e., deleting it has no effect
+			set<int> added(addLists[i], addLists[i] + numAdds[i]);
+			numDels[i] = remove_if(delLists[i], delLists[i] + numDels[i],
+					[&](int f) { return added.count(f) > 0; }) - delLists[i];
+
 #ifndef NDEBUG
 			for (int j = 0; j < numPrecs[i]; j++) {
 				assert(precLists[i][j] < numStateBits);
-- 
2.43.0


From 001d0564cfeb0f9c9d54889c8d08d18816e26a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 06/27] fix: SAT planner ignored orderings between actions with
 and without effects at the same time step

---
 src/sat/partial_order.cpp |  6 ++++--
 src/sat/sat_planner.cpp   | 36 +++++++++++++++++++++---------------
 src/sat/state_formula.cpp |  4 +++-
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/sat/partial_order.cpp b/src/sat/partial_order.cpp
index 5d52986..30ef0a2 100644
--- a/src/sat/partial_order.cpp
+++ b/src/sat/partial_order.cpp
@@ -152,10 +152,12 @@ void generate_matching_formula(void* solver, sat_capsule & capsule, Model * htn,
 
 
 	// if leaf l @ position p, then any successor of l is forbidden at p-1
+	// if l can contain an action with effects, it is executed last at p and its successors are also forbidden at p
 	for (int l = 0; l < leafSOG->numberOfVertices; l++){
+		int offset = leafSOG->leafContainsEffectAction[l] ? 0 : 1;
 		for (int lSucc : leafSOG->adj[l]){
-			for (int p = 1; p < vars.size(); p++){
-				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p-1]);
+			for (int p = offset; p < vars.size(); p++){
+				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p-offset]);
 			}
 		}
 	}
diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index ee86171..378d65a 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -7,6 +7,7 @@
 #include "partial_order.h"
 #include "../Util.h"
 #include "../Invariants.h"
+#include <algorithm>
 #include <cassert>
 #include <thread> 
 #include <chrono>
@@ -97,21 +98,26 @@ pair<int,int> printSolution(void * solver, Model * htn, PDT* pdt, MatchingData &
 	// if po output the primitive plan now
 	if (!htn->isTotallyOrdered){
 		for (int p = 0; p < matching.matchingPerPosition.size(); p++){
-			for (auto [pvar, prim] : matching.vars[p]){
-				if (ipasir_val(solver,pvar) > 0){
-					// find the if of the matched leaf
-					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++){
-						if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0
-								&& matching.leafSOG->leafOfNode[l]->outputTask == prim){
-							// get the output number of that leaf
-							PDT * leaf = matching.leafSOG->leafOfNode[l];
-							solutionCost += htn->actionCosts[prim];
-							trueSolutionCost += originalActionCosts[prim];
-							leafsWithTask.push_back({leaf,l});
-							std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
-						}
-					}
-				}
+			// find the leafs matched to this position
+			vector<int> leafsAtPosition;
+			for (int l = 0; l < matching.matchingPerPosition[p].size(); l++)
+				if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0 && matching.leafSOG->leafOfNode[l]->outputTask != -1)
+					leafsAtPosition.push_back(l);
+
+			// output them in an order that respects the ordering constraints, the one that can contain effects is last
+			stable_sort(leafsAtPosition.begin(), leafsAtPosition.end(), [&](int l1, int l2){
+				return make_pair((bool) matching.leafSOG->leafContainsEffectAction[l1], matching.leafSOG->predecessorSet[l1].size()) <
+					make_pair((bool) matching.leafSOG->leafContainsEffectAction[l2], matching.leafSOG->predecessorSet[l2].size());
+			});
+
+			for (int l : leafsAtPosition){
+				// get the output number of that leaf
+				PDT * leaf = matching.leafSOG->leafOfNode[l];
+				int prim = leaf->outputTask;
+				solutionCost += htn->actionCosts[prim];
+				trueSolutionCost += originalActionCosts[prim];
+				leafsWithTask.push_back({leaf,l});
+				std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
 			}
 		}
 	}
diff --git a/src/sat/state_formula.cpp b/src/sat/state_formula.cpp
index 955d8f5..1c0a5df 100644
--- a/src/sat/state_formula.cpp
+++ b/src/sat/state_formula.cpp
@@ -275,7 +275,9 @@ void get_partial_state_atoms(sat_capsule & capsule, Model * htn, SOG* sog, vecto
 		sog->leafContainsEffectAction[t] = actualAction;
 	}
 	int numberOfTimeSteps = sog->numberOfVertices - leafsWithoutActualActions;
-	numberOfTimeSteps = numberOfTimeSteps;
+	// at every time step the actions without effects are executed before the one with effects,
+	// so those after the last action with effects need a time step of their own
+	if (leafsWithoutActualActions > 0) numberOfTimeSteps++;
 	if (numberOfTimeSteps == 0) numberOfTimeSteps = 1;
 	
 	cout << "Total Leafs: " << sog->numberOfVertices << " of that without effect-actions " << leafsWithoutActualActions << " remaining: " << numberOfTimeSteps << endl;
-- 
2.43.0


From 7bdcc2a94af23d06a072c552c071378c58b8586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 07/27] fix: initial-state facts were assigned to the wrong
 variable in the SAS+ translation

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index f0833df..e109800 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -174,7 +174,7 @@ void HTNToSASTranslation::sasPlus(){
   for (int i = 0; i < htn->s0Size; i++){
     int j = 0;
     while (true){
-      if (j >= htn->s0Size || htn->firstIndex[j] > htn->s0List[i]){
+      if (j >= htn->numVars || htn->firstIndex[j] > htn->s0List[i]){
         j--;
         break;
       }
-- 
2.43.0


From 2042f21ecf5e45d1a2c0b8c4c366c19428c95987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 08/27] fix: topological order of subtasks in the translation
 was no permutation for forks and joins

---
 src/translation/htnToSAS.cpp | 44 ++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index e109800..902b574 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -330,29 +330,21 @@ void HTNToSASTranslation::reorderTasks(bool warning){
       hasNoLastTask[i] = true;
       continue;
     }
+    // ordering the tasks topologically: subs[j] is the j-th task, position[k] the place of task k
     int* subs = new int[htn->numSubTasks[i]];
+    int* position = new int[htn->numSubTasks[i]];
+    for (int j = 0; j < htn->numSubTasks[i]; j++){
+      position[j] = -1;
+    }
     for (int j = 0; j < htn->numSubTasks[i]; j++){
   	bool valueSet = false;
       for (int k = 0; k < htn->numSubTasks[i]; k++){
+        if (position[k] != -1){
+          continue;
+        }
         bool notAlone = false;
         for (int l = 0; l < htn->numOrderings[i] / 2; l++){
-          bool alreadyUsed = false;
-          bool ka = false;
-          for (int m = 0; m < j; m++){
-            if (k == subs[m]){
-              ka = true;
-              break;
-            }
-            if (htn->ordering[i][2 * l] == subs[m]){
-              alreadyUsed = true;
-              break;
-            }
-          }
-          if (ka){
-            notAlone = true;
-            break;
-          }
-          if (not alreadyUsed && htn->ordering[i][2 * l + 1] == k){
+          if (htn->ordering[i][2 * l + 1] == k && position[htn->ordering[i][2 * l]] == -1){
             notAlone = true;
             break;
           }
@@ -366,18 +358,19 @@ void HTNToSASTranslation::reorderTasks(bool warning){
   		}
         }
       }
+      position[subs[j]] = j;
     }
 
-    // reordering tasks and adjusting restrictions
+    // reordering tasks (the last one first) and adjusting restrictions
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      subTasksInOrder[i][j] = htn->subTasks[i][htn->numSubTasks[i] - 1 - subs[j]];
+      subTasksInOrder[i][j] = htn->subTasks[i][subs[htn->numSubTasks[i] - 1 - j]];
     }
     for (int j = 0; j < htn->numOrderings[i]; j++){
-      htn->ordering[i][j] = htn->numSubTasks[i] - 1 - subs[htn->ordering[i][j]];
+      htn->ordering[i][j] = htn->numSubTasks[i] - 1 - position[htn->ordering[i][j]];
     }
     // evaluating number of primitive tasks in front
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      if (htn->isPrimitive[htn->subTasks[i][j]]){
+      if (htn->isPrimitive[subTasksInOrder[i][htn->numSubTasks[i] - 1 - j]]){
         firstNumTOPrimTasks[i]++;
       }
       else {
@@ -392,14 +385,14 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
     else {
       bool* lower = new bool[htn->numSubTasks[i]];
-      for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
+      for (int j = 1; j < htn->numSubTasks[i]; j++){
         lower[j] = false;
       }
-      lower[htn->numSubTasks[i] - 1] = true;
+      lower[0] = true;
       for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
         for (int k = 0; k < htn->numOrderings[i] / 2; k++){
-          if (lower[htn->ordering[i][2 * k]]){
-            lower[htn->ordering[i][2 * k + 1]] = true;
+          if (lower[htn->ordering[i][2 * k + 1]]){
+            lower[htn->ordering[i][2 * k]] = true;
           }
         }
       }
@@ -413,6 +406,7 @@ void HTNToSASTranslation::reorderTasks(bool warning){
       delete[] lower;
     }
     delete[] subs;
+    delete[] position;
   }
 }
 //////
-- 
2.43.0


From 1f590a10a8d60f08451f1efbe61116ba20ca62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 09/27] fix: reading a classical plan back attributed steps to
 the wrong parent

---
 src/translation/htnToSAS.cpp | 100 +++++++++++------------------------
 1 file changed, 30 insertions(+), 70 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 902b574..9d215b7 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <cstring>
 #include <list>
+#include <map>
 #include <sys/time.h>
 
 using namespace std;
@@ -2576,12 +2577,20 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
     string* methods = new string[methNumMax];
     int* methIndex = new int[methNumMax];
     int* primIndex = new int[primNumMax];
-    int** subHeads = new int*[methNumMax];
-    bool** subHeadsFixed = new bool*[methNumMax];
+    // steps[m][k] is the step that subtask k of the m-th method application was executed or decomposed by,
+    // headToStep says which of these entries the task at a given head belongs to
+    int** steps = new int*[methNumMax];
+    map<int, int*> headToStep;
+    auto setStep = [&](int head, int step) {
+      auto it = headToStep.find(head);
+      if (it != headToStep.end()){
+        *it->second = step;
+        headToStep.erase(it);
+      }
+    };
     bool* hasPrimIndezes = new bool[methNumMax];
     int** firstPrimIndezes = new int*[methNumMax];
     int* order = new int[linecount];
-    int* heads = new int[linecount];
     fout << "==>" << endl;
     int primNum = 0;
     int methNum = 0;
@@ -2591,22 +2600,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         primitives[primNum] = plan[i].substr(plan[i].find(": ") + 2, plan[i].length() - plan[i].find(": ") - 3);
         primIndex[primNum] = stoi(plan[i].substr(plan[i].find("id") + 3, plan[i].find("]", plan[i].find("id"), 1) - plan[i].find("id") - 3));
         order[i] = primNum;
-        heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
-        
-	    for (int j = methNum - 1; j >= 0; j--){
-		  bool repl = false;
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == heads[i]){
-              subHeadsFixed[j][k] = true;
-			  repl = true;
-              break;
-            }
-          }
-          if (repl){
-            break;
-          }
-        }
-	
+        setStep(stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5)), order[i]);
 		fout << primNum << " " << primitives[primNum] << endl;
         primNum++;
       }
@@ -2614,13 +2608,17 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         methods[methNum] = plan[i].substr(plan[i].find(": ") + 2, plan[i].length() - plan[i].find(": ") - 3);
         methIndex[methNum] = stoi(plan[i].substr(plan[i].find("id") + 3, plan[i].find("]", plan[i].find("id"), 1) - plan[i].find("id") - 3));
         order[i] = methNum + primNumMax;
-        heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
-        subHeads[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
-        subHeadsFixed[methNum] = new bool[htn->numSubTasks[methIndex[methNum]]];
+        setStep(stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5)), order[i]);
+        steps[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
+        for (int j = 0; j < htn->numSubTasks[methIndex[methNum]]; j++){
+          steps[methNum][j] = -1;
+        }
+        int numOtherTasks = htn->numSubTasks[methIndex[methNum]];
         int index = plan[i].find("firstPrim");
         hasPrimIndezes[methNum] = false;
         if (index < plan[i].length()){
           hasPrimIndezes[methNum] = true;
+          numOtherTasks -= firstNumTOPrimTasks[methIndex[methNum]];
           firstPrimIndezes[methNum] = new int[firstNumTOPrimTasks[methIndex[methNum]]];
           string s = plan[i].substr(index + 10, plan[i].find("]", index, 1) - index - 10);
           for (int j = 0; j < firstNumTOPrimTasks[methIndex[methNum]]; j++){
@@ -2642,35 +2640,21 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         index = plan[i].find("subtasks");
         if (index < plan[i].length()){
           string s = plan[i].substr(index + 9, plan[i].find("]", index, 1) - index - 9);
-          for (int j = 0; j < htn->numSubTasks[methIndex[methNum]]; j++){
-            int f = s.find(",");
-            if (f < s.length()){
-              subHeads[methNum][j] = stoi(s.substr(0, f));
-              s = s.substr(f + 1, s.length());
-            }
-            else {
-              subHeads[methNum][j] = stoi(s);
-            }
-          	subHeadsFixed[methNum][j] = false;
-		  }
+          for (int j = 0; j < numOtherTasks; j++){
+            size_t f = s.find(",");
+            headToStep[stoi(s.substr(0, f))] = &steps[methNum][j];
+            s = f == string::npos ? "" : s.substr(f + 1);
+          }
         }
         methNum++;
       }
       else if (plan[i].size() > 4 && string("move").compare(plan[i].substr(1, 4)) == 0){
         int from = stoi(plan[i].substr(plan[i].find("from") + 5, plan[i].find("]", plan[i].find("from"), 1) - plan[i].find("from") - 5));
         int to = stoi(plan[i].substr(plan[i].find("to") + 3, plan[i].find("]", plan[i].find("to"), 1) - plan[i].find("to") - 3));
-        bool repl = false;
-        for (int j = methNum - 1; j >= 0; j--){
-          if (repl){
-            break;
-          }
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == from){
-              subHeads[j][k] = to;
-              repl = true;
-              break;
-            }
-          }
+        auto it = headToStep.find(from);
+        if (it != headToStep.end()){
+          headToStep[to] = it->second;
+          headToStep.erase(from);
         }
       }
     }
@@ -2694,31 +2678,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         }
       }
       for (int j = htn->numSubTasks[m] - 1 - fntopt; j >= 0; j--){
-	int index = -1;
-        for (int k = o + 1; k < linecount - 1; k++){
-          if (order[k] == -1){
-            continue;
-          }
-          if (order[k] < primNumMax){
-            if (primIndex[order[k]] == subTasksInOrder[m][j]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-          else {
-            if (subTasksInOrder[m][j] == htn->decomposedTask[methIndex[order[k]-primNumMax]]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-        }
-        fout << index << " ";
+        fout << steps[i][j] << " ";
       }
       fout << endl;
     }
-- 
2.43.0


From de715f12298f98428433353b532ad8630f6acfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 10/27] fix: Push translation wrote two uninitialised
 conditional effects per move operator

---
 src/translation/htnToSAS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 9d215b7..4247610 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -709,9 +709,9 @@ int HTNToSASTranslation::htnToCondSorted(int pgb) {
   index = methodTaskIndex;
   for (int i = 0; i < htn->numTasks; i++) {
     for (int j = 0; j < (pgb - 1); j++){
-      numConditionalEffectsTrans[index] = pgb;
+      numConditionalEffectsTrans[index] = pgb - 2;
       if (j > 0){
-        numConditionalEffectsTrans[index] = pgb + 2;
+        numConditionalEffectsTrans[index] = pgb;
       }
       effectConditionsTrans[index] = new int*[numConditionalEffectsTrans[index]];
       numEffectConditionsTrans[index] = new int[numConditionalEffectsTrans[index]];
-- 
2.43.0


From effdd15ade38180a5ff4b3a1e56279eb37ca675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 11/27] fix: the pocond translation called the Push encoding
 and wrote no conditional effects, with misplaced constraints

---
 src/translation/htnToSAS.cpp              | 10 +++++++++-
 src/translation/translationController.cpp |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 4247610..3c33120 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2124,7 +2124,12 @@ int HTNToSASTranslation::htnToCond(int pgb) {
             
             for (int m = 0; m < pgb - 1; m++){
               effectConditionsTrans[index][l * (pgb - 1) + m][0] = firstIndexTrans[firstConstraintIndex + j * (pgb - 1) + m] + 1;
-              effectsTrans[index][l * (pgb - 1) + m] = firstIndexTrans[firstConstraintIndex + subs[l] * (pgb - 1) + m] + 1;
+              // entry m of the row of position j is about another position than entry m of the row of position subs[l]
+              int constrained = m < j ? m : m + 1;
+              if (constrained == subs[l]){
+                constrained = j; // the position was free, so the condition never holds
+              }
+              effectsTrans[index][l * (pgb - 1) + m] = firstIndexTrans[firstConstraintIndex + subs[l] * (pgb - 1) + (constrained < subs[l] ? constrained : constrained - 1)] + 1;
             }
           }
           for (int l = 0; l < htn->numOrderings[i] / 2; l++){
@@ -2142,6 +2147,9 @@ int HTNToSASTranslation::htnToCond(int pgb) {
             else {
               second = subs[second];
             }
+            if (second > first){
+              second--;
+            }
             effectConditionsTrans[index][(pgb - 1) * (htn->numSubTasks[i] - 1) + l][0] = firstIndexTrans[firstConstraintIndex + first * (pgb - 1) + second];
             effectsTrans[index][(pgb - 1) * (htn->numSubTasks[i] - 1) + l] = firstIndexTrans[firstConstraintIndex + first * (pgb - 1) + second] + 1;
           }
diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index aa36173..39f2ec1 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -39,7 +39,7 @@ bool performOneTranslation(HTNToSASTranslation * translation, TranslationType tr
 		operators = translation->htnToStrips(pgbList[0]);
 	} else if (transtype == BaseCondEffects){
 		cout << endl << "Generating with Basic PO ADL/Conditional effects encoding" << endl;
-		operators = translation->htnToCondSorted(pgbList[0]);
+		operators = translation->htnToCond(pgbList[0]);
 	} else {
 		// impossible to reach
 		assert(false);
@@ -69,7 +69,7 @@ void printSASToFile(HTNToSASTranslation * translation, TranslationType transtype
     gettimeofday(&tp, NULL);
     startT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << "Printing HTN model to file \"" << sasfile << "\" ... ";
-    translation->writeToFastDown(sasfile, transtype == Push, realCosts);
+    translation->writeToFastDown(sasfile, transtype == Push || transtype == BaseCondEffects, realCosts);
     gettimeofday(&tp, NULL);
     currentT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << " (" << (currentT - startT) << " ms)" << endl;
-- 
2.43.0


From 9463123bec2657c880415755d81ddbc251b17b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 12/27] fix: symbolic planner swapped no subtasks when a method
 orders its second listed task first

---
 src/symbolic_search/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 8b80a59..9e82524 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1196,7 +1196,7 @@ void build_automaton(Model * htn){
 		int first = htn->subTasks[method][0];
 		int second = htn->subTasks[method][1];
 		assert(htn->numOrderings[method] == 2);
-		if (htn->ordering[method][0] == 1 && htn->ordering[method][1])
+		if (htn->ordering[method][0] == 1 && htn->ordering[method][1] == 0)
 			std::swap(first,second);
 
 		tasks_per_method[method] = {first, second};
-- 
2.43.0


From c441d2351eb7746a417602b9ad62776b3a4e5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 13/27] fix: hsAddFF wrote past its stack of facts to mark when
 facts are pushed repeatedly

---
 src/heuristics/rcHeuristics/hsAddFF.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heuristics/rcHeuristics/hsAddFF.h b/src/heuristics/rcHeuristics/hsAddFF.h
index b62c961..1b514f8 100644
--- a/src/heuristics/rcHeuristics/hsAddFF.h
+++ b/src/heuristics/rcHeuristics/hsAddFF.h
@@ -14,7 +14,7 @@
 #include "../../intDataStructures/IntPairHeap.h"
 #include "../../intDataStructures/bucketSet.h"
 #include "../../intDataStructures/noDelIntSet.h"
-#include "../../intDataStructures/IntStack.h"
+#include "../../intDataStructures/FlexIntStack.h"
 #include "../../Model.h"
 #include "LMCutLandmark.h"
 
@@ -58,7 +58,7 @@ namespace progression {
 
         noDelIntSet markedFs;
         noDelIntSet markedOps;
-        IntStack needToMark;
+        FlexIntStack needToMark;
 
         bool allActionsCostOne = false;
 
-- 
2.43.0


From 14ccf8011f3aa2583e6946cf5fc8c37ae4daeedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 14/27] fix: noDelIntSet::setIntersection skipped common
 elements and read out of bounds for others

---
 src/intDataStructures/noDelIntSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/noDelIntSet.cpp b/src/intDataStructures/noDelIntSet.cpp
index f4255a2..116cf4c 100644
--- a/src/intDataStructures/noDelIntSet.cpp
+++ b/src/intDataStructures/noDelIntSet.cpp
@@ -94,7 +94,7 @@ noDelIntSet* noDelIntSet::setIntersection(noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((moreElements->containerSize > i) && (moreElements->get(i)))
 			that->insert(i);
 	}
 	return that;
@@ -117,7 +117,7 @@ void noDelIntSet::setIntersection(noDelIntSet* result, noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((moreElements->containerSize > i) && (moreElements->get(i)))
 			result->insert(i);
 	}
 }
-- 
2.43.0


From 9084c7d96cf8d236ac264ddfa072ed60a62979de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 15/27] fix: bucketSet iteration stopped early when elements
 were erased while iterating

---
 src/intDataStructures/bucketSet.cpp | 4 ----
 src/intDataStructures/bucketSet.h   | 1 -
 2 files changed, 5 deletions(-)

diff --git a/src/intDataStructures/bucketSet.cpp b/src/intDataStructures/bucketSet.cpp
index 30af147..1f2cc00 100644
--- a/src/intDataStructures/bucketSet.cpp
+++ b/src/intDataStructures/bucketSet.cpp
@@ -62,7 +62,6 @@ int bucketSet::getFirst() {
 	for (int i = 0; i < containersize; i++) {
 		if (container[i]) {
 			iIter = i + 1;
-			numIterated = 1;
 			return i;
 		}
 	}
@@ -70,12 +69,9 @@ int bucketSet::getFirst() {
 }
 
 int bucketSet::getNext() {
-	if (numIterated == currentSize)
-		return -1;
 	for (int i = iIter; i < containersize; i++) {
 		if (container[i]) {
 			iIter = i + 1;
-			numIterated++;
 			return i;
 		}
 	}
diff --git a/src/intDataStructures/bucketSet.h b/src/intDataStructures/bucketSet.h
index 78beca3..c3de987 100644
--- a/src/intDataStructures/bucketSet.h
+++ b/src/intDataStructures/bucketSet.h
@@ -18,7 +18,6 @@ private:
 	int currentSize;
 
 	int iIter;
-	int numIterated;
 public:
 	bucketSet();
 	virtual ~bucketSet();
-- 
2.43.0


From 0197688e44344fd11429e9f118201a8e3d4e2eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 16/27] fix: delIterIntSet linked its list backwards and
 stopped iterating after deleting its first element

---
 src/intDataStructures/delIterIntSet.cpp | 45 ++++++++++---------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/intDataStructures/delIterIntSet.cpp b/src/intDataStructures/delIterIntSet.cpp
index 06e0afa..f5f0427 100644
--- a/src/intDataStructures/delIterIntSet.cpp
+++ b/src/intDataStructures/delIterIntSet.cpp
@@ -45,8 +45,10 @@ void delIterIntSet::insert(int i) {
 			this->first = elem;
 			this->last = elem;
 		} else {
-			elem->next = this->last;
-			last->prev = elem;
+			elem->prev = this->last;
+			elem->isLast = true;
+			last->next = elem;
+			last->isLast = false;
 			this->last = elem;
 		}
 		currentSize++;
@@ -90,37 +92,26 @@ int delIterIntSet::delCurrentGetNext() {
 		return -1;
 	else if (this->currentIterElem == nullptr) {
 		return -1;
-	} else if (this->currentIterElem->isFirst) {
-		boolContainer[this->currentIterElem->value] = false;
+	} else {
 		llInt* elem = this->currentIterElem;
-		if (currentSize > 1) {
-			this->currentIterElem->next->isFirst = true;
-			this->first = this->currentIterElem->next;
-		} else {
+		boolContainer[elem->value] = false;
+		this->currentIterElem = elem->isLast ? nullptr : elem->next;
+		if (elem->isFirst && elem->isLast) {
 			this->first = nullptr;
 			this->last = nullptr;
+		} else if (elem->isFirst) {
+			elem->next->isFirst = true;
+			this->first = elem->next;
+		} else if (elem->isLast) {
+			elem->prev->isLast = true;
+			this->last = elem->prev;
+		} else {
+			elem->prev->next = elem->next;
+			elem->next->prev = elem->prev;
 		}
 		delete elem;
 		currentSize--;
-		return -1;
-	} else if (this->currentIterElem->isLast) {
-		boolContainer[this->currentIterElem->value] = false;
-		assert(currentSize > 1); // otherwise the last case would be true
-		llInt* elem = this->currentIterElem;
-		this->currentIterElem->prev->isLast = true;
-		this->last = this->currentIterElem->prev;
-		delete elem;
-		currentSize--;
-		return -1;
-	} else {
-		boolContainer[this->currentIterElem->value] = false;
-		llInt* elem = this->currentIterElem;
-		this->currentIterElem->prev->next = this->currentIterElem->next;
-		this->currentIterElem->next->prev = this->currentIterElem->prev;
-		this->currentIterElem = this->currentIterElem->next;
-		delete elem;
-		currentSize--;
-		return this->currentIterElem->value;
+		return (this->currentIterElem == nullptr) ? -1 : this->currentIterElem->value;
 	}
 }
 
-- 
2.43.0


From 3e0f05c8ea3c19abf43b4cfa19b6226423719d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 17/27] fix: trie of the visited list lost entries when a
 sequence ending at a 64-bit boundary is a prefix of another

---
 src/intDataStructures/CompressedSequenceSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/intDataStructures/CompressedSequenceSet.cpp b/src/intDataStructures/CompressedSequenceSet.cpp
index ed93d09..f9c4af2 100644
--- a/src/intDataStructures/CompressedSequenceSet.cpp
+++ b/src/intDataStructures/CompressedSequenceSet.cpp
@@ -242,6 +242,10 @@ void compressed_sequence_trie::insert(const vector<uint64_t> & sequence, int pad
 			DEBUG(cout << "\tNew sequence ends within." << endl);
 			block_with_first_difference = sequence.size() - myFirstBlock - 1;
 			splitBit = 64 - paddingBits;
+			if (splitBit == 64){ // the new sequence ends exactly at the end of a block
+				block_with_first_difference++;
+				splitBit = 0;
+			}
 			// split
 			split_me_at(block_with_first_difference,splitBit);
 			p = &payload;
-- 
2.43.0


From b0aa6a77260c7ab4b9300d5bbe505bc20a545023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:58 +0000
Subject: [PATCH 18/27] fix: sequence_trie kept its old value when it was split
 at its first bit

---
 src/intDataStructures/SequenceSet.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/intDataStructures/SequenceSet.cpp b/src/intDataStructures/SequenceSet.cpp
index 5ace070..579486f 100644
--- a/src/intDataStructures/SequenceSet.cpp
+++ b/src/intDataStructures/SequenceSet.cpp
@@ -148,11 +148,8 @@ void sequence_trie::split_me_at(int bit){
 
 	// curb myself
 	ignoreBitsLast = 64 - bit;
-	if (ignoreBitsLast != 64){
-		value = value & bitmask_ignore_last(ignoreBitsLast);
-	} else {
-		// I might end up with no bits at all (edge cases ...)
-	}
+	// I might end up with no bits at all (edge cases ...)
+	value = value & bitmask_ignore_last(ignoreBitsLast);
 	
 	//print_tree(0);
 	TEST(check_integrity());
-- 
2.43.0


From 4d295b5fa56b8792b31fc2e968b1f97fdade1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 19/27] fix: HDDL export lost orderings through dropped no-op
 tasks and referred to undeclared task ids

---
 src/Model.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 9693595..c3b72c6 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2891,23 +2891,32 @@ newlyReachedMLMs = new noDelIntSet();
 
 
 				if (this->numOrderings[i]) {
+					set<pair<int,int>> orderings;
+					for (int j = 0; j < this->numOrderings[i]; j += 2)
+						orderings.insert({this->ordering[i][j], this->ordering[i][j + 1]});
+
+					// no-op tasks are not written, but the orderings that run through them have to be kept
+					for (int noop : noopIDs) {
+						vector<int> preds, succs;
+						for (auto & [before, after] : orderings) {
+							if (after == noop) preds.push_back(before);
+							if (before == noop) succs.push_back(after);
+						}
+						for (int before : preds) {
+							orderings.erase({before, noop});
+							for (int after : succs) orderings.insert({before, after});
+						}
+						for (int after : succs) orderings.erase({noop, after});
+					}
 
-					int j = 0;
 					bool firstOrdering = true;
-					while (j < this->numOrderings[i]) {
-						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j] + 1) ) {
-							j+=2;
-							continue;
-						}
+					for (auto & [before, after] : orderings) {
+						if (before == possibleMethodPrecondition) continue;
 						if (firstOrdering) {
 							dfile << "     :ordering (and" << endl;
 							firstOrdering = false;
 						}
-						
-						
-						dfile << "        (task" << this->ordering[i][j] << " < task" << this->ordering[i][j + 1] << ")"
-							<< endl;
-						j += 2;
+						dfile << "        (task" << before << " < task" << after << ")" << endl;
 					}
 					if (!firstOrdering) dfile << "     )" << endl;
 				}
-- 
2.43.0


From cd0032121a4694d585d96c88a1a645b5a867f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 20/27] fix: HDDL export gave different facts or tasks the same
 name when they differ in special characters only

---
 src/Model.cpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index c3b72c6..457e9f0 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2784,19 +2784,32 @@ newlyReachedMLMs = new noDelIntSet();
 	}
 
 	void Model::writeToPDDL(string dName, string pName) {
+		// different facts (or tasks) must not get the same name
+		auto uniqueNames = [&](string * original, int num) {
+			vector<string> names(num);
+			set<string> used;
+			for (int i = 0; i < num; i++) {
+				names[i] = su.cleanStr(original[i]);
+				while (!used.insert(names[i]).second) names[i] += "_" + to_string(i);
+			}
+			return names;
+		};
+		vector<string> factNames = uniqueNames(this->factStrs, this->numStateBits);
+		vector<string> uniqueTaskNames = uniqueNames(this->taskNames, this->numTasks);
+
 		ofstream dfile;
 		dfile.open(dName);
 		dfile << "(define (domain rc)" << endl;
 		dfile << "  (:predicates ";
 		for (int i = 0; i < this->numStateBits; i++) {
-			dfile << "(" << su.cleanStr(this->factStrs[i]) << ")" << endl;
+			dfile << "(" << factNames[i] << ")" << endl;
 			if (i < this->numStateBits - 1)
 				dfile << "               ";
 		}
 		dfile << "  )" << endl << endl;
 
 		for (int i = numActions; i < numTasks; i++) {
-			dfile << "  (:task " << su.cleanStr(this->taskNames[i]);
+			dfile << "  (:task " << uniqueTaskNames[i];
 			dfile << " :parameters ())" << endl;
 		}
 		dfile << endl;
@@ -2845,13 +2858,13 @@ newlyReachedMLMs = new noDelIntSet();
 
 			dfile << "  (:method " << su.cleanStr(this->methodNames[i]) << "_" << i << endl;
 			dfile << "     :parameters ()" << endl;
-			dfile << "     :task (" << su.cleanStr(this->taskNames[this->decomposedTask[i]]) << ")" << endl;
+			dfile << "     :task (" << uniqueTaskNames[this->decomposedTask[i]] << ")" << endl;
 			if (possibleMethodPrecondition >= 0){
 				int preconditionTask = subTasks[i][possibleMethodPrecondition];
 				
 				dfile << "     :precondition (and " << endl;
 				for (int j = 0; j < this->numPrecs[preconditionTask]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->precLists[preconditionTask][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->precLists[preconditionTask][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 			}
@@ -2867,7 +2880,7 @@ newlyReachedMLMs = new noDelIntSet();
 					
 					if (subTasks[i][j] < this->numActions)
 						actionOccurs[subTasks[i][j]] = true;
-					dfile << "        (" << su.cleanStr(taskNames[subTasks[i][j]]) << ")" << endl;
+					dfile << "        (" << uniqueTaskNames[subTasks[i][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 
@@ -2885,7 +2898,7 @@ newlyReachedMLMs = new noDelIntSet();
 					}
 					if (subTasks[i][j] < this->numActions)
 						actionOccurs[subTasks[i][j]] = true;
-					dfile << "        (task" << j << " (" << su.cleanStr(taskNames[subTasks[i][j]]) << "))" << endl;
+					dfile << "        (task" << j << " (" << uniqueTaskNames[subTasks[i][j]] << "))" << endl;
 				}
 				dfile << "     )" << endl;
 
@@ -2928,22 +2941,22 @@ newlyReachedMLMs = new noDelIntSet();
 
 		for (int i = 0; i < this->numActions; i++) {
 			if (!actionOccurs[i]) continue; // don't output method precondition actions.
-			dfile << "  (:action " << su.cleanStr(this->taskNames[i]) << endl;
+			dfile << "  (:action " << uniqueTaskNames[i] << endl;
 			dfile << "     :parameters ()" << endl;
 			if (this->numPrecs[i]) {
 				dfile << "     :precondition (and " << endl;
 				for (int j = 0; j < this->numPrecs[i]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->precLists[i][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->precLists[i][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 			}
 			if (this->numAdds[i] + this->numDels[i]) {
 				dfile << "     :effect (and " << endl;
 				for (int j = 0; j < this->numAdds[i]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->addLists[i][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->addLists[i][j]] << ")" << endl;
 				}
 				for (int j = 0; j < this->numDels[i]; j++) {
-					dfile << "         (not(" << su.cleanStr(this->factStrs[this->delLists[i][j]]) << "))" << endl;
+					dfile << "         (not(" << factNames[this->delLists[i][j]] << "))" << endl;
 				}
 				dfile << "     )" << endl;
 			}
@@ -2962,19 +2975,19 @@ newlyReachedMLMs = new noDelIntSet();
 		if (this->isHtnModel) {
 			pfile << "   (:htn :parameters ()" << endl;
 			pfile << "      :subtasks (and" << endl;
-			pfile << "         (" << su.cleanStr(taskNames[this->initialTask]) << ")" << endl;
+			pfile << "         (" << uniqueTaskNames[this->initialTask] << ")" << endl;
 			pfile << "      )" << endl;
 			pfile << "   )" << endl;
 		}
 		pfile << "   (:init" << endl;
 		for (int i = 0; i < this->s0Size; i++) {
-			pfile << "      (" << su.cleanStr(this->factStrs[this->s0List[i]]) << ")" << endl;
+			pfile << "      (" << factNames[this->s0List[i]] << ")" << endl;
 		}
 		pfile << "   )" << endl;
 		if (this->gSize) {
 			pfile << "   (:goal (and" << endl;
 			for (int i = 0; i < this->gSize; i++) {
-				pfile << "      (" << su.cleanStr(this->factStrs[this->gList[i]]) << ")" << endl;
+				pfile << "      (" << factNames[this->gList[i]] << ")" << endl;
 			}
 			pfile << "   ))" << endl;
 		}
-- 
2.43.0


From 8b37b017a5c43dca6b556ef441a3f61e7c3edde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 21/27] fix: calcMinimalImpliedX did not terminate for tasks
 that cannot be refined into actions

---
 src/Model.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 457e9f0..5275433 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2696,8 +2696,8 @@ newlyReachedMLMs = new noDelIntSet();
 		int *minImpliedDistanceM = new int[this->numMethods];
 
 		for (int i = 0; i < this->numMethods; i++) {
-            minEstimatedCostsM[i] = 0;
-			minImpliedDistanceM[i] = 0;
+            minEstimatedCostsM[i] = INT_MAX;
+			minImpliedDistanceM[i] = INT_MAX;
 		}
 
 		for (int i = 0; i < this->numTasks; i++) {
@@ -2705,8 +2705,9 @@ newlyReachedMLMs = new noDelIntSet();
                 minEstimatedCosts[i] = this->actionCosts[i];
 				minImpliedDistance[i] = 1;
 			} else {
-                minEstimatedCosts[i] = 0;
-				minImpliedDistance[i] = 0;
+				// no refinement into actions is known yet
+                minEstimatedCosts[i] = INT_MAX;
+				minImpliedDistance[i] = INT_MAX;
 			}
 		}
 
@@ -2732,6 +2733,11 @@ newlyReachedMLMs = new noDelIntSet();
 				minImpliedDistanceM[n->id] = 1; // a distance of one is implied by the decomposition itself
 				for (int i = 0; i < this->numSubTasks[n->id]; i++) {
 					int st = this->subTasks[n->id][i];
+					if (minImpliedDistance[st] == INT_MAX) {
+						minEstimatedCostsM[n->id] = INT_MAX;
+						minImpliedDistanceM[n->id] = INT_MAX;
+						break;
+					}
                     minEstimatedCostsM[n->id] += minEstimatedCosts[st];
 					minImpliedDistanceM[n->id] += minImpliedDistance[st];
 				}
-- 
2.43.0


From cd6440027abe4ac245998bc5f385317f2e7b23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:27 +0000
Subject: [PATCH 22/27] fix: calcMinimalProgressionBound did not terminate for
 tasks that cannot be refined into actions

---
 src/translation/htnToSAS.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 3c33120..f5ef063 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -415,7 +415,7 @@ void HTNToSASTranslation::reorderTasks(bool warning){
 
 int HTNToSASTranslation::minProgressionBound(){
   int i = minImpliedPGB[htn->initialTask];
-  if (i < 1){
+  if (i < 1 || i == INT_MAX){
     return 1;
   }
   return i;
@@ -444,14 +444,14 @@ void HTNToSASTranslation::calcMinimalProgressionBound(bool to) {
     int* minImpliedPGBM = new int[htn->numMethods];
 
     for(int i = 0; i < htn->numMethods; i++) {
-        minImpliedPGBM[i] = 0;
+        minImpliedPGBM[i] = INT_MAX;
     }
 
     for(int i = 0; i < htn->numTasks; i++){
         if(i < htn->numActions){
             minImpliedPGB[i] = 1;
         } else {
-            minImpliedPGB[i] = 0;
+            minImpliedPGB[i] = INT_MAX; // no refinement into actions is known yet
         }
     }
 
@@ -480,9 +480,14 @@ void HTNToSASTranslation::calcMinimalProgressionBound(bool to) {
             if (minImpliedPGBM[n->id] < 1){
               minImpliedPGBM[n->id] = 1;
             }
+            bool refinable = true;
             int minAdditionalDistance = 0;
             for (int i = 0; i < htn->numSubTasks[n->id] - off; i++) {
               int st = this->subTasksInOrder[n->id][i];
+              if (minImpliedPGB[st] == INT_MAX){
+                refinable = false;
+                break;
+              }
               if (st == htn->decomposedTask[n->id]){
                 int k = htn->numSubTasks[n->id] - 1 - i - off;
                 if (minAdditionalDistance < k){
@@ -494,7 +499,7 @@ void HTNToSASTranslation::calcMinimalProgressionBound(bool to) {
                 minAdditionalDistance = add;
               }
             }
-            minImpliedPGBM[n->id] += minAdditionalDistance;
+            minImpliedPGBM[n->id] = refinable ? minImpliedPGBM[n->id] + minAdditionalDistance : INT_MAX;
             bool changed = ((minImpliedPGBM[n->id] != cDist));
             if (changed) {
                 tOrMnode* nn = new tOrMnode();
-- 
2.43.0


From 45515d4753e71b31cdab401869d4df30166f9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 23/27] fix: planning graph processed facts of
 precondition-less actions more than once

---
 src/heuristics/planningGraph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/heuristics/planningGraph.cpp b/src/heuristics/planningGraph.cpp
index 7f64c75..2eddafa 100644
--- a/src/heuristics/planningGraph.cpp
+++ b/src/heuristics/planningGraph.cpp
@@ -72,8 +72,10 @@ void planningGraph::calcReachability(vector<bool>& s,
 		reachableTasksSet.insert(ac);
 		for (int iAdd = 0; iAdd < m->numAdds[ac]; iAdd++) {
 			int fAdd = m->addLists[ac][iAdd];
-			hValProp[fAdd] = m->actionCosts[ac];
-			queue->add(hValProp[fAdd], fAdd);
+			if (m->actionCosts[ac] < hValProp[fAdd]) {
+				hValProp[fAdd] = m->actionCosts[ac];
+				queue->add(hValProp[fAdd], fAdd);
+			}
 		}
 	}
 
-- 
2.43.0


From 8e92a7d50a5153675fdfdcae75d5ee8ecf5143c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 24/27] fix: order the new first tasks by their creation, not
 by their addresses

apply() collects the tasks that become unconstrained in a set of pointers and
adds them in the order of that set, so which task is expanded first (and with
it the plan that is found) depended on where the allocator had put them.
---
 src/Model.cpp            | 2 +-
 src/Model.h              | 2 +-
 src/ProgressionNetwork.h | 7 +++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 5275433..4d449bc 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1054,7 +1054,7 @@ newlyReachedMLMs = new noDelIntSet();
 			potentialPredecessors.pop_front();
 			done.insert(ps2);
 			//cout << "GET " << ps2 << endl;
-			set<planStep *>::iterator iter = potentiallyFirst.find(ps2);
+			auto iter = potentiallyFirst.find(ps2);
 			if (iter != potentiallyFirst.end()) {
 				potentiallyFirst.erase(iter);
 				//cout << "ERASE " << ps2 << endl;
diff --git a/src/Model.h b/src/Model.h
index fa1b018..af2ed51 100644
--- a/src/Model.h
+++ b/src/Model.h
@@ -292,7 +292,7 @@ namespace progression {
 
 			void tarjan(int v);
 
-			set<planStep *> potentiallyFirst;
+			set<planStep *, planStepOrder> potentiallyFirst;
 			set<planStep *> done;
 			forward_list<planStep *> potentialPredecessors;
 
diff --git a/src/ProgressionNetwork.h b/src/ProgressionNetwork.h
index 4520a4f..9774a6c 100644
--- a/src/ProgressionNetwork.h
+++ b/src/ProgressionNetwork.h
@@ -73,6 +73,13 @@ struct planStep {
 	~planStep();
 };
 
+// the order in which plan steps were created (and not that of their addresses)
+struct planStepOrder {
+	bool operator()(const planStep *a, const planStep *b) const {
+		return a->id < b->id;
+	}
+};
+
 struct searchNode {
 	vector<bool> state;
 	int numAbstract;
-- 
2.43.0


From 4e6a17bf0ad08b1debda8b4c2c2e5b0b7a8926ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:40 +0000
Subject: [PATCH 25/27] fix: the BDD planner skipped cost layers and mistook
 their order

Layers in which only abstract tasks or actions without costs are to be handled
were skipped if no action with costs led into that cost, the layer before a
given one was taken to be that of the next lower cost even if there is none of
that cost, and edges with extra cost were looked for in the wrong layer: plans
were missed, were not optimal, or could not be extracted.
---
 src/symbolic_search/automaton.cpp | 41 ++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9e82524..06cd1f2 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -5,6 +5,7 @@
 #include "transition_relation.h"
 #include "cuddObj.hh"
 
+#include <algorithm>
 #include <chrono>
 #include <vector>
 #include <string>
@@ -309,14 +310,14 @@ reconstructed_plan addToPlan(reconstructed_plan a, int task, int method, Model *
 
 
 
-pair<int,int> prev(int cost, int depth){
-	if (depth != 0)
-		return {cost, depth-1};
+// layers (cost and depth) in the order in which they have been handled
+std::vector<pair<int,int>> layers;
 
-	if (abst_q[cost-1].size() == 0)
-		return {cost-1, 0};
-	
-	return {cost-1, (--abst_q[cost-1].end())->first};
+pair<int,int> prev(int cost, int depth){
+	// the last layer before the given one
+	auto it = std::lower_bound(layers.begin(), layers.end(), std::make_pair(cost,depth));
+	if (it == layers.begin()) return {cost-1, 0};
+	return *(--it);
 }
 
 
@@ -490,7 +491,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		if (cost != -1 && getHere >= 0)
 			tracesEpsilon.push_back(preItem);
 		else
-			groupedTracesOrdinary[std::make_pair(preCost + extraCost, preDepth)].push_back(preItem);
+			// edges with extra cost are inserted into the primitive layer of their target cost
+			groupedTracesOrdinary[std::make_pair(preCost + extraCost, extraCost > 0 ? 0 : preDepth)].push_back(preItem);
 		
 		
 		DEBUG(pc(mc); std::cout << "\t\tEdge c=" << preCost << " d=" << preDepth << " t=" << preTask << " m=" << (preTo != -1?vertex_to_method[preTo]:-1) << " ec=" << cost << " ed=" << getHere << " epC=" << extraCost << std::endl;);
@@ -572,7 +574,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 #ifndef NDEBUG
 		int roundCounter = 0;
 #endif
-		for (auto & [_1, _2, preTask, preTo, appliedMethod, cost, depth, extraCost] : tracings){
+		for (auto & [sourceLayerCost, sourceLayerDepth, preTask, preTo, appliedMethod, cost, depth, extraCost] : tracings){
 			DEBUG(roundCounter++);
 			DEBUG(pc(mc); std::cout << color(YELLOW, "I could have been inserted by ") << " c=" << preCost - extraCost << " d=" << preDepth << 
 					" t=" << preTask << " m=" << (preTo != -1 ? vertex_to_method[preTo] : -1) << " cost=" << cost << " depth=" << depth << " extraCost=" << extraCost << std::endl);
@@ -614,7 +616,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				}
 
 				
-				auto [p2Cost, p2Depth] = prev(preCost - extraCost, preDepth);
+				auto [p2Cost, p2Depth] = prev(sourceLayerCost, sourceLayerDepth);
 
 				// ensure that this stack is actually present in the previous time step
 				stateStackPredecessor = checkStack(
@@ -674,7 +676,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 					// now we are extracting until we have found the first task of the method on the edge
 					int firstTask = tasks_per_method[appliedMethod].first;
 					
-					reconstructed_plan a = extract2From(preCost - extraCost, preDepth, firstTask, sourceCost, newSourceState, 
+					reconstructed_plan a = extract2From(sourceLayerCost, sourceLayerDepth, firstTask, sourceCost, newSourceState, 
 							taskStackFirstPart, methodStackFirstPart, stateStackFirstPart, htn, sym_vars );
 
 					if (!a.success){
@@ -684,7 +686,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 						continue;
 					}
 					
-					int prefixExpectedCost = preCost - extraCost - sourceCost - htn->actionCosts[preTask];
+					int prefixExpectedCost = sourceLayerCost - sourceCost - htn->actionCosts[preTask];
 
 					if (a.primitiveCost(htn) != prefixExpectedCost){
 						DEBUG(pc(mc));
@@ -1274,6 +1276,7 @@ void build_automaton(Model * htn){
 	std::map<std::tuple<int,int>, std::vector<tracingInfo> > & current_queue = prim_q[0];
 	// TODO separate trans and rel
 	while (true){ // TODO: detect unsolvability
+		layers.push_back({currentCost, currentDepthInAbstract});
 		for (auto & entry : current_queue){
 			int task       = get<0>(entry.first);
 			int to         = get<1>(entry.first);
@@ -1282,7 +1285,7 @@ void build_automaton(Model * htn){
 			for(tracingInfo & info : entry.second){
 				//int sourceCost = get<0>(info) + get<7>(info);
 				int sourceCost = get<0>(info);
-				if (get<7>(info) != get<5>(info)) sourceCost += get<7>(info);
+				if (get<7>(info) > 0) sourceCost += get<7>(info);
 				if (handledCosts.count(sourceCost)) continue;
 				handledCosts.insert(sourceCost);
 
@@ -1724,13 +1727,17 @@ void build_automaton(Model * htn){
 		
 		if (next_abstract_layer == abst_q[currentCost].end()){
 			// transition to primitive layer
-			auto findIt = prim_q.find(currentCost);
-			findIt++;
-			if (findIt == prim_q.end() && ++abst_q.find(currentCost) == abst_q.end()){
+			// the next cost may be one at which only abstract tasks or actions without cost are to be handled
+			auto nextPrim = prim_q.upper_bound(currentCost);
+			auto nextAbst = abst_q.upper_bound(currentCost);
+			if (nextPrim == prim_q.end() && nextAbst == abst_q.end()){
 				std::cout << color(RED,"Problem is unsolvable") << std::endl;
 				exit(0);
 			}
-			currentCost = findIt->first;
+			if (nextAbst == abst_q.end() || (nextPrim != prim_q.end() && nextPrim->first < nextAbst->first))
+				currentCost = nextPrim->first;
+			else
+				currentCost = nextAbst->first;
 			currentDepthInAbstract = 0; // the primitive layer
 			current_queue = prim_q[currentCost];
 			std::cout << color(CYAN,"==========================") << " Cost Layer " << currentCost << std::endl; 
-- 
2.43.0


From dff59f605d10b547cb389f2afeed57c9c02e1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:40 +0000
Subject: [PATCH 26/27] fix: the BDD planner lost continuations behind tasks
 that were already known

Method applications of the layer in which an action is handled may continue
behind it, and a state on the stack may lead to several states, at different
costs. A task that was found on the stack with another state at the same cost
does not mean that there is no plan.
---
 src/symbolic_search/automaton.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 06cd1f2..246216f 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -565,8 +565,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				DEBUG(pc(mc); std::cout << "\t\t" << color(GREEN,"Got to target task on stack.") << std::endl);
 				return get_empty_success(newStateStack.front() * targetState);
 			} else {
+				// the same task may have been on the stack before, with another state but at the same cost
 				DEBUG(pc(mc); std::cout << "\t\t" << color(RED,"Got to target task on stack, but state does not fit.") << std::endl);
-				return get_fail();
 			}
 		}
 		
@@ -1360,10 +1360,11 @@ void build_automaton(Model * htn){
 	
 							for (auto & [task2,tos] : edges[to]){
 								for (auto & [to2,bdds] : tos){
-									if (!bdds.count(lastCost) || !bdds[lastCost].count(lastDepth)) continue;
+									// method applications since the action's start may also continue here
+									if (!bdds.count(currentCost) || !bdds[currentCost].count(currentDepthInAbstract)) continue;
 									DEBUG(std::cout << "\tContinuing edge: " << task2 << " " << vertex_to_method[to2] << "\t" << htn->taskNames[task2] << std::endl);
 									
-									BDD bdd = bdds[lastCost][lastDepth];
+									BDD bdd = bdds[currentCost][currentDepthInAbstract];
 									BDD addStateWithIntermediate = nextState * bdd;
 									BDD originalAddStateWithIntermediate = addStateWithIntermediate;
 									// we only add something if it is not already at the edge ...
@@ -1570,6 +1571,10 @@ void build_automaton(Model * htn){
 		
 												// state after eps in v and stack push state in v'
 												BDD epsCurrent = eps[methods_with_two_tasks_vertex[method]][cost][depth];
+												// a push state may lead to several states, at different costs. Look at each of them when it is reached first
+												auto [pCost, pDepth] = prev(cost, depth);
+												if (eps[methods_with_two_tasks_vertex[method]].count(pCost) && eps[methods_with_two_tasks_vertex[method]][pCost].count(pDepth))
+													epsCurrent = epsCurrent * !eps[methods_with_two_tasks_vertex[method]][pCost][pDepth];
 			
 												// determine the state intersection, i.e. whether we actually have a possible epsilon shortcut at this state
 												BDD epsilonIntersect = epsCurrent * sIntersect;
@@ -1614,13 +1619,6 @@ void build_automaton(Model * htn){
 												}
 												////////////////////////////////////////////////////////////////	
 	
-												// remove the part of the state that we handled from consideration
-												sIntersect = sIntersect * !(epsilonIntersect.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre));
-												if (sIntersect.IsZero()) break;
-											}
-											if (sIntersect.IsZero()){
-												DEBUG(std::cout << "\t\t\t\t" << color(RED,"no intersection remaining.") << std::endl);
-												break;
 											}
 										}
 
-- 
2.43.0


From 7b3db3300b5c55e504f0f05559db5edcc921d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:40 +0000
Subject: [PATCH 27/27] fix: the BDD planner recorded epsilon transitions only
 with a continuation

An epsilon transition whose only continuation was known already was not found
again when a further method application could use it, and the extraction of a
plan from an epsilon transition considered states in which the task could not
have been decomposed.
---
 src/symbolic_search/automaton.cpp | 37 +++++++++++++------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 246216f..137fd27 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -890,6 +890,9 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		edgeBDD = edgeBDD * !eps[toVertex][pCost][pDepth]; // only the new epsilon states are interesting
 		// and of the new ones only the ones that will lead to the current stack head
 		edgeBDD *= stateStack.front(); // this has now v (current state) v' (stack push state) v'' (stack continuation)
+		// and only the push states in which the base task could be decomposed
+		ensureBDD(preTask, preTo, preCost, preDepth-1, sym_vars);
+		edgeBDD *= edges[0][preTask][preTo][preCost][preDepth-1].SwapVariables(sym_vars.swapVarsPre, sym_vars.swapVarsEff);
 		DEBUG(pc(mc); std::cout << "\t\t\tEdgeBDD is " << cost << " " << depth << " / " << pCost << " " << pDepth << std::endl);
 		
 		if (edgeBDD.IsZero()){
@@ -937,34 +940,26 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		);
 
 
-		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, remainingTask, remainingMethod, _] : eps_inserted[toVertex][cost][depth]){
-			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " next on stack: t=" << remainingTask << " m=" << remainingMethod << " previous task: " << lastTask << " method: " << method2 << " " << endl);
+		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, _task, _method, _] : eps_inserted[toVertex][cost][depth]){
+			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " previous task: " << lastTask << " method: " << method2 << " " << endl);
 		
 
 			//////////////////////////////////////////////// Reconstruct a plan for the epsilon transition
-			// start reconstruction with empty stack	
-			std::deque<int> epsilonTaskStack;
-			std::deque<int> epsilonMethodStack;
-			std::deque<BDD> epsilonStateStack;
-
-			epsilonTaskStack.push_back(remainingTask);
-			epsilonMethodStack.push_back(remainingMethod);
-			ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
-			epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
-		
 			// regress through the last operation that we performed
-			predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
-				epsilonTaskStack,epsilonMethodStack,epsilonStateStack,
-				method2,htn,sym_vars);
+			// the new epsilon states have the push state in v', the edge that caused them had it in v''
+			BDD lastState = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).SwapVariables(sym_vars.swapVarsEff, sym_vars.swapVarsAux);
+			if (lastTask < htn->numActions)
+				lastState = trs[lastTask].preimage(lastState);
 
-			if (!predecessorsIsPossible) {
+			if (lastState.IsZero()) {
 				DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
 				continue;
 			}
 
-			epsilonTaskStack.pop_back();
-			epsilonMethodStack.pop_back();
-			epsilonStateStack.pop_back();
+			// start reconstruction with only the last task on the stack
+			std::deque<int> epsilonTaskStack(1, lastTask);
+			std::deque<int> epsilonMethodStack(1, toVertex);
+			std::deque<BDD> epsilonStateStack(1, lastState);
 
 			// only a target state if push and current are identical	
 			BDD nextTargetState = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre).
@@ -1356,6 +1351,8 @@ void build_automaton(Model * htn){
 						if (disjunct != eps[to][currentCost][currentDepthInAbstract]){
 							eps[to][currentCost][currentDepthInAbstract] = disjunct;
 							DEBUG(std::cout << "\t\t\t\t\t\t" << color(MAGENTA,"Adding to eps of ") << vertex_to_method[to] << std::endl);
+							tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], -1, -1, -1};
+							eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
 							
 	
 							for (auto & [task2,tos] : edges[to]){
@@ -1442,8 +1439,6 @@ void build_automaton(Model * htn){
 									addQ(task2, to2, 0, task, to, htn->emptyMethod[task], -1, -1, false); // no method as primitive
 							
 									
-									tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], task2, to2, -1};
-									eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
 								
 									
 									//if (step == 141){
-- 
2.43.0

