From 78724c40c80bbe042fe8f4f742a426e9fbd54427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 01/38] fix: keep the infeasibility verdict of strong branching

A candidate whose two branches are infeasible proves the node infeasible, but a
later candidate with one infeasible branch overwrote the return code and the
search then branched on (or asserted about) an infeasible node.  The look-ahead
heuristic also asserted that no branch was infeasible.
---
 src/Algorithms/Branching/BonChooseVariable.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 02f0b9d..7cf1ff9 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -917,7 +917,8 @@ namespace Bonmin
         // infeasible
         returnCode=-1;
         //break; // exit loop
-      } else if (status0==1||status1==1) {
+      } else if (returnCode!=-1&&(status0==1||status1==1)) {
+        // (do not forget a candidate which is infeasible both ways)
         numberStrongFixed_++;
   	returnCode=1;
       }
@@ -928,8 +929,7 @@ namespace Bonmin
         break;
       }
       // stop if look ahead heuristic tells us so
-      if (!isRoot && numberLookAhead_) {
-	assert(status0==0 && status1==0);
+      if (!isRoot && numberLookAhead_ && status0==0 && status1==0) {
 	double upEstimate = result->upChange();
 	double downEstimate = result->downChange();
 	double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From 5b4c611640d204271721e6f6681da0ee72009ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 02/38] fix: outer approximation and feasibility pump cutoffs
 around zero

The cutoff after an improving solution was ub*(1 -+ increment), equal to ub when
ub is 0: assertion failure, or an endless loop.  Linear problems, for which no
cut is generated, also tripped an assertion.
---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 7 ++-----
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 5 ++---
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cab337f..d0e1dce 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -158,10 +158,8 @@ namespace Bonmin
            //nlp is solved and feasible
            // Update the cutoff
            ub = std::min(ub, nlp_->getObjValue());
-           cutoff = ub > 0 ?
-                    ub * (1 - parameters_.cbcCutoffIncrement_):
-                    ub * (1 + parameters_.cbcCutoffIncrement_);
-           assert(cutoff < ub);
+           // The decrement does not vanish when ub is close to 0
+           cutoff = ub - parameters_.cbcCutoffIncrement_ * std::max(fabs(ub), 1.);
            
            numSols_++;
          }
@@ -198,7 +196,6 @@ namespace Bonmin
 #endif
       
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
       installCuts(*lp, cs, numberCuts);
       numberCutsBefore = cs.sizeRowCuts();
      
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..6d550af 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -146,8 +146,8 @@ namespace Bonmin
         //nlp solved and feasible
         // Update the cutoff
         ub = std::min(nlp_->getObjValue(), ub);
-        cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
-        assert(cutoff < ub);
+        // The decrement does not vanish when ub is close to 0
+        cutoff = ub - parameters_.cbcCutoffIncrement_ * std::max(fabs(ub), 1.);
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
         numSols_++;
@@ -166,7 +166,6 @@ namespace Bonmin
       }
 
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
       installCuts(*lp, cs, numberCuts);
 
       lp->resolve();
-- 
2.43.0


From 855afcfc355cab2adf17fd59d30601ae209175be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 03/38] fix: feasibility checker fathomed nodes with a
 fractional LP solution

After cutting an integer point off, a LP solution within 0.1 of that point was
taken for the same integer assignment and the node was declared infeasible.
---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 1149a5d..b1db8b3 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -101,7 +101,11 @@ namespace Bonmin
       //	  if(!fixed)//fathom on bounds
       //           milpBound = 1e200;
       if (feasible) {
-        changed = isDifferentOnIntegers(*nlp_, objects_, nObjects_,
+        // A fractional point of the lp is a new one however close it is
+        branch_info.solution_ = lp->getColSolution();
+        changed = !integerFeasible(*lp, branch_info, parameters_.cbcIntegerTolerance_,
+                                   objects_, nObjects_) ||
+                  isDifferentOnIntegers(*nlp_, objects_, nObjects_,
                                         0.1,
                                         nlp_->getColSolution(), lp->getColSolution());
       }
-- 
2.43.0


From 3edd4581f53e88c5fd085e40a2b7c62333687890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 04/38] fix: violation of nonlinearities asserted LP optimality
 to 1e-8

The LP value is below the nonlinear objective only up to the LP tolerances, so
ECP-based runs aborted on valid problems.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..358aeab 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1870,7 +1870,6 @@ OsiTMINLPInterface::getNonLinearitiesViolation(const double *x, const double obj
 {
   double f;
   double norm = getConstraintsViolation(x, f);
-  assert((f - obj) > -1e-08);
   norm =  (f - obj) > norm ? f - obj : norm;
   return norm;
 }
-- 
2.43.0


From d849a0d938c94109eb94cc36af2091d839671c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 05/38] fix: Benders cut dropped the constraint part of its
 right hand side

The objective term overwrote the right hand side accumulated from the constraints;
the resulting cut could remove optimal solutions.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 358aeab..63cedca 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2175,7 +2175,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     double f;
     problem_to_optimize_->eval_f(n, x, 1, f);
 
-    ub = -f;
+    ub -= f;
     //double minCoeff = 1e50;
     for(int i = 0; i<n ; i++) {
       if(cleanNnz(obj[i],colLower[i], colUpper[i], -getInfinity(), 0,
-- 
2.43.0


From 89ea1d68dcbde1161422fb0a11046943874c890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 06/38] fix: constant terms of linear constraints in the linear
 relaxation

A constraint declared LINEAR may have a constant term; it was ignored in the rows
of the linear relaxation, giving wrong infeasibility or optima.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 63cedca..3eff2b0 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2414,6 +2414,19 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   const double * duals = getRowPrice() + 2*n;
   assert(m==getNumRows());
   double infty = si.getInfinity();
+  //Constant terms of the linear constraints
+  vector<double> linConst(m);
+  {
+    vector<double> scale(m, 1.);
+    std::copy(g.begin(), g.end(), linConst.begin());
+    for(int i = 0 ; i < nnz_jac_g ; i++) {
+      double value = jValues_[i] * x[jCol_[i]];
+      linConst[jRow_[i]] -= value;
+      scale[jRow_[i]] += fabs(value);
+    }
+    for(int i = 0 ; i < m ; i++)
+      if(fabs(linConst[i]) < 1e-10*scale[i]) linConst[i] = 0.;
+  }
   for(int i = 0 ; i < m ; i++) {
     if(constTypes_[i] == TNLP::NON_LINEAR) {
       //If constraint is range not binding prepare to remove it
@@ -2448,12 +2461,12 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
     }
     else {
       if(rowLower[i] > -infty_){
-         rowLow[i] = (rowLower[i]);
+         rowLow[i] = (rowLower[i]) - linConst[i];
       }
       else
         rowLow[i] = - infty;
       if(rowUpper[i] < infty_){
-         rowUp[i] =  (rowUpper[i]);
+         rowUp[i] =  (rowUpper[i]) - linConst[i];
       }
       else
         rowUp[i] = infty;
-- 
2.43.0


From 7fee61774358f6a475da478afb35e65916eca24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 07/38] fix: branching direction left undefined when no strong
 branching is done

With number_strong_branch=0 the direction stayed at -1 and the search
stopped on an assertion when pseudo costs were updated.
---
 src/Algorithms/Branching/BonChooseVariable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 7cf1ff9..4636ac5 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -755,6 +755,8 @@ namespace Bonmin
       }
       else {
         bestObjectIndex_=list_[0];
+        if (bestWhichWay_ < 0)
+          bestWhichWay_ = 0;
       }
       if ( bestObjectIndex_ >=0 ) {
         OsiObject * obj = solver->objects()[bestObjectIndex_];
-- 
2.43.0


From 858db1388cffb7b87ef66cdb88cda115dd9436ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 08/38] fix: LP strong branching set the upper bound to the
 lower bound

The down branch was evaluated with the variable fixed at its lower bound,
so feasible children were declared infeasible.
---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 4faaa63..3a61b1d 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -145,7 +145,7 @@ namespace Bonmin
           diff_up_bnd_index.push_back(i);
           diff_up_bnd_value.push_back(colUp_orig[i]);
         }
-        lin->setColUpper(i,lo);
+        lin->setColUpper(i,up);
       }
     }
 
@@ -179,7 +179,7 @@ namespace Bonmin
       }
     }
     tminlp_interface->problem()->set_obj_value(obj);
-    tminlp_interface->problem()->Set_x_sol(numCols, lin_->getColSolution());
+    tminlp_interface->problem()->Set_x_sol(numCols, lin->getColSolution());
 
     //restore the original bounds
     if(warm_start_mode_ == Basis){
-- 
2.43.0


From 87b176d104befd67ee53d66ebf2c3276aca212e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 09/38] fix: best-guess node comparison crashed without a
 branching method

---
 src/CbcBonmin/BonGuessHeuristic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonGuessHeuristic.cpp b/src/CbcBonmin/BonGuessHeuristic.cpp
index 157eca7..009a6ed 100644
--- a/src/CbcBonmin/BonGuessHeuristic.cpp
+++ b/src/CbcBonmin/BonGuessHeuristic.cpp
@@ -24,7 +24,8 @@ namespace Bonmin
   GuessHeuristic::solution(double &solutionValue, double *betterSolution)
   {
     // Get pointer to pseudo costs object
-    const BonChooseVariable* chooseMethod = dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod());
+    const BonChooseVariable* chooseMethod = model_->branchingMethod() == NULL ? NULL :
+      dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod());
 
     if (!chooseMethod) {
       (*model_->messageHandler()) << "Can't get pseudo costs!!!\n";
-- 
2.43.0


From bd6f485e3b6bc85bb9cd5e97be1ef6c94d731d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 10/38] fix: probed diving pushed a missing node and dropped
 nodes above the cutoff

---
 src/CbcBonmin/BonDiver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 2f3054e..3563ca4 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -345,7 +345,8 @@ namespace Bonmin
           CbcTree::push(nextOnBranch_);
           nextOnBranch_ = NULL;
           //Also have to cleanup candidateChild_
-          CbcTree::push(candidateChild_);
+          if (candidateChild_ != NULL)
+            CbcTree::push(candidateChild_);
           candidateChild_ = NULL;
           return CbcTree::bestNode(cutoff);
         }
@@ -386,6 +387,8 @@ namespace Bonmin
         return ret_val;
       }
       assert(true && "Should not get here.");
+      CbcTree::push(candidateChild_);//For safety
+      candidateChild_ = NULL;
    }
    CbcNode * ret_val = CbcTree::bestNode(cutoff);
 #ifdef DIVE_DEBUG
-- 
2.43.0


From 0a96f427dac348c05e9d61d94a4e081af4d0b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:18 +0000
Subject: [PATCH 11/38] fix: depth-first diving lost nodes and stopped on
 assertions

The node taken off the heap outside of the FindSolutions mode was dropped,
the assignment operator did not copy the depth limit, the backtrack and
depth assertions do not hold after the limits are reached, an empty heap
was dereferenced and the comparison threw in the Enlarge mode.
---
 src/CbcBonmin/BonDiver.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 3563ca4..697b974 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -490,7 +490,7 @@ namespace Bonmin
       nBacktracks_ = rhs.nBacktracks_;
       maxDepthBFS_ = rhs.maxDepthBFS_;
       maxDiveBacktracks_ = rhs.maxDiveBacktracks_;
-      maxDiveDepth_ = maxDiveDepth_;
+      maxDiveDepth_ = rhs.maxDiveDepth_;
       mode_ = rhs.mode_;
     }
     return *this;
@@ -602,9 +602,8 @@ namespace Bonmin
     }
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::bestNode(cutoff);
+      return CbcTree::bestNode(cutoff);
     }
-    assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
     while (diveListSize_ > 0) {
 #ifdef DIVE_DEBUG
@@ -616,7 +615,6 @@ namespace Bonmin
       dive_.pop_front();
       diveListSize_ --;
       assert(node);
-      assert((node->depth() - divingBoardDepth_) <= maxDiveDepth_);
       if (node->objectiveValue() > cutoff) {//throw away node for now just put it on the heap as deleting a node is
         //more complicated than that (has to delete nodeInfo, cuts...)
 #ifdef DIVE_DEBUG
@@ -669,7 +667,8 @@ namespace Bonmin
     assert(dive_.empty());
     assert(diveListSize_ == 0);
     node = CbcTree::bestNode(cutoff);
-    divingBoardDepth_ = node->depth();
+    if (node != NULL)
+      divingBoardDepth_ = node->depth();
     nBacktracks_ = 0;
     return node;
   }
@@ -820,7 +819,7 @@ namespace Bonmin
     assert(comparisonDive_);
     assert(comparisonBound_);
     CbcDfsDiver::ComparisonModes mode = diver_->getComparisonMode();
-    if (mode == CbcDfsDiver::FindSolutions) {
+    if (mode == CbcDfsDiver::FindSolutions || mode == CbcDfsDiver::Enlarge) {
       return comparisonDive_->test(x,y);
     }
     else if (mode == CbcDfsDiver::CloseBound) {
-- 
2.43.0


From deb7a351bdbbcadac7e424e8b142cd401e2bcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:44 +0000
Subject: [PATCH 12/38] fix: strong and reliability branching crashed nonlinear
 branch and bound

Cbc's own strong branching needs the matrix of a linear solver; B-BB now
uses its nonlinear strong branching when these strategies are asked for by
name, as it does by default.
---
 src/Algorithms/BonBonminSetup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index ae60d2f..7e32744 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -415,7 +415,7 @@ namespace Bonmin
     }
     int varSelection;
     bool val = options_->GetEnumValue("variable_selection",varSelection,prefix_.c_str());
-    if (!val){// || varSelection == STRONG_BRANCHING || varSelection == RELIABILITY_BRANCHING ) {
+    if (!val || varSelection == STRONG_BRANCHING || varSelection == RELIABILITY_BRANCHING) {
       std::string o_name = prefix_ + "variable_selection";
       options_->SetStringValue(o_name.c_str(), "nlp-strong-branching",true,true);
       varSelection = NLP_STRONG_BRANCHING;
-- 
2.43.0


From 6e31e545888ae99d9369d0f2572cea1e61e19f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 13/38] fix: Jacobian, Hessian and cutoff row of the
 feasibility problem

The wrapped problem was asked for its Jacobian with the row count of the
extended problem, the entries of the local branching row were written past
the end when both extra rows are present, the cutoff row bounded the
distance instead of the objective, and outside of the pump objective the
Hessian was scaled by a zero weight and had the wrong number of entries.
---
 src/Interfaces/BonTNLP2FPNLP.cpp | 36 +++++++++++++++-----------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..75882e0 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -268,9 +268,8 @@ namespace Bonmin
 	  jCol[i] = i + index_correction;
 	}
 	// compute the jacobian contribution of the local branching constraint
-	k = nele_jac - n_integers;
-	iRow += k;
-	jCol += k;
+	iRow += n;
+	jCol += n;
 	for(int i = 0; i< n_integers; i++) {
 	  iRow[i] = m - 1 + index_correction;
 	  jCol[i] = inds_[i] + index_correction;
@@ -279,10 +278,9 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
+	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
-	  int k = nele_jac - n - n_integers;
-	  values += k;
 	  for(int i = 0; i< n; i++) {
 	    values[i] = grad_f[i];
 	  }
@@ -291,8 +289,7 @@ namespace Bonmin
 	  ret_code = false;
 	delete [] grad_f;
 	// compute the jacobian contribution of the local branching constraint
-	int k = nele_jac - n_integers;
-	values += k;
+	values += n;
 	for(int i = 0; i< n_integers; i++) {
 	  if(vals_[i] <= 0.1)
 	    values[i] = 1.0;
@@ -305,7 +302,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -320,7 +317,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
@@ -338,7 +335,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -380,27 +377,28 @@ namespace Bonmin
   {
     bool ret_code;
 
-    int  nnz_obj_h = (norm_ == 2) ? (int)inds_.size() : 0;
+    int  nnz_obj_h = (use_feasibility_pump_objective_ && norm_ == 2) ? (int)inds_.size() : 0;
+    double obj_scaling = use_feasibility_pump_objective_ ? (1-lambda_)*sigma_ : 1.;
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 2];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*obj_scaling + coef_obj, 
 			       m - 2, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_cutoff_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 1];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*obj_scaling + coef_obj, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_local_branching_constraint_) {
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*obj_scaling, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else { // this is the original feasibility pump implementation
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*obj_scaling, 
 			       m, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
-- 
2.43.0


From 03025afa4efc56d91ecb4237615d734107c0152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:59 +0000
Subject: [PATCH 14/38] fix: infinite objective of an unsolved node turned
 pseudo costs into NaN

No branching candidate was then listed and the search crashed.
---
 src/Algorithms/Branching/BonChooseVariable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 4636ac5..bfb7c1a 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -1039,6 +1039,8 @@ BonChooseVariable::updateInformation( int index, int branch,
   assert (branch<2); 
 
   if(fabs(changeInValue) < 1e-6) return;
+  //An unsolved node has an infinite objective, do not spoil pseudo costs with it
+  if(!(changeInObjective < 1e50)) return;
 
   double* upTotalChange = pseudoCosts_.upTotalChange(); 
   double* downTotalChange = pseudoCosts_.downTotalChange(); 
-- 
2.43.0


From e499d079a13f691c986369dc44c9b254778b1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:13 +0000
Subject: [PATCH 15/38] fix: strong branching applied branches that an earlier
 one had settled

---
 .../Branching/BonChooseVariable.cpp           | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index bfb7c1a..c5834cf 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -703,9 +703,13 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                OsiBranchingObject * branch = obj->createBranch(solver,info,0);
-                branch->branch(solver);
-                delete branch;
+                const int iCol = obj->columnNumber();
+                // a branch applied before may already have settled this object
+                if (iCol < 0 ? numberFixed == 1 : solver->getColLower()[iCol] < solver->getColUpper()[iCol]) {
+                  OsiBranchingObject * branch = obj->createBranch(solver,info,0);
+                  branch->branch(solver);
+                  delete branch;
+                }
               }
             }
             double downEstimate;
@@ -726,9 +730,13 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                OsiBranchingObject * branch = obj->createBranch(solver,info,1);
-                branch->branch(solver);
-                delete branch;
+                const int iCol = obj->columnNumber();
+                // a branch applied before may already have settled this object
+                if (iCol < 0 ? numberFixed == 1 : solver->getColLower()[iCol] < solver->getColUpper()[iCol]) {
+                  OsiBranchingObject * branch = obj->createBranch(solver,info,1);
+                  branch->branch(solver);
+                  delete branch;
+                }
               }
             }
             double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From 6748632e31514e0299d40143778f51dcf2ad29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:25 +0000
Subject: [PATCH 16/38] fix: cuts that are not violated enough were dropped
 only when logging

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 3eff2b0..e3cfbac 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2014,7 +2014,8 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
       double violation = 0.;
       violation = std::max(violation, rhs - ub[cutIdx]);
       violation = std::max(violation, lb[cutIdx] - rhs);
-      if(violation < theta && oaHandler_->logLevel() > 0) {
+      if(violation < theta) {
+        if(oaHandler_->logLevel() > 0)
           oaHandler_->message(CUT_NOT_VIOLATED_ENOUGH, oaMessages_)<<cut2rowIdx[cutIdx]<<violation<<CoinMessageEol;
         continue;}
       if(oaHandler_->logLevel() > 0)
-- 
2.43.0


From d78f74934557477965126d796756b00224ca11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 17/38] fix: index style of single constraint gradients in cuts
 and cut strengthening

---
 src/Interfaces/BonCutStrengthener.cpp    | 13 +++++++++++++
 src/Interfaces/BonOsiTMINLPInterface.cpp | 10 +++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonCutStrengthener.cpp b/src/Interfaces/BonCutStrengthener.cpp
index 9a0ca49..ed85c24 100644
--- a/src/Interfaces/BonCutStrengthener.cpp
+++ b/src/Interfaces/BonCutStrengthener.cpp
@@ -265,6 +265,19 @@ namespace Bonmin
 	delete [] jCol;
 	return false;
       }
+      // eval_grad_gi uses the index style of the problem
+      Index n_orig, m_orig, nnz_jac_g, nnz_h_lag;
+      TNLP::IndexStyleEnum index_style;
+      if (!tminlp->get_nlp_info(n_orig, m_orig, nnz_jac_g, nnz_h_lag,
+				index_style)) {
+	delete [] jCol;
+	return false;
+      }
+      if (index_style == TNLP::FORTRAN_STYLE) {
+	for (Index i=0; i<nele_grad_gi; i++) {
+	  jCol[i]--;
+	}
+      }
     }
 
     bool lower_bound;
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e3cfbac..e45cd86 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2212,7 +2212,15 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   int * indices = new int[getNumCols()];
   double * values = new double[getNumCols()];
   int nnz;
-  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values);
+  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, NULL);
+  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, NULL, values);
+  {
+    int n, m, nnz_jac_g, nnz_h_lag;
+    TNLP::IndexStyleEnum index_style;
+    problem_->get_nlp_info(n, m, nnz_jac_g, nnz_h_lag, index_style);
+    if(index_style == TNLP::FORTRAN_STYLE)
+      for(int i = 0 ; i < nnz ; i++) indices[i]--;
+  }
   problem_->eval_gi(getNumCols(),x,1, rowIdx, g);
 
   CoinPackedVector cut;
-- 
2.43.0


From bb2e82ac17151075d8bbcd4dd7375c34ec6c34d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 18/38] fix: removed coefficients and rows stayed in the linear
 relaxation

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e45cd86..d6954df 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2499,6 +2499,8 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
           if(rowUp[jRow_[i]] < infty)
           rowUp[jRow_[i]] += jValues_[i] *x[jCol_[i]];
        }
+       else //the bounds of the row account for the removed coefficient
+          jValues_[i] = 0.;
     }
     else {
       //double value = jValues_[i] * x[jCol_[i]];
@@ -2513,6 +2515,19 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   
   //remove non-bindings equality constraints
   mat.deleteRows(numNonBindings, nonBindings());
+  if(numNonBindings){//and their bounds
+    int kept = 0;
+    for(int i = 0, k = 0 ; i < m ; i++) {
+      if(k < numNonBindings && nonBindings[k] == i) {
+        k++;
+        continue;
+      }
+      rowLow[kept] = rowLow[i];
+      rowUp[kept++] = rowUp[i];
+    }
+    rowLow.resize(kept);
+    rowUp.resize(kept);
+  }
 
   int numcols=getNumCols();
   vector<double> obj(numcols);
-- 
2.43.0


From b6dbfc749d1e0635b9701cc34bdb54a812ec0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:57 +0000
Subject: [PATCH 19/38] fix: copies, row activities and empty warm starts of
 the solver interface

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 64 +++++++++++-------------
 src/Interfaces/BonTMINLP2TNLP.cpp        |  8 +++
 src/Interfaces/BonTMINLP2TNLP.hpp        |  3 ++
 3 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index d6954df..faf6981 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -607,6 +607,7 @@ OsiTMINLPInterface::OsiTMINLPInterface (const OsiTMINLPInterface &source):
       debug_apps_.push_back((*i)->clone());
     }
     testOthers_ = source.testOthers_;
+    optimizationStatus_ = source.optimizationStatus_;
   }
   else {
     throw SimpleError("Don't know how to copy an empty IpoptInterface.",
@@ -652,47 +653,30 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     if(IsValid(rhs.tminlp_)) {
 
       tminlp_ = rhs.tminlp_;
-      problem_ = new TMINLP2TNLP(tminlp_);
-      problem_to_optimize_ = GetRawPtr(problem_);
+      problem_ = rhs.problem_->clone();
       app_ = rhs.app_->clone();
 
       warmstart_ = rhs.warmstart_ ? rhs.warmstart_->clone() : NULL;
 
       feasibilityProblem_ = new TNLP2FPNLP
-          (SmartPtr<TNLP>(GetRawPtr(problem_)));
+          (SmartPtr<TNLP>(GetRawPtr(problem_)), rhs.feasibilityProblem_);
+      feasibility_mode_ = rhs.feasibility_mode_;
+      if(feasibility_mode_)
+        problem_to_optimize_ = GetRawPtr(feasibilityProblem_);
+      else
+        problem_to_optimize_ = GetRawPtr(problem_);
       nnz_jac = rhs.nnz_jac;
 
-      if(constTypes_ != NULL) {
-        delete [] constTypes_;
-        constTypes_ = NULL;
-      }
-      if(rhs.constTypes_ != NULL) {
-        constTypes_ = new TNLP::LinearityType[getNumRows()];
-        CoinCopyN(rhs.constTypes_, getNumRows(), constTypes_);
-      }
-/*
-      if(constTypesNum_ != NULL) {
-        delete [] constTypesNum_;
-        constTypesNum_ = NULL;
-      }
-      if(rhs.constTypesNum_ != NULL) {
-        constTypesNum_ = new int[getNumRows()];
-        CoinCopyN(rhs.constTypesNum_, getNumRows(), constTypesNum_);
-      }
-*/
-      if(rhs.jValues_!=NULL && rhs.jRow_ != NULL && rhs.jCol_ != NULL && nnz_jac>0) {
-        jValues_ = new double [nnz_jac];
-        jCol_    = new Index [nnz_jac];
-        jRow_    = new Index [nnz_jac];
-        CoinCopyN(rhs.jValues_ , nnz_jac,jValues_ );
-        CoinCopyN(rhs.jCol_    , nnz_jac,jCol_    );
-        CoinCopyN(rhs.jRow_    , nnz_jac,jRow_    );
-      }
-      else if(nnz_jac > 0) {
-        throw CoinError("Arrays for storing jacobian are inconsistent.",
-            "copy constructor",
-            "IpoptOAInterface");
-      }
+      //The arrays of the Jacobian are rebuilt when they are needed
+      delete [] constTypes_;
+      constTypes_ = NULL;
+      delete [] jValues_;
+      jValues_ = NULL;
+      delete [] jCol_;
+      jCol_ = NULL;
+      delete [] jRow_;
+      jRow_ = NULL;
+      nNonLinear_ = 0;
       tiny_ = rhs.tiny_;
       veryTiny_ = rhs.veryTiny_;
       rhsRelax_ = rhs.rhsRelax_;
@@ -734,6 +718,7 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     pretendSucceededNext_ = rhs.pretendSucceededNext_;
     numIterationSuspect_ = rhs.numIterationSuspect_;
 
+    optimizationStatus_ = rhs.optimizationStatus_;
     hasBeenOptimized_ = rhs.hasBeenOptimized_;
     cutStrengthener_ = rhs.cutStrengthener_;
 
@@ -861,6 +846,8 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
   CoinCopyN(getRowPrice(),
       2*getNumCols()+ getNumRows(),
       point() + getNumCols());
+  vector<double> activity(getNumRows());
+  CoinCopyN(getRowActivity(), getNumRows(), activity());
   TNLPSolver::ReturnStatus savedStatus = optimizationStatus_;
   if(isProvenOptimal())
     messageHandler()->message(SOLUTION_FOUND,
@@ -896,6 +883,7 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
       CoinCopyN(getRowPrice(),
           2*getNumCols()+ getNumRows(),
           point() + getNumCols());
+      CoinCopyN(getRowActivity(), getNumRows(), activity());
       bestBound = getObjValue();
       savedStatus = optimizationStatus_;
     }
@@ -976,6 +964,7 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
 
   problem_->Set_x_sol(getNumCols(),point());
   problem_->Set_dual_sol((int) point.size()-getNumCols(), point() + getNumCols());
+  problem_->Set_g_sol(getNumRows(), activity());
   problem_->set_obj_value(bestBound);
   optimizationStatus_ = savedStatus;
   hasBeenOptimized_ = true;
@@ -1444,7 +1433,8 @@ OsiTMINLPInterface::getWarmStart() const
     return internal_getWarmStart();;
   }
   else if(warmStartMode_ == FakeBasis){
-    return build_fake_basis();
+    //no activities to look at before the first solve
+    return problem_->g_sol() != NULL || getNumRows() == 0 ? build_fake_basis() : getEmptyWarmStart();
   }
   else {
     return getEmptyWarmStart();
@@ -1520,6 +1510,10 @@ OsiTMINLPInterface::internal_setWarmStart(const CoinWarmStart* ws)
   }
   // See if it is anything else than the CoinWarmStartBasis that all others
   // derive from
+  const IpoptWarmStart* iws = dynamic_cast<const IpoptWarmStart*>(ws);
+  if (iws && iws->empty()) {
+    return true;//nothing to start from
+  }
   const CoinWarmStartPrimalDual* pdws =
     dynamic_cast<const CoinWarmStartPrimalDual*>(ws);
   if (pdws) {
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..a1ee288 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -313,6 +313,14 @@ namespace Bonmin
     IpBlasDcopy(n, x_sol, 1, x_sol_(), 1);
   }
 
+  /** Set the activities of the constraints at the solution */
+  void TMINLP2TNLP::Set_g_sol(Index m, const Number* g_sol)
+  {
+    assert(m == num_constraints());
+    g_sol_.resize(m);
+    IpBlasDcopy(m, g_sol, 1, g_sol_(), 1);
+  }
+
   /** Set the contiuous dual solution */
   void TMINLP2TNLP::Set_dual_sol(Index n, const Number* dual_sol)
   {
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index f158ad8..32b00e6 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -212,6 +212,9 @@ namespace Bonmin
     /** Set the contiuous solution */
     void Set_x_sol(Ipopt::Index n, const Ipopt::Number* x_sol);
 
+    /** Set the activities of the constraints at the solution */
+    void Set_g_sol(Ipopt::Index m, const Ipopt::Number* g_sol);
+
     /** Set the contiuous dual solution */
     void Set_dual_sol(Ipopt::Index n, const Ipopt::Number* dual_sol);
 
-- 
2.43.0


From 8227001eda5f80ab749834a58b00aaa2643a916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:00 +0000
Subject: [PATCH 20/38] fix: heuristics evaluated the Jacobian at another point
 with new_x false

---
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 2 +-
 src/CbcBonmin/Heuristics/BonMilpRounding.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index 531b500..08be6f0 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -317,7 +317,7 @@ namespace Bonmin
 
       // get the jacobian so that we know the coefficients of the MILP matrix
       double* jac_g = new double [nnz_jac_g];
-      minlp->eval_jac_g(numberColumns, x_sol, false,
+      minlp->eval_jac_g(numberColumns, x_sol, true,
 			numberRows, nnz_jac_g,
 			0, 0, jac_g);
 
diff --git a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
index c0d9ef3..5a3b038 100644
--- a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
+++ b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
@@ -141,7 +141,7 @@ namespace Bonmin
 
     // get the jacobian values 
     vector<double> jac_g(nnz_jac_g);
-    minlp->eval_jac_g(n, x_sol, false,
+    minlp->eval_jac_g(n, x_sol, true,
                       m, nnz_jac_g,
                       NULL, NULL, jac_g());
 
-- 
2.43.0


From d74dce0c04a857a6021a3c243b1d2dd12ff319b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:40 +0000
Subject: [PATCH 21/38] fix: single-row gradient and new_x of the
 linear-objective form

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 2 ++
 src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index 2dd7729..54208fe 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -196,9 +196,11 @@ namespace Bonmin{
      assert(i < m_);
      assert(n == n_);
      if(i == 0){
+      nele_grad_gi = n;
       if(jCol != NULL){
         for(int i = 0 ; i < n ; i++) jCol[i] = i + offset_;
       }
+      if(values == NULL) return true;
       bool ret_val= tminlp_->eval_grad_f(n-1, x, new_x, values);
       values[n-1] = -1;
       return ret_val;}
diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp
index 95a7199..cd3eb84 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp
@@ -96,6 +96,8 @@ class BONMINLIB_EXPORT TMINLPLinObj: public Bonmin::TMINLP {
     virtual bool eval_f(Ipopt::Index n, const Ipopt::Number* x, bool new_x,
         Ipopt::Number& obj_value){
         assert(n == n_);
+        if(new_x && !tminlp_->eval_f(n - 1, x, new_x, obj_value))//for new_x
+          return false;
         obj_value = x[n-1];
        return true;}
 
@@ -106,6 +108,8 @@ class BONMINLIB_EXPORT TMINLPLinObj: public Bonmin::TMINLP {
        assert(IsValid(tminlp_));
        assert(n == n_);
        n--;
+       if(new_x && !tminlp_->eval_grad_f(n, x, new_x, grad_f))//for new_x
+         return false;
        for(int  i = 0 ; i < n ; i++){
         grad_f[i] = 0;}
        grad_f[n] = 1;
-- 
2.43.0


From 4075aaaf3ef6e3178f5ce6be59d8a17874ac2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:40 +0000
Subject: [PATCH 22/38] fix: forgetting the starting point kept dangling
 multipliers

---
 src/Interfaces/BonTMINLP2TNLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index a1ee288..382648e 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -281,6 +281,7 @@ namespace Bonmin
   {
     curr_warm_starter_ = NULL;
     x_init_.clear();
+    duals_init_ = NULL;
   }
 
   void TMINLP2TNLP::setxInit(Index n,const Number* x_init)
-- 
2.43.0


From 15b8cbb6a7db318cc9d6405eda97048c053cba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:40 +0000
Subject: [PATCH 23/38] fix: constants, full matrices, copies, starts and
 removal of quadratic cuts

---
 src/Algorithms/QuadCuts/BonQuadCut.cpp     |  2 +-
 src/Algorithms/QuadCuts/BonQuadRow.cpp     |  2 +-
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 23 ++++++++++---
 src/Algorithms/QuadCuts/BonTMatrix.cpp     | 38 +++++++++++++---------
 src/Algorithms/QuadCuts/BonTMatrix.hpp     |  3 +-
 5 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonQuadCut.cpp b/src/Algorithms/QuadCuts/BonQuadCut.cpp
index c723953..2066650 100644
--- a/src/Algorithms/QuadCuts/BonQuadCut.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadCut.cpp
@@ -60,7 +60,7 @@ namespace Bonmin {
 	int l=length[i];
       for(int k = s ; k < s+l ; k++){
         if(i == indice[k]) rhs += solution[i] * solution[indice[k]] * val[k];
-        else rhs += 2*solution[i] * solution[indice[k]] * val[k];
+        else rhs += (type_ == Full ? 1 : 2)*solution[i] * solution[indice[k]] * val[k];
       }
     }
 
diff --git a/src/Algorithms/QuadCuts/BonQuadRow.cpp b/src/Algorithms/QuadCuts/BonQuadRow.cpp
index c473701..efe95a6 100644
--- a/src/Algorithms/QuadCuts/BonQuadRow.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadRow.cpp
@@ -52,7 +52,7 @@ QuadRow & QuadRow::operator=(const QuadRow &rhs){
 }
 
 QuadRow::QuadRow(const QuadCut &cut):
-  c_(0),
+  c_(cut.c()),
   a_(cut.row()),
   Q_(cut.Q(), cut.type())
   {
diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 62e71ff..2c2a0e1 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -55,7 +55,8 @@ namespace Bonmin {
       quadRows_(other.quadRows_),
       H_(),
       curr_nnz_jac_(other.curr_nnz_jac_),
-      obj_(other.obj_)
+      obj_(other.obj_),
+      c_(other.c_)
       {
        // Get the number of nonzoeroes in the matrix
        const size_t nnz_h = TMINLP2TNLP::nnz_h_lag();
@@ -152,7 +153,7 @@ namespace Bonmin {
                                         bool& use_g_scaling, Index m,
                                         Number* g_scaling){
            assert(num_constraints() == m);
-           bool retval = get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
+           bool retval = TMINLP2TNLP::get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
            if(use_g_scaling){
              g_scaling += m - (int)quadRows_.size();
              CoinFillN(g_scaling, (int)quadRows_.size(), 1.);}
@@ -202,7 +203,7 @@ namespace Bonmin {
     }
     i -= m_orig;
      gi = quadRows_[i]->eval_f(x, new_x);
-     return false;
+     return true;
   }
 
 
@@ -276,9 +277,10 @@ namespace Bonmin {
     }
     else{
       assert(jCol == NULL);
+      nele_grad_gi = quadRows_[i]->nnz_grad();
       quadRows_[i]->eval_grad(nele_grad_gi, x, new_x, values);
     }
-    return false;
+    return true;
   }
     /** Return the hessian of the
      *  lagrangian. The vectors iRow and jCol only need to be set once
@@ -366,6 +368,7 @@ namespace Bonmin {
      }
      addRowCuts((OsiCuts) cuts, safe); 
      duals_sol_.resize(g_l_.size() + 2*x_l_.size(), 0.);
+     if(x_init_.empty()) x_init_ = x_init_user_;
      x_init_.resize(g_l_.size() + 3*x_l_.size(), 0.);
      duals_init_ = x_init_() + x_l_.size();
   }
@@ -394,6 +397,7 @@ namespace Bonmin {
        curr_nnz_jac_ += quadRows_.back()->nnz_grad();
      }
      duals_sol_.resize(g_l_.size() + 2*x_l_.size(), 0.);
+     if(x_init_.empty()) x_init_ = x_init_user_;
      x_init_.resize(g_l_.size() + 3*x_l_.size(), 0.);
      duals_init_ = x_init_() + x_l_.size();
   } 
@@ -440,6 +444,7 @@ namespace Bonmin {
     curr_nnz_jac_ += quadRows_.back()->nnz_grad();
   }
      duals_sol_.resize(g_l_.size() + 2*x_l_.size(), 0.);
+     if(x_init_.empty()) x_init_ = x_init_user_;
      x_init_.resize(g_l_.size() + 3*x_l_.size(), 0.);
      duals_init_ = x_init_() + x_l_.size();
  }
@@ -471,12 +476,22 @@ namespace Bonmin {
     int i;
     double * g_l = g_l_() + m_tminlp;
     double * g_u = g_u_() + m_tminlp;
+    // place of the multipliers of the cuts
+    const size_t d = 2*x_l_.size() + m_tminlp;
     for(i = 0 ; order[i] < INT_MAX ; i++){
       assert(order[i] >= i);
       quadRows_[i] = quadRows_[order[i]]; 
       g_l[i] = g_l[order[i]];
       g_u[i] = g_u[order[i]];
+      if(!duals_sol_.empty())
+        duals_sol_[d + i] = duals_sol_[d + order[i]];
+      if(duals_init_)
+        duals_init_[d + i] = duals_init_[d + order[i]];
     }
+    if(!duals_sol_.empty())
+      duals_sol_.resize(d + i);
+    if(duals_init_)
+      x_init_.resize(d + x_l_.size() + i);
     quadRows_.erase(quadRows_.begin() + i, quadRows_.end());
     g_l_.erase(g_l_.begin() + m_tminlp + i, g_l_.end());
     g_u_.erase(g_u_.begin() + m_tminlp + i, g_u_.end());
diff --git a/src/Algorithms/QuadCuts/BonTMatrix.cpp b/src/Algorithms/QuadCuts/BonTMatrix.cpp
index 12ab75b..0d6eed6 100644
--- a/src/Algorithms/QuadCuts/BonTMatrix.cpp
+++ b/src/Algorithms/QuadCuts/BonTMatrix.cpp
@@ -102,9 +102,9 @@ TMat::~TMat(){
     indices. Allocate the array and returns its size.*/
 int 
 TMat::numNonEmptyRows(){
+  nonEmptyRows_.clear();
   if(nnz_ == 0) return 0;
   orderByRows();
-  nonEmptyRows_.clear();
   nonEmptyRows_.push_back(std::pair<int, int>(iRow_[rowOrdering_[0]], 0));
   int num = 1;
   for(int i = 1 ; i < nnz_ ; i++){
@@ -121,9 +121,9 @@ TMat::numNonEmptyRows(){
     indices. Allocate the array and returns its size.*/
 int 
 TMat::numNonEmptyCols(){
+  nonEmptyCols_.clear();
   if(nnz_ == 0) return 0;
   orderByColumns();
-  nonEmptyCols_.clear();
   nonEmptyCols_.push_back(std::pair<int, int>(jCol_[columnOrdering_[0]], 0));
   int num = 1;
   for(int i = 1 ; i < nnz_ ; i++){
@@ -137,23 +137,29 @@ TMat::numNonEmptyCols(){
 /** Remove the duplicated entries.*/
 void 
 TMat::removeDuplicates(){
+  if(nnz_ == 0) return;
   orderByRows();
-  int j = 0;
-  for(int i = 1; i < nnz_ ; i++){
-    if((jCol_[rowOrdering_[i]] == jCol_[rowOrdering_[j]]) && 
-       (iRow_[rowOrdering_[i]] == iRow_[rowOrdering_[j]])){
-       value_[rowOrdering_[j]] += value_[rowOrdering_[i]];
+  // Copy the entries by rows, adding up those at the same place.
+  int * iRow = new int[capacity_];
+  int * jCol = new int[capacity_];
+  double * value = new double[capacity_];
+  int nnz = 0;
+  for(int i = 0; i < nnz_ ; i++){
+    const int k = rowOrdering_[i];
+    if(nnz > 0 && jCol_[k] == jCol[nnz - 1] && iRow_[k] == iRow[nnz - 1]){
+       value[nnz - 1] += value_[k];
     }
     else{
-      jCol_[rowOrdering_[++j]] = jCol_[rowOrdering_[i]];
-      iRow_[rowOrdering_[j]] = iRow_[rowOrdering_[i]];
-      value_[rowOrdering_[j]] = value_[rowOrdering_[i]];
+      jCol[nnz] = jCol_[k];
+      iRow[nnz] = iRow_[k];
+      value[nnz++] = value_[k];
     }
   }
-  resizeAndCopyArray(jCol_, j, capacity_);
-  resizeAndCopyArray(iRow_, j, capacity_);
-  resizeAndCopyArray(value_, j, capacity_);
-  nnz_ = j;
+  freeSpace();
+  iRow_ = iRow;
+  jCol_ = jCol;
+  value_ = value;
+  nnz_ = nnz;
 }
 
 void
@@ -192,8 +198,8 @@ TMat::make_lower_to_be_upper(){
 void
 TMat::make_full_upper_triangular(){
   // Make it upper triangular
-  for(int i = 0 , j = 0; i < nnz_ && j < nnz_ ;){
-    if(iRow_[i] < jCol_[i]){//swap the two entries
+  for(int i = 0 ; i < nnz_ ; i++){
+    if(iRow_[i] > jCol_[i]){//swap the two entries
       int buf = iRow_[i];
       iRow_[i] = jCol_[i];
       jCol_[i] = buf;
diff --git a/src/Algorithms/QuadCuts/BonTMatrix.hpp b/src/Algorithms/QuadCuts/BonTMatrix.hpp
index c318159..fa6700a 100644
--- a/src/Algorithms/QuadCuts/BonTMatrix.hpp
+++ b/src/Algorithms/QuadCuts/BonTMatrix.hpp
@@ -135,9 +135,8 @@ struct BONMINLIB_EXPORT TMat{
  void makeQuadUpperDiag();
 
  void resizeOrdering(vector<int> &ordering, unsigned int newSize){
-        size_t oldSize = ordering.size();
         ordering.resize(newSize);
-        for(size_t i = oldSize ; i < newSize ; i++)
+        for(size_t i = 0 ; i < newSize ; i++)
            ordering[i] = static_cast<int>(i);
    }
 
-- 
2.43.0


From 23fe9dfac094c10c1ffa1e7d8793b1ccf7218591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:41 +0000
Subject: [PATCH 24/38] fix: name, bound and start point files could not be
 read back

---
 src/Interfaces/BonBoundsReader.cpp     | 14 +++++---------
 src/Interfaces/BonBoundsReader.hpp     |  2 ++
 src/Interfaces/BonColReader.cpp        | 12 +++++++-----
 src/Interfaces/BonColReader.hpp        | 11 +----------
 src/Interfaces/BonStartPointReader.cpp | 18 +++++++++++++-----
 src/Interfaces/BonStartPointReader.hpp | 12 ++++++++++--
 src/Interfaces/BonTMINLP2TNLP.cpp      |  3 ++-
 src/Interfaces/BonTNLPSolver.cpp       |  5 +++--
 8 files changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/Interfaces/BonBoundsReader.cpp b/src/Interfaces/BonBoundsReader.cpp
index d4ef484..d09de5a 100644
--- a/src/Interfaces/BonBoundsReader.cpp
+++ b/src/Interfaces/BonBoundsReader.cpp
@@ -62,14 +62,13 @@ void BoundsReader::read()
   {
     std::ifstream fin(fileName_.c_str());
     //std::streampos begin = fin.tellg();
-    while(!fin.eof()) {
-      fin>>in;
+    while(fin>>in) {
       if(in==lo)
         nLower_++;
       else if(in==up)
         nUpper_++;
       else
-        throw;
+        throw CoinError("Unknown type of bound in " + fileName_, "read", "BoundsReader");
       fin.ignore(10000,'\n');
     }
   }
@@ -89,10 +88,9 @@ void BoundsReader::read()
     std::ifstream fin2(fileName_.c_str());
     //fin.close();
     //fin.open(fileName_.c_str());
-    while(!fin2.eof()) {
-      int index;
-      double bound;
-      fin2>>in>>index>>bound;
+    int index;
+    double bound;
+    while(fin2>>in>>index>>bound) {
       if(in==lo) {
         lowerBounds_[nLower_] = bound;
         indexLowers_[nLower_++] = index;
@@ -101,8 +99,6 @@ void BoundsReader::read()
         upperBounds_[nUpper_] = bound;
         indexUppers_[nUpper_++] = index;
       }
-      else
-        throw;
       fin2.ignore(10000,'\n');
     }
   }
diff --git a/src/Interfaces/BonBoundsReader.hpp b/src/Interfaces/BonBoundsReader.hpp
index 64a6921..28dff8e 100644
--- a/src/Interfaces/BonBoundsReader.hpp
+++ b/src/Interfaces/BonBoundsReader.hpp
@@ -25,6 +25,8 @@ public:
       fileName_(),
       lowerBounds_(NULL),
       upperBounds_(NULL),
+      indexLowers_(NULL),
+      indexUppers_(NULL),
       nLower_(0),
       nUpper_(0)
   {}
diff --git a/src/Interfaces/BonColReader.cpp b/src/Interfaces/BonColReader.cpp
index 7a43470..6c380eb 100644
--- a/src/Interfaces/BonColReader.cpp
+++ b/src/Interfaces/BonColReader.cpp
@@ -14,7 +14,7 @@ namespace Bonmin{
 
 NamesReader::NamesReader(const char * file, const char * suffix)
     :
-    file_(), suffix_(suffix), indices_(), names_()
+    file_(), suffix_(), indices_(), names_()
 {
   assert(file!= NULL);
   file_=file;
@@ -30,7 +30,7 @@ bool NamesReader::readFile()
 {
   std::string colFileName = file_;
   size_t size = colFileName.size();
-  bool hasNlExtension =  (colFileName.size()>4) && (colFileName[size - 1] =='l') && (colFileName[size - 2] =='n') && (colFileName[size - 3] =='.');
+  bool hasNlExtension =  (colFileName.size()>3) && (colFileName[size - 1] =='l') && (colFileName[size - 2] =='n') && (colFileName[size - 3] =='.');
   if(hasNlExtension)
     colFileName.erase(size-3,3);
   colFileName+=suffix_;
@@ -40,20 +40,22 @@ bool NamesReader::readFile()
   }
   std::string name;
   int nVar = 0;
+  names_.clear();
+  indices_.clear();
   do {
     name="";
     inFile>>name;
     if(name.size()==0)
       continue;
     names_.push_back(name);
-    indices_[names_[nVar].c_str()] = nVar;
+    indices_[names_[nVar]] = nVar;
     nVar++;
   }
   while(!inFile.eof());
 
   //  names_ = new std::string[nVar];
   for(int i = 0 ; i < nVar ; i++) {
-    assert(i==indices_ [ names_ [i].c_str()]);
+    assert(i==indices_ [ names_ [i]]);
   }
   return true;
 }
@@ -61,6 +63,6 @@ bool NamesReader::readFile()
 void
 NamesReader::copyNames(OsiSolverInterface::OsiNameVec& names)
 {
-  names_ = names;
+  names = names_;
 }
 }
diff --git a/src/Interfaces/BonColReader.hpp b/src/Interfaces/BonColReader.hpp
index e086736..7ad3256 100644
--- a/src/Interfaces/BonColReader.hpp
+++ b/src/Interfaces/BonColReader.hpp
@@ -58,17 +58,8 @@ private:
   /// Suffix of the file (".col", ".row")
   std::string suffix_;
 
-  /// String comparison strucutre.
-  struct ltstr
-  {
-    bool operator()(const char* s1, const char* s2) const
-    {
-      return strcmp(s1, s2) < 0;
-    }
-  };
-
   /// Hash type.
-  typedef std::map<const char *, int, ltstr> namesHash;
+  typedef std::map<std::string, int> namesHash;
   ///Hash map used to store the indices.
   namesHash indices_;
   ///Variable names.
diff --git a/src/Interfaces/BonStartPointReader.cpp b/src/Interfaces/BonStartPointReader.cpp
index e3e4827..c92a384 100644
--- a/src/Interfaces/BonStartPointReader.cpp
+++ b/src/Interfaces/BonStartPointReader.cpp
@@ -20,30 +20,38 @@ namespace Bonmin {
     }
     int numPrimals;
     int numDuals;
-    inFile>>numPrimals>>numDuals;
     gutsOfDestructor();
+    primals_ = duals_ = NULL;
+    numPrimals_ = numDuals_ = 0;
+    if(!(inFile>>numPrimals>>numDuals) || numPrimals < 0 || numDuals < 0)
+      return false;
     primals_ = new double [numPrimals];
     duals_ = new double[numDuals];
+    numPrimals_ = numPrimals;
+    numDuals_ = numDuals;
     for(int i = 0; i < numPrimals ; i++) {
       inFile>>primals_[i];
     }
     for(int i = 0; i < numDuals ; i++) {
       inFile>>duals_[i];
     }
-    return true;
+    return !inFile.fail();
   }
 
   bool StartPointReader::readAndApply(OsiTMINLPInterface * solver)
   {
-    readFile();
+    if(!readFile())
+      return 0;
     solver->solver()->enableWarmStart();
-    if(primals_)
+    if(primals_ && numPrimals_ == solver->getNumCols())
       solver->setColSolution(primals_);
     else {
       std::cerr<<"No warm start info ???"<<std::endl;
       return 0;
     }
-    if(duals_)
+    if(numDuals_ == 0)//No duals in the file
+      return 1;
+    if(duals_ && numDuals_ == 2*solver->getNumCols() + solver->getNumRows())
       solver->setRowPrice(duals_);
     else {
       std::cerr<<"No warm start info ???"<<std::endl;
diff --git a/src/Interfaces/BonStartPointReader.hpp b/src/Interfaces/BonStartPointReader.hpp
index f1d39c1..88353a8 100644
--- a/src/Interfaces/BonStartPointReader.hpp
+++ b/src/Interfaces/BonStartPointReader.hpp
@@ -27,13 +27,17 @@ public:
   StartPointReader(std::string fileName = ""):
       fileName_(fileName),
       primals_(NULL),
-      duals_(NULL)
+      duals_(NULL),
+      numPrimals_(0),
+      numDuals_(0)
   {}
   /** Constructor with fileName_ given by a const char * */
   StartPointReader(const char * fileName):
       fileName_(fileName),
       primals_(NULL),
-      duals_(NULL)
+      duals_(NULL),
+      numPrimals_(0),
+      numDuals_(0)
   {}
 
   /** Reads the .initP file*/
@@ -79,6 +83,10 @@ private:
   double * primals_;
   /// Dual variables values.
   double * duals_;
+  /// Number of primal values.
+  int numPrimals_;
+  /// Number of dual values.
+  int numDuals_;
 };
 
 }
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index 382648e..53c7540 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -583,6 +583,7 @@ namespace Bonmin
     if(hasVarNames)
       fMod.open(fModName.c_str());
     fBounds.open(fBoundsName.c_str());
+    fBounds.precision(17);
 
     for(int i = 0 ; i < numcols ; i++) {
       if(!eq(currentLower[i],originalLower[i])) {
@@ -612,7 +613,7 @@ namespace Bonmin
     const double * primals = x_init();
     const double * duals = duals_init();
     fStartPoint.precision(17);
-    fStartPoint<<numcols<<"\t"<<2*numcols+numrows<<std::endl;
+    fStartPoint<<numcols<<"\t"<<(duals ? 2*numcols+numrows : 0)<<std::endl;
     for(int i = 0 ; i < numcols ; i++)
       fStartPoint<<primals[i]<<std::endl;
     int end = 2*numcols + numrows;
diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index d070ee5..d2ed5ba 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -193,6 +193,7 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
   if(hasVarNames)
     fMod.open(fModName.c_str());
   fBounds.open(fBoundsName.c_str());
+  fBounds.precision(17);
     
   for(int i = 0 ; i < numcols ; i++)
     {    
@@ -218,7 +219,7 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
     }
   
     //write a file with starting point
-    std::string fStartPointName = name_;
+    std::string fStartPointName = prefix + name_;
     fStartPointName+="_start";
 
 
@@ -234,7 +235,7 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
 
     std::ofstream fStartPoint(fStartPointName.c_str());
     fStartPoint.precision(17);
-    fStartPoint<<numcols<<"\t"<<2*numcols+numrows<<std::endl;
+    fStartPoint<<numcols<<"\t"<<(duals ? 2*numcols+numrows : 0)<<std::endl;
     for(int i = 0 ; i < numcols ; i++)
     fStartPoint<<primals[i]<<std::endl;
     int end = 2*numcols + numrows;
-- 
2.43.0


From b60b94f99d740306386df01a1741996780badc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:41 +0000
Subject: [PATCH 25/38] fix: copies of sos and branching information, reset of
 perturbation radii

---
 src/Interfaces/BonTMINLP.cpp | 12 +++++++-----
 src/Interfaces/BonTMINLP.hpp |  1 -
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index fc96bc4..3e941d6 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -47,13 +47,14 @@ TMINLP::SosInfo::SosInfo(const SosInfo & source):
     indices = new int[numNz];
     weights = new double[numNz];
     for(int i = 0 ; i < num ; i++) {
-      source.types[i] = types[i];
-      source.priorities[i] = priorities[i];
-      source.starts[i] = starts[i];
+      types[i] = source.types[i];
+      priorities[i] = source.priorities[i];
+      starts[i] = source.starts[i];
     }
+    starts[num] = source.starts[num];
     for(int i = 0 ; i < numNz ; i++) {
-      source.indices[i] = indices[i];
-      source.weights[i] = weights[i];
+      indices[i] = source.indices[i];
+      weights[i] = source.weights[i];
     }
   }
   else {
@@ -88,6 +89,7 @@ TMINLP::SosInfo::gutsOfDestructor()
 
 void TMINLP::PerturbInfo::SetPerturbationArray(Ipopt::Index numvars, const double* perturb_radius) {
   delete [] perturb_radius_;
+  perturb_radius_ = NULL;
   if (perturb_radius) {
     perturb_radius_ = new double[numvars];
     for(int i=0; i<numvars; i++) {
diff --git a/src/Interfaces/BonTMINLP.hpp b/src/Interfaces/BonTMINLP.hpp
index c2b87bf..95f1132 100644
--- a/src/Interfaces/BonTMINLP.hpp
+++ b/src/Interfaces/BonTMINLP.hpp
@@ -143,7 +143,6 @@ namespace Bonmin
       {}
       BranchingInfo(const BranchingInfo &other)
       {
-        gutsOfDestructor();
         size = other.size;
         priorities = CoinCopyOfArray(other.priorities, size);
         branchingDirections = CoinCopyOfArray(other.branchingDirections, size);
-- 
2.43.0


From 66d0837ff8dbebeb965c8bdac837d28538655d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:51 +0000
Subject: [PATCH 26/38] fix: solution and iteration limits of 0 stopped the
 search at once

---
 src/Algorithms/BonBabSetupBase.cpp                 | 3 +++
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 1 +
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 1 +
 src/Algorithms/OaGenerators/BonOaDecBase.cpp       | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 391480e..002b9db 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -360,6 +360,9 @@ namespace Bonmin
     options->GetIntegerValue("node_limit",intParam_[MaxNodes],prefix_.c_str());
     options->GetIntegerValue("solution_limit",intParam_[MaxSolutions],prefix_.c_str());
     options->GetIntegerValue("iteration_limit",intParam_[MaxIterations],prefix_.c_str());
+    // a limit of 0 means no limit
+    if (intParam_[MaxSolutions] == 0) intParam_[MaxSolutions] = COIN_INT_MAX;
+    if (intParam_[MaxIterations] == 0) intParam_[MaxIterations] = COIN_INT_MAX;
     options->GetEnumValue("sos_constraints",intParam_[DisableSos],prefix_.c_str());
     options->GetIntegerValue("num_cut_passes",intParam_[NumCutPasses],prefix_.c_str());
     options->GetIntegerValue("num_cut_passes_at_root",intParam_[NumCutPassesAtRoot],prefix_.c_str());
diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index d0e1dce..526d3e6 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -38,6 +38,7 @@ namespace Bonmin
     b.options()->GetNumericValue("time_limit",oaTime,prefix);
     parameter().maxLocalSearch_ = INT_MAX;
     b.options()->GetIntegerValue("solution_limit", parameter().maxSols_,prefix);
+    if(parameter().maxSols_ == 0) parameter().maxSols_ = INT_MAX; // 0 means no limit
     parameter().maxLocalSearchTime_ =
     std::min(b.getDoubleParameter(BabSetupBase::MaxTime), oaTime);
     if(parameter().maxSols_ > b.getIntParameter(BabSetupBase::MaxSolutions))
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 6d550af..825ba84 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -39,6 +39,7 @@ namespace Bonmin
     b.options()->GetNumericValue("time_limit",oaTime,prefix);
     parameter().maxLocalSearch_ = INT_MAX;
     b.options()->GetIntegerValue("solution_limit", parameter().maxSols_,prefix);
+    if(parameter().maxSols_ == 0) parameter().maxSols_ = INT_MAX; // 0 means no limit
     parameter().maxLocalSearchTime_ =
     std::min(b.getDoubleParameter(BabSetupBase::MaxTime), oaTime);
     if(parameter().maxSols_ > b.getIntParameter(BabSetupBase::MaxSolutions))
diff --git a/src/Algorithms/OaGenerators/BonOaDecBase.cpp b/src/Algorithms/OaGenerators/BonOaDecBase.cpp
index fec4831..8d40b82 100644
--- a/src/Algorithms/OaGenerators/BonOaDecBase.cpp
+++ b/src/Algorithms/OaGenerators/BonOaDecBase.cpp
@@ -53,6 +53,7 @@ namespace Bonmin {
     b.options()->GetNumericValue("allowable_fraction_gap", parameters_.gap_tol_, b.prefix());
     handler_ -> setLogLevel(logLevel);
     b.options()->GetIntegerValue("solution_limit", parameters_.maxSols_,b.prefix());
+    if(parameters_.maxSols_ == 0) parameters_.maxSols_ = INT_MAX; // 0 means no limit
 
     messages_ = OaMessages();
     timeBegin_ = CoinCpuTime();
-- 
2.43.0


From 6586f4b33479b7049d61561f10cc3639529412b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:03 +0000
Subject: [PATCH 27/38] fix: writing a suspect problem crashed when no starting
 point was set

---
 src/Interfaces/BonTMINLP2TNLP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index 53c7540..184bfc8 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -610,7 +610,8 @@ namespace Bonmin
     fStartPointName+=".start";
 
     std::ofstream fStartPoint(fStartPointName.c_str());
-    const double * primals = x_init();
+    // as in get_starting_point: the user's point when none has been set
+    const double * primals = x_init_.empty() ? x_init_user() : x_init();
     const double * duals = duals_init();
     fStartPoint.precision(17);
     fStartPoint<<numcols<<"\t"<<(duals ? 2*numcols+numrows : 0)<<std::endl;
-- 
2.43.0


From d5be87c00957239cd1a8e5a2ef2534de9045dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:55 +0000
Subject: [PATCH 28/38] fix: a worse solution replaced one not yet picked up,
 feasibility check looped on an LP above the cutoff

---
 src/Algorithms/OaGenerators/BonOaDecBase.cpp     | 4 +++-
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonOaDecBase.cpp b/src/Algorithms/OaGenerators/BonOaDecBase.cpp
index 8d40b82..6f7b444 100644
--- a/src/Algorithms/OaGenerators/BonOaDecBase.cpp
+++ b/src/Algorithms/OaGenerators/BonOaDecBase.cpp
@@ -378,7 +378,9 @@ OaDecompositionBase::post_nlp_solve(BabInfo * babInfo, double cutoff) const{
       return_value = true;
       // Also pass it to solver
       assert(babInfo);
-      if (babInfo) {
+      // a better solution may not have been picked up yet
+      if (babInfo && !(babInfo->hasSolution() &&
+                       babInfo->bestObjectiveValue() <= nlp_->getObjValue())) {
         int numcols = nlp_->getNumCols();
         double * lpSolution = new double[numcols + 1];
         CoinCopyN(nlp_->getColSolution(), numcols, lpSolution);
diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index b1db8b3..409831f 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -98,8 +98,10 @@ namespace Bonmin
       //if value of integers are unchanged then we have to get out
       bool changed = true;//if lp is infeasible we don't have to check anything
       isInteger = 0;
-      //	  if(!fixed)//fathom on bounds
-      //           milpBound = 1e200;
+      //fathom on bounds: no point of the lp is better than the cutoff
+      if (lp->isProvenPrimalInfeasible() || lp->isDualObjectiveLimitReached() ||
+          (lp->isProvenOptimal() && objvalue >= cutoff))
+        milpBound = 1e200;
       if (feasible) {
         // A fractional point of the lp is a new one however close it is
         branch_info.solution_ = lp->getColSolution();
-- 
2.43.0


From f1007c41cadd9a48022f71fbcc3ce952c234ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:35 +0000
Subject: [PATCH 29/38] fix: linear rows of the relaxation were relaxed on one
 side only

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index faf6981..5f53140 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2034,7 +2034,7 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
     if(global) {
       newCut.setGloballyValidAsInteger(1);
     }
-    if(lb[cutIdx] > infty) lb[cutIdx] -= rhsRelax_*std::max(fabs(lb[cutIdx]), 1.);
+    if(lb[cutIdx] > -infty) lb[cutIdx] -= rhsRelax_*std::max(fabs(lb[cutIdx]), 1.);
     if(ub[cutIdx] < infty) ub[cutIdx] += rhsRelax_*std::max(fabs(ub[cutIdx]), 1.);
     newCut.setLb(lb[cutIdx]);
     newCut.setUb(ub[cutIdx]);
@@ -2504,6 +2504,13 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   }
 
 
+  //Relax rhs's of outer approximations by tiny_ (linear constraints are exact)
+  for(int i = 0 ; i < m ; i++){
+     if(constTypes_[i] == TNLP::LINEAR) continue;
+     if(rowLow[i] > -infty) rowLow[i] -= rhsRelax_*std::max(fabs(rowLow[i]), 1.);
+     if(rowUp[i] < infty) rowUp[i] += rhsRelax_*std::max(fabs(rowUp[i]), 1.);
+  }
+
   CoinPackedMatrix mat(true, jRow_, jCol_, jValues_, nnz_jac_g);
   mat.setDimensions(m,n); // In case matrix was empty, this should be enough
   
@@ -2532,12 +2539,6 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   }
   
 
-  //Relax rhs's by tiny_
-  for(size_t i = 0 ; i < rowLow.size() ; i++){
-     if(rowLow[i] > infty) rowLow[i] -= rhsRelax_*std::max(fabs(rowLow[i]), 1.);
-     if(rowUp[i] < infty) rowUp[i] += rhsRelax_*std::max(fabs(rowUp[i]), 1.);
-  }
-
   si.loadProblem(mat, colLower(), colUpper(), obj(), rowLow(), rowUp());
   for(int i = 0 ; i < numcols ; i++) {
     if(isInteger(i))
-- 
2.43.0


From 7a11e1c15a167f19d89f0eba1286aa6da109d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:39 +0000
Subject: [PATCH 30/38] fix: a damaged bounds file stopped the reader on an
 assertion

---
 src/Interfaces/BonBoundsReader.cpp | 50 +++++++++++-------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/Interfaces/BonBoundsReader.cpp b/src/Interfaces/BonBoundsReader.cpp
index d09de5a..665d6bf 100644
--- a/src/Interfaces/BonBoundsReader.cpp
+++ b/src/Interfaces/BonBoundsReader.cpp
@@ -18,30 +18,14 @@ BoundsReader::~BoundsReader()
 }
 void BoundsReader::gutsOfDestructor()
 {
-  if(nLower_ > 0) {
-    assert(lowerBounds_!= NULL);
-    delete [] lowerBounds_;
-    lowerBounds_ = NULL;
-    assert(indexLowers_ != NULL);
-    delete [] indexLowers_;
-    indexLowers_ = NULL;
-  }
-  else {
-    assert(lowerBounds_ == NULL);
-    assert(indexLowers_ == NULL);
-  }
-  if(nUpper_ > 0) {
-    assert(upperBounds_!= NULL);
-    delete [] upperBounds_;
-    upperBounds_ = NULL;
-    assert(indexUppers_ != NULL);
-    delete [] indexUppers_;
-    indexUppers_ = NULL;
-  }
-  else {
-    assert(upperBounds_ == NULL);
-    assert(indexUppers_ == NULL);
-  }
+  delete [] lowerBounds_;
+  lowerBounds_ = NULL;
+  delete [] indexLowers_;
+  indexLowers_ = NULL;
+  delete [] upperBounds_;
+  upperBounds_ = NULL;
+  delete [] indexUppers_;
+  indexUppers_ = NULL;
   nLower_=0;
   nUpper_=0;
 }
@@ -59,26 +43,28 @@ void BoundsReader::read()
   std::string lo="LO";
   std::string up="UP";
   std::string in;
+  int numLower = 0;
+  int numUpper = 0;
   {
     std::ifstream fin(fileName_.c_str());
     //std::streampos begin = fin.tellg();
     while(fin>>in) {
       if(in==lo)
-        nLower_++;
+        numLower++;
       else if(in==up)
-        nUpper_++;
+        numUpper++;
       else
         throw CoinError("Unknown type of bound in " + fileName_, "read", "BoundsReader");
       fin.ignore(10000,'\n');
     }
   }
-  if(nLower_ > 0) {
-    lowerBounds_ = new double[nLower_];
-    indexLowers_ = new int[nLower_];
+  if(numLower > 0) {
+    lowerBounds_ = new double[numLower];
+    indexLowers_ = new int[numLower];
   }
-  if(nUpper_ > 0) {
-    upperBounds_ = new double[nUpper_];
-    indexUppers_ = new int[nUpper_];
+  if(numUpper > 0) {
+    upperBounds_ = new double[numUpper];
+    indexUppers_ = new int[numUpper];
   }
   //fin.seekg(0);
   // fin.seekg( 0, std::ios::beg);
-- 
2.43.0


From e4f0019d68bfedfe7e5bac7f07a6fecc5bea1c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:30 +0000
Subject: [PATCH 31/38] fix: size and top of the diving trees, probed diving
 lost a parent with several branches left

---
 src/CbcBonmin/BonDiver.cpp | 8 ++++----
 src/CbcBonmin/BonDiver.hpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 697b974..6a872f8 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -278,6 +278,10 @@ namespace Bonmin
         printf("Putting second kid %i. objective value %g\n", x, x->objectiveValue());
 #endif
       // If we get here we have two nodes follow on the best one and put the other on the tree
+      if(nextOnBranch_ != NULL){// The parent has still more than one branch left
+        CbcTree::push(nextOnBranch_);
+        nextOnBranch_ = NULL;
+      }
       if(comparison_.compareNodes(x,candidateChild_)){// Follow on candidateChild_
 #ifdef DIVE_DEBUG
         printf("first child %i is found better.\n", x);
@@ -515,10 +519,6 @@ namespace Bonmin
 #ifdef DIVE_DEBUG
     std::cout<<"CbcDfsDiver::top"<<std::endl;
 #endif
-    if (mode_ != CbcDfsDiver::FindSolutions) {
-      assert(dive_.empty());
-      CbcTree::top();
-    }
     if (diveListSize_) {
       return dive_.front();
     }
diff --git a/src/CbcBonmin/BonDiver.hpp b/src/CbcBonmin/BonDiver.hpp
index 2e06559..a16007a 100644
--- a/src/CbcBonmin/BonDiver.hpp
+++ b/src/CbcBonmin/BonDiver.hpp
@@ -59,7 +59,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return (static_cast<int>(nodes_.size()) + (nextOnBranch_ != NULL) );
     }
@@ -141,7 +141,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return (static_cast<int>(nodes_.size()) + (nextOnBranch_ != NULL) + (candidateChild_ != NULL) );
     }
@@ -237,7 +237,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return static_cast<int>(nodes_.size()) + diveListSize_;
     }
-- 
2.43.0


From a4400acb96ca5dd1d5c31d0acd511ace13ee9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:48 +0000
Subject: [PATCH 32/38] fix: copies of a setup lost heuristics, shared objects
 and kept a dead solver

---
 src/Algorithms/BonBabSetupBase.cpp | 19 +++++++++++--------
 src/CbcBonmin/BonCbc.cpp           |  4 ++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 002b9db..310843f 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -96,18 +96,21 @@ namespace Bonmin
       nonlinearSolver_ = static_cast<OsiTMINLPInterface *>(other.nonlinearSolver_->clone());
     }
     if (other.continuousSolver_) {
-      continuousSolver_ = other.continuousSolver_->clone();
+      if (other.continuousSolver_ == other.nonlinearSolver_)
+        continuousSolver_ = nonlinearSolver_;
+      else
+        continuousSolver_ = other.continuousSolver_->clone();
     }
     if (other.messageHandler_) {
       messageHandler_ = other.messageHandler_->clone();
-      continuousSolver_->passInMessageHandler(messageHandler_);
+      if (continuousSolver_) continuousSolver_->passInMessageHandler(messageHandler_);
     }
     for (CuttingMethods::const_iterator i = other.cutGenerators_.begin() ; i != other.cutGenerators_.end() ; i++) {
       cutGenerators_.push_back(*i);
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
@@ -121,7 +124,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
@@ -152,14 +155,14 @@ namespace Bonmin
       continuousSolver_ = nonlinearSolver_;
     if (other.messageHandler_) {
       messageHandler_ = other.messageHandler_->clone();
-      continuousSolver_->passInMessageHandler(messageHandler_);
+      if (continuousSolver_) continuousSolver_->passInMessageHandler(messageHandler_);
     }
     for (CuttingMethods::const_iterator i = other.cutGenerators_.begin() ; i != other.cutGenerators_.end() ; i++) {
       cutGenerators_.push_back(*i);
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
@@ -173,7 +176,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
   /** Copy constructor with change of nlp. */
@@ -209,7 +212,7 @@ namespace Bonmin
     CoinCopyN(defaultDoubleParam_, NumberDoubleParam, doubleParam_);
     gatherParametersValues(options_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..6130f59 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -300,6 +300,10 @@ namespace Bonmin
     if (strong2)
       strong2->setCbcModel(&model_);
     branch.setChooseMethod(*s.branchingMethod());
+    // the setup outlives model_, do not leave it with pointers into it
+    s.branchingMethod()->setSolver(s.continuousSolver());
+    if (strong2)
+      strong2->setCbcModel(NULL);
 
     model_.setBranchingMethod(&branch);
 	// prevent duplicating object when copying in CbcModel.cpp
-- 
2.43.0


From 96131890588b32cf5e3fe09a042f8e0723a02f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:21 +0000
Subject: [PATCH 33/38] fix: an interruption could report a false proof, a
 point of another problem or never end, and outlived the search

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp |  7 ++--
 .../OaGenerators/BonOACutGenerator2.cpp       |  7 ++++
 .../OaGenerators/BonOaFeasChecker.cpp         |  7 ++++
 src/CbcBonmin/BonCbc.cpp                      | 32 +++++++++++++++++--
 src/Interfaces/BonOsiTMINLPInterface.cpp      |  7 ++--
 5 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 526d3e6..b1342fc 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -22,6 +22,9 @@
 
 #include <climits>
 
+// set when the user interrupts the search
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "FP for MINLP";
@@ -200,8 +203,8 @@ namespace Bonmin
       installCuts(*lp, cs, numberCuts);
       numberCutsBefore = cs.sizeRowCuts();
      
-      //check time
-      if (CoinCpuTime() - timeBegin_ > parameters_.maxLocalSearchTime_){
+      //check time and interruption by the user
+      if (BonminAbortAll || CoinCpuTime() - timeBegin_ > parameters_.maxLocalSearchTime_){
         colsol = NULL;
         break;
       }
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 825ba84..17d9702 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -22,6 +22,9 @@
 
 #include <climits>
 
+// set when the user interrupts the search
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "OA decomposition";
@@ -143,6 +146,10 @@ namespace Bonmin
       fixIntegers(*nlp_,branch_info, parameters_.cbcIntegerTolerance_,objects_, nObjects_);
 
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) {
+        milpBound = 1e200;
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 409831f..8ed1623 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -13,6 +13,9 @@
 #include "OsiAuxInfo.hpp"
 #include "BonSolverHelp.hpp"
 
+// set when the user interrupts the search
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "check integer sol.";
@@ -62,6 +65,10 @@ namespace Bonmin
 
       //Now solve the NLP get the cuts, and intall them in the local LP
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) {
+        milpBound = 1e200;
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 6130f59..c7aa61d 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -63,6 +63,29 @@ extern "C"
 }
 #endif
 
+/** Makes a model the one which is stopped by an interruption for as long as it is
+    solved. The searches of heuristics are nested in another one: an interruption is
+    forgotten when the outermost search ends, so that the next problem can be solved.*/
+class InterruptedModel
+{
+public:
+  InterruptedModel(CbcModel * model):
+    enclosing_(currentBranchModel)
+  {
+    currentBranchModel = model;
+  }
+  ~InterruptedModel()
+  {
+    currentBranchModel = enclosing_;
+    if (enclosing_ == NULL) {
+      BonminAbortAll = false;
+      BonminInteruptedOnce = false;
+    }
+  }
+private:
+  CbcModel * enclosing_;
+};
+
 namespace Bonmin
 {
 
@@ -442,7 +465,7 @@ namespace Bonmin
     /*saveSignal =*/ signal(SIGINT,signal_handler);
 #endif
 
-    currentBranchModel = &model_;
+    InterruptedModel interruptedModel(&model_);
 
 
     try {
@@ -596,7 +619,6 @@ namespace Bonmin
     }
     TMINLP::SolverReturn status = TMINLP::MINLP_ERROR;
 
-    if(BonminAbortAll) status = TMINLP::USER_INTERRUPT;
     if (model_.numberObjects()==0) {
       if (bestSolution_)
         delete [] bestSolution_;
@@ -687,6 +709,12 @@ namespace Bonmin
       status = TMINLP::MINLP_ERROR;
     }
   }
+  if (BonminAbortAll) {
+    // subproblems which were abandoned count as infeasible for Cbc, nothing is proved.
+    status = TMINLP::USER_INTERRUPT;
+    mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
+    bestBound_ = std::min(bestBound_, continuousRelaxation_);
+  }
   s.nonlinearSolver()->model()->finalize_solution(status,
      s.nonlinearSolver()->getNumCols(),
      bestSolution_,
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 5f53140..3ff1222 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2639,7 +2639,6 @@ void
 OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
-  if (BonminAbortAll == true) return;
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
     optimizationStatus_ = app_->ReOptimizeTNLP(GetRawPtr(problem_to_optimize_));
@@ -2812,7 +2811,6 @@ void OsiTMINLPInterface::initialSolve(const char * whereFrom)
   assert(IsValid(app_));
   assert(IsValid(problem_));
 
-  if (BonminAbortAll == true) return;
   // Discard warmstart_ if we had one
   delete warmstart_;
   warmstart_ = NULL;
@@ -2878,7 +2876,6 @@ OsiTMINLPInterface::resolve(const char * whereFrom)
 {
   assert(IsValid(app_));
   assert(IsValid(problem_));
-  if (BonminAbortAll == true) return;
   int has_warmstart = warmstart_ == NULL ? 0 : 1;
   if(warmstart_ == NULL) has_warmstart = 0;
   else if(!app_->warmStartIsValid(warmstart_)) has_warmstart = 1;
@@ -2912,6 +2909,10 @@ OsiTMINLPInterface::resolve(const char * whereFrom)
                                                 <<whereFrom
                                                 <<"totot"
                                                 <<CoinMessageEol;
+
+  if(BonminAbortAll){
+    return;
+  }
   
   if(isAbandoned() ||
     ( (getObjValue() < 1e-06) && isProvenPrimalInfeasible())) {
-- 
2.43.0


From 42f9c0a27cf856aec8c8639eb5dc791be45495dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:23 +0000
Subject: [PATCH 34/38] fix: evaluation errors and NaN were ignored when all
 variables are fixed

---
 src/Interfaces/BonTNLPSolver.cpp        | 20 ++++++++++++++++++--
 src/Interfaces/Ipopt/BonIpoptSolver.cpp |  4 ++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index d2ed5ba..11ca54f 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -12,6 +12,7 @@
 
 //Ipopt includes
 #include "IpBlas.hpp"
+#include "IpUtils.hpp"
 
 //Standard includes
 #include <fstream>
@@ -107,7 +108,7 @@ namespace Bonmin{
     // feasible or not.
     double obj_value;
 
-    tnlp->eval_f(n, x_l, true, obj_value);
+    bool evaluated = tnlp->eval_f(n, x_l, true, obj_value) && Ipopt::IsFiniteNumber(obj_value);
 
     double * x_sol = new double[n];
 
@@ -119,7 +120,22 @@ namespace Bonmin{
 
     double * g_sol = (m > 0) ? new double [m] : NULL;
 
-    tnlp->eval_g(n, x_sol, true, m, g_sol);
+    evaluated = tnlp->eval_g(n, x_sol, true, m, g_sol) && evaluated;
+    for(int i = 0 ; i < m && evaluated ; i++) {
+      evaluated = Ipopt::IsFiniteNumber(g_sol[i]);
+    }
+    if(!evaluated) {
+      // The point is not in the domain of the functions
+      optimizationStatus = computationError;
+      tnlp->finalize_solution(Ipopt::INVALID_NUMBER_DETECTED,
+                              n, x_sol, NULL, NULL,
+                              m, g_sol, NULL, obj_value, NULL, NULL);
+      delete [] g_l;
+      delete [] g_u;
+      delete [] g_sol;
+      delete [] x_sol;
+      return 1;
+    }
     
     optimizationStatus = solvedOptimal;
     for(int i = 0 ; i < m ; i++) {
diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.cpp b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
index 235e6b3..e790a39 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
@@ -167,6 +167,8 @@ namespace Bonmin
         optimizationStatus_ = Ipopt::Solve_Succeeded;
       else if (ret_status == provenInfeasible)
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+      else
+        optimizationStatus_ = Ipopt::Invalid_Number_Detected;
     }
 
     if (BonminAbortAll)
@@ -213,6 +215,8 @@ namespace Bonmin
         optimizationStatus_ = Ipopt::Solve_Succeeded;
       else if (ret_status == provenInfeasible)
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+      else
+        optimizationStatus_ = Ipopt::Invalid_Number_Detected;
     }
     if (BonminAbortAll)
       optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
-- 
2.43.0


From 54b23c731cc25424e16d25c347d6f321b318bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:13 +0000
Subject: [PATCH 35/38] fix: variables with contradictory bounds make a
 subproblem infeasible, not unsolved

Branching on a special ordered set can set an upper bound of 0 on a
member whose lower bound another branching has raised. Ipopt refuses such
a problem and the whole search ended in an UnsolvedError.
---
 src/Interfaces/BonTNLPSolver.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index 11ca54f..1b3141d 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -91,7 +91,13 @@ namespace Bonmin{
     tnlp->get_bounds_info(n, x_l, x_u, m, g_l , g_u);
     
 
+    // Branching (on sets in particular) may leave a variable with contradictory bounds
+    bool infeasible = false;
     for(int i = 0 ; i < n ; i++) {
+      if(x_l[i] - x_u[i] > 1e-7) infeasible = true;
+    }
+
+    for(int i = 0 ; i < n && !infeasible ; i++) {
       if(x_u[i] - x_l[i] > 1e-5)
 	{
 	  delete [] x_l;
@@ -106,7 +112,7 @@ namespace Bonmin{
 
     //Problem has no variables just check if the unique solution given by the bounds is
     // feasible or not.
-    double obj_value;
+    double obj_value = 0.;
 
     bool evaluated = tnlp->eval_f(n, x_l, true, obj_value) && Ipopt::IsFiniteNumber(obj_value);
 
@@ -124,7 +130,7 @@ namespace Bonmin{
     for(int i = 0 ; i < m && evaluated ; i++) {
       evaluated = Ipopt::IsFiniteNumber(g_sol[i]);
     }
-    if(!evaluated) {
+    if(!evaluated && !infeasible) {
       // The point is not in the domain of the functions
       optimizationStatus = computationError;
       tnlp->finalize_solution(Ipopt::INVALID_NUMBER_DETECTED,
@@ -138,8 +144,10 @@ namespace Bonmin{
     }
     
     optimizationStatus = solvedOptimal;
-    for(int i = 0 ; i < m ; i++) {
-      if(g_sol[i] - g_l[i] <  - 1e-07 || g_sol[i] - g_u[i] > 1e-07) {
+    for(int i = 0 ; i < m && !infeasible ; i++) {
+      infeasible = g_sol[i] - g_l[i] <  - 1e-07 || g_sol[i] - g_u[i] > 1e-07;
+    }
+    if(infeasible) {
         optimizationStatus = provenInfeasible;
 	
 	delete [] g_l;
@@ -157,7 +165,6 @@ namespace Bonmin{
 	delete [] x_sol;
 
         return 1;
-      }
     }
     if (m > 0) delete [] g_l;
     if (m > 0) delete [] g_u;
-- 
2.43.0


From 18b3cc669b868ebdb448922ab16c39aae1611247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:09 +0000
Subject: [PATCH 36/38] fix: choose a branching variable also when strong
 branching yields NaN

With functions that are not defined everywhere the estimates of all
candidates can be NaN; no variable was chosen and Cbc crashed.
---
 src/Algorithms/Branching/BonChooseVariable.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index c5834cf..426cd51 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -1152,6 +1152,11 @@ BonChooseVariable::updateInformation( int index, int branch,
       status = 2;
       statuses_[iBranch] = status;
     }
+    if(!(changes_[iBranch] >= 0.)) { // NaN: nothing is known, but a variable has to be chosen
+      changes_[iBranch] = 0.;
+      status = 2;
+      statuses_[iBranch] = status;
+    }
 #endif
     return status;
   }
-- 
2.43.0


From eb64b8a3519835081c119f7cd64cec4f7b9883af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:49 +0000
Subject: [PATCH 37/38] fix: treat bounds beyond
 nlp_lower_bound_inf/nlp_upper_bound_inf as infinite when choosing the side of
 outer approximation cuts

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 3ff1222..e8908ae 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1958,7 +1958,7 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
         ub[numCuts] = rowUpper[rowIdx] - g[rowIdx];
       else
         ub[numCuts] = infty;
-      if(rowLower[rowIdx] > -infty && rowUpper[rowIdx] < infty)
+      if(rowLower[rowIdx] > -infty_ && rowUpper[rowIdx] < infty_)
       {
         if(duals[rowIdx] >= 0)// <= inequality
           lb[numCuts] = - infty;
@@ -2237,7 +2237,7 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
     ub = rowUpper - g;
   else
     ub = infty;
-  if(rowLower > -infty && rowUpper < infty)
+  if(rowLower > -infty_ && rowUpper < infty_)
   {
     if(dual >= 0)// <= inequality
       lb = - infty;
-- 
2.43.0


From 7787cfde7f3e81a968fdd9887502143df155ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:42 +0000
Subject: [PATCH 38/38] fix: evaluating the upper bounding objective changed
 branching objects in use by strong branching

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e8908ae..71444bf 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2732,7 +2732,11 @@ OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
       OsiObject ** object = objects();
       for(int i = 0 ; i< nObjects ; i++){
         int dummy;
-        if(object[i]->infeasibility(this,dummy) > intTol)
+        // infeasibility() changes the object, which may be in use (strong branching): ask a copy.
+        OsiObject * copy = object[i]->clone();
+        const double infeas = copy->infeasibility(this,dummy);
+        delete copy;
+        if(infeas > intTol)
         {
           integerSol=false;
           break;
-- 
2.43.0

