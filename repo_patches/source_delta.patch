From b47aad91ae804d34e9164053e2ad49334029b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 01/40] fix: CglTreeProbingInfo::operator= copied two arrays
 twice and lost the first copies

---
 src/CglCommon/CglTreeInfo.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 9e6b3cd..305b8a3 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -200,8 +200,6 @@ CglTreeProbingInfo::operator=(const CglTreeProbingInfo &rhs)
         toZero_ = NULL;
         toOne_ = NULL;
       }
-      toZero_ = CoinCopyOfArray(rhs.toZero_, numberIntegers_ + 1);
-      toOne_ = CoinCopyOfArray(rhs.toOne_, numberIntegers_);
       integerVariable_ = CoinCopyOfArray(rhs.integerVariable_, numberIntegers_);
       backward_ = CoinCopyOfArray(rhs.backward_, numberVariables_);
     } else {
-- 
2.43.0


From f851d69a23960815a2b82ebad231c853379a5276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 02/40] fix: CglFlowCover::operator= leaked the bound and row
 type arrays it replaced

---
 src/CglFlowCover/CglFlowCover.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglFlowCover/CglFlowCover.cpp b/src/CglFlowCover/CglFlowCover.cpp
index 57ff1e3..74e7423 100644
--- a/src/CglFlowCover/CglFlowCover.cpp
+++ b/src/CglFlowCover/CglFlowCover.cpp
@@ -432,6 +432,9 @@ CglFlowCover::operator=(const CglFlowCover& rhs)
     //    numFlowCuts_ = rhs.numFlowCuts_;
     setNumFlowCuts(rhs.numFlowCuts_);
     doneInitPre_ = rhs.doneInitPre_;
+    delete [] vubs_; vubs_ = 0;
+    delete [] vlbs_; vlbs_ = 0;
+    delete [] rowTypes_; rowTypes_ = 0;
     if (numCols_ > 0) {
       vubs_ = new CglFlowVUB [numCols_];
       vlbs_ = new CglFlowVLB [numCols_];
-- 
2.43.0


From cfd844a95aadf9f4fb1d2ebd56e9bfd3021875df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 03/40] fix: CglProbing::operator= released the old cut vector
 with the new count

---
 src/CglProbing/CglProbing.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 5e9b1b2..aa1c0da 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10511,6 +10511,13 @@ CglProbing::operator=(
     delete[] cliqueRow_;
     delete[] cliqueRowStart_;
     delete[] tightenBounds_;
+    // release what belongs to the old snapshot before the counts change
+    if (cutVector_) {
+      for (int i = 0; i < number01Integers_; i++) {
+        delete[] cutVector_[i].index;
+      }
+      delete[] cutVector_;
+    }
     mode_ = rhs.mode_;
     rowCuts_ = rhs.rowCuts_;
     maxPass_ = rhs.maxPass_;
@@ -10544,10 +10551,6 @@ CglProbing::operator=(
       int i;
       numberIntegers_ = rhs.numberIntegers_;
       number01Integers_ = rhs.number01Integers_;
-      for (i = 0; i < number01Integers_; i++) {
-        delete[] cutVector_[i].index;
-      }
-      delete[] cutVector_;
       cutVector_ = new disaggregation[number01Integers_];
       CoinMemcpyN(rhs.cutVector_, number01Integers_, cutVector_);
       for (i = 0; i < number01Integers_; i++) {
-- 
2.43.0


From b50149368522ca2ba647a33d4f66f9eecf2004e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 04/40] fix: CglRedSplitParam::getMAXDYN returned the limit for
 large bounds

---
 src/CglRedSplit/CglRedSplitParam.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplitParam.hpp b/src/CglRedSplit/CglRedSplitParam.hpp
index 3cbb4bb..1bb073c 100644
--- a/src/CglRedSplit/CglRedSplitParam.hpp
+++ b/src/CglRedSplit/CglRedSplitParam.hpp
@@ -99,7 +99,7 @@ public:
   // coefficients in a cut. Default: 1e8.
   virtual void setMAXDYN(double value);
   /** Get the value of MAXDYN */
-  inline double getMAXDYN() const {return MAXDYN_LUB;}
+  inline double getMAXDYN() const {return MAXDYN;}
 
   // Set the maximum ratio between largest and smallest non zero 
   // coefficient in a cut involving structural variables with
-- 
2.43.0


From f15fe8d325c25efffa053edaafe09b20e40f2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 05/40] fix: getDoPreproc lost the value -1 by returning bool

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp   | 2 +-
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp   | 2 +-
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 2 +-
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp | 2 +-
 src/CglResidualCapacity/CglResidualCapacity.cpp           | 2 +-
 src/CglResidualCapacity/CglResidualCapacity.hpp           | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index 81535da..ec627cd 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -1727,7 +1727,7 @@ void CglMixedIntegerRounding::setDoPreproc(int value)
   }  
 }
 
-bool CglMixedIntegerRounding::getDoPreproc() const
+int CglMixedIntegerRounding::getDoPreproc() const
 {
   return (doPreproc_!=0);
 }
diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp
index 0010b3e..6c540c1 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp
@@ -204,7 +204,7 @@ public:
   /// Set doPreproc
   void setDoPreproc(int value);
   /// Get doPreproc
-  bool getDoPreproc() const;
+  int getDoPreproc() const;
 
   //@}
 
diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index 16561b9..c89bd64 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -1972,7 +1972,7 @@ void CglMixedIntegerRounding2::setDoPreproc(int value)
   }  
 }
 
-bool CglMixedIntegerRounding2::getDoPreproc() const
+int CglMixedIntegerRounding2::getDoPreproc() const
 {
   return (doPreproc_!=0);
 }
diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp
index 1e8e475..1615ddf 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp
@@ -204,7 +204,7 @@ public:
   /// Set doPreproc
   void setDoPreproc(int value);
   /// Get doPreproc
-  bool getDoPreproc() const;
+  int getDoPreproc() const;
   //@}
 
 private:
diff --git a/src/CglResidualCapacity/CglResidualCapacity.cpp b/src/CglResidualCapacity/CglResidualCapacity.cpp
index 2c22c19..d446067 100644
--- a/src/CglResidualCapacity/CglResidualCapacity.cpp
+++ b/src/CglResidualCapacity/CglResidualCapacity.cpp
@@ -683,7 +683,7 @@ void CglResidualCapacity::setDoPreproc(int value)
     else
 	doPreproc_ = value;  
 }
-bool CglResidualCapacity::getDoPreproc() const
+int CglResidualCapacity::getDoPreproc() const
 {
     return (doPreproc_ != 0);
 }
diff --git a/src/CglResidualCapacity/CglResidualCapacity.hpp b/src/CglResidualCapacity/CglResidualCapacity.hpp
index d87d10a..2589a42 100644
--- a/src/CglResidualCapacity/CglResidualCapacity.hpp
+++ b/src/CglResidualCapacity/CglResidualCapacity.hpp
@@ -85,7 +85,7 @@ public:
     /// Set doPreproc
     void setDoPreproc(int value);
     /// Get doPreproc
-    bool getDoPreproc() const;
+    int getDoPreproc() const;
     //@}
 
     /**@name Generate Cuts */
-- 
2.43.0


From e3c48e05684052ca29308fdfedaf9636c1e1d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 06/40] fix: CglRedSplit2Param left the column scaling strategy
 uninitialised without default strategies

---
 src/CglRedSplit2/CglRedSplit2Param.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglRedSplit2/CglRedSplit2Param.cpp b/src/CglRedSplit2/CglRedSplit2Param.cpp
index 82cedad..d2762da 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.cpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.cpp
@@ -380,6 +380,7 @@ CglRedSplit2Param::CglRedSplit2Param(bool use_default_strategies,
   maxSumMultipliers_(maxSumMultipliers),
   normalization_(normalization),
   away_(away),
+  columnScalingStrategyLAP_(SC_NONE),
   columnScalingBoundLAP_(columnScalingBoundLAP),
   timeLimit_(timeLimit),
   maxNumCuts_(maxNumCuts),
@@ -432,6 +433,7 @@ CglRedSplit2Param::CglRedSplit2Param(const CglParam &source,
   maxSumMultipliers_(maxSumMultipliers),
   normalization_(normalization),
   away_(away),
+  columnScalingStrategyLAP_(SC_NONE),
   columnScalingBoundLAP_(columnScalingBoundLAP),
   timeLimit_(timeLimit),
   maxNumCuts_(maxNumCuts),
-- 
2.43.0


From b8eb326ceeece34ca066cbd213db24d22a06c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:49 +0000
Subject: [PATCH 07/40] fix: CglAllDifferent left the number of variables
 uninitialised without sets

---
 src/CglAllDifferent/CglAllDifferent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 6f4a8c7..c661566 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -436,6 +436,7 @@ CglAllDifferent::CglAllDifferent (int numberSets,
 :
 CglCutGenerator(),
 numberSets_(numberSets),
+numberDifferent_(0),
 maxLook_(2),
 logLevel_(0),
 start_(NULL),
-- 
2.43.0


From c294811923f42b5845a0651a1705836102ae3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:27 +0000
Subject: [PATCH 08/40] fix: getDoPreproc reported only whether the value is
 nonzero

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp   | 2 +-
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 2 +-
 src/CglResidualCapacity/CglResidualCapacity.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index ec627cd..928e238 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -1729,5 +1729,5 @@ void CglMixedIntegerRounding::setDoPreproc(int value)
 
 int CglMixedIntegerRounding::getDoPreproc() const
 {
-  return (doPreproc_!=0);
+  return doPreproc_;
 }
diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index c89bd64..5577ccf 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -1974,5 +1974,5 @@ void CglMixedIntegerRounding2::setDoPreproc(int value)
 
 int CglMixedIntegerRounding2::getDoPreproc() const
 {
-  return (doPreproc_!=0);
+  return doPreproc_;
 }
diff --git a/src/CglResidualCapacity/CglResidualCapacity.cpp b/src/CglResidualCapacity/CglResidualCapacity.cpp
index d446067..87725eb 100644
--- a/src/CglResidualCapacity/CglResidualCapacity.cpp
+++ b/src/CglResidualCapacity/CglResidualCapacity.cpp
@@ -685,5 +685,5 @@ void CglResidualCapacity::setDoPreproc(int value)
 }
 int CglResidualCapacity::getDoPreproc() const
 {
-    return (doPreproc_ != 0);
+  return doPreproc_;
 }
-- 
2.43.0


From 827b53ba044e1b2625c3fde95e7c2c0801489624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:27 +0000
Subject: [PATCH 09/40] fix: mixed integer rounding constructors accepted
 preproc 2 which they document and the setter treats as invalid

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp   | 2 +-
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index 928e238..c043ecf 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -179,7 +179,7 @@ CglMixedIntegerRounding::gutsOfConstruct (const int maxaggr,
     throw CoinError("Unallowable value. criterion must be 1, 2 or 3",
                       "gutsOfConstruct","CglMixedIntegerRounding");
   }
-  if ((preproc >= -1) && (preproc <= 2)) {
+  if ((preproc >= -1) && (preproc <= 1)) {
     doPreproc_ = preproc;
   }
   else {
diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index 5577ccf..876aa15 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -308,7 +308,7 @@ CglMixedIntegerRounding2::gutsOfConstruct (const int maxaggr,
     throw CoinError("Unallowable value. criterion must be 1, 2 or 3",
                       "gutsOfConstruct","CglMixedIntegerRounding2");
   }
-  if ((preproc >= -1) && (preproc <= 2)) {
+  if ((preproc >= -1) && (preproc <= 1)) {
     doPreproc_ = preproc;
   }
   else {
-- 
2.43.0


From 3f9b489ddf8b208f4a9b556fbf92df94fef5aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:27 +0000
Subject: [PATCH 10/40] fix: CglKnapsackCover::setTestedRowIndices left a
 released array behind when given no rows

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 873fcc2..9f1df13 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -801,8 +801,8 @@ void CglKnapsackCover::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
 void
 CglKnapsackCover::setTestedRowIndices(int num, const int* ind)
 {
-   if (rowsToCheck_)
-      delete[] rowsToCheck_;
+   delete[] rowsToCheck_;
+   rowsToCheck_ = NULL;
    numRowsToCheck_ = num;
    if (num > 0) {
       rowsToCheck_ = new int[num];
-- 
2.43.0


From 19d1d2cfb6016c3d1e297d4db922983909524acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:36 +0000
Subject: [PATCH 11/40] fix: CglStored::setProbingInfo lost the info that it
 owned before

---
 src/CglCommon/CglStored.cpp | 9 +++++++++
 src/CglCommon/CglStored.hpp | 5 +----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CglCommon/CglStored.cpp b/src/CglCommon/CglStored.cpp
index 432726a..02118f1 100644
--- a/src/CglCommon/CglStored.cpp
+++ b/src/CglCommon/CglStored.cpp
@@ -238,6 +238,15 @@ void CglStored::addCut(double lb, double ub, int size, const int *colIndices, co
   cuts_.rowCutPtr(numberCuts)->setEffectiveness(COIN_DBL_MAX);
 }
 
+// Takes over ownership of probing info
+void CglStored::setProbingInfo(CglTreeProbingInfo *info)
+{
+  if (info != probingInfo_) {
+    delete probingInfo_;
+    probingInfo_ = info;
+  }
+}
+
 //-------------------------------------------------------------------
 // Default Constructor
 //-------------------------------------------------------------------
diff --git a/src/CglCommon/CglStored.hpp b/src/CglCommon/CglStored.hpp
index 848af1f..cb58a06 100644
--- a/src/CglCommon/CglStored.hpp
+++ b/src/CglCommon/CglStored.hpp
@@ -44,10 +44,7 @@ public:
     return requiredViolation_;
   }
   /// Takes over ownership of probing info
-  inline void setProbingInfo(CglTreeProbingInfo *info)
-  {
-    probingInfo_ = info;
-  }
+  void setProbingInfo(CglTreeProbingInfo *info);
   //@}
 
   /**@name Cut stuff */
-- 
2.43.0


From 6b5f22c7de6a25fe5a948bde7451420d742c5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:57 +0000
Subject: [PATCH 12/40] fix: CglClique::generateCuts left the solver's
 tolerance behind as minimum violation when it gave up early

---
 src/CglClique/CglClique.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 4772d0c..3242850 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -123,6 +123,8 @@ CglClique::generateCuts(const OsiSolverInterface& si, OsiCuts & cs,
    if (sp_numrows > MAX_CGLCLIQUE_ROWS || sp_numcols < 2 || sp_numcols>MAX_CGLCLIQUE_COLS) {
      //printf("sp_numrows is %d\n",sp_numrows);
      deleteSetPackingSubMatrix();
+     if (! has_petol_set)
+       petol = -1;
      return; // too many rows or too few columns!
    }
 
-- 
2.43.0


From b0efdc2c2b089aba83d99249e95fc9248a2e41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:04 +0000
Subject: [PATCH 13/40] fix: CglDuplicateRow weighted rows with whatever the
 process-wide random sequence had reached, so its cuts depended on earlier
 calls

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index c74e8b0..2fe5969 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -159,6 +159,7 @@ void CglDuplicateRow::generateCuts12(const OsiSolverInterface & si, OsiCuts & cs
 	  random[i] = randomGenerator->randomDouble();
       }
     } else {
+      CoinSeedRandom(13579);
       for (i=0;i<numberRows;i++) {
 	if (rowLower[i]<-1.0e20||rowUpper[i]>1.0e20)
 	  random[i]=0.0;
-- 
2.43.0


From 673fa79faf7796a6df6deb563b5772970d648c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 14/40] fix: CglTreeProbingInfo::generateCuts leaks its marker
 array when it finds infeasibility

---
 src/CglCommon/CglTreeInfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 305b8a3..5b7542b 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1678,6 +1678,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
@@ -1712,6 +1713,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
-- 
2.43.0


From 484fa629b0352b8f3642103891a458660bf33904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 15/40] fix: CglFlowCover::generateOneFlowCut leaks two arrays
 when the cut has no elements

---
 src/CglFlowCover/CglFlowCover.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglFlowCover/CglFlowCover.cpp b/src/CglFlowCover/CglFlowCover.cpp
index 74e7423..0706b80 100644
--- a/src/CglFlowCover/CglFlowCover.cpp
+++ b/src/CglFlowCover/CglFlowCover.cpp
@@ -1222,6 +1222,8 @@ CglFlowCover::generateOneFlowCut( const OsiSolverInterface & si,
             delete[] rho;
         if (order)
             delete[] order;
+        delete[] ratio;
+        delete[] cutInd;
         return false;
     }
         
-- 
2.43.0


From 331c050e3faf91a80178e9b56f43fbef6c8a5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 16/40] fix: CglRedSplit2::generateCuts leaks the cut quality
 array

---
 src/CglRedSplit2/CglRedSplit2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglRedSplit2/CglRedSplit2.cpp b/src/CglRedSplit2/CglRedSplit2.cpp
index fb7d17e..2f1fa4e 100644
--- a/src/CglRedSplit2/CglRedSplit2.cpp
+++ b/src/CglRedSplit2/CglRedSplit2.cpp
@@ -2149,6 +2149,7 @@ int CglRedSplit2::generateCuts(OsiCuts* cs, int maxNumCuts, int* lambda)
       }
       delete[] bufflambda;
     }
+    delete[] quality;
     if (numCuts > maxNumCuts){
       numCuts = maxNumCuts;
     }
-- 
2.43.0


From b726efe160686df9d9c99dab99fa639f9bdec26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 17/40] fix: CglGMI::generateCuts leaks its work arrays when
 the factorization fails

---
 src/CglGMI/CglGMI.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CglGMI/CglGMI.cpp b/src/CglGMI/CglGMI.cpp
index 494cd24..ddabe78 100644
--- a/src/CglGMI/CglGMI.cpp
+++ b/src/CglGMI/CglGMI.cpp
@@ -1087,6 +1087,12 @@ void CglGMI::generateCuts(OsiCuts &cs)
   CoinFactorization factorization;
   if (factorize(factorization, colBasisIndex, rowBasisIndex)) {
     printf("### WARNING: CglGMI::generateCuts(): error during factorization!\n");
+    delete[] colBasisIndex;
+    delete[] rowBasisIndex;
+    delete[] listFracBasic;
+    delete[] cstat;
+    delete[] rstat;
+    delete[] isInteger;
     return;
   }
 #endif
-- 
2.43.0


From 9f5d740b5605b824caca5625faf4e7328c745f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 18/40] fix: CglProbing::tighten leaks its row activity array
 when called without a prepared one

---
 src/CglProbing/CglProbing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index aa1c0da..44cc0a0 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -708,6 +708,8 @@ int CglProbing::tighten(double *colLower, double *colUpper,
         break;
     }
     // if (ninfeas) printf("%d passes\n",jpass);
+    if (minR != minR_)
+      delete[] minR;
     return (ninfeas);
   }
 
-- 
2.43.0


From e65cea51958a0afeff4503c25d9b69aca6095943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 19/40] fix: CglLiftAndProject tests the column type of the
 wrong (possibly non-existent) column

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index fccfb35..c0e18a0 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -244,7 +244,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   const char * intVar = si.getColType();
 
   for (j=0;j<n;j++){
-    if (intVar[i]!=1) continue; // Better to ask coneSi? No! 
+    if (intVar[j]!=1) continue; // Better to ask coneSi? No! 
                                    // coneSi has no binInfo.
     equalObj1=eq(x[j],0);
     equalObj2=eq(x[j],1);
-- 
2.43.0


From 64b2f08cf2823d84b4cfecd64380a42a225e279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 20/40] fix: CglLiftAndProject::generateCuts leaks the cone
 problem, its warm starts and a work array

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index c0e18a0..31965ee 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -279,6 +279,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
       coneSi->initialSolve();
     }
     if(coneSi->isProvenOptimal()){
+      delete warmStart;
       warmStart = coneSi->getWarmStart();
       haveWarmStart=true;
       const double * wstar = coneSi->getColSolution();
@@ -310,6 +311,9 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
     // clean up memory
   }
   // clean up
+  delete warmStart;
+  delete coneSi;
+  delete [] Atildex;
   delete [] alpha;
   delete [] ustar;
   delete [] nVectorIndices;
-- 
2.43.0


From b66da1e895286bab8558b04312c13bb297edc3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:02 +0000
Subject: [PATCH 21/40] fix: CglOddHole leaks its row and clique lists when
 they are created a second time

---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index cb9b0f5..9ef796d 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -660,6 +660,7 @@ void CglOddHole::createRowList( const OsiSolverInterface & si,
   /// This version passes in a list - 1 marks possible
 void CglOddHole::createRowList(int numberRows, const int * whichRow)
 {
+  delete [] suitableRows_;
   suitableRows_=new int [numberRows];
   numberRows_=numberRows;
   memcpy(suitableRows_,whichRow,numberRows*sizeof(int));
@@ -670,6 +671,8 @@ void CglOddHole::createRowList(int numberRows, const int * whichRow)
 void CglOddHole::createCliqueList(int numberCliques, const int * cliqueStart,
 		     const int * cliqueMember)
 {
+  delete [] startClique_;
+  delete [] member_;
   numberCliques_=numberCliques;
   startClique_=new int[numberCliques_+1];
   memcpy(startClique_,cliqueStart,(numberCliques_+1)*sizeof(int));
-- 
2.43.0


From 89ef3a28cfe69628ff371287e4f1c698a37a0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 22/40] fix: CglClique::generateCpp drops the maximum number of
 nodes

---
 src/CglClique/CglClique.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 3242850..5ace78e 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -797,6 +797,10 @@ CglClique::generateCpp( FILE * fp)
     fprintf(fp,"3  clique.setMinViolation(%g);\n",petol);
   else
     fprintf(fp,"4  clique.setMinViolation(%g);\n",petol);
+  if (maxNumber_!=other.maxNumber_)
+    fprintf(fp,"3  clique.setMaxNumber(%d);\n",maxNumber_);
+  else
+    fprintf(fp,"4  clique.setMaxNumber(%d);\n",maxNumber_);
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  clique.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From 9d09129a5e08b179ca496f356e45d59e8e75fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 23/40] fix: CglGMI::generateCpp writes calls of member
 functions that do not exist

---
 src/CglGMI/CglGMI.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/CglGMI/CglGMI.cpp b/src/CglGMI/CglGMI.cpp
index ddabe78..ecc43ff 100644
--- a/src/CglGMI/CglGMI.cpp
+++ b/src/CglGMI/CglGMI.cpp
@@ -1427,25 +1427,25 @@ CglGMI::generateCpp(FILE * fp)
   fprintf(fp,"0#include \"CglGMI.hpp\"\n");
   fprintf(fp,"3  CglGMI GMI;\n");
   if (param.getMAX_SUPPORT()!=other.param.getMAX_SUPPORT())
-    fprintf(fp,"3  GMI.setLimit(%d);\n",param.getMAX_SUPPORT());
+    fprintf(fp,"3  GMI.getParam().setMAX_SUPPORT(%d);\n",param.getMAX_SUPPORT());
   else
-    fprintf(fp,"4  GMI.setLimit(%d);\n",param.getMAX_SUPPORT());
+    fprintf(fp,"4  GMI.getParam().setMAX_SUPPORT(%d);\n",param.getMAX_SUPPORT());
   if (param.getAway()!=other.param.getAway())
-    fprintf(fp,"3  GMI.setAway(%g);\n",param.getAway());
+    fprintf(fp,"3  GMI.getParam().setAway(%g);\n",param.getAway());
   else
-    fprintf(fp,"4  GMI.setAway(%g);\n",param.getAway());
+    fprintf(fp,"4  GMI.getParam().setAway(%g);\n",param.getAway());
   if (param.getEPS()!=other.param.getEPS())
-    fprintf(fp,"3  GMI.setEPS(%g);\n",param.getEPS());
+    fprintf(fp,"3  GMI.getParam().setEPS(%g);\n",param.getEPS());
   else
-    fprintf(fp,"4  GMI.setEPS(%g);\n",param.getEPS());
+    fprintf(fp,"4  GMI.getParam().setEPS(%g);\n",param.getEPS());
   if (param.getEPS_COEFF()!=other.param.getEPS_COEFF())
-    fprintf(fp,"3  GMI.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"3  GMI.getParam().setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   else
-    fprintf(fp,"4  GMI.set.EPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"4  GMI.getParam().setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   if (param.getEPS_RELAX_ABS()!=other.param.getEPS_RELAX_ABS())
-    fprintf(fp,"3  GMI.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"3  GMI.getParam().setEPS_RELAX_ABS(%g);\n",param.getEPS_RELAX_ABS());
   else
-    fprintf(fp,"4  GMI.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"4  GMI.getParam().setEPS_RELAX_ABS(%g);\n",param.getEPS_RELAX_ABS());
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  GMI.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From 5ba8c98868ade5028d8bb37acad3563735463c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 24/40] fix: CglGomory::generateCpp drops the multipliers and
 the type of the generator

---
 src/CglGomory/CglGomory.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/CglGomory/CglGomory.cpp b/src/CglGomory/CglGomory.cpp
index 3b9fe28..c5c36e6 100644
--- a/src/CglGomory/CglGomory.cpp
+++ b/src/CglGomory/CglGomory.cpp
@@ -2154,6 +2154,18 @@ CglGomory::generateCpp( FILE * fp)
     fprintf(fp,"3  gomory.setAwayAtRoot(%g);\n",awayAtRoot_);
   else
     fprintf(fp,"4  gomory.setAwayAtRoot(%g);\n",awayAtRoot_);
+  if (conditionNumberMultiplier_!=other.conditionNumberMultiplier_)
+    fprintf(fp,"3  gomory.setConditionNumberMultiplier(%g);\n",conditionNumberMultiplier_);
+  else
+    fprintf(fp,"4  gomory.setConditionNumberMultiplier(%g);\n",conditionNumberMultiplier_);
+  if (largestFactorMultiplier_!=other.largestFactorMultiplier_)
+    fprintf(fp,"3  gomory.setLargestFactorMultiplier(%g);\n",largestFactorMultiplier_);
+  else
+    fprintf(fp,"4  gomory.setLargestFactorMultiplier(%g);\n",largestFactorMultiplier_);
+  if (gomoryType_!=other.gomoryType_)
+    fprintf(fp,"3  gomory.setGomoryType(%d);\n",gomoryType_);
+  else
+    fprintf(fp,"4  gomory.setGomoryType(%d);\n",gomoryType_);
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  gomory.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From 1cf1a735acc64d454e7fa71c7556164d551babb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 25/40] fix: CglLiftAndProject::generateCpp writes the
 aggressiveness twice

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index 31965ee..63d8aa5 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -393,7 +393,6 @@ CglLiftAndProject::generateCpp( FILE * fp)
     fprintf(fp,"3  liftAndProject.setBeta(%d);\n",static_cast<int> (beta_));
   else
     fprintf(fp,"4  liftAndProject.setBeta(%d);\n",static_cast<int> (beta_));
-  fprintf(fp,"3  liftAndProject.setAggressiveness(%d);\n",getAggressiveness());
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  liftAndProject.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From d0e1e433ff2e85f556d0d3d9e11a00a69c639dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 26/40] fix: CglProbing::generateCpp drops the time limit,
 CglImplication's names a header that does not exist

---
 src/CglProbing/CglProbing.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 44cc0a0..ab5222d 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -11272,6 +11272,10 @@ CglProbing::generateCpp(FILE *fp)
     fprintf(fp, "3  probing.setUsingObjective(%d);\n", getUsingObjective());
   else
     fprintf(fp, "4  probing.setUsingObjective(%d);\n", getUsingObjective());
+  if (getMaxSeconds() != other.getMaxSeconds())
+    fprintf(fp, "3  probing.setMaxSeconds(%g);\n", getMaxSeconds());
+  else
+    fprintf(fp, "4  probing.setMaxSeconds(%g);\n", getMaxSeconds());
   if (getAggressiveness() != other.getAggressiveness())
     fprintf(fp, "3  probing.setAggressiveness(%d);\n", getAggressiveness());
   else
@@ -11355,8 +11359,12 @@ std::string
 CglImplication::generateCpp(FILE *fp)
 {
   CglImplication other;
-  fprintf(fp, "0#include \"CglImplication.hpp\"\n");
+  fprintf(fp, "0#include \"CglProbing.hpp\"\n");
   fprintf(fp, "3  CglImplication implication;\n");
+  if (getAggressiveness() != other.getAggressiveness())
+    fprintf(fp, "3  implication.setAggressiveness(%d);\n", getAggressiveness());
+  else
+    fprintf(fp, "4  implication.setAggressiveness(%d);\n", getAggressiveness());
   return "implication";
 }
 // Start FAST
-- 
2.43.0


From 275bb8613ea3c3bf4aba81de2d2e6b82fd13a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 27/40] fix: CglRedSplit::generateCpp writes calls that do not
 compile

---
 src/CglRedSplit/CglRedSplit.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 9eb89d6..ca3ed2b 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1910,21 +1910,21 @@ CglRedSplit::generateCpp(FILE * fp)
   else
     fprintf(fp,"4  redSplit.setLUB(%g);\n",param.getLUB());
   if (param.getEPS()!=other.param.getEPS())
-    fprintf(fp,"3  redSplit.set.EPS(%g);\n",param.getEPS());
+    fprintf(fp,"3  redSplit.setEPS(%g);\n",param.getEPS());
   else
     fprintf(fp,"4  redSplit.setEPS(%g);\n",param.getEPS());
   if (param.getEPS_COEFF()!=other.param.getEPS_COEFF())
     fprintf(fp,"3  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"4  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   if (param.getEPS_COEFF_LUB()!=other.param.getEPS_COEFF_LUB())
-    fprintf(fp,"3  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"3  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"4  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   if (param.getEPS_RELAX_ABS()!=other.param.getEPS_RELAX_ABS())
-    fprintf(fp,"3  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"3  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   else
-    fprintf(fp,"4  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"4  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   if (param.getNormIsZero()!=other.param.getNormIsZero())
     fprintf(fp,"3  redSplit.setNormIsZero(%g);\n",param.getNormIsZero());
   else
-- 
2.43.0


From eea6a3c1d6bee1fd2f3a5d88981f5af23990ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 28/40] fix: CglTwomir::generateCpp drops away, type and
 formulation rows

---
 src/CglTwomir/CglTwomir.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/CglTwomir/CglTwomir.cpp b/src/CglTwomir/CglTwomir.cpp
index da533d5..b214a01 100644
--- a/src/CglTwomir/CglTwomir.cpp
+++ b/src/CglTwomir/CglTwomir.cpp
@@ -2297,6 +2297,22 @@ CglTwomir::generateCpp( FILE * fp)
     fprintf(fp,"3  twomir.setMaxElementsRoot(%d);\n",max_elements_root_);
   else
     fprintf(fp,"4  twomir.setMaxElementsRoot(%d);\n",max_elements_root_);
+  if (away_!=other.away_)
+    fprintf(fp,"3  twomir.setAway(%g);\n",away_);
+  else
+    fprintf(fp,"4  twomir.setAway(%g);\n",away_);
+  if (awayAtRoot_!=other.awayAtRoot_)
+    fprintf(fp,"3  twomir.setAwayAtRoot(%g);\n",awayAtRoot_);
+  else
+    fprintf(fp,"4  twomir.setAwayAtRoot(%g);\n",awayAtRoot_);
+  if (twomirType_!=other.twomirType_)
+    fprintf(fp,"3  twomir.setTwomirType(%d);\n",twomirType_);
+  else
+    fprintf(fp,"4  twomir.setTwomirType(%d);\n",twomirType_);
+  if (form_nrows_!=other.form_nrows_)
+    fprintf(fp,"3  twomir.setFormulationRows(%d);\n",form_nrows_);
+  else
+    fprintf(fp,"4  twomir.setFormulationRows(%d);\n",form_nrows_);
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  twomir.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From 9e70c6d8ead4654e1d72b7354663dcd733905357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 29/40] fix: CglZeroHalf::generateCpp drops the flags

---
 src/CglZeroHalf/CglZeroHalf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index c22c89f..feff95f 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -508,6 +508,8 @@ CglZeroHalf::generateCpp( FILE * fp)
     fprintf(fp,"3  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
   else
     fprintf(fp,"4  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
+  if (getFlags()!=other.getFlags())
+    fprintf(fp,"3  zeroHalf.setFlags(%d);\n",getFlags());
   if (getSepGraphSparseThreshold()!=other.getSepGraphSparseThreshold())
     fprintf(fp,"3  zeroHalf.setSepGraphSparseThreshold(%d);\n",getSepGraphSparseThreshold());
   if (getRowMaxPairCount()!=other.getRowMaxPairCount())
-- 
2.43.0


From b07505e60c8e90c55d90c828e0ab851f9ac663f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 30/40] fix: CglProbing::setupRowCliqueInformation leaks the
 clique rows of an earlier call

---
 src/CglProbing/CglProbing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index ab5222d..6e78c16 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -11078,6 +11078,7 @@ void CglProbing::setupRowCliqueInformation(const OsiSolverInterface &si)
     assert(numberColumns_ == si.getNumCols());
   }
   assert(numberRows_ && numberColumns_);
+  delete[] cliqueRowStart_;
   cliqueRowStart_ = new int[numberRows_ + 1];
   cliqueRowStart_[0] = 0;
   // Temporary array while building list
@@ -11190,6 +11191,7 @@ void CglProbing::setupRowCliqueInformation(const OsiSolverInterface &si)
   delete[] count;
   delete[] back;
   // Now put info in one array
+  delete[] cliqueRow_;
   cliqueRow_ = new CliqueEntry[cliqueRowStart_[numberRows_]];
   for (iRow = 0; iRow < numberRows_; iRow++) {
     if (array[iRow]) {
-- 
2.43.0


From e31a81ef3c5286ba68ea12377700bf6f5847d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:58 +0000
Subject: [PATCH 31/40] fix: CglZeroHalf::refreshSolver keeps the earlier
 problem when the new one has no rows

---
 src/CglZeroHalf/CglZeroHalf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index feff95f..742681b 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -271,7 +271,7 @@ CglZeroHalf::operator=(
 void 
 CglZeroHalf::refreshSolver(OsiSolverInterface * solver)
 {
-  if (!solver||!solver->getNumRows())
+  if (!solver)
     return; // no solver
   delete []  mtbeg_;
   delete []  mtcnt_;
@@ -295,6 +295,8 @@ CglZeroHalf::refreshSolver(OsiSolverInterface * solver)
   cutInfo_.free_log_var();
   cutInfo_.free_parity_ilp();
   cutInfo_.free_ilp();
+  if (!solver->getNumRows())
+    return; // no rows - nothing to separate
   CoinPackedMatrix rowCopy(*solver->getMatrixByRow());
   const int * column = rowCopy.getIndices();
   const CoinBigIndex * rowStart = rowCopy.getVectorStarts();
-- 
2.43.0


From 9d46d7239ea73db68627d52b58eb42e26b28e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:22 +0000
Subject: [PATCH 32/40] fix: CglDuplicateRow::refreshSolver keeps the cuts
 stored for the earlier problem

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 2fe5969..ca50954 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -3232,6 +3232,9 @@ CglDuplicateRow::refreshSolver(OsiSolverInterface * solver)
   delete [] rhs_;
   delete [] duplicate_;
   delete [] lower_;
+  // cuts found for the earlier problem
+  delete storedCuts_;
+  storedCuts_ = NULL;
   matrix_ = *solver->getMatrixByCol();
   matrix_.removeGaps();
   matrix_.orderMatrix();
-- 
2.43.0


From b1d88d419cff84b1844822033c72fccd569fc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:23 +0000
Subject: [PATCH 33/40] fix: CglAllDifferent prints what it excludes although
 its log level is 0

---
 src/CglAllDifferent/CglAllDifferent.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index c661566..a54b14c 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -339,10 +339,11 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
           for (int jj=0;jj<gap;jj++) {
             if ((mapped&iBit)==0) {
               if (allowed[jj]) {
-                if (!nnFix)
+                if (!nnFix&&logLevel_)
                   printf("for con %d x ",i);
                 nnFix++;
-                printf("%d not %d ",j,jj+1);
+                if (logLevel_)
+                  printf("%d not %d ",j,jj+1);
                 allowed[jj]=0;
                 finished=false;
               }
@@ -350,7 +351,7 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
             iBit  = iBit << 1;
           }
         }
-        if (nnFix)
+        if (nnFix&&logLevel_)
           printf("\n");
       }
     }
-- 
2.43.0


From 37a70f3d6c183bfb9f3c128bbff188b9146845bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:06 +0000
Subject: [PATCH 34/40] fix: CglDuplicateRow leaves its CGL_INVESTIGATE
 printing switched on

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index ca50954..6d179e1 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -1100,7 +1100,7 @@ void CglDuplicateRow::generateCuts4(const OsiSolverInterface & si, OsiCuts & cs,
 	    nMatch++;
 	}
 	if (nMatch==n) {
-#define CGL_INVESTIGATE
+//#define CGL_INVESTIGATE
 	  if (n==n1) {
 	    // same - look at all 0-1 integers
 	    if (nInt==n) {
-- 
2.43.0


From 8125f82fc861f2aca90764390969f0b170cd13dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:17 +0000
Subject: [PATCH 35/40] fix: CglDuplicateRow prints from generateCuts although
 its log level is 0

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 6d179e1..e51f114 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2036,10 +2036,12 @@ void CglDuplicateRow::generateCuts4(const OsiSolverInterface & si, OsiCuts & cs,
 			  printf("QQ discard one (k tighter) i\n");
 #endif
 			  } else {
-			    printf("QQ Can't decide what to do nint==1\n");
+			    if (logLevel_)
+			      printf("QQ Can't decide what to do nint==1\n");
 			  }
 			} else {
-			  printf("QQ Don't know what to do nint==1\n");
+			  if (logLevel_)
+			    printf("QQ Don't know what to do nint==1\n");
 			}
 		      }
 		    } else {
@@ -2135,7 +2137,8 @@ void CglDuplicateRow::generateCuts4(const OsiSolverInterface & si, OsiCuts & cs,
 			  printf("QQ discard one (k tighter) i\n");
 #endif
 			} else {
-			  printf("QQ Can't decide what to do nint==2\n");
+			  if (logLevel_)
+			    printf("QQ Can't decide what to do nint==2\n");
 			}
 		      } else {
 #ifdef CGL_INVESTIGATE
@@ -2265,7 +2268,8 @@ void CglDuplicateRow::generateCuts4(const OsiSolverInterface & si, OsiCuts & cs,
   }
   if (infeasible) {
     // generate infeasible cut and return
-    printf("QQ**** infeasible cut\n");
+    if (logLevel_)
+      printf("QQ**** infeasible cut\n");
     OsiRowCut rc;
     rc.setLb(COIN_DBL_MAX);
     rc.setUb(0.0);   
@@ -3027,13 +3031,15 @@ void CglDuplicateRow::generateCuts8(const OsiSolverInterface & si, OsiCuts & cs,
       if (good&&state>0) {
 	if (abs(state)==3) {
 	  // infeasible
-	  printf("FFF Infeasible\n");;
+	  if (logLevel_)
+	    printf("FFF Infeasible\n");
 	  feasible=false;
 	  break;
 	} else if (abs(state)==2) {
 	  // we can fix all
 	  //numberFixed += numberP1+numberM1;
-	  printf("FFF can fix %d\n",numberP1);
+	  if (logLevel_)
+	    printf("FFF can fix %d\n",numberP1);
 	} else {
 	  for (j=0;j<numberP1;j++) {
 	    int iColumn = whichP[j];
@@ -3110,7 +3116,8 @@ void CglDuplicateRow::generateCuts8(const OsiSolverInterface & si, OsiCuts & cs,
   }
   if (!feasible) {
     // generate infeasible cut and return
-    printf("QQ**** infeasible cut\n");
+    if (logLevel_)
+      printf("QQ**** infeasible cut\n");
     OsiRowCut rc;
     rc.setLb(COIN_DBL_MAX);
     rc.setUb(0.0);   
-- 
2.43.0


From e02851f4fc139a5b924212e864af782fbf493123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:17 +0000
Subject: [PATCH 36/40] fix: CglProbing::probeCliques prints although the log
 level is 0

---
 src/CglProbing/CglProbing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 6e78c16..128c1fc 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -8058,8 +8058,9 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                   cliqueCount[iClique] = static_cast< int >(cliqueStart_[iClique + 1] - cliqueStart_[iClique]);
                   if (!size) {
                     if (numberCliqueAdded < maxCliqueAdded) {
-                      printf("Can add %d (going to 0) to clique %d (%d entries)\n",
-                        j, iClique, cliqueCount[iClique]);
+                      if (logLevel_ > 1)
+                        printf("Can add %d (going to 0) to clique %d (%d entries)\n",
+                          j, iClique, cliqueCount[iClique]);
                       cliqueAdd[numberCliqueAdded] = j;
                       cliqueAdd2[numberCliqueAdded] = iClique;
                       numberCliqueAdded++;
@@ -8427,8 +8428,9 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                   cliqueCount[iClique] = static_cast< int >(cliqueStart_[iClique + 1] - cliqueStart_[iClique]);
                   if (!size) {
                     if (numberCliqueAdded < maxCliqueAdded) {
-                      printf("Can add %d (going to 1) to clique %d (%d entries)\n",
-                        j, iClique, cliqueCount[iClique]);
+                      if (logLevel_ > 1)
+                        printf("Can add %d (going to 1) to clique %d (%d entries)\n",
+                          j, iClique, cliqueCount[iClique]);
                       cliqueAdd[numberCliqueAdded] = j | 0x80000000;
                       cliqueAdd2[numberCliqueAdded] = iClique;
                       numberCliqueAdded++;
-- 
2.43.0


From bca97ea6dc7ba81ad92bc433fb98d1f69b6779ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 37/40] fix: CglGomory prints the tree information when global
 cuts are asked for

---
 src/CglGomory/CglGomory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CglGomory/CglGomory.cpp b/src/CglGomory/CglGomory.cpp
index c5c36e6..548df0d 100644
--- a/src/CglGomory/CglGomory.cpp
+++ b/src/CglGomory/CglGomory.cpp
@@ -72,10 +72,9 @@ void CglGomory::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   const double * colUpper = si.getColUpper();
   const double * colLower = si.getColLower();
   //#define CLP_INVESTIGATE2
-#ifndef CLP_INVESTIGATE2
-  if ((info.options&16)!=0)
-#endif
+#ifdef CLP_INVESTIGATE2
      printf("%d %d %d\n",info.inTree,info.options,info.pass);
+#endif
   for (i=0;i<numberColumns;i++) {
     if (intInfo[i]) {
       if (colUpper[i]>colLower[i]+0.5) {
-- 
2.43.0


From 778e9a3512dd7b4ff6329ee1ae2fb70ec32fdb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:31 +0000
Subject: [PATCH 38/40] fix: CglTwomir prints a developer's message from
 generateCuts

---
 src/CglTwomir/CglTwomir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglTwomir/CglTwomir.cpp b/src/CglTwomir/CglTwomir.cpp
index b214a01..25f76f0 100644
--- a/src/CglTwomir/CglTwomir.cpp
+++ b/src/CglTwomir/CglTwomir.cpp
@@ -1571,7 +1571,9 @@ DGG_generateTabRowCuts( DGG_list_t *cut_list,
     DGG_CHECKRVAL(rval, rval);
 
     if (base->nz == 0){
+#ifdef COIN_DEVELOP
       printf ("2mir_test: why does constraint not exist ?\n");
+#endif
       continue;
     }
 
-- 
2.43.0


From a2cc3543841d8183216d20f591c8e4b5cb882470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 39/40] fix: CglOddHole::generateCuts ignores the user's
 minimum violation and maximum entries

---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 9ef796d..6b47c88 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -44,6 +44,9 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   // If it does then suitable rows are subset of information
   
   CglOddHole temp;
+  temp.minimumViolation_=minimumViolation_;
+  temp.minimumViolationPer_=minimumViolationPer_;
+  temp.maximumEntries_=maximumEntries_;
   int * checkRow = new int[nRows];
   int i;
   if (!suitableRows_) {
-- 
2.43.0


From c0c713189da5296c5f935b50630c1a9d3e407369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 40/40] fix: assigning a CglOddHole without a list of rows
 yields one that looks at no row

---
 src/CglOddHole/CglOddHole.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 6b47c88..d9375c9 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -783,8 +783,12 @@ CglOddHole::operator=(
     delete [] suitableRows_;
     // copy list of suitable rows
     numberRows_=rhs.numberRows_;
-    suitableRows_=new int[numberRows_];
-    memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    if (numberRows_) {
+      suitableRows_=new int[numberRows_];
+      memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    } else {
+      suitableRows_=NULL;
+    }
     delete [] startClique_;
     delete [] member_;
     // copy list of cliques
-- 
2.43.0

