From 02f5273fdb78475de4446151a6c47c2905946b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 01/45] fix: CSR::hasZeroDiag reads out of bounds on 1-based
 matrices

The row range is shifted by the index base but rowptr, colidx and values
were not, so the check looked at the wrong rows and past the arrays.
---
 CSR.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..b68aa01 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -248,6 +248,11 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values - base;
+
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
-- 
2.43.0


From 6111643838f785f1516192cba887347e3248fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 02/45] fix: CSR::isSymmetric skips the last column of 1-based
 matrices

The local-column test compared 1-based column indices with 0 and m.
---
 CSR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index b68aa01..28e1f8f 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -191,7 +191,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
@@ -217,7 +217,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
-- 
2.43.0


From 73ff8ad9af05d821585c7363a3ae6757b7a6d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 03/45] fix: CSR::isSymmetric dereferences NULL for matrices
 without values

---
 CSR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 28e1f8f..5827248 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -196,7 +196,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
                 hasPair = true;
-                if (checkValues && values[j] != values[k]) {
+                if (checkValues && values && values[j] != values[k]) {
                   isSymmetric = false;
                 }
                 break;
@@ -222,7 +222,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
               hasPair = true;
-              if (checkValues && values[j] != values[k]) {
+              if (checkValues && values && values[j] != values[k]) {
                 printf(
                   "assymmetric (%d, %d) = %g, (%d, %d) = %g\n",
                   i + 1, c + 1, values[j], c + 1, i + 1, values[k]);
-- 
2.43.0


From 7c28315068711f0b6fba9941f4cfb09f8761ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 04/45] fix: CSR::permuteRows corrupts 1-based matrices

The output arrays were indexed with 1-based rows without being shifted.
---
 Permute.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..2e3b226 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -380,28 +380,34 @@ static void permuteRowsMain_(
   const T *values = in->values ? in->values - BASE : NULL;
   const T *idiag = in->idiag ? in->idiag - BASE : NULL;
 
+  const int *newRowptr = out->rowptr - BASE;
+  int *newColidx = out->colidx - BASE;
+  int *newDiagptr = out->diagptr ? out->diagptr - BASE : NULL;
+  T *newValues = out->values ? out->values - BASE : NULL;
+  T *newIdiag = out->idiag ? out->idiag - BASE : NULL;
+
   int m = in->m;
 
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, newRowptr + BASE, m);
     iBegin += BASE;
     iEnd += BASE;
 
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = newRowptr[i];
 
       if (values)
-        memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
-      memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
+        memcpy(newValues + newBegin, values + begin, (end - begin)*sizeof(double));
+      memcpy(newColidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        newDiagptr[i] =
+          newRowptr[i] + (diagptr[row] - rowptr[row]);
+      if (idiag) newIdiag[i] = idiag[row];
     }
   }
 }
-- 
2.43.0


From 6cc6e64ca41524a5686a265ef4cf27da2f0fe4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 05/45] fix: CSR::multiplyWithDenseMatrix out of bounds for
 1-based row-major operands

A base shift of the row index moves the dense matrices by a row stride.
---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..a2e2860 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From 786f572a7086dcc39365fe91a2491c28c6c0afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 06/45] fix: getSymmetricNnzPattern breaks on 1-based matrices

symColIdx and symExtPtr were shifted back by every thread of the team,
symDiagPtr never was, and the scratch counters were not shifted at all.
---
 SymGS.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..8827003 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -136,6 +136,9 @@ bool getSymmetricNnzPattern(
   *symRowPtr -= base;
   int *cnts = NULL;
 
+  // index arrays of the symmetrized pattern, shifted by base as rowptr and colidx
+  int *newColIdx = NULL, *newDiagPtr = NULL, *newExtPtr = NULL;
+
   volatile bool isSymmetric = true;
 
 //#define PRINT_TIME_BREAKDOWN
@@ -194,16 +197,17 @@ bool getSymmetricNnzPattern(
         for (int i = base; i < m + base; ++i) {
           (*symRowPtr)[i + 1] += (*symRowPtr)[i];
         }
-        *symColIdx = MALLOC(int, (*symRowPtr)[m]);
-        *symColIdx -= base;
+        newColIdx = MALLOC(int, (*symRowPtr)[m + base] - base);
+        newColIdx -= base;
 
-        *symDiagPtr = MALLOC(int, m + 1);
-        *symDiagPtr -= base;
+        newDiagPtr = MALLOC(int, m + 1);
+        newDiagPtr -= base;
         if (A->extptr) {
-          *symExtPtr = MALLOC(int, m + 1);
-          *symExtPtr -= base;
+          newExtPtr = MALLOC(int, m + 1);
+          newExtPtr -= base;
         }
         cnts = MALLOC(int, m);
+        cnts -= base;
       }
 
 #ifdef PRINT_TIME_BREAKDOWN
@@ -219,7 +223,7 @@ bool getSymmetricNnzPattern(
       for (int i = iBegin; i < iEnd; ++i) {
         cnts[i] = extptr[i] - rowptr[i];
         memcpy(
-          *symColIdx + (*symRowPtr)[i], colidx + rowptr[i],
+          newColIdx + (*symRowPtr)[i], colidx + rowptr[i],
           cnts[i]*sizeof(int));
       }
 #pragma omp barrier
@@ -237,7 +241,7 @@ bool getSymmetricNnzPattern(
           if (!binary_search(colidx + rowptr[c], colidx + extptr[c], i)) {
             // for each (i, c), add (c, i)
             int cnt = __sync_fetch_and_add(cnts + c, 1);
-            (*symColIdx)[(*symRowPtr)[c] + cnt] = i;
+            newColIdx[(*symRowPtr)[c] + cnt] = i;
           }
         }
       }
@@ -251,15 +255,15 @@ bool getSymmetricNnzPattern(
 
       // sort colidx and copy remote
       for (int i = iBegin; i < iEnd; ++i) {
-        sort(*symColIdx + (*symRowPtr)[i], *symColIdx + (*symRowPtr)[i] + cnts[i]);
+        sort(newColIdx + (*symRowPtr)[i], newColIdx + (*symRowPtr)[i] + cnts[i]);
         memcpy(
-          *symColIdx + (*symRowPtr)[i] + cnts[i], colidx + extptr[i],
+          newColIdx + (*symRowPtr)[i] + cnts[i], colidx + extptr[i],
           (rowptr[i + 1] - extptr[i])*sizeof(int));
 
-        if (A->extptr) (*symExtPtr)[i] = (*symRowPtr)[i] + cnts[i];
+        if (A->extptr) newExtPtr[i] = (*symRowPtr)[i] + cnts[i];
 
         for (int j = (*symRowPtr)[i]; j < (*symRowPtr)[i + 1]; ++j) {
-          if ((*symColIdx)[j] == i) (*symDiagPtr)[i] = j;
+          if (newColIdx[j] == i) newDiagPtr[i] = j;
         }
       }
 #ifdef PRINT_TIME_BREAKDOWN
@@ -269,13 +273,19 @@ bool getSymmetricNnzPattern(
 #undef PRINT_TIME_BREAKDOWN
 #endif
 
-      *symColIdx += base;
-      if (*symExtPtr) *symExtPtr += base;
     } // !isSymmetric
   } // omp parallel
 
   *symRowPtr += base;
 
+  if (!isSymmetric) {
+    *symColIdx = newColIdx + base;
+    *symDiagPtr = newDiagPtr + base;
+    if (A->extptr) *symExtPtr = newExtPtr + base;
+    cnts += base;
+    FREE(cnts);
+  }
+
   if (isSymmetric) {
     if (!A->useMemoryPool_()) {
       FREE(*symRowPtr);
@@ -286,8 +296,6 @@ bool getSymmetricNnzPattern(
     }
   }
 
-  FREE(cnts);
-
 #ifndef NDEBUG
   if (isSymmetric) {
     assert(A->isSymmetric(false, true));
-- 
2.43.0


From 8d7cbd7e2be0d3fe26480d673496ffaac0b5c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 07/45] fix: CSR::permuteColsInPlace dereferences NULL for
 matrices without values

values was shifted by the base even when NULL, and the variant without
diagptr moved values unconditionally. Also make the column assertion
hold for 1-based matrices.
---
 Permute.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 2e3b226..5501ad8 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,7 +121,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
 
@@ -130,7 +130,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     int diagCol = -1;
     for (int j = rowptr[i]; j < extptr[i]; ++j) {
       int c = colidx[j];
-      assert(c >= 0 && c < m);
+      assert(c - BASE >= 0 && c - BASE < m);
       colidx[j] = perm[c - BASE] + BASE;
       assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < m);
       if (c == i) diagCol = perm[c - BASE] + BASE;
@@ -205,17 +205,17 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     else {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
-        double v = values[j];
+        double v = values ? values[j] : 0;
 
         int k = j - 1;
         while (k >= rowptr[i] && colidx[k] > c) {
           colidx[k + 1] = colidx[k];
-          values[k + 1] = values[k];
+          if (values) values[k + 1] = values[k];
           --k;
         }
 
         colidx[k + 1] = c;
-        values[k + 1] = v;
+        if (values) values[k + 1] = v;
       }
     }
   } // for each row
-- 
2.43.0


From a0729b38385d2ce7f69a881c950b09266ea5a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 08/45] fix: make0BasedIndexing and make1BasedIndexing leave
 extptr in the old base

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 5827248..a3db8d6 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -420,6 +420,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -441,6 +447,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From d6f63eca63c179827b8e418b5c7d05f64e4e0a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 09/45] fix: CSR::storeBin leaves the matrix 0-based when the
 file cannot be opened

---
 CSR.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index a3db8d6..132eb07 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -365,17 +365,17 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
 
 void CSR::storeBin(const char *fileName)
 {
-  bool was1Based = 1 == getBase();
-  if (was1Based) {
-    make0BasedIndexing();
-  }
-
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
     return;
   }
 
+  bool was1Based = 1 == getBase();
+  if (was1Based) {
+    make0BasedIndexing();
+  }
+
   int id = MAT_FILE_CLASSID;
   fwrite(&id, sizeof(id), 1, fp);
 
-- 
2.43.0


From facb059c4d2cee04c15ae4f6baac180420f70d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 10/45] fix: CSR and COO constructors leave the sizes
 uninitialized

---
 COO.cpp | 2 +-
 CSR.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..e03f104 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -34,7 +34,7 @@ using namespace std;
 namespace SpMP
 {
 
-COO::COO() : rowidx(NULL), colidx(NULL), values(NULL), isSymmetric(false)
+COO::COO() : m(0), n(0), nnz(0), rowidx(NULL), colidx(NULL), values(NULL), isSymmetric(false)
 {
 }
 
diff --git a/CSR.cpp b/CSR.cpp
index 132eb07..9367060 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -45,7 +45,7 @@ bool CSR::useMemoryPool_() const
   return MemoryPool::getSingleton()->contains(rowptr);
 }
 
-CSR::CSR() : rowptr(NULL), colidx(NULL), values(NULL), idiag(NULL), diag(NULL), diagptr(NULL), extptr(NULL), ownData_(false)
+CSR::CSR() : m(0), n(0), rowptr(NULL), colidx(NULL), values(NULL), idiag(NULL), diag(NULL), diagptr(NULL), extptr(NULL), ownData_(false)
 {
 }
 
@@ -99,7 +99,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
- : rowptr(NULL), colidx(NULL), values(NULL), idiag(NULL), diag(NULL), diagptr(NULL), extptr(NULL), ownData_(true)
+ : m(0), n(0), rowptr(NULL), colidx(NULL), values(NULL), idiag(NULL), diag(NULL), diagptr(NULL), extptr(NULL), ownData_(true)
 {
   int m = atoi(fileName);
   char buf[1024];
-- 
2.43.0


From 22d2c209d57556fb461789c0fbe27b19541d17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 11/45] fix: copying a CSR drops extptr

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 9367060..b840445 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -89,6 +89,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (A.diagptr) diagptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
+  if (A.extptr) extptr = MALLOC(int, m);
 
   copyVector(rowptr, A.rowptr, A.m + 1);
   copyVector(colidx, A.colidx, nnz);
@@ -96,6 +97,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (diagptr) copyVector(diagptr, A.diagptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
-- 
2.43.0


From bceb9b090a6d5a2a37f76dfb47973c5c10c94317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 12/45] fix: a matrix file that cannot be loaded ends the
 process or leaves garbage

loadMatrixMarket is documented to return false on failure but called
exit, and the CSR constructor went on with a matrix it never read.
Such a matrix is now empty.
---
 COO.cpp |  2 +-
 CSR.cpp | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index e03f104..80bb6b3 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -188,7 +188,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   FILE *fp=fopen(file, "r");
   if (NULL == fp) {
     fprintf(stderr, "Failed to open file %s\n", file);
-    exit(-1);
+    return false;
   }
 
   // read banner
diff --git a/CSR.cpp b/CSR.cpp
index b840445..a90959f 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -118,11 +118,19 @@ CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/,
   }
   else {
     COO Acoo;
-    loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad);
+    if (loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad)) {
+      alloc(Acoo.m, Acoo.nnz);
 
-    alloc(Acoo.m, Acoo.nnz);
+      dcoo2csr(this, &Acoo, base);
+    }
+  }
 
-    dcoo2csr(this, &Acoo, base);
+  if (!rowptr) {
+    // loading failed: an empty matrix
+    this->m = 0;
+    this->n = 0;
+    alloc(0, 0);
+    rowptr[0] = base;
   }
 }
 
-- 
2.43.0


From 70b40f637dd12bf2676f1005a6dcb3436e76d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 13/45] fix: loadMatrixMarket trusts the sizes and coordinates
 of the file

More entries than announced, negative coordinates, a mix of 0- and 1-based
coordinates, negative sizes and rectangular symmetric matrices wrote outside
the arrays; the padding rows were shifted with 0-based files and not counted
with symmetric ones; the arrays leaked on every error.
---
 COO.cpp | 86 ++++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 23 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 80bb6b3..727a9a4 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -214,6 +214,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
+  if (m < 0 || n < 0 || nnz < 0) {
+    fprintf(stderr, "Error: invalid matrix size (%d %d %d).\n", m, n, nnz);
+    fclose(fp);
+    return false;
+  }
   if (transpose) {
     assert(!force_symmetric);
     swap(m, n);
@@ -224,8 +229,13 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   n = (n + pad - 1)/pad*pad;
 
   size_t count;
-  if (force_symmetric || mm_is_symmetric (matcode) == 1) {
-    coo.isSymmetric = true;
+  bool isSymmetric = force_symmetric || mm_is_symmetric (matcode) == 1;
+  if (isSymmetric) {
+    if (origM != origN) {
+      fprintf(stderr, "Error: a symmetric matrix must be square (%d %d).\n", origM, origN);
+      fclose(fp);
+      return false;
+    }
     count = 2L*nnz;
   }
   else {
@@ -240,16 +250,24 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   if (!values || !colidx || !rowidx) {
     fprintf(stderr, "Failed to allocate memory\n");
     fclose(fp);
+    FREE(values);
+    FREE(colidx);
+    FREE(rowidx);
     return false;
   }
 
-  int *colidx_temp, *rowcnt = NULL;
-  if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+  int *colidx_temp = NULL, *rowcnt = NULL;
+  if (isSymmetric) {
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
       fclose(fp);
+      FREE(values);
+      FREE(colidx);
+      FREE(rowidx);
+      FREE(colidx_temp);
+      FREE(rowcnt);
       return false;
     }
     memset(rowcnt, 0, sizeof(int)*(m + 1));
@@ -261,14 +279,20 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   int x, y;
   double real, imag;
   int base = 1;
+  bool valid = true, atUpperEnd = false;
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
-      fclose(fp);
-      return false;
+      valid = false;
+      break;
+    }
+    if (lines >= nnz) {
+      ++lines; // more entries than the header announced
+      break;
     }
+    if (x == origM || y == origN) atUpperEnd = true;
 
     rowidx[count] = x;
     colidx[count] = y;
@@ -277,37 +301,52 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
     ++count;
     ++lines;
-    if (coo.isSymmetric) rowcnt[x]++;
+    if (isSymmetric) rowcnt[x]++;
       // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
   }
-  // padding for vectorization
-  for (int i = min(origM, origN); i < min(m, n); ++i) {
-    rowidx[count] = i + 1;
-    colidx[count] = i + 1;
-    values[count] = 1;
-    ++count;
-  }
   fclose(fp);
 
+  if (valid && lines != nnz) {
+    fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
+            nnz, lines, file);
+    valid = false;
+  }
+  if (valid && 0 == base && atUpperEnd) {
+    fprintf(stderr, "Error: both 0-based and 1-based coordinates in file %s\n", file);
+    valid = false;
+  }
+  if (!valid) {
+    FREE(values);
+    FREE(colidx);
+    FREE(rowidx);
+    FREE(colidx_temp);
+    FREE(rowcnt);
+    return false;
+  }
+
   if (0 == base) {
     for (size_t i = 0; i < count; ++i) {
       rowidx[i]++;
       colidx[i]++;
     }
-    if (coo.isSymmetric) {
+    if (isSymmetric) {
       for (int i = m; i > 0; --i) {
         rowcnt[i] = rowcnt[i - 1];
       }
+      rowcnt[0] = 0;
     } 
   }
 
-  if (lines != nnz) {
-    fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
-            nnz, lines, file);
-    return false;
+  // padding for vectorization
+  for (int i = min(origM, origN); i < min(m, n); ++i) {
+    rowidx[count] = i + 1;
+    colidx[count] = i + 1;
+    values[count] = 1;
+    ++count;
+    if (isSymmetric) rowcnt[i + 1]++;
   }
-    
-  if (coo.isSymmetric) {
+
+  if (isSymmetric) {
     // add transposed elements only if it doesn't exist
     size_t real_count = count;
     // preix-sum
@@ -350,6 +389,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   coo.m = m;
   coo.n = n;
   coo.nnz = count;
+  coo.isSymmetric = isSymmetric;
   coo.dealloc();
   coo.values = values;
   coo.colidx = colidx;
-- 
2.43.0


From e69941b5a9a6f6ec4f84f4da4d0c5166552361ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 14/45] fix: CSR::loadBin trusts the file

Short reads, a wrong file id, negative sizes and rows or columns outside
the matrix went unnoticed. The matrix is left empty in these cases.
---
 CSR.cpp | 50 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index a90959f..e04bc05 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -323,6 +323,8 @@ static const int MAT_FILE_CLASSID = 1211216;
 void CSR::loadBin(const char *file_name, int base /*=0*/)
 {
   dealloc();
+  m = 0;
+  n = 0;
 
   FILE *fp = fopen(file_name, "r");
   if (!fp) {
@@ -331,26 +333,52 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
   }
 
   int id;
-  fread(&id, sizeof(id), 1, fp);
-  if (MAT_FILE_CLASSID != id) {
-    fprintf(stderr, "Wrong file ID (%d)\n", id);
+  if (fread(&id, sizeof(id), 1, fp) != 1 || MAT_FILE_CLASSID != id) {
+    fprintf(stderr, "Wrong file ID in %s\n", file_name);
+    fclose(fp);
+    return;
   }
 
-  fread(&m, sizeof(m), 1, fp);
-  fread(&n, sizeof(n), 1, fp);
-  int nnz;
-  fread(&nnz, sizeof(nnz), 1, fp);
+  int mInFile, nInFile, nnz;
+  if (fread(&mInFile, sizeof(mInFile), 1, fp) != 1 ||
+      fread(&nInFile, sizeof(nInFile), 1, fp) != 1 ||
+      fread(&nnz, sizeof(nnz), 1, fp) != 1 ||
+      mInFile < 0 || nInFile < 0 || nnz < 0) {
+    fprintf(stderr, "Invalid matrix size in %s\n", file_name);
+    fclose(fp);
+    return;
+  }
 
+  m = mInFile;
+  n = nInFile;
   alloc(m, nnz);
 
-  fread(rowptr + 1, sizeof(rowptr[0]), m, fp);
+  bool valid = fread(rowptr + 1, sizeof(rowptr[0]), m, fp) == (size_t)m;
   rowptr[0] = 0;
-  for (int i = 1; i < m; ++i) {
+  for (int i = 0; valid && i < m; ++i) {
+    // the file stores the number of non-zeros of each row
+    if (rowptr[i + 1] < 0 || rowptr[i + 1] > nnz - rowptr[i]) {
+      valid = false;
+      break;
+    }
     rowptr[i + 1] += rowptr[i];
   }
+  valid = valid && rowptr[m] == nnz;
 
-  fread(colidx, sizeof(colidx[0]), nnz, fp);
-  fread(values, sizeof(values[0]), nnz, fp);
+  valid = valid && fread(colidx, sizeof(colidx[0]), nnz, fp) == (size_t)nnz;
+  for (int j = 0; valid && j < nnz; ++j) {
+    if (colidx[j] < 0 || colidx[j] >= n) valid = false;
+  }
+  valid = valid && fread(values, sizeof(values[0]), nnz, fp) == (size_t)nnz;
+
+  if (!valid) {
+    fprintf(stderr, "Corrupt matrix file %s\n", file_name);
+    fclose(fp);
+    dealloc();
+    m = 0;
+    n = 0;
+    return;
+  }
 
 #pragma omp parallel for
   for (int i = 0; i < m; ++i) {
-- 
2.43.0


From 758cf2a5c8357ecb7cd1037e19a41aaa905ef2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 15/45] fix: CSR::storeMatrixMarket crashes when the file
 cannot be opened

Also release the type code string.
---
 CSR.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index e04bc05..18c1dfe 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -293,7 +293,10 @@ void CSR::storeMatrixMarket(const char *fileName) const
   int base = getBase();
 
   FILE *fp = fopen(fileName, "w");
-  assert(fp);
+  if (!fp) {
+    fprintf(stderr, "Failed to open %s\n", fileName);
+    return;
+  }
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
@@ -303,7 +306,9 @@ void CSR::storeMatrixMarket(const char *fileName) const
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
-  fprintf(fp, "%s\n", mm_typecode_to_str(matcode));
+  char *typecode = mm_typecode_to_str(matcode);
+  fprintf(fp, "%s\n", typecode);
+  free(typecode);
 
   // print matrix size and nonzeros.
   fprintf(fp, "%d %d %d\n", m, n, rowptr[m] - base);
-- 
2.43.0


From de0183d71f5b15c5fc78645ebfe69cfeafcbcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 16/45] fix: values lose their last bits when written to Matrix
 Market files

A double needs 17 significant digits to be read back unchanged.
---
 CSR.cpp   | 2 +-
 mm_io.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 18c1dfe..c990c18 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -316,7 +316,7 @@ void CSR::storeMatrixMarket(const char *fileName) const
   // print values
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j) {
-      fprintf(fp, "%d %d %20.16g\n", i + 1, colidx[j] - base + 1, values[j]);
+      fprintf(fp, "%d %d %.17g\n", i + 1, colidx[j] - base + 1, values[j]);
     }
   }
 
diff --git a/mm_io.cpp b/mm_io.cpp
index 7aac638..789a91c 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -742,11 +742,11 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     else
     if (mm_is_real(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+            fprintf(f, "%d %d %.17g\n", I[i], J[i], val[i]);
     else
     if (mm_is_complex(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2*i], 
+            fprintf(f, "%d %d %.17g %.17g\n", I[i], J[i], val[2*i], 
                         val[2*i+1]);
     else
     {
-- 
2.43.0


From b79ff47a0c85e016ce6f29e15ce32ad0bfa62bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 17/45] fix: COO::storeMatrixMarket leaks a stream open for
 writing on the same file

mm_write_mtx_crd opens, writes and closes the file itself, and its error is reported.
---
 COO.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 727a9a4..b8a753f 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -52,12 +52,6 @@ void COO::dealloc()
 
 void COO::storeMatrixMarket(const char *fileName) const
 {
-  FILE *fp = fopen(fileName, "w");
-  if (NULL == fp) {
-    fprintf(stderr, "Fail to open file %s\n", fileName);
-    return;
-  }
-
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
-- 
2.43.0


From 1c34e43a506c08493dff96a972815312de3a9579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 18/45] fix: mm_read_banner overflows its token buffers on long
 header words

---
 mm_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 789a91c..2c22315 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -83,7 +83,8 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) 
         return MM_PREMATURE_EOF;
 
-    if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type, 
+    /* tokens are limited to MM_MAX_TOKEN_LENGTH - 1 characters */
+    if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type, 
         storage_scheme) != 5)
         return MM_PREMATURE_EOF;
 
-- 
2.43.0


From 14c4ea173a203a2cf05ab69f943f98f2a7587ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 19/45] fix: reading the size line of a Matrix Market file
 never ends on non-numeric text

fscanf consumes nothing when no item matches.
---
 mm_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 2c22315..2c6d3e7 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -212,7 +212,7 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
     do
     { 
       num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF ) 
+      if ( num_items_read == EOF || num_items_read == 0 )
       {
         return MM_PREMATURE_EOF;
       }
@@ -459,7 +459,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     do
     { 
       num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF) 
+      if (num_items_read == EOF || num_items_read == 0)
       {
         return MM_PREMATURE_EOF;
       }
-- 
2.43.0


From 91a113540b7885fcfa6ac732c5e1c53219deb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 20/45] fix: Matrix Market readers leak the stream and ignore
 truncated entries

mm_read_mtx_crd and mm_read_unsymmetric_sparse left the file open and the
arrays allocated on every error, and the latter returned whatever malloc
gave it for missing entries.
---
 mm_io.cpp | 68 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 2c6d3e7..ede26a2 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -260,45 +260,43 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
         return MM_COULD_NOT_READ_FILE;
 
 
-    if ((ret_code = mm_read_banner(f, matcode)) != 0)
-        return ret_code;
-
-    if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) && 
-            mm_is_matrix(*matcode)))
-        return MM_UNSUPPORTED_TYPE;
-
-    if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
-        return ret_code;
-
-
-    *I = (int *)  malloc(*nz * sizeof(int));
-    *J = (int *)  malloc(*nz * sizeof(int));
+    *I = *J = NULL;
     *val = NULL;
 
-    if (mm_is_complex(*matcode))
+    if ((ret_code = mm_read_banner(f, matcode)) == 0)
     {
-        *val = (double *) malloc(*nz * 2 * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
-                *matcode);
-        if (ret_code != 0) return ret_code;
+        if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) && 
+                mm_is_matrix(*matcode)))
+            ret_code = MM_UNSUPPORTED_TYPE;
+        else
+            ret_code = mm_read_mtx_crd_size(f, M, N, nz);
     }
-    else if (mm_is_real(*matcode))
+
+    if (ret_code == 0)
     {
-        *val = (double *) malloc(*nz * sizeof(double));
+        *I = (int *)  malloc(*nz * sizeof(int));
+        *J = (int *)  malloc(*nz * sizeof(int));
+
+        if (mm_is_complex(*matcode))
+            *val = (double *) malloc(*nz * 2 * sizeof(double));
+        else if (mm_is_real(*matcode))
+            *val = (double *) malloc(*nz * sizeof(double));
+
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
 
-    else if (mm_is_pattern(*matcode))
+    if (ret_code != 0)
     {
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
-                *matcode);
-        if (ret_code != 0) return ret_code;
+        free(*I);
+        free(*J);
+        free(*val);
+        *I = *J = NULL;
+        *val = NULL;
     }
 
     if (f != stdin) fclose(f);
-    return 0;
+    return ret_code;
 }
 /******************************************************************************/
 
@@ -498,6 +496,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
  
@@ -507,8 +506,11 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
             mm_is_sparse(matcode)))
     {
         fprintf(stderr, "Sorry, this application does not support ");
+        char *typecode = mm_typecode_to_str(matcode);
         fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+                typecode ? typecode : "unknown");
+        free(typecode);
+        fclose(f);
         return -1;
     }
  
@@ -519,6 +521,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
  
@@ -543,7 +546,16 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
  
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            free(I);
+            free(J);
+            free(val);
+            *val_ = NULL;
+            *I_ = *J_ = NULL;
+            fclose(f);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
-- 
2.43.0


From 5014334d8900e842b4367d0867dab9a401802556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 21/45] fix: mm_write_banner and mm_write_*_size report an
 error after every successful write

fprintf returns the number of characters, not of items. Also release the
type code string in mm_write_mtx_crd.
---
 mm_io.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index ede26a2..5d024fc 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -687,7 +687,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -707,7 +707,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else 
         return 0;
@@ -739,8 +739,10 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 /*
   print banner followed by typecode.
 */
+    char *typecode = mm_typecode_to_str(matcode);
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    fprintf(f, "%s\n", typecode ? typecode : "");
+    free(typecode);
 
 /*
   print matrix sizes and nonzeros.
@@ -792,7 +794,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From b74af16688f2e938197bb51879847ee694e27fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 22/45] fix: reorderings leak the connected component arrays

---
 reordering/ConnectedComponents.cpp | 1 +
 reordering/RCM.cpp                 | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0c33f39..10d17c3 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -321,6 +321,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (nodesToFind) delete[] nodesToFind;
 }
diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 3672b64..24fb4e6 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -944,6 +944,10 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   delete[] children_array;
   delete[] write_offset;
   delete[] prefixSum_array;
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
 
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
@@ -1108,6 +1112,11 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
 
   timeSecondPhase += omp_get_wtime();
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
-- 
2.43.0


From 7ad0913f6ba6f7d0fd3d7d77ea3d6d3a95eca12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 23/45] fix: isPerm leaks its copy when the array is not a
 permutation

---
 Utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..7ccc467 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -114,11 +114,13 @@ bool isPerm(const int *perm, int n)
       if (temp[i] == i - 1) {
         printf("%d duplicated\n", i - 1);
         assert(false);
+        delete[] temp;
         return false;
       }
       else if (temp[i] != i) {
         printf("%d missed\n", i);
         assert(false);
+        delete[] temp;
         return false;
       }
     }
-- 
2.43.0


From 36e56d9d5daf47fd38590c02eefae129621dbfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 24/45] fix: in-place matrix-vector product copies m instead of
 n elements of x

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index a2e2860..9946205 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From b7cc0739349219840da9a3d820cf890d83efd63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 25/45] fix: task graphs without transitive reduction leak the
 adjacency or free pool memory

---
 LevelSchedule.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c40defe..30cb20d 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1681,8 +1681,6 @@ void constructTaskGraph_(
         cForward += nparentsForward[i];
         cBackward += nparentsBackward[i];
       }
-      FREE(taskInvAdjacencyLengths);
-
       parentsBuf[0] = schedule->allocate<int>(cForward);
       parentsBuf[1] = schedule->allocate<int>(cBackward);
 
@@ -1707,6 +1705,16 @@ void constructTaskGraph_(
         }
       }
 
+      if (!useMemoryPool) {
+        FREE(taskAdjacency.rowptr);
+        FREE(taskAdjacency.colidx);
+
+        FREE(taskInvAdjacency.rowptr);
+        FREE(taskInvAdjacency.colidx);
+
+        FREE(taskInvAdjacencyLengths);
+      }
+
       taskAdjacency.~CSR();
       taskInvAdjacency.~CSR();
     } // omp single
-- 
2.43.0


From 96fa20968cb84ff2b4ff973bdb8c930441653b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 26/45] fix: bipartite connected components free an
 uninitialized pointer and leak

---
 reordering/BFSBipartite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 31e393a..eccdb4a 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -40,7 +40,7 @@ void findConnectedComponents_(
 
   double t = omp_get_wtime();
 
-  int *rowsToFind, *colsToFind = NULL;
+  int *rowsToFind = NULL, *colsToFind = NULL;
   int m = A->m;
   int n = A->n;
 
@@ -392,6 +392,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (rowsToFind) delete[] rowsToFind;
   if (colsToFind) delete[] colsToFind;
-- 
2.43.0


From 3d51ef44aa1f7105f9016488e3e43d101b93e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 27/45] fix: a lost compare-and-swap must not overwrite another
 thread's link in the union-find

---
 reordering/ConnectedComponents.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 10d17c3..c3606d5 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -167,11 +167,16 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
+              break;
+            }
+            // another thread has linked the root r_x: keep its link and retry
+          }
+          else {
+            p[r_x] = p_r_y;
+            r_x = p_r_x;
           }
-          p[r_x] = p_r_y;
-          r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
     }
-- 
2.43.0


From 8e8ebdb32f57b72abd97d58ea5d7fa1b7b1d164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 28/45] fix: keep the winner's link after a lost
 compare-and-swap in the bipartite union-find too

---
 reordering/BFSBipartite.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index eccdb4a..18a5e15 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -164,11 +164,16 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
+              break;
+            }
+            // another thread has linked the root r_x: keep its link and retry
+          }
+          else {
+            p[r_x] = p_r_y;
+            r_x = p_r_x;
           }
-          p[r_x] = p_r_y;
-          r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
     }
@@ -206,11 +211,16 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
+              break;
+            }
+            // another thread has linked the root r_x: keep its link and retry
+          }
+          else {
+            p[r_x] = p_r_y;
+            r_x = p_r_x;
           }
-          p[r_x] = p_r_y;
-          r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
     }
-- 
2.43.0


From 5117adc55ef64e4beec129a7084763bb75b72813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 29/45] fix: parts of two threads overlap when component sizes
 are computed

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index c3606d5..b98a0a6 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -276,7 +276,7 @@ void findConnectedComponents_(
 
   int cPerThread = (nComp + nthreads - 1)/nthreads;
   int cBegin = max(min(cPerThread*tid, nComp), 1);
-  int cEnd = min(cBegin + cPerThread, nComp);
+  int cEnd = min(cPerThread*(tid + 1), nComp);
   if (0 == tid) {
     (*compSizes)[0] = (*compSizePrefixSum)[nComp*(nthreads - 1)];
   }
-- 
2.43.0


From f62a76874636f01b16dcb13583dfd18b7ad1d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 30/45] fix: no component size to write when there is no
 component

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index b98a0a6..011573a 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -277,7 +277,7 @@ void findConnectedComponents_(
   int cPerThread = (nComp + nthreads - 1)/nthreads;
   int cBegin = max(min(cPerThread*tid, nComp), 1);
   int cEnd = min(cPerThread*(tid + 1), nComp);
-  if (0 == tid) {
+  if (0 == tid && nComp > 0) {
     (*compSizes)[0] = (*compSizePrefixSum)[nComp*(nthreads - 1)];
   }
   for (int c = cBegin; c < cEnd; ++c) {
-- 
2.43.0


From f75c2b0a435dc72601ff075c0915179281ff837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 31/45] fix: deallocating a CSR keeps pointers to arrays of the
 caller, which are freed once it owns its data

---
 CSR.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index c990c18..57b54ae 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -160,6 +160,13 @@ void CSR::dealloc()
       FREE(colidx);
       FREE(values);
     }
+    else {
+      // the arrays belong to the caller
+      rowptr = NULL;
+      extptr = NULL;
+      colidx = NULL;
+      values = NULL;
+    }
 
     FREE(idiag);
     FREE(diag);
-- 
2.43.0


From c6c825291c229043481163de5a3ee465becdc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 32/45] fix: matrices returned by transpose, permute, splitLU
 and generate3D27PtLaplacian never free their arrays

---
 CSR.cpp       | 1 +
 CSR.hpp       | 3 +++
 Laplacian.cpp | 1 +
 Permute.cpp   | 1 +
 SymGS.cpp     | 2 ++
 5 files changed, 8 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 57b54ae..36f7f01 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -546,6 +546,7 @@ CSR *CSR::transpose() const
 
   CSR *AT = new CSR();
 
+  AT->ownData_ = true;
   AT->m = n;
   AT->n = m;
   AT->colidx = MALLOC(int, nnz);
diff --git a/CSR.hpp b/CSR.hpp
index c9722cd..84f3fdd 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -190,6 +190,9 @@ public:
 
 private:
   bool ownData_;
+
+  friend void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base);
+  friend void splitLU(CSR& A, CSR *L, CSR *U);
 }; // CSR
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base = 0);
diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..13e4a43 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -30,6 +30,7 @@ namespace SpMP
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   A->dealloc();
 
+  A->ownData_ = true;
   A->m = A->n = nx*ny*nz;
   A->rowptr = MALLOC(int, A->m + 1);
   A->diagptr = MALLOC(int, A->m);
diff --git a/Permute.cpp b/Permute.cpp
index 5501ad8..896f636 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -82,6 +82,7 @@ CSR *CSR::permuteRowptr(const int *inversePerm) const
 {
   CSR *ret = new CSR();
 
+  ret->ownData_ = true;
   ret->m = m;
   ret->n = n;
   ret->rowptr = MALLOC(int, m + 1);
diff --git a/SymGS.cpp b/SymGS.cpp
index 8827003..5631599 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -17,6 +17,8 @@ void splitLU(CSR& A, CSR *L, CSR *U)
   L->dealloc();
   U->dealloc();
 
+  L->ownData_ = U->ownData_ = true;
+
   L->m = U->m = A.m;
   L->n = U->n = A.n;
 
-- 
2.43.0


From 279f1f992f0b0658102d033543ddbea7d8a3cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 33/45] fix: LevelSchedule leaves the number of tasks
 uninitialized

---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 30cb20d..5ae2760 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -80,7 +80,7 @@ void dumpTrace(const char *fileName)
 #endif
 
 LevelSchedule::LevelSchedule()
- : nparentsForward(NULL), nparentsBackward(NULL),
+ : nparentsForward(NULL), nparentsBackward(NULL), ntasks(0),
  parentsForward(NULL), parentsBackward(NULL),
  taskFinished(NULL),
  useBarrier(false), transitiveReduction(true), fuseSpMV(false),
-- 
2.43.0


From df3e9885fc09ba6cfae71f2e296ba1cb40b845cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 34/45] fix: constructing a task graph again leaks the previous
 one, or frees memory of the pool

---
 LevelSchedule.cpp | 14 ++++++++++++++
 LevelSchedule.hpp |  1 +
 2 files changed, 15 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 5ae2760..2c0b564 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -95,6 +95,11 @@ LevelSchedule::LevelSchedule()
 }
 
 LevelSchedule::~LevelSchedule() {
+  dealloc_();
+}
+
+void LevelSchedule::dealloc_()
+{
   if (!useMemoryPool) {
     FREE(nparentsForward);
     FREE(nparentsBackward);
@@ -111,6 +116,13 @@ LevelSchedule::~LevelSchedule() {
 
     if (fusedSchedule) delete fusedSchedule;
   }
+  else {
+    nparentsForward = nparentsBackward = NULL;
+    parentsForward = parentsBackward = NULL;
+  }
+
+  taskFinished = NULL;
+  init_();
 }
 
 void LevelSchedule::init_()
@@ -1775,6 +1787,8 @@ void LevelSchedule::constructTaskGraph(
   const int *rowptr, const int *diagptr, const int *extptr, const int *colidx,
   const CostFunction& costFunction)
 {
+  dealloc_(); // of a previous task graph
+
   if (0 == rowptr[0]) {
     return constructTaskGraph_<0>(this, m, rowptr, diagptr, extptr, colidx, costFunction);
   }
diff --git a/LevelSchedule.hpp b/LevelSchedule.hpp
index d70f843..43bb40d 100644
--- a/LevelSchedule.hpp
+++ b/LevelSchedule.hpp
@@ -248,6 +248,7 @@ public :
 protected:
 
   void init_();
+  void dealloc_();
 };
 
 /**
-- 
2.43.0


From ed655fd70f067c8c2a94853d52e39b91cb8dfe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 35/45] fix: assigning a CSR shares its arrays, which are then
 freed twice

---
 CSR.cpp | 22 +++++++++++++++++++++-
 CSR.hpp |  3 +++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 36f7f01..71e9ecf 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -79,8 +79,28 @@ CSR::CSR(int m, int n, int nnz)
   alloc(m, nnz);
 }
 
-CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL), diagptr(NULL), extptr(NULL), ownData_(true)
+CSR::CSR(const CSR& A) : m(0), n(0), rowptr(NULL), colidx(NULL), values(NULL), idiag(NULL), diag(NULL), diagptr(NULL), extptr(NULL), ownData_(false)
 {
+  copy_(A);
+}
+
+CSR& CSR::operator=(const CSR& A)
+{
+  if (this != &A) {
+    dealloc();
+    copy_(A);
+  }
+  return *this;
+}
+
+void CSR::copy_(const CSR& A)
+{
+  m = A.m;
+  n = A.n;
+  ownData_ = true;
+
+  if (!A.rowptr) return; // empty
+
   int nnz = A.getNnz();
 
   rowptr = MALLOC(int, m + 1);
diff --git a/CSR.hpp b/CSR.hpp
index 84f3fdd..ee06cf2 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -53,6 +53,7 @@ public:
   CSR(const char *file, int base = 0, bool forceSymmetric = false, int pad = 1);
   CSR(int m, int n, int nnz);
   CSR(const CSR& A);
+  CSR& operator=(const CSR& A);
 
   // Following constructor will make CSR does not own the data
   CSR(int m, int n, int *rowptr, int *colidx, double *values);
@@ -189,6 +190,8 @@ public:
   }
 
 private:
+  void copy_(const CSR& A);
+
   bool ownData_;
 
   friend void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base);
-- 
2.43.0


From daed917d7d9312485047a247b524e9861dc73381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 36/45] fix: copies of COO matrices and schedules share their
 arrays, which are then freed twice

---
 COO.hpp           | 2 ++
 LevelSchedule.hpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/COO.hpp b/COO.hpp
index 000e05a..16fbcdc 100644
--- a/COO.hpp
+++ b/COO.hpp
@@ -41,6 +41,8 @@ public:
 
   COO();
   ~COO();
+  COO(const COO&) = delete; // owns its arrays
+  COO& operator=(const COO&) = delete;
   void dealloc();
 
   void storeMatrixMarket(const char *fileName) const;
diff --git a/LevelSchedule.hpp b/LevelSchedule.hpp
index 43bb40d..4b4526d 100644
--- a/LevelSchedule.hpp
+++ b/LevelSchedule.hpp
@@ -153,6 +153,8 @@ class LevelSchedule
 public :
   LevelSchedule();
   virtual ~LevelSchedule();
+  LevelSchedule(const LevelSchedule&) = delete; // owns its arrays
+  LevelSchedule& operator=(const LevelSchedule&) = delete;
 
   short *nparentsForward, *nparentsBackward;
   int ntasks;
@@ -260,6 +262,8 @@ class FusedGSAndSpMVSchedule
 public :
   FusedGSAndSpMVSchedule(LevelSchedule *schedule);
   ~FusedGSAndSpMVSchedule();
+  FusedGSAndSpMVSchedule(const FusedGSAndSpMVSchedule&) = delete; // owns its arrays
+  FusedGSAndSpMVSchedule& operator=(const FusedGSAndSpMVSchedule&) = delete;
 
   short *nparents; // number of parent GS tasks of each SpMV task
   int **parents;
-- 
2.43.0


From a0bafd5092745bad2bb2854d5effbb8c5f51511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 37/45] fix: copies of a memory pool share its buffer, which is
 then freed twice

---
 MemoryPool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MemoryPool.hpp b/MemoryPool.hpp
index 3923f7c..1b3b2d2 100644
--- a/MemoryPool.hpp
+++ b/MemoryPool.hpp
@@ -56,6 +56,8 @@ public :
   MemoryPool();
   MemoryPool(size_t sz);
   ~MemoryPool();
+  MemoryPool(const MemoryPool&) = delete; // owns its buffer
+  MemoryPool& operator=(const MemoryPool&) = delete;
 
   void initialize(size_t sz);
   void finalize();
-- 
2.43.0


From 7d44c849699faeea9ea23d31c4984f939eb04757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 38/45] fix: initializing a memory pool again leaks its buffer

---
 MemoryPool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..188bf70 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -41,7 +41,7 @@ MemoryPool::MemoryPool() : size_(0), head_(0), tail_(0), buffer_(NULL)
 {
 }
 
-MemoryPool::MemoryPool(size_t sz)
+MemoryPool::MemoryPool(size_t sz) : size_(0), head_(0), tail_(0), buffer_(NULL)
 {
   initialize(sz);
 }
@@ -53,6 +53,8 @@ MemoryPool::~MemoryPool()
 
 void MemoryPool::initialize(size_t sz)
 {
+  finalize();
+
   size_ = sz;
   head_ = 0;
   tail_ = 0;
-- 
2.43.0


From 4cfe6c69e62736f2d428f94be5708c15818a13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:46 +0000
Subject: [PATCH 39/45] fix: copies of barriers and bit vectors share their
 memory, which is then freed twice

---
 reordering/BitVector.hpp | 3 +++
 synk/synk.hpp            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/reordering/BitVector.hpp b/reordering/BitVector.hpp
index 0349912..ef79a19 100644
--- a/reordering/BitVector.hpp
+++ b/reordering/BitVector.hpp
@@ -43,6 +43,9 @@ public :
 
   ~BitVector() { delete[] bv_; }
 
+  BitVector(const BitVector&) = delete; // owns its bits
+  BitVector& operator=(const BitVector&) = delete;
+
   void set(int i) {
     bv_[getIndexOf_(i)] |= getMaskOf_(i);
   }
diff --git a/synk/synk.hpp b/synk/synk.hpp
index d099dc4..f81f6be 100644
--- a/synk/synk.hpp
+++ b/synk/synk.hpp
@@ -44,6 +44,8 @@ class Synk {
 public:
     Synk(int numCores, int numThreadsPerCore);
     virtual ~Synk() = 0;
+    Synk(const Synk&) = delete; // owns its synchronization data
+    Synk& operator=(const Synk&) = delete;
 
     virtual void init(int tid) {}
 
-- 
2.43.0


From 3bec6d16679b6e1f3c137bfe165ff301b993306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 40/45] fix: permuting a matrix without values or without a row
 permutation must not touch them

---
 Permute.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 896f636..368d119 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -34,7 +34,7 @@ namespace SpMP
 
 void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 {
-  assert(isPerm(inversePerm, m));
+  assert(!inversePerm || isPerm(inversePerm, m));
 
   int base = getBase();
 
@@ -309,7 +309,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
@@ -319,17 +319,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            double v = newValues ? newValues[j] : 0;
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (newValues) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (newValues) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From a32062e3e9a952c7a7473c8a64faa1f658fc2145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 41/45] fix: failed writes to matrix files go unnoticed

---
 CSR.cpp   | 12 ++++++++++--
 mm_io.cpp |  5 +++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 71e9ecf..96e2f00 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -347,7 +347,11 @@ void CSR::storeMatrixMarket(const char *fileName) const
     }
   }
 
-  fclose(fp);
+  int failed = ferror(fp);
+  failed |= fclose(fp);
+  if (failed) {
+    fprintf(stderr, "Failed to write %s\n", fileName);
+  }
 }
 
 static const int MAT_FILE_CLASSID = 1211216;
@@ -464,7 +468,11 @@ void CSR::storeBin(const char *fileName)
   fwrite(colidx, sizeof(colidx[0]), nnz, fp);
   fwrite(values, sizeof(values[0]), nnz, fp);
 
-  fclose(fp);
+  int failed = ferror(fp);
+  failed |= fclose(fp);
+  if (failed) {
+    fprintf(stderr, "Failed to write %s\n", fileName);
+  }
 
   if (was1Based) {
     make1BasedIndexing();
diff --git a/mm_io.cpp b/mm_io.cpp
index 5d024fc..839b947 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -769,11 +769,12 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
         return MM_UNSUPPORTED_TYPE;
     }
 
+  int failed = ferror(f);
   if ( f !=stdout ) 
   {
-    fclose(f);
+    failed |= fclose(f);
   }
-  return 0;
+  return failed ? MM_COULD_NOT_WRITE_FILE : 0;
 }
 /******************************************************************************/
 
-- 
2.43.0


From fe2e3a502918b8f03f756ee33020240f4ead10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 42/45] fix: sizes in matrix files that overflow or are
 negative reach memory allocation

---
 COO.cpp    |  3 ++-
 CSR.cpp    |  2 +-
 Vector.cpp | 23 ++++++++++++++---------
 mm_io.cpp  | 19 +++++++++++++++----
 4 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index b8a753f..212f427 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -22,6 +22,7 @@ ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
 SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
+#include <climits>
 #include <cstring>
 #include <algorithm>
 
@@ -208,7 +209,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
-  if (m < 0 || n < 0 || nnz < 0) {
+  if (m < 0 || n < 0 || nnz < 0 || m > INT_MAX - pad || n > INT_MAX - pad) {
     fprintf(stderr, "Error: invalid matrix size (%d %d %d).\n", m, n, nnz);
     fclose(fp);
     return false;
diff --git a/CSR.cpp b/CSR.cpp
index 96e2f00..52689a8 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -379,7 +379,7 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
   if (fread(&mInFile, sizeof(mInFile), 1, fp) != 1 ||
       fread(&nInFile, sizeof(nInFile), 1, fp) != 1 ||
       fread(&nnz, sizeof(nnz), 1, fp) != 1 ||
-      mInFile < 0 || nInFile < 0 || nnz < 0) {
+      mInFile < 0 || mInFile == INT_MAX || nInFile < 0 || nnz < 0) {
     fprintf(stderr, "Invalid matrix size in %s\n", file_name);
     fclose(fp);
     return;
diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..0219d77 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -40,23 +40,28 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  *v = MALLOC(double, (*m)*(*n));
+  if (*m < 0 || *n < 0) {
+    fprintf(stderr, "Error: invalid array size (%d %d).\n", *m, *n);
+    fclose(fp);
+    return false;
+  }
+
+  *v = MALLOC(double, (size_t)*m*(*n));
+  if (!*v) {
+    fprintf(stderr, "Failed to allocate memory\n");
+    fclose(fp);
+    return false;
+  }
 
   for (int i = 0; i < *m; i++) {
-    for (int j = 0; j < *n - 1; j++) {
-      if (fscanf(fp, "%lg", *v + i*(*n) + j) != 1) {
+    for (int j = 0; j < *n; j++) {
+      if (fscanf(fp, "%lg", *v + (size_t)i*(*n) + j) != 1) {
         fprintf(stderr, "Error: premature EOF.\n");
         FREE(*v);
         fclose(fp);
         return false;
       }
     }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
-      fprintf(stderr, "Error: premature EOF.\n");
-      FREE(*v);
-      fclose(fp);
-      return false;
-    }
   }
 
   fclose(fp);
diff --git a/mm_io.cpp b/mm_io.cpp
index 839b947..2952231 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -272,15 +272,19 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
             ret_code = mm_read_mtx_crd_size(f, M, N, nz);
     }
 
+    if (ret_code == 0 && *nz < 0)
+        ret_code = MM_NOT_MTX;
+
     if (ret_code == 0)
     {
-        *I = (int *)  malloc(*nz * sizeof(int));
-        *J = (int *)  malloc(*nz * sizeof(int));
+        size_t count = *nz;
+        *I = (int *)  malloc(count * sizeof(int));
+        *J = (int *)  malloc(count * sizeof(int));
 
         if (mm_is_complex(*matcode))
-            *val = (double *) malloc(*nz * 2 * sizeof(double));
+            *val = (double *) malloc(count * 2 * sizeof(double));
         else if (mm_is_real(*matcode))
-            *val = (double *) malloc(*nz * sizeof(double));
+            *val = (double *) malloc(count * sizeof(double));
 
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
@@ -525,6 +529,13 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
         return -1;
     }
  
+    if (nz < 0)
+    {
+        fprintf(stderr, "read_unsymmetric_sparse(): invalid matrix size.\n");
+        fclose(f);
+        return -1;
+    }
+
     *M_ = M;
     *N_ = N;
     *nz_ = nz;
-- 
2.43.0


From 936b4015ea9e91a52e33d2a0aba44056323fc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 43/45] fix: room for the prefix sums of all threads in reverse
 Cuthill-McKee

---
 reordering/RCM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 24fb4e6..dea40d4 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -691,7 +691,8 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
 
   bfsAuxData aux(m);
   volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*PAR_THR, m) + 1];
+  // PAR_THR + 1 per thread for small components, or m + 1 for a large one
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 1)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From 2195c16c570471dc6f2e733b510301e306150723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 44/45] fix: room for the row pointers of a breadth-first
 search in a matrix with a single row

---
 reordering/BFSBipartite.cpp | 2 +-
 reordering/RCM.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 18a5e15..cce4698 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -461,7 +461,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1]; // the source needs 2 even if m == 1
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index dea40d4..ffa0697 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -184,7 +184,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1]; // the source needs 2 even if m == 1
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From 261d52386c2ce822048e8e4fa1bb37db701a7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 45/45] fix: getBFSPermutation of a matrix without rows
 accesses nothing

---
 reordering/RCM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index ffa0697..601ab2f 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -980,6 +980,8 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
   }
   assert(isSymmetric(false)); // check structural symmetry
 
+  if (0 == m) return;
+
   BitVector bv(m);
 
   bfsAuxData aux(m);
-- 
2.43.0

