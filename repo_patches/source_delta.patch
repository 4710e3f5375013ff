From a8a43b7df4d921a5d86624c972998d2757212eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 01/51] fix: normalize OrthogonalPolynomial::Derivative of
 order 1

---
 MParT/OrthogonalPolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..740842d 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,7 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            return normalize_ ? this->phi1_deriv(x) / this->Normalization(order) : this->phi1_deriv(x);
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From d9d0300ab56ac1f4f7db086ea7de65a28b679309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 02/51] fix: compute factorials in double so that
 normalizations are right beyond order 12

---
 MParT/Utilities/MathFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..45be87b 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -7,9 +7,9 @@
 namespace mpart{
 
     /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1.0;
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From 0b3941ff91f962bb367eded94a309a9922cb1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 03/51] fix: HermiteFunction::SecondDerivative used the wrong
 order

---
 MParT/HermiteFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/HermiteFunction.h b/MParT/HermiteFunction.h
index 48ed224..0b0d84a 100644
--- a/MParT/HermiteFunction.h
+++ b/MParT/HermiteFunction.h
@@ -137,7 +137,7 @@ public:
         if(order<2){
             return 0;
         }else{
-            return -(2.0*order+1.0-x*x)*Evaluate(order-2, x);
+            return -(2.0*(order-2.0)+1.0-x*x)*Evaluate(order, x);
         }
     }
 
-- 
2.43.0


From 6830bdeb00bbdc426e1031454bc70d3e9f645ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 04/51] fix: include the nugget in MonotoneComponent evaluation
 and continuous derivative

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..873a2e2 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
@@ -520,7 +520,7 @@ public:
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
                 // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From 6009a09c06c8cbb0428e63c004af9de8b670b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 05/51] fix: keep SoftPlus positive and accurate for very
 negative arguments

---
 MParT/PositiveBijectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 51fd713..9d72f04 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
@@ -26,7 +26,7 @@ public:
     }
 
     KOKKOS_INLINE_FUNCTION static double Inverse(double x){
-        return std::fmin(std::log(std::exp(x) - 1.0), x);
+        return std::fmin(std::log(std::expm1(x)), x);
     }
 
 };
-- 
2.43.0


From 93fd1dd502ef19c45681ea0e9662a73a0832182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 06/51] fix: do not read an initial guess from an empty x1 in
 MonotoneComponent::InverseImpl

---
 MParT/MonotoneComponent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 873a2e2..dbaa76e 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -432,7 +432,7 @@ public:
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, (pt.extent(0)>0) ? pt(pt.extent(0)-1) : 0.0, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From b4c5853a3013e8cf8ad0d998a3d62d7dd2fcfaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 07/51] fix: AffineMap::LogDeterminantInputGradImpl must fill
 its output

---
 src/AffineMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..1961a3c 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -175,7 +175,8 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant of an affine map does not depend on the input
+    Kokkos::deep_copy(output, 0.0);
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 490b4cf9b19283f17034b200a60662f771576714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 08/51] fix: coefficient gradients of IdentityMap are empty,
 not an abort

---
 src/IdentityMap.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 01c6297..63b5f4a 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -53,7 +53,8 @@ void IdentityMap<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
                                                StridedMatrix<const double, MemorySpace> const& sens,
                                                StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // An identity map has no coefficients, so there is nothing to compute
+    return;
 }
 
 template<typename MemorySpace>
@@ -80,7 +81,8 @@ template<typename MemorySpace>
 void IdentityMap<MemorySpace>::LogDeterminantCoeffGradImpl(StridedMatrix<const double, MemorySpace> const& pts, 
                                                              StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // An identity map has no coefficients, so there is nothing to compute
+    return;
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From ef7cdfc2159236246754560f07f9d44638996531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 09/51] fix: MonotoneComponent::DiscreteMixedJacobian must
 overwrite its output

---
 MParT/MonotoneComponent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index dbaa76e..683398b 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -969,7 +969,7 @@ public:
 
                 // Add the Integral to the coefficient gradient
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From ca0958a5f3f27970bcaa0cb86f4b66633b86e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 10/51] fix: dgemm with beta=0 must not read the previous
 content of C

---
 src/Utilities/LinearAlgebra.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 157cf9a..55a4736 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -18,20 +18,27 @@ void mpart::dgemm(double                                     alpha,
     auto eigB = ConstKokkosToMat<double>(B.view);
     auto eigA = ConstKokkosToMat<double>(A.view);
 
+    Eigen::MatrixXd prod;
     if(A.isTransposed){
         if(B.isTransposed){
-            eigC = (beta*eigC + alpha* eigA.transpose() * eigB.transpose() ).eval();
+            prod = alpha * eigA.transpose() * eigB.transpose();
         }else{
-            eigC = (beta*eigC + alpha* eigA.transpose() * eigB ).eval();
+            prod = alpha * eigA.transpose() * eigB;
         }
     }else{
         if(B.isTransposed){
-            eigC = (beta*eigC + alpha* eigA * eigB.transpose() ).eval();
+            prod = alpha * eigA * eigB.transpose();
         }else{
-            eigC = (beta*eigC + alpha* eigA * eigB ).eval();
+            prod = alpha * eigA * eigB;
         }
     }
 
+    // As in BLAS, the previous content of C is not read when beta is zero
+    if(beta==0.0){
+        eigC = prod;
+    }else{
+        eigC = (beta*eigC + prod).eval();
+    }
 }
 
 
-- 
2.43.0


From 35e7eabb2e30bcbde6f7c3355ab78c8e6baaff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 11/51] fix: PullbackDensity::LogDensityCoeffGrad on Eigen
 matrices returned the input gradient

---
 src/Distributions/PullbackDensity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..6f5d0f2 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,11 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
-    // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    // Call the LogDensityCoeffGrad function
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From af34ba6d078495689eda54e458f51de94bf4d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 12/51] fix: MultiIndex::Get and Set accept only indices below
 the length

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From ecae2712d791608f19d399309009bf0f04d8220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 13/51] fix: FixedMultiIndexSet::MultiToIndex and Print looped
 past the last term

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..7ece9f5 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,7 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        for(unsigned int i=0; i<Size(); ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
@@ -282,7 +282,7 @@ void FixedMultiIndexSet<MemorySpace>::Print() const
 
     std::cout << "\nMultis:\n";
     std::vector<unsigned int> multi;
-    for(unsigned int term=0; term<nzStarts.extent(0)-1; ++term){
+    for(unsigned int term=0; term<Size(); ++term){
         multi = IndexToMulti(term);
 
         for(auto& m : multi)
-- 
2.43.0


From e4b0ff2bc7738b476cab1b60679eee33464ea315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 14/51] fix: do not iterate over edge sets that forced
 activation may move

---
 src/MultiIndices/MultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..51effd6 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -707,7 +707,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   unsigned int globalIndex = active2global.at(activeIndex);
 
   // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  std::set<int> tempSet = outEdges.at(globalIndex); // copy, because activating terms can change or move the edges
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -726,7 +726,7 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     newIndices.push_back(global2active.at(globalIndex));
 
     // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    std::set<int> tempSet = inEdges.at(globalIndex); // copy, because activating terms can change or move the edges
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From b7c0592f8b6615f01f8b168fa465e8e1e2f257eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 15/51] fix: MultiIndexSet::Expand() reported terms with
 several active neighbors more than once

---
 src/MultiIndices/MultiIndexSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 51effd6..f766a1f 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -692,6 +692,9 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     // Activate those terms
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
+        // The same term can be a neighbor of several terms in the frontier
+        if(IsActive(neighbor))
+            continue;
         Activate(neighbor);
         allNewInds.push_back(global2active.at(neighbor));
     }
-- 
2.43.0


From 8fc8f0e8928e4e70cac3b5655bb2807731306dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 16/51] fix: a limiter rejected by MultiIndexSet::SetLimiter
 must leave the set unchanged

---
 src/MultiIndices/MultiIndexSet.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index f766a1f..f2dd824 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,20 +181,23 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  // Make sure all active terms obey the new limiter before changing anything
+  for(auto globalInd : active2global){
+    if(!newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
-  //  If a term is inactive, remove all edges tied to it
+  //  If a term is inactive and outside the new limiter, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
 
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
-- 
2.43.0


From dda61a9aab88a79beb13bffcb0bb13dfedac0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 17/51] fix: MultiIndexSet::ReducedMargin must only contain
 terms in the limiting set with all backward neighbors active

---
 src/MultiIndices/MultiIndexSet.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index f2dd824..b165c09 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -535,18 +535,9 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
 
   for(unsigned int globalInd=0; globalInd<global2active.size(); ++globalInd){
 
-    // If this is an inactive multiindex
-    if(!IsActive(globalInd)){
-
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
-        output.push_back(allMultis.at(globalInd));
-
-    }
+    // If this is an inactive multiindex that the limiter allows and whose backward neighbors are all active
+    if(!IsActive(globalInd) && IsAdmissible(globalInd))
+      output.push_back(allMultis.at(globalInd));
   }
 
   return output;
-- 
2.43.0


From e01223bb62c1b3317c6146bed235dc65187ef694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 18/51] fix: ConstRowMatToKokkos and ConstColMatToKokkos
 ignored the outer stride

---
 MParT/Utilities/ArrayConversions.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..b2fbcaa 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -428,16 +428,17 @@ namespace mpart{
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.outerStride(), ref.cols(), ref.innerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     /** @brief Converts a 1d Eigen::Ref of a vector to an unmanaged Kokkos view.
-- 
2.43.0


From 6efd380131edb850cec323d405a8d32010545dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 19/51] fix: TriangularMap::save wrote its components twice, so
 that loading read past them

---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..39a9e1f 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -126,7 +126,7 @@ public:
     template<class Archive>
     void save(Archive & ar) const
     {
-        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
+        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this));
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
         ar(comps_, moveCoeffs);
-- 
2.43.0


From 0fc6eb89c6575ddace8ef6cd01b56d2ad4c9eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 20/51] fix: SetCoeffs accepted a vector of the wrong length on
 a map without coefficients

---
 src/ParameterizedFunctionBase.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..7d279d1 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,14 +187,15 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
-    if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
+    // Make sure the sizes match
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
 
+    // If coefficients already exist, reuse their memory
+    if(this->savedCoeffs.is_allocated()){
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
     }else{
-- 
2.43.0


From 952760fb05bbd7a5e04d54e8a347e127c787563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 21/51] fix: SummarizedMap assumed row-major outputs

---
 src/SummarizedMap.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 05bf632..88cab83 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -77,13 +77,13 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
 
 
     // Copy summarized pts
-    Kokkos::View<double**, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-    Kokkos::View<double**, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputAfterSummary, ptsAfterSummary);
 
 }
@@ -131,7 +131,7 @@ void SummarizedMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemoryS
     StridedMatrix<const double, MemorySpace> ptsToSummarize = Kokkos::subview(x1, std::make_pair(0, int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // // Evaluate summary function
-    Kokkos::View<double**, MemorySpace> summary = sumFunc_->Evaluate(ptsToSummarize);
+    StridedMatrix<double, MemorySpace> summary = sumFunc_->Evaluate(ptsToSummarize);
 
     // Invert map
     comp_->InverseImpl(summary, r, output);
@@ -157,17 +157,17 @@ void SummarizedMap<MemorySpace>::GradientImpl(StridedMatrix<const double, Memory
     comp_->GradientImpl(summarizedPts, sens, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // GradientImpl of summary using outputForSummary as the sens. vectors (from chain-rule)
     StridedMatrix<const double, MemorySpace>  x1 = Kokkos::subview(pts, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     sumFunc_->GradientImpl(x1, outputForSummary, outputSubX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 
 }
@@ -218,8 +218,8 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     comp_->LogDeterminantInputGradImpl(summarizedPts, outputForSummaryAndX2);
 
     // Split outputForSummaryAndX2 into summary and x2 parts
-    Kokkos::View<double**, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
-    Kokkos::View<double**, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForSummary = Kokkos::subview(outputForSummaryAndX2, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputForX2 = Kokkos::subview(outputForSummaryAndX2, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
 
     // Create a view for the gradient of comp_ wrt x_1
     Kokkos::View<double**, MemorySpace> outputForX1("outputForX1", sumFunc_->inputDim, pts.extent(1));
@@ -229,10 +229,10 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     sumFunc_->GradientImpl(x1, outputForSummary, outputForX1);
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX1, outputForX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 }
 
-- 
2.43.0


From 16e83b58ce7139672104257a5888986d4d73d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 22/51] fix: GaussianSamplerDensity required particular layouts
 of its output arrays

---
 src/Distributions/GaussianSamplerDensity.cpp | 21 ++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..869e644 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -44,10 +44,12 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityImpl(StridedMatrix<const dou
         covChol_.solveInPlaceL(diff);
     }
 
+    // The reduction needs contiguous memory, which the output might not have
+    Kokkos::View<double*, MemorySpace> quadForm("quadForm", N);
     ReduceDim<ReduceDimMap::norm,MemorySpace,0> rr(diff, -0.5);
-    Kokkos::parallel_reduce(M, rr, &output(0));
+    Kokkos::parallel_reduce(M, rr, quadForm.data());
     Kokkos::parallel_for( "log terms", N, KOKKOS_LAMBDA (const int& j) {
-        output(j) -= 0.5*( M*logtau_ + logDetCov_ );
+        output(j) = quadForm(j) - 0.5*( M*logtau_ + logDetCov_ );
     });
 }
 
@@ -73,12 +75,15 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        // The solve needs a column major layout, which the output might not have
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> sol ("sol", M, N);
+        Kokkos::deep_copy(sol, output);
+        covChol_.solveInPlace(sol);
+        Kokkos::deep_copy(output, sol);
     }
 }
 
 
-// Currently this requires that output be a LayoutLeft view
 template<typename MemorySpace>
 void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, MemorySpace> output_) {
     // Sample from the distribution
@@ -110,8 +115,8 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
     }
     // Otherwise, we assume dense covariance
     else {
-        // Enforce that the output is the correct layout!
-        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output = output_;
+        // Sample into a matrix with the correct layout!
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output ("output", M, N);
         // Sample from the standard normal
         Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
             GeneratorType rgen = rand_pool.get_state();
@@ -122,11 +127,11 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
         auto mul = covChol_.multiplyL(output);
         // Add the mean (if nonzero)
         if(mean_.extent(0) == 0){
-            Kokkos::deep_copy(output, mul);
+            Kokkos::deep_copy(output_, mul);
         }
         else {
             Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
-                output(i,j) = mul(i,j) + mean_(i);
+                output_(i,j) = mul(i,j) + mean_(i);
             });
         }
     }
-- 
2.43.0


From a2b672422cc79723af5763f4a51c300b88c53ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 23/51] fix: TrainMapAdaptive used an arbitrary term when none
 could be added and forgot the initial multi-indices

---
 src/TrainMapAdaptive.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..b685a87 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -3,16 +3,18 @@
 
 using namespace mpart;
 
-void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
+bool findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
     std::vector<MultiIndexSet> const &msets, unsigned int &maxIdx, unsigned int &maxIdxBlock) {
     unsigned int outputDim = multis_rm.size();
+    bool found = false;
     double maxVal = 0.;
     unsigned int blockStart = 0;
     for(int output = 0; output < outputDim; output++) {
         for(int i = 0; i < multis_rm[output].size(); i++) {
             unsigned int idx = multis_rm[output][i];
             double gradVal = std::abs(gradCoeff(blockStart + idx));
-            if(gradVal > maxVal) {
+            if(!found || gradVal > maxVal) {
+                found = true;
                 maxVal = gradVal;
                 maxIdx = idx;
                 maxIdxBlock = output;
@@ -20,6 +22,7 @@ void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std:
         }
         blockStart += msets[output].Size();
     }
+    return found;
 }
 
 void maxDegreeRMFilter(std::vector<MultiIndexSet> const &msets, MultiIndex const &maxDegrees,
@@ -88,7 +91,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j);
 
         // Index global constants
         currMsetDim++;
@@ -150,7 +153,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +176,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
@@ -190,7 +193,10 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
         unsigned int maxIdx, maxIdxBlock;
-        findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(!findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock)) {
+            // No term can be added without violating the limits
+            break;
+        }
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0


From 18a87f07f52eadc5e8eaaf1854de62ee980dadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 24/51] fix: TrainMapAdaptive dropped the trained coefficients
 of the component it enlarged

---
 src/TrainMapAdaptive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index b685a87..1cee52e 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -219,6 +219,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         Kokkos::View<double*, Kokkos::HostSpace> newCoeffs ("New component coefficients", newComp->numCoeffs);
         std::copy(oldCoeffs.data(), oldCoeffs.data() + mset_sizes[maxIdxBlock], newCoeffs.data());
         newCoeffs(mset_sizes[maxIdxBlock]) = 0.;
+        newComp->SetCoeffs(newCoeffs);
         mapBlocks[maxIdxBlock] = newComp;
         mset_sizes[maxIdxBlock]++;
         map = std::make_shared<TriangularMap<Kokkos::HostSpace>>(mapBlocks, true);
-- 
2.43.0


From c6c32019e2e9eaa7426ff1fbc9c8760caba21aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 25/51] fix: TrainMapAdaptive dropped the coefficients of the
 best map it found

---
 src/TrainMapAdaptive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 1cee52e..b84bb33 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -131,6 +131,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
     }
     TrainMap(map, objective, options);
     double bestError = objective->TestError(map);
+    std::vector<double> bestCoeffs = KokkosToStd(map->Coeffs());
 
     if(options.verbose) {
         std::cout << "Initial map test error: " << bestError << std::endl;
@@ -233,6 +234,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         currPatience++;
         if(test_error < bestError) {
             bestError = test_error;
+            bestCoeffs = KokkosToStd(map->Coeffs());
             for(int i = 0; i < outputDim; i++) {
                 mset_best[i] = mset0[i];
             }
@@ -252,8 +254,10 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         mset0[i] = mset_best[i];
     }
 
-    // Create the "best" map and optimize it
+    // Create the "best" map and optimize it, starting from its best coefficients
     map = std::make_shared<TriangularMap<Kokkos::HostSpace>>(mapBlocks, true);
+    Kokkos::View<double*, Kokkos::HostSpace> bestCoeffsView = VecToKokkos<double,Kokkos::HostSpace>(bestCoeffs);
+    map->SetCoeffs(bestCoeffsView);
     if(options.verbose) {
         std::cout << "\nFinal map has " << map->numCoeffs << " terms.\n";
     }
-- 
2.43.0


From 88ccf0eab215218675a3fb5b2d14521babe115de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 26/51] fix: the last term of a dense FixedMultiIndexSet had no
 entries

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 7ece9f5..c3ba584 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -89,7 +89,7 @@ void FixedMultiIndexSet<MemorySpace>::SetupTerms()
     unsigned int numTerms = nzOrders.extent(0) / dim;
 
     nzStarts = Kokkos::View<unsigned int*, MemorySpace>("Start of a Multiindex", numTerms+1);
-    Kokkos::parallel_for(numTerms, StartSetter<MemorySpace>(nzStarts,dim));
+    Kokkos::parallel_for(numTerms+1, StartSetter<MemorySpace>(nzStarts,dim));
     Kokkos::parallel_for(dim*numTerms, DimSetter<MemorySpace>(nzDims,dim));
 }
 template<>
@@ -101,7 +101,7 @@ void FixedMultiIndexSet<Kokkos::HostSpace>::SetupTerms()
     nzStarts = Kokkos::View<unsigned int*, Kokkos::HostSpace>("Start of a Multiindex", numTerms+1);
     {
     StartSetter<Kokkos::HostSpace> functor(nzStarts,dim);
-    for(unsigned int i=0; i<numTerms; ++i)
+    for(unsigned int i=0; i<numTerms+1; ++i)
         functor(i);
     }
     {
-- 
2.43.0


From be0fe3ed848d8e62811c39c0981487f6bde23fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 27/51] fix: dense and compressed multi-index sets must define
 the same expansion

---
 MParT/MultivariateExpansionWorker.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/MParT/MultivariateExpansionWorker.h b/MParT/MultivariateExpansionWorker.h
index 0862e9b..628e6e4 100644
--- a/MParT/MultivariateExpansionWorker.h
+++ b/MParT/MultivariateExpansionWorker.h
@@ -201,8 +201,10 @@ public:
         {
             // Compute the value of this term in the expansion
             double termVal = 1.0;
-            for(unsigned int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i)
-                    termVal *= polyCache[startPos_(multiSet_.nzDims(i)) + multiSet_.nzOrders(i)];
+            for(unsigned int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i){
+                if(multiSet_.nzOrders(i)==0) continue;
+                termVal *= polyCache[startPos_(multiSet_.nzDims(i)) + multiSet_.nzOrders(i)];
+            }
 
             output += termVal*coeffs(termInd);
         }
@@ -236,6 +238,7 @@ public:
             double termVal = 1.0;
             bool hasDeriv = false;
             for(unsigned int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i){
+                if(multiSet_.nzOrders(i)==0) continue;
                 if(multiSet_.nzDims(i)==dim_-1){
                     termVal *= polyCache[startPos_(posIndex) + multiSet_.nzOrders(i)];
                     hasDeriv = true;
@@ -276,8 +279,10 @@ public:
         {
             // Compute the value of this term in the expansion
             double termVal = 1.0;
-            for(unsigned int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i)
-                    termVal *= polyCache[startPos_(multiSet_.nzDims(i)) + multiSet_.nzOrders(i)];
+            for(unsigned int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i){
+                if(multiSet_.nzOrders(i)==0) continue;
+                termVal *= polyCache[startPos_(multiSet_.nzDims(i)) + multiSet_.nzOrders(i)];
+            }
 
             f += termVal*coeffs(termInd);
             grad(termInd) = termVal;
@@ -310,6 +315,7 @@ public:
                 double termVal = 1.0;
                 bool hasDeriv = false;
                 for(int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i){
+                    if(multiSet_.nzOrders(i)==0) continue;
                     if(int(multiSet_.nzDims(i))==wrt){
                         termVal *= polyCache[startPos_(dim_+wrt) + multiSet_.nzOrders(i)];
                         hasDeriv = true;
@@ -354,6 +360,7 @@ public:
                 bool hasDeriv2 = false;
 
                 for(int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i){
+                    if(multiSet_.nzOrders(i)==0) continue;
                     if(multiSet_.nzDims(i)==dim_-1){
                         posInd = (wrt==int(dim_-1)) ? (2*dim_) : (2*dim_-1);
                         termVal *= polyCache[startPos_(posInd) + multiSet_.nzOrders(i)];
@@ -407,6 +414,7 @@ public:
             double termVal = 1.0;
             bool hasDeriv = false;
             for(unsigned int i=multiSet_.nzStarts(termInd); i<multiSet_.nzStarts(termInd+1); ++i){
+                if(multiSet_.nzOrders(i)==0) continue;
                 if(multiSet_.nzDims(i)==dim_-1){
                     termVal *= cache[startPos_(posIndex) + multiSet_.nzOrders(i)];
                     hasDeriv = true;
-- 
2.43.0


From 9a159cf11146dd659ba0f1b2b61567a2a4132556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 28/51] fix: factory components with Clenshaw-Curtis quadrature
 tripped an assertion for vector-valued integrands

---
 src/MapFactoryImpl11.cpp | 2 +-
 src/MapFactoryImpl14.cpp | 2 +-
 src/MapFactoryImpl17.cpp | 2 +-
 src/MapFactoryImpl2.cpp  | 2 +-
 src/MapFactoryImpl5.cpp  | 2 +-
 src/MapFactoryImpl8.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl11.cpp b/src/MapFactoryImpl11.cpp
index 73addff..0433821 100644
--- a/src/MapFactoryImpl11.cpp
+++ b/src/MapFactoryImpl11.cpp
@@ -17,7 +17,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl14.cpp b/src/MapFactoryImpl14.cpp
index e4f52a3..6118c6a 100644
--- a/src/MapFactoryImpl14.cpp
+++ b/src/MapFactoryImpl14.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl17.cpp b/src/MapFactoryImpl17.cpp
index 37f0471..5fbc477 100644
--- a/src/MapFactoryImpl17.cpp
+++ b/src/MapFactoryImpl17.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl2.cpp b/src/MapFactoryImpl2.cpp
index 8ecb8bc..09a0439 100644
--- a/src/MapFactoryImpl2.cpp
+++ b/src/MapFactoryImpl2.cpp
@@ -15,7 +15,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     PhysicistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl5.cpp b/src/MapFactoryImpl5.cpp
index 6240d9a..eca18c6 100644
--- a/src/MapFactoryImpl5.cpp
+++ b/src/MapFactoryImpl5.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     ProbabilistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl8.cpp b/src/MapFactoryImpl8.cpp
index dc61f5d..370cf42 100644
--- a/src/MapFactoryImpl8.cpp
+++ b/src/MapFactoryImpl8.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     HermiteFunction basis1d;
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
-- 
2.43.0


From 882274e570ebd173baf64c439faa2bdb19c78aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 29/51] fix: inverting an affine map into a block of a larger
 matrix aborted

---
 src/AffineMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 1961a3c..cd5434e 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -71,11 +71,11 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
 
     int numPts = r.extent(1);
 
-    // Make sure we work with a column major output matrix if there is a linear component
+    // Make sure we work with a contiguous column major output matrix if there is a linear component
     bool copyOut = false;
     StridedMatrix<double,MemorySpace> outLeft;
     if(A_.extent(0)>0){
-        if(output.stride_0()==1){
+        if((output.stride_0()==1)&&(output.stride_1()==output.extent(0))){
             outLeft = output;
         }else{
             outLeft = Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace>("OutLeft", output.extent(0), output.extent(1));
-- 
2.43.0


From 81492903e3d8058c60a86e840aa825d00893f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 30/51] fix: FillCache2 ignored DerivativeFlags::Mixed

MixedCoeffDerivative is documented to work on a cache filled with that flag,
but nothing was written for the last input.
---
 MParT/MultivariateExpansionWorker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MultivariateExpansionWorker.h b/MParT/MultivariateExpansionWorker.h
index 628e6e4..90eb2cd 100644
--- a/MParT/MultivariateExpansionWorker.h
+++ b/MParT/MultivariateExpansionWorker.h
@@ -180,7 +180,7 @@ public:
                                          maxDegrees_(dim_-1),               // largest basis degree
                                          xd);                               // point to evaluate at
 
-        }else if((derivType==DerivativeFlags::Diagonal2) || (derivType==DerivativeFlags::MixedInput)){
+        }else if((derivType==DerivativeFlags::Diagonal2) || (derivType==DerivativeFlags::Mixed) || (derivType==DerivativeFlags::MixedInput)){
             basis1d_.EvaluateSecondDerivatives(&polyCache[startPos_(dim_-1)],     // basis vals
                                                &polyCache[startPos_(2*dim_-1)],   // basis derivatives
                                                &polyCache[startPos_(2*dim_)],     // basis second derivatives
-- 
2.43.0


From d8028a10c59c05c6c5932674ef4aa29b54fabff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 31/51] fix: evaluating a component or expansion at zero points
 divided by zero

GetCachedRangePolicy asked for teams of zero threads.
---
 MParT/Utilities/KokkosHelpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MParT/Utilities/KokkosHelpers.h b/MParT/Utilities/KokkosHelpers.h
index 402f43f..9d0228b 100644
--- a/MParT/Utilities/KokkosHelpers.h
+++ b/MParT/Utilities/KokkosHelpers.h
@@ -19,7 +19,8 @@ namespace mpart{
         Kokkos::TeamPolicy<ExecutionSpace> policy;
         policy.set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
             
-        const unsigned int threadsPerTeam = std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag()));
+        // (at least one thread per team, also when there are no points and thus no teams)
+        const unsigned int threadsPerTeam = std::max<unsigned int>(1, std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag())));
         const unsigned int numTeams = std::ceil( double(numPts) / threadsPerTeam );
             
         policy = Kokkos::TeamPolicy<ExecutionSpace>(numTeams, threadsPerTeam).set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
-- 
2.43.0


From 2f44dfdaabad8f260595a0b922de76151ba6754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 32/51] fix: MultiIndexSet checked arguments only with
 assertions

---
 src/MultiIndices/MultiIndexSet.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index b165c09..f1384fd 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -370,8 +370,11 @@ void MultiIndexSet::Activate(MultiIndex const& multiIndex)
 {
   auto iter = multi2global.find(multiIndex);
 
-  assert(iter!=multi2global.end());
-  assert(IsAdmissible(iter->second));
+  if((iter==multi2global.end()) || !IsAdmissible(iter->second)){
+    std::stringstream msg;
+    msg << "Invalid multi-index passed to MultiIndexSet::Activate.  The multi-index, " << multiIndex << ", is not admissible.\n";
+    throw std::invalid_argument(msg.str());
+  }
 
   Activate(iter->second);
 }
@@ -585,7 +588,11 @@ std::vector<unsigned int> MultiIndexSet::BackwardNeighbors(MultiIndex const& mul
 {
   auto iter = multi2global.find(multiIndex);
 
-  assert(iter!=multi2global.end());
+  if(iter==multi2global.end()){
+    std::stringstream msg;
+    msg << "Invalid multi-index passed to MultiIndexSet::BackwardNeighbors.  The multi-index, " << multiIndex << ", is not part of the set.\n";
+    throw std::invalid_argument(msg.str());
+  }
 
   unsigned int globalInd = iter->second;
   std::vector<unsigned int> output;
@@ -698,7 +705,11 @@ std::vector<unsigned int> MultiIndexSet::Expand()
 
 std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activeIndex)
 {
-  assert(activeIndex<active2global.size());
+  if(activeIndex >= active2global.size()){
+    std::stringstream msg;
+    msg << "Invalid index passed to MultiIndexSet::ForciblyExpand.  A value of " << activeIndex << " was passed to the function, but only " << active2global.size() << " active components exist in the set.\n";
+    throw std::out_of_range(msg.str());
+  }
 
   std::vector<unsigned int> newIndices;
   unsigned int globalIndex = active2global.at(activeIndex);
@@ -732,7 +743,11 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
 
 std::vector<unsigned int> MultiIndexSet::ForciblyActivate(MultiIndex const& multiIndex){
 
-  assert(limiter(multiIndex));
+  if((multiIndex.Length()!=length) || !limiter(multiIndex)){
+    std::stringstream msg;
+    msg << "Invalid multi-index passed to MultiIndexSet::ForciblyActivate.  The multi-index, " << multiIndex << ", has the wrong length or is not allowed by the limiter.\n";
+    throw std::invalid_argument(msg.str());
+  }
 
   auto iter = multi2global.find(multiIndex);
   std::vector<unsigned int> newIndices;
-- 
2.43.0


From 7c8d649c0732e05051413dcea4a80fb74b1f572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 33/51] fix: multi-indices of the wrong length corrupted a
 MultiIndexSet

---
 src/MultiIndices/MultiIndexSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index f1384fd..b7cac32 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -249,6 +249,9 @@ int MultiIndexSet::AddMulti(MultiIndex const& newMulti)
 
 int MultiIndexSet::AddActive(MultiIndex const& newNode)
 {
+  if(newNode.Length()!=length)
+    throw std::invalid_argument("Cannot add a multi-index of length " + std::to_string(newNode.Length()) + " to a MultiIndexSet with multi-indices of length " + std::to_string(length) + ".");
+
   int globalInd = AddInactive(newNode);
 
   if(globalInd>=0){
@@ -780,6 +783,9 @@ std::vector<bool> MultiIndexSet::FilterBounded(const MultiIndex& bound) const {
 
 unsigned int MultiIndexSet::Union(const MultiIndexSet& rhs)
 {
+  if(rhs.length!=length)
+    throw std::invalid_argument("Cannot unite MultiIndexSets with multi-indices of lengths " + std::to_string(length) + " and " + std::to_string(rhs.length) + ".");
+
   int oldTerms = Size();
 
   for(unsigned int i = 0; i < rhs.allMultis.size(); ++i) {
-- 
2.43.0


From c0677539b20b748dc2b0671462f04ed5358ceb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 34/51] fix: changing the limiter of a MultiIndexSet left edges
 and terms of the old one

---
 src/MultiIndices/MultiIndexSet.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index b7cac32..b2410a7 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -199,8 +199,9 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
   {
     if(IsActive(globalInd)){
 
-      // Add any newly admissible inactive forward neighbors
+      // Add any newly admissible inactive neighbors
       AddForwardNeighbors(globalInd,true);
+      AddBackwardNeighbors(globalInd,true);
 
     }else{
 
@@ -208,6 +209,10 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
         for(int inNode : inEdges[globalInd])
           outEdges[inNode].erase(globalInd);
         inEdges[globalInd].clear();
+
+        for(int outNode : outEdges[globalInd])
+          inEdges[outNode].erase(globalInd);
+        outEdges[globalInd].clear();
       }
     }
   }
@@ -268,16 +273,17 @@ int MultiIndexSet::AddActive(MultiIndex const& newNode)
 
 int MultiIndexSet::AddInactive(MultiIndex const& newNode)
 {
+  // Terms excluded by a new limiter can still be stored
+  if(!limiter(newNode))
+    return -1;
+
   auto iter = multi2global.find(newNode);
 
   if(iter!=multi2global.end()){
     return iter->second;
 
-  }else if(limiter(newNode)){
-    return AddMulti(newNode);
-
   }else{
-    return -1;
+    return AddMulti(newNode);
   }
 }
 
-- 
2.43.0


From 24e8207ad641aa67b2ac96167ed82c083d122780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 35/51] fix: FixedMultiIndexSet::IndexToMulti read out of
 bounds

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c3ba584..80a1743 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -2,6 +2,8 @@
 
 #include "MParT/Utilities/ArrayConversions.h"
 #include <stdio.h>
+#include <stdexcept>
+#include <string>
 
 using namespace mpart;
 
@@ -192,6 +194,9 @@ std::vector<unsigned int> FixedMultiIndexSet<MemorySpace>::IndexToMulti(unsigned
 template<>
 std::vector<unsigned int> FixedMultiIndexSet<Kokkos::HostSpace>::IndexToMulti(unsigned int index) const
 {
+    if(index>=Size())
+        throw std::out_of_range("Tried to access multi-index " + std::to_string(index) + " of a FixedMultiIndexSet with only " + std::to_string(Size()) + " terms.");
+
     std::vector<unsigned int> output(dim,0);
     if(isCompressed){
         for(unsigned int i=nzStarts(index); i<nzStarts(index+1); ++i){
-- 
2.43.0


From a98e141bbdfd7337e7598e07bdc0772a0b04bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 36/51] fix: converting Kokkos views to Eigen wrote past the
 end of the local array of strides

---
 MParT/Utilities/ArrayConversions.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index b2fbcaa..0d1b555 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -528,8 +528,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>> KokkosToVec(Kokkos::View<ScalarType*, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t stride;
-        view.stride(&stride);
+        size_t stride = view.stride_0();
         return Eigen::Map<Eigen::Matrix<ScalarType,Eigen::Dynamic,1>, 0, Eigen::InnerStride<>>(view.data(), view.extent(0), Eigen::InnerStride<>(stride));
     }
 
@@ -594,24 +593,21 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> KokkosToMat(Kokkos::View<ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride_0(), view.stride_1()};
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
     }
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**,OtherTraits...>>::Type, 0, Eigen::OuterStride<>> ConstKokkosToMat(Kokkos::View<const ScalarType**,OtherTraits...> view)
     {
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride_0(), view.stride_1()};
         assert((strides[0]==1)||(strides[1]==1));
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::OuterStride<>>(view.data(), view.extent(0), view.extent(1), Eigen::OuterStride<>(std::max(strides[0],strides[1])));
     }
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> ConstKokkosToMat(Kokkos::View<const ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride_0(), view.stride_1()};
         return Eigen::Map<typename ConstViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
 
@@ -641,8 +637,7 @@ namespace mpart{
     template<typename ScalarType, typename... OtherTraits>
     inline Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> KokkosToMat(Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...> view){
 
-        size_t strides[2];
-        view.stride(strides);
+        size_t strides[2] = {view.stride_0(), view.stride_1()};
         return Eigen::Map<typename ViewToEigen<Kokkos::View<ScalarType**, Kokkos::LayoutStride, OtherTraits...>>::Type, 0, Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>>(view.data(), view.extent(0), view.extent(1), Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>(strides[0],strides[1]));
     }
 
-- 
2.43.0


From b15774fb47b7d2bd260726ac134841a2db97edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 37/51] fix: AdaptiveClenshawCurtis with given point views used
 the rule one level too low

---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..7ea68cb 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -773,7 +773,7 @@ public:
                                                                                 finePts_(finePts),
                                                                                 fineWts_(fineWts)
     {
-        const unsigned int level = std::log2(coarsePts.extent(0)-2);
+        const unsigned int level = std::log2(coarsePts.extent(0)-1);
         assert(std::pow(2,level)+1 >=3);
 
         ClenshawCurtisQuadrature<MemorySpace>::GetRule(std::pow(2,level)+1,  coarseWts_.data(), coarsePts_.data());
-- 
2.43.0


From 89150647ad1b75184aec11f3f7869a1547fd8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 38/51] fix: saving a block of a larger matrix wrote the wrong
 numbers

The matrix was written as m*n consecutive numbers starting at its first entry,
also when its columns (or rows) are not adjacent in memory.
---
 MParT/Utilities/Serialization.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MParT/Utilities/Serialization.h b/MParT/Utilities/Serialization.h
index bd70476..7fed1e6 100644
--- a/MParT/Utilities/Serialization.h
+++ b/MParT/Utilities/Serialization.h
@@ -63,6 +63,11 @@ namespace cereal {
 
         if((m>0)&&(n>0)){
             Kokkos::View<ScalarType**,Traits...> mat_h = mat;
+            if(!mat_h.span_is_contiguous()){
+                // The matrix is a block of a larger one, copy it to contiguous memory
+                mat_h = Kokkos::View<ScalarType**,Traits...>(name, m, n);
+                Kokkos::deep_copy(mat_h, mat);
+            }
             ar(binary_data(mat_h.data(), m * n * sizeof(ScalarType)));
         }
     }
-- 
2.43.0


From 277d02e0ff2602913d0c66a59114020aacd12efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 39/51] fix: the Gaussian log density overflowed with the
 determinant of the covariance

The determinant of a covariance in tens of dimensions easily leaves the range
of a double, which made every log density infinite.  Sum the logarithms of the
diagonal of the Cholesky factor instead.
---
 MParT/Distributions/GaussianSamplerDensity.h |  2 +-
 MParT/Utilities/LinearAlgebra.h              |  3 +++
 src/Utilities/LinearAlgebra.cpp              | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..219deba 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -75,7 +75,7 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
         covChol_.compute(Cov);
-        logDetCov_ = std::log(covChol_.determinant());
+        logDetCov_ = covChol_.logDeterminant();
     }
 
     private:
diff --git a/MParT/Utilities/LinearAlgebra.h b/MParT/Utilities/LinearAlgebra.h
index 9f549e3..6856367 100644
--- a/MParT/Utilities/LinearAlgebra.h
+++ b/MParT/Utilities/LinearAlgebra.h
@@ -352,6 +352,9 @@ public:
     /** Returns the determinant of the matrix A based on its LU factorization. */
     double determinant() const;
 
+    /** Returns the logarithm of the determinant of the matrix A, which is finite even if the determinant itself over- or underflows. */
+    double logDeterminant() const;
+
 private:
 
     bool isComputed;
diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 55a4736..6dd662d 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -131,6 +131,13 @@ double Cholesky<Kokkos::HostSpace>::determinant() const
     return sqrt_det*sqrt_det;
 }
 
+template<>
+double Cholesky<Kokkos::HostSpace>::logDeterminant() const
+{
+    assert(isComputed);
+    return 2.0*cholSolver_->matrixLLT().diagonal().array().log().sum();
+}
+
 #if defined(MPART_ENABLE_GPU)
 
 template<>
@@ -486,6 +493,17 @@ double Cholesky<mpart::DeviceSpace>::determinant() const
     return det*det;
 }
 
+template<>
+double Cholesky<mpart::DeviceSpace>::logDeterminant() const
+{
+    assert(isComputed);
+    double logDet = 0.0;
+    Kokkos::parallel_reduce(LLT_.extent(0), KOKKOS_CLASS_LAMBDA (const int& i, double& lsum) {
+        lsum += log(LLT_(i,i));
+    },logDet);
+    return 2.0*logDet;
+}
+
 
 template struct mpart::PartialPivLU<mpart::DeviceSpace>;
 template struct mpart::Cholesky<mpart::DeviceSpace>;
-- 
2.43.0


From 25f46e48bb98066ebd203fa99d9053187ed9a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 40/51] fix: GaussianSamplerDensity aborted on covariances that
 are not column major

---
 MParT/Distributions/GaussianSamplerDensity.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index 219deba..efb0f52 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,10 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        // The factorization needs a column major layout, which the covariance might not have
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> CovCopy ("covariance", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(CovCopy, Cov);
+        covChol_.compute(CovCopy);
         logDetCov_ = covChol_.logDeterminant();
     }
 
-- 
2.43.0


From 5714744051dab8702dc7443c2b9bfdec701b8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 41/51] fix: TransportDistributionFactory.h did not compile

Distribution takes the memory space as its only template argument.
---
 MParT/Distributions/TransportDistributionFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/TransportDistributionFactory.h b/MParT/Distributions/TransportDistributionFactory.h
index 098e47d..191ede9 100644
--- a/MParT/Distributions/TransportDistributionFactory.h
+++ b/MParT/Distributions/TransportDistributionFactory.h
@@ -10,9 +10,9 @@
 namespace mpart {
 
     template<typename MemorySpace>
-    using PullbackDistribution = Distribution<PullbackDensity<MemorySpace>, PullbackSampler<MemorySpace>>;
+    using PullbackDistribution = Distribution<MemorySpace>;
     template<typename MemorySpace>
-    using PushforwardDistribution = Distribution<PushforwardDensity<MemorySpace>, PushforwardSampler<MemorySpace>>;
+    using PushforwardDistribution = Distribution<MemorySpace>;
 
     template<typename MemorySpace>
     std::shared_ptr<PullbackDistribution<MemorySpace>> CreatePullback(std::shared_ptr<ConditionalMapBase<MemorySpace>> map, std::shared_ptr<Distribution<MemorySpace>> reference) {
-- 
2.43.0


From f4fc0bc0af4b6c122367a57511fe8d6c391b85fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 42/51] fix: KLObjective wrote gradients to the wrong places of
 strided vectors

The reduction wrote numCoeffs consecutive numbers starting at the vector's
first entry, whatever its stride.
---
 src/MapObjective.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index d11123d..d9b1649 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -60,7 +60,10 @@ double KLObjective<MemorySpace>::ObjectivePlusCoeffGradImpl(StridedMatrix<const
         sum -= densityX(i);
     }, sumDensity);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous memory, which the gradient might not have
+    Kokkos::View<double*, MemorySpace> gradSum("gradSum", grad.extent(0));
+    Kokkos::parallel_reduce(N_samps, rc, gradSum.data());
+    Kokkos::deep_copy(grad, gradSum);
     return sumDensity/N_samps;
 }
 
@@ -82,7 +85,10 @@ void KLObjective<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
     PullbackDensity<MemorySpace> pullback {map, density_};
     StridedMatrix<double, MemorySpace> densityGradX = pullback.LogDensityCoeffGrad(data);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous memory, which the gradient might not have
+    Kokkos::View<double*, MemorySpace> gradSum("gradSum", grad.extent(0));
+    Kokkos::parallel_reduce(N_samps, rc, gradSum.data());
+    Kokkos::deep_copy(grad, gradSum);
 }
 
 // Explicit template instantiation
-- 
2.43.0


From 45b1069bda38cba4bf2bdb18b55a98180c6c7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 43/51] fix: TrainMap left worse coefficients than the initial
 ones when NLopt failed or was stopped early

---
 src/TrainMap.cpp | 50 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/TrainMap.cpp b/src/TrainMap.cpp
index db177a0..f322ce3 100644
--- a/src/TrainMap.cpp
+++ b/src/TrainMap.cpp
@@ -70,21 +70,55 @@ double mpart::TrainMap(std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> ma
     }
     nlopt::opt opt = SetupOptimization(map->numCoeffs, options);
 
-    // Since objective is (rightfully) separate from the map, we use std::bind to create a functor
+    // Get the initial guess at the coefficients
+    std::vector<double> mapCoeffsStd = KokkosToStd(map->Coeffs());
+
+    // When NLopt fails (and for some algorithms when it is stopped early) the coefficients it gives back are not
+    // the best ones it has tried, so these are tracked here.
+    double bestError = std::numeric_limits<double>::infinity();
+    std::vector<double> bestCoeffs = mapCoeffsStd;
+    bool objectiveThrew = false;
+
+    // Since objective is (rightfully) separate from the map, we create a functor
     // from objective::operator() that keeps the map argument held.
-    std::function<double(unsigned, const double*, double*)> functor = std::bind(&MapObjective<Kokkos::HostSpace>::operator(), objective, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, map);
+    std::function<double(unsigned, const double*, double*)> functor = [&](unsigned n, const double* x, double* grad) {
+        objectiveThrew = true;
+        double val = (*objective)(n, x, grad, map);
+        objectiveThrew = false;
+        if(val < bestError) {
+            bestError = val;
+            bestCoeffs.assign(x, x+n);
+        }
+        return val;
+    };
     opt.set_min_objective(functor_wrapper, reinterpret_cast<void*>(&functor));
 
-    // Get the initial guess at the coefficients
-    std::vector<double> mapCoeffsStd = KokkosToStd(map->Coeffs());
+    auto setBestCoeffs = [&]() {
+        Kokkos::View<double*, Kokkos::HostSpace> mapCoeffsView = VecToKokkos<double,Kokkos::HostSpace>(bestCoeffs);
+        map->SetCoeffs(mapCoeffsView);
+    };
 
-    // Optimize the map coefficients using NLopt
+    // Optimize the map coefficients using NLopt, whose C++ interface throws on failure
     double error;
-    nlopt::result res = opt.optimize(mapCoeffsStd, error);
+    nlopt::result res;
+    try {
+        res = opt.optimize(mapCoeffsStd, error);
+    } catch(nlopt::roundoff_limited const&) {
+        res = nlopt::ROUNDOFF_LIMITED;
+    } catch(std::runtime_error const&) {
+        res = nlopt::FAILURE;
+        if(objectiveThrew) {
+            setBestCoeffs();
+            throw;
+        }
+    } catch(...) {
+        setBestCoeffs();
+        throw;
+    }
 
     // Set the coefficients using SetCoeffs
-    Kokkos::View<double*, Kokkos::HostSpace> mapCoeffsView = VecToKokkos<double,Kokkos::HostSpace>(mapCoeffsStd);
-    map->SetCoeffs(mapCoeffsView);
+    setBestCoeffs();
+    error = bestError;
 
     // Print a warning if something goes wrong with NLOpt
     if(res < 0) {
-- 
2.43.0


From 644a094ac8d320cee53d45d02d010a35b914631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 44/51] fix: map calls with the wrong number of rows or columns
 read out of bounds

---
 MParT/MonotoneComponent.h         |  5 +++++
 MParT/ParameterizedFunctionBase.h |  6 ++++++
 src/ConditionalMapBase.cpp        |  5 +++++
 src/ParameterizedFunctionBase.cpp | 30 ++++++++++++++++++++++++++++++
 src/SummarizedMap.cpp             |  6 ++++++
 src/TriangularMap.cpp             |  6 ++++++
 6 files changed, 58 insertions(+)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 683398b..bd2f7d2 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -390,6 +390,11 @@ public:
             msg << "Invalid argument sizes given to MonotoneComponent::Inverse. The number of x points is " << numXs << ", but the number of y points is " << numPts << ".  If the number of xs is not 1 then it must match the number of ys.";
             throw std::invalid_argument(msg.str());
         }
+        if(xs.extent(0)+1<dim_){
+            std::stringstream msg;
+            msg << "Invalid argument sizes given to MonotoneComponent::Inverse.  The x points have " << xs.extent(0) << " rows, but at least " << dim_-1 << " are needed.";
+            throw std::invalid_argument(msg.str());
+        }
         if(output.extent(0)!=numPts){
             std::stringstream msg;
             msg << "Invalid argument sizes given to MonotoneComponent::Inverse.  The output array has size " << output.extent(0) << " but there are N=" << numPts << " to invert.";
diff --git a/MParT/ParameterizedFunctionBase.h b/MParT/ParameterizedFunctionBase.h
index 94e1438..8a59563 100644
--- a/MParT/ParameterizedFunctionBase.h
+++ b/MParT/ParameterizedFunctionBase.h
@@ -244,6 +244,12 @@ namespace mpart {
         /** Checks to see if the coefficients have been initialized yet. If not, an exception is thrown. */
         void CheckCoefficients(std::string const& functionName) const;
 
+        /** Checks the number of rows of a matrix whose columns are points, sensitivities or outputs.  If it is not the expected one, an exception is thrown. */
+        void CheckRows(std::string const& functionName, size_t numRows, size_t expectedRows) const;
+
+        /** Checks that two matrices have the same number of columns. If not, an exception is thrown. */
+        void CheckCols(std::string const& functionName, size_t numCols, size_t expectedCols) const;
+
         Kokkos::View<double*, MemorySpace> savedCoeffs;
         
     }; // class ParameterizedFunctionBase
diff --git a/src/ConditionalMapBase.cpp b/src/ConditionalMapBase.cpp
index ff09ddc..10aa311 100644
--- a/src/ConditionalMapBase.cpp
+++ b/src/ConditionalMapBase.cpp
@@ -9,6 +9,7 @@ template<>
 Kokkos::View<double*, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminant(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminant");
+    this->CheckRows("LogDeterminant", pts.extent(0), this->inputDim);
     Kokkos::View<double*, Kokkos::HostSpace> output("Log Determinants", pts.extent(1));
     LogDeterminantImpl(pts, output);
     return output;
@@ -75,6 +76,8 @@ StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::
         throw std::invalid_argument(msg.str());
     }
 
+    this->CheckRows("Inverse", r.extent(0), this->outputDim);
+
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Inverse Evaluations", this->outputDim, r.extent(1));
     InverseImpl(x1,r, output);
     return output;
@@ -145,6 +148,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantCoeffGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantCoeffGrad");
+    this->CheckRows("LogDeterminantCoeffGrad", pts.extent(0), this->inputDim);
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantCoeffGrad", this->numCoeffs, pts.extent(1));
     LogDeterminantCoeffGradImpl(pts,output);
     return output;
@@ -221,6 +225,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantInputGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantInputGrad");
+    this->CheckRows("LogDeterminantInputGrad", pts.extent(0), this->inputDim);
 
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantInputGrad", pts.extent(0), pts.extent(1));
     LogDeterminantInputGradImpl(pts, output);
diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index 7d279d1..b07d59f 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -27,6 +27,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     CheckCoefficients("Evaluate");
+    CheckRows("Evaluate", pts.extent(0), inputDim);
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Evaluations", outputDim, pts.extent(1));
     EvaluateImpl(pts, output);
@@ -37,6 +38,7 @@ template<>
 Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(Eigen::Ref<const Eigen::RowMatrixXd> const& pts)
 {
     CheckCoefficients("Evaluate");
+    CheckRows("Evaluate", pts.rows(), inputDim);
 
     Eigen::RowMatrixXd output(outputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
@@ -106,6 +108,9 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(StridedMatrix<const double, Kokkos::HostSpace> const& pts, StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("Gradient");
+    CheckRows("Gradient", pts.extent(0), inputDim);
+    CheckRows("Gradient", sens.extent(0), outputDim);
+    CheckCols("Gradient", sens.extent(1), pts.extent(1));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Gradients", inputDim, pts.extent(1));
     GradientImpl(pts, sens, output);
@@ -116,6 +121,9 @@ template<>
 Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(Eigen::Ref<const Eigen::RowMatrixXd> const& pts, Eigen::Ref<const Eigen::RowMatrixXd> const& sens)
 {
     CheckCoefficients("Gradient");
+    CheckRows("Gradient", pts.rows(), inputDim);
+    CheckRows("Gradient", sens.rows(), outputDim);
+    CheckCols("Gradient", sens.cols(), pts.cols());
 
     Eigen::RowMatrixXd output(inputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
@@ -272,6 +280,9 @@ StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostS
                                                                                                  StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("CoeffGrad");
+    CheckRows("CoeffGrad", pts.extent(0), inputDim);
+    CheckRows("CoeffGrad", sens.extent(0), outputDim);
+    CheckCols("CoeffGrad", sens.extent(1), pts.extent(1));
     Kokkos::View<double**, Kokkos::HostSpace> output("Coeff Grad", numCoeffs, pts.extent(1));
     CoeffGradImpl(pts,sens, output);
     return output;
@@ -362,6 +373,25 @@ void ParameterizedFunctionBase<MemorySpace>::CheckCoefficients(std::string const
     }
 }
 
+template<typename MemorySpace>
+void ParameterizedFunctionBase<MemorySpace>::CheckRows(std::string const& functionName, size_t numRows, size_t expectedRows) const
+{
+    if(numRows != expectedRows){
+        std::stringstream msg;
+        msg << "Error in \"" << functionName << "\", expected an argument with " << expectedRows << " rows, but it has " << numRows << " rows.";
+        throw std::invalid_argument(msg.str());
+    }
+}
+
+template<typename MemorySpace>
+void ParameterizedFunctionBase<MemorySpace>::CheckCols(std::string const& functionName, size_t numCols, size_t expectedCols) const
+{
+    if(numCols != expectedCols){
+        std::stringstream msg;
+        msg << "Error in \"" << functionName << "\", the points have " << expectedCols << " columns, but the sensitivities have " << numCols << " columns.";
+        throw std::invalid_argument(msg.str());
+    }
+}
 
 // Explicit template instantiation
 template class mpart::ParameterizedFunctionBase<Kokkos::HostSpace>;
diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 88cab83..093bb21 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -127,6 +127,12 @@ void SummarizedMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemoryS
                                              StridedMatrix<double, MemorySpace>              output)
 {
 
+    if(x1.extent(0) < sumFunc_->inputDim){
+        std::stringstream msg;
+        msg << "x1 has too few rows in SummarizedMap::Inverse.  Expected at least " << sumFunc_->inputDim << ", but x1.extent(0)=" << x1.extent(0);
+        throw std::invalid_argument(msg.str());
+    }
+
     // Create a view to hold pts to summarize
     StridedMatrix<const double, MemorySpace> ptsToSummarize = Kokkos::subview(x1, std::make_pair(0, int(sumFunc_->inputDim)), Kokkos::ALL());
 
diff --git a/src/TriangularMap.cpp b/src/TriangularMap.cpp
index 5e8c9a5..aefb100 100644
--- a/src/TriangularMap.cpp
+++ b/src/TriangularMap.cpp
@@ -150,6 +150,12 @@ void TriangularMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemoryS
 {
     unsigned int ipdim = this->inputDim;
     unsigned int opdim = this->outputDim;
+    if((x1.extent(0)+opdim < ipdim)||(x1.extent(0) > ipdim)){
+        std::stringstream msg;
+        msg << "x1 has an incorrect number of rows in TriangularMap::Inverse.  Expected between " << ipdim-opdim << " and " << ipdim << ", but x1.extent(0)=" << x1.extent(0);
+        throw std::invalid_argument(msg.str());
+    }
+
     Kokkos::View<double**, MemorySpace> fullOut("Full Output", ipdim, x1.extent(1));
     Kokkos::deep_copy(Kokkos::subview(fullOut, std::make_pair(0,int(x1.extent(0))), Kokkos::ALL()), x1);
 
-- 
2.43.0


From 7ff42282e39fd702263c97f78a3612c2aa047b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 45/51] fix: one-by-one (and single-column) matrices became
 offsets in the Python AffineMap and AffineFunction

---
 bindings/python/src/AffineMap.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/bindings/python/src/AffineMap.cpp b/bindings/python/src/AffineMap.cpp
index 94a6bca..b5df095 100644
--- a/bindings/python/src/AffineMap.cpp
+++ b/bindings/python/src/AffineMap.cpp
@@ -13,17 +13,19 @@ using namespace mpart::binding;
 void mpart::binding::AffineMapWrapperHost(py::module &m)
 {
     py::class_<AffineMap<Kokkos::HostSpace>, ConditionalMapBase<Kokkos::HostSpace>, std::shared_ptr<AffineMap<Kokkos::HostSpace>>>(m, "AffineMap")
-        .def(py::init( [](py::EigenDRef<Eigen::VectorXd> const& b)
+        .def(py::init( [](py::array_t<double, py::array::forcecast> const& arr)
         {
-            return new AffineMap<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
+            // A vector is the offset of the map and a matrix, even with a single column or entry, is its linear part
+            if((arr.ndim()==1) || ((arr.ndim()==2) && (arr.shape(1)==1) && (arr.shape(0)>1))){
+                Eigen::VectorXd b = arr.cast<Eigen::VectorXd>();
+                return new AffineMap<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
+            }
+            Eigen::MatrixXd A = arr.cast<Eigen::MatrixXd>();
+            return new AffineMap<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A));
         }))
         .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A, py::EigenDRef<Eigen::VectorXd> const& b)
         {
             return new AffineMap<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A), VecToKokkos<double, Kokkos::HostSpace>(b));
-        }))
-        .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A)
-        {
-            return new AffineMap<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A));
         }));
 }
 
@@ -31,17 +33,19 @@ void mpart::binding::AffineMapWrapperHost(py::module &m)
 void mpart::binding::AffineFunctionWrapperHost(py::module &m)
 {
     py::class_<AffineFunction<Kokkos::HostSpace>, ParameterizedFunctionBase<Kokkos::HostSpace>, std::shared_ptr<AffineFunction<Kokkos::HostSpace>>>(m, "AffineFunction")
-        .def(py::init( [](py::EigenDRef<Eigen::VectorXd> const& b)
+        .def(py::init( [](py::array_t<double, py::array::forcecast> const& arr)
         {
-            return new AffineFunction<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
+            // A vector is the offset of the map and a matrix, even with a single column or entry, is its linear part
+            if(arr.ndim()==1){
+                Eigen::VectorXd b = arr.cast<Eigen::VectorXd>();
+                return new AffineFunction<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
+            }
+            Eigen::MatrixXd A = arr.cast<Eigen::MatrixXd>();
+            return new AffineFunction<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A));
         }))
         .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A, py::EigenDRef<Eigen::VectorXd> const& b)
         {
             return new AffineFunction<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A), VecToKokkos<double, Kokkos::HostSpace>(b));
-        }))
-        .def(py::init( [](py::EigenDRef<Eigen::MatrixXd> const& A)
-        {
-            return new AffineFunction<Kokkos::HostSpace>(MatToKokkos<double, Kokkos::HostSpace>(A));
         }));
 }
 
-- 
2.43.0


From b91e581ba0fad4d594fe5b76cae1174aac7a0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 46/51] fix: Python FixedMultiIndexSet from dense orders kept a
 pointer to a temporary

---
 bindings/python/src/MultiIndex.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/MultiIndex.cpp b/bindings/python/src/MultiIndex.cpp
index d97c961..f73fd11 100644
--- a/bindings/python/src/MultiIndex.cpp
+++ b/bindings/python/src/MultiIndex.cpp
@@ -158,9 +158,14 @@ void mpart::binding::MultiIndexWrapper(py::module &m)
     py::class_<FixedMultiIndexSet<Kokkos::HostSpace>, std::shared_ptr<FixedMultiIndexSet<Kokkos::HostSpace>>>(m, "FixedMultiIndexSet")
 
         .def(py::init( [](unsigned int dim,
-                          Eigen::Matrix<unsigned int, Eigen::Dynamic, 1> &orders)
+                          Eigen::Matrix<unsigned int, Eigen::Dynamic, 1> &ordersIn)
         {
-            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, VecToKokkos<unsigned int,Kokkos::HostSpace>(orders));
+            // Deep copy the array into Kokkos.  The set keeps a reference to it and the input only lives as long as this call
+            Kokkos::View<unsigned int*,Kokkos::HostSpace> orders("orders", ordersIn.rows());
+            for(unsigned int i=0; i<ordersIn.rows(); ++i)
+                orders(i) = ordersIn(i);
+
+            return new FixedMultiIndexSet<Kokkos::HostSpace>(dim, orders);
         }))
 
         .def(py::init( [](unsigned int dim,
-- 
2.43.0


From 1f17337fddd1eae8aa3f6326f20adf554baa7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 47/51] fix: torch wrappers left maps pointing to freed or
 strided coefficient tensors

---
 bindings/python/package/torch.py         |  4 ++--
 bindings/python/package/torch_helpers.py | 25 ++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/bindings/python/package/torch.py b/bindings/python/package/torch.py
index 6882c61..3acb1d0 100644
--- a/bindings/python/package/torch.py
+++ b/bindings/python/package/torch.py
@@ -1,5 +1,5 @@
 import torch
-from .torch_helpers import ExtractTorchTensorData, MpartTorchAutograd
+from .torch_helpers import ExtractTorchTensorData, WrapTorchCoeffs, MpartTorchAutograd
         
 
 class TorchParameterizedFunctionBase(torch.nn.Module):
@@ -76,7 +76,7 @@ class TorchConditionalMapBase(torch.nn.Module):
                 coeffs_dbl = self.coeffs.double()
         else:
             coeffs_dbl = coeffs.double()
-        self.f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+        WrapTorchCoeffs(self.f, coeffs_dbl)
 
         x_dbl = x.double()
         r_dbl = r.double()
diff --git a/bindings/python/package/torch_helpers.py b/bindings/python/package/torch_helpers.py
index 8fe5cfb..9a6e7c1 100644
--- a/bindings/python/package/torch_helpers.py
+++ b/bindings/python/package/torch_helpers.py
@@ -1,3 +1,4 @@
+import weakref
 import torch
 
 def ExtractTorchTensorData(tensor):
@@ -30,6 +31,26 @@ def ExtractTorchTensorData(tensor):
         raise ValueError(f'Currently only 1d and 2d tensors can be converted.')
 
 
+# The coefficient tensors currently wrapped by MParT functions.  The functions only hold raw pointers.
+_wrapped_coeffs = weakref.WeakKeyDictionary()
+
+def WrapTorchCoeffs(f, coeffs):
+    """ Makes the MParT function f use the memory of a double precision tensor for its coefficients and keeps
+        that memory alive for as long as f might use it.
+
+        Arguments:
+        ------------
+        f: mpart.ParameterizedFunctionBase
+            The function whose coefficients we want to set.
+        coeffs: pytorch.Tensor
+            A tensor containing the coefficients.
+    """
+    coeffs = coeffs.detach().contiguous() # MParT needs contiguous coefficients
+    pointer, size, _ = ExtractTorchTensorData(coeffs) # The stride of a single entry can be anything
+    f.WrapCoeffs((pointer, size, 1))
+    _wrapped_coeffs[f] = coeffs
+
+
 class MpartTorchAutograd(torch.autograd.Function):
 
     def __reduce__(self):
@@ -43,7 +64,7 @@ class MpartTorchAutograd(torch.autograd.Function):
         coeffs_dbl = None 
         if coeffs is not None:
             coeffs_dbl = coeffs.double()
-            f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+            WrapTorchCoeffs(f, coeffs_dbl)
         input_dbl = input.double()
 
         output = torch.zeros(f.outputDim, input.shape[1], dtype=torch.double) 
@@ -64,7 +85,7 @@ class MpartTorchAutograd(torch.autograd.Function):
         coeffs_dbl = None 
         if coeffs is not None:
             coeffs_dbl = coeffs.double()
-            f.WrapCoeffs(ExtractTorchTensorData(coeffs_dbl))
+            WrapTorchCoeffs(f, coeffs_dbl)
         input_dbl = input.double()
         output_sens_dbl = output_sens.double()
 
-- 
2.43.0


From 5902301553c2fd12fc3f508e9928727e545efa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 48/51] fix: Python CoeffMap arrays outlived the coefficients
 they refer to

---
 bindings/python/src/ParameterizedFunctionBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/ParameterizedFunctionBase.cpp b/bindings/python/src/ParameterizedFunctionBase.cpp
index 3fe63c7..4ff8834 100644
--- a/bindings/python/src/ParameterizedFunctionBase.cpp
+++ b/bindings/python/src/ParameterizedFunctionBase.cpp
@@ -20,7 +20,7 @@ void mpart::binding::ParameterizedFunctionBaseWrapper<Kokkos::HostSpace>(py::mod
 {
     // ParameterizedFunctionBase
     py::class_<ParameterizedFunctionBase<Kokkos::HostSpace>, std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>>>(m, "ParameterizedFunctionBase")
-        .def("CoeffMap", &ParameterizedFunctionBase<Kokkos::HostSpace>::CoeffMap)
+        .def("CoeffMap", &ParameterizedFunctionBase<Kokkos::HostSpace>::CoeffMap, py::keep_alive<0, 1>())
         .def("SetCoeffs", py::overload_cast<Eigen::Ref<Eigen::VectorXd>>(&ParameterizedFunctionBase<Kokkos::HostSpace>::SetCoeffs))
         .def("WrapCoeffs", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, std::tuple<long,int,int> coeffs){
             obj->WrapCoeffs(ToKokkos<double,Kokkos::HostSpace>(coeffs));
-- 
2.43.0


From 1c9e5d1de16069addc953adf33a030fcf8f021be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 49/51] fix: components lost their ConditionalMapBase methods
 in torch() and FromBytes() of the Python bindings

---
 bindings/python/src/ConditionalMapBase.cpp        | 2 +-
 bindings/python/src/ParameterizedFunctionBase.cpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/ConditionalMapBase.cpp b/bindings/python/src/ConditionalMapBase.cpp
index bf74aa1..e13d4ff 100644
--- a/bindings/python/src/ConditionalMapBase.cpp
+++ b/bindings/python/src/ConditionalMapBase.cpp
@@ -34,7 +34,7 @@ void mpart::binding::ConditionalMapBaseWrapper(py::module &m)
         .def("LogDeterminantInputGradImpl", [](std::shared_ptr<ConditionalMapBase<MemorySpace>> obj, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> input, std::tuple<long,std::tuple<int,int>,std::tuple<int,int>> output){
             obj->LogDeterminantInputGradImpl(ToKokkos<double,MemorySpace>(input),ToKokkos<double,MemorySpace>(output));
         })
-        .def("torch", [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> obj, bool store_coeffs, bool return_logdet){
+        .def("torch", [](std::shared_ptr<ConditionalMapBase<MemorySpace>> obj, bool store_coeffs, bool return_logdet){
             auto mpart = py::module::import("mpart");
             if(!mpart.attr("mpart_has_torch").cast<bool>()){
                 throw std::runtime_error("MParT could not import pytorch.");
diff --git a/bindings/python/src/ParameterizedFunctionBase.cpp b/bindings/python/src/ParameterizedFunctionBase.cpp
index 4ff8834..a684136 100644
--- a/bindings/python/src/ParameterizedFunctionBase.cpp
+++ b/bindings/python/src/ParameterizedFunctionBase.cpp
@@ -9,6 +9,8 @@
 #include <pybind11/pybind11.h>
 
 #if defined(MPART_HAS_CEREAL)
+#include "MParT/ConditionalMapBase.h"
+
 #include <fstream>
 #endif
 
@@ -64,7 +66,11 @@ void mpart::binding::ParameterizedFunctionBaseWrapper<Kokkos::HostSpace>(py::mod
             ss.str(input);
 
             auto ptr = ParameterizedFunctionBase<Kokkos::HostSpace>::Load(ss);
-            return ptr;  
+
+            // Types without python bindings of their own (e.g., components) are exposed through the base class with most functionality
+            if(auto cond = std::dynamic_pointer_cast<ConditionalMapBase<Kokkos::HostSpace>>(ptr))
+                return py::cast(cond);
+            return py::cast(ptr);
         })
         .def(py::pickle(
             [](std::shared_ptr<ParameterizedFunctionBase<Kokkos::HostSpace>> const& ptr) { // __getstate__
-- 
2.43.0


From 3ba94022ee70597ece50f78b21cf430c0d3ed763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 50/51] fix: the Python AffineFunction accepts columns as
 offsets again

---
 bindings/python/src/AffineMap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/AffineMap.cpp b/bindings/python/src/AffineMap.cpp
index b5df095..edf545d 100644
--- a/bindings/python/src/AffineMap.cpp
+++ b/bindings/python/src/AffineMap.cpp
@@ -15,7 +15,7 @@ void mpart::binding::AffineMapWrapperHost(py::module &m)
     py::class_<AffineMap<Kokkos::HostSpace>, ConditionalMapBase<Kokkos::HostSpace>, std::shared_ptr<AffineMap<Kokkos::HostSpace>>>(m, "AffineMap")
         .def(py::init( [](py::array_t<double, py::array::forcecast> const& arr)
         {
-            // A vector is the offset of the map and a matrix, even with a single column or entry, is its linear part
+            // A vector (or column) is the offset of the map and a matrix, even with a single entry, is its linear part
             if((arr.ndim()==1) || ((arr.ndim()==2) && (arr.shape(1)==1) && (arr.shape(0)>1))){
                 Eigen::VectorXd b = arr.cast<Eigen::VectorXd>();
                 return new AffineMap<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
@@ -35,8 +35,8 @@ void mpart::binding::AffineFunctionWrapperHost(py::module &m)
     py::class_<AffineFunction<Kokkos::HostSpace>, ParameterizedFunctionBase<Kokkos::HostSpace>, std::shared_ptr<AffineFunction<Kokkos::HostSpace>>>(m, "AffineFunction")
         .def(py::init( [](py::array_t<double, py::array::forcecast> const& arr)
         {
-            // A vector is the offset of the map and a matrix, even with a single column or entry, is its linear part
-            if(arr.ndim()==1){
+            // A vector (or column) is the offset of the map and a matrix, even with a single entry, is its linear part
+            if((arr.ndim()==1) || ((arr.ndim()==2) && (arr.shape(1)==1) && (arr.shape(0)>1))){
                 Eigen::VectorXd b = arr.cast<Eigen::VectorXd>();
                 return new AffineFunction<Kokkos::HostSpace>(VecToKokkos<double, Kokkos::HostSpace>(b));
             }
-- 
2.43.0


From 76cb7ab025e671ad082f3cd6f54fed2bac330b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 51/51] fix: Clenshaw-Curtis quadrature with swapped limits is
 no longer a midpoint rule

The narrow interval test compared the signed width of the interval with the
tolerance, so every interval with ub<lb was integrated with one point.
---
 MParT/Quadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 7ea68cb..5d394aa 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -285,7 +285,7 @@ public:
 
         // For sufficiently small interval, use the midpoint rule
         double midpoint_tol = 15.0*std::numeric_limits<double>::epsilon();
-        if((ub-lb)<midpoint_tol){
+        if(fabs(ub-lb)<midpoint_tol){
 
             f(0.5*(ub+lb), res);
             for(unsigned int i=0; i<this->fdim_; ++i)
-- 
2.43.0

