From 2f7d9d05bd4ee387e66f564246bc02b75fd4e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 01/27] fix: Dictionary::insert copies the value before it
 creates the entry

---
 src/core/dictionary.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/dictionary.cpp b/src/core/dictionary.cpp
index 9ab0124..315ee9e 100644
--- a/src/core/dictionary.cpp
+++ b/src/core/dictionary.cpp
@@ -40,7 +40,12 @@ Dictionary::Dictionary(const std::initializer_list<std::pair<std::string, std::a
     }
 }
 
-void Dictionary::insert(const std::string& key, const std::any& value) { data_[key] = value; }
+void Dictionary::insert(const std::string& key, const std::any& value)
+{
+    // copy first, value may refer to (an entry containing) this dictionary
+    std::any copy(value);
+    data_[key] = std::move(copy);
+}
 
 void Dictionary::remove(const std::string& key) { data_.erase(key); }
 
-- 
2.43.0


From 7150f493405c0b39f88f3672b8c65e3b1d4b704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 02/27] fix: define TokenList::operator[], which was declared
 but never implemented

---
 src/core/tokenList.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tokenList.cpp b/src/core/tokenList.cpp
index f1f729e..5a46383 100644
--- a/src/core/tokenList.cpp
+++ b/src/core/tokenList.cpp
@@ -37,6 +37,8 @@ void TokenList::remove(size_t index)
 
 [[nodiscard]] size_t TokenList::size() const { return data_.size(); }
 
+[[nodiscard]] std::any& TokenList::operator[](const size_t& idx) { return data_.at(idx); }
+
 [[nodiscard]] std::vector<std::any>& TokenList::tokens() { return data_; }
 
 } // namespace NeoFOAM
-- 
2.43.0


From 29cc8937694e196570d32bd7ccde8852c6fdfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 03/27] fix: TokenList::popFront copies the front token; brace
 initialisation wrapped a nested TokenList into a new list

---
 include/NeoFOAM/core/tokenList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/tokenList.hpp b/include/NeoFOAM/core/tokenList.hpp
index 6eea10f..2eb6e60 100644
--- a/include/NeoFOAM/core/tokenList.hpp
+++ b/include/NeoFOAM/core/tokenList.hpp
@@ -70,7 +70,7 @@ public:
     template<typename ReturnType>
     ReturnType popFront()
     {
-        ReturnType ret {get<ReturnType>(0)};
+        ReturnType ret = get<ReturnType>(0);
         data_.erase(data_.begin());
         return ret;
     }
-- 
2.43.0


From 70d0bf2c2d4d59d3a7859bb7837fafc465162c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 04/27] fix: NF_THROW accepts a streamed message, so the
 NF_ASSERT_THROW family compiles

---
 include/NeoFOAM/core/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index d169dd1..9769ae2 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -126,7 +126,7 @@ private:
  */
 #define NF_THROW(message)                                                                          \
     throw NeoFOAM::NeoFOAMException(                                                               \
-        (std::stringstream() << NF_ERROR_MESSAGE(std::string(message))).str()                      \
+        (std::stringstream() << NF_ERROR_MESSAGE(message)).str()                                   \
     )
 
 /**
-- 
2.43.0


From 1e38850266e6b2d2a6a10ef9b0d9205345dbf8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 05/27] fix: NF_ASSERT_EQUAL family compares its operands as a
 whole (parenthesised macro arguments)

---
 include/NeoFOAM/core/error.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index 9769ae2..f6e1abd 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -238,7 +238,7 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_ASSERT_EQUAL(a, b) NF_ASSERT(a == b, "Expected " << b << ", got " << a)
+#define NF_ASSERT_EQUAL(a, b) NF_ASSERT((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_DEBUG_ASSERT_EQUAL
@@ -250,7 +250,8 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_DEBUG_ASSERT_EQUAL(a, b) NF_DEBUG_ASSERT(a == b, "Expected " << b << ", got " << a)
+#define NF_DEBUG_ASSERT_EQUAL(a, b)                                                                \
+    NF_DEBUG_ASSERT((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_ASSERT_EQUAL_THROW
@@ -265,7 +266,8 @@ private:
  * @param a The actual value to be compared.
  * @param b The expected value to be compared.
  */
-#define NF_ASSERT_EQUAL_THROW(a, b) NF_ASSERT_THROW(a == b, "Expected " << b << ", got " << a)
+#define NF_ASSERT_EQUAL_THROW(a, b)                                                                \
+    NF_ASSERT_THROW((a) == (b), "Expected " << (b) << ", got " << (a))
 
 /**
  * @def NF_DEBUG_ASSERT_EQUAL_THROW
@@ -278,4 +280,4 @@ private:
  * @param b The expected value to be compared.
  */
 #define NF_DEBUG_ASSERT_EQUAL_THROW(a, b)                                                          \
-    NF_DEBUG_ASSERT_THROW(a == b, "Expected " << b << ", got " << a)
+    NF_DEBUG_ASSERT_THROW((a) == (b), "Expected " << (b) << ", got " << (a))
-- 
2.43.0


From 892416bb6edc0316622f14678f8e6e7502d9cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 06/27] fix: a serial parallelReduce starts from the neutral
 element, as on the other executors

---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..2ccbea3 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -104,6 +104,20 @@ void parallelFor(Field<ValueType>& field, Kernel kernel, std::string name = "par
     std::visit([&](const auto& e) { parallelFor(e, field, kernel, name); }, field.exec());
 }
 
+// Starts a serial reduction from the neutral element, as Kokkos::parallel_reduce does
+template<typename T>
+void initReduction(T& value)
+{
+    if constexpr (Kokkos::is_reducer<T>::value)
+    {
+        value.init(value.reference());
+    }
+    else
+    {
+        value = T {};
+    }
+}
+
 template<typename Executor, typename Kernel, typename T>
 void parallelReduce(
     [[maybe_unused]] const Executor& exec, std::pair<size_t, size_t> range, Kernel kernel, T& value
@@ -112,6 +126,7 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        initReduction(value);
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -149,6 +164,7 @@ void parallelReduce(
 {
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        initReduction(value);
         size_t fieldSize = field.size();
         for (size_t i = 0; i < fieldSize; i++)
         {
-- 
2.43.0


From 9f7997e851b947c11fab5625083a7a4f73a825b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 07/27] fix: Communicator reads and writes fields through their
 view, so its communication templates compile

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 81236a0..634bf5e 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -101,11 +101,12 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
+        auto fieldView = field.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
             for (size_t data = 0; data < sendMap_[rank].size(); ++data)
-                rankBuffer[data] = field(static_cast<size_t>(sendMap_[rank][data].local_idx));
+                rankBuffer[data] = fieldView[static_cast<size_t>(sendMap_[rank][data].local_idx)];
         }
         CommBuffer_[commName]->startComm();
     }
@@ -132,11 +133,12 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
+        auto fieldView = field.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
             for (size_t data = 0; data < receiveMap_[rank].size(); ++data)
-                field(static_cast<size_t>(receiveMap_[rank][data].local_idx)) = rankBuffer[data];
+                fieldView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] = rankBuffer[data];
         }
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
-- 
2.43.0


From 876be26364e0561cf3c952b05dbd3019e7c03888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 08/27] fix: Communicator keeps its buffers in place when a
 further one is created

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 634bf5e..f8c041d 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <deque>
 #include <vector>
 #include <unordered_map>
 #include <memory>
@@ -149,7 +150,7 @@ private:
     mpi::MPIEnvironment mpiEnviron_; /**< The MPI environment. */
     CommMap sendMap_;                /**< The rank send map. */
     CommMap receiveMap_;             /**< The rank receive map. */
-    std::vector<bufferType> buffers; /**< Communication buffers. */
+    std::deque<bufferType> buffers;  /**< Communication buffers, stable in memory. */
     std::unordered_map<std::string, bufferType*>
         CommBuffer_; /**< The communication key to buffer map, nullptr indicates no assigned buffer.
                       */
-- 
2.43.0


From f1886123e1a95c709e1f597366fd24a6975023b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 09/27] fix: SourceTerm names its value type, so that a source
 in an expression contributes

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
index c06de33..6e7bbd0 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
@@ -21,6 +21,8 @@ class SourceTerm : public dsl::OperatorMixin<VolumeField<ValueType>>
 
 public:
 
+    using FieldValueType = ValueType;
+
     SourceTerm(
         dsl::Operator::Type termType,
         VolumeField<scalar>& coefficients,
-- 
2.43.0


From 62a8996a2744b7f2e8039b9f24cb0b1305c1460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 10/27] fix: DivOperator evaluates explicitly for every value
 type, not only for scalars

---
 .../finiteVolume/cellCentred/operators/divOperator.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index b0c0711..33330a4 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -114,7 +114,7 @@ public:
         VolumeField<ValueType>& phi,
         std::unique_ptr<DivOperatorFactory<ValueType>> divOperatorStrategy
     )
-        : dsl::OperatorMixin<VolumeField<scalar>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
+        : dsl::OperatorMixin<VolumeField<ValueType>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
           faceFlux_(faceFlux), divOperatorStrategy_(std::move(divOperatorStrategy)) {};
 
     DivOperator(
@@ -126,10 +126,10 @@ public:
           faceFlux_(faceFlux), divOperatorStrategy_(nullptr) {};
 
 
-    void explicitOperation(Field<scalar>& source) const
+    void explicitOperation(Field<ValueType>& source) const
     {
         NF_ASSERT(divOperatorStrategy_, "DivOperatorStrategy not initialized");
-        NeoFOAM::Field<NeoFOAM::scalar> tmpsource(source.exec(), source.size(), 0.0);
+        NeoFOAM::Field<ValueType> tmpsource(source.exec(), source.size(), zero<ValueType>());
         const auto operatorScaling = this->getCoefficient();
         divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
         source += tmpsource;
-- 
2.43.0


From 47c1c3d4ae4bdcece838071b355938246711ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 11/27] fix: the explicit laplacian takes the diffusion
 coefficient into account

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..dadc769 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,8 +32,13 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, faceArea, fnGrad, vol, sGamma] = spans(
+        lapPhi,
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes(),
+        gamma.internalField()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -43,7 +48,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -54,7 +59,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From 5abfedd905abb59d0172c5c7f37776c1fd1e042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 12/27] fix: boundary contributions to the linear system are
 added atomically

---
 .../cellCentred/operators/gaussGreenDiv.cpp      |  9 +++++++--
 .../operators/gaussGreenLaplacian.cpp            | 16 +++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..f18d629 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -219,11 +219,16 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
+            ValueType diagValue =
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
             // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
+            ValueType rhsValue =
+                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]);
             // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
+
+            // a cell can have several boundary faces
+            Kokkos::atomic_add(&matrix.values[rowOwnStart + diagOffs[own]], diagValue);
+            Kokkos::atomic_sub(&rhs[own], rhsValue);
         }
     );
 };
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index dadc769..727a241 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -168,13 +168,15 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+            ValueType diagValue = flux * operatorScalingOwn * valueFraction[bcfacei]
+                                * deltaCoeffs[facei] * one<ValueType>();
+            ValueType rhsValue = flux * operatorScalingOwn
+                               * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
+                                  + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]);
+
+            // a cell can have several boundary faces
+            Kokkos::atomic_sub(&values[rowOwnStart + diagOffs[own]], diagValue);
+            Kokkos::atomic_sub(&rhs[own], rhsValue);
         }
     );
 }
-- 
2.43.0


From 5b865c22dc5053d1365d679ed87c2b68e3b05f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 13/27] fix: the implicit divergence includes the gradient of
 fixedGradient boundaries

---
 .../cellCentred/operators/gaussGreenDiv.cpp           | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index f18d629..6c23cca 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -201,11 +201,12 @@ void computeDivImp(
         }
     );
 
-    auto [refGradient, value, valueFraction, refValue] = spans(
+    auto [refGradient, value, valueFraction, refValue, deltaCoeffs] = spans(
         phi.boundaryField().refGrad(),
         phi.boundaryField().value(),
         phi.boundaryField().valueFraction(),
-        phi.boundaryField().refValue()
+        phi.boundaryField().refValue(),
+        mesh.boundaryMesh().deltaCoeffs()
     );
 
     parallelFor(
@@ -221,10 +222,10 @@ void computeDivImp(
 
             ValueType diagValue =
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            // TODO fix bc values
             ValueType rhsValue =
-                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]);
-            // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
+                flux * operatorScalingOwn
+                * (valueFraction[bcfacei] * refValue[bcfacei]
+                   + (1.0 - valueFraction[bcfacei]) / deltaCoeffs[bcfacei] * refGradient[bcfacei]);
 
             // a cell can have several boundary faces
             Kokkos::atomic_add(&matrix.values[rowOwnStart + diagOffs[own]], diagValue);
-- 
2.43.0


From 11acfef87a6e500cbc4a44660358c9726d9d8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 14/27] fix: BoundaryPatchMixin::patchEnd returns the end of
 the patch

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From c3da53da9177c0de09272feab9c02d03178508f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 15/27] fix: CSRMatrix::copyToExecutor copies to the requested
 executor

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..f9df837 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -180,7 +180,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
-- 
2.43.0


From d22be19a68b8ed1a6b64ca60363c885a6bb8d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 16/27] fix: time integrators take their linear solver from
 fvSolution

---
 include/NeoFOAM/dsl/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index a99d241..3ff3267 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -54,7 +54,7 @@ void solve(
     {
         // integrate equations in time
         timeIntegration::TimeIntegration<FieldType> timeIntegrator(
-            fvSchemes.subDict("ddtSchemes"), fvSchemes
+            fvSchemes.subDict("ddtSchemes"), fvSolution
         );
         timeIntegrator.solve(exp, solution, t, dt);
     }
-- 
2.43.0


From 83c3ed560f64bae6b24ff1aedfe5590c073e3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 17/27] fix: BackwardEuler takes explicit operators into
 account

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b09aa6c..737d0c6 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -65,9 +65,17 @@ public:
 
         eqn.implicitOperation(ls);
 
-        auto values = ls.matrix().values();
         eqn.implicitOperation(ls, t, dt);
 
+        auto [vol, expSource, rhs] =
+            spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+        // we subtract the explicit source term from the rhs
+        parallelFor(
+            solutionField.exec(),
+            {0, rhs.size()},
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }
+        );
+
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
 
-- 
2.43.0


From de24f0ef076604c3610671f5bc5c55a76a6749ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 18/27] fix: BackwardEuler corrects the boundary conditions of
 the solution

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index 737d0c6..f9dc858 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -78,6 +78,7 @@ public:
 
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
+        solutionField.correctBoundaryConditions();
 
         // check if executor is GPU
         if (std::holds_alternative<NeoFOAM::GPUExecutor>(eqn.exec()))
-- 
2.43.0


From 1034dea44c4f6f884410dd57ec51bf5491a256e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 19/27] fix: the explicit DdtOperator is scaled by its
 coefficient

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..75a9e19 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            sourceSpan[celli] +=
+                operatorScaling[celli] * dtInver * (field[celli] - oldField[celli]) * vol[celli];
         }
     );
 }
-- 
2.43.0


From 221fb47dafd47d8b5d192366b370d57ab5073712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 20/27] fix: LaplacianOperator::laplacian accepts fields of
 every value type

---
 .../finiteVolume/cellCentred/operators/laplacianOperator.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
index 297f881..7686f9d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
@@ -147,7 +147,7 @@ public:
     //     laplacianOperatorStrategy_->laplacian(ls, gamma_, getField());
     // };
 
-    void laplacian(VolumeField<scalar>& lapPhi)
+    void laplacian(VolumeField<ValueType>& lapPhi)
     {
         const auto operatorScaling = this->getCoefficient();
         laplacianOperatorStrategy_->laplacian(lapPhi, gamma_, this->getField(), operatorScaling);
-- 
2.43.0


From a322f2b9a846b8e750c2302f5b401f1f3103dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 21/27] fix: the divergence returned as a new field starts from
 zero

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
index 26756c4..5c0984d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
@@ -90,6 +90,7 @@ public:
             this->mesh_,
             createCalculatedBCs<VolumeBoundary<ValueType>>(this->mesh_)
         );
+        fill(divPhi.internalField(), zero<ValueType>());
         computeDivExp<ValueType>(
             faceFlux, phi, surfaceInterpolation_, divPhi.internalField(), operatorScaling
         );
-- 
2.43.0


From 654c7246af3465a22f938ee3c77baf6a9f272373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 22/27] fix: an expression can be added to itself

---
 include/NeoFOAM/dsl/expression.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/expression.hpp b/include/NeoFOAM/dsl/expression.hpp
index b654e1b..0745c76 100644
--- a/include/NeoFOAM/dsl/expression.hpp
+++ b/include/NeoFOAM/dsl/expression.hpp
@@ -109,13 +109,16 @@ public:
 
     void addExpression(const Expression& equation)
     {
-        for (auto& oper : equation.temporalOperators_)
+        // the number of operators is fixed beforehand, since equation may be this expression itself
+        const size_t nTemporal = equation.temporalOperators_.size();
+        const size_t nSpatial = equation.spatialOperators_.size();
+        for (size_t i = 0; i < nTemporal; i++)
         {
-            temporalOperators_.push_back(oper);
+            temporalOperators_.push_back(equation.temporalOperators_[i]);
         }
-        for (auto& oper : equation.spatialOperators_)
+        for (size_t i = 0; i < nSpatial; i++)
         {
-            spatialOperators_.push_back(oper);
+            spatialOperators_.push_back(equation.spatialOperators_[i]);
         }
     }
 
-- 
2.43.0


From f58e41c43741475d03e18972dab75b01fb3e4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 23/27] fix: the linear system uses the sparsity pattern the
 operators refer to

---
 include/NeoFOAM/dsl/solver.hpp                    | 6 ++++--
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index 3ff3267..b265477 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -63,11 +63,13 @@ void solve(
         // solve sparse matrix system
         using ValueType = typename FieldType::ElementType;
 
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solution.mesh());
+        // the operators refer to the entries by the offsets of this pattern
+        const auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solution.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         exp.implicitOperation(ls);
         auto expTmp = exp.explicitOperation(solution.mesh().nCells());
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index f9dc858..f46de1f 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -57,11 +57,13 @@ public:
         using ValueType = typename SolutionFieldType::ElementType;
 
         // TODO decouple from fvcc specific implementation
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solutionField.mesh());
+        // the operators refer to the entries by the offsets of this pattern
+        const auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solutionField.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         eqn.implicitOperation(ls);
 
-- 
2.43.0


From efc14032eece6082167ebb8f5b4fa1c697462abd Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 24/27] fix: Vector::operator*= takes its factor by value, so
 that it can be one of its own components

---
 include/NeoFOAM/core/primitives/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/primitives/vector.hpp b/include/NeoFOAM/core/primitives/vector.hpp
index f366a7e..2d8f69f 100644
--- a/include/NeoFOAM/core/primitives/vector.hpp
+++ b/include/NeoFOAM/core/primitives/vector.hpp
@@ -131,7 +131,7 @@ public:
 
 
     KOKKOS_INLINE_FUNCTION
-    Vector& operator*=(const scalar& rhs)
+    Vector& operator*=(const scalar rhs) // by value, rhs may be one of the components
     {
         cmpts_[0] *= rhs;
         cmpts_[1] *= rhs;
-- 
2.43.0


From ca988e9ca6856aaac78b01595fbfa320dffde421 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 25/27] fix: a copy of a RungeKutta integrator sets up its own
 solver instead of dereferencing the missing context

---
 src/timeIntegration/rungeKutta.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 9163cf7..8092a84 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -8,17 +8,9 @@ namespace NeoFOAM::timeIntegration
 
 template<typename SolutionFieldType>
 RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other)
-    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_),
-      pdeExpr_(
-          other.pdeExpr_
-              ? std::make_unique<NeoFOAM::dsl::Expression<ValueType>>(other.pdeExpr_->exec())
-              : nullptr
-      )
+    : Base(other)
 {
-    sunrealtype timeCurrent;
-    void* ark = reinterpret_cast<void*>(other.ODEMemory_.get());
-    ARKodeGetCurrentTime(ark, &timeCurrent);
-    initODEMemory(timeCurrent); // will finalise construction of the ode memory.
+    // the copy sets up its own sundials solver when it solves for the first time.
 }
 
 template<typename SolutionFieldType>
-- 
2.43.0


From 25b289fb400e241fdbc39f2f4623a52385bc0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 26/27] fix: RungeKutta integrates the equation, solution and
 time it is given, not those of its first step

---
 src/timeIntegration/rungeKutta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 8092a84..e8f2990 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -25,10 +25,10 @@ void RungeKutta<SolutionFieldType>::solve(
     dsl::Expression<ValueType>& exp, SolutionFieldType& solutionField, scalar t, const scalar dt
 )
 {
-    // Setup sundials if required, load the current solution for temporal integration
+    // Setup sundials for this equation, solution and time, load the current solution
     SolutionFieldType& oldSolutionField =
         NeoFOAM::finiteVolume::cellCentred::oldTime(solutionField);
-    if (pdeExpr_ == nullptr) initSUNERKSolver(exp, oldSolutionField, t);
+    initSUNERKSolver(exp, oldSolutionField, t);
     NeoFOAM::sundials::fieldToSunNVector(oldSolutionField.internalField(), solution_.sunNVector());
     void* ark = reinterpret_cast<void*>(ODEMemory_.get());
 
-- 
2.43.0


From fc6834647e0b19a4670d6eb08ddc482b21dceaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 27/27] fix: RungeKutta corrects the boundary conditions of the
 solution

---
 src/timeIntegration/rungeKutta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index e8f2990..83b6761 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -43,6 +43,7 @@ void RungeKutta<SolutionFieldType>::solve(
 
     // Copy solution out. (Fence is in sundails free)
     NeoFOAM::sundials::sunNVectorToField(solution_.sunNVector(), solutionField.internalField());
+    solutionField.correctBoundaryConditions();
     oldSolutionField.internalField() = solutionField.internalField();
 }
 
-- 
2.43.0

