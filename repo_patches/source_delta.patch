From da80187d3e746f29bbe93e600d8cb2ab6cb4badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 01/77] fix: never pass a zero chunk size to the dynamic OpenMP
 schedules

tasks / thN is 0 whenever there are fewer tasks than threads, and libgomp
then never finishes the loop; hardware_concurrency() may return 0 as well.
---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     |  3 +--
 HeuristicFlow/src/Genetic/GABase.hpp   |  3 +--
 HeuristicFlow/src/Genetic/NSGABase.hpp |  3 +--
 HeuristicFlow/src/Global/Threading.hpp | 20 +++++++++++++++++++-
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    |  3 +--
 HeuristicFlow/src/PSO/PSO4std.hpp      |  3 +--
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  |  3 +--
 7 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a7d158c..9e8a497 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -108,8 +108,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       }
       tasks.emplace_back(&i);
     }
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(tasks.size()))
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 185e586..c908b56 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -221,8 +221,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       }
       tasks.emplace_back(&i);
     }
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(tasks.size()))
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index 23ac246..de085a9 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -105,8 +105,7 @@ class NSGABase
   void calculateDominatedNum() noexcept {
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, popSizeBefore / thN)
+#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(popSizeBefore))
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/Global/Threading.hpp b/HeuristicFlow/src/Global/Threading.hpp
index 83ebca3..e05f427 100644
--- a/HeuristicFlow/src/Global/Threading.hpp
+++ b/HeuristicFlow/src/Global/Threading.hpp
@@ -24,6 +24,7 @@ This file is part of HeuristicFlow.
 #include <omp.h>
 #endif  //  EIGEN_HAS_OPENMP
 
+#include <algorithm>
 #include <thread>
 
 #include <assert.h>
@@ -44,7 +45,8 @@ class thNumWrapper {
   friend int ::heu::threadNum() noexcept;
   friend void ::heu::setThreadNum(int) noexcept;
   static inline int& internalThreadNum() noexcept {
-    static int thNum = std::thread::hardware_concurrency();
+    // std::thread::hardware_concurrency() returns 0 if the value isn't computable
+    static int thNum = std::max(1, int(std::thread::hardware_concurrency()));
     return thNum;
   }
 };
@@ -72,6 +74,22 @@ inline void setThreadNum(int _thN) noexcept {
   thNumWrapper::internalThreadNum() = _thN;
 }
 
+namespace internal {
+
+/**
+ * \ingroup HEU_GLOBAL
+ * \brief Chunk size used to distribute several tasks to threads dynamically. OpenMP requires that
+ * the chunk size must be positive, no matter how few the tasks are.
+ *
+ * \param taskNum Number of tasks
+ * \return int Size of each chunk, at least 1.
+ */
+inline int parallelChunkSize(std::size_t taskNum) noexcept {
+  return std::max(1, int(taskNum / std::size_t(threadNum())));
+}
+
+}  // namespace internal
+
 // if HEU_NO_THREADS is defined, HEU_HAS_OPENMP won't be defined, preventing following algorithms to
 // apply multi-threading. Otherwise if Eigen has OpenMP, then HeuristicFlow will use it as well.
 #ifndef HEU_NO_THREADS
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9f4394b..b4015dc 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -84,8 +84,7 @@ class PSO4Eigen
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 6fe808a..fd49d2a 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -93,8 +93,7 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a7ce3a1..5d8aab0 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -286,8 +286,7 @@ Var_t _velocityMax;
    */
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, _population.size() / thN)
+#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(_population.size()))
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From dba5968d2285739cf196a0c5d7e103c238c2f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 02/77] fix: make setThreadNum() limit the threads that
 parallel loops really use

The value was cached on the first run, only used for the chunk size, and
private to each translation unit.
---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     |  2 +-
 HeuristicFlow/src/Genetic/GABase.hpp   |  2 +-
 HeuristicFlow/src/Genetic/NSGABase.hpp |  2 +-
 HeuristicFlow/src/Global/Threading.hpp | 19 +++++++++++++++----
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    |  2 +-
 HeuristicFlow/src/PSO/PSO4std.hpp      |  2 +-
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  |  2 +-
 7 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index 9e8a497..b14d7be 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -108,7 +108,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       }
       tasks.emplace_back(&i);
     }
-#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(tasks.size()))
+#pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(tasks.size()))
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index c908b56..901cae5 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -221,7 +221,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       }
       tasks.emplace_back(&i);
     }
-#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(tasks.size()))
+#pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(tasks.size()))
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index de085a9..e58b24a 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -105,7 +105,7 @@ class NSGABase
   void calculateDominatedNum() noexcept {
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
-#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(popSizeBefore))
+#pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(popSizeBefore))
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/Global/Threading.hpp b/HeuristicFlow/src/Global/Threading.hpp
index e05f427..afa725e 100644
--- a/HeuristicFlow/src/Global/Threading.hpp
+++ b/HeuristicFlow/src/Global/Threading.hpp
@@ -38,7 +38,9 @@ namespace heu {
 int threadNum() noexcept;
 inline void setThreadNum(int _thN) noexcept;
 
-namespace {
+// This class mustn't be in an anonymous namespace, otherwise each translation unit would have its
+// own number of threads.
+namespace internal {
 
 class thNumWrapper {
   thNumWrapper() = delete;
@@ -51,7 +53,7 @@ class thNumWrapper {
   }
 };
 
-}  // namespace
+}  // namespace internal
 
 /**
  * \ingroup HEU_GLOBAL
@@ -60,7 +62,7 @@ class thNumWrapper {
  *
  * \return int Number of threads that will be used.
  */
-inline int threadNum() noexcept { return thNumWrapper::internalThreadNum(); }
+inline int threadNum() noexcept { return internal::thNumWrapper::internalThreadNum(); }
 
 /**
  * \ingroup HEU_GLOBAL
@@ -71,7 +73,7 @@ inline int threadNum() noexcept { return thNumWrapper::internalThreadNum(); }
  */
 inline void setThreadNum(int _thN) noexcept {
   HEU_ASSERT(_thN > 0);
-  thNumWrapper::internalThreadNum() = _thN;
+  internal::thNumWrapper::internalThreadNum() = _thN;
 }
 
 namespace internal {
@@ -88,6 +90,15 @@ inline int parallelChunkSize(std::size_t taskNum) noexcept {
   return std::max(1, int(taskNum / std::size_t(threadNum())));
 }
 
+#ifdef EIGEN_HAS_OPENMP
+/**
+ * \ingroup HEU_GLOBAL
+ * \brief Number of threads that a parallel region should have. It is never greater than
+ * `threadNum()`, and it respects the limitation of OpenMP (`OMP_NUM_THREADS` for example) as well.
+ */
+inline int parallelTeamSize() noexcept { return std::min(threadNum(), omp_get_max_threads()); }
+#endif  //  EIGEN_HAS_OPENMP
+
 }  // namespace internal
 
 // if HEU_NO_THREADS is defined, HEU_HAS_OPENMP won't be defined, preventing following algorithms to
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index b4015dc..cff7198 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -84,7 +84,7 @@ class PSO4Eigen
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
+#pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index fd49d2a..bde5dc1 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -93,7 +93,7 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    */
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
-#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
+#pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 5d8aab0..327ba61 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -286,7 +286,7 @@ Var_t _velocityMax;
    */
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
-#pragma omp parallel for schedule(dynamic, internal::parallelChunkSize(_population.size()))
+#pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(_population.size()))
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From af6b181f36c2f16e74b605f8c5333fb7faaf3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 03/77] fix: make rectangle boxes of PSO usable

isSizeFixed and velocityMax() don't exist, and posMax(int) of square boxes
returned the lower bound.
---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index e1c6100..41c284b 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -44,7 +44,7 @@ class SquareBox4PSO {
 
   inline Scalar_t posMin(const int) const noexcept { return _posMinS; }
 
-  inline Scalar_t posMax(const int) const noexcept { return _posMinS; }
+  inline Scalar_t posMax(const int) const noexcept { return _posMaxS; }
 
   inline void setRange(const Scalar_t min, const Scalar_t max) noexcept {
     assert(min < max);
@@ -107,7 +107,7 @@ class NonsquareBox4PSO {
   inline Scalar_t posMax(const int idx) const noexcept { return at(_posMaxV, idx); }
 
   inline void setRange(const Var_t& _min, const Var_t& _max) noexcept {
-    if constexpr (!array_traits<Var_t>::isSizeFixed) {
+    if constexpr (!array_traits<Var_t>::isFixedSize) {
       assert(_min.size() == _max.size());
     }
 
@@ -234,8 +234,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d);
       }
     } else if constexpr (array_traits<Var_t>::isColVector) {
       if (this->posMin().size() != __d) {
@@ -244,8 +244,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d, 1);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d, 1);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d, 1);
       }
     } else {
       if (this->posMin().size() != __d) {
@@ -254,8 +254,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(1, __d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(1, __d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(1, __d);
       }
     }
   }
@@ -267,11 +267,11 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
   inline void assert4Size() const noexcept {
     assert(this->posMin().rows() == this->posMax().rows());
 
-    assert(this->posMax().rows() == this->velocityMax().rows());
+    assert(this->posMax().rows() == this->maxVelocity().rows());
 
     assert(this->posMin().cols() == this->posMax().cols());
 
-    assert(this->posMax().cols() == this->velocityMax().cols());
+    assert(this->posMax().cols() == this->maxVelocity().cols());
   }
 
  public:
@@ -299,8 +299,8 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
       this->posMax().resize(_r, _c);
     }
 
-    if (this->velocityMax().rows() != _r || this->velocityMax().cols() != _c) {
-      this->velocityMax().resize(_r, _c);
+    if (this->maxVelocity().rows() != _r || this->maxVelocity().cols() != _c) {
+      this->maxVelocity().resize(_r, _c);
     }
   }
 };
@@ -314,7 +314,7 @@ class NonSquareBoxDynamicDim4PSO
   static_assert(!array_traits<Var_t>::isFixedSize);
   inline int dimensions() const noexcept {
     assert(this->posMin().size() == this->posMax().size());
-    assert(this->posMax().size() == this->velocityMax().size());
+    assert(this->posMax().size() == this->maxVelocity().size());
 
     return this->posMin().size();
   }
-- 
2.43.0


From f7239e9067d2e21a812ddb294ddb6698765c88a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 04/77] fix: don't draw from the shared random generator inside
 parallel loops of PSO

---
 HeuristicFlow/src/PSO/PSO4Eigen.hpp |  8 +++++++-
 HeuristicFlow/src/PSO/PSO4std.hpp   | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index cff7198..d8c2911 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -83,12 +83,18 @@ class PSO4Eigen
    *
    */
   void __impl_updatePopulation() noexcept {
+    // The global random number generator is not thread-safe, so draw all random factors at first.
+    std::vector<std::array<Scalar_t, 2>> factors(this->_population.size());
+    for (auto& lF : factors) {
+      lF[0] = randD();
+      lF[1] = randD();
+    }
 #ifdef HEU_HAS_OPENMP
 #pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
-      const Scalar_t lFP = randD(), lFG = randD();
+      const Scalar_t lFP = factors[idx][0], lFG = factors[idx][1];
       i.velocity = this->_option.inertiaFactor * i.velocity +
                    this->_option.learnFactorP * lFP * (i.pBest.position - i.position) +
                    this->_option.learnFactorG * lFG * (this->gBest.position - i.position);
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index bde5dc1..469b886 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -92,13 +92,19 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    *
    */
   void __impl_updatePopulation() noexcept {
+    // The global random number generator is not thread-safe, so draw all random factors at first.
+    std::vector<std::array<double, 2>> factors(this->_population.size());
+    for (auto& lF : factors) {
+      lF[0] = randD();
+      lF[1] = randD();
+    }
 #ifdef HEU_HAS_OPENMP
 #pragma omp parallel for num_threads(internal::parallelTeamSize()) schedule(dynamic, internal::parallelChunkSize(this->_population.size()))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
-      const double rndP = randD();
-      const double rndG = randD();
+      const double rndP = factors[index][0];
+      const double rndG = factors[index][1];
       for (int idx = 0; idx < this->dimensions(); idx++) {
         i.velocity[idx] =
             this->_option.inertiaFactor * i.velocity[idx] +
-- 
2.43.0


From 809ad44ead046355dccf08fa501dca17cec58b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 05/77] fix: apply the box constraint of PSO on std containers
 through the box

_velocityMax, _posMin and _posMax are no longer members of the solver, so PSO
with std::vector or std::array didn't compile.
---
 HeuristicFlow/src/PSO/PSO4std.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 469b886..b0e974c 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -110,13 +110,13 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
             this->_option.inertiaFactor * i.velocity[idx] +
             this->_option.learnFactorP * rndP * (i.pBest.position[idx] - i.position[idx]) +
             this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);
-        if (std::abs(i.velocity[idx]) > this->_velocityMax[idx]) {
-          i.velocity[idx] = sign(i.velocity[idx]) * this->_velocityMax[idx];
-        }
+      }
+      this->applyConstraint4Velocity(&i.velocity);
+
+      for (int idx = 0; idx < this->dimensions(); idx++) {
         i.position[idx] += i.velocity[idx];
-        i.position[idx] = std::max(i.position[idx], this->_posMin[idx]);
-        i.position[idx] = std::min(i.position[idx], this->_posMax[idx]);
       }
+      this->applyConstraint4Position(&i.position);
     }
   }
 
-- 
2.43.0


From be62e37aeb6f6c9c756f5fe392cea65fb4c644d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 06/77] fix: initialise PSO populations of matrices in
 rectangle boxes

---
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 327ba61..1dde288 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -327,7 +327,7 @@ Var_t _velocityMax;
         at(*pos, idx) = randD(s->posMin(), s->posMax());
 
       } else {
-        at(*pos, idx) = randD(s->posMin()[idx], s->posMax()[idx]);
+        at(*pos, idx) = randD(s->posMin(idx), s->posMax(idx));
       }
     }
   }
-- 
2.43.0


From a1aa8f4a7f23cb7234dc24252e1a7b3c942e5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 07/77] fix: compare energies instead of addresses to find the
 best electron of a layer

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 099c765..77587a9 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -78,11 +78,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
         layer.bindingState += layer.at(idx)->state;
         layer.bindingEnergy += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
-          if (layer.at(idx) < layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         } else {
-          if (layer.at(idx) > layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy > layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         }
-- 
2.43.0


From 0788fb265cd068b1e25ac8f7eab672ab97838bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 08/77] fix: accumulate the binding energy of layers for std
 containers in AOS

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 77587a9..06e9413 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -196,6 +196,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
+        layer.bindingEnergy += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
-- 
2.43.0


From 7be491af364e2c7070f7064f6405b5a42cdba581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 09/77] fix: don't run out of layers when rounded layer sizes
 don't sum up in AOS

---
 HeuristicFlow/src/AOS/AOS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 99d5ddf..fe4963f 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -111,6 +111,8 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
         val = int(this->_electrons.size());
       }
     }
+    // the rounded numbers may be less than the total number of electrons
+    numOfEachLayer[tempLayerNum - 1] = int(this->_electrons.size());
 
     this->_layers.resize(tempLayerNum);
 
-- 
2.43.0


From 6cf8abd896b73417a1eda80544d192761ca8467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 10/77] fix: keep the best electron of AOS valid when ties are
 eliminated

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index fe4963f..5f8180e 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -85,6 +85,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       elecSortSpace.pop_back();
     }
 
+    // the previous best electron may be erased if there are ties
+    this->_atomBestPtr = &*elecSortSpace.front();
+
     this->_layers.clear();
 
     // a estimation value of layer number
-- 
2.43.0


From 6ff2798296e6b7fbcc21c844c9aebd37e006d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 11/77] fix: make AOS compile without OpenMP

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index b14d7be..735fd3f 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -122,7 +122,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
         continue;
       }
 
-      AOSExecutor<>::doFitness(this, &i.self, &i._Fitness);
+      AOSExecutor<>::doFitness(this, &i.state, &i.energy);
 
       i.isComputed = true;
     }
-- 
2.43.0


From cfab6b0e7d99e0403a639fd45acd8e9f83889005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 12/77] fix: make dynamic vectors and matrices usable in
 rectangle boxes

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 551445a..eb1dd77 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -308,7 +308,7 @@ class NonSquareBoxDynamicDimVec : public BoxBase<NonSquareBoxDynamicDimVec<Var>,
     return int(this->min().size());
   }
 
-  inline void setDimensions(const int dim) const noexcept {
+  inline void setDimensions(const int dim) noexcept {
     assert(dim > 0);
     this->min().resize(dim);
     this->max().resize(dim);
@@ -539,8 +539,8 @@ class NonSquareBoxDeltaCore {
   inline Scalar_t delta(const int idx) const noexcept { return at(_deltaV, idx); }
 
   inline void setDelta(const Var_t& __delta) noexcept {
-    for (Scalar_t deltaElement : __delta) {
-      assert(deltaElement > 0);
+    for (int idx = 0; idx < int(__delta.size()); idx++) {
+      assert(at(__delta, idx) > 0);
     }
     _deltaV = __delta;
   }
-- 
2.43.0


From 9242dad5afc06ab2cf7f986b9039f00e6d24ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 13/77] fix: don't read the previous best gene after it may
 have been erased

With ties, truncation and elite reserved selection may eliminate the gene that
was the best one in the previous generation.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index f22d2cc..400aefd 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -56,6 +56,8 @@ class SOGASelector<SelectMethod::Truncation> {
     using GeneIt_t = typename this_t::GeneIt_t;
 
     std::list<Gene_t>& popRef = static_cast<this_t*>(this)->_population;
+    // the previous best gene may be erased
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
     std::vector<GeneIt_t> sortSpace;
     sortSpace.clear();
     sortSpace.reserve((popRef.size()));
@@ -72,7 +74,8 @@ class SOGASelector<SelectMethod::Truncation> {
       sortSpace.pop_back();
     }
 
-    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front());
+    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front(),
+                                                           previousBestFitness);
   }
 
  private:
@@ -833,6 +836,8 @@ class SOGASelector<SelectMethod::EliteReserved> {
     const int popSizeBeforeSelect = int(static_cast<this_t*>(this)->_population.size());
     const int popSizeAfterSelect = int(static_cast<this_t*>(this)->_option.populationSize);
     const int eliminateNum = popSizeBeforeSelect - popSizeAfterSelect;
+    // the previous best gene may be erased
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
 
     if (eliminateNum <= 0) {
       static_cast<this_t*>(this)->updateFailTimesAndBestGene(
@@ -902,7 +907,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(
-        static_cast<this_t*>(this)->findCurrentBestGene());
+        static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
   }
 };
 
-- 
2.43.0


From f8f0063268bb6cccec8b4e29e66ec2c1e66b66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 14/77] fix: restore the population size in stochastic
 universal selection

If all fitness values are equal nobody was eliminated, so the population grew
in each generation.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 400aefd..9cbf169 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -755,11 +755,13 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
     }
 
     if (fitnessSum <= 0) {  //  unlikely
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
-        if (randD() * static_cast<this_t*>(this)->_option.populationSize <= popSizeBeforeSelect) {
-          it = eliminateSpace.erase(it);
-        } else {
-          ++it;
+      while (int(eliminateSpace.size()) > eliminateNum) {
+        const int sizeBeforeErasement = int(eliminateSpace.size());
+        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
+          if (randIdx(sizeBeforeErasement) == 0) {
+            eliminateSpace.erase(it);
+            break;
+          }
         }
       }
     } else {
@@ -787,7 +789,7 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
         fitnessCounter += it->second;
 
-        if (fitnessCounter >= pointerInterval) {
+        if (fitnessCounter >= pointerInterval && int(eliminateSpace.size()) > eliminateNum) {
           fitnessCounter -= pointerInterval;
           it = eliminateSpace.erase(it);
         } else {
-- 
2.43.0


From 629432f6e72b508502eaf33d094aa8cf11e80d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 15/77] fix: handle populations smaller than populationSize in
 NSGA2 and NSGA3

If populationSize is increased after initialization, the first selection went
on reading layers after the last one.
---
 HeuristicFlow/src/Genetic/NSGA2.hpp         | 2 +-
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA2.hpp b/HeuristicFlow/src/Genetic/NSGA2.hpp
index 78d53e0..570b1fd 100644
--- a/HeuristicFlow/src/Genetic/NSGA2.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA2.hpp
@@ -207,7 +207,7 @@ class NSGA2
     bool needCongestion = true;
     while (true) {
       // don't need to calculate congestion
-      if (selected.size() == this->_option.populationSize) {
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needCongestion = false;
         break;
       }
diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 86d08c8..02d6e3e 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -163,7 +163,7 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
 
     while (true) {
       // Luckily we don't need to select part of some genes in Fl.
-      if (selected.size() == this->_option.populationSize) {
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needRefPoint = false;
         break;
       }
-- 
2.43.0


From 7baac12b562814021c3d2558f0fa1d5ff2f06e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 16/77] fix: don't break ties of extreme points by heap
 addresses in NSGA3

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 02d6e3e..f37d1fd 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -272,7 +272,10 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
       extremePoints.col(c) = extremePtrs[c]->fitness;
     }
 
-    for (auto i : selected) {
+    // go through genes in the order of sortSpace, so that ties won't be broken by addresses.
+    for (const GeneIt_t& it : this->sortSpace) {
+      Gene_t* const i = &*it;
+      if (selected.find(i) == selected.end()) continue;
       ideal = ideal.min(i->fitness);
       for (size_t objIdx = 0; objIdx < M; objIdx++) {
         if (i->fitness[objIdx] > extremePtrs[objIdx]->fitness[objIdx]) {
-- 
2.43.0


From 2bec2177de3e7d919031963edc2e41b59f297e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 17/77] fix: don't order genes by heap addresses in tournament
 selection

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 9cbf169..4a8d5e3 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -285,11 +285,15 @@ class SOGASelector<SelectMethod::Tournament> {
       }
     }
 
-    for (auto& pair : selectCounter) {
-      while (pair.second > 0) {
-        // copy if a gene is selected for more than once
-        static_cast<this_t*>(this)->_population.emplace_back(*pair.first);
-        pair.second--;
+    // copy if a gene is selected for more than once. The order of selectCounter depends on
+    // addresses, so copies are made in the order of the population.
+    const int survivorNum = int(static_cast<this_t*>(this)->_population.size());
+    GeneIt_t survivor = static_cast<this_t*>(this)->_population.begin();
+    for (int idx = 0; idx < survivorNum; idx++, ++survivor) {
+      int& restTimes = selectCounter[&*survivor];
+      while (restTimes > 0) {
+        static_cast<this_t*>(this)->_population.emplace_back(*survivor);
+        restTimes--;
       }
     }
 
-- 
2.43.0


From f3089063f15dc0b2b4404964910f5412b1795308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 18/77] fix: make multi-objective solvers with runtime
 objective numbers compile

isCalculated() and self are no longer members of genes.
---
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp | 2 +-
 HeuristicFlow/src/Genetic/MOGABase.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 3691f3c..7eaba3d 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -101,7 +101,7 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
     front.clear();
     front.reserve(_pfGenes.size());
     for (const Gene* i : _pfGenes) {
-      front.emplace_back(std::make_pair(&(i->self), &(i->fitness)));
+      front.emplace_back(std::make_pair(&(i->decision_variable), &(i->fitness)));
     }
   }
 
diff --git a/HeuristicFlow/src/Genetic/MOGABase.hpp b/HeuristicFlow/src/Genetic/MOGABase.hpp
index 1d60c58..fa6e644 100644
--- a/HeuristicFlow/src/Genetic/MOGABase.hpp
+++ b/HeuristicFlow/src/Genetic/MOGABase.hpp
@@ -151,7 +151,7 @@ class MOGABase<Var_t, Eigen::Dynamic, fOpt, rOpt, Gene, Args_t, _iFun_, _fFun_,
  protected:
   inline void __impl_computeAllFitness() noexcept {
     for (Gene_t& g : this->_population) {
-      if (!g.isCalculated()) {
+      if (!g.is_fitness_computed) {
         g.fitness.resize(objectiveNum(), 1);
       }
     }
-- 
2.43.0


From 120f0fc6516f37cf233e5f66344fb623634535f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 19/77] fix: keep the weights of selection finite when fitness
 values are infinite or huge

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 51 +++++++++++++++++----
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 4a8d5e3..5b31d50 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -20,6 +20,9 @@ This file is part of HeuristicFlow.
 #ifndef HEU_SOGASELECTORS_HPP
 #define HEU_SOGASELECTORS_HPP
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
 #include <unordered_map>
 
 #include "GABase.hpp"
@@ -44,6 +47,21 @@ class SOGASelector {
 template <SelectMethod sm>
 class SOGAInheriter;
 
+/**
+ * \ingroup HEU_GENETIC
+ * \brief Limit a value so that the differences of `num` limited values, and the sum of these
+ * differences, are always finite. Infinite fitness values (penalties for example) would otherwise
+ * turn the weights of selection into inf and NaN, and the selection would never finish.
+ *
+ * \param value The value, greater means better. NaN is considered to be the worst.
+ * \param num Number of values
+ */
+inline double limitSelectValue(const double value, const std::size_t num) noexcept {
+  const double limit = std::numeric_limits<double>::max() / (4.0 * double(num + 1));
+  // the comparison is false when value is NaN
+  return (value > -limit) ? std::min(value, limit) : -limit;
+}
+
 template <>
 class SOGASelector<SelectMethod::Truncation> {
   friend class SOGAInheriter<SelectMethod::Truncation>;
@@ -128,9 +146,11 @@ class SOGASelector<SelectMethod::RouletteWheel> {
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
       // If fitness option is FITNESS_LESS_BETTER, take the inverse value
       if constexpr (this_t::FitnessOpt == FitnessOption::FITNESS_GREATER_BETTER) {
-        eliminateSpace.emplace_back(std::make_pair(it, it->fitness));
+        eliminateSpace.emplace_back(
+            std::make_pair(it, limitSelectValue(it->fitness, static_cast<this_t*>(this)->_population.size())));
       } else {
-        eliminateSpace.emplace_back(std::make_pair(it, -it->fitness));
+        eliminateSpace.emplace_back(
+            std::make_pair(it, limitSelectValue(-it->fitness, static_cast<this_t*>(this)->_population.size())));
       }
       minFitness = std::min(minFitness, eliminateSpace.back().second);
     }
@@ -384,9 +404,11 @@ class SOGASelector<SelectMethod::Probability> {
            it != static_cast<this_t*>(this)->_population.end(); ++it) {
         // If fitness option is FITNESS_LESS_BETTER, take the inverse value
         if constexpr (this_t::FitnessOpt == FitnessOption::FITNESS_GREATER_BETTER) {
-          eliminateSpace.emplace_back(std::make_pair(it, it->fitness));
+          eliminateSpace.emplace_back(
+            std::make_pair(it, limitSelectValue(it->fitness, prevPopSize)));
         } else {
-          eliminateSpace.emplace_back(std::make_pair(it, -it->fitness));
+          eliminateSpace.emplace_back(
+            std::make_pair(it, limitSelectValue(-it->fitness, prevPopSize)));
         }
 
         minFitness = std::min(eliminateSpace.back().second, minFitness);
@@ -675,16 +697,21 @@ class SOGASelector<SelectMethod::Boltzmann> {
     }
 
     std::list<std::pair<GeneIt_t, double>> eliminateSpace;
+    double maxExponent = ninfD;
     // double Z = 0;    //Z is erased because probability normalization is not guaranteed.
     for (GeneIt_t it = static_cast<this_t*>(this)->_population.begin();
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
-      eliminateSpace.emplace_back(it, it->fitness);
+      eliminateSpace.emplace_back(
+          it, limitSelectValue(_boltzmannSelectStrength * it->fitness, popSizeBeforeSelect));
+      maxExponent = std::max(maxExponent, eliminateSpace.back().second);
       // Z += std::exp(it->fitness);
     }
 
     double rMax = 0;  // the sum of "probability"
     for (auto& pair : eliminateSpace) {
-      pair.second = std::exp(_boltzmannSelectStrength * pair.second);
+      // Only the ratios between "probabilities" are meaningful. Subtracting the maximum exponent
+      // prevents overflow.
+      pair.second = std::exp(pair.second - maxExponent);
       rMax += pair.second;  //  the sum of probability may not be 1.
     }
 
@@ -743,9 +770,11 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
       // If fitness option is FITNESS_LESS_BETTER, take the inverse value
       if constexpr (this_t::FitnessOpt == FitnessOption::FITNESS_GREATER_BETTER) {
-        eliminateSpace.emplace_back(std::make_pair(it, it->fitness));
+        eliminateSpace.emplace_back(
+            std::make_pair(it, limitSelectValue(it->fitness, popSizeBeforeSelect)));
       } else {
-        eliminateSpace.emplace_back(std::make_pair(it, -it->fitness));
+        eliminateSpace.emplace_back(
+            std::make_pair(it, limitSelectValue(-it->fitness, popSizeBeforeSelect)));
       }
 
       minFitness = std::min(minFitness, eliminateSpace.back().second);
@@ -867,9 +896,11 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
       for (int idx = _eliteNum; idx < int(sortSpace.size()); idx++) {
         if constexpr (this_t::FitnessOpt == FitnessOption::FITNESS_GREATER_BETTER)
-          eliminateSpace.emplace_back(sortSpace[idx], sortSpace[idx]->fitness);
+          eliminateSpace.emplace_back(sortSpace[idx],
+                                      limitSelectValue(sortSpace[idx]->fitness, popSizeBeforeSelect));
         else
-          eliminateSpace.emplace_back(sortSpace[idx], -sortSpace[idx]->fitness);
+          eliminateSpace.emplace_back(sortSpace[idx],
+                                      limitSelectValue(-sortSpace[idx]->fitness, popSizeBeforeSelect));
 
         minFitness = std::min(minFitness, eliminateSpace.back().second);
       }
-- 
2.43.0


From d2c65864151c39d39dda570e08fc8218592b3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 20/77] fix: initialise the strength of Boltzmann selection
 when it's chosen at runtime

---
 HeuristicFlow/src/Genetic/SOGA.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGA.hpp b/HeuristicFlow/src/Genetic/SOGA.hpp
index 80ff28a..4d670c7 100644
--- a/HeuristicFlow/src/Genetic/SOGA.hpp
+++ b/HeuristicFlow/src/Genetic/SOGA.hpp
@@ -124,7 +124,8 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
  public:
   HEU_MAKE_GABASE_TYPES(Base_t)
   SOGA() {
-    if constexpr (smOpt == SelectMethod::Boltzmann) {
+    // the selection method can be Boltzmann as well if it's determined at runtime
+    if constexpr (smOpt == SelectMethod::Boltzmann || smOpt == SelectMethod::RunTimeSelectMethod) {
       this->_boltzmannSelectStrength = 10 * (fOpt == FITNESS_LESS_BETTER ? -1 : 1);
     }
   }
-- 
2.43.0


From 52d5c46df618b6a8a171164172ebb5cb5a5fdf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 21/77] fix: make cFunSwapNs and cFunSwapXs compile for std
 containers

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index f88c615..0ad6496 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -49,10 +49,15 @@ struct imp_GADefaults_DVO {
     const size_t N = p1->size();
     const size_t idx = randIdx(N);
 
-    c1->topRows(idx) = p1->topRows(idx);
-    c2->topRows(idx) = p2->topRows(idx);
-    c1->bottomRows(N - idx) = p2->bottomRows(N - idx);
-    c2->bottomRows(N - idx) = p1->bottomRows(N - idx);
+    for (size_t i = 0; i < N; i++) {
+      if (i < idx) {
+        c1->operator[](i) = p1->operator[](i);
+        c2->operator[](i) = p2->operator[](i);
+      } else {
+        c1->operator[](i) = p2->operator[](i);
+        c2->operator[](i) = p1->operator[](i);
+      }
+    }
   }
 };
 
-- 
2.43.0


From 12e5403202b54ae873b541ac5ed14ae1c09a1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 22/77] fix: respect the probability given to cFunRandXs

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 0ad6496..afd1272 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -451,7 +451,7 @@ struct GADefaults<Var_t, void> {
    */
   template <DivCode p = DivCode::DivCode_Half>
   inline static void cFunRandXs(const Var_t *p1, const Var_t *p2, Var_t *c1, Var_t *c2) noexcept {
-    Heu_PRIVATE_IMP_cFunX cFunRandNs(p1, p2, c1, c2);
+    Heu_PRIVATE_IMP_cFunX cFunRandNs<p>(p1, p2, c1, c2);
   }
 };
 
-- 
2.43.0


From 76e88e7dff0e0bcf9204d2302eb3848dc0d862cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 23/77] Add observation points for the deterministic simulator,
 disabled by default

---
 HeuristicFlow/src/AOS/AOSBase.hpp     |  5 +++++
 HeuristicFlow/src/Genetic/GABase.hpp  |  3 +++
 HeuristicFlow/src/Global/Macros.hpp   | 10 ++++++++++
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp |  3 +++
 4 files changed, 21 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOSBase.hpp b/HeuristicFlow/src/AOS/AOSBase.hpp
index 836a251..a28e630 100644
--- a/HeuristicFlow/src/AOS/AOSBase.hpp
+++ b/HeuristicFlow/src/AOS/AOSBase.hpp
@@ -105,22 +105,27 @@ class AOSBase
   void __impl_run() noexcept {
     while (true) {
       static_cast<this_t*>(this)->__impl_computeFitness();
+      HEU_SIM_POINT(this, 0)
 
       static_cast<this_t*>(this)->__impl_computeAtomBSBELE();
 
       static_cast<this_t*>(this)->__impl_recordFitness();
+      HEU_SIM_POINT(this, 1)
 
       static_cast<this_t*>(this)->__impl_selectAndMakeLayers();
+      HEU_SIM_POINT(this, 2)
 
       if (static_cast<this_t*>(this)->__impl_shouldTerminate()) {
         break;
       }
 
       static_cast<this_t*>(this)->__impl_computeLayerBSBELE();
+      HEU_SIM_POINT(this, 3)
 
       static_cast<this_t*>(this)->template __impl_updateElectrons<this_t>();
 
       this->_generation++;
+      HEU_SIM_POINT(this, 4)
     }
   }
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 901cae5..7130c9c 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -175,10 +175,12 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
     while (true) {
       _generation++;
       static_cast<this_t *>(this)->__impl_computeAllFitness();
+      HEU_SIM_POINT(this, 0)
 
       static_cast<this_t *>(this)->__impl_select();
 
       static_cast<this_t *>(this)->template __impl_recordFitness<this_t>();
+      HEU_SIM_POINT(this, 1)
 
       if (_generation > _option.maxGenerations) {
 #ifdef HEU_DO_OUTPUT
@@ -200,6 +202,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
 #endif
       static_cast<this_t *>(this)->__impl_crossover();
       static_cast<this_t *>(this)->__impl_mutate();
+      HEU_SIM_POINT(this, 2)
     }
     _generation--;
   }
diff --git a/HeuristicFlow/src/Global/Macros.hpp b/HeuristicFlow/src/Global/Macros.hpp
index 407876f..13ede3f 100644
--- a/HeuristicFlow/src/Global/Macros.hpp
+++ b/HeuristicFlow/src/Global/Macros.hpp
@@ -45,4 +45,14 @@ This file is part of HeuristicFlow.
     }                          \
   }
 
+// Observation points for the deterministic simulator. They exist only if HEU_SIMULATION is defined,
+// otherwise HEU_SIM_POINT is nothing. The function must be provided by the simulator.
+#ifdef HEU_SIMULATION
+extern "C" void heu_sim_point(const void* solver, int stage) noexcept;
+#define HEU_SIM_POINT(solver, stage) \
+  { ::heu_sim_point(solver, stage); }
+#else
+#define HEU_SIM_POINT(solver, stage)
+#endif  //  HEU_SIMULATION
+
 #endif  //  HEU_MACROS_HPP
\ No newline at end of file
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 1dde288..308db7d 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -239,9 +239,11 @@ Var_t _velocityMax;
     while (true) {
       _generation++;
       static_cast<this_t*>(this)->__impl_computeAllFitness();
+      HEU_SIM_POINT(this, 0)
       static_cast<this_t*>(this)->__impl_updatePGBest();
 
       static_cast<this_t*>(this)->template __impl_recordFitness<this_t>();
+      HEU_SIM_POINT(this, 1)
       if (_generation > _option.maxGeneration) {
 #ifdef HEU_DO_OUTPUT
         std::cout << "Terminated by max generation limit" << std::endl;
@@ -262,6 +264,7 @@ Var_t _velocityMax;
                 << std::endl;
 #endif
       static_cast<this_t*>(this)->__impl_updatePopulation();
+      HEU_SIM_POINT(this, 2)
     }
     _generation--;
   }
-- 
2.43.0


From d489a55b1a7cc0282d951107d2ed1dad2c01ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 24/77] fix: never cross over or mutate when the probability is
 zero

---
 HeuristicFlow/src/Genetic/GABase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 7130c9c..2823675 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -267,7 +267,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
     crossoverQueue.reserve(_population.size());
 
     for (GeneIt_t it = _population.begin(); it != _population.end(); it++) {
-      if (randD() <= _option.crossoverProb) {
+      if (randD() < _option.crossoverProb) {
         crossoverQueue.emplace_back(it);
       }
     }
@@ -306,7 +306,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
     std::vector<GeneIt_t> mutateList;
     mutateList.reserve(size_t(this->_population.size() * this->_option.mutateProb * 2));
     for (auto it = this->_population.begin(); it != this->_population.end(); ++it) {
-      if (randD() <= this->_option.mutateProb) {
+      if (randD() < this->_option.mutateProb) {
         mutateList.emplace_back(it);
       }
     }
-- 
2.43.0


From cf0887ce144011ea263c298c85f41832f1a38a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 25/77] fix: remove every empty layer in AOS, not only trailing
 ones

---
 HeuristicFlow/src/AOS/AOS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 5f8180e..3591bfa 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -136,9 +136,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
     }
 
     // remove empty layers
-    while (this->_layers.back().size() <= 0) {
-      this->_layers.pop_back();
-    }
+    this->_layers.erase(std::remove_if(this->_layers.begin(), this->_layers.end(),
+                                       [](const Layer_t& layer) { return layer.empty(); }),
+                        this->_layers.end());
   }
 };
 
-- 
2.43.0


From 8e96437ab85ce0fcc1ec296e9ba28a33d31f86f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 26/77] fix: change variables by at most delta in fixed
 continuous boxes

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index eb1dd77..fda1929 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -645,6 +645,16 @@ class FixedContinousBox20 : public FixedDiscreteBox<Var, _minCT, _maxCT> {
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var>::Scalar_t;
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 #endif
@@ -661,6 +671,16 @@ class FixedContinousBox17 : public FixedDiscreteBox17<Var, _minCode, _maxCode> {
   static_assert(_deltaCT > 0);
 
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 namespace {
-- 
2.43.0


From cb486671ea81f852758931adbb960aa1565dcfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 27/77] fix: copies of a solver referred to the individuals of
 the original

The best gene of SOGA, the Pareto front of the multi-objective solvers and the best electron and the layers of AOS
are references into the population. A copied (or moved: their destructors
suppress moving) solver kept referring to the population it was copied from,
so its results dangled once the original was gone.
---
 HeuristicFlow/src/AOS/AOS.hpp              | 32 ++++++++++++++++++++++
 HeuristicFlow/src/AOS/AOSBoxed.hpp         |  2 +-
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp | 22 +++++++++++++++
 HeuristicFlow/src/Genetic/SOGA.hpp         | 26 +++++++++++++++++-
 4 files changed, 80 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 3591bfa..86c9758 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -21,6 +21,7 @@ This file is part of HeuristicFlow.
 #define HEU_AOS_HPP
 
 #include <algorithm>
+#include <unordered_map>
 
 #include <HeuristicFlow/EAGlobal>
 
@@ -57,9 +58,40 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
                                  internal::DefaultElectron<Var_t, double>, fOpt,
                                  RecordOption::DONT_RECORD_FITNESS>;
 
+  AOS() = default;
+  AOS(AOS&&) = default;
+  AOS& operator=(AOS&&) = default;
+  /// The best electron and the layers of a copy refer to its own electrons
+  AOS(const AOS& other) : Base_t(other) { rebindElectrons(other); }
+  AOS& operator=(const AOS& other) {
+    if (this != &other) {
+      Base_t::operator=(other);
+      rebindElectrons(other);
+    }
+    return *this;
+  }
+
   HEU_RELOAD_MEMBERFUCTION_RUN
 
  protected:
+  /// Replace all references to the electrons of another solver by the ones copied from them
+  void rebindElectrons(const AOS& other) noexcept {
+    std::unordered_map<const Electron_t*, Electron_t*> copyOf;
+    auto copied = this->_electrons.begin();
+    for (const Electron_t& elec : other._electrons) {
+      copyOf.emplace(&elec, &*copied);
+      ++copied;
+    }
+
+    const auto best = copyOf.find(other._atomBestPtr);
+    this->_atomBestPtr = (best == copyOf.end()) ? nullptr : best->second;
+    for (Layer_t& layer : this->_layers) {
+      for (Electron_t*& elec : layer) {
+        elec = copyOf.at(elec);
+      }
+    }
+  }
+
   static inline bool electronIteratorCompareFun(const ElectronIt_t& a,
                                                 const ElectronIt_t& b) noexcept {
     if constexpr (fOpt == FitnessOption::FITNESS_GREATER_BETTER) {
diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index 735fd3f..8632b47 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -92,7 +92,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
   std::vector<Layer> _layers;
   Var_t _bindingState;
   Fitness_t _bindingEnergy;
-  const Electron_t* _atomBestPtr;
+  const Electron_t* _atomBestPtr = nullptr;
   AOSOption _option;
   size_t _generation;
   size_t _earlyStopCounter;
diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 7eaba3d..1aa9064 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -65,6 +65,16 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
   static_assert(ObjNum != 1, "You assigend 1 objective in multi-objective problems");
 
  public:
+  MOGAAbstract() = default;
+  /// The Pareto front of a copy consists of its own genes, not of those of the original
+  MOGAAbstract(const MOGAAbstract& other) : Base_t(other) { copyParetoFront(other); }
+  MOGAAbstract& operator=(const MOGAAbstract& other) {
+    if (this != &other) {
+      Base_t::operator=(other);
+      copyParetoFront(other);
+    }
+    return *this;
+  }
   ~MOGAAbstract() = default;
   HEU_MAKE_GABASE_TYPES(Base_t)
 
@@ -147,6 +157,18 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
  protected:
   std::unordered_set<const Gene*> _pfGenes;  ///< A hash set to store the whole PF
 
+  /// Make up the PF of those genes that were copied from the PF of another solver
+  inline void copyParetoFront(const MOGAAbstract& other) noexcept {
+    _pfGenes.clear();
+    auto copied = this->_population.begin();
+    for (const Gene& gene : other._population) {
+      if (other._pfGenes.count(&gene) > 0) {
+        _pfGenes.emplace(&*copied);
+      }
+      ++copied;
+    }
+  }
+
   /*
    * \brief Compute the hash checksum of current PF
    *
diff --git a/HeuristicFlow/src/Genetic/SOGA.hpp b/HeuristicFlow/src/Genetic/SOGA.hpp
index 4d670c7..2163753 100644
--- a/HeuristicFlow/src/Genetic/SOGA.hpp
+++ b/HeuristicFlow/src/Genetic/SOGA.hpp
@@ -129,6 +129,18 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
       this->_boltzmannSelectStrength = 10 * (fOpt == FITNESS_LESS_BETTER ? -1 : 1);
     }
   }
+  /// The best gene of a copy is its own one, not a gene of the original
+  SOGA(const SOGA& other) : Base_t(other), internal::SOGASelector<smOpt>(other) {
+    copyBestGene(other);
+  }
+  SOGA& operator=(const SOGA& other) {
+    if (this != &other) {
+      Base_t::operator=(other);
+      internal::SOGASelector<smOpt>::operator=(other);
+      copyBestGene(other);
+    }
+    return *this;
+  }
   ~SOGA() = default;
 
   HEU_RELOAD_MEMBERFUCTION_RUN
@@ -166,7 +178,19 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
   }
 
  protected:
-  GeneIt_t _bestGene;  ///< Iterator the the elite
+  GeneIt_t _bestGene{};  ///< Iterator the the elite
+
+  /// Find the gene of this population that was copied from the best gene of another solver
+  inline void copyBestGene(const SOGA& other) noexcept {
+    _bestGene = this->_population.begin();
+    for (const Gene_t& gene : other._population) {
+      if (&gene == &*other._bestGene) {
+        break;
+      }
+      ++_bestGene;
+    }
+  }
+
   /**
    * \brief Returns whether A is better than B
    *
-- 
2.43.0


From 3d22f2886a2c2c940445c0be9fcd52924d85fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 28/77] fix: the counters of a solver were indeterminate before
 its first run

generation() and failTimes() (earlyStopCounter() in AOS) returned whatever the
memory of a new solver contained.
---
 HeuristicFlow/src/AOS/AOSBoxed.hpp    | 4 ++--
 HeuristicFlow/src/Genetic/GABase.hpp  | 4 ++--
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index 8632b47..6b34680 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -94,8 +94,8 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
   Fitness_t _bindingEnergy;
   const Electron_t* _atomBestPtr = nullptr;
   AOSOption _option;
-  size_t _generation;
-  size_t _earlyStopCounter;
+  size_t _generation{0};
+  size_t _earlyStopCounter{0};
 
   void __impl_computeFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 2823675..e0c10ee 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -151,8 +151,8 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
   poplist_t _population;  ///< Population stored in list
   GAOption _option;       ///< Option of GA solver
 
-  size_t _generation;  ///< Current generation
-  size_t _failTimes;   ///< Current failtimes
+  size_t _generation{0};  ///< Current generation
+  size_t _failTimes{0};   ///< Current failtimes
 
   inline void __impl_clearRecord() noexcept {
   }  ///< Nothing is need to do if the solver doesn't record fitnesses.
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 308db7d..1a431f8 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -196,10 +196,10 @@ class PSOAbstract : public PSOParameterPack<Var_t, Fitness_t, Arg_t>,
   PSOOption _option;
 
   /// Generation used.
-  size_t _generation;
+  size_t _generation{0};
 
   /// failtimes
-  size_t _failTimes;
+  size_t _failTimes{0};
 
   /*
 /// Minimum position
-- 
2.43.0


From 364977426810b59ef573ff32115adb52737210e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 29/77] fix: a recording solver with a huge generation limit
 was terminated

Recording reserved space for the whole limit in a noexcept function. With a limit that only serves as
a backstop for the failure limit the allocation fails and std::terminate is called.
---
 HeuristicFlow/src/AOS/AOSBase.hpp     | 1 -
 HeuristicFlow/src/Genetic/GABase.hpp  | 1 -
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 1 -
 3 files changed, 3 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBase.hpp b/HeuristicFlow/src/AOS/AOSBase.hpp
index a28e630..1181f55 100644
--- a/HeuristicFlow/src/AOS/AOSBase.hpp
+++ b/HeuristicFlow/src/AOS/AOSBase.hpp
@@ -153,7 +153,6 @@ class AOSBase<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_, Electron, fOpt,
   inline void initializePop() noexcept {
     Base_t::initializePop();
     _record.clear();
-    _record.reserve(this->_option.maxGeneration + 1);
   }
 
  protected:
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index e0c10ee..f82c315 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -424,7 +424,6 @@ class GABase<Var_t, Fitness_t, RECORD_FITNESS, Gene, Args_t, _iFun_, _fFun_, _cF
 
   inline void __impl_clearRecord() noexcept {
     _record.clear();
-    _record.reserve(this->_option.maxGenerations + 1);
   }
 
   template <class this_t>
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 1a431f8..06b2faf 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -428,7 +428,6 @@ class PSOAbstract<Var_t, Fitness_t, RECORD_FITNESS, Arg_t, BS, _iFun_, _fFun_>
    */
   inline void __impl_clearRecord() noexcept {
     _record.clear();
-    _record.reserve(this->_option.maxGeneration + 1);
   }
 
   /**
-- 
2.43.0


From 3820ce053b19046beb36a92cda0e61ab8988a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 30/77] fix: MatrixDynamicSize copy constructor starts from an
 empty matrix

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f756ae4..b8874de 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -90,7 +90,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    *
    * \param src Source of copying
    */
-  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept {
+  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept : MatrixDynamicSize() {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
       dataPtr[i] = src.dataPtr[i];
-- 
2.43.0


From 37f07b0945f1e472120d8d166bdf9afe60ba2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 31/77] fix: MatrixDynamicSize copy assignment works for plain
 element types

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b8874de..15eea69 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -136,11 +136,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
   MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
-      if constexpr (!std::is_trivially_copy_assignable_v<Scalar_t>) {
-        dataPtr[i] = src.dataPtr[i];
-      } else {
-        memcpy(dataPtr, src, sizeof(Scalar_t) * src.size());
-      }
+      dataPtr[i] = src.dataPtr[i];
     }
     return *this;
   }
-- 
2.43.0


From ce071c7338192aedbacb70fb244c39719e00257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 32/77] fix: MatrixDynamicSize move assignment returns a value
 and survives self-assignment

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 15eea69..b34d584 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -148,6 +148,8 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return MatrixDynamicSize&
    */
   MatrixDynamicSize &operator=(MatrixDynamicSize &&src) noexcept {
+    if (this == &src) return *this;
+
     if (this->dataPtr != nullptr) {
       if constexpr (!std::is_trivially_destructible_v<Scalar_t>) {
         for (int i = 0; i < _capacity; i++) {
@@ -166,6 +168,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     src.colNum = 0;
     this->_capacity = src._capacity;
     src._capacity = 0;
+    return *this;
   }
 
   template <class DerivedB>
-- 
2.43.0


From 06e19ff26ee84cbbc74e260724bb6ff8eb2dd7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 33/77] fix: MatrixDynamicSize::reserve grows instead of
 shrinking and moves its elements

---
 .../src/SimpleMatrix/MatrixDynamicSize.hpp         | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b34d584..16bfe3b 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -227,13 +227,21 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \param s Size to be reserved
    */
   void reserve(int s) noexcept {
-    if (_capacity <= s) return;
+    if (s <= _capacity) return;
 
     Scalar_t *newPtr = alloc().allocate(s);
 
-    memcpy(newPtr, dataPtr, sizeof(Scalar_t) * _capacity);
+    for (int i = 0; i < s; i++) {
+      std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i);
+    }
 
-    alloc().deallocate(dataPtr, _capacity);
+    if (dataPtr != nullptr) {
+      for (int i = 0; i < _capacity; i++) {
+        newPtr[i] = std::move(dataPtr[i]);
+        (dataPtr + i)->~Scalar_t();
+      }
+      alloc().deallocate(dataPtr, _capacity);
+    }
 
     _capacity = s;
 
-- 
2.43.0


From e01a28766d06a0a0549d10569cb4ac22f0b0cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 34/77] fix: MatrixDynamicSize::resize constructs and destroys
 elements that need it

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 16bfe3b..570fa4b 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -258,7 +258,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     if (r * c != size()) {
       if (r * c > _capacity) {
         if (dataPtr != nullptr) {
-          if constexpr (std::is_trivially_destructible_v<Scalar_t>)
+          if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
             for (int i = 0; i < _capacity; i++) {
               // alloc().destroy(dataPtr + i);
               (dataPtr + i)->~Scalar_t();
@@ -269,11 +269,9 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
         dataPtr = alloc().allocate(r * c);
         _capacity = r * c;
 
-        if constexpr (std::is_trivially_default_constructible_v<Scalar_t>)
-          for (int i = 0; i < _capacity; i++) {
-            // alloc().construct(dataPtr + i);
-            dataPtr[i] = Scalar_t();
-          }
+        for (int i = 0; i < _capacity; i++) {
+          std::allocator_traits<allocator_t>::construct(alloc(), dataPtr + i);
+        }
       }
     }
 
-- 
2.43.0


From 26a2375c235b9833696ec7469076b7670ba6c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 35/77] fix: MatrixMap names its element type publicly so that
 it can be assigned from and to other matrices

---
 HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
index af4b033..333afcf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
@@ -27,6 +27,7 @@ namespace heu {
 
 template <typename Scalar>
 class MatrixMap : public MatrixBase<MatrixMap<Scalar>> {
+ public:
   using Scalar_t = Scalar;
 
  protected:
-- 
2.43.0


From d543ed1c40101d867c3b2a2f1bca4e5e16bef25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 36/77] fix: multiBitSet(0) is an empty set

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 00aa9e9..d33356c 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -351,7 +351,7 @@ class multiBitSet {
    *
    * \param __size The initial size.
    */
-  multiBitSet(size_t __size) {
+  multiBitSet(size_t __size) : multiBitSet() {
     if (__size <= 0) {
       return;
     }
-- 
2.43.0


From b62b4d562355b5a003ec9b265de86bc967a0e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 37/77] fix: multiBitSet counts the blocks it needs with
 integers

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index d33356c..15374ca 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -357,7 +357,7 @@ class multiBitSet {
     }
 
     // const size_t __bytesNeed = std::ceil(float(eleBits * __size) / 8);
-    const size_t __blocksNeed = size_t(std::ceil(float(__size * eleBits) / (blockBits)));
+    const size_t __blocksNeed = (__size * eleBits + blockBits - 1) / blockBits;
     _data = alloc().allocate(__blocksNeed);
     _end = _data + __blocksNeed;
     _size = __size;
@@ -462,7 +462,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = size_t(std::ceil(float(newSize * eleBits) / (sizeof(block_t) * 8)));
+    const size_t newBlockNum = (newSize * eleBits + blockBits - 1) / blockBits;
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -485,7 +485,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = std::ceil(float(newCap * eleBits) / (sizeof(block_t) * 8));
+    const size_t newBlockNum = (newCap * eleBits + blockBits - 1) / blockBits;
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -498,7 +498,7 @@ class multiBitSet {
   }
 
   inline void shrink_to_fit() noexcept {
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = (size() * eleBits + blockBits - 1) / blockBits;
 
     if (blocksNeed == blocks()) {
       return;
@@ -564,7 +564,7 @@ class multiBitSet {
     }
 
     resize(another.size());
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = (size() * eleBits + blockBits - 1) / blockBits;
 
     memcpy(_data, another._data, blocksNeed * sizeof(block_t));
     return *this;
-- 
2.43.0


From 778f5a6dc6da786956277c9307be5af52a241baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 38/77] fix: copying a multiBitSet with spare capacity stays
 inside the new memory

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 15374ca..1c0c415 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -377,7 +377,7 @@ class multiBitSet {
     if (b.size() > 0) {
       this->resize(b.size());
 
-      memcpy(this->_data, b._data, b.blocks() * sizeof(block_t));
+      memcpy(this->_data, b._data, this->blocks() * sizeof(block_t));
     }
   }
 
-- 
2.43.0


From 8edc0b349080282491591cca03f4c19309997ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 39/77] fix: multiBitSet move constructor compiles

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 1c0c415..b1e6e7c 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -393,7 +393,7 @@ class multiBitSet {
 
     b._size = 0;
     b._data = 0;
-    b.end = 0;
+    b._end = 0;
   }
 
   /**
-- 
2.43.0


From 6024ad09bb60614d11d6e89af976c141ac6934ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 40/77] fix: multiBitSet::reserve keeps all blocks

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index b1e6e7c..6559d34 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -489,7 +489,7 @@ class multiBitSet {
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
-    memcpy(newDataPtr, _data, _end - _data);
+    memcpy(newDataPtr, _data, (_end - _data) * sizeof(block_t));
 
     alloc().deallocate(_data, _end - _data);
 
-- 
2.43.0


From 378eb003c5f08ec40a91c5f89849108cfcc3ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 41/77] fix: multiBitSet elements across two narrow blocks
 replace the old value

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 6559d34..0fd8770 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -622,7 +622,7 @@ class multiBitSet {
       const size_t rightBitNum = lastScalarBitIdx - midBitIdx + 1;
 
       (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;
-      (*blockNextPtr) = ((*blockNextPtr) << rightBitNum) >> rightBitNum;
+      (*blockNextPtr) = block_t((*blockNextPtr) << rightBitNum) >> rightBitNum;
 
       (*blockPrevPtr) |= (value >> (rightBitNum));
       (*blockNextPtr) |= (value << (blockBits - rightBitNum));
-- 
2.43.0


From 91354b94bf8ad19ec0e00c2d08d84f2bf0a4d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 42/77] fix: multiBitSet references and iterators work with
 every block type

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 0fd8770..8147317 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -111,7 +111,7 @@ class multiBitSet {
         */
 
    private:
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class iterator_t;
     friend class constIterator_t;
     reference_t() : source(nullptr), index(0){};
@@ -212,7 +212,7 @@ class multiBitSet {
    private:
     iterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<iterator_t>;
 
@@ -277,7 +277,7 @@ class multiBitSet {
    private:
     constIterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<constIterator_t>;
 
-- 
2.43.0


From eb03155e91eaadb5614f660289959385b70e652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:54 +0000
Subject: [PATCH 43/77] fix: multiBitSet mask for elements as wide as a block

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 8147317..2fd29dd 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -36,7 +36,8 @@ class multiBitSet {
   /// Type of element
   using value_t = uintX_t<eleBits>;
   /// The maximum value of each element
-  static constexpr block_t blockMask = (block_t(1) << (eleBits)) - 1;
+  static constexpr block_t blockMask =
+      std::numeric_limits<block_t>::max() >> (sizeof(block_t) * 8 - eleBits);
   /// Bits of block
   static constexpr size_t blockBits = sizeof(block_t) * 8;
 
-- 
2.43.0


From 3d411e8c7012ac2b44018a398cc9737fb8191c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 44/77] fix: ackley oscillates with the period 1

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1f40756..3cf37c0 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -66,7 +66,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     assert4Size(_x);
     auto x = _x->operator[](0), y = _x->operator[](1);
     *f = -20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) -
-         std::exp(0.5 * (std::cos(M_2_PI * x) + std::cos(M_2_PI * y))) + 20 + M_E;
+         std::exp(0.5 * (std::cos(2 * M_PI * x) + std::cos(2 * M_PI * y))) + 20 + M_E;
   }
 
   inline static void beale(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From 3f0fb07320690a596dd564d5bfab89f74085262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 45/77] fix: coefficients of the Goldstein-Price function

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 3cf37c0..b701b81 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -83,7 +83,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto part1 =
         1 + square(1 + x + y) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y);
     const auto part2 =
-        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x + 47 * y - 36 * x * y + 27 * y * y);
+        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y);
     *f = part1 * part2;
   }
 
-- 
2.43.0


From e21880a0b45a0790eb1dbede53d14875ee19a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 46/77] fix: the Goldstein-Price function with arguments had
 another name and did not compile

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index b701b81..5773ede 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -33,7 +33,7 @@ template <typename Var_t, class Fitness_t = double, class Arg_t = void>
 struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, ackley)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, beale)
-  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldSteinPrice)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldsteinPrice)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, booth)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, bukin)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
-- 
2.43.0


From 71442b942a6a5ab3a6f83cd22684168124df658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 47/77] fix: holderTable was NaN wherever y exceeds x

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 5773ede..a7d86a5 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -170,7 +170,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     *f = -std::abs(std::sin(x) * std::cos(y) *
                    std::exp(
 
-                       std::abs(1 - std::sqrt(x * x - y * y) / M_PI)
+                       std::abs(1 - std::sqrt(x * x + y * y) / M_PI)
 
                            ));
   }
-- 
2.43.0


From f1a39622871d2ff79acc642924ef83c7b319b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 48/77] fix: schaffer2 squares the sine

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index a7d86a5..676092e 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -188,7 +188,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto x = _x->operator[](0);
     const auto y = _x->operator[](1);
 
-    *f = 0.5 + (square(std::sin(x * x - y * y) - 0.5)) / square(1 + 0.001 * (x * x + y * y));
+    *f = 0.5 + (square(std::sin(x * x - y * y)) - 0.5) / square(1 + 0.001 * (x * x + y * y));
   }
 
   inline static void schaffer4(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From 121fe8ca0db614dde5a6e3a62a3c3e4d4aa20bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 49/77] fix: rosenbrock compares with the square of a component

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 676092e..f99be37 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -238,13 +238,14 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto square_1_minus_x_top = (1 - x->topRows(x->size() - 1)).square().sum();
-      auto minusSquare = (x->topRows(x->size() - 1) - x->bottomRows(x->size() - 1)).square().sum();
+      const auto top = x->topRows(x->size() - 1);
+      auto square_1_minus_x_top = (1 - top.array()).square().sum();
+      auto minusSquare = (top.array().square() - x->bottomRows(x->size() - 1).array()).square().sum();
       *f = 100 * minusSquare + square_1_minus_x_top;
     } else {
       double val = 0;
       for (int idx = 0; idx < x->size() - 1; idx++) {
-        val += 100 * square(x->operator[](idx + 1) - x->operator[](idx)) +
+        val += 100 * square(x->operator[](idx + 1) - square(x->operator[](idx))) +
                square(1 - x->operator[](idx));
       }
       *f = val;
-- 
2.43.0


From 45c4038a77bf8553aa2eae1b676235b42c348946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 50/77] fix: styblinskiTang of an Eigen vector was twice that
 of a std container

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index f99be37..09f98c7 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -255,7 +255,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto arr = x->array();
-      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum();
+      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
       for (auto xi : *x) {
-- 
2.43.0


From 74e5f0f3e509829740f53be373beea490791e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 51/77] fix: styblinskiTang compiles for Eigen arrays

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 09f98c7..d2b9b1c 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -254,7 +254,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
+      const auto& arr = x->array();
       *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
-- 
2.43.0


From 8bc99acd1591b12bee62db7ee005a356722359dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 52/77] fix: branches of the first objective of Schaffer2

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0e850ff..8a20efc 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -79,12 +79,12 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
     if (x <= 1) {
       f->operator[](0) = -x;
-    } else if (x <= -3) {
+    } else if (x <= 3) {
       f->operator[](0) = x - 2;
     } else if (x <= 4) {
       f->operator[](0) = 4 - x;
     } else {
-      f->operator[](0) = 4 - x;
+      f->operator[](0) = x - 4;
     }
   }
 };
-- 
2.43.0


From f2323e85dbea4fc452f4fba33c6040475de9eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 53/77] fix: second objective of viennet

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 8a20efc..9c2cc9c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -208,7 +208,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
     const auto x2_plus_y2 = x * x + y * y;
     f->operator[](0) = x2_plus_y2 / 2 + std::sin(x2_plus_y2);
-    f->operator[](1) = square(2 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
+    f->operator[](1) = square(3 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
     f->operator[](2) = 1 / (x2_plus_y2 + 1) - 1.1 * std::exp(-x2_plus_y2);
   }
 };
-- 
2.43.0


From af936fc1c2645182791351d3730d5bf5d54d81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 54/77] fix: benchmark functions resize a dynamic objective
 vector whatever the type of the variable

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 9c2cc9c..4dd80b1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -108,8 +108,8 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(2, 1);
       } else {
         f->resize(2);
@@ -190,8 +190,8 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(3, 1);
       } else {
         f->resize(3);
-- 
2.43.0


From b1c829b1f3c37527514a1e5e7a0b5cbe151c8f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 55/77] fix: FonsecaFleming compiles and sums over the
 variables

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 4dd80b1..d2bedfd 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -234,17 +234,16 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
  public:
   static inline void FonsecaFleming(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = f->size();  // If the size of f is determined at compile-time, the compiler will
-                              // be able to optimize it; otherwise N is a read only integer.
+    const int N = int(_x->size());
     typename array_traits<Fitness_t>::Scalar_t exp1 = 0, exp2 = 0;
-    constexpr typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
+    const typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
     if constexpr (array_traits<Var_t>::isEigenClass) {
       exp1 = -1 * (_x->array() - rSqrtN).square().sum();
       exp2 = -1 * (_x->array() + rSqrtN).square().sum();
     } else {
       for (int idx = 0; idx < N; idx++) {
-        exp1 -= sqrt(_x->operator[](idx) - rSqrtN);
-        exp2 -= sqrt(_x->operator[](idx) + rSqrtN);
+        exp1 -= square(_x->operator[](idx) - rSqrtN);
+        exp2 -= square(_x->operator[](idx) + rSqrtN);
       }
     }
 
-- 
2.43.0


From 09320909239c38edd1ae605d074c0cdcf2f50fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 56/77] fix: Kursawe sums over the variables, also for Eigen
 vectors of fixed size

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index d2bedfd..3cb748a 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -253,12 +253,12 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
 
   static inline void Kursawe(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = int(f->size());
+    const int N = int(_x->size());
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
-        auto topN_sub_1Rows = _x->template topRows<N - 1>();
-        auto bottomN_sub_1Rows = _x->template bottomRows<N - 1>();
+        auto topN_sub_1Rows = _x->template topRows<array_traits<Var_t>::sizeCT - 1>();
+        auto bottomN_sub_1Rows = _x->template bottomRows<array_traits<Var_t>::sizeCT - 1>();
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
@@ -268,8 +268,8 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
                        .sum();
 
       } else {
-        auto topN_sub_1Rows = _x->template topRows(N - 1);
-        auto bottomN_sub_1Rows = _x->template bottomRows(N - 1);
+        auto topN_sub_1Rows = _x->topRows(N - 1);
+        auto bottomN_sub_1Rows = _x->bottomRows(N - 1);
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
-- 
2.43.0


From f728f72b8ed549ff47155e5fdd46e329f686f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 57/77] fix: DTLZ5 and DTLZ6 compile for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 3cb748a..6e1565c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -524,7 +524,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
       gr = xm.square().sum();
@@ -585,7 +585,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
-- 
2.43.0


From 50742b40160bf680e5830652ab6d2296c4848d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 58/77] fix: DTLZ7 left an objective of std containers unset

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 6e1565c..6b583b7 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -654,7 +654,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         f->head(M - 1) = x->head(M - 1);
       }
     } else {
-      for (int idx = 0; idx < M - 2; idx++) {
+      for (int idx = 0; idx < M - 1; idx++) {
         f->operator[](idx) = x->operator[](idx);
       }
     }
-- 
2.43.0


From 91a353899ee4d17bbeb362f03982237f115eadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 59/77] fix: DTLZ9 read beyond the variable and the objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 6b583b7..3b61819 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -859,14 +859,14 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     for (int objIdx = 0; objIdx < M; objIdx++) {
       f->operator[](objIdx) = 0;
-      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N, (objIdx + 1) * N / M);
+      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N - 1, (objIdx + 1) * N / M);
            varIdx++) {
         f->operator[](objIdx) += std::pow(x->operator[](varIdx), 0.1);
       }
     }
     // apply penlties
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-      auto gOfObjIdx = square(f->operator[](M)) + square(f->operator[](objIdx)) - 1;
+      auto gOfObjIdx = square(f->operator[](M - 1)) + square(f->operator[](objIdx)) - 1;
 
       if (gOfObjIdx < 0) {
         f->operator[](objIdx) += 1e3 + (-gOfObjIdx);
-- 
2.43.0


From 55b3818bcc64966853adc88f2576fa6599f2b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 60/77] fix: benchmark functions of a std::array variable and a
 dynamic objective vector compile

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 3b61819..30d9f68 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -223,7 +223,7 @@ template <typename Var_t, class Fitness_t>
 struct MOFunctionsX2<Var_t, Fitness_t, void> {
  private:
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT == 2));
-  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 1));
+  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Var_t>::sizeCT >= 1));
 
   static inline void assert4Size(const Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
-- 
2.43.0


From e604ce2a1bbc237bc0322e6ce21256321332f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 61/77] fix: testFunctions compiles where neither DTLZ family
 matches

---
 HeuristicFlow/src/EAGlobal/TestFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
index 0290afc..2aac73b 100644
--- a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
@@ -62,7 +62,7 @@ struct MOFunctions
       public std::conditional<sizeMayMatchDTLZ1to7<Var_t, Fitness_t>::value,
                               DTLZ1to7<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type,
       public std::conditional<sizeMayMatchDTLZ89<Var_t, Fitness_t>::value,
-                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type {
+                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct6>::type {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 2),
                 "The size of Fitness_t must be greater than 1.");
 };
-- 
2.43.0


From 32af58497c82dcf1a3a39eda94434622fd302e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 62/77] fix: threeHumpCamel with arguments was missing

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index d2b9b1c..8bce92e 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -39,6 +39,7 @@ struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, levy)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, himmelblau)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, threeHumpCamel)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, easom)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, crossInTray)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, eggHolder)
-- 
2.43.0


From 6cb2f36bc3e5fb499c38ad3b4e8fe5fcae067f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 63/77] fix: NchooseK overflowed although its result was small

The quotient of factorials overflows from 21! on, and NSGA-III with three
objectives and a precision of 66 divided by zero. Multiply and divide step by
step: every intermediate value is a binomial coefficient times one factor.
---
 HeuristicFlow/src/Global/HeuMaths.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 532ebef..96cb56a 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -85,8 +85,13 @@ template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
   if (K * 2 > N) {
     return NchooseK<num_t>(N, N - K);
-  } else
-    return fractorial<num_t>(N) / (fractorial<num_t>(K) * fractorial<num_t>(N - K));
+  } else {
+    num_t result = 1;
+    for (num_t i = 1; i <= K; i++) {
+      result = result * (N - K + i) / i;
+    }
+    return result;
+  }
 }
 /*
 namespace internal
-- 
2.43.0


From 6645ce4a790c2a8cd1a4282d00e9e8a2f20243a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 64/77] fix: encode() turned positive infinity of type float
 into negative infinity

---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index aa3950e..ad04ba8 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -396,7 +396,7 @@ constexpr binCode32 encode(const float d) {
 
   if (absVal(d) >= std::numeric_limits<float>::infinity()) {
     if (d > 0) {
-      return binCode32(0b11111111111UL << 23);
+      return binCode32(0b11111111UL << 23);
     } else {
       return binCode32(0b111111111111UL << 23);
     }
-- 
2.43.0


From b55b3cadb6b158891c9f206b9504b607a7098039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 65/77] fix: encode() rounded numbers just below a power of two
 up to it

The exponent was counted by halving down into the denormal numbers, where a
mantissa of ones rounds up: the largest finite value became infinity. Count
among the normal numbers, where halving is exact.
---
 .../src/Global/ConvertDoubleAndBinCode.hpp    | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index ad04ba8..9bd1749 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -250,19 +250,23 @@ constexpr uint64_t exponentVal(double fl) {
   constexpr double seper =
       decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
 
-  while (fl > 257 * seper) {
-    fl /= 256;
-    code += 8;
+  if (fl <= seper) {
+    return 0;
   }
 
-  while (fl > seper) {
+  code = 1023;
+  while (fl >= 2) {
     fl /= 2;
     code++;
   }
 
+  while (fl < 1) {
+    fl *= 2;
+    code--;
+  }
+
   return code;
 }
-
 constexpr uint32_t exponentVal(float fl) {
   uint32_t code = 0;
   fl = absVal(fl);
@@ -272,16 +276,21 @@ constexpr double seper =
     */
   constexpr float seper = decode(binCode32(0b00000000011111111111111111111111UL));
 
-  while (fl > 257 * seper) {
-    fl /= 256;
-    code += 8;
+  if (fl <= seper) {
+    return 0;
   }
 
-  while (fl > seper) {
+  code = 127;
+  while (fl >= 2) {
     fl /= 2;
     code++;
   }
 
+  while (fl < 1) {
+    fl *= 2;
+    code--;
+  }
+
   return code;
 }
 
-- 
2.43.0


From 922c4394f2f0a0dc3fd83c7d393e2f3b98fa3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 66/77] fix: PowEncode lost significant digits that begin with
 2 to 9

Digits were scaled up to at least 1e16, and 54 bits hold no more than 1.8e16:
the rest went into the sign. Scale to at least 1e15, which keeps all of the 16
digits promised.
---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 66dcc69..514a611 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -123,7 +123,7 @@ enum PowCode : uint64_t {
 
 namespace internal {
 // Multiplie val for 10 times until it gets greater than the threshold
-template <uint64_t val, uint64_t threshold = 10000000000000000ULL>
+template <uint64_t val, uint64_t threshold = 1000000000000000ULL>
 struct PowEncode_amplifier {
  private:
   static const constexpr bool need2amp = (val < threshold);
@@ -175,7 +175,7 @@ struct PowEncode_OneE<0> {
 template <int64_t significant, int16_t power>
 struct PowEncode {
  private:
-  static const constexpr uint64_t threshold = 1e16;
+  static const constexpr uint64_t threshold = 1e15;
   static const constexpr bool isNegative = significant < 0;
   static const constexpr uint64_t absVal = (isNegative) ? (-significant) : significant;
   static const constexpr bool isSigValid = (absVal / 10 < threshold);
@@ -227,7 +227,7 @@ struct PowDecode {
   static const constexpr bool isPowNegative = lowerBitMask & code;
   static const constexpr int16_t absPow = lowerPowMask & code;
   static const constexpr int16_t pow = (isPowNegative ? (-absPow) : absPow);
-  static const constexpr double digital = (sig) / (1e16);
+  static const constexpr double digital = (sig) / (1e15);
   static const constexpr double powPart = internal::PowEncode_OneE<pow>::result;
 
  public:
-- 
2.43.0


From 2abcddc92fa76edd28469d684b7dd028c8f949d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 67/77] fix: DivCode_Pi_mul_2 was the code of 2/pi

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 514a611..b9b59f3 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -44,7 +44,7 @@ namespace heu {
 enum DivCode : uint64_t {
   DivCode_Half = 4294967298,
   DivCode_Pi = 2088567404207137453,
-  DivCode_Pi_mul_2 = 993512999210214248,
+  DivCode_Pi_mul_2 = 7414727623355434523,
   DivCode_Pi_mul_3 = 2111843339415065010,
   DivCode_Pi_mul_4 = 4223686678804044427,
   DivCode_Pi_mul_6 = 2111843339388979417,
-- 
2.43.0


From 57343c07e606f25a43ed64aaaa4e4527caee7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 68/77] fix: NSGA3 with one layer of reference points had no
 default precision

The precision was left uninitialised, although the documentation speaks of a
default value and the class for two layers has one. A solver that was used
without setReferencePointPrecision() built as many reference points as the
memory it was created in happened to say.
---
 HeuristicFlow/src/Genetic/NSGA3Base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Base.hpp b/HeuristicFlow/src/Genetic/NSGA3Base.hpp
index 092eaea..5eeb01e 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Base.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Base.hpp
@@ -110,7 +110,8 @@ class NSGA3Base
   }
 
  protected:
-  size_t _precision;  ///< Precision of RPs in single layer. Only exists when rpOpt==SINGLE_LAYER
+  /// Precision of RPs in single layer. Only exists when rpOpt==SINGLE_LAYER
+  size_t _precision{4};
 
   /**
    * \brief Compute reference points
-- 
2.43.0


From 692a48ba632173bae21a7899a2c66a2d16f036b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 69/77] fix: integer boxes that end at the greatest value of
 their type were not initialised

The exclusive upper bound max + 1 wrapped around in the component type, so
that all components became the least value or left the box.
---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index fda1929..ec879d7 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -41,8 +41,11 @@ class BoxBase {
       if constexpr (std::is_same_v<Scalar_t, bool>) {
         at(*v, idx) = randIdx(2) == 0;
       } else if constexpr (std::is_integral_v<Scalar_t>) {
-        at(*v, idx) = randIdx<Scalar_t>(static_cast<const Derived*>(this)->min(idx),
-                                        1 + static_cast<const Derived*>(this)->max(idx));
+        // max + 1 might exceed what Scalar_t can hold
+        using Idx_t = std::conditional_t<(sizeof(Scalar_t) < sizeof(int64_t)), int64_t, Scalar_t>;
+        at(*v, idx) =
+            Scalar_t(randIdx<Idx_t>(static_cast<const Derived*>(this)->min(idx),
+                                    1 + Idx_t(static_cast<const Derived*>(this)->max(idx))));
       } else {
         at(*v, idx) = Scalar_t(randD(static_cast<const Derived*>(this)->min(idx),
                                      static_cast<const Derived*>(this)->max(idx)));
-- 
2.43.0


From 8bbecaa6bc3195da8fc026aaeb01e685dc6e1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 70/77] fix: integer mutation wrapped around at the least value
 of unsigned types

One step down from zero, the usual lower bound of an unsigned box, became the
greatest value of the type and was then limited to the upper bound.
---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index ec879d7..601903e 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -75,8 +75,12 @@ class BoxBase {
       // binary mutation
       at(*v, idx) = !at(*v, idx);
     } else {
-      // integer mutation
-      at(*v, idx) += (randIdx(2) == 0) ? 1 : -1;
+      // integer mutation, don't step over the end of Scalar_t
+      if (randIdx(2) == 0) {
+        if (at(*v, idx) < static_cast<const Derived*>(this)->max(idx)) at(*v, idx) += 1;
+      } else {
+        if (at(*v, idx) > static_cast<const Derived*>(this)->min(idx)) at(*v, idx) -= 1;
+      }
       at(*v, idx) = std::min(at(*v, idx), static_cast<const Derived*>(this)->max(idx));
       at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
     }
-- 
2.43.0


From dec7ff42af25f969d56e1fc0a780882211505ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 71/77] fix: linear rank selection hardly ever kept anything
 but the best

The probabilities given by users do not sum up to 1, but the random number was drawn from [0,1).
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 5b31d50..c7d490f 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -549,20 +549,20 @@ class SOGASelector<SelectMethod::LinearRank> {
           ));
     }
 
-    double rMax = 1.0;
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
+      // The users' probabilities of all genes do not sum up to 1
+      double rMax = 0;
+      for (const auto& pair : eliminateSpace) rMax += pair.second;
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
         r -= it->second;
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From 3eeb76dd1331c3926e42578f348d4d9836f2a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 72/77] fix: exponential rank selection kept the worst of large
 populations

The rounding error of the running sum exceeded the sum of the small probabilities left.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index c7d490f..55247fb 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -638,20 +638,20 @@ class SOGASelector<SelectMethod::ExponentialRank> {
               ));
     }
 
-    double rMax = 1.0;
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
+      // Summed up again for each draw, the rounding error left by a difference might exceed the rest
+      double rMax = 0;
+      for (const auto& pair : eliminateSpace) rMax += pair.second;
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
         r -= it->second;
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From bec5eb9b15eb472ab96795d3464adb9facb9145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 73/77] fix: Boltzmann selection ignored the fitness of genes
 far worse than the best

Their probabilities vanished or were smaller than the rounding error of the running sum.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 55247fb..3eac8e7 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -697,38 +697,32 @@ class SOGASelector<SelectMethod::Boltzmann> {
     }
 
     std::list<std::pair<GeneIt_t, double>> eliminateSpace;
-    double maxExponent = ninfD;
     // double Z = 0;    //Z is erased because probability normalization is not guaranteed.
     for (GeneIt_t it = static_cast<this_t*>(this)->_population.begin();
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
       eliminateSpace.emplace_back(
           it, limitSelectValue(_boltzmannSelectStrength * it->fitness, popSizeBeforeSelect));
-      maxExponent = std::max(maxExponent, eliminateSpace.back().second);
       // Z += std::exp(it->fitness);
     }
 
-    double rMax = 0;  // the sum of "probability"
-    for (auto& pair : eliminateSpace) {
-      // Only the ratios between "probabilities" are meaningful. Subtracting the maximum exponent
-      // prevents overflow.
-      pair.second = std::exp(pair.second - maxExponent);
-      rMax += pair.second;  //  the sum of probability may not be 1.
-    }
-
     while (int(eliminateSpace.size()) > eliminateNum) {
+      // Relative to the greatest of the rest, so that they will not all vanish
+      double maxExponent = ninfD;
+      for (const auto& pair : eliminateSpace) maxExponent = std::max(maxExponent, pair.second);
+      double rMax = 0;  // the sum of "probability", may not be 1.
+      for (const auto& pair : eliminateSpace) rMax += std::exp(pair.second - maxExponent);
+
       double r = randD(0, rMax);
 
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= it->second;
+        r -= std::exp(it->second - maxExponent);
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From 23f66903bd4a6b68991ceb6e65b68c663c23cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 74/77] fix: probability selection ignored the fitness in large
 populations

p^K underflowed, about from 150 genes on, so that every gene had probability 0.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 3eac8e7..6248c8b 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -433,31 +433,29 @@ class SOGASelector<SelectMethod::Probability> {
       }
     }
 
-    constexpr double NChooseK = 1e100;
-    // const double NChooseK = ::heu::NchooseK<double>(prevPopSize, K);
-    //  assert(!std::isnan(NChooseK));
-
-    double newProbSum = 0;
+    // Logarithms, since p^K vanishes in large populations. Only ratios are meaningful.
     for (auto& pair : eliminateSpace) {
-      pair.second =
-          NChooseK * std::pow(pair.second, K) * std::pow(1.0 - pair.second, prevPopSize - K);
-      newProbSum += pair.second;
+      pair.second = K * std::log(pair.second) + (prevPopSize - K) * std::log1p(-pair.second);
     }
 
     // assert(false);
     while (int(eliminateSpace.size()) > eliminateNum) {
+      // Relative to the greatest of the rest, so that they will not all vanish
+      double maxLog = std::numeric_limits<double>::lowest();
+      for (const auto& pair : eliminateSpace) maxLog = std::max(maxLog, pair.second);
+      double newProbSum = 0;
+      for (const auto& pair : eliminateSpace) newProbSum += std::exp(pair.second - maxLog);
+
       double r = randD(0.0, newProbSum);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= it->second;
+        r -= std::exp(it->second - maxLog);
         if (r <= 0) {
-          newProbSum -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        newProbSum -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From 89b0a27208cef7016ba6dc78dc003c5e2f786941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 75/77] fix: random indexes of wide ranges left the range

---
 HeuristicFlow/src/Global/Randoms.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index 51f66fc..3c3402f 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -144,7 +144,8 @@ inline int_t randIdx(int_t size) noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t min, int_t max_plus_1) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
-  return int_t((max_plus_1 - min) * randF()) + min;
+  // The width of the range isn't always representable by int_t
+  return int_t(uint64_t(min) + randIdx<uint64_t>(uint64_t(max_plus_1) - uint64_t(min)));
 }
 
 inline double normD() noexcept {
-- 
2.43.0


From 1a24bb622cfa1b542298daa604cd1c96aca0f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 76/77] fix: random indexes below a large bound were not
 equally likely

---
 HeuristicFlow/src/Global/Randoms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index 3c3402f..1954481 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -129,6 +129,9 @@ inline float randF() noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t size) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
+  if (double(size) > double(1 << 16)) {  // a float has too few digits to divide evenly among them
+    return int_t(randD() * size);
+  }
   return int_t(randF() * size);
 }
 
-- 
2.43.0


From d717149ca4817b596169bb80a7cb09e1eddc1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 77/77] fix: random numbers of a range wider than a double
 holds were infinite

---
 HeuristicFlow/src/Global/Randoms.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index 1954481..78ca8a2 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -98,7 +98,12 @@ inline void randD(double* dst, const int num) noexcept {
  * \return double random number
  */
 inline double randD(const double min, const double max) noexcept {
-  return (max - min) * randD() + min;
+  const double width = max - min;
+  if (std::isinf(width)) {  // no double holds the width of this range
+    const double r = randD();
+    return (1 - r) * min + r * max;
+  }
+  return width * randD() + min;
 }
 
 inline void randD(double* dst, const int num, const double min, const double max) noexcept {
-- 
2.43.0

