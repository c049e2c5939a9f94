From 5fa4dfad5dabc43a4bc5ac52d7caf8b2de217e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 01/73] fix: never pass a zero chunk size to OpenMP dynamic
 loops

With fewer tasks than threads the chunk expression was 0, which makes
libgomp hand out empty chunks forever.
---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     | 2 +-
 HeuristicFlow/src/Genetic/GABase.hpp   | 2 +-
 HeuristicFlow/src/Genetic/NSGABase.hpp | 2 +-
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    | 2 +-
 HeuristicFlow/src/PSO/PSO4std.hpp      | 2 +-
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a7d158c..4e39322 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -109,7 +109,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<size_t>(1, tasks.size() / thN))
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 185e586..fe6c636 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -222,7 +222,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<size_t>(1, tasks.size() / thN))
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index 23ac246..318ff1f 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -106,7 +106,7 @@ class NSGABase
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, popSizeBefore / thN)
+#pragma omp parallel for schedule(dynamic, std::max<size_t>(1, popSizeBefore / thN))
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9f4394b..f1818ee 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -85,7 +85,7 @@ class PSO4Eigen
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<size_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 6fe808a..8c6cd9c 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -94,7 +94,7 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<size_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a7ce3a1..f1f4bda 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -287,7 +287,7 @@ Var_t _velocityMax;
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, _population.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<size_t>(1, _population.size() / thN))
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From 966cef6daf91cf56b77a40cbc616b37067decbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 02/73] fix: Truncation and EliteReserved read the fitness of
 an erased gene

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index f22d2cc..4af812b 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -55,6 +55,9 @@ class SOGASelector<SelectMethod::Truncation> {
 
     using GeneIt_t = typename this_t::GeneIt_t;
 
+    // The previous best gene may be eliminated, so its fitness is cached
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     std::list<Gene_t>& popRef = static_cast<this_t*>(this)->_population;
     std::vector<GeneIt_t> sortSpace;
     sortSpace.clear();
@@ -72,7 +75,7 @@ class SOGASelector<SelectMethod::Truncation> {
       sortSpace.pop_back();
     }
 
-    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front());
+    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front(), previousBestFitness);
   }
 
  private:
@@ -833,6 +836,8 @@ class SOGASelector<SelectMethod::EliteReserved> {
     const int popSizeBeforeSelect = int(static_cast<this_t*>(this)->_population.size());
     const int popSizeAfterSelect = int(static_cast<this_t*>(this)->_option.populationSize);
     const int eliminateNum = popSizeBeforeSelect - popSizeAfterSelect;
+    // The previous best gene may be eliminated, so its fitness is cached
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
 
     if (eliminateNum <= 0) {
       static_cast<this_t*>(this)->updateFailTimesAndBestGene(
@@ -902,7 +907,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(
-        static_cast<this_t*>(this)->findCurrentBestGene());
+        static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
   }
 };
 
-- 
2.43.0


From ef2374834636d6b03411709520c2937be6674315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 03/73] fix: StochasticUniversal must keep exactly
 populationSize genes

With equal fitness values nobody was ever eliminated, so the population grew
without bound; rounding of the accumulated fitness could select one too many.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 4af812b..add35bc 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -755,12 +755,9 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
     }
 
     if (fitnessSum <= 0) {  //  unlikely
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
-        if (randD() * static_cast<this_t*>(this)->_option.populationSize <= popSizeBeforeSelect) {
-          it = eliminateSpace.erase(it);
-        } else {
-          ++it;
-        }
+      //  every gene is equally good, select stochastically
+      while (int(eliminateSpace.size()) > eliminateNum) {
+        eliminateSpace.erase(std::next(eliminateSpace.begin(), randIdx(int(eliminateSpace.size()))));
       }
     } else {
       const double pointerInterval =
@@ -784,7 +781,8 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       // While paving throught eliminateSpace, accumulate the fitness. Everytime when the sum is
       // greater of equal to the interval, erase the current element (selected)
       double fitnessCounter = randD(0, pointerInterval);
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
+      for (auto it = eliminateSpace.begin();
+           it != eliminateSpace.end() && int(eliminateSpace.size()) > eliminateNum;) {
         fitnessCounter += it->second;
 
         if (fitnessCounter >= pointerInterval) {
-- 
2.43.0


From c57a54a4ece0f79d1231d9a83b953b3a79a5c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 04/73] fix: Boltzmann selection never terminated once exp()
 overflowed

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index add35bc..249bb3b 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -678,9 +678,17 @@ class SOGASelector<SelectMethod::Boltzmann> {
       // Z += std::exp(it->fitness);
     }
 
+    // Shifting all exponents by their maximum scales every weight by the same factor and prevents
+    // std::exp from overflowing.
+    double maxExponent = ninfD;
+    for (auto& pair : eliminateSpace) {
+      pair.second *= _boltzmannSelectStrength;
+      maxExponent = std::max(maxExponent, pair.second);
+    }
+
     double rMax = 0;  // the sum of "probability"
     for (auto& pair : eliminateSpace) {
-      pair.second = std::exp(_boltzmannSelectStrength * pair.second);
+      pair.second = std::exp(pair.second - maxExponent);
       rMax += pair.second;  //  the sum of probability may not be 1.
     }
 
-- 
2.43.0


From 906b2d03c2a06ae0ddb6394ff7b5480eaab5b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 05/73] fix: LinearRank draws from the sum of its weights

The weights don't sum to 1, but the wheel was spun over [0,1): the worst gene was
selected with an unrelated probability (or never).
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 249bb3b..2dc8a06 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -523,7 +523,10 @@ class SOGASelector<SelectMethod::LinearRank> {
           ));
     }
 
-    double rMax = 1.0;
+    double rMax = 0;  // the sum of "probability", which isn't 1 in general
+    for (const auto& pair : eliminateSpace) {
+      rMax += pair.second;
+    }
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-- 
2.43.0


From 4590bdfc284408f22c262a18ec65b29e889389b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 06/73] fix: Truncation and StochasticUniversal lacked the
 documented selectMethod()

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 2dc8a06..2485adc 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -48,6 +48,9 @@ template <>
 class SOGASelector<SelectMethod::Truncation> {
   friend class SOGAInheriter<SelectMethod::Truncation>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept { return SelectMethod::Truncation; }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
@@ -724,6 +727,11 @@ template <>
 class SOGASelector<SelectMethod::StochasticUniversal> {
   friend class SOGAInheriter<SelectMethod::StochasticUniversal>;
 
+ public:
+  inline constexpr SelectMethod selectMethod() const noexcept {
+    return SelectMethod::StochasticUniversal;
+  }
+
  protected:
   template <class this_t>
   void __impl___impl_select() noexcept {
-- 
2.43.0


From a78905e61b06ff4001326739c9321e0e2badb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 07/73] fix: the Boltzmann strength was uninitialised with
 runtime selection

---
 HeuristicFlow/src/Genetic/SOGA.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGA.hpp b/HeuristicFlow/src/Genetic/SOGA.hpp
index 80ff28a..2d1f555 100644
--- a/HeuristicFlow/src/Genetic/SOGA.hpp
+++ b/HeuristicFlow/src/Genetic/SOGA.hpp
@@ -124,7 +124,8 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
  public:
   HEU_MAKE_GABASE_TYPES(Base_t)
   SOGA() {
-    if constexpr (smOpt == SelectMethod::Boltzmann) {
+    if constexpr (smOpt == SelectMethod::Boltzmann ||
+                  smOpt == SelectMethod::RunTimeSelectMethod) {
       this->_boltzmannSelectStrength = 10 * (fOpt == FITNESS_LESS_BETTER ? -1 : 1);
     }
   }
-- 
2.43.0


From bae760cca21b699195f26215f8ba68de3ebdd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 08/73] fix: Boltzmann selection lost the remaining weights to
 cancellation

Once a dominating gene was selected, the running sum became 0 by rounding, and
the remaining genes were picked in list order, no matter how bad they are.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 26 ++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 2485adc..41fc631 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -684,34 +684,34 @@ class SOGASelector<SelectMethod::Boltzmann> {
       // Z += std::exp(it->fitness);
     }
 
-    // Shifting all exponents by their maximum scales every weight by the same factor and prevents
-    // std::exp from overflowing.
-    double maxExponent = ninfD;
     for (auto& pair : eliminateSpace) {
       pair.second *= _boltzmannSelectStrength;
-      maxExponent = std::max(maxExponent, pair.second);
-    }
-
-    double rMax = 0;  // the sum of "probability"
-    for (auto& pair : eliminateSpace) {
-      pair.second = std::exp(pair.second - maxExponent);
-      rMax += pair.second;  //  the sum of probability may not be 1.
     }
 
     while (int(eliminateSpace.size()) > eliminateNum) {
+      // Shifting all exponents by the maximum of the remaining ones scales every weight by the same
+      // factor, prevents std::exp from overflowing and keeps at least one weight positive.
+      double maxExponent = ninfD;
+      for (const auto& pair : eliminateSpace) {
+        maxExponent = std::max(maxExponent, pair.second);
+      }
+
+      double rMax = 0;  // the sum of "probability"
+      for (const auto& pair : eliminateSpace) {
+        rMax += std::exp(pair.second - maxExponent);  //  the sum of probability may not be 1.
+      }
+
       double r = randD(0, rMax);
 
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= it->second;
+        r -= std::exp(it->second - maxExponent);
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From a4b292d7f9354c2b7d306268f621c0299cca3344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 09/73] fix: multi-objective solvers with run-time objective
 number didn't compile

isCalculated() is not a member of the gene type.
---
 HeuristicFlow/src/Genetic/MOGABase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGABase.hpp b/HeuristicFlow/src/Genetic/MOGABase.hpp
index 1d60c58..fa6e644 100644
--- a/HeuristicFlow/src/Genetic/MOGABase.hpp
+++ b/HeuristicFlow/src/Genetic/MOGABase.hpp
@@ -151,7 +151,7 @@ class MOGABase<Var_t, Eigen::Dynamic, fOpt, rOpt, Gene, Args_t, _iFun_, _fFun_,
  protected:
   inline void __impl_computeAllFitness() noexcept {
     for (Gene_t& g : this->_population) {
-      if (!g.isCalculated()) {
+      if (!g.is_fitness_computed) {
         g.fitness.resize(objectiveNum(), 1);
       }
     }
-- 
2.43.0


From 19fe90bbfcee9334c55b37b665dd6ce80d02a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 10/73] fix: paretoFront() with decision variables didn't
 compile

---
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 3691f3c..7eaba3d 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -101,7 +101,7 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
     front.clear();
     front.reserve(_pfGenes.size());
     for (const Gene* i : _pfGenes) {
-      front.emplace_back(std::make_pair(&(i->self), &(i->fitness)));
+      front.emplace_back(std::make_pair(&(i->decision_variable), &(i->fitness)));
     }
   }
 
-- 
2.43.0


From 7b700480077223a3a406426c7293e1c4b51af4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 11/73] fix: NSGA3 normalised to NaN when an objective is
 constant

A zero intercept made every translated fitness, distance and association NaN.
---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 86d08c8..82f14cc 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -302,6 +302,11 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
       extremePoints2Intercept(extremePoints, &intercepts);
     }
 
+    for (size_t r = 0; r < M; r++) {
+      // All candidates agree on this objective. Their translated fitness is 0, not 0/0.
+      if (intercepts[r] == 0) intercepts[r] = 1;
+    }
+
     for (Gene_t* i : selected) {
       i->translatedFitness = (i->fitness - ideal) / intercepts;
     }
-- 
2.43.0


From eeafea997797ac9d83aebf3bead80793c59fd52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 12/73] fix: swap crossover of std containers used Eigen
 members

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index f88c615..a9bf7f6 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -49,10 +49,10 @@ struct imp_GADefaults_DVO {
     const size_t N = p1->size();
     const size_t idx = randIdx(N);
 
-    c1->topRows(idx) = p1->topRows(idx);
-    c2->topRows(idx) = p2->topRows(idx);
-    c1->bottomRows(N - idx) = p2->bottomRows(N - idx);
-    c2->bottomRows(N - idx) = p1->bottomRows(N - idx);
+    for (size_t i = 0; i < N; i++) {
+      c1->operator[](i) = (i < idx ? p1 : p2)->operator[](i);
+      c2->operator[](i) = (i < idx ? p2 : p1)->operator[](i);
+    }
   }
 };
 
-- 
2.43.0


From 16ffe899d4be842c838bf209dae1756efe5f4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 13/73] fix: cFunRandXs ignored its probability

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index a9bf7f6..359b39e 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -446,7 +446,7 @@ struct GADefaults<Var_t, void> {
    */
   template <DivCode p = DivCode::DivCode_Half>
   inline static void cFunRandXs(const Var_t *p1, const Var_t *p2, Var_t *c1, Var_t *c2) noexcept {
-    Heu_PRIVATE_IMP_cFunX cFunRandNs(p1, p2, c1, c2);
+    Heu_PRIVATE_IMP_cFunX cFunRandNs<p>(p1, p2, c1, c2);
   }
 };
 
-- 
2.43.0


From cca94386bc8b2728ad2b18bccea6de3fd7252ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 14/73] fix: mFun_s relied on members that no box has

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp   | 1 +
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 551445a..8293873 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -442,6 +442,7 @@ template <class Var, BoxShape BS = BoxShape::SQUARE_BOX>
 class DiscretBox
     : public std::conditional_t<BS == BoxShape::SQUARE_BOX, SquareBox_t<Var>, NonSquareBox_t<Var>> {
  public:
+  static constexpr BoxShape Shape = BS;
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var_t>::Scalar_t;
 
diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 359b39e..09d11b3 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -322,8 +322,10 @@ struct GADefaults {
   requires isBoxConstraint<Args_t>
 #endif  //  #if __cplusplus >= 202002L
   inline static void mFun_s(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-    static_assert(Args_t::isBox, "Default mFun requires Args_t to be a box constriant");
-    static_assert(Args_t::Encoding == EncodeType::Symbolic, "mFun_s requires symbolic box");
+    static_assert(isBoxConstraint_v<Args_t>,
+                  "Default mFun requires Args_t to be a box constriant");
+    static_assert(std::is_integral<typename Args_t::Scalar_t>::value,
+                  "mFun_s requires symbolic box");
     static_assert(std::is_same<typename Args_t::Var_t, Var_t>::value,
                   "Box and Var_t types must be same");
 
-- 
2.43.0


From 55c94ce161f4d94d57032b73089a798510fdd03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 15/73] fix: mFun_s could draw from an empty range below the
 minimum

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 09d11b3..c575cfe 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -143,7 +143,7 @@ struct GADefaults {
       const size_t numLess = val - box->min()[idx];
       const size_t numGreater = box->max()[idx] - val;
 
-      if (randD() * (numLess + numGreater) <= numLess)
+      if (randD() * (numLess + numGreater) < numLess)
         v->operator[](idx) = randIdx(box->min()[idx], val);
       else
         v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max()[idx] + 1));
@@ -161,7 +161,7 @@ struct GADefaults {
       const size_t numLess = val - box->min();
       const size_t numGreater = box->max() - val;
 
-      if (randD() * (numLess + numGreater) <= numLess)
+      if (randD() * (numLess + numGreater) < numLess)
         v->operator[](idx) = randIdx(box->min(), val);
       else
         v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max() + 1));
-- 
2.43.0


From 44deca9fb308e8629a42a9928ebf59b02f2b223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 16/73] fix: setDimensions of a dynamic rectangle vector box
 didn't compile

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 8293873..555ba91 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -308,7 +308,7 @@ class NonSquareBoxDynamicDimVec : public BoxBase<NonSquareBoxDynamicDimVec<Var>,
     return int(this->min().size());
   }
 
-  inline void setDimensions(const int dim) const noexcept {
+  inline void setDimensions(const int dim) noexcept {
     assert(dim > 0);
     this->min().resize(dim);
     this->max().resize(dim);
-- 
2.43.0


From a97b4ea4743949b3d979798f46bc8e00a2953bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 17/73] fix: integer boxes that reach the largest integer
 initialised out of range

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 555ba91..3357715 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -41,8 +41,10 @@ class BoxBase {
       if constexpr (std::is_same_v<Scalar_t, bool>) {
         at(*v, idx) = randIdx(2) == 0;
       } else if constexpr (std::is_integral_v<Scalar_t>) {
-        at(*v, idx) = randIdx<Scalar_t>(static_cast<const Derived*>(this)->min(idx),
-                                        1 + static_cast<const Derived*>(this)->max(idx));
+        // in 64 bits, since max + 1 may not fit into Scalar_t
+        at(*v, idx) =
+            Scalar_t(randIdx<int64_t>(int64_t(static_cast<const Derived*>(this)->min(idx)),
+                                      1 + int64_t(static_cast<const Derived*>(this)->max(idx))));
       } else {
         at(*v, idx) = Scalar_t(randD(static_cast<const Derived*>(this)->min(idx),
                                      static_cast<const Derived*>(this)->max(idx)));
-- 
2.43.0


From 32a67488fc845f76a6997476eceff32a78a1946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 18/73] fix: integer mutation wrapped around at the boundary of
 unsigned boxes

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 3357715..01053e4 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -75,7 +75,12 @@ class BoxBase {
       at(*v, idx) = !at(*v, idx);
     } else {
       // integer mutation
-      at(*v, idx) += (randIdx(2) == 0) ? 1 : -1;
+      // never step over a boundary, or unsigned and full-range integers would wrap around
+      if (randIdx(2) == 0) {
+        if (at(*v, idx) < static_cast<const Derived*>(this)->max(idx)) at(*v, idx) += 1;
+      } else {
+        if (at(*v, idx) > static_cast<const Derived*>(this)->min(idx)) at(*v, idx) -= 1;
+      }
       at(*v, idx) = std::min(at(*v, idx), static_cast<const Derived*>(this)->max(idx));
       at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
     }
-- 
2.43.0


From 6e66b2ba82fa1b6836946d005a4b7aa50833f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 19/73] fix: fixed continous boxes mutated by +-1 instead of up
 to delta

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 01053e4..64005da 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -653,6 +653,16 @@ class FixedContinousBox20 : public FixedDiscreteBox<Var, _minCT, _maxCT> {
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var>::Scalar_t;
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 #endif
@@ -669,6 +679,16 @@ class FixedContinousBox17 : public FixedDiscreteBox17<Var, _minCode, _maxCode> {
   static_assert(_deltaCT > 0);
 
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 namespace {
-- 
2.43.0


From e9854f844325db302c4174d056fc896c6e5d8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 20/73] fix: posMax(int) of a square PSO box returned the
 minimum

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index e1c6100..38c84ba 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -44,7 +44,7 @@ class SquareBox4PSO {
 
   inline Scalar_t posMin(const int) const noexcept { return _posMinS; }
 
-  inline Scalar_t posMax(const int) const noexcept { return _posMinS; }
+  inline Scalar_t posMax(const int) const noexcept { return _posMaxS; }
 
   inline void setRange(const Scalar_t min, const Scalar_t max) noexcept {
     assert(min < max);
-- 
2.43.0


From 1a0006959d5f356e81f6cfc3578349d31cf0f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 21/73] fix: rectangle PSO boxes used members that don't exist

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index 38c84ba..41c284b 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -107,7 +107,7 @@ class NonsquareBox4PSO {
   inline Scalar_t posMax(const int idx) const noexcept { return at(_posMaxV, idx); }
 
   inline void setRange(const Var_t& _min, const Var_t& _max) noexcept {
-    if constexpr (!array_traits<Var_t>::isSizeFixed) {
+    if constexpr (!array_traits<Var_t>::isFixedSize) {
       assert(_min.size() == _max.size());
     }
 
@@ -234,8 +234,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d);
       }
     } else if constexpr (array_traits<Var_t>::isColVector) {
       if (this->posMin().size() != __d) {
@@ -244,8 +244,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d, 1);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d, 1);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d, 1);
       }
     } else {
       if (this->posMin().size() != __d) {
@@ -254,8 +254,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(1, __d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(1, __d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(1, __d);
       }
     }
   }
@@ -267,11 +267,11 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
   inline void assert4Size() const noexcept {
     assert(this->posMin().rows() == this->posMax().rows());
 
-    assert(this->posMax().rows() == this->velocityMax().rows());
+    assert(this->posMax().rows() == this->maxVelocity().rows());
 
     assert(this->posMin().cols() == this->posMax().cols());
 
-    assert(this->posMax().cols() == this->velocityMax().cols());
+    assert(this->posMax().cols() == this->maxVelocity().cols());
   }
 
  public:
@@ -299,8 +299,8 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
       this->posMax().resize(_r, _c);
     }
 
-    if (this->velocityMax().rows() != _r || this->velocityMax().cols() != _c) {
-      this->velocityMax().resize(_r, _c);
+    if (this->maxVelocity().rows() != _r || this->maxVelocity().cols() != _c) {
+      this->maxVelocity().resize(_r, _c);
     }
   }
 };
@@ -314,7 +314,7 @@ class NonSquareBoxDynamicDim4PSO
   static_assert(!array_traits<Var_t>::isFixedSize);
   inline int dimensions() const noexcept {
     assert(this->posMin().size() == this->posMax().size());
-    assert(this->posMax().size() == this->velocityMax().size());
+    assert(this->posMax().size() == this->maxVelocity().size());
 
     return this->posMin().size();
   }
-- 
2.43.0


From 475874251bd49255e74d7e010f3a7a7bad20944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 22/73] fix: PSO couldn't initialise matrix variables in a
 rectangle box

---
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index f1f4bda..19942f2 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -328,7 +328,7 @@ Var_t _velocityMax;
         at(*pos, idx) = randD(s->posMin(), s->posMax());
 
       } else {
-        at(*pos, idx) = randD(s->posMin()[idx], s->posMax()[idx]);
+        at(*pos, idx) = randD(s->posMin(idx), s->posMax(idx));
       }
     }
   }
-- 
2.43.0


From 84ef307232e3e8017960b692325757a0e551d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 23/73] fix: PSO for std containers used members that the boxes
 don't have

---
 HeuristicFlow/src/PSO/PSO4std.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 8c6cd9c..c537bd9 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -105,12 +105,12 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
             this->_option.inertiaFactor * i.velocity[idx] +
             this->_option.learnFactorP * rndP * (i.pBest.position[idx] - i.position[idx]) +
             this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);
-        if (std::abs(i.velocity[idx]) > this->_velocityMax[idx]) {
-          i.velocity[idx] = sign(i.velocity[idx]) * this->_velocityMax[idx];
+        if (std::abs(i.velocity[idx]) > this->maxVelocity(idx)) {
+          i.velocity[idx] = sign(i.velocity[idx]) * this->maxVelocity(idx);
         }
         i.position[idx] += i.velocity[idx];
-        i.position[idx] = std::max(i.position[idx], this->_posMin[idx]);
-        i.position[idx] = std::min(i.position[idx], this->_posMax[idx]);
+        i.position[idx] = std::max(i.position[idx], this->posMin(idx));
+        i.position[idx] = std::min(i.position[idx], this->posMax(idx));
       }
     }
   }
-- 
2.43.0


From 346f502f54e3d243dc0333559b326d732e95fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 24/73] fix: PSO drew from the shared random engine inside a
 parallel loop

---
 HeuristicFlow/src/PSO/PSO4Eigen.hpp |  8 +++++++-
 HeuristicFlow/src/PSO/PSO4std.hpp   | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index f1818ee..9883785 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -83,13 +83,19 @@ class PSO4Eigen
    *
    */
   void __impl_updatePopulation() noexcept {
+    // The global random engine isn't thread-safe, so draw before entering the parallel loop
+    std::vector<std::array<double, 2>> learnRand(this->_population.size());
+    for (std::array<double, 2>& r : learnRand) {
+      r[0] = randD();
+      r[1] = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, std::max<size_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
-      const Scalar_t lFP = randD(), lFG = randD();
+      const Scalar_t lFP = learnRand[idx][0], lFG = learnRand[idx][1];
       i.velocity = this->_option.inertiaFactor * i.velocity +
                    this->_option.learnFactorP * lFP * (i.pBest.position - i.position) +
                    this->_option.learnFactorG * lFG * (this->gBest.position - i.position);
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index c537bd9..84bf843 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -92,14 +92,20 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    *
    */
   void __impl_updatePopulation() noexcept {
+    // The global random engine isn't thread-safe, so draw before entering the parallel loop
+    std::vector<std::array<double, 2>> learnRand(this->_population.size());
+    for (std::array<double, 2>& r : learnRand) {
+      r[0] = randD();
+      r[1] = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, std::max<size_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
-      const double rndP = randD();
-      const double rndG = randD();
+      const double rndP = learnRand[index][0];
+      const double rndG = learnRand[index][1];
       for (int idx = 0; idx < this->dimensions(); idx++) {
         i.velocity[idx] =
             this->_option.inertiaFactor * i.velocity[idx] +
-- 
2.43.0


From 9f840427768b655c93c1d5f57dc9d2f9e3ea290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 25/73] fix: AOS didn't compile without OpenMP

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index 4e39322..9f61c72 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -123,7 +123,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
         continue;
       }
 
-      AOSExecutor<>::doFitness(this, &i.self, &i._Fitness);
+      AOSExecutor<>::doFitness(this, &i.state, &i.energy);
 
       i.isComputed = true;
     }
-- 
2.43.0


From a90ccec341b77b1073a2fe3b25a0574e67e3d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 26/73] fix: AOS chose the best electron of a layer by its
 address

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 099c765..77587a9 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -78,11 +78,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
         layer.bindingState += layer.at(idx)->state;
         layer.bindingEnergy += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
-          if (layer.at(idx) < layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         } else {
-          if (layer.at(idx) > layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy > layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         }
-- 
2.43.0


From 745b24cdbd09463df689f6754dfafb509218d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 27/73] fix: AOS for std containers didn't sum the binding
 energy of a layer

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 77587a9..06e9413 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -196,6 +196,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
+        layer.bindingEnergy += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
-- 
2.43.0


From 95cbc76a7079ad6b0d265fed787d9e1996ecdf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 28/73] fix: AOS kept a dangling pointer when its best electron
 tied with a survivor

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 99d5ddf..80044f4 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -85,6 +85,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       elecSortSpace.pop_back();
     }
 
+    // the previous best electron may have been removed in favour of an equally good one
+    this->_atomBestPtr = &*elecSortSpace.front();
+
     this->_layers.clear();
 
     // a estimation value of layer number
-- 
2.43.0


From 0c20e45382ea02d67d48d2581564492a374ac4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 29/73] fix: setting the delta of a 2-D rectangle box did not
 compile (range-for over an Eigen array)

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 64005da..798d77d 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -547,8 +547,8 @@ class NonSquareBoxDeltaCore {
   inline Scalar_t delta(const int idx) const noexcept { return at(_deltaV, idx); }
 
   inline void setDelta(const Var_t& __delta) noexcept {
-    for (Scalar_t deltaElement : __delta) {
-      assert(deltaElement > 0);
+    for (int i = 0; i < int(__delta.size()); i++) {
+      assert(at(__delta, i) > 0);
     }
     _deltaV = __delta;
   }
-- 
2.43.0


From 6101378e3844a6637279f7289e3ffa8384a37b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 30/73] fix: multiBitSet(0) left its members uninitialised

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 00aa9e9..5536e63 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -353,6 +353,9 @@ class multiBitSet {
    */
   multiBitSet(size_t __size) {
     if (__size <= 0) {
+      _data = nullptr;
+      _end = nullptr;
+      _size = 0;
       return;
     }
 
-- 
2.43.0


From c23c6286057725549e766263f75a8e2e69532b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 31/73] fix: multiBitSet's move constructor didn't compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 5536e63..436d026 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -395,8 +395,8 @@ class multiBitSet {
     _size = b._size;
 
     b._size = 0;
-    b._data = 0;
-    b.end = 0;
+    b._data = nullptr;
+    b._end = nullptr;
   }
 
   /**
-- 
2.43.0


From dea560220e7191a41a33c28d83352b57e32420bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 32/73] fix: multiBitSet with a user-defined block or allocator
 type didn't compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 436d026..901c348 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -111,7 +111,7 @@ class multiBitSet {
         */
 
    private:
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class iterator_t;
     friend class constIterator_t;
     reference_t() : source(nullptr), index(0){};
@@ -212,7 +212,7 @@ class multiBitSet {
    private:
     iterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<iterator_t>;
 
@@ -277,7 +277,7 @@ class multiBitSet {
    private:
     constIterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet;
     friend class reference_t;
     friend class iteratorBase<constIterator_t>;
 
-- 
2.43.0


From beb86048fe130e3ceb45e3a1d105ee326538d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 33/73] fix: iterating over a constant multiBitSet didn't
 compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 901c348..b1af5ef 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -214,6 +214,7 @@ class multiBitSet {
 
     friend class multiBitSet;
     friend class reference_t;
+    friend class constIterator_t;
     friend class iteratorBase<iterator_t>;
 
     reference_t ref;
@@ -275,10 +276,13 @@ class multiBitSet {
    */
   class constIterator_t : public iteratorBase<constIterator_t> {
    private:
-    constIterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
+    // ref is never used to write
+    constIterator_t(const multiBitSet* src, size_t idx)
+        : ref(const_cast<multiBitSet*>(src), idx) {}
 
     friend class multiBitSet;
     friend class reference_t;
+    friend class iterator_t;
     friend class iteratorBase<constIterator_t>;
 
     reference_t ref;
-- 
2.43.0


From e769c361aa7353528f3feb729c10a83198dc758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 34/73] fix: the mask of a multiBitSet was zero when an element
 fills a block

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index b1af5ef..12ed660 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -36,7 +36,7 @@ class multiBitSet {
   /// Type of element
   using value_t = uintX_t<eleBits>;
   /// The maximum value of each element
-  static constexpr block_t blockMask = (block_t(1) << (eleBits)) - 1;
+  static constexpr block_t blockMask = block_t(~block_t(0)) >> (sizeof(block_t) * 8 - eleBits);
   /// Bits of block
   static constexpr size_t blockBits = sizeof(block_t) * 8;
 
-- 
2.43.0


From 2377d134f14588cf99b3a4f2b4db94dde6650280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 35/73] fix: multiBitSet with narrow blocks kept old bits of a
 split element

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 12ed660..2afff7b 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -629,7 +629,7 @@ class multiBitSet {
       const size_t rightBitNum = lastScalarBitIdx - midBitIdx + 1;
 
       (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;
-      (*blockNextPtr) = ((*blockNextPtr) << rightBitNum) >> rightBitNum;
+      (*blockNextPtr) = block_t((*blockNextPtr) << rightBitNum) >> rightBitNum;
 
       (*blockPrevPtr) |= (value >> (rightBitNum));
       (*blockNextPtr) |= (value << (blockBits - rightBitNum));
-- 
2.43.0


From 64a37d09302dfa5314d17a33beb82178e3c1f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 36/73] fix: large multiBitSets allocated too few blocks (float
 arithmetic)

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 2afff7b..759c8b3 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -364,7 +364,7 @@ class multiBitSet {
     }
 
     // const size_t __bytesNeed = std::ceil(float(eleBits * __size) / 8);
-    const size_t __blocksNeed = size_t(std::ceil(float(__size * eleBits) / (blockBits)));
+    const size_t __blocksNeed = blocksFor(__size);
     _data = alloc().allocate(__blocksNeed);
     _end = _data + __blocksNeed;
     _size = __size;
@@ -469,7 +469,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = size_t(std::ceil(float(newSize * eleBits) / (sizeof(block_t) * 8)));
+    const size_t newBlockNum = blocksFor(newSize);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -492,7 +492,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = std::ceil(float(newCap * eleBits) / (sizeof(block_t) * 8));
+    const size_t newBlockNum = blocksFor(newCap);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -505,7 +505,7 @@ class multiBitSet {
   }
 
   inline void shrink_to_fit() noexcept {
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     if (blocksNeed == blocks()) {
       return;
@@ -571,7 +571,7 @@ class multiBitSet {
     }
 
     resize(another.size());
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     memcpy(_data, another._data, blocksNeed * sizeof(block_t));
     return *this;
@@ -600,6 +600,11 @@ class multiBitSet {
 
   friend class reference_t;
 
+  /// Number of blocks that `eleNum` elements occupy
+  static constexpr size_t blocksFor(size_t eleNum) noexcept {
+    return (eleNum * eleBits + blockBits - 1) / blockBits;
+  }
+
   value_t setValue(const size_t index, block_t value) noexcept {
     value &= blockMask;  // remove extra bits
 
-- 
2.43.0


From 7c8277fd155e2d6b939645f7ea465b51994b7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 37/73] fix: growing a multiBitSet lost its elements

---
 .../src/SimpleMatrix/MultiBitSet.hpp          | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 759c8b3..4812f8a 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -464,21 +464,7 @@ class multiBitSet {
    * \param newSize
    */
   inline void resize(size_t newSize) noexcept {
-    if (newSize <= this->capacity()) {
-      _size = newSize;
-      return;
-    }
-
-    const size_t newBlockNum = blocksFor(newSize);
-
-    block_t* newDataPtr = alloc().allocate(newBlockNum);
-
-    // memcpy(newDataPtr, _data, _end - _data);
-
-    alloc().deallocate(_data, _end - _data);
-
-    _data = newDataPtr;
-    _end = _data + newBlockNum;
+    reserve(newSize);
     _size = newSize;
   }
 
@@ -496,9 +482,13 @@ class multiBitSet {
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
-    memcpy(newDataPtr, _data, _end - _data);
+    memset(newDataPtr, 0, newBlockNum * sizeof(block_t));
 
-    alloc().deallocate(_data, _end - _data);
+    if (_data != nullptr) {
+      memcpy(newDataPtr, _data, blocks() * sizeof(block_t));
+
+      alloc().deallocate(_data, blocks());
+    }
 
     _data = newDataPtr;
     _end = _data + newBlockNum;
-- 
2.43.0


From 1f9c6f1caa67e6b803f8cb219bac10df9cdfd3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 38/73] fix: copying a multiBitSet with spare capacity
 overflowed the copy

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 4812f8a..a2ae68c 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -384,7 +384,7 @@ class multiBitSet {
     if (b.size() > 0) {
       this->resize(b.size());
 
-      memcpy(this->_data, b._data, b.blocks() * sizeof(block_t));
+      memcpy(this->_data, b._data, blocksFor(b.size()) * sizeof(block_t));
     }
   }
 
-- 
2.43.0


From a0d561742c86c201e4f87b6c6f4f37bcc0f1f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 39/73] fix: copying a MatrixDynamicSize resized an
 uninitialised matrix

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f756ae4..b8874de 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -90,7 +90,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    *
    * \param src Source of copying
    */
-  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept {
+  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept : MatrixDynamicSize() {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
       dataPtr[i] = src.dataPtr[i];
-- 
2.43.0


From 3c94b2a4329814faed993b385091a5fddd3b2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 40/73] fix: assigning a MatrixDynamicSize of a trivial type
 didn't compile

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b8874de..15eea69 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -136,11 +136,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
   MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
-      if constexpr (!std::is_trivially_copy_assignable_v<Scalar_t>) {
-        dataPtr[i] = src.dataPtr[i];
-      } else {
-        memcpy(dataPtr, src, sizeof(Scalar_t) * src.size());
-      }
+      dataPtr[i] = src.dataPtr[i];
     }
     return *this;
   }
-- 
2.43.0


From 90a37ba63abb4c4e3531f93a51675501ade8cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 41/73] fix: MatrixDynamicSize's move assignment returned
 nothing

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 15eea69..b20a4c5 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -148,6 +148,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return MatrixDynamicSize&
    */
   MatrixDynamicSize &operator=(MatrixDynamicSize &&src) noexcept {
+    if (this == &src) return *this;
     if (this->dataPtr != nullptr) {
       if constexpr (!std::is_trivially_destructible_v<Scalar_t>) {
         for (int i = 0; i < _capacity; i++) {
@@ -166,6 +167,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     src.colNum = 0;
     this->_capacity = src._capacity;
     src._capacity = 0;
+    return *this;
   }
 
   template <class DerivedB>
-- 
2.43.0


From 9f182a9dac9ad15823e2c1376b84e80eb1119946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 42/73] fix: resizing a MatrixDynamicSize neither destroyed nor
 constructed class elements

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b20a4c5..2936eda 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -249,7 +249,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     if (r * c != size()) {
       if (r * c > _capacity) {
         if (dataPtr != nullptr) {
-          if constexpr (std::is_trivially_destructible_v<Scalar_t>)
+          if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
             for (int i = 0; i < _capacity; i++) {
               // alloc().destroy(dataPtr + i);
               (dataPtr + i)->~Scalar_t();
@@ -260,10 +260,9 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
         dataPtr = alloc().allocate(r * c);
         _capacity = r * c;
 
-        if constexpr (std::is_trivially_default_constructible_v<Scalar_t>)
+        if constexpr (!std::is_trivially_default_constructible_v<Scalar_t>)
           for (int i = 0; i < _capacity; i++) {
-            // alloc().construct(dataPtr + i);
-            dataPtr[i] = Scalar_t();
+            std::allocator_traits<allocator_t>::construct(alloc(), dataPtr + i);
           }
       }
     }
-- 
2.43.0


From 7a83b294532e8aa8be4c01ef714fc305e939eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 43/73] fix: MatrixDynamicSize::reserve shrank instead of
 growing and copied class elements bytewise

---
 .../src/SimpleMatrix/MatrixDynamicSize.hpp    | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 2936eda..4d4d4b9 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -226,13 +226,26 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \param s Size to be reserved
    */
   void reserve(int s) noexcept {
-    if (_capacity <= s) return;
+    if (s <= _capacity) return;
 
     Scalar_t *newPtr = alloc().allocate(s);
 
-    memcpy(newPtr, dataPtr, sizeof(Scalar_t) * _capacity);
+    if constexpr (!std::is_trivially_default_constructible_v<Scalar_t>)
+      for (int i = 0; i < s; i++) {
+        std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i);
+      }
+
+    for (int i = 0; i < size(); i++) {
+      newPtr[i] = std::move(dataPtr[i]);
+    }
 
-    alloc().deallocate(dataPtr, _capacity);
+    if (dataPtr != nullptr) {
+      if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
+        for (int i = 0; i < _capacity; i++) {
+          (dataPtr + i)->~Scalar_t();
+        }
+      alloc().deallocate(dataPtr, _capacity);
+    }
 
     _capacity = s;
 
-- 
2.43.0


From 68891fc5afb99e8a97d69c8dc841ba1f65885d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 44/73] fix: assignments between a MatrixMap and other matrices
 didn't compile

---
 HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
index af4b033..333afcf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
@@ -27,6 +27,7 @@ namespace heu {
 
 template <typename Scalar>
 class MatrixMap : public MatrixBase<MatrixMap<Scalar>> {
+ public:
   using Scalar_t = Scalar;
 
  protected:
-- 
2.43.0


From 1f223ddf2aaa519d7783206eafcf354c0f1360b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 45/73] fix: encode() doubled numbers whose mantissa is all
 ones

---
 .../src/Global/ConvertDoubleAndBinCode.hpp    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index aa3950e..bc8ce5b 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -247,41 +247,42 @@ constexpr uint64_t exponentVal(double fl) {
   uint64_t code = 0;
   fl = absVal(fl);
 
-  constexpr double seper =
-      decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
+  // Stay among normal numbers while dividing, so that no division rounds
+  constexpr double minNormal = std::numeric_limits<double>::min();
 
-  while (fl > 257 * seper) {
+  while (fl >= 512 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
 
+  if (fl >= minNormal) code++;
+
   return code;
 }
 
 constexpr uint32_t exponentVal(float fl) {
   uint32_t code = 0;
   fl = absVal(fl);
-  /*
-constexpr double seper =
-    decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
-    */
-  constexpr float seper = decode(binCode32(0b00000000011111111111111111111111UL));
+  // Stay among normal numbers while dividing, so that no division rounds
+  constexpr float minNormal = std::numeric_limits<float>::min();
 
-  while (fl > 257 * seper) {
+  while (fl >= 512 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
 
+  if (fl >= minNormal) code++;
+
   return code;
 }
 
-- 
2.43.0


From c02f3f54a4d8fcd5622c60b938f57a09c5e2fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 46/73] fix: encode() gave positive infinity (float) a negative
 code

---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index bc8ce5b..415f3cf 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -397,9 +397,9 @@ constexpr binCode32 encode(const float d) {
 
   if (absVal(d) >= std::numeric_limits<float>::infinity()) {
     if (d > 0) {
-      return binCode32(0b11111111111UL << 23);
+      return binCode32(0b11111111UL << 23);
     } else {
-      return binCode32(0b111111111111UL << 23);
+      return binCode32(0b111111111UL << 23);
     }
   } else
     return binCode32(signCode(d) | exponentCode(d) | mantissaCode(d));
-- 
2.43.0


From bc6a035775602d8794962aacbbdfcec0cc7d3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 47/73] fix: DivCode_Pi_mul_2 was 2/pi instead of 2*pi

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 66dcc69..10f4702 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -44,7 +44,7 @@ namespace heu {
 enum DivCode : uint64_t {
   DivCode_Half = 4294967298,
   DivCode_Pi = 2088567404207137453,
-  DivCode_Pi_mul_2 = 993512999210214248,
+  DivCode_Pi_mul_2 = 2111843339441150603,
   DivCode_Pi_mul_3 = 2111843339415065010,
   DivCode_Pi_mul_4 = 4223686678804044427,
   DivCode_Pi_mul_6 = 2111843339388979417,
-- 
2.43.0


From c7fac5af804aba8b37131a276cc86376c796b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 48/73] fix: PowEncode's coefficient didn't fit into its 54
 bits when it starts with 1.8 or more

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 10f4702..a2831d3 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -123,7 +123,7 @@ enum PowCode : uint64_t {
 
 namespace internal {
 // Multiplie val for 10 times until it gets greater than the threshold
-template <uint64_t val, uint64_t threshold = 10000000000000000ULL>
+template <uint64_t val, uint64_t threshold = 1000000000000000ULL>
 struct PowEncode_amplifier {
  private:
   static const constexpr bool need2amp = (val < threshold);
@@ -175,7 +175,7 @@ struct PowEncode_OneE<0> {
 template <int64_t significant, int16_t power>
 struct PowEncode {
  private:
-  static const constexpr uint64_t threshold = 1e16;
+  static const constexpr uint64_t threshold = 1e15;
   static const constexpr bool isNegative = significant < 0;
   static const constexpr uint64_t absVal = (isNegative) ? (-significant) : significant;
   static const constexpr bool isSigValid = (absVal / 10 < threshold);
@@ -227,7 +227,7 @@ struct PowDecode {
   static const constexpr bool isPowNegative = lowerBitMask & code;
   static const constexpr int16_t absPow = lowerPowMask & code;
   static const constexpr int16_t pow = (isPowNegative ? (-absPow) : absPow);
-  static const constexpr double digital = (sig) / (1e16);
+  static const constexpr double digital = (sig) / (1e15);
   static const constexpr double powPart = internal::PowEncode_OneE<pow>::result;
 
  public:
-- 
2.43.0


From 2b20acb7815b2e1b6139325e64c1185072d21dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 49/73] fix: randIdx could return its upper bound for sizes
 above 2^24 (float precision)

---
 HeuristicFlow/src/Global/Randoms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index 51f66fc..e417e33 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -129,7 +129,7 @@ inline float randF() noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t size) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
-  return int_t(randF() * size);
+  return int_t(randD() * size);
 }
 
 /**
@@ -144,7 +144,7 @@ inline int_t randIdx(int_t size) noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t min, int_t max_plus_1) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
-  return int_t((max_plus_1 - min) * randF()) + min;
+  return int_t((max_plus_1 - min) * randD()) + min;
 }
 
 inline double normD() noexcept {
-- 
2.43.0


From 804005067c39aa48c3cf071d6b598c5f68f34599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 50/73] fix: NchooseK overflowed for N above 20 (12 for int),
 NSGA3 made wrong numbers of reference points

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 532ebef..3eaed93 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -85,8 +85,14 @@ template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
   if (K * 2 > N) {
     return NchooseK<num_t>(N, N - K);
-  } else
-    return fractorial<num_t>(N) / (fractorial<num_t>(K) * fractorial<num_t>(N - K));
+  } else {
+    // multiply step by step: N! overflows long before the result does
+    num_t result = 1;
+    for (num_t i = 1; i <= K; i++) {
+      result = result * (N - K + i) / i;  // always divisible
+    }
+    return result;
+  }
 }
 /*
 namespace internal
-- 
2.43.0


From 217a495b6b818591d39c7330f8e487dd073d3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 51/73] fix: ackley used M_2_PI, which is 2/pi, where the
 function has 2*pi

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1f40756..3cf37c0 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -66,7 +66,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     assert4Size(_x);
     auto x = _x->operator[](0), y = _x->operator[](1);
     *f = -20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) -
-         std::exp(0.5 * (std::cos(M_2_PI * x) + std::cos(M_2_PI * y))) + 20 + M_E;
+         std::exp(0.5 * (std::cos(2 * M_PI * x) + std::cos(2 * M_PI * y))) + 20 + M_E;
   }
 
   inline static void beale(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From e524cd5e1f2f5aef62c899ce6e99edb2a13aba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 52/73] fix: GoldsteinPrice could not be used with an argument
 type, its wrapper had another name

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 3cf37c0..abe4d4f 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -33,7 +33,7 @@ template <typename Var_t, class Fitness_t = double, class Arg_t = void>
 struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, ackley)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, beale)
-  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldSteinPrice)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldsteinPrice)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, booth)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, bukin)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
-- 
2.43.0


From 79045c3ee00e900917b9fd4328e800f0cce6b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 53/73] fix: GoldsteinPrice had wrong coefficients, its minimum
 was not at (0,-1)

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index abe4d4f..5773ede 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -83,7 +83,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto part1 =
         1 + square(1 + x + y) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y);
     const auto part2 =
-        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x + 47 * y - 36 * x * y + 27 * y * y);
+        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y);
     *f = part1 * part2;
   }
 
-- 
2.43.0


From 181887096803161ea522eddc2a9f84474a5d4cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 54/73] fix: threeHumpCamel could not be used with an argument
 type

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 5773ede..12cffc4 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -39,6 +39,7 @@ struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, levy)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, himmelblau)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, threeHumpCamel)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, easom)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, crossInTray)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, eggHolder)
-- 
2.43.0


From aa92a837ab2c4539c16cba2c8d16b9bca69c1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 55/73] fix: holderTable was NaN wherever |y|>|x|

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 12cffc4..cdc6748 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -171,7 +171,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     *f = -std::abs(std::sin(x) * std::cos(y) *
                    std::exp(
 
-                       std::abs(1 - std::sqrt(x * x - y * y) / M_PI)
+                       std::abs(1 - std::sqrt(x * x + y * y) / M_PI)
 
                            ));
   }
-- 
2.43.0


From e9c03e43c4be3ecc8c34a9396527f14463265304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 56/73] fix: schaffer2 subtracted 0.5 before squaring the sine,
 its minimum was not 0

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index cdc6748..2b7420f 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -189,7 +189,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto x = _x->operator[](0);
     const auto y = _x->operator[](1);
 
-    *f = 0.5 + (square(std::sin(x * x - y * y) - 0.5)) / square(1 + 0.001 * (x * x + y * y));
+    *f = 0.5 + (square(std::sin(x * x - y * y)) - 0.5) / square(1 + 0.001 * (x * x + y * y));
   }
 
   inline static void schaffer4(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From 220715133a74f67254443f76995eb1a1224c4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 57/73] fix: rosenbrock left out the square of x_i

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 2b7420f..1a3aeeb 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -239,13 +239,15 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto square_1_minus_x_top = (1 - x->topRows(x->size() - 1)).square().sum();
-      auto minusSquare = (x->topRows(x->size() - 1) - x->bottomRows(x->size() - 1)).square().sum();
+      const auto top = x->array().head(x->size() - 1);
+      const auto bottom = x->array().tail(x->size() - 1);
+      const auto square_1_minus_x_top = (1 - top).square().sum();
+      const auto minusSquare = (bottom - top.square()).square().sum();
       *f = 100 * minusSquare + square_1_minus_x_top;
     } else {
       double val = 0;
       for (int idx = 0; idx < x->size() - 1; idx++) {
-        val += 100 * square(x->operator[](idx + 1) - x->operator[](idx)) +
+        val += 100 * square(x->operator[](idx + 1) - square(x->operator[](idx))) +
                square(1 - x->operator[](idx));
       }
       *f = val;
-- 
2.43.0


From 6f852fbf742dc21e8efd3bb0071d804d1e437aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 58/73] fix: styblinskiTang was twice as large for Eigen types

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1a3aeeb..5f959c6 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -257,7 +257,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto arr = x->array();
-      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum();
+      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
       for (auto xi : *x) {
-- 
2.43.0


From 64a1effc080ca2307b1757a4bec8e7e156e9c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 59/73] fix: testFunctions could not be instantiated for fewer
 variables than objectives

---
 HeuristicFlow/src/EAGlobal/TestFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
index 0290afc..2aac73b 100644
--- a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
@@ -62,7 +62,7 @@ struct MOFunctions
       public std::conditional<sizeMayMatchDTLZ1to7<Var_t, Fitness_t>::value,
                               DTLZ1to7<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type,
       public std::conditional<sizeMayMatchDTLZ89<Var_t, Fitness_t>::value,
-                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type {
+                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct6>::type {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 2),
                 "The size of Fitness_t must be greater than 1.");
 };
-- 
2.43.0


From 1628ca54dc721c937db3d3ac5aef143ae04b3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 60/73] fix: Schaffer2 had two wrong branches

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0e850ff..8a20efc 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -79,12 +79,12 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
     if (x <= 1) {
       f->operator[](0) = -x;
-    } else if (x <= -3) {
+    } else if (x <= 3) {
       f->operator[](0) = x - 2;
     } else if (x <= 4) {
       f->operator[](0) = 4 - x;
     } else {
-      f->operator[](0) = 4 - x;
+      f->operator[](0) = x - 4;
     }
   }
 };
-- 
2.43.0


From 5d4e1f315bf5f66e573e255995af079bb4ed19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 61/73] fix: BinhKorn, ChangkongHaimes, Poloni and viennet
 decided by the type of the variable how to resize the fitness

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 8a20efc..1defe9b 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -108,8 +108,8 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(2, 1);
       } else {
         f->resize(2);
@@ -190,8 +190,8 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(3, 1);
       } else {
         f->resize(3);
-- 
2.43.0


From 48818c8c315755b91ff99aaa3c84ce8f76663298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 62/73] fix: viennet had 2x where the function has 3x

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 1defe9b..4dd80b1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -208,7 +208,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
     const auto x2_plus_y2 = x * x + y * y;
     f->operator[](0) = x2_plus_y2 / 2 + std::sin(x2_plus_y2);
-    f->operator[](1) = square(2 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
+    f->operator[](1) = square(3 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
     f->operator[](2) = 1 / (x2_plus_y2 + 1) - 1.1 * std::exp(-x2_plus_y2);
   }
 };
-- 
2.43.0


From 527f4629903d7f88a3f3bd7166848977ea64c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 63/73] fix: FonsecaFleming took the number of objectives for
 the number of variables and square roots for squares

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 4dd80b1..71d5652 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -234,17 +234,18 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
  public:
   static inline void FonsecaFleming(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = f->size();  // If the size of f is determined at compile-time, the compiler will
-                              // be able to optimize it; otherwise N is a read only integer.
+    const int N = int(_x->size());  // If the size of x is determined at compile-time, the compiler
+                                    // will be able to optimize it; otherwise N is a read only
+                                    // integer.
     typename array_traits<Fitness_t>::Scalar_t exp1 = 0, exp2 = 0;
-    constexpr typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
+    const typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
     if constexpr (array_traits<Var_t>::isEigenClass) {
       exp1 = -1 * (_x->array() - rSqrtN).square().sum();
       exp2 = -1 * (_x->array() + rSqrtN).square().sum();
     } else {
       for (int idx = 0; idx < N; idx++) {
-        exp1 -= sqrt(_x->operator[](idx) - rSqrtN);
-        exp2 -= sqrt(_x->operator[](idx) + rSqrtN);
+        exp1 -= square(_x->operator[](idx) - rSqrtN);
+        exp2 -= square(_x->operator[](idx) + rSqrtN);
       }
     }
 
-- 
2.43.0


From 308517d3b27edba6ac1cf3664b3c90bbb73acebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 64/73] fix: Kursawe took the number of objectives for the
 number of variables

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 71d5652..72d763b 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -255,10 +255,11 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
 
   static inline void Kursawe(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = int(f->size());
+    const int N = int(_x->size());
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
+        constexpr int N = array_traits<Var_t>::sizeCT;  // reload the N from const to constexpr
         auto topN_sub_1Rows = _x->template topRows<N - 1>();
         auto bottomN_sub_1Rows = _x->template bottomRows<N - 1>();
         f1 = -10 * (-0.2 *
-- 
2.43.0


From 63398ac1fe4156f3d7ae0e527f92b9c1d24838da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 65/73] fix: DTLZ5 and DTLZ6 did not compile for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 72d763b..2656e5e 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -527,7 +527,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
       gr = xm.square().sum();
@@ -588,7 +588,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
-- 
2.43.0


From 6a5cf8c0f925414fbf66a301ffb3809ac0e20894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 66/73] fix: DTLZ7 left objective M-2 unset for std containers

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 2656e5e..5338a79 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -657,7 +657,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         f->head(M - 1) = x->head(M - 1);
       }
     } else {
-      for (int idx = 0; idx < M - 2; idx++) {
+      for (int idx = 0; idx < M - 1; idx++) {
         f->operator[](idx) = x->operator[](idx);
       }
     }
-- 
2.43.0


From 3fba711e6beb0d1cc7b11ce25794d66c028e1331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 67/73] fix: DTLZ9 read one element past the end of the
 variable

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 5338a79..9c29a42 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -862,7 +862,7 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     for (int objIdx = 0; objIdx < M; objIdx++) {
       f->operator[](objIdx) = 0;
-      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N, (objIdx + 1) * N / M);
+      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N - 1, (objIdx + 1) * N / M);
            varIdx++) {
         f->operator[](objIdx) += std::pow(x->operator[](varIdx), 0.1);
       }
-- 
2.43.0


From 2d29d481aff6c802be7750bb6d9fe5e3684e0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 68/73] fix: DTLZ9 read one element past the end of the
 objectives

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 9c29a42..35a5e71 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -869,7 +869,7 @@ struct DTLZ89<Var_t, Fitness_t, void> {
     }
     // apply penlties
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-      auto gOfObjIdx = square(f->operator[](M)) + square(f->operator[](objIdx)) - 1;
+      auto gOfObjIdx = square(f->operator[](M - 1)) + square(f->operator[](objIdx)) - 1;
 
       if (gOfObjIdx < 0) {
         f->operator[](objIdx) += 1e3 + (-gOfObjIdx);
-- 
2.43.0


From 7e685c316bcc658648961fd11d4bba59aa02cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 69/73] fix: DTLZ5 and DTLZ6 multiplied their angles by pi/2
 twice, objectives could be negative

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 24 +++++++++-------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 35a5e71..215eaed 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -545,14 +545,14 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
     } else {
       if constexpr (!array_traits<XPrevPartVec_t>::isFixedSize) {  // std::array or std::vector
         // theta.resize(M - 1);
@@ -561,13 +561,11 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
         // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = M_PI / 2 *
-
-                                    (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
       }
     }
 
@@ -606,14 +604,14 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
     } else {
       if constexpr (!array_traits<XPrevPartVec_t>::isFixedSize) {  // std::array or std::vector
         // theta.resize(M - 1);
@@ -622,13 +620,11 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
         // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = M_PI / 2 *
-
-                                    (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
       }
     }
 
-- 
2.43.0


From 161aaf45b7e860d4084e787542b41cfedb0793f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 70/73] fix: DTLZ5 and DTLZ6 used the sum of squares instead of
 g(xM) in their angles, their fronts were no curves

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 32 ++++++++++------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 215eaed..5d74cf1 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -525,15 +525,13 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     const int N = int(x->size());
     const int M = int(f->size());
 
-    scalar_t gXm = 0, gr = 0;
+    scalar_t gXm = 0;
 
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
-      gr = xm.square().sum();
     } else {
       for (int idx = M - 1; idx < N; idx++) {
-        gr += square(x->operator[](idx));
         gXm += square(x->operator[](idx) - 0.5);
       }
     }
@@ -542,13 +540,13 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     // compute theta;
     if constexpr (array_traits<XPrevPartVec_t>::isEigenClass) {  // Eigen's vector
       if constexpr (array_traits<Fitness_t>::isFixedSize) {
-        // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
+        // theta = (1 + 2 * gXm * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gXm));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gXm * x->template head<M - 1>()) * M_PI / (4 * (1 + gXm));
       } else {
-        // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        // theta = (1 + 2 * gXm * x->topRows(M - 1)) * M_PI / (4 * (1 + gXm));
+        theta_times_PI_div_2 = (1 + 2 * gXm * x->head(M - 1)) * M_PI / (4 * (1 + gXm));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
@@ -564,8 +562,8 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
-        // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        // theta[idx] = (1 + 2 * gXm * x->operator[](idx)) * M_PI / (4 * (1 + gXm));
+        theta_times_PI_div_2[idx] = (1 + 2 * gXm * x->operator[](idx)) * M_PI / (4 * (1 + gXm));
       }
     }
 
@@ -584,15 +582,13 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     const int N = int(x->size());
     const int M = int(f->size());
 
-    scalar_t gXm = 0, gr = 0;
+    scalar_t gXm = 0;
 
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
-      gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
     } else {
       for (int idx = M - 1; idx < N; idx++) {
-        gr += square(x->operator[](idx));
         gXm += std::pow(x->operator[](idx), 0.1);
       }
     }
@@ -601,13 +597,13 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     // compute theta;
     if constexpr (array_traits<XPrevPartVec_t>::isEigenClass) {  // Eigen's vector
       if constexpr (array_traits<Fitness_t>::isFixedSize) {
-        // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
+        // theta = (1 + 2 * gXm * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gXm));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            (1 + 2 * gXm * x->template head<M - 1>()) * M_PI / (4 * (1 + gXm));
       } else {
-        // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        // theta = (1 + 2 * gXm * x->topRows(M - 1)) * M_PI / (4 * (1 + gXm));
+        theta_times_PI_div_2 = (1 + 2 * gXm * x->head(M - 1)) * M_PI / (4 * (1 + gXm));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
@@ -623,8 +619,8 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       theta_times_PI_div_2[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
-        // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        // theta[idx] = (1 + 2 * gXm * x->operator[](idx)) * M_PI / (4 * (1 + gXm));
+        theta_times_PI_div_2[idx] = (1 + 2 * gXm * x->operator[](idx)) * M_PI / (4 * (1 + gXm));
       }
     }
 
-- 
2.43.0


From 2f325b9339b17ed9ec85019f536dcc74c8336eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 71/73] fix: testFunctions did not compile for a fixed variable
 with a dynamic fitness

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 5d74cf1..e5a9014 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -223,7 +223,7 @@ template <typename Var_t, class Fitness_t>
 struct MOFunctionsX2<Var_t, Fitness_t, void> {
  private:
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT == 2));
-  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 1));
+  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Var_t>::sizeCT >= 1));
 
   static inline void assert4Size(const Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
-- 
2.43.0


From ccbf91d01b61cdfe4843bb503751398876b56923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:56 +0000
Subject: [PATCH 72/73] fix: testFunctions did not compile for one fixed
 variable with a dynamic fitness

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index e5a9014..3b835a9 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -328,7 +328,7 @@ struct sizeMayMatchDTLZ1to7 {
 
   static constexpr bool value =
       (isAllFixed) ? (array_traits<Var_t>::sizeCT - array_traits<Fitness_t>::sizeCT + 1 > 0)
-                   : (true);
+                   : (!array_traits<Var_t>::isFixedSize || array_traits<Var_t>::sizeCT > 1);
 };
 
 template <typename Var_t, class Fitness_t>
-- 
2.43.0


From 5ec7372cf37f5174b02e7ee01667949d41b60c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 73/73] fix: styblinskiTang did not compile for Eigen arrays

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 5f959c6..112a941 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -256,7 +256,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
+      const auto &arr = x->array();
       *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
-- 
2.43.0

