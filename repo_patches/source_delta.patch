From 3ef45dd585f0dcfaff914bcc9a83e30eb9a65598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:49:24 +0000
Subject: [PATCH 01/42] fix: random transvection sequences discard the previous
 content of the sequence

ts_random_commuting, ts_random_unique_source and ts_random_unique_destination
appended to a non-empty sequence (and failed an assertion or returned
transvections without the requested structure), and all constrained samplers
left the previous sequence in place for a null length.
---
 lib/hnco/maps/transvection.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/hnco/maps/transvection.cc b/lib/hnco/maps/transvection.cc
index 5ec0d9a..7592674 100644
--- a/lib/hnco/maps/transvection.cc
+++ b/lib/hnco/maps/transvection.cc
@@ -184,6 +184,8 @@ void hnco::map::ts_random_commuting(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -246,6 +248,8 @@ void hnco::map::ts_random_unique_source(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -279,6 +283,8 @@ void hnco::map::ts_random_unique_destination(transvection_sequence_t& ts, int n,
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -312,6 +318,8 @@ void hnco::map::ts_random_disjoint(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
@@ -342,6 +350,8 @@ void hnco::map::ts_random_non_commuting(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
+
   if (t <= 0)
     return;
 
-- 
2.43.0


From 380c253d4cc1905f03e826ff14c7b40e67691a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:42 +0000
Subject: [PATCH 02/42] fix: standard bit mutation by Bernoulli process honours
 the allow-no-mutation flag

The flag was only taken into account by rejection sampling: otherwise the
process was started over until some bit was flipped (forever with a null
mutation rate).
---
 lib/hnco/neighborhoods/neighborhood.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 05620e2..195e62b 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -86,7 +86,7 @@ void
 StandardBitMutation::bernoulli_process()
 {
   _flipped_bits.clear();
-  bool again = true;
+  bool again = !_allow_no_mutation;
   do {
     for (size_t i = 0; i < _candidate.size(); i++)
       if (_bernoulli_dist(Generator::engine)) {
-- 
2.43.0


From e869e5f18b0d8aa0091a098e8a7317277e5b52cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:42 +0000
Subject: [PATCH 03/42] fix: generating an NK landscape again discards the
 structure of the previous instance

---
 lib/hnco/functions/collection/nk-landscape.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/nk-landscape.cc b/lib/hnco/functions/collection/nk-landscape.cc
index b94b633..487e8ae 100644
--- a/lib/hnco/functions/collection/nk-landscape.cc
+++ b/lib/hnco/functions/collection/nk-landscape.cc
@@ -36,8 +36,8 @@ NkLandscape::random_structure(int n, int k)
   assert(n > 0);
   assert(k > 0);
 
-  _neighbors.resize(n, std::vector<int>(k + 1));
-  _partial_functions.resize(n, std::vector<double>(1 << (k + 1)));
+  _neighbors.assign(n, std::vector<int>(k + 1));
+  _partial_functions.assign(n, std::vector<double>(1 << (k + 1)));
 
   size_t length = _partial_functions.size();
 
-- 
2.43.0


From 332ec1881edf68ead77ef1bfff6b9f8f27962e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:16 +0000
Subject: [PATCH 04/42] fix: the opposite of a function provides incremental
 evaluation only if the function does

---
 lib/hnco/functions/modifiers/modifier.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/modifiers/modifier.hh b/lib/hnco/functions/modifiers/modifier.hh
index 5ae20fe..c3fa693 100644
--- a/lib/hnco/functions/modifiers/modifier.hh
+++ b/lib/hnco/functions/modifiers/modifier.hh
@@ -63,9 +63,9 @@ public:
   int get_bv_size() const override { return _function->get_bv_size(); }
   /**
    * Check whether the function provides incremental evaluation.
-   * @return true
+   * @return true if the decorated function does
    */
-  bool provides_incremental_evaluation() const override { return true; }
+  bool provides_incremental_evaluation() const override { return _function->provides_incremental_evaluation(); }
   ///@}
 
   /**
-- 
2.43.0


From a0820fc1e1580318d337cc9554ec3873d108ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 05/42] fix: with incremental evaluation, controllers record
 the evaluated bit vector rather than its origin

---
 lib/hnco/functions/controllers/controller.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5b34e0a..66c9cec 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -45,6 +45,7 @@ StopOnTarget::evaluate_incrementally(const bit_vector_t& bv, double value, const
   double result = _function->evaluate_incrementally(bv, value, flipped_bits);
   if (result >= _target) {
     _trigger.first = bv;
+    bv_flip(_trigger.first, flipped_bits);
     _trigger.second = result;
     throw TargetReached();
   }
@@ -129,6 +130,8 @@ ProgressTracker::evaluate_incrementally(const bit_vector_t& bv, double value, co
 {
   double result = CallCounter::evaluate_incrementally(bv, value, flipped_bits);
   update_last_improvement(bv, result);
+  if (_record_bit_vector && _last_improvement.num_evaluations == _num_calls)
+    bv_flip(_last_improvement.solution.first, flipped_bits);
   return result;
 }
 
-- 
2.43.0


From 8c8f5e38fe957b4320cc2a7bd811886090cde1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:04 +0000
Subject: [PATCH 06/42] fix: a cache forwards updates after parallel evaluation
 to the function it decorates

---
 lib/hnco/functions/controllers/controller.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.hh b/lib/hnco/functions/controllers/controller.hh
index 5ba23c3..bede429 100644
--- a/lib/hnco/functions/controllers/controller.hh
+++ b/lib/hnco/functions/controllers/controller.hh
@@ -77,6 +77,9 @@ public:
   /// Safely evaluate a bit vector
   double evaluate_safely(const bit_vector_t& bv) { return _function->evaluate_safely(bv); }
 
+  /// Update after a safe evaluation
+  void update(const bit_vector_t& bv, double value) { _function->update(bv, value); }
+
   ///@}
 
 };
-- 
2.43.0


From c0c32190d3547a29428d2edff4fd4e332a948880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:43 +0000
Subject: [PATCH 07/42] fix: random walk: start from the value of the initial
 solution

The first incremental evaluation used an uninitialized value.
---
 lib/hnco/algorithms/local-search/random-walk.cc | 8 ++++++++
 lib/hnco/algorithms/local-search/random-walk.hh | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/hnco/algorithms/local-search/random-walk.cc b/lib/hnco/algorithms/local-search/random-walk.cc
index 177c484..c13709c 100644
--- a/lib/hnco/algorithms/local-search/random-walk.cc
+++ b/lib/hnco/algorithms/local-search/random-walk.cc
@@ -29,6 +29,14 @@ using namespace hnco::algorithm;
 using namespace hnco;
 
 
+void
+RandomWalk::init()
+{
+  LocalSearchAlgorithm<neighborhood::Neighborhood>::init();
+  _value = _solution.second;
+}
+
+
 void
 RandomWalk::iterate()
 {
diff --git a/lib/hnco/algorithms/local-search/random-walk.hh b/lib/hnco/algorithms/local-search/random-walk.hh
index a802912..65a6c20 100644
--- a/lib/hnco/algorithms/local-search/random-walk.hh
+++ b/lib/hnco/algorithms/local-search/random-walk.hh
@@ -59,6 +59,9 @@ protected:
    */
   ///@{
 
+  /// Initialize
+  void init() override;
+
   /// Single iteration
   void iterate() override;
 
-- 
2.43.0


From f7892ee07d0890dd79e193ee0ba998c2ab724b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:43 +0000
Subject: [PATCH 08/42] fix: tournament selection: return the winner of the
 last tournament of a round

The permutation was shuffled before the index of the winner was read.
---
 lib/hnco/multiobjective/algorithms/random-selection.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/multiobjective/algorithms/random-selection.hh b/lib/hnco/multiobjective/algorithms/random-selection.hh
index bfb31d2..543a7fc 100644
--- a/lib/hnco/multiobjective/algorithms/random-selection.hh
+++ b/lib/hnco/multiobjective/algorithms/random-selection.hh
@@ -105,12 +105,15 @@ public:
       }
     }
 
+    // init shuffles the permutation
+    const bit_vector_t& selected = _bvs[_permutation[winner]];
+
     _start = _stop;
     _stop += _tournament_size;
     if (_stop > int(_bvs.size()))
       init();
 
-    return _bvs[_permutation[winner]];
+    return selected;
   }
 
   /** @name Setters
-- 
2.43.0


From c705aa2cce4516775f9f75ced8bed865661a9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:43 +0000
Subject: [PATCH 09/42] fix: (1+(lambda, lambda)) GA: check the index before
 reading the value

The loops read past the end of the population when all offsprings tie.
---
 .../one-plus-lambda-comma-lambda-ga.cc                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
index 8504b8f..b163367 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
@@ -51,7 +51,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
 
   double value = _offsprings.get_best_value(0);
   int n = 0;
-  while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+  while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
     n++;
   assert(n > 0);
   std::uniform_int_distribution<int> choose_parent(0, n - 1);
@@ -67,7 +67,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
   value = _offsprings.get_best_value(0);
   if (value >= _solution.second) {
     n = 0;
-    while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+    while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
       n++;
     assert(n > 0);
     choose_parent = std::uniform_int_distribution<int>(0, n - 1);
-- 
2.43.0


From 37a4e671ce52854ff2d7988280ea58a00c9a6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:43 +0000
Subject: [PATCH 10/42] fix: NPS-PBIL: compute the mean of the worst bit
 vectors

The mean of the best bit vectors was used twice, hence the probability
vector never moved.
---
 lib/hnco/algorithms/probability-vector/nps-pbil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/nps-pbil.cc b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
index c6a752b..d648752 100644
--- a/lib/hnco/algorithms/probability-vector/nps-pbil.cc
+++ b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
@@ -58,7 +58,7 @@ NpsPbil::iterate()
 
   pv_init(_mean_worst);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_mean_worst, _population.get_best_bv(i));
+    pv_add(_mean_worst, _population.get_worst_bv(i));
   pv_average(_mean_worst, _selection_size);
 
   pv_update(_pv, _mean_best, _mean_worst, _learning_rate);
-- 
2.43.0


From e7f56f47d917defc30bce5554292d5ecd3982ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:43 +0000
Subject: [PATCH 11/42] fix: RAM-UMDA 2: estimate the probability vector from
 selected individuals

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index b634e26..2811c7c 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -144,7 +144,7 @@ RamUmda2::iterate()
   // Compute probability vector in the solution space
   pv_init(_pv);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_pv, _population_x.bvs[i]);
+    pv_add(_pv, _population_x.get_best_bv(i));
   pv_average(_pv, _selection_size);
   pv_bound(_pv, _lower_bound, _upper_bound);
 
-- 
2.43.0


From b483c6718bdee91fae986301f253fa379f59f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:58 +0000
Subject: [PATCH 12/42] fix: triangular Gibbs sampler: do not read past the end
 of rows in update_sync

Row i of a triangular moment has i elements; the others are in the rows
of the larger indices.
---
 lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
index 0c81e00..a2561ed 100644
--- a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
+++ b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
@@ -70,14 +70,18 @@ TriangularMomentGibbsSampler::update_sync()
   for (size_t i = 0; i < _pv.size(); i++) {
     double delta = _model_parameters.first_moment[i];
     const std::vector<double>& row = _model_parameters.second_moment[i];
-    for (size_t j = 0; j < _state.size(); j++) {
-      if (j == i)
-        continue;
+    for (size_t j = 0; j < i; j++) {
       if (_state[j])
         delta -= row[j];
       else
         delta += row[j];
     }
+    for (size_t j = i + 1; j < _state.size(); j++) {
+      if (_state[j])
+        delta -= _model_parameters.second_moment[j][i];
+      else
+        delta += _model_parameters.second_moment[j][i];
+    }
     delta *= -2;
 
     _pv[i] = logistic(delta);
-- 
2.43.0


From 30526991d9efcbaec840d9fe300c8cebdc178a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:07 +0000
Subject: [PATCH 13/42] fix: Walsh moments: take absolute values in the
 infinite norm

---
 lib/hnco/algorithms/walsh-moment/walsh-moment.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
index dba6f21..6f2d9ae 100644
--- a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
+++ b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
@@ -208,10 +208,10 @@ TriangularMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
@@ -424,10 +424,10 @@ FullMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
-- 
2.43.0


From 3ee4755a405eb20e7047afcf7470b2f3e03d54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:41 +0000
Subject: [PATCH 14/42] fix: compact GA: do not evaluate candidates again in an
 assertion

With assertions on, which is the default, every iteration made two more
evaluations, which count in the budget, and aborted with noisy functions.
---
 lib/hnco/algorithms/probability-vector/compact-ga.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/compact-ga.cc b/lib/hnco/algorithms/probability-vector/compact-ga.cc
index d6bb120..fb70d12 100644
--- a/lib/hnco/algorithms/probability-vector/compact-ga.cc
+++ b/lib/hnco/algorithms/probability-vector/compact-ga.cc
@@ -55,8 +55,6 @@ CompactGa::iterate()
   } else
     update_solution(_candidates[0], v0);
 
-  assert(_function->evaluate(_candidates[best]) >= _function->evaluate(_candidates[worst]));
-
   // Update probability vector
   for (size_t i = 0; i < _pv.size(); i++)
     if (_candidates[best][i] != _candidates[worst][i]) {
-- 
2.43.0


From 1d1de617228ec74276d83b938b4abdc077aec88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:58 +0000
Subject: [PATCH 15/42] fix: Restart keeps the solution of an interrupted run

---
 lib/hnco/algorithms/decorators/restart.cc | 25 +++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/hnco/algorithms/decorators/restart.cc b/lib/hnco/algorithms/decorators/restart.cc
index 17a98ca..f0e945e 100644
--- a/lib/hnco/algorithms/decorators/restart.cc
+++ b/lib/hnco/algorithms/decorators/restart.cc
@@ -18,6 +18,8 @@
 
 */
 
+#include "hnco/exception.hh"
+
 #include "restart.hh"
 
 
@@ -28,12 +30,23 @@ using namespace hnco::exception;
 void
 Restart::iterate(bool first_iteration)
 {
-  _algorithm->maximize(_functions);
-  _algorithm->finalize();
-  if (first_iteration)
-    _solution = _algorithm->get_solution();
-  else
-    update_solution(_algorithm->get_solution());
+  auto end_of_run = [this, first_iteration](){
+    _algorithm->finalize();
+    if (first_iteration)
+      _solution = _algorithm->get_solution();
+    else
+      update_solution(_algorithm->get_solution());
+  };
+
+  try {
+    _algorithm->maximize(_functions);
+  }
+  catch (const LastEvaluation&) {
+    // The interrupted run counts too.
+    end_of_run();
+    throw;
+  }
+  end_of_run();
 }
 
 void
-- 
2.43.0


From a5b29a1881b09536f00271011b20b256197197f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 16/42] fix: P3, LTGA and HBOA return the value of their
 solution in double precision

---
 lib/hnco/algorithms/fast-efficient-p3/hboa.cc  |  4 ++--
 .../fast-efficient-p3/hnco-evaluator.hh        | 18 +++++++++++++++++-
 lib/hnco/algorithms/fast-efficient-p3/ltga.cc  |  4 ++--
 lib/hnco/algorithms/fast-efficient-p3/p3.cc    |  4 ++--
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
index 022a8da..e88d524 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
@@ -71,6 +71,6 @@ Hboa::maximize(const std::vector<function::Function *>& functions)
 void
 Hboa::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator->get_num_evaluations() > 0)
+    _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
index e1e7b86..cbd5a3d 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
+++ b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
@@ -24,6 +24,7 @@
 #include <cassert>
 
 #include "hnco/functions/function.hh"
+#include "hnco/algorithms/solution.hh" // hnco::algorithm::solution_t
 
 #include "fast-efficient-p3/Evaluation.h"
 
@@ -41,6 +42,12 @@ class HncoEvaluator: public Evaluator {
   /// Argument of HNCO function
   hnco::bit_vector_t _bv;
 
+  /// Number of evaluations
+  int _num_evaluations = 0;
+
+  /// Best solution (with its value in double precision)
+  solution_t _best_solution;
+
 public:
 
   /// Constructor
@@ -57,9 +64,18 @@ public:
     assert(x.size() == _bv.size());
 
     bv_from_vector_bool(_bv, x);
-    return _function->evaluate(_bv);
+    double value = _function->evaluate(_bv);
+    if (_num_evaluations++ == 0 || value > _best_solution.second)
+      _best_solution = solution_t(_bv, value);
+    return value;
   }
 
+  /// Get the number of evaluations
+  int get_num_evaluations() const { return _num_evaluations; }
+
+  /// Get the best solution
+  const solution_t& get_best_solution() const { return _best_solution; }
+
 };
 
 } // end of namespace fast_efficient_p3
diff --git a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
index c606691..3191d1d 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
@@ -78,6 +78,6 @@ Ltga::maximize(const std::vector<function::Function *>& functions)
 void
 Ltga::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator->get_num_evaluations() > 0)
+    _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/p3.cc b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
index 24f76b4..1a40a1c 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/p3.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
@@ -80,6 +80,6 @@ ParameterLessPopulationPyramid::maximize(const std::vector<function::Function *>
 void
 ParameterLessPopulationPyramid::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator->get_num_evaluations() > 0)
+    _solution = _implementation->evaluator->get_best_solution();
 }
-- 
2.43.0


From 773455620f5362c90beb5b44ab84b24a9b69b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:27 +0000
Subject: [PATCH 17/42] fix: RAM-UMDA starts each search from the requested
 transvection sequence length

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 ++
 lib/hnco/algorithms/probability-vector/ram-umda.hh | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index 2811c7c..0005dfd 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -37,6 +37,7 @@ RamUmda::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _ts_length = _ts_length_init;
 }
 
 void
@@ -128,6 +129,7 @@ RamUmda2::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _ts_length = _ts_length_init;
 }
 
 void
diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.hh b/lib/hnco/algorithms/probability-vector/ram-umda.hh
index a250ec2..6aae761 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.hh
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.hh
@@ -70,7 +70,7 @@ public:
   /// Set the transvection sequence length mode
   void set_ts_length_mode(int n) { _ts_length_mode = n; }
   /// Set the transvection sequence length
-  void set_ts_length(int n) { _ts_length = n; }
+  void set_ts_length(int n) { _ts_length_init = n; }
   /// Set the lower bound for the transvection sequence length
   void set_ts_length_lower_bound(int n) { _ts_length_lower_bound = n; }
   /// Set the upper bound for the transvection sequence length
@@ -82,6 +82,8 @@ public:
   ///@}
 
 protected:
+  /// Transvection sequence length
+  int _ts_length;
   /// Population in the x space
   Population _population_x;
   /// Population in the y space
@@ -104,8 +106,8 @@ protected:
   int _selection_size = 10;
   /// Transvection sequence length mode
   int _ts_length_mode = TsLengthMode::constant;
-  /// Transvection sequence length
-  int _ts_length = 10;
+  /// Transvection sequence length at the beginning of the search
+  int _ts_length_init = 10;
   /// Lower bound for the transvection sequence length
   int _ts_length_lower_bound = 0;
   /// Upper bound for the transvection sequence length
-- 
2.43.0


From b50583d84e6dc987732c8c7c9f6e1578de0b011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:02 +0000
Subject: [PATCH 18/42] fix: report write errors when saving instances

---
 lib/hnco/functions/collection/max-sat.hh |  5 ++++-
 lib/hnco/functions/collection/sudoku.hh  |  3 +++
 lib/hnco/serialization.hh                | 14 ++++++++++----
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/hnco/functions/collection/max-sat.hh b/lib/hnco/functions/collection/max-sat.hh
index 63c7f5e..e267743 100644
--- a/lib/hnco/functions/collection/max-sat.hh
+++ b/lib/hnco/functions/collection/max-sat.hh
@@ -100,8 +100,11 @@ public:
   void save(std::string path) const {
     std::ofstream stream(path);
     if (!stream.good())
-      throw std::runtime_error("LinearFunction::save: Cannot open " + path);
+      throw std::runtime_error("AbstractMaxSat::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (!stream.good())
+      throw std::runtime_error("AbstractMaxSat::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/functions/collection/sudoku.hh b/lib/hnco/functions/collection/sudoku.hh
index dbcc8e0..511f7a9 100644
--- a/lib/hnco/functions/collection/sudoku.hh
+++ b/lib/hnco/functions/collection/sudoku.hh
@@ -114,6 +114,9 @@ public:
     if (!stream.good())
       throw std::runtime_error("Sudoku::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (!stream.good())
+      throw std::runtime_error("Sudoku::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/serialization.hh b/lib/hnco/serialization.hh
index db743bf..7a97ac0 100644
--- a/lib/hnco/serialization.hh
+++ b/lib/hnco/serialization.hh
@@ -22,6 +22,7 @@
 #define HNCO_SERIALIZATION_H
 
 #include <fstream>              // std::ifstream, std::ofstream
+#include <sstream>              // std::ostringstream
 #include <string>               // std::string
 
 #include <boost/archive/text_iarchive.hpp>
@@ -63,16 +64,21 @@ void load_from_archive(T& object, std::string path, std::string name)
 template<typename T>
 void save_to_archive(const T& object, std::string path, std::string name)
 {
-  std::ofstream stream(path);
-  if (!stream.good())
-    throw std::runtime_error(name + "::save: Cannot open " + path);
+  std::ostringstream content;
   try {
-    boost::archive::text_oarchive archive(stream);
+    boost::archive::text_oarchive archive(content);
     archive << object;
   }
   catch (boost::archive::archive_exception& e) {
     throw std::runtime_error(name + "::save: " + std::string(e.what()));
   }
+  std::ofstream stream(path);
+  if (!stream.good())
+    throw std::runtime_error(name + "::save: Cannot open " + path);
+  stream << content.str();
+  stream.close();
+  if (!stream.good())
+    throw std::runtime_error(name + "::save: Cannot write " + path);
 }
 
 ///@}
-- 
2.43.0


From 168a97b9cbb7f878933a59306d11453946c2c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:38 +0000
Subject: [PATCH 19/42] fix: MaxSat, Qubo: refuse empty and unreadable files,
 read QUBO elements in double precision

---
 lib/hnco/functions/collection/max-sat.cc | 10 ++++++----
 lib/hnco/functions/collection/qubo.cc    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index 7db546a..8abb280 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -66,9 +66,8 @@ AbstractMaxSat::load_(std::istream& stream)
   bool spec = false;
   int num_clauses = 0;
 
-  while (!stream.eof()) {
-    std::string line;
-    getline(stream, line);
+  std::string line;
+  while (getline(stream, line)) {
 
     if (line.empty())
       continue;
@@ -115,7 +114,7 @@ AbstractMaxSat::load_(std::istream& stream)
         throw std::runtime_error("AbstractMaxSat::load: No p line");
 
       std::istringstream iss(line);
-      int n;
+      int n = -1;
       std::vector<int> clause;
 
       while (has_next_variable(iss)) {
@@ -142,6 +141,9 @@ AbstractMaxSat::load_(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("AbstractMaxSat::load: No p line");
+
   if (int(_expression.size()) != num_clauses)
     throw std::runtime_error("AbstractMaxSat::load: Incoherent number of clauses");
 
diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index 42bd5e4..4de9ae3 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -44,9 +44,8 @@ Qubo::load(std::istream& stream)
   int count_diagonal_elements = 0;
   int count_other_elements = 0;
 
-  while (!stream.eof()) {
-    std::string line;
-    getline(stream, line);
+  std::string line;
+  while (getline(stream, line)) {
 
     if (line.empty())
       continue;
@@ -103,7 +102,7 @@ Qubo::load(std::istream& stream)
 
       std::istringstream iss(line);
       int i, j;
-      float value;
+      double value;
 
       iss >> i;
       if (iss.fail() || i < 0 || !(i < dimension))
@@ -129,6 +128,9 @@ Qubo::load(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("Qubo::load: No p line");
+
   if (count_other_elements != num_other_elements)
     throw std::runtime_error("Qubo::load: Not enough off diagonal elements");
   if (count_diagonal_elements != num_diagonal_elements)
-- 
2.43.0


From b2032088331261900ffa66ddb098047b7ce7e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:21 +0000
Subject: [PATCH 20/42] fix: Tsp: refuse incomplete and malformed files with an
 exception

---
 lib/hnco/functions/collection/tsp.cc | 29 ++++++++++++++++++----------
 lib/hnco/functions/collection/tsp.hh |  3 ++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index a76c45e..cb4d64b 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -18,6 +18,7 @@
 
 */
 
+#include <algorithm>            // std::find
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -40,8 +41,9 @@ Tsp::load_(std::istream& stream)
   std::string line;
   std::string key, value;
 
-  while(!stream.eof()) {
-    getline(stream, line);
+  _num_cities = 0;
+
+  while(getline(stream, line)) {
     if (line.empty())
       continue;
 
@@ -75,26 +77,33 @@ Tsp::load_(std::istream& stream)
     } else if (key == "NODE_COORD_SECTION") {
       load_coordinates(stream);
       compute_distances();
-      break;
+      return;
     }
   }
+
+  throw std::runtime_error("Tsp::load_: No node coordinates");
 }
 
 void
 Tsp::load_coordinates(std::istream& stream)
 {
-  assert(_num_cities > 0);
+  if (_num_cities <= 0)
+    throw std::runtime_error("Tsp::load_coordinates: Bad dimension");
   _xs.resize(_num_cities);
   _ys.resize(_num_cities);
-  while (!stream.eof()) {
-    int index;
-    stream >> index;
-    if (stream.fail())
-      break;
-    assert((index >= 1) && (index <= _num_cities));
+  std::vector<bool> loaded(_num_cities, false);
+  int index;
+  while (stream >> index) {
+    if (index < 1 || index > _num_cities)
+      throw std::runtime_error("Tsp::load_coordinates: Bad city index");
     stream >> _xs[index - 1];
     stream >> _ys[index - 1];
+    if (stream.fail())
+      throw std::runtime_error("Tsp::load_coordinates: Bad coordinates");
+    loaded[index - 1] = true;
   }
+  if (std::find(loaded.begin(), loaded.end(), false) != loaded.end())
+    throw std::runtime_error("Tsp::load_coordinates: Not enough cities");
 }
 
 void
diff --git a/lib/hnco/functions/collection/tsp.hh b/lib/hnco/functions/collection/tsp.hh
index 60df31c..0e0294b 100644
--- a/lib/hnco/functions/collection/tsp.hh
+++ b/lib/hnco/functions/collection/tsp.hh
@@ -45,7 +45,7 @@ private:
   /// Comment
   std::string _comment;
   /// Number of cities
-  int _num_cities;
+  int _num_cities = 0;
   /// Abscissas of cities
   std::vector<float> _xs;
   /// Ordinates of cities
@@ -97,6 +97,7 @@ public:
   template<class Generator>
   void generate(int n, Generator generator) {
     assert(n > 0);
+    _num_cities = n;
     _distances.resize(n);
     for (int i = 0; i < n; i++)
       _distances[i].resize(n);
-- 
2.43.0


From 37926ee2630530148e795f0ed5252d2a0ebcfd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:21 +0000
Subject: [PATCH 21/42] fix: Tsp: compute distances in double precision

---
 lib/hnco/functions/collection/tsp.cc | 16 ++++++++--------
 lib/hnco/functions/collection/tsp.hh |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index cb4d64b..80f4017 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -139,11 +139,11 @@ Tsp::compute_distances_att()
 
   for (int i = 1; i < _num_cities; i++)
     for (int j = 0; j < i; j++) {
-      float dx = _xs[i] - _xs[j];
-      float dy = _ys[i] - _ys[j];
-      float rij = std::sqrt((dx * dx + dy * dy) / 10.0);
-      float tij = (int)(rij + 0.5);
-      float dij;
+      double dx = _xs[i] - _xs[j];
+      double dy = _ys[i] - _ys[j];
+      double rij = std::sqrt((dx * dx + dy * dy) / 10.0);
+      double tij = (int)(rij + 0.5);
+      double dij;
       if (tij < rij)
         dij = tij + 1;
       else
@@ -161,9 +161,9 @@ Tsp::compute_distances_euc_2d()
 
   for (int i = 1; i < _num_cities; i++)
     for (int j = 0; j < i; j++) {
-      float dx = _xs[i] - _xs[j];
-      float dy = _ys[i] - _ys[j];
-      float dij = (int)(std::sqrt(dx * dx + dy * dy) + 0.5);
+      double dx = _xs[i] - _xs[j];
+      double dy = _ys[i] - _ys[j];
+      double dij = (int)(std::sqrt(dx * dx + dy * dy) + 0.5);
       _distances[i][j] = dij;
       _distances[j][i] = dij;
     }
diff --git a/lib/hnco/functions/collection/tsp.hh b/lib/hnco/functions/collection/tsp.hh
index 0e0294b..bfc723b 100644
--- a/lib/hnco/functions/collection/tsp.hh
+++ b/lib/hnco/functions/collection/tsp.hh
@@ -47,9 +47,9 @@ private:
   /// Number of cities
   int _num_cities = 0;
   /// Abscissas of cities
-  std::vector<float> _xs;
+  std::vector<double> _xs;
   /// Ordinates of cities
-  std::vector<float> _ys;
+  std::vector<double> _ys;
   /// Edge weight type
   enum class EdgeWeightType {
     /// ATT
@@ -60,7 +60,7 @@ private:
   /// Edge weith type
   EdgeWeightType _edge_weight_type = EdgeWeightType::ATT;
   /// Distances
-  std::vector<std::vector<float>> _distances;
+  std::vector<std::vector<double>> _distances;
   /**
    * @name Load and save instance
    */
-- 
2.43.0


From 7f47189bc1374cc13e11841452f7a1a3406d88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 22/42] fix: size of dyadic integer representations computed
 with integer arithmetic

The size computed with logarithms overflowed for the interval [0, INT_MAX],
had one bit too many or too few for wide intervals, so that the upper bound
could be out of reach. Intervals of a single value are allowed, as
documented for value sets.
---
 lib/hnco/representations/integer.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/hnco/representations/integer.hh b/lib/hnco/representations/integer.hh
index 3fa243a..5c72680 100644
--- a/lib/hnco/representations/integer.hh
+++ b/lib/hnco/representations/integer.hh
@@ -45,12 +45,12 @@ namespace representation {
  *
  * @param a Smallest value
  * @param b Greatest value
- * @pre a < b
+ * @pre a <= b
  */
 template<class T>
 bool difference_is_safe(T a, T b)
 {
-  assert(a < b);
+  assert(a <= b);
 
   if (a < 0 && b < 0)
     return true;
@@ -61,7 +61,7 @@ bool difference_is_safe(T a, T b)
   assert(a < 0);
   assert(b >= 0);
 
-  if (-a <= std::numeric_limits<T>::max() - b)
+  if (b <= std::numeric_limits<T>::max() + a)
     return true;
 
   return false;
@@ -86,10 +86,14 @@ class DyadicIntegerRepresentation {
 
   /// Set the exact size for a given interval
   void set_exact_size(T lower_bound, T upper_bound) {
-    assert(lower_bound < upper_bound);
+    assert(lower_bound <= upper_bound);
     assert(difference_is_safe(lower_bound, upper_bound));
 
-    _exact_size = std::ceil(std::log(upper_bound - lower_bound + 1) / std::log(2));
+    // Number of bits of the greatest offset, at least one
+    std::size_t offset = upper_bound - lower_bound;
+    _exact_size = 1;
+    while (offset >>= 1)
+      _exact_size++;
     assert(_exact_size > 0);
     assert(_exact_size < int(sizeof(T) * 8));
   }
-- 
2.43.0


From d31f55d20911726175d1b5d48132e5383fc673d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 23/42] fix: dyadic float representation stays in the interval

The upper bound, excluded, could be reached by rounding, and a precision
greater than the length of the interval gave a null size.
---
 lib/hnco/representations/float.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/representations/float.hh b/lib/hnco/representations/float.hh
index a55bd0f..c9064c6 100644
--- a/lib/hnco/representations/float.hh
+++ b/lib/hnco/representations/float.hh
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 
+#include <algorithm>            // std::max
 #include <vector>
 #include <iostream>             // std::ostream
 #include <cmath>                // std::log, std::ceil
@@ -49,11 +50,18 @@ class DyadicFloatRepresentation {
   /// Lower bound of the interval
   T _lower_bound;
 
+  /// Upper bound of the interval
+  T _upper_bound;
+
   /// Length of the interval
   T _length;
 
   /// Affine transformation
-  T affine_transformation(T x) { return _lower_bound + _length * x; }
+  T affine_transformation(T x) {
+    T result = _lower_bound + _length * x;
+    // The upper bound can only be reached by rounding
+    return result < _upper_bound ? result : std::nextafter(_upper_bound, _lower_bound);
+  }
 
   /**
    * Compute lengths.
@@ -88,6 +96,7 @@ public:
    */
   DyadicFloatRepresentation(T lower_bound, T upper_bound, int size)
     : _lower_bound(lower_bound)
+    , _upper_bound(upper_bound)
     , _length(upper_bound - lower_bound)
   {
     assert(lower_bound < upper_bound);
@@ -107,13 +116,14 @@ public:
    */
   DyadicFloatRepresentation(T lower_bound, T upper_bound, T precision)
     : _lower_bound(lower_bound)
+    , _upper_bound(upper_bound)
     , _length(upper_bound - lower_bound)
   {
     assert(lower_bound < upper_bound);
     assert(precision > 0);
 
     int size = std::ceil(std::log(_length / precision) / std::log(2));
-    compute_lengths(size);
+    compute_lengths(std::max(size, 1));
   }
 
   /// Size of the representation
-- 
2.43.0


From c4a25b9c2c94bad17b07620f0974f234ff3def5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 24/42] fix: permutation representation with keys of more than
 31 bits

---
 lib/hnco/representations/permutation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/representations/permutation.hh b/lib/hnco/representations/permutation.hh
index 5bcdc66..2f4b2cf 100644
--- a/lib/hnco/representations/permutation.hh
+++ b/lib/hnco/representations/permutation.hh
@@ -39,7 +39,7 @@ namespace representation {
 class PermutationRepresentation {
 
   /// Values to be sorted
-  std::vector<int> _values;
+  std::vector<std::size_t> _values;
 
   /// Element size in bits
   int _element_size;
-- 
2.43.0


From d519c0418a4136698d72cfdb0a8c61a27593b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 25/42] fix: report invalid representation parameters as
 runtime errors

Exceptions thrown by std::stoi and the like are logic errors, which hnco
does not catch, and invalid bounds or sizes failed assertions.
---
 lib/hnco/app/parser.cc |  4 ++++
 lib/hnco/app/parser.hh | 46 +++++++++++++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/hnco/app/parser.cc b/lib/hnco/app/parser.cc
index 15c12f6..7bb4c2e 100644
--- a/lib/hnco/app/parser.cc
+++ b/lib/hnco/app/parser.cc
@@ -65,6 +65,8 @@ hnco::app::parse_int_rep(std::string expression)
     throw std::runtime_error("parse_int_rep: Requires 2 parameters");
   int a = std::stoi(parameters[0]);
   int b = std::stoi(parameters[1]);
+  if (a > b || !representation::difference_is_safe(a, b))
+    throw std::runtime_error("parse_int_rep: Invalid bounds");
   return IntRepParams(a, b);
 }
 
@@ -76,6 +78,8 @@ hnco::app::parse_long_rep(std::string expression)
     throw std::runtime_error("parse_long_rep: Requires 2 parameters");
   long a = std::stol(parameters[0]);
   long b = std::stol(parameters[1]);
+  if (a > b || !representation::difference_is_safe(a, b))
+    throw std::runtime_error("parse_long_rep: Invalid bounds");
   return LongRepParams(a, b);
 }
 
diff --git a/lib/hnco/app/parser.hh b/lib/hnco/app/parser.hh
index 34af4f2..57865ec 100644
--- a/lib/hnco/app/parser.hh
+++ b/lib/hnco/app/parser.hh
@@ -22,6 +22,7 @@
 #define HNCO_APP_PARSER_H
 
 #include <cassert>
+#include <cmath>                // std::isfinite
 
 #include <unordered_map>
 #include <type_traits>          // std::is_same_v
@@ -140,6 +141,16 @@ parse_int_rep(std::string expression);
 LongRepParams
 parse_long_rep(std::string expression);
 
+/// Make double representation parameters with given precision or size
+template<typename T>
+DoubleRepParams
+make_double_rep_params(double a, double b, T precision_or_size)
+{
+  if (!(precision_or_size > 0))
+    throw std::runtime_error("make_double_rep_params: Precision or size must be positive");
+  return DoubleRepParams(a, b, precision_or_size);
+}
+
 template<typename Options>
 DoubleRepParams
 parse_double_rep(std::string expression, const Options& options)
@@ -151,11 +162,13 @@ parse_double_rep(std::string expression, const Options& options)
     throw std::runtime_error("parse_double_rep: Too many parameters");
   double a = std::stod(parameters[0]);
   double b = std::stod(parameters[1]);
+  if (!(a < b) || !std::isfinite(b - a))
+    throw std::runtime_error("parse_double_rep: Invalid bounds");
   if (parameters.size() == 2) {
     if (options.with_fp_default_double_precision())
-      return DoubleRepParams(a, b, options.get_fp_default_double_precision());
+      return make_double_rep_params(a, b, options.get_fp_default_double_precision());
     else if (options.with_fp_default_double_size())
-      return DoubleRepParams(a, b, options.get_fp_default_double_size());
+      return make_double_rep_params(a, b, options.get_fp_default_double_size());
     else
       throw std::runtime_error("parse_double_rep: Missing precision or size parameter");
   }
@@ -169,9 +182,9 @@ parse_double_rep(std::string expression, const Options& options)
   if (!stream)
     throw std::runtime_error("parse_double_rep: Missing or invalid key");
   if (key == "precision")
-    return DoubleRepParams(a, b, std::stod(terms[1]));
+    return make_double_rep_params(a, b, std::stod(terms[1]));
   else if (key == "size")
-    return DoubleRepParams(a, b, std::stoi(terms[1]));
+    return make_double_rep_params(a, b, std::stoi(terms[1]));
   else
     throw std::runtime_error("parse_double_rep: Unknown key");
 }
@@ -207,16 +220,21 @@ parse_representation(std::string expression, const Options& options)
     throw std::runtime_error("parse_representation: Missing or invalid representation type");
 
   std::string str2 = expression.substr(openp + 1, closep - openp - 1);
-  if (type == "int")
-    return parse_int_rep(str2);
-  else if (type == "long")
-    return parse_long_rep(str2);
-  else if (type == "double")
-    return parse_double_rep<Options>(str2, options);
-  else if (type == "set")
-    return parse_value_set_rep(str2);
-  else
-    throw std::runtime_error("parse_representation: Unknown representation type");
+  try {
+    if (type == "int")
+      return parse_int_rep(str2);
+    else if (type == "long")
+      return parse_long_rep(str2);
+    else if (type == "double")
+      return parse_double_rep<Options>(str2, options);
+    else if (type == "set")
+      return parse_value_set_rep(str2);
+    else
+      throw std::runtime_error("parse_representation: Unknown representation type");
+  }
+  catch (const std::logic_error&) { // thrown by std::stoi, std::stol, or std::stod
+    throw std::runtime_error("parse_representation: Invalid parameters: " + str2);
+  }
 }
 
 /**
-- 
2.43.0


From 1f2f63d0d9dfe20f8af23c421ee18128528d4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 26/42] fix: NSGA-II uses its crossover probability

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index d9e0358..65c7d52 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -40,6 +40,8 @@ Nsga2::init()
   _mutation.set_mutation_rate(_mutation_rate);
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
+  _do_crossover = std::bernoulli_distribution(_crossover_probability);
+
   _parents.random();
   _parents.evaluate(_function);
 
-- 
2.43.0


From 6f0c76e666fcbf8522abcd7a4f42d1b836d7ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 27/42] fix: NSGA-II can minimize more than once

finalize() wrote past the end of the solutions shrunk by a previous call.
---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index 65c7d52..895a98b 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -152,6 +152,9 @@ Nsga2::finalize()
   Nsga2ParetoFrontComputation computation(_parents);
   computation.compute(fronts);
 
+  // A previous call to minimize might have shrunk _solutions
+  _solutions = _parents;
+
   int index = 0;
   for (int i = 0; i < _parents.get_size(); i++) {
     if (fronts[i] == 0) {
-- 
2.43.0


From d1e19649eebbea72ff62cd272a5c414d292663d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 28/42] fix: multiobjective iterative algorithms without limit
 on iterations

A null or negative number of iterations means indefinite, as documented
and as in the single objective case.
---
 lib/hnco/multiobjective/algorithms/iterative-algorithm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/multiobjective/algorithms/iterative-algorithm.cc b/lib/hnco/multiobjective/algorithms/iterative-algorithm.cc
index 5e0cb00..869bb3e 100644
--- a/lib/hnco/multiobjective/algorithms/iterative-algorithm.cc
+++ b/lib/hnco/multiobjective/algorithms/iterative-algorithm.cc
@@ -29,7 +29,7 @@ IterativeAlgorithm::loop()
 {
   init();
   _last_iteration = false;
-  for (_iteration = 0; _iteration < _num_iterations; _iteration++) {
+  for (_iteration = 0; _num_iterations <= 0 || _iteration < _num_iterations; _iteration++) {
     if (_last_iteration)
       break;
     iterate();
-- 
2.43.0


From fac9bb738b3ee6d04af21aa6610370739ce550b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:54 +0000
Subject: [PATCH 29/42] fix: HBOA does not break ties by memory addresses

The best split of a Bayesian tree was the minimum of tuples (score, tree
address, index) so that ties between scores, which the comment says are
broken randomly, were broken by the addresses of the trees. As a
consequence two runs with the same seed could differ.
---
 lib/fast-efficient-p3/HBOA.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fast-efficient-p3/HBOA.cpp b/lib/fast-efficient-p3/HBOA.cpp
index 299a921..920332a 100644
--- a/lib/fast-efficient-p3/HBOA.cpp
+++ b/lib/fast-efficient-p3/HBOA.cpp
@@ -369,7 +369,12 @@ void Bayesian_Forest::build_forest(Random & rand) {
   // while there are still worthwhile splits
   while (options.size()) {
     // get the best split
-    auto best = *min_element(options.begin(), options.end());
+    // (compare scores only, otherwise ties are broken by memory addresses)
+    using option_t = tuple<double, Bayesian_Tree*, size_t>;
+    auto best = *min_element(options.begin(), options.end(),
+                             [](const option_t& a, const option_t& b) {
+                               return get<0>(a) < get<0>(b);
+                             });
     Bayesian_Tree& splitting = *get<1>(best);
     size_t new_index = get<2>(best);
     // update dependency information to prevent cycles
-- 
2.43.0


From 8df73ecef7e54747d360ebb77708c26a715fea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:54 +0000
Subject: [PATCH 30/42] fix: prior noise applies to the bit vectors of the
 mapped function

The neighborhood of the prior noise was made for the size of the
function before its composition by a map.
---
 lib/hnco/app/decorated-function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index 296e75e..f1d515f 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -230,7 +230,7 @@ DecoratedFunctionFactory::make_function_modifier()
 
   // Prior noise
   if (_options.with_prior_noise()) {
-    Neighborhood *nh = make_prior_noise_neighborhood(_options, bv_size);
+    Neighborhood *nh = make_prior_noise_neighborhood(_options, function->get_bv_size());
     function = new PriorNoise(function, nh);
   }
 
-- 
2.43.0


From 8b766645a204bb1a2278a451fd8ecdc5ee64b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:51 +0000
Subject: [PATCH 31/42] fix: Human ends at the end of the standard input

At the end of the input (or after a read error) the algorithm asked for
a bit vector for ever.
---
 lib/hnco/algorithms/human.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/human.cc b/lib/hnco/algorithms/human.cc
index 3e5815a..949b659 100644
--- a/lib/hnco/algorithms/human.cc
+++ b/lib/hnco/algorithms/human.cc
@@ -37,8 +37,7 @@ Human::parse_bit_vector()
   do {
     std::string str;
     std::cout << "bv? ";
-    std::cin >> str;
-    if (str == "quit")
+    if (!(std::cin >> str) || str == "quit")
       throw LastEvaluation();
     _candidate = bv_from_string(str);
     if (int(_candidate.size()) < get_bv_size())
-- 
2.43.0


From 43346c66edb9fc4024b0d3bd53028784378dcd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:59 +0000
Subject: [PATCH 32/42] fix: a random Sudoku instance can be evaluated

Sudoku::random set neither the number of variables nor the given
digits of the candidate, so that the function could only be used after
having been saved and loaded.
---
 lib/hnco/functions/collection/sudoku.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/functions/collection/sudoku.cc b/lib/hnco/functions/collection/sudoku.cc
index e6ca2fb..d647073 100644
--- a/lib/hnco/functions/collection/sudoku.cc
+++ b/lib/hnco/functions/collection/sudoku.cc
@@ -115,10 +115,13 @@ Sudoku::random(int c)
   // Digits to erase
   bit_vector_t erase(81);
   bv_random(erase, c);
+  _num_variables = c;
   for (int i = 0; i < 9; i++) {
     for (int j = 0; j < 9; j++) {
       if (erase[i + 9 * j])
         _problem_instance[i][j] = '.';
+      else
+        _candidate[i][j] = _problem_instance[i][j] - '0';
     }
   }
 }
-- 
2.43.0


From 56d681d4cbdd7b1928ab0294ce4c902fd84886a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:59 +0000
Subject: [PATCH 33/42] fix: hnco describes its solution, not its image by the
 map

With --concrete-solution, the image of the solution was mapped a second
time before being described, or hnco aborted if the map changes the
size of bit vectors.
---
 lib/hnco/app/application.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e6c5f92..33bc96e 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -256,13 +256,13 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Print description
   if (_options.with_print_description()) {
-    _fn->describe(concrete_solution, std::cout);
+    _fn->describe(bv, std::cout);
   }
 
   // Save description
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
-    _fn->describe(concrete_solution, stream);
+    _fn->describe(bv, stream);
   }
 }
 
-- 
2.43.0


From 5a39bff2cfedbe3f1c518dfd53a266304831eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:59 +0000
Subject: [PATCH 34/42] fix: hnco reports results, solutions or descriptions it
 cannot save

It exited with status 0 although nothing was written.
---
 lib/hnco/app/application.cc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 33bc96e..a6e7e57 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -44,6 +44,24 @@ using namespace hnco::neighborhood;
 using namespace hnco::random;
 using namespace hnco;
 
+/// Open a file for writing
+static void
+open_file(std::ofstream& stream, const std::string& path)
+{
+  stream.open(path);
+  if (!stream.good())
+    throw std::runtime_error("CommandLineApplication: Cannot open " + path);
+}
+
+/// Close a file and check that it has been written
+static void
+close_file(std::ofstream& stream, const std::string& path)
+{
+  stream.close();
+  if (!stream.good())
+    throw std::runtime_error("CommandLineApplication: Cannot write " + path);
+}
+
 void
 CommandLineApplication::init()
 {
@@ -223,8 +241,10 @@ CommandLineApplication::print_results(double total_time, bool target_reached)
 
   // Save results
   if (_options.with_save_results()) {
-    std::ofstream stream(_options.get_results_path());
+    std::ofstream stream;
+    open_file(stream, _options.get_results_path());
     stream << results.str();
+    close_file(stream, _options.get_results_path());
   }
 }
 
@@ -249,9 +269,11 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Save solution
   if (_options.with_save_solution()) {
-    std::ofstream stream(_options.get_solution_path());
+    std::ofstream stream;
+    open_file(stream, _options.get_solution_path());
     bv_display(concrete_solution, stream);
     stream << std::endl;
+    close_file(stream, _options.get_solution_path());
   }
 
   // Print description
@@ -261,8 +283,10 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Save description
   if (_options.with_save_description()) {
-    std::ofstream stream(_options.get_description_path());
+    std::ofstream stream;
+    open_file(stream, _options.get_description_path());
     _fn->describe(bv, stream);
+    close_file(stream, _options.get_description_path());
   }
 }
 
-- 
2.43.0


From 6b61af9fcc8d04d0e38e6e68b9f82c9d893d3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:17 +0000
Subject: [PATCH 35/42] fix: mapgen reports maps it cannot write

It was terminated by an exception if the file could not be opened, and
announced success if it could not be written.
---
 app/mapgen.cc | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/app/mapgen.cc b/app/mapgen.cc
index 100035a..f218083 100644
--- a/app/mapgen.cc
+++ b/app/mapgen.cc
@@ -20,6 +20,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <sstream>
 
 #include "hnco/exception.hh"
 #include "hnco/maps/map.hh"
@@ -35,6 +36,28 @@ using namespace hnco::random;
 using namespace hnco;
 
 
+/// Save maps to a boost archive
+template<class... Maps>
+void save_maps(const std::string& path, const Maps&... maps)
+{
+  std::ostringstream content;
+  try {
+    boost::archive::text_oarchive archive(content);
+    (archive << ... << maps);
+  }
+  catch (boost::archive::archive_exception& e) {
+    throw std::runtime_error("save_maps: " + std::string(e.what()));
+  }
+  std::ofstream stream(path);
+  if (!stream.good())
+    throw std::runtime_error("save_maps: Cannot open " + path);
+  stream << content.str();
+  stream.close();
+  if (!stream.good())
+    throw std::runtime_error("save_maps: Cannot write " + path);
+}
+
+
 void generate_map(MapgenOptions& options)
 {
   switch(options.get_map()) {
@@ -42,10 +65,8 @@ void generate_map(MapgenOptions& options)
   case 1: {
     Translation map;
     map.random(options.get_output_size());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing translation to " << options.get_path() << " ... ";
-    archive << map;
+    save_maps(options.get_path(), map);
     std::cout << "done" << std::endl;
     break;
   }
@@ -53,10 +74,8 @@ void generate_map(MapgenOptions& options)
   case 2: {
     Permutation map;
     map.random(options.get_output_size());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing permutation to " << options.get_path() << " ... ";
-    archive << map;
+    save_maps(options.get_path(), map);
     std::cout << "done" << std::endl;
     break;
   }
@@ -66,10 +85,8 @@ void generate_map(MapgenOptions& options)
     Translation translation;
     permutation.random(options.get_output_size());
     translation.random(options.get_output_size());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing permutation and translation to " << options.get_path() << " ... ";
-    archive << permutation << translation;
+    save_maps(options.get_path(), permutation, translation);
     std::cout << "done" << std::endl;
     break;
   }
@@ -77,10 +94,8 @@ void generate_map(MapgenOptions& options)
   case 4: {
     LinearMap map;
     map.random(options.get_output_size(), options.get_input_size(), options.with_surjective());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing linear map to " << options.get_path() << " ... ";
-    archive << map;
+    save_maps(options.get_path(), map);
     std::cout << "done" << std::endl;
     break;
   }
@@ -88,10 +103,8 @@ void generate_map(MapgenOptions& options)
   case 5: {
     AffineMap map;
     map.random(options.get_output_size(), options.get_input_size(), options.with_surjective());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map to " << options.get_path() << " ... ";
-    archive << map;
+    save_maps(options.get_path(), map);
     std::cout << "done" << std::endl;
     break;
   }
@@ -103,10 +116,8 @@ void generate_map(MapgenOptions& options)
     map.random(options.get_input_size(),
                options.get_ts_length(),
                options.get_ts_sampling_mode());
-    std::ofstream stream(options.get_path());
-    boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map (transvection sequence) to " << options.get_path() << " ... ";
-    archive << map;
+    save_maps(options.get_path(), map);
     std::cout << "done" << std::endl;
     break;
   }
-- 
2.43.0


From 43c63c67394e2c056388d89da39e26382914a51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:19 +0000
Subject: [PATCH 36/42] fix: hnco prints the Walsh transform of constant
 functions

---
 lib/hnco/app/application.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index a6e7e57..1bf6e39 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -161,12 +161,11 @@ CommandLineApplication::print_information()
               terms.end(),
               [](const function::WalshTerm& a,
                  const function::WalshTerm& b){ return a.coefficient > b.coefficient; });
-    assert(terms.size() > 0);
-    double norm;
-    if (bv_hamming_weight(terms[0].feature) == 0)
-      norm = terms[1].coefficient;
-    else
-      norm = terms[0].coefficient;
+    // A constant function has no term other than the constant one
+    double norm = 0.0;
+    for (const auto& t : terms)
+      if (bv_hamming_weight(t.feature) > 0)
+        norm = std::max(norm, t.coefficient);
     for (auto t : terms) {
       int weight = bv_hamming_weight(t.feature);
       double amplitude = t.coefficient / norm;
-- 
2.43.0


From 5d3adf5ddad20547ce240ce7b72499c4398e1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 37/42] fix: statistics scripts read the only run of
 deterministic algorithms

---
 experiments/scripts/hnco-algorithm-alternative-stat.pl | 3 ++-
 experiments/scripts/hnco-benchmark-stat.pl             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/experiments/scripts/hnco-algorithm-alternative-stat.pl b/experiments/scripts/hnco-algorithm-alternative-stat.pl
index 66bff24..804fe7b 100755
--- a/experiments/scripts/hnco-algorithm-alternative-stat.pl
+++ b/experiments/scripts/hnco-algorithm-alternative-stat.pl
@@ -129,10 +129,11 @@ sub load_results
         my $function_id = $fn->{id};
         foreach my $a (@$algorithms) {
             my $algorithm_id = $a->{id};
+            my $algorithm_num_runs = $a->{deterministic} ? 1 : $num_runs;
             foreach my $alternative (@$alternatives) {
                 my $alternative_value = $alternative->{value};
                 my $prefix = "$path_results/$function_id/$algorithm_id/$parameter_id-$alternative_value";
-                foreach (1 .. $num_runs) {
+                foreach (1 .. $algorithm_num_runs) {
                     my $obj = from_json(read_file("$prefix/$_.out"));
                     push @results, { function           => $function_id,
                                      algorithm          => $algorithm_id,
diff --git a/experiments/scripts/hnco-benchmark-stat.pl b/experiments/scripts/hnco-benchmark-stat.pl
index 0367c04..8d76738 100755
--- a/experiments/scripts/hnco-benchmark-stat.pl
+++ b/experiments/scripts/hnco-benchmark-stat.pl
@@ -145,8 +145,9 @@ sub load_results
         my $function_id = $f->{id};
         foreach my $a (@$algorithms) {
             my $algorithm_id = $a->{id};
+            my $algorithm_num_runs = $a->{deterministic} ? 1 : $num_runs;
             my $prefix = "$path_results/$function_id/$algorithm_id";
-            foreach (1 .. $num_runs) {
+            foreach (1 .. $algorithm_num_runs) {
                 my $obj = from_json(read_file("$prefix/$_.out"));
                 push @results, { function        => $function_id,
                                  algorithm       => $algorithm_id,
-- 
2.43.0


From e192f6740c01225d3bc18b7274af7a78930a4434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 38/42] fix: hnco-algorithm-alternative-run.pl prepares the
 servers with its own skeleton

---
 experiments/scripts/hnco-algorithm-alternative-run.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/scripts/hnco-algorithm-alternative-run.pl b/experiments/scripts/hnco-algorithm-alternative-run.pl
index 59daba2..cf34504 100755
--- a/experiments/scripts/hnco-algorithm-alternative-run.pl
+++ b/experiments/scripts/hnco-algorithm-alternative-run.pl
@@ -67,7 +67,7 @@ iterate_functions($path_results, "$obj->{exec} $obj->{opt} -b $budget");
 
 if ($parallel) {
     write_file('commands.txt', map { "$_\n" } @commands);
-    gnu_parallel($servers, $path_results, "hnco-algorithm-parameter-skeleton.pl");
+    gnu_parallel($servers, $path_results, "hnco-algorithm-alternative-skeleton.pl");
 }
 
 #
-- 
2.43.0


From 710483f01dada9ced2334b12cfb9d7246106b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 39/42] fix: hnco-ecdf-stat.pl keeps its last target within
 reach

---
 experiments/scripts/hnco-ecdf-stat.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/scripts/hnco-ecdf-stat.pl b/experiments/scripts/hnco-ecdf-stat.pl
index 15f5dbb..9c2c5f2 100755
--- a/experiments/scripts/hnco-ecdf-stat.pl
+++ b/experiments/scripts/hnco-ecdf-stat.pl
@@ -194,6 +194,8 @@ sub compute_targets
 {
     my $fn = shift;
     my @targets = map { $fn->{min} + $_ * ($fn->{max} - $fn->{min}) / ($num_targets - 1)} (0 .. ($num_targets - 1));
+    # Rounding must not put the last target out of reach
+    $targets[-1] = $fn->{max};
     $fn->{targets} = \@targets;
 }
 
-- 
2.43.0


From bcdde4cdabefee27dfdb78a3efdbba3ee6d5985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:00 +0000
Subject: [PATCH 40/42] fix: refuse representation parameters which are not
 numbers as a whole

int(0, 1e3) was read as int(0, 1), double(0, 1, size = 2.5) as size = 2, and set(1 2, 3) as set(1, 3).
---
 lib/hnco/app/parser.cc | 45 +++++++++++++++++++++++++++++++++++++-----
 lib/hnco/app/parser.hh | 26 ++++++++++++++++++++----
 2 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/lib/hnco/app/parser.cc b/lib/hnco/app/parser.cc
index 7bb4c2e..db1d39f 100644
--- a/lib/hnco/app/parser.cc
+++ b/lib/hnco/app/parser.cc
@@ -57,14 +57,49 @@ hnco::app::split_string(std::string str, std::string delimiter)
   return items;
 }
 
+/// Check that nothing but white space follows a number
+static void
+check_end_of_number(const std::string& str, size_t pos)
+{
+  if (str.find_first_not_of(" \t\n\v\f\r", pos) != std::string::npos)
+    throw std::runtime_error("check_end_of_number: Invalid number: " + str);
+}
+
+int
+hnco::app::parse_int(const std::string& str)
+{
+  size_t pos;
+  int value = std::stoi(str, &pos);
+  check_end_of_number(str, pos);
+  return value;
+}
+
+long
+hnco::app::parse_long(const std::string& str)
+{
+  size_t pos;
+  long value = std::stol(str, &pos);
+  check_end_of_number(str, pos);
+  return value;
+}
+
+double
+hnco::app::parse_double(const std::string& str)
+{
+  size_t pos;
+  double value = std::stod(str, &pos);
+  check_end_of_number(str, pos);
+  return value;
+}
+
 IntRepParams
 hnco::app::parse_int_rep(std::string expression)
 {
   auto parameters = split_string(expression, ",");
   if (parameters.size() != 2)
     throw std::runtime_error("parse_int_rep: Requires 2 parameters");
-  int a = std::stoi(parameters[0]);
-  int b = std::stoi(parameters[1]);
+  int a = parse_int(parameters[0]);
+  int b = parse_int(parameters[1]);
   if (a > b || !representation::difference_is_safe(a, b))
     throw std::runtime_error("parse_int_rep: Invalid bounds");
   return IntRepParams(a, b);
@@ -76,8 +111,8 @@ hnco::app::parse_long_rep(std::string expression)
   auto parameters = split_string(expression, ",");
   if (parameters.size() != 2)
     throw std::runtime_error("parse_long_rep: Requires 2 parameters");
-  long a = std::stol(parameters[0]);
-  long b = std::stol(parameters[1]);
+  long a = parse_long(parameters[0]);
+  long b = parse_long(parameters[1]);
   if (a > b || !representation::difference_is_safe(a, b))
     throw std::runtime_error("parse_long_rep: Invalid bounds");
   return LongRepParams(a, b);
@@ -89,6 +124,6 @@ hnco::app::parse_value_set_rep(std::string expression)
   auto parameters = split_string(expression, ",");
   std::vector<double> values;
   for (auto s : parameters)
-    values.push_back(std::stod(s));
+    values.push_back(parse_double(s));
   return ValueSetRepParams(values);
 }
diff --git a/lib/hnco/app/parser.hh b/lib/hnco/app/parser.hh
index 57865ec..9aba62d 100644
--- a/lib/hnco/app/parser.hh
+++ b/lib/hnco/app/parser.hh
@@ -135,6 +135,24 @@ std::string get_representations(const Options& options)
     return read_file_content(options.get_fp_representations_path());
 }
 
+/**
+ * Parse an int.
+ * Unlike std::stoi, nothing but white space may follow the number.
+ */
+int parse_int(const std::string& str);
+
+/**
+ * Parse a long.
+ * Unlike std::stol, nothing but white space may follow the number.
+ */
+long parse_long(const std::string& str);
+
+/**
+ * Parse a double.
+ * Unlike std::stod, nothing but white space may follow the number.
+ */
+double parse_double(const std::string& str);
+
 IntRepParams
 parse_int_rep(std::string expression);
 
@@ -160,8 +178,8 @@ parse_double_rep(std::string expression, const Options& options)
     throw std::runtime_error("parse_double_rep: Not enough parameters");
   if (parameters.size() > 3)
     throw std::runtime_error("parse_double_rep: Too many parameters");
-  double a = std::stod(parameters[0]);
-  double b = std::stod(parameters[1]);
+  double a = parse_double(parameters[0]);
+  double b = parse_double(parameters[1]);
   if (!(a < b) || !std::isfinite(b - a))
     throw std::runtime_error("parse_double_rep: Invalid bounds");
   if (parameters.size() == 2) {
@@ -182,9 +200,9 @@ parse_double_rep(std::string expression, const Options& options)
   if (!stream)
     throw std::runtime_error("parse_double_rep: Missing or invalid key");
   if (key == "precision")
-    return make_double_rep_params(a, b, std::stod(terms[1]));
+    return make_double_rep_params(a, b, parse_double(terms[1]));
   else if (key == "size")
-    return make_double_rep_params(a, b, std::stoi(terms[1]));
+    return make_double_rep_params(a, b, parse_int(terms[1]));
   else
     throw std::runtime_error("parse_double_rep: Unknown key");
 }
-- 
2.43.0


From a9021420467550d75535d39613dc4271c9a8d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:00 +0000
Subject: [PATCH 41/42] fix: refuse duplicate declarations in representation
 expressions

The last declaration silently replaced the previous ones.
---
 lib/hnco/app/parser.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/app/parser.hh b/lib/hnco/app/parser.hh
index 9aba62d..8bb9756 100644
--- a/lib/hnco/app/parser.hh
+++ b/lib/hnco/app/parser.hh
@@ -296,6 +296,8 @@ parse_representations(std::string expression, const Options& options)
     stream >> name;
     if (!stream)
       throw std::runtime_error("parse_representations: Missing variable name before colon");
+    if (env.count(name) > 0)
+      throw std::runtime_error("parse_representations: Duplicate declaration of " + name);
     try {
       env[name] = parse_representation<Options>(declaration.substr(stop + delimiter.length()), options);
     }
-- 
2.43.0


From e1cee80bb2e6cadf3ab659dd0b56e6a9b7073053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:39 +0000
Subject: [PATCH 42/42] fix: refuse stray text in representation expressions

x: int(0, 1) y: int(0, 3), where a semicolon is missing, silently ignored the declaration of y; stray words after a name, a type or a key were ignored as well.
---
 lib/hnco/app/parser.cc | 14 ++++++++++++++
 lib/hnco/app/parser.hh | 29 ++++++++++++-----------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/lib/hnco/app/parser.cc b/lib/hnco/app/parser.cc
index db1d39f..509f065 100644
--- a/lib/hnco/app/parser.cc
+++ b/lib/hnco/app/parser.cc
@@ -92,6 +92,20 @@ hnco::app::parse_double(const std::string& str)
   return value;
 }
 
+std::string
+hnco::app::parse_word(const std::string& str)
+{
+  std::istringstream stream(str);
+  std::string word, extra;
+  stream >> word;
+  if (!stream)
+    throw std::runtime_error("parse_word: Missing word");
+  stream >> extra;
+  if (stream)
+    throw std::runtime_error("parse_word: Unexpected text: " + extra);
+  return word;
+}
+
 IntRepParams
 hnco::app::parse_int_rep(std::string expression)
 {
diff --git a/lib/hnco/app/parser.hh b/lib/hnco/app/parser.hh
index 8bb9756..ce3b10a 100644
--- a/lib/hnco/app/parser.hh
+++ b/lib/hnco/app/parser.hh
@@ -153,6 +153,12 @@ long parse_long(const std::string& str);
  */
 double parse_double(const std::string& str);
 
+/**
+ * Parse a single word.
+ * Only white space is allowed before and after the word.
+ */
+std::string parse_word(const std::string& str);
+
 IntRepParams
 parse_int_rep(std::string expression);
 
@@ -194,11 +200,7 @@ parse_double_rep(std::string expression, const Options& options)
   auto terms = split_string(parameters[2], "=");
   if (terms.size() != 2)
     throw std::runtime_error("parse_double_rep: Invalid key value parameter");
-  std::istringstream stream(terms[0]);
-  std::string key;
-  stream >> key;
-  if (!stream)
-    throw std::runtime_error("parse_double_rep: Missing or invalid key");
+  std::string key = parse_word(terms[0]);
   if (key == "precision")
     return make_double_rep_params(a, b, parse_double(terms[1]));
   else if (key == "size")
@@ -230,12 +232,10 @@ parse_representation(std::string expression, const Options& options)
   if (closep == std::string::npos)
     throw std::runtime_error("parse_representation: Missing closing parenthesis");
 
-  std::string str1 = expression.substr(0, openp);
-  std::istringstream stream(str1);
-  std::string type;
-  stream >> type;
-  if (!stream)
-    throw std::runtime_error("parse_representation: Missing or invalid representation type");
+  if (expression.find_first_not_of(" \t\n\v\f\r", closep + 1) != std::string::npos)
+    throw std::runtime_error("parse_representation: Unexpected text after closing parenthesis");
+
+  std::string type = parse_word(expression.substr(0, openp));
 
   std::string str2 = expression.substr(openp + 1, closep - openp - 1);
   try {
@@ -290,12 +290,7 @@ parse_representations(std::string expression, const Options& options)
     auto stop = declaration.find(delimiter);
     if (stop == std::string::npos)
       throw std::runtime_error("parse_representations: Missing colon");
-    auto before = declaration.substr(0, stop);
-    std::istringstream stream(before);
-    std::string name;
-    stream >> name;
-    if (!stream)
-      throw std::runtime_error("parse_representations: Missing variable name before colon");
+    std::string name = parse_word(declaration.substr(0, stop));
     if (env.count(name) > 0)
       throw std::runtime_error("parse_representations: Duplicate declaration of " + name);
     try {
-- 
2.43.0

