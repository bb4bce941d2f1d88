// Catalogue of the search algorithms with small parameters, shared by C16 and C17.
#ifndef VP_CATALOGUE_HH
#define VP_CATALOGUE_HH
#include "algs.hh"
#include <map>
namespace vp {
using namespace hnco::algorithm;
using namespace hnco::neighborhood;
using namespace hnco::algorithm::walsh_moment;

struct Cat {
  std::string name;
  std::function<void(Alg&, int n, int iters)> make;
  int ready = 1;               ///< evaluations after which a solution is defined
  bool parallel = false;       ///< evaluates populations in parallel
  bool best = true;            ///< the solution is the best evaluated vector
  bool draws = true;           ///< makes random draws
  int per = 1;                 ///< evaluations per step once ready, 0 if it varies
};

inline std::vector<Cat> catalogue() {
  std::vector<Cat> r;
  auto add = [&](Cat c) { r.push_back(c); };
  add({ "complete-search", [](Alg& a, int n, int) { a.make<CompleteSearch>(n); }, 1, false, true, false });
  add({ "random-search", [](Alg& a, int n, int k) { auto q = a.make<RandomSearch>(n); q->set_num_iterations(k); } });
  add({ "random-walk", [](Alg& a, int n, int k) { auto q = a.make<RandomWalk>(n, a.own<SingleBitFlip>(n)); q->set_num_iterations(k); q->set_log_value(); } });
  add({ "rls", [](Alg& a, int n, int k) { auto q = a.make<RandomLocalSearch>(n, a.own<SingleBitFlip>(n)); q->set_num_iterations(k); q->set_patience(3); } });
  add({ "rls-ball", [](Alg& a, int n, int k) { auto q = a.make<RandomLocalSearch>(n, a.own<HammingBall>(n, 2)); q->set_num_iterations(k); q->set_patience(-1); q->set_compare(std::greater<double>()); } });
  add({ "sahc", [](Alg& a, int n, int k) { auto q = a.make<SteepestAscentHillClimbing>(n, a.own<SingleBitFlipIterator>(n)); q->set_num_iterations(k); } });
  add({ "fahc", [](Alg& a, int n, int k) { auto q = a.make<FirstAscentHillClimbing>(n, a.own<SingleBitFlipIterator>(n)); q->set_num_iterations(k); } });
  add({ "annealing", [](Alg& a, int n, int k) { auto q = a.make<SimulatedAnnealing>(n, a.own<SingleBitFlip>(n)); q->set_num_iterations(k); q->set_num_transitions(2); q->set_num_trials(3); } });
  add({ "1+1-ea", [](Alg& a, int n, int k) { auto q = a.make<OnePlusOneEa>(n); q->set_num_iterations(k); } });
  add({ "self-adjusting-1+1-ea", [](Alg& a, int n, int k) { auto q = a.make<SelfAdjustingOnePlusOneEa>(n); q->set_num_iterations(k); } });
  add({ "mu+lambda", [](Alg& a, int n, int k) { auto q = a.make<MuPlusLambdaEa>(n, 2, 3); q->set_num_iterations(k); }, 2, true });
  add({ "mu,lambda", [](Alg& a, int n, int k) { auto q = a.make<MuCommaLambdaEa>(n, 2, 3); q->set_num_iterations(k); }, 1, true });
  add({ "two-rate", [](Alg& a, int n, int k) { auto q = a.make<TwoRateOnePlusLambdaEa>(n, 2); q->set_num_iterations(k); }, 1, true });
  add({ "it-ea", [](Alg& a, int n, int k) { auto q = a.make<InformationTheoreticEa>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_learning_rate(0.3); q->set_mutation_rate_max(1); q->set_mutation_rate_min(0.01); q->set_mutation_rate_init(0.3); }, 1, true });
  add({ "ga", [](Alg& a, int n, int k) { auto q = a.make<GeneticAlgorithm>(n, 4); q->set_num_iterations(k); q->set_tournament_size(2); }, 4, true });
  add({ "1+lambda,lambda", [](Alg& a, int n, int k) { auto q = a.make<OnePlusLambdaCommaLambdaGa>(n, 2); q->set_num_iterations(k); }, 1, false, false });
  add({ "umda", [](Alg& a, int n, int k) { auto q = a.make<Umda>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_log_pv(true); q->set_log_num_components(n); }, 1, true });
  add({ "pbil", [](Alg& a, int n, int k) { auto q = a.make<Pbil>(n, 3); q->set_num_iterations(k); q->set_selection_size(2); q->set_learning_rate(0.3); q->set_log_pv(true); q->set_log_num_components(n); }, 1, true });
  add({ "nps-pbil", [](Alg& a, int n, int k) { auto q = a.make<NpsPbil>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_learning_rate(0.3); q->set_log_pv(true); q->set_log_num_components(n); }, 1, true });
  add({ "ram-umda", [](Alg& a, int n, int k) { auto q = a.make<RamUmda>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_ts_length(2); q->set_log_pv(true); q->set_log_num_components(n); }, 1, true });
  add({ "ram-umda-increasing", [](Alg& a, int n, int k) { auto q = a.make<RamUmda>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_ts_length(1); q->set_ts_length_mode(RamUmda::TsLengthMode::increasing); q->set_ts_length_increment_period(1); q->set_ts_length_upper_bound(3); q->set_log_pv(true); q->set_log_num_components(n); }, 1, true });
  add({ "ram-umda2-decreasing", [](Alg& a, int n, int k) { auto q = a.make<RamUmda2>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_ts_length(3); q->set_ts_length_mode(RamUmda::TsLengthMode::decreasing); q->set_ts_length_increment_period(1); q->set_ts_length_lower_bound(0); q->set_crossover_probability(0.5); q->set_latent_space_probability(0.5); q->set_log_pv(true); q->set_log_num_components(n); }, 1, true });
  add({ "ram-umda2", [](Alg& a, int n, int k) { auto q = a.make<RamUmda2>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_ts_length(2); q->set_crossover_probability(0.5); q->set_latent_space_probability(0.5); q->set_log_pv(true); q->set_log_num_components(n); }, 1, true });
  add({ "compact-ga", [](Alg& a, int n, int k) { auto q = a.make<CompactGa>(n); q->set_num_iterations(k); q->set_learning_rate(0.3); q->set_log_pv(true); q->set_log_num_components(n); }, 1 });
  add({ "mmas", [](Alg& a, int n, int k) { auto q = a.make<Mmas>(n); q->set_num_iterations(k); q->set_learning_rate(0.3); q->set_log_pv(true); q->set_log_num_components(n); } });
  add({ "hea-full", [](Alg& a, int n, int k) { auto q = a.make<Hea<FullMomentHerding>>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_learning_rate(0.3); q->set_reset_period(2); q->set_log_target_norm(true); }, 1, true });
  add({ "hea-triangular", [](Alg& a, int n, int k) { auto q = a.make<Hea<TriangularMomentHerding>>(n, 3); q->set_num_iterations(k); q->set_selection_size(2); q->set_learning_rate(0.3); q->set_randomize_bit_order(true); q->set_log_target_norm(true); }, 1, true });
  add({ "bm-pbil-full", [](Alg& a, int n, int k) { auto q = a.make<BmPbil<FullMomentGibbsSampler>>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_learning_rate(0.3); q->set_num_gs_steps(2); q->set_num_gs_cycles(1); q->set_log_norm_1(true); }, 1, true });
  add({ "bm-pbil-triangular", [](Alg& a, int n, int k) { auto q = a.make<BmPbil<TriangularMomentGibbsSampler>>(n, 3); q->set_num_iterations(k); q->set_selection_size(1); q->set_learning_rate(0.3); q->set_num_gs_steps(2); q->set_num_gs_cycles(1); q->set_negative_positive_selection(true); q->set_log_norm_1(true); }, 1, true });
  add({ "mimic", [](Alg& a, int n, int k) { auto q = a.make<Mimic>(n, 3); q->set_num_iterations(k); q->set_selection_size(2); }, 1, true });
  const std::map<std::string, int> per = { { "mu+lambda", 3 }, { "mu,lambda", 3 }, { "two-rate", 2 }, { "it-ea", 3 }, { "ga", 4 }, { "1+lambda,lambda", 0 }, { "umda", 3 }, { "pbil", 3 }, { "nps-pbil", 3 }, { "ram-umda", 3 }, { "ram-umda2", 3 }, { "ram-umda-increasing", 3 }, { "ram-umda2-decreasing", 3 }, { "compact-ga", 2 }, { "hea-full", 3 }, { "hea-triangular", 3 }, { "bm-pbil-full", 3 }, { "bm-pbil-triangular", 3 }, { "mimic", 3 }, { "sahc", 0 } };
  for (auto& c : r) { auto it = per.find(c.name); if (it != per.end()) c.per = it->second; }
  return r;
}

} // namespace vp
#endif
