// C25: the command line builds exactly the algorithm and the function that were asked for.
#include <fstream>
#include <complex>
#include "algs.hh"
#include "instances.hh"
#include "hnco/algorithms/human.hh"
#include "hnco/algorithms/fast-efficient-p3/all.hh"
#include "hnco/app/algorithm-factory.hh"
#include "hnco/app/decorated-function-factory.hh"
#include "hnco/app/function-factory.hh"
#include "hnco/app/hnco-options.hh"
#include "hnco/functions/all.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
#include "hnco/logging/log-context.hh"
#include "hnco/multiobjective/app/algorithm-factory.hh"
#include "hnco/multiobjective/app/function-factory.hh"
#include "hnco/multiobjective/app/hnco-mo-options.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/representations/all.hh"
#include "fparser/fparser.hh"
using namespace hnco;
using namespace hnco::algorithm;
using namespace hnco::algorithm::walsh_moment;
using namespace hnco::neighborhood;
using namespace hnco::representation;
using namespace vp;
namespace F = hnco::function;
namespace FM = hnco::function::modifier;
namespace FC = hnco::function::controller;
namespace P3 = hnco::algorithm::fast_efficient_p3;

namespace {

using Args = std::map<std::string, std::string>;   // option -> value, "" for flags

/// Documented default values
const Args defaults = {
  { "bv_size", "100" }, { "fn_threshold", "10" }, { "fn_num_traps", "10" }, { "fn_prefix_length", "2" },
  { "rep_categorical_representation", "0" }, { "rep_num_additional_bits", "2" }, { "budget", "10000" }, { "noise_stddev", "1" },
  { "expression", "x" }, { "pn_radius", "2" }, { "pn_neighborhood", "0" }, { "map", "0" }, { "map_input_size", "100" },
  { "map_ts_sampling_mode", "0" }, { "map_ts_length", "10" }, { "algorithm", "100" }, { "num_iterations", "0" }, { "neighborhood", "0" },
  { "neighborhood_iterator", "0" }, { "rls_patience", "50" }, { "radius", "2" }, { "sa_num_transitions", "50" }, { "sa_num_trials", "100" },
  { "sa_initial_acceptance_probability", "0.6" }, { "sa_beta_ratio", "1.2" }, { "ea_mutation_rate_max", "0.5" }, { "ea_update_strength", "1.01" },
  { "ea_success_ratio", "4" }, { "ea_mu", "10" }, { "ea_lambda", "100" }, { "ea_tournament_size", "2" }, { "ea_crossover_probability", "0.5" },
  { "ea_crossover_bias", "0.5" }, { "ea_it_replacement", "0" }, { "ea_it_initial_hamming_weight", "0" }, { "population_size", "10" },
  { "selection_size", "1" }, { "learning_rate", "0.001" }, { "pv_log_num_components", "5" }, { "hea_randomize_bit_order", "true" },
  { "hea_bound_moment", "true" }, { "hea_reset_period", "0" }, { "bm_num_gs_steps", "100" }, { "bm_num_gs_cycles", "1" },
  { "bm_sampling_mode", "1" }, { "bm_reset_mode", "1" }, { "ram_ts_length_mode", "0" }, { "ram_ts_length", "10" },
  { "ram_ts_length_lower_bound", "0" }, { "ram_ts_length_upper_bound", "20" }, { "ram_ts_length_increment_period", "10000" },
  { "ram_ts_length_distribution_parameter", "0.1" }, { "ram_crossover_probability", "0.1" }, { "ram_latent_space_probability", "0.5" },
  { "function", "0" }
};

struct Ask {
  const Args& a; const Args& dflt;
  Ask(const Args& x, const Args& d = defaults): a(x), dflt(d) {}
  bool has(const char *k) const { return a.count(k); }
  std::string s(const char *k) const { auto i = a.find(k); if (i != a.end()) return i->second; return dflt.at(k); }
  int i(const char *k) const { return std::stoi(s(k)); }
  double d(const char *k) const { return std::stod(s(k)); }
  bool b(const char *k) const { return s(k) == "true"; }
};

std::string text(const Args& a) { std::string r; for (auto& p : a) r += " --" + p.first + (p.second.empty() ? "" : "=" + p.second); return r; }

template<class O> O options(const Args& a) {
  std::vector<std::string> s = { "hnco" };
  for (auto& p : a) { std::string n = "--" + p.first; for (auto& c : n) if (c == '_') c = '-'; s.push_back(p.second.empty() ? n : n + "=" + p.second); }
  std::vector<char *> v;
  for (auto& x : s) v.push_back(const_cast<char *>(x.data()));
  v.push_back(nullptr);
  optind = 0;
  return O(int(s.size()), v.data());
}

// Reference construction -------------------------------------------------------

Neighborhood *neighborhood_for(const Ask& o, int n) {
  switch (o.i("neighborhood")) {
  case 0: return new SingleBitFlip(n);
  case 1: { auto b = new StandardBitMutation(n); b->set_allow_no_mutation(o.has("ea_allow_no_mutation")); if (o.has("ea_mutation_rate")) b->set_mutation_rate(o.d("ea_mutation_rate")); return b; }
  case 2: return new HammingBall(n, o.i("radius"));
  default: return new HammingSphere(n, o.i("radius"));
  }
}
NeighborhoodIterator *iterator_for(const Ask& o, int n) {
  if (o.i("neighborhood_iterator") == 0) return new SingleBitFlipIterator(n);
  return new HammingSphereIterator(n, o.i("radius"));
}
template<class A> A *pv(A *q, const Ask& o) {
  q->set_num_iterations(o.i("num_iterations"));
  q->set_log_pv(o.has("pv_log_pv")); q->set_log_entropy(o.has("pv_log_entropy")); q->set_log_num_components(o.i("pv_log_num_components"));
  return q;
}
template<class A> A *ram(A *q, const Ask& o) {
  pv(q, o); q->set_selection_size(o.i("selection_size"));
  using T = RamUmda::TsLengthMode;
  const int mode[] = { T::constant, T::increasing, T::decreasing, T::uniform, T::geometric, T::reverse_geometric };
  q->set_ts_length_mode(mode[o.i("ram_ts_length_mode")]); q->set_ts_length(o.i("ram_ts_length"));
  q->set_ts_length_lower_bound(o.i("ram_ts_length_lower_bound")); q->set_ts_length_upper_bound(o.i("ram_ts_length_upper_bound"));
  q->set_ts_length_increment_period(o.i("ram_ts_length_increment_period")); q->set_ts_length_distribution_parameter(o.d("ram_ts_length_distribution_parameter"));
  return q;
}
template<class A> A *hea(A *q, const Ask& o) {
  q->set_num_iterations(o.i("num_iterations")); q->set_selection_size(o.i("selection_size")); q->set_learning_rate(o.d("learning_rate"));
  q->set_randomize_bit_order(o.b("hea_randomize_bit_order")); q->set_bound_moment(o.b("hea_bound_moment")); q->set_reset_period(o.i("hea_reset_period"));
  q->set_log_herding_error(o.has("hea_log_herding_error")); q->set_log_target_norm(o.has("hea_log_target_norm"));
  q->set_log_delta_norm(o.has("hea_log_delta_norm")); q->set_log_target(o.has("hea_log_target"));
  return q;
}
template<class A> A *bm(A *q, const Ask& o) {
  q->set_num_iterations(o.i("num_iterations")); q->set_selection_size(o.i("selection_size")); q->set_learning_rate(o.d("learning_rate"));
  q->set_num_gs_steps(o.i("bm_num_gs_steps")); q->set_num_gs_cycles(o.i("bm_num_gs_cycles"));
  const int sampling[] = { A::SamplingMode::asynchronous, A::SamplingMode::asynchronous_full_scan, A::SamplingMode::synchronous };
  const int reset[] = { A::ResetMode::no_reset, A::ResetMode::iteration, A::ResetMode::bit_vector };
  q->set_sampling_mode(sampling[o.i("bm_sampling_mode")]); q->set_reset_mode(reset[o.i("bm_reset_mode")]);
  q->set_negative_positive_selection(o.has("bm_negative_positive_selection"));
  q->set_log_norm_infinite(o.has("bm_log_norm_infinite")); q->set_log_norm_1(o.has("bm_log_norm_1"));
  return q;
}
template<class A> A *mutation(A *q, const Ask& o) {
  q->set_num_iterations(o.i("num_iterations"));
  q->set_allow_no_mutation(o.has("ea_allow_no_mutation"));
  return q;
}

Algorithm *reference(const Ask& o, int n) {
  bool rate = o.has("ea_mutation_rate");
  switch (o.i("algorithm")) {
  case 0: return new CompleteSearch(n);
  case 10: { auto q = new RandomSearch(n); q->set_num_iterations(o.i("num_iterations")); return q; }
  case 20: { auto q = new RandomWalk(n, neighborhood_for(o, n)); q->set_num_iterations(o.i("num_iterations")); q->set_incremental_evaluation(o.has("incremental_evaluation")); if (o.has("rw_log_value")) q->set_log_value(); return q; }
  case 30: { auto q = new Human(n); q->set_num_iterations(o.i("num_iterations")); return q; }
  case 100: { auto q = new RandomLocalSearch(n, neighborhood_for(o, n)); q->set_num_iterations(o.i("num_iterations")); q->set_incremental_evaluation(o.has("incremental_evaluation")); q->set_patience(o.i("rls_patience")); if (o.has("rls_strict")) q->set_compare(std::greater<double>()); return q; }
  case 150: { auto q = new SteepestAscentHillClimbing(n, iterator_for(o, n)); q->set_num_iterations(o.i("num_iterations")); return q; }
  case 160: { auto q = new FirstAscentHillClimbing(n, iterator_for(o, n)); q->set_num_iterations(o.i("num_iterations")); return q; }
  case 200: { auto q = new SimulatedAnnealing(n, neighborhood_for(o, n)); q->set_num_iterations(o.i("num_iterations")); q->set_num_transitions(o.i("sa_num_transitions")); q->set_num_trials(o.i("sa_num_trials")); q->set_initial_acceptance_probability(o.d("sa_initial_acceptance_probability")); q->set_beta_ratio(o.d("sa_beta_ratio")); return q; }
  case 300: { auto q = mutation(new OnePlusOneEa(n), o); q->set_incremental_evaluation(o.has("incremental_evaluation")); if (rate) q->set_mutation_rate(o.d("ea_mutation_rate")); return q; }
  case 301: { auto q = mutation(new SelfAdjustingOnePlusOneEa(n), o); q->set_incremental_evaluation(o.has("incremental_evaluation"));
    if (rate) q->set_mutation_rate_init(o.d("ea_mutation_rate"));
    if (o.has("ea_mutation_rate_min")) q->set_mutation_rate_min(o.d("ea_mutation_rate_min"));
    q->set_mutation_rate_max(o.d("ea_mutation_rate_max")); q->set_update_strength(o.d("ea_update_strength")); q->set_success_ratio(o.d("ea_success_ratio"));
    q->set_log_mutation_rate(o.has("ea_log_mutation_rate")); return q; }
  case 310: { auto q = mutation(new MuPlusLambdaEa(n, o.i("ea_mu"), o.i("ea_lambda")), o); if (rate) q->set_mutation_rate(o.d("ea_mutation_rate")); return q; }
  case 320: { auto q = mutation(new MuCommaLambdaEa(n, o.i("ea_mu"), o.i("ea_lambda")), o); if (rate) q->set_mutation_rate(o.d("ea_mutation_rate")); return q; }
  case 330: { auto q = mutation(new TwoRateOnePlusLambdaEa(n, o.i("ea_lambda")), o); q->set_log_mutation_rate(o.has("ea_log_mutation_rate")); if (rate) q->set_mutation_rate_init(o.d("ea_mutation_rate")); return q; }
  case 340: { auto q = mutation(new InformationTheoreticEa(n, o.i("population_size")), o); q->set_selection_size(o.i("selection_size")); q->set_learning_rate(o.d("learning_rate"));
    q->set_initial_hamming_weight(o.i("ea_it_initial_hamming_weight")); 
    using R = InformationTheoreticEa::Replacement; const int rep[] = { R::elitist, R::non_elitist, R::ml_update, R::incremental_ml_update, R::no_replacement };
    q->set_replacement(rep[o.i("ea_it_replacement")]);
    if (rate) q->set_mutation_rate_init(o.d("ea_mutation_rate"));
    if (o.has("ea_mutation_rate_min")) q->set_mutation_rate_min(o.d("ea_mutation_rate_min"));
    q->set_mutation_rate_max(o.d("ea_mutation_rate_max"));
    q->set_log_mutation_rate(o.has("ea_log_mutation_rate")); q->set_log_center_fitness(o.has("ea_it_log_center_fitness")); return q; }
  case 400: { auto q = mutation(new GeneticAlgorithm(n, o.i("ea_mu")), o); q->set_tournament_size(o.i("ea_tournament_size")); q->set_crossover_probability(o.d("ea_crossover_probability")); if (rate) q->set_mutation_rate(o.d("ea_mutation_rate")); return q; }
  // both population sizes are kept equal in the configurations: which one is lambda is not documented
  case 450: { auto q = new OnePlusLambdaCommaLambdaGa(n, o.i("ea_mu")); q->set_num_iterations(o.i("num_iterations")); q->set_crossover_bias(o.d("ea_crossover_bias")); if (rate) q->set_mutation_rate(o.d("ea_mutation_rate")); return q; }
  case 500: { auto q = pv(new Pbil(n, o.i("population_size")), o); q->set_selection_size(o.i("selection_size")); q->set_learning_rate(o.d("learning_rate")); return q; }
  case 501: { auto q = pv(new NpsPbil(n, o.i("population_size")), o); q->set_selection_size(o.i("selection_size")); q->set_learning_rate(o.d("learning_rate")); return q; }
  case 600: { auto q = pv(new Umda(n, o.i("population_size")), o); q->set_selection_size(o.i("selection_size")); return q; }
  case 610: return ram(new RamUmda(n, o.i("population_size")), o);
  case 612: { auto q = ram(new RamUmda2(n, o.i("population_size")), o); q->set_crossover_probability(o.d("ram_crossover_probability")); q->set_latent_space_probability(o.d("ram_latent_space_probability")); return q; }
  case 700: { auto q = pv(new CompactGa(n), o); q->set_learning_rate(o.d("learning_rate")); return q; }
  case 800: { auto q = pv(new Mmas(n), o); q->set_learning_rate(o.d("learning_rate")); if (o.has("mmas_strict")) q->set_compare(std::greater<double>()); return q; }
  case 900: return hea(new Hea<FullMomentHerding>(n, o.i("population_size")), o);
  case 901: return hea(new Hea<TriangularMomentHerding>(n, o.i("population_size")), o);
  case 1000: return bm(new BmPbil<FullMomentGibbsSampler>(n, o.i("population_size")), o);
  case 1001: return bm(new BmPbil<TriangularMomentGibbsSampler>(n, o.i("population_size")), o);
  case 1100: { auto q = new Mimic(n, o.i("population_size")); q->set_num_iterations(o.i("num_iterations")); q->set_selection_size(o.i("selection_size")); return q; }
  case 1110: { auto q = new P3::Hboa(n); q->set_population_size(o.i("population_size")); return q; }
  case 1200: { auto q = new P3::Ltga(n); q->set_population_size(o.i("population_size")); return q; }
  case 1300: return new P3::ParameterLessPopulationPyramid(n);
  default: return nullptr;
  }
}

// Comparison -------------------------------------------------------------------

struct Seen { std::vector<Ev> trace; std::string out; bool stopped = false; std::string error; bool solved = false; solution_t sol; };

Seen run(Algorithm *a, int n, const std::function<double(const bit_vector_t&)>& f, int limit) {
  Seen s;
  Probe p(n, f);
  p.incremental = true;
  p.limit = limit;
  FC::ProgressTracker tracker(&p);
  logging::ProgressTrackerContext ctx(&tracker);
  a->set_log_context(&ctx);
  {
    Capture c;
    // what a human would type
    std::istringstream in("0000011111 1010101010 1111111111 0000000000 1111100000 0110110110 quit");
    struct Cin { std::streambuf *old; Cin(std::streambuf *b): old(std::cin.rdbuf(b)) { std::cin.clear(); } ~Cin() { std::cin.rdbuf(old); std::cin.clear(); } } cin(in.rdbuf());
    try { a->maximize({ &tracker }); }
    catch (const exception::LastEvaluation&) { s.stopped = true; }
    catch (const std::runtime_error& e) { s.error = e.what(); }
    if (s.error.empty() && p.count > 12) { a->finalize(); s.sol = a->get_solution(); s.solved = true; }
    s.out = c.s.str();
  }
  s.trace = p.trace;
  return s;
}

void compare(const std::function<Algorithm *(const Args&, int)>& factory, const Args& args, int n, const Land& l, int limit, const mc::Opt& o) {
  mc::explore(o, [&]() {
    auto from = mc::points();
    double w0 = mc::log_weight();
    std::unique_ptr<Algorithm> a(factory(args, n));
    Seen x = run(a.get(), n, l.f, limit);
    auto to = mc::points();
    double w1 = mc::log_weight();
    bool faithful;
    Seen y;
    { mc::Rerun r(from, to);
      std::unique_ptr<Algorithm> b(reference(Ask(args), n));
      y = run(b.get(), n, l.f, limit);
      faithful = r.faithful(); }
    double w2 = mc::log_weight();
    size_t k = 0;
    while (k < x.trace.size() && k < y.trace.size() && x.trace[k] == y.trace[k]) k++;
    MC_CHECK(k == x.trace.size() && k == y.trace.size(), "evaluations", text(args) << ": evaluation " << k << " is " << (k < x.trace.size() ? show(x.trace[k].x) + x.trace[k].kind : std::string("missing")) << " instead of " << (k < y.trace.size() ? show(y.trace[k].x) + y.trace[k].kind : std::string("none")));
    MC_CHECK(faithful && x.stopped == y.stopped && x.error == y.error, "course", text(args) << ": other draws or another end " << x.error << "/" << y.error);
    MC_CHECK(close(w1 - w0, w2 - w1), "probabilities", text(args) << ": the same draws have log probability " << w1 - w0 << " instead of " << w2 - w1);
    MC_CHECK(x.out == y.out, "log", text(args) << ": logged " << x.out.substr(0, 300) << " instead of " << y.out.substr(0, 300));
    MC_CHECK(x.solved == y.solved && (!x.solved || (x.sol.first == y.sol.first && same(x.sol.second, y.sol.second))), "solution", text(args));
    mc::Hash h; for (auto& e : x.trace) h.addv(e.x); mc::state(h.adds(text(args)));
    mc::step(x.trace.size());
  });
}

struct Config { int id; Args base; Args vary; std::vector<Args> more; };

std::vector<Config> configs() {
  Args pop = { { "population_size", "4" }, { "selection_size", "2" }, { "learning_rate", "0.25" } };
  Args pvv = { { "population_size", "5" }, { "selection_size", "1" }, { "learning_rate", "0.6" }, { "num_iterations", "3" }, { "pv_log_pv", "" }, { "pv_log_entropy", "" } };
  std::vector<Args> pvm = { { { "pv_log_pv", "" }, { "pv_log_num_components", "2" } } };
  auto with = [](Args a, const Args& b) { for (auto& p : b) a[p.first] = p.second; return a; };
  std::vector<Config> r;
  Args nb = { { "num_iterations", "5" }, { "neighborhood", "3" }, { "incremental_evaluation", "" } };
  std::vector<Args> nbm;
  for (auto k : { "1", "2", "3" }) nbm.push_back({ { "neighborhood", k }, { "radius", "3" }, { "ea_mutation_rate", "0.4" }, { "ea_allow_no_mutation", "" } });
  nbm.push_back({ { "neighborhood", "1" } });
  nbm.push_back({ { "neighborhood", "2" } });
  nbm.push_back({ { "neighborhood", "1" }, { "ea_mutation_rate", "0.4" } });
  nbm.push_back({ { "neighborhood", "1" }, { "ea_allow_no_mutation", "" } });
  std::vector<Args> itm = { { { "neighborhood_iterator", "1" } }, { { "neighborhood_iterator", "1" }, { "radius", "1" } }, { { "neighborhood_iterator", "1" }, { "radius", "3" } } };
  r.push_back({ 0, {}, {} });
  r.push_back({ 10, {}, { { "num_iterations", "7" } } });
  r.push_back({ 20, {}, with(nb, { { "rw_log_value", "" } }), nbm });
  r.push_back({ 30, {}, { { "num_iterations", "3" } } });
  r.push_back({ 100, {}, with(nb, { { "rls_patience", "3" }, { "rls_strict", "" } }), nbm });
  r.push_back({ 150, {}, { { "num_iterations", "1" }, { "neighborhood_iterator", "1" } }, itm });
  r.push_back({ 160, {}, { { "num_iterations", "1" }, { "neighborhood_iterator", "1" } }, itm });
  auto sam = nbm; for (auto& m : sam) m["sa_num_trials"] = "8", m["sa_num_transitions"] = "3";
  r.push_back({ 200, { { "sa_num_trials", "10" }, { "sa_num_transitions", "5" } }, { { "num_iterations", "9" }, { "sa_num_transitions", "2" }, { "sa_num_trials", "4" }, { "sa_initial_acceptance_probability", "0.2" }, { "sa_beta_ratio", "4" }, { "neighborhood", "3" } }, sam });
  r.push_back({ 300, {}, { { "num_iterations", "5" }, { "ea_mutation_rate", "0.4" }, { "ea_allow_no_mutation", "" }, { "incremental_evaluation", "" } } });
  r.push_back({ 301, {}, { { "num_iterations", "5" }, { "ea_mutation_rate", "0.45" }, { "ea_mutation_rate_min", "0.3" }, { "ea_mutation_rate_max", "0.21" }, { "ea_update_strength", "2" }, { "ea_success_ratio", "1.5" }, { "ea_allow_no_mutation", "" }, { "ea_log_mutation_rate", "" }, { "incremental_evaluation", "" } },
                { { { "ea_log_mutation_rate", "" }, { "ea_update_strength", "1.5" } }, { { "ea_log_mutation_rate", "" }, { "ea_update_strength", "1.5" }, { "ea_mutation_rate_max", "0.24" } }, { { "ea_log_mutation_rate", "" }, { "ea_update_strength", "1.5" }, { "ea_success_ratio", "1.5" } }, { { "ea_log_mutation_rate", "" }, { "ea_update_strength", "3" }, { "ea_mutation_rate_min", "0.15" } } } });
  Args ea = { { "num_iterations", "3" }, { "ea_mutation_rate", "0.4" }, { "ea_allow_no_mutation", "" } };
  r.push_back({ 310, { { "ea_mu", "3" }, { "ea_lambda", "4" } }, with(ea, { { "ea_mu", "2" }, { "ea_lambda", "7" } }) });
  r.push_back({ 320, { { "ea_mu", "3" }, { "ea_lambda", "4" } }, with(ea, { { "ea_mu", "2" }, { "ea_lambda", "7" } }) });
  r.push_back({ 330, { { "ea_lambda", "4" } }, with(ea, { { "ea_lambda", "6" }, { "ea_log_mutation_rate", "" } }), { { { "ea_mutation_rate", "0.4" }, { "ea_log_mutation_rate", "" } } } });
  Args ite = { { "population_size", "4" }, { "selection_size", "2" }, { "learning_rate", "0.25" }, { "ea_mutation_rate", "0.3" }, { "ea_mutation_rate_max", "0.8" } };
  r.push_back({ 340, ite, { { "population_size", "6" }, { "selection_size", "1" }, { "learning_rate", "0.7" }, { "num_iterations", "3" }, { "ea_it_initial_hamming_weight", "2" }, { "ea_it_replacement", "1" }, { "ea_mutation_rate", "0.2" }, { "ea_mutation_rate_min", "0.25" }, { "ea_mutation_rate_max", "0.35" }, { "ea_allow_no_mutation", "" }, { "ea_log_mutation_rate", "" }, { "ea_it_log_center_fitness", "" } },
                { with(ite, { { "ea_it_replacement", "2" } }), with(ite, { { "ea_it_replacement", "3" } }), with(ite, { { "ea_it_replacement", "4" } }), with(ite, { { "ea_it_replacement", "4" }, { "ea_it_initial_hamming_weight", "3" } }), with(ite, { { "ea_log_mutation_rate", "" }, { "ea_mutation_rate_min", "0.25" } }), with(ite, { { "ea_log_mutation_rate", "" }, { "ea_mutation_rate_max", "0.32" } }) } });
  r.push_back({ 400, { { "ea_mu", "6" } }, with(ea, { { "ea_mu", "4" }, { "ea_tournament_size", "3" }, { "ea_crossover_probability", "0.9" } }) });
  r.push_back({ 450, { { "ea_mu", "4" }, { "ea_lambda", "4" } }, { { "num_iterations", "3" }, { "ea_mutation_rate", "0.3" }, { "ea_crossover_bias", "0.2" } }, { { { "ea_mu", "2" }, { "ea_lambda", "2" } } } });
  r.push_back({ 500, pop, pvv, pvm });
  r.push_back({ 501, pop, pvv, pvm });
  Args um = pvv; um.erase("learning_rate");
  r.push_back({ 600, pop, um, pvm });
  Args ramv = with(um, { { "ram_ts_length", "2" }, { "ram_ts_length_mode", "1" }, { "ram_ts_length_lower_bound", "1" }, { "ram_ts_length_upper_bound", "3" }, { "ram_ts_length_increment_period", "1" }, { "ram_ts_length_distribution_parameter", "0.5" } });
  std::vector<Args> ramm = pvm;
  for (auto m : { "0", "1", "2", "3", "4", "5" }) ramm.push_back({ { "population_size", "2" }, { "ram_ts_length_mode", m }, { "ram_ts_length", "2" }, { "ram_ts_length_lower_bound", "1" }, { "ram_ts_length_upper_bound", "3" }, { "ram_ts_length_increment_period", "2" }, { "ram_ts_length_distribution_parameter", "0.5" } });
  r.push_back({ 610, with(pop, { { "ram_ts_length", "3" } }), ramv, ramm });
  auto ramm2 = ramm; for (auto m : { "0.9", "0.05" }) { Args a = ramm[1]; a["ram_crossover_probability"] = m; a["ram_latent_space_probability"] = m[2] == '9' ? "0.1" : "0.95"; ramm2.push_back(a); }
  r.push_back({ 612, with(pop, { { "ram_ts_length", "3" } }), with(ramv, { { "ram_crossover_probability", "0.7" }, { "ram_latent_space_probability", "0.9" } }), ramm2 });
  r.push_back({ 700, { { "learning_rate", "0.25" } }, { { "learning_rate", "0.6" }, { "num_iterations", "4" }, { "pv_log_pv", "" }, { "pv_log_entropy", "" } }, pvm });
  r.push_back({ 800, { { "learning_rate", "0.25" } }, { { "learning_rate", "0.6" }, { "num_iterations", "4" }, { "pv_log_pv", "" }, { "pv_log_entropy", "" }, { "mmas_strict", "" } }, pvm });
  Args he = { { "population_size", "5" }, { "selection_size", "1" }, { "learning_rate", "0.6" }, { "num_iterations", "3" }, { "hea_randomize_bit_order", "false" }, { "hea_bound_moment", "false" }, { "hea_reset_period", "1" }, { "hea_log_herding_error", "" }, { "hea_log_target_norm", "" }, { "hea_log_delta_norm", "" }, { "hea_log_target", "" } };
  std::vector<Args> hm = { { { "population_size", "3" }, { "learning_rate", "0.9" }, { "hea_bound_moment", "false" }, { "hea_log_target_norm", "" } } };
  for (int id : { 900, 901 }) r.push_back({ id, pop, he, hm });
  Args bmv = { { "population_size", "5" }, { "selection_size", "1" }, { "learning_rate", "0.6" }, { "num_iterations", "3" }, { "bm_num_gs_steps", "3" }, { "bm_num_gs_cycles", "2" }, { "bm_sampling_mode", "0" }, { "bm_reset_mode", "0" }, { "bm_negative_positive_selection", "" }, { "bm_log_norm_infinite", "" }, { "bm_log_norm_1", "" } };
  std::vector<Args> bmm;
  for (auto s : { "0", "1", "2" }) for (auto k : { "0", "1", "2" }) bmm.push_back({ { "population_size", "3" }, { "learning_rate", "0.5" }, { "bm_num_gs_steps", "3" }, { "bm_num_gs_cycles", "2" }, { "bm_sampling_mode", s }, { "bm_reset_mode", k } });
  for (int id : { 1000, 1001 }) r.push_back({ id, with(pop, { { "bm_num_gs_steps", "4" } }), bmv, bmm });
  r.push_back({ 1100, pop, { { "population_size", "6" }, { "selection_size", "3" }, { "num_iterations", "3" } } });
  r.push_back({ 1110, { { "population_size", "4" } }, { { "population_size", "7" } } });
  r.push_back({ 1200, { { "population_size", "4" } }, { { "population_size", "7" } } });
  r.push_back({ 1300, {}, {} });
  return r;
}

std::vector<Args> variants(const Config& c) {
  std::vector<Args> r = { {}, c.base };
  for (auto& v : c.vary) { Args a = c.base; a[v.first] = v.second; r.push_back(a); }
  { Args a = c.base; for (auto& v : c.vary) a[v.first] = v.second; r.push_back(a); }
  for (auto& m : c.more) { Args a = c.base; for (auto& v : m) a[v.first] = v.second; r.push_back(a); }
  for (auto& a : r) a["algorithm"] = mc::str(c.id);
  return r;
}

// Functions --------------------------------------------------------------------

void same_function(F::Function *f, F::Function *g, const std::string& what, int lim = 10) {
  MC_CHECK(f->get_bv_size() == g->get_bv_size(), "size", what << ": " << f->get_bv_size() << " instead of " << g->get_bv_size());
  MC_CHECK(f->has_known_maximum() == g->has_known_maximum(), "known-maximum", what);
  if (g->has_known_maximum()) MC_CHECK(same(f->get_maximum(), g->get_maximum()), "maximum", what << ": " << f->get_maximum() << " instead of " << g->get_maximum());
  MC_CHECK(f->provides_incremental_evaluation() == g->provides_incremental_evaluation(), "incremental", what);
  for (auto& x : domain(f->get_bv_size(), lim)) {
    double a = f->evaluate(x), b = g->evaluate(x);
    MC_CHECK(same(a, b), "value", what << ": f(" << show(x) << ") = " << a << " instead of " << b);
    mc::state(mc::Hash().adds(what).addv(x));
    mc::step();
  }
}

F::Function *from_command_line(const Args& a) {
  auto o = options<app::HncoOptions>(a);
  app::CommandLineFunctionFactory ff(o);
  return ff.make();
}

void plain_function(int id, const Args& more, std::function<F::Function *(const Ask&)> ref) {
  Args a = more; a["function"] = mc::str(id);
  std::unique_ptr<F::Function> f(from_command_line(a)), g(ref(Ask(a)));
  same_function(f.get(), g.get(), text(a));
}

template<class T> void loaded_function(int id, std::function<void(T&, int)> init, int variants) {
  for (int v = 0; v < variants; v++) {
    T g;
    { mc::Fixed fx(v + 1); init(g, v); }
    std::string p = path_of("fn");
    g.save(p);
    Args a = { { "function", mc::str(id) }, { "path", p } };
    std::unique_ptr<F::Function> f(from_command_line(a));
    unlink(p.c_str());
    T h(g);
    same_function(f.get(), &h, text(a));
  }
}

/// Oracle given by a rule, for the parsed functions
struct Rule: F::Function {
  int n; std::function<double(const bit_vector_t&)> f;
  Rule(int n_, std::function<double(const bit_vector_t&)> f_): n(n_), f(f_) {}
  int get_bv_size() const override { return n; }
  double evaluate(const bit_vector_t& x) override { return f(x); }
};
bit_vector_t part(const bit_vector_t& x, int a, int n) { return bit_vector_t(x.begin() + a, x.begin() + a + n); }

// Parsed functions ---------------------------------------------------------------

template<class R> auto dec(R r, const bit_vector_t& x, int& at) { int a = at; at += int(r.size()); return r.unpack(x, a); }

using I = DyadicIntegerRepresentation<int>;
using L = DyadicIntegerRepresentation<long>;
using D = DyadicFloatRepresentation<double>;
using S = ValueSetRepresentation<double>;

struct Parsed { int kind; std::string expression, reps; int n; std::function<std::vector<std::complex<double>>(const bit_vector_t&)> f; };

/// kind: last digit of the function's number; several objectives are separated by :: in the expression
std::vector<Parsed> parsed(bool many) {
  std::string more = many ? ":: x + 3 * y" : "";
  auto out = [many](std::complex<double> a, std::complex<double> x, std::complex<double> y) { std::vector<std::complex<double>> r = { a }; if (many) r.push_back(x + 3. * y); return r; };
  std::vector<Parsed> r;
  r.push_back({ 0, "x - 2 * y + pi * e" + more, "x: double(-1, 3, size = 3); y: double(0, 5, precision = 1)", 6, [out](const bit_vector_t& b) { int at = 0; double x = dec(D(-1, 3, 3), b, at), y = dec(D(0, 5, 1.0), b, at); return out(x - 2 * y + M_PI * M_E, x, y); } });
  r.push_back({ 0, "x - 2 * y" + more, "y: double(0, 5, size = 2)", 12, [out](const bit_vector_t& b) { int at = 0; double x = dec(D(0, 1, 1e-3), b, at), y = dec(D(0, 5, 2), b, at); return out(x - 2 * y, x, y); } });
  r.push_back({ 1, "x * y - 7" + more, "x: long(-3, 4); y: long(-2, 9)", 7, [out](const bit_vector_t& b) { int at = 0; long x = dec(L(-3, 4), b, at), y = dec(L(-2, 9), b, at); return out(double(x * y - 7), double(x), double(y)); } });
  r.push_back({ 2, "x * y + 1" + more, "x_re: double(-1, 3, size = 2); x_im: double(0, 5, size = 1); y_re: double(-7, 3, size = 2); y_im: double(-2, 5, size = 2)", 7, [out](const bit_vector_t& b) { int at = 0; double a = dec(D(-1, 3, 2), b, at), c = dec(D(0, 5, 1), b, at), d = dec(D(-7, 3, 2), b, at), e = dec(D(-2, 5, 2), b, at); std::complex<double> x(a, c), y(d, e); return out(x * y + 1., x, y); } });
  r.push_back({ 3, "x / 4 - y" + more, "x: int(-3, 4); y: int(0, 6)", 6, [out](const bit_vector_t& b) { int at = 0; double x = dec(I(-3, 4), b, at), y = dec(I(0, 6), b, at); return out(x / 4 - y, x, y); } });
  r.push_back({ 4, "x - 2 * y + z" + (many ? std::string(":: x + 3 * y") : ""), "x: double(-1, 3, size = 3); y: long(-2, 5); z: set(0.5, -3, 9)", 8, [out](const bit_vector_t& b) { int at = 0; double x = dec(D(-1, 3, 3), b, at); double y = double(dec(L(-2, 5), b, at)); double z = dec(S({ 0.5, -3, 9 }), b, at); return out(x - 2 * y + z, x, y); } });
  return r;
}

double convert(int kind, bool opposite, std::complex<double> z) {
  if (kind == 2) return (opposite ? -1 : 1) * std::norm(z);
  return opposite ? -std::fabs(z.real()) : z.real();
}

void parsed_cases(int series) {
  bool opposite = series == 510 || series == 530, many = series >= 520;
  for (auto& p : parsed(many)) {
    Args a = { { "function", mc::str(series + p.kind) }, { "fp_expression", p.expression }, { "fp_representations", p.reps } };
    if (!many) {
      std::unique_ptr<F::Function> f(from_command_line(a));
      Rule g(p.n, [&](const bit_vector_t& x) { return convert(p.kind, opposite, p.f(x)[0]); });
      MC_CHECK(f->get_bv_size() == p.n, "size", text(a) << ": " << f->get_bv_size() << " instead of " << p.n);
      for (auto& x : domain(p.n, 12)) { double u = f->evaluate(x), v = g.evaluate(x); MC_CHECK(close(u, v), "value", text(a) << ": f(" << show(x) << ") = " << u << " instead of " << v); mc::state(mc::Hash().adds(text(a)).addv(x)); }
    } else {
      auto o = options<multiobjective::app::HncoOptions>(a);
      multiobjective::app::CommandLineFunctionFactory ff(o);
      std::unique_ptr<multiobjective::function::Function> f(ff.make());
      MC_CHECK(f->get_bv_size() == p.n && f->get_output_size() == 2, "size", text(a) << ": " << f->get_bv_size() << "->" << f->get_output_size());
      multiobjective::function::value_t v(2);
      std::unique_ptr<F::Function> sum(from_command_line(a));
      MC_CHECK(sum->get_bv_size() == p.n, "size", text(a));
      for (auto& x : domain(p.n, 12)) {
        f->evaluate(x, v);
        auto w = p.f(x);
        double total = 0;
        for (int k = 0; k < 2; k++) { double e = convert(p.kind, opposite, w[size_t(k)]); total += e; if (opposite) e = -e; MC_CHECK(close(v[size_t(k)], e), "value", text(a) << ": f(" << show(x) << ")[" << k << "] = " << v[size_t(k)] << " instead of " << e); }
        double u = sum->evaluate(x);
        MC_CHECK(close(u, total), "sum", text(a) << ": hnco evaluates " << show(x) << " to " << u << " instead of " << total);
        mc::state(mc::Hash().adds(text(a)).addv(x));
      }
    }
  }
}

// Decorated functions --------------------------------------------------------------

Neighborhood *prior(const Ask& o, int n) {
  switch (o.i("pn_neighborhood")) {
  case 0: return new SingleBitFlip(n);
  case 1: { auto b = new StandardBitMutation(n); b->set_allow_no_mutation(o.has("pn_allow_no_mutation")); if (o.has("pn_mutation_rate")) b->set_mutation_rate(o.d("pn_mutation_rate")); return b; }
  case 2: return new HammingBall(n, o.i("pn_radius"));
  default: return new HammingSphere(n, o.i("pn_radius"));
  }
}

struct Composed: F::Function {
  F::Function *f; map::Map *m; bit_vector_t y;
  Composed(F::Function *f_, map::Map *m_): f(f_), m(m_), y(m_->get_output_size()) {}
  int get_bv_size() const override { return m->get_input_size(); }
  double evaluate(const bit_vector_t& x) override { m->map(x, y); return f->evaluate(y); }
  bool has_known_maximum() const override { return f->has_known_maximum() && m->is_surjective(); }
  double get_maximum() const override { return f->get_maximum(); }
};

/// What a map of the given type may do, from its definition
void check_map(const Ask& o, map::Map *m, int out) {
  int kind = o.i("map");
  int in = kind == 4 || kind == 5 ? o.i("map_input_size") : out;
  MC_CHECK(m && m->get_input_size() == in && m->get_output_size() == out, "map-size", text(o.a));
  std::map<bit_vector_t, bit_vector_t> t;
  bit_vector_t y(out), zero(out);
  std::set<bit_vector_t> image;
  for (auto& x : domain(in, 12)) { m->map(x, y); t[x] = y; image.insert(y); }
  bit_vector_t c = t[bit_vector_t(in)];
  if (kind == 2 || kind == 4) MC_CHECK(c == zero, "map-type", text(o.a) << " maps zero to " << show(c));
  auto col = [&](int i) { bit_vector_t r = t[flipped(bit_vector_t(in), i)]; for (int k = 0; k < out; k++) r[k] ^= c[k]; return r; };
  if (kind == 1) for (int i = 0; i < in; i++) MC_CHECK(col(i) == flipped(bit_vector_t(in), i), "map-type", text(o.a) << " is not a translation");
  if (kind == 2 || kind == 3) for (int i = 0; i < in; i++) MC_CHECK(weight(col(i)) == 1, "map-type", text(o.a) << " is not a permutation");
  // affine: determined by the columns
  for (auto& p : t) { bit_vector_t w = c; for (int i = 0; i < in; i++) if (p.first[i]) { auto q = col(i); for (int k = 0; k < out; k++) w[k] ^= q[k]; } MC_CHECK(w == p.second, "map-type", text(o.a) << " is not affine"); }
  if (kind < 4 || kind == 6 || o.has("map_surjective")) MC_CHECK(image.size() == size_t(1) << out, "map-surjective", text(o.a));
}

/// Modifiers of a function: every evaluation equals that of the documented stack
void decorated(Args a, const std::vector<bit_vector_t>& xs, const mc::Opt& o) {
  mc::explore(o, [&]() {
    auto opt = options<app::HncoOptions>(a);
    Ask q(a);
    app::CommandLineFunctionFactory ff(opt);
    app::DecoratedFunctionFactory df(opt, ff);
    auto before = mc::points();
    F::Function *f = df.make_function_modifier();
    bool drawn = mc::points() != before;
    int n = q.i("bv_size");
    F::Function *g = new F::LeadingOnes(n);
    if (q.i("map") > 0) {
      if (drawn || !q.has("map_path")) check_map(q, df.get_map(), n);
      if (q.has("map_path")) {
        // the map of the file
        std::ifstream s(q.s("map_path")); boost::archive::text_iarchive ar(s);
        map::Map *m = nullptr;
        switch (q.i("map")) {
        case 1: { auto k = new map::Translation; ar >> *k; m = k; break; }
        case 2: { auto k = new map::Permutation; ar >> *k; m = k; break; }
        case 3: { auto k = new map::Permutation; auto l = new map::Translation; ar >> *k >> *l; m = new map::MapComposition(k, l); break; }
        case 4: { auto k = new map::LinearMap; ar >> *k; m = k; break; }
        case 5: { auto k = new map::AffineMap; ar >> *k; m = k; break; }
        case 6: { auto k = new map::TsAffineMap; ar >> *k; m = k; break; }
        }
        g = new Composed(g, m);
      } else g = new Composed(g, df.get_map());
    } else MC_CHECK(!df.get_map(), "map", "a map without one being asked for");
    if (q.has("prior_noise")) g = new FM::PriorNoise(g, prior(q, g->get_bv_size()));
    if (q.has("parsed_modifier")) g = new FM::ParsedModifier(g, q.s("expression"));
    if (q.has("minimize")) g = new FM::OppositeFunction(g);
    if (q.has("additive_gaussian_noise")) g = new FM::AdditiveGaussianNoise(g, q.d("noise_stddev"));
    MC_CHECK(f->get_bv_size() == g->get_bv_size(), "size", text(a) << ": " << f->get_bv_size() << " instead of " << g->get_bv_size());
    MC_CHECK(f->has_known_maximum() == g->has_known_maximum(), "known-maximum", text(a));
    if (g->has_known_maximum()) MC_CHECK(same(f->get_maximum(), g->get_maximum()), "maximum", text(a));
    for (auto& x : xs) {
      if (int(x.size()) != f->get_bv_size()) continue;
      int from = mc::points();
      double w0 = mc::log_weight();
      double u = f->evaluate(x);
      int to = mc::points();
      double w1 = mc::log_weight();
      double v; bool ok;
      { mc::Rerun r(from, to); v = g->evaluate(x); ok = r.faithful(); }
      MC_CHECK(close(w1 - w0, mc::log_weight() - w1), "probabilities", text(a) << ": the same draws have log probability " << w1 - w0 << " instead of " << mc::log_weight() - w1);
      MC_CHECK(ok && same(u, v), "value", text(a) << ": f(" << show(x) << ") = " << u << " instead of " << v);
      mc::state(mc::Hash().adds(text(a)).addv(x).add(u));
    }
  });
}

/// Controllers: every sequence of evaluations against a counting model
void controlled(Args a, int len) {
  int n = 3;
  a["bv_size"] = "3";
  Ask q(a);
  auto opt = options<app::HncoOptions>(a);
  mc::explore([&]() {
    app::CommandLineFunctionFactory ff(opt);
    app::DecoratedFunctionFactory df(opt, ff);
    F::Function *f = df.make_function_modifier();
    bool known = !q.has("minimize");
    if (q.has("stop_on_maximum") && !known) {
      bool thrown = false;
      try { df.make_function_controller(f); } catch (const std::runtime_error&) { thrown = true; }
      MC_CHECK(thrown, "unknown-maximum", text(a));
      return;
    }
    f = df.make_function_controller(f);
    int budget = q.i("budget");
    bool cache = q.has("cache"), outer = q.has("cache_budget");
    std::set<bit_vector_t> cached;
    int used = 0, calls = 0;
    double best = -1e9;
    static const uint64_t pts[] = { 0, 1, 7 };
    for (int k = 0; k < len; k++) {
      bit_vector_t x = bv(pts[choose(3)], n);
      double v = q.has("minimize") ? -double(weight(x)) : double(weight(x));
      // model
      bool hit = cache && cached.count(x);
      bool spends = budget > 0 && (!cache || outer || !hit);
      std::string want = "value";
      if (spends && used >= budget) want = "last";
      else {
        if (spends) used++;
        if (!hit) { calls++; best = std::max(best, v); }
        if (cache) cached.insert(x);
        if (q.has("stop_on_maximum") ? v >= n : q.has("target") && v >= q.d("target")) want = "target";
      }
      std::string got; double u = v;
      try { u = f->evaluate(x); got = "value"; }
      catch (const exception::LastEvaluation&) { got = "last"; }
      catch (const exception::TargetReached&) { got = "target"; }
      MC_CHECK(got == want && u == v, "controller", text(a) << ": evaluation " << k << " of " << show(x) << " gives " << got << " " << u << " instead of " << want << " " << v);
      MC_CHECK(df.get_tracker()->get_num_calls() == calls, "calls", text(a) << ": " << df.get_tracker()->get_num_calls() << " calls instead of " << calls);
      MC_CHECK(!calls || (df.get_tracker()->get_last_improvement().solution.second == best), "tracker", text(a));
      MC_CHECK((df.get_cache() != nullptr) == cache, "cache", text(a));
      if (want == "target") MC_CHECK(df.get_stop_on_target()->get_trigger().first == x && df.get_stop_on_target()->get_trigger().second == v, "trigger", text(a));
      mc::state(mc::Hash().adds(text(a)).add(used).add(calls).add(k).addv(x));
      if (got != "value") break;
    }
  });
}

// Multiobjective algorithm ------------------------------------------------------------

const Args mo_defaults = { { "algorithm", "100" }, { "num_iterations", "100" }, { "ea_mu", "100" }, { "ea_tournament_size", "2" }, { "ea_crossover_probability", "0.8" } };

struct Pair: multiobjective::function::Function {
  std::vector<bit_vector_t> trace;
  int get_bv_size() const override { return 5; }
  int get_output_size() const override { return 2; }
  void evaluate(const bit_vector_t& x, multiobjective::function::value_t& v) override { trace.push_back(x); if (trace.size() > 3000) throw std::runtime_error("limit"); v[0] = double(mix64(bits(x)) % 7); v[1] = double(mix64(bits(x) + 99) % 7); }
};

void nsga2(const Args& a, const mc::Opt& o) {
  mc::explore(o, [&]() {
    auto opt = options<multiobjective::app::HncoOptions>(a);
    Ask q(a, mo_defaults);
    Pair f, g;
    auto from = mc::points();
    double w0 = mc::log_weight();
    multiobjective::app::CommandLineAlgorithmFactory af(opt);
    std::unique_ptr<multiobjective::algorithm::Algorithm> x(af.make(5, 2));
    bool e1 = false, e2 = false;
    try { x->minimize({ &f }); } catch (const std::runtime_error&) { e1 = true; }
    auto to = mc::points();
    double w1 = mc::log_weight();
    bool ok;
    multiobjective::algorithm::Nsga2 y(5, 2, q.i("ea_mu"));
    { mc::Rerun r(from, to);
      y.set_num_iterations(q.i("num_iterations")); y.set_tournament_size(q.i("ea_tournament_size")); y.set_crossover_probability(q.d("ea_crossover_probability"));
      y.set_allow_no_mutation(q.has("ea_allow_no_mutation")); if (q.has("ea_mutation_rate")) y.set_mutation_rate(q.d("ea_mutation_rate"));
      try { y.minimize({ &g }); } catch (const std::runtime_error&) { e2 = true; }
      ok = r.faithful(); }
    MC_CHECK(f.trace == g.trace && ok && e1 == e2, "evaluations", text(a) << ": other evaluations or draws than NSGA-II with these parameters");
    MC_CHECK(close(w1 - w0, mc::log_weight() - w1), "probabilities", text(a) << ": the same draws have log probability " << w1 - w0 << " instead of " << mc::log_weight() - w1);
    mc::Hash h; for (auto& b : f.trace) h.addv(b); mc::state(h);
  });
}

/// The listing of the parameters in force
void listing() {
  auto values = [](const std::string& s) { Args r; std::istringstream i(s); std::string l; while (std::getline(i, l)) { auto e = l.find(" = "); if (l.size() > 2 && e != std::string::npos) r[l.substr(2, e - 2)] = l.substr(e + 3); else if (l.size() > 2) r[l.substr(2, l.find_last_not_of(' ') - 1)] = ""; } return r; };
  std::ostringstream s; s << app::HncoOptions();
  auto d = values(s.str());
  for (auto& p : defaults) {
    MC_CHECK(d.count(p.first), "listing", p.first << " is not listed");
    std::string v = d[p.first]; if (v.size() > 1 && v[0] == '"') v = v.substr(1, v.size() - 2);
    MC_CHECK(v == p.second, "default", "the default value of " << p.first << " is " << v << " instead of " << p.second);
  }
  // each option sets its own parameter and no other
  for (auto& p : defaults) {
    std::string other = p.second == "true" ? "false" : p.second == "x" ? "x + 1" : p.first.find("prob") != std::string::npos ? "0.25" : p.second.find('.') != std::string::npos ? "0.75" : mc::str(std::stoi(p.second) + 1);
    Args a = { { p.first, other } };
    std::ostringstream t; t << options<app::HncoOptions>(a);
    auto e = values(t.str());
    for (auto& k : d) {
      std::string v = e.count(k.first) ? e[k.first] : "(missing)"; if (v.size() > 1 && v[0] == '"') v = v.substr(1, v.size() - 2);
      std::string w = k.first == p.first ? other : k.second; if (w.size() > 1 && w[0] == '"') w = w.substr(1, w.size() - 2);
      if (k.first == "exec_name") continue;
      MC_CHECK(v == w, "option", "with --" << p.first << "=" << other << ", " << k.first << " is " << v << " instead of " << w);
    }
    mc::state(mc::Hash().adds(p.first));
  }
}

} // namespace

void mc_register() {
  bool T = mc::thorough();
  auto factory = [](const Args& a, int n) -> Algorithm * {
    auto o = options<app::HncoOptions>(a);
    app::CommandLineAlgorithmFactory af(o);
    return af.make(n);
  };
  for (auto& c : configs()) {
    auto vs = variants(c);
    for (size_t k = 0; k < vs.size(); k++) {
      Args a = vs[k];
      mc::add("algorithm-" + mc::str(c.id) + "/" + mc::str(k), [=]() {
        mc::Opt o = mc::bounds(T ? 3 : 2, 0, T ? 12 : 3);
        o.levels = { 0.03, 0.17, 0.31, 0.44, 0.56, 0.69, 0.83, 0.97 };
        auto ls = lands(10);
        for (size_t l : { size_t(0), size_t(2), size_t(6), size_t(7) }) compare(factory, a, 10, ls[l], k == 0 ? 260 : 90, o);
      });
    }
  }
  mc::add("unknown", [=]() {
    for (int id : { -1, 1, 30000, 1301, 611, 99, 1002 }) {
      bool thrown = false;
      try { factory({ { "algorithm", mc::str(id) } }, 4); } catch (const std::runtime_error&) { thrown = true; }
      MC_CHECK(thrown, "unknown", "algorithm " << id << " is accepted");
      thrown = false;
      try { from_command_line({ { "function", mc::str(id + 2000) } }); } catch (const std::runtime_error&) { thrown = true; }
      MC_CHECK(thrown, "unknown", "function " << id + 2000 << " is accepted");
    }
    for (auto k : { "neighborhood", "neighborhood_iterator" }) for (int id : { 100, 150 }) if ((id == 100) == (k[12] == 0)) {
      bool thrown = false;
      try { factory({ { "algorithm", mc::str(id) }, { k, "9" } }, 4); } catch (const std::runtime_error&) { thrown = true; }
      MC_CHECK(thrown, "unknown", k << " 9 is accepted");
    }
  });
  mc::add("listing", listing);
  // functions by number
  struct Fn { int id; std::vector<Args> a; std::function<F::Function *(const Ask&)> ref; };
  auto N = [](const Ask& o) { return o.i("bv_size"); };
  std::vector<Args> sizes = { { { "bv_size", "1" } }, { { "bv_size", "7" } }, { { "bv_size", "8" } }, { { "bv_size", "10" } }, {} };
  std::vector<Args> thr = { { { "bv_size", "8" }, { "fn_threshold", "3" } }, { { "bv_size", "9" }, { "fn_threshold", "2" } }, { { "bv_size", "70" } } };
  std::vector<Fn> fns = {
    { 0, sizes, [=](const Ask& o) { return new F::OneMax(N(o)); } },
    { 5, { { { "bv_size", "1" } }, { { "bv_size", "9" } }, { { "bv_size", "12" } } }, [=](const Ask& o) { auto f = new F::LinearFunction; std::vector<double> w; int k = 0; f->generate(N(o), [&k]() { return std::ldexp(1, k++); }); return f; } },
    { 10, sizes, [=](const Ask& o) { return new F::LeadingOnes(N(o)); } },
    { 11, sizes, [=](const Ask& o) { return new F::Ridge(N(o)); } },
    { 20, sizes, [=](const Ask& o) { return new F::Needle(N(o)); } },
    { 30, thr, [=](const Ask& o) { return new F::Jump(N(o), o.i("fn_threshold")); } },
    { 31, thr, [=](const Ask& o) { return new F::DeceptiveJump(N(o), o.i("fn_threshold")); } },
    { 40, thr, [=](const Ask& o) { return new F::FourPeaks(N(o), o.i("fn_threshold")); } },
    { 41, thr, [=](const Ask& o) { return new F::SixPeaks(N(o), o.i("fn_threshold")); } },
    { 80, sizes, [=](const Ask& o) { return new F::Labs(N(o)); } },
    { 81, sizes, [=](const Ask& o) { auto f = new F::Labs(N(o)); f->set_merit_factor_flag(true); return f; } },
    { 100, { { { "bv_size", "18" } }, { { "bv_size", "9" } }, { { "bv_size", "27" } } }, [=](const Ask& o) { return new F::SummationCancellation(N(o)); } },
    { 101, { { { "bv_size", "18" } }, { { "bv_size", "9" } }, { { "bv_size", "27" } } }, [=](const Ask& o) { return new F::SinusSummationCancellation(N(o)); } },
    { 110, { { { "bv_size", "9" }, { "fn_num_traps", "3" } }, { { "bv_size", "8" }, { "fn_num_traps", "2" } }, { { "bv_size", "30" } } }, [=](const Ask& o) { return new F::Trap(N(o), o.i("fn_num_traps")); } },
    { 120, { { { "bv_size", "8" } }, { { "bv_size", "2" } }, { { "bv_size", "64" } } }, [=](const Ask& o) { return new F::Hiff(N(o)); } },
    { 130, sizes, [=](const Ask& o) { return new F::Plateau(N(o)); } },
    { 140, { { { "bv_size", "8" } }, { { "bv_size", "9" }, { "fn_prefix_length", "3" } }, { { "bv_size", "8" }, { "fn_prefix_length", "4" } } }, [=](const Ask& o) { return new F::LongPath(N(o), o.i("fn_prefix_length")); } },
  };
  for (auto& f : fns) mc::add("function-" + mc::str(f.id), [f]() { for (auto& a : f.a) plain_function(f.id, a, f.ref); });
  mc::add("loaded", []() {
    loaded_function<F::LinearFunction>(1, [](F::LinearFunction& f, int v) { f.generate(4 + v, gen(v)); }, 3);
    loaded_function<F::NkLandscape>(60, [](F::NkLandscape& f, int v) { f.generate(5 + v, 1 + v % 2, gen(v)); }, 3);
    loaded_function<F::MaxSat>(70, [](F::MaxSat& f, int v) { f.random(6, 2 + v % 2, 9); }, 3);
    loaded_function<F::MaxSat>(71, [](F::MaxSat& f, int v) { f.random(6, 3, 9); }, 0);
    loaded_function<F::EqualProducts>(90, [](F::EqualProducts& f, int v) { f.generate(5 + v, gen(v)); }, 3);
    loaded_function<F::Partition>(91, [](F::Partition& f, int v) { int k = v; f.generate(5 + v, [&k]() { return ++k * 3; }); }, 3);
    loaded_function<F::WalshExpansion>(160, [](F::WalshExpansion& f, int v) { f.generate(6, 5 + v, gen(v)); }, 3);
    loaded_function<F::WalshExpansion1>(161, [](F::WalshExpansion1& f, int v) { f.generate(5 + v, gen(v)); }, 3);
    loaded_function<F::WalshExpansion2>(162, [](F::WalshExpansion2& f, int v) { f.generate(5 + v, gen(v), gen(v + 5)); }, 3);
    loaded_function<F::NearestNeighborIsingModel1>(171, [](F::NearestNeighborIsingModel1& f, int v) { f.generate(5 + v, gen(v), gen(v + 5)); f.set_periodic_boundary_conditions(v % 2); }, 3);
    loaded_function<F::NearestNeighborIsingModel2>(172, [](F::NearestNeighborIsingModel2& f, int v) { f.generate(2 + v, 3, gen(v), gen(v + 5)); f.set_periodic_boundary_conditions(v % 2); }, 3);
  });
  mc::add("loaded-text", []() {
    std::string p = path_of("t");
    auto both = [&](int id, const std::string& content, F::Function *g, const Args& more = {}) {
      spill(p, content);
      Args a = more; a["function"] = mc::str(id); a["path"] = p;
      std::unique_ptr<F::Function> f(from_command_line(a)), keep(g);
      same_function(f.get(), g, text(a) + " on " + content);
    };
    spill(p, "p cnf 4 3\n1 -2 3 0\n-1 2 4 0\n-3 -4 2 0\n");
    { auto g = new F::MaxNae3Sat; g->load(p); both(71, slurp(p), g); }
    spill(p, "p qubo 0 4 4 3\n0 0 3\n1 1 -2\n2 2 1\n3 3 5\n0 1 4\n1 2 -7\n2 3 2\n");
    { auto g = new F::Qubo; g->load(p); both(50, slurp(p), g); }
#ifdef ENABLE_FACTORIZATION
    spill(p, "35\n");
    { auto g = new F::Factorization; g->load(p); both(150, slurp(p), g); }
#endif
    // permutation and categorical functions
    std::string tsp = "NAME : t\nCOMMENT : c\nTYPE : TSP\nDIMENSION : 3\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n1 0 0\n2 3 4\n3 10 1\nEOF\n";
    for (int bits : { 2, 3, 4 }) {
      spill(p, tsp);
      Args a = { { "function", "200" }, { "path", p } }; if (bits != 2) a["rep_num_additional_bits"] = mc::str(bits);
      std::unique_ptr<F::Function> f(from_command_line(a));
      auto t = new F::Tsp; t->load(p);
      F::PermutationFunctionAdapter<F::Tsp> g(t, PermutationRepresentation(t->get_num_elements(), bits));
      MC_CHECK(f->get_bv_size() == g.get_bv_size(), "size", text(a));
      for (auto& x : domain(f->get_bv_size(), 12)) mc::explore(mc::bounds(3), [&]() {
        int from = mc::points(); double u = f->evaluate(x); int to = mc::points();
        mc::Rerun r(from, to); double v = g.evaluate(x);
        MC_CHECK(same(u, v), "value", text(a) << ": f(" << show(x) << ") = " << u << " instead of " << v);
      });
    }
    for (int rep : { 0, 1 }) {
      { mc::Fixed fx(3); F::Sudoku s; s.random(6); s.save(p); }
      Args a = { { "function", "190" }, { "path", p } }; if (rep) a["rep_categorical_representation"] = "1";
      std::unique_ptr<F::Function> f(from_command_line(a));
      auto s = new F::Sudoku; s->load(p);
      using C = F::ScalarToDouble<double>;
      size_t m = size_t(s->get_num_variables());
      std::unique_ptr<F::Function> g(rep ? (F::Function *) new F::MultivariateFunctionAdapter<F::Sudoku, LinearCategoricalRepresentation, C>(s, std::vector<LinearCategoricalRepresentation>(m, LinearCategoricalRepresentation(9)))
                                         : (F::Function *) new F::MultivariateFunctionAdapter<F::Sudoku, IntegerCategoricalRepresentation, C>(s, std::vector<IntegerCategoricalRepresentation>(m, IntegerCategoricalRepresentation(9))));
      same_function(f.get(), g.get(), text(a), 12);
    }
    unlink(p.c_str());
  });
  for (int s : { 500, 510, 520, 530 }) mc::add("parsed-" + mc::str(s), [=]() { parsed_cases(s); });
  // modifiers
  std::vector<Args> maps = { {} };
  for (int m = 1; m <= 6; m++) maps.push_back({ { "map", mc::str(m) }, { "map_random", "" }, { "map_input_size", m == 4 || m == 5 ? "6" : "4" }, { "map_ts_length", "3" } });
  for (int m = 4; m <= 5; m++) { maps.push_back({ { "map", mc::str(m) }, { "map_random", "" }, { "map_surjective", "" }, { "map_input_size", "5" } }); maps.push_back({ { "map", mc::str(m) }, { "map_random", "" }, { "map_input_size", "3" } }); }
  for (int t = 1; t <= 5; t++) maps.push_back({ { "map", "6" }, { "map_random", "" }, { "map_input_size", "4" }, { "map_ts_length", "2" }, { "map_ts_sampling_mode", mc::str(t) } });
  for (int m = 1; m <= 6; m++) maps.push_back({ { "map", mc::str(m) }, { "map_path", "" } });
  std::vector<Args> noises = { {}, { { "prior_noise", "" } } };
  for (auto k : { "1", "2", "3" }) noises.push_back({ { "prior_noise", "" }, { "pn_neighborhood", k } });
  noises.push_back({ { "prior_noise", "" }, { "pn_neighborhood", "1" }, { "pn_mutation_rate", "0.6" }, { "pn_allow_no_mutation", "" } });
  noises.push_back({ { "prior_noise", "" }, { "pn_neighborhood", "2" }, { "pn_radius", "3" } });
  noises.push_back({ { "prior_noise", "" }, { "pn_neighborhood", "3" }, { "pn_radius", "1" } });
  int index = 0;
  for (auto& m : maps) for (auto& z : noises) {
    int k = index++;
    mc::add("modifiers-" + mc::str(k), [=]() {
      std::string p = path_of("map");
      for (int rest = 0; rest < 16; rest++) {
        Args a = { { "function", "10" }, { "bv_size", "4" } };
        for (auto& x : m) a[x.first] = x.second;
        for (auto& x : z) a[x.first] = x.second;
        if (a.count("map_path")) {
          mc::Fixed fx(k + 1); a["map_path"] = p;
          std::ofstream s(p); boost::archive::text_oarchive ar(s);
          switch (a["map"][0]) {
          case '1': { map::Translation t; t.random(4); ar << t; break; }
          case '2': { map::Permutation t; t.random(4); ar << t; break; }
          case '3': { map::Permutation t; t.random(4); map::Translation u; u.random(4); ar << t << u; break; }
          case '4': { map::LinearMap t; t.random(4, 5, false); ar << t; break; }
          case '5': { map::AffineMap t; t.random(4, 3, false); ar << t; break; }
          case '6': { map::TsAffineMap t; t.random(4, 3, map::TsAffineMap::SamplingMode::unconstrained); ar << t; break; }
          }
        }
        if (rest & 1) { a["parsed_modifier"] = ""; a["expression"] = "x * x - 3 * x"; }
        if (rest & 2) a["minimize"] = "";
        if (rest & 4) { a["additive_gaussian_noise"] = ""; if (rest & 8) a["noise_stddev"] = "2.5"; }
        else if (rest & 8) continue;
        std::vector<bit_vector_t> xs;
        for (int n = 3; n <= 6; n++) for (uint64_t u : { 0, 3, 15, 7, 11, 5 }) xs.push_back(bv(u, n));
        mc::Opt o = mc::bounds(T ? 4 : 1, 0, T ? 8 : 2);
        o.levels = { 0.05, 0.3, 0.55, 0.8, 0.97 };
        decorated(a, xs, o);
      }
      unlink(p.c_str());
    });
  }
  // controllers
  for (int b = -1; b <= 4; b++) for (int k = 0; k < 24; k++) {
    Args a;
    if (b >= 0) a["budget"] = mc::str(b);
    if (k & 1) a["cache"] = "";
    if (k & 2) a["cache_budget"] = "";
    if (k & 4) a["minimize"] = "";
    switch (k / 8) { case 1: a["stop_on_maximum"] = ""; break; case 2: a["target"] = (k & 4) ? "-1" : "1"; break; }
    mc::add("controllers/" + mc::str(b) + "," + mc::str(k), [=]() { controlled(a, T ? 7 : 5); });
  }
  // multiobjective
  std::vector<Args> mo = { { { "num_iterations", "5" } }, { { "ea_mu", "4" }, { "num_iterations", "5" } } };
  for (auto v : std::vector<Args>{ { { "ea_mu", "6" } }, { { "num_iterations", "3" } }, { { "ea_tournament_size", "3" } }, { { "ea_crossover_probability", "0.3" } }, { { "ea_mutation_rate", "0.4" } }, { { "ea_allow_no_mutation", "" } } }) { Args a = mo[1]; for (auto& p : v) a[p.first] = p.second; mo.push_back(a); }
  mo.push_back({ { "ea_mu", "4" } });
  for (size_t k = 0; k < mo.size(); k++) mc::add("nsga2-" + mc::str(k), [=]() { mc::Opt o = mc::bounds(T ? 5 : 3, 0, T ? 12 : 6); o.levels = { 0.03, 0.17, 0.31, 0.44, 0.56, 0.69, 0.83, 0.97 }; nsga2(mo[k], o); });
}
