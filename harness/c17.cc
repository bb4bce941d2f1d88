// C17: whatever the algorithm, an honest best solution; interruption, restart and reuse.
#include "catalogue.hh"
#include "hnco/algorithms/fast-efficient-p3/all.hh"
#include "hnco/algorithms/gomea/gomea.hh"
using namespace vp;

namespace {

struct Out { Probe probe; solution_t sol; bool interrupted = false; std::string log; Out(int n, const Land& l): probe(n, l.f) {} };

void go(Algorithm *a, Out& r) {
  Capture c;
  try { a->maximize({ &r.probe }); }
  catch (hnco::exception::LastEvaluation&) { r.interrupted = true; }
  a->finalize();
  r.sol = a->get_solution();
  r.log = c.s.str();
  mc::Hash h; for (auto& e : r.probe.trace) h.addv(e.x); mc::state(h);
}

std::string tr(const Out& r) {
  std::ostringstream s; s.precision(17);
  for (size_t i = 0; i < r.probe.trace.size() && i < 60; i++) { auto& e = r.probe.trace[i]; s << show(e.x) << "=" << e.v << " "; }
  s << "solution " << show(r.sol.first) << "=" << r.sol.second;
  return s.str();
}

void honest(const Out& r, const Cat& c, bool restarted = false) {
  auto& t = r.probe.trace;
  MC_CHECK(r.probe.thrown == (r.interrupted ? 1 : 0), "interruption", r.probe.thrown << " refused evaluations, interrupted " << r.interrupted);
  if (int(t.size()) < c.ready) return;
  MC_CHECK(int(r.sol.first.size()) == r.probe.n && valid(r.sol.first), "solution", "not a bit vector of size " << r.probe.n << ": " << tr(r));
  double best = t[0].v; bool seen = false;
  // evaluations of completed steps
  size_t done = t.size();
  if (r.interrupted && c.per != 1) done = c.per == 0 || restarted ? 1 : size_t(c.ready) + (t.size() - size_t(c.ready)) / size_t(c.per) * size_t(c.per);
  for (size_t i = 0; i < t.size(); i++) { if (i < done) best = std::max(best, t[i].v); seen |= t[i].x == r.sol.first; }
  MC_CHECK(seen, "solution", "never evaluated: " << tr(r));
  MC_CHECK(r.sol.second == r.probe.f(r.sol.first), "value", "the value of the solution is " << r.probe.f(r.sol.first) << ": " << tr(r));
  if (c.best) MC_CHECK(r.sol.second >= best, "best", "a better vector was evaluated (" << best << "): " << tr(r));
}

void equal(const Out& a, const Out& b, const char *what) {
  MC_CHECK(a.probe.trace == b.probe.trace, what, "evaluations differ: fresh " << tr(a) << " / reused " << tr(b));
  MC_CHECK(a.interrupted == b.interrupted, what, "ends differ");
  MC_CHECK(a.sol.first == b.sol.first && same(a.sol.second, b.sol.second), what, "solutions differ: fresh " << tr(a) << " / reused " << tr(b));
  MC_CHECK(a.log == b.log, what, "logs differ");
}

std::vector<Land> some(int n) {
  std::vector<Land> r;
  for (auto& l : lands(n)) r.push_back(l);
  r.push_back({ "huge", [](const bit_vector_t& x) { return -5e9 + double(bits(x) ^ 5); } });                 // beyond the precision of float and the range of int
  r.push_back({ "tiny", [](const bit_vector_t& x) { return 1 + 1e-12 * double(bits(x) ^ 2); } });
  r.push_back({ "infinite", [](const bit_vector_t& x) { return weight(x) == 0 ? -std::numeric_limits<double>::infinity() : -1e300 / double(bits(x)); } });
  return r;
}

struct Bound { int n, iters, depth, dev, policies; std::vector<long> limits; };

void check(const Cat& c, const Bound& b) {
  for (auto& l : some(b.n))
    for (long limit : b.limits) {
      // first use, then reuse of the object with the same draws on the same function
      mc::explore(mc::bounds(b.depth, b.dev, b.policies), [&]() {
        Alg a, d; c.make(a, b.n, b.iters); c.make(d, b.n, b.iters);
        Out x(b.n, l); x.probe.limit = limit;
        int from = mc::points(); double w0 = mc::log_weight();
        go(a.a.get(), x);
        int to = mc::points(); double w1 = mc::log_weight();
        honest(x, c);
        // an object with a past: another function, completed or interrupted
        auto& other = some(b.n)[l.name == "hash" ? 7 : 6];
        { mc::Fixed f(to % 7); Out y(b.n, other); y.probe.limit = limit % 3 == 1 ? limit + 2 : 60; go(d.a.get(), y); honest(y, c); }
        Out z(b.n, l); z.probe.limit = limit;
        double w2 = mc::log_weight();
        { mc::Rerun rr(from, to); go(d.a.get(), z);
          double w3 = mc::log_weight();
          honest(z, c);
          // ties are broken arbitrarily
          bool ties = c.name == "ga";   // the tournaments keep a permutation, with the same distribution
          { std::set<double> vs; for (unsigned i = 0; i < (1u << b.n); i++) ties |= !vs.insert(l.f(bv(i, b.n))).second; }
          if (int(x.probe.trace.size()) >= c.ready && !ties) equal(x, z, "reuse");
          MC_CHECK(rr.faithful() || ties || int(x.probe.trace.size()) < c.ready, "reuse", "draws differ: fresh " << tr(x) << " / reused " << tr(z));
          // the same draws with the same probabilities
          if (rr.faithful() && !ties && int(x.probe.trace.size()) >= c.ready) MC_CHECK(std::fabs((w1 - w0) - (w3 - w2)) < 1e-6, "reuse", "the same draws have log probability " << w1 - w0 << " in a fresh object and " << w3 - w2 << " in a reused one: " << tr(x)); }
      });
    }
}

void restart(const Cat& c, const Bound& b) {
  for (auto& l : some(b.n))
    for (int runs : { 0, 1, 3 })
      for (long limit : b.limits) {
        if (runs == 0 && limit < 0) continue;
        mc::explore(mc::bounds(b.depth, b.dev, 1), [&]() {
          Alg a; c.make(a, b.n, b.iters);
          Restart r(a.a.get()); r.set_num_iterations(runs);
          for (int use = 0; use < 2; use++) {
            Out x(b.n, l); x.probe.limit = limit;
            go(&r, x);
            if (limit < 0) MC_CHECK(!x.interrupted, "restart", "interrupted");
            if (runs == 0) MC_CHECK(x.interrupted && x.probe.count == limit, "restart", "an indefinite restart stops after " << x.probe.count << " evaluations");
            honest(x, c, true);
          }
        });
      }
}

/// Many runs
void many_restarts(const Cat& c, int n) {
  for (auto& l : some(n))
    for (int runs : { 9, 33, 0 })
      mc::explore(mc::bounds(0, 0, 3), [&]() {
        Alg a; c.make(a, n, 2);
        Restart r(a.a.get()); r.set_num_iterations(runs);
        Out x(n, l); x.probe.limit = runs ? -1 : 150;
        go(&r, x);
        MC_CHECK(x.interrupted == (runs == 0), "restart", runs << " runs, interrupted " << x.interrupted);
        honest(x, c, true);
      });
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  for (auto& c : catalogue()) {
    Cat k = c;
    int n = k.name == "two-rate" ? 8 : 3;
    if (k.name == "complete-search") k.draws = false;
    // one case per evaluation count at which the budget ends
    for (long limit = -1; limit <= (th ? 20 : 12); limit++) {
      if (limit == 0) continue;
      mc::add(c.name + " limit " + mc::str(limit), [=]() { check(k, { n, 4, th ? 4 : 2, 1, th ? 3 : 2, { limit } }); });
    }
    if (!th) continue;
    mc::add(c.name + " deep", [=]() { check(k, { n == 8 ? 8 : 2, 2, 6, 2, 1, { -1, 5 } }); });
  }
  for (auto& c : catalogue()) {
    Cat k = c; int n = k.name == "two-rate" ? 8 : 3;
    mc::add("many restarts " + c.name, [=]() { many_restarts(k, n); });
    mc::add("restart " + c.name, [=]() { std::vector<long> ls; for (long i = k.ready; i <= 14; i += th ? 1 : 3) ls.push_back(i); ls.push_back(-1); restart(k, { n, 2, th ? 2 : 0, 1, 1, ls }); });
  }
  using namespace hnco::algorithm::fast_efficient_p3;
  std::vector<Cat> v;
  v.push_back({ "p3", [](Alg& a, int n, int) { a.make<ParameterLessPopulationPyramid>(n); }, 1 });
  v.push_back({ "ltga", [](Alg& a, int n, int) { auto q = a.make<Ltga>(n); q->set_population_size(4); }, 1 });
  v.push_back({ "hboa", [](Alg& a, int n, int) { auto q = a.make<Hboa>(n); q->set_population_size(4); }, 1 });
  v.push_back({ "gomea", [](Alg& a, int n, int) { a.make<hnco::algorithm::gomea::Gomea>(n); }, 1 });
  for (auto& c : v)
    for (long limit = 1; limit <= (th ? 24 : 12); limit++) {
      Cat k = c;
      mc::add(c.name + " limit " + mc::str(limit), [=]() { check(k, { 3, 1, th ? 4 : 2, 1, th ? 3 : 2, { limit } }); });
    }
  for (auto& c : v) { Cat k = c; mc::add("restart " + c.name, [=]() { restart(k, { 3, 1, th ? 2 : 0, 1, 1, { 1, 4, 9, 15 } }); }); }
}
