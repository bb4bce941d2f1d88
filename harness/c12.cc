// C12: local search algorithms follow their rule at every step.
#include "algs.hh"
#include "hnco/algorithms/human.hh"
using namespace hnco::algorithm;
using namespace hnco::neighborhood;
using namespace vp;

namespace {

struct Nb { std::string name; std::function<Neighborhood*(Alg&, int)> make; std::function<bool(int, int)> legal; };

std::vector<Nb> neighborhoods() {
  return {
    { "flip", [](Alg& a, int n) -> Neighborhood* { return a.own<SingleBitFlip>(n); }, [](int d, int) { return d == 1; } },
    { "ball2", [](Alg& a, int n) -> Neighborhood* { return a.own<HammingBall>(n, 2); }, [](int d, int) { return d >= 1 && d <= 2; } },
    { "sphere2", [](Alg& a, int n) -> Neighborhood* { return a.own<HammingSphere>(n, 2); }, [](int d, int) { return d == 2; } },
    { "mutation", [](Alg& a, int n) -> Neighborhood* { return a.own<StandardBitMutation>(n); }, [](int d, int) { return d >= 1; } },
    { "mutation0", [](Alg& a, int n) -> Neighborhood* { auto p = a.own<StandardBitMutation>(n); p->set_allow_no_mutation(true); return p; }, [](int, int) { return true; } },
  };
}

struct Run { Probe probe; solution_t sol; bool interrupted = false; std::string log; Run(int n, const Land& l): probe(n, l.f) {} };

void go(Alg& a, Run& r) {
  Capture c;
  try { a.a->maximize({ &r.probe }); }
  catch (hnco::exception::LastEvaluation&) { r.interrupted = true; }
  a.a->finalize();
  r.sol = a.a->get_solution();
  r.log = c.s.str();
  mc::Hash h; for (auto& e : r.probe.trace) h.addv(e.x); mc::state(h);
}

std::string tr(const Run& r) {
  std::ostringstream s; s.precision(10);
  for (auto& e : r.probe.trace) s << show(e.x) << (e.kind == 'i' ? "~" : "=") << e.v << " ";
  s << "solution " << show(r.sol.first) << "=" << r.sol.second;
  return s.str();
}

void check_solution(const Run& r, const bit_vector_t& x, double v) {
  MC_CHECK(r.sol.first == x && r.sol.second == v, "solution", "expected " << show(x) << "=" << v << " in " << tr(r));
}

struct Par {
  int n, iters, patience = 0;
  bool strict = false, start = false, incremental = false;
  bit_vector_t origin;
  long limit = -1;
};

/// Random local search
void rls_rule(const Run& r, const Par& p, const Nb& nb) {
  auto& t = r.probe.trace;
  if (t.empty()) { MC_CHECK(r.interrupted && p.limit == 0, "evaluations", "no evaluation"); return; }
  MC_CHECK(!p.start || t[0].x == p.origin, "start", "starting point " << show(p.origin) << " not used: " << tr(r));
  bit_vector_t cur = t[0].x; double val = t[0].v; int fails = 0;
  size_t k = 1; bool done = false;
  for (; k < t.size(); k++) {
    MC_CHECK(!done, "patience", "the search goes on after " << p.patience << " rejections: " << tr(r));
    MC_CHECK(nb.legal(dist(t[k].x, cur), p.n), "move", "step " << k << " from " << show(cur) << ": " << tr(r));
    MC_CHECK(t[k].kind == (p.incremental ? 'i' : 'e'), "kind", "step " << k << " evaluated with " << t[k].kind);
    bool acc = p.strict ? t[k].v > val : t[k].v >= val;
    if (acc) { cur = t[k].x; val = t[k].v; fails = 0; } else fails++;
    if (p.patience > 0 && fails == p.patience) done = true;
  }
  if (r.interrupted) MC_CHECK(!done && long(t.size()) == p.limit, "interruption", tr(r));
  else MC_CHECK(done || int(t.size()) == 1 + p.iters, "iterations", "search ends early or late: " << tr(r));
  MC_CHECK(int(t.size()) <= 1 + p.iters, "iterations", "too many evaluations: " << tr(r));
  check_solution(r, cur, val);
}

/// Random walk
void walk_rule(const Run& r, const Par& p, const Nb& nb) {
  auto& t = r.probe.trace;
  if (t.empty()) { MC_CHECK(r.interrupted && p.limit == 0, "evaluations", "no evaluation"); return; }
  MC_CHECK(!p.start || t[0].x == p.origin, "start", "starting point " << show(p.origin) << " not used: " << tr(r));
  bit_vector_t cur = t[0].x; size_t best = 0;
  for (size_t k = 1; k < t.size(); k++) {
    MC_CHECK(nb.legal(dist(t[k].x, cur), p.n), "move", "step " << k << " from " << show(cur) << ": " << tr(r));
    MC_CHECK(t[k].kind == (p.incremental ? 'i' : 'e'), "kind", "step " << k << " evaluated with " << t[k].kind);
    cur = t[k].x;
    if (t[k].v > t[best].v) best = k;
  }
  if (!r.interrupted) MC_CHECK(int(t.size()) == 1 + p.iters, "iterations", tr(r));
  else MC_CHECK(long(t.size()) == p.limit, "interruption", tr(r));
  MC_CHECK(r.sol.second == t[best].v, "solution", tr(r));
  bool known = false;
  for (auto& e : t) known |= e.x == r.sol.first && e.v == r.sol.second;
  MC_CHECK(known, "solution", tr(r));
  // logged values
  std::ostringstream want;
  for (size_t k = 1; k < t.size(); k++) want << t[k].v << " \n";
  if (!r.interrupted) MC_CHECK(r.log.empty() || r.log == want.str(), "log", "log\n" << r.log << "expected\n" << want.str());
}

/// Simulated annealing with uniform draws all equal to u (single bit flips)
void sa_rule(const Run& r, const Par& p, const Nb& nb, double u, int trials, int transitions, double p0, double ratio) {
  auto& t = r.probe.trace;
  size_t init = size_t(1 + 2 * trials);
  if (t.empty()) { MC_CHECK(r.interrupted && p.limit == 0, "evaluations", "no evaluation"); return; }
  MC_CHECK(!p.start || t[0].x == p.origin, "start", "starting point " << show(p.origin) << " not used: " << tr(r));
  double delta = 0; int count = 0;
  size_t best = 0;
  for (size_t k = 0; k < t.size(); k++) if (t[k].v > t[best].v) best = k;
  for (size_t k = 1; k + 1 < std::min(init, t.size()) + 1 && k + 1 < init + 1 && k + 1 < t.size() + 0 + 1; k += 2) {
    if (k + 1 >= t.size() || k + 1 >= init) break;
    MC_CHECK(nb.legal(dist(t[k].x, t[k + 1].x), p.n), "trial", "trial pair " << (k / 2) << " is not a move: " << tr(r));
    if (t[k + 1].v < t[k].v) { delta += t[k + 1].v - t[k].v; count++; }
  }
  if (!r.interrupted) MC_CHECK(t.size() == init + size_t(p.iters), "iterations", tr(r));
  MC_CHECK(r.sol.second == t[best].v, "solution", "not the best visited: " << tr(r));
  bool known = false;
  for (auto& e : t) known |= e.x == r.sol.first && e.v == r.sol.second;
  MC_CHECK(known, "solution", tr(r));
  if (t.size() <= init) return;
  double beta = count ? std::log(p0) / (delta / count) : NAN;
  // the walk starts from the best trial: any vector with the best value of the trials
  double v0 = t[0].v;
  for (size_t k = 0; k < init; k++) v0 = std::max(v0, t[k].v);
  std::set<bit_vector_t> starts;
  for (size_t k = 0; k < init; k++) if (t[k].v == v0 && nb.legal(dist(t[k].x, t[init].x), p.n)) starts.insert(t[k].x);
  MC_CHECK(!starts.empty(), "walk-start", "the walk does not start from a best trial: " << tr(r));
  bool some = false; std::string why;
  for (auto cur : starts) {
    double val = v0; int trans = 0; double b = beta; bool ok = true;
    for (size_t k = init; ok && k < t.size(); k++) {
      if (!nb.legal(dist(t[k].x, cur), p.n)) { ok = false; why = "step " + mc::str(k) + " is not a move from " + show(cur); break; }
      bool acc;
      if (t[k].v >= val) acc = true;
      else {
        double pr = std::exp((t[k].v - val) * b);
        if (std::isnan(b)) acc = false;      // no worsening seen in the trials: worsening moves are refused
        else {
          const double arg = (t[k].v - val) * b;
          if (u > 0 ? std::fabs(pr - u) < 1e-12 : arg < -700 && arg > -800) return;  // undecidable by rounding
          acc = u < pr;
        }
        if (acc) trans++;
      }
      if (acc) { cur = t[k].x; val = t[k].v; }
      if (trans == transitions) { trans = 0; b *= ratio; }
    }
    some |= ok;
  }
  MC_CHECK(some, "acceptance", "u=" << u << " " << why << ": " << tr(r));
}

/// First ascent hill climbing
void fahc_rule(const Run& r, const Par& p, const std::function<bool(int)>& legal, int size) {
  auto& t = r.probe.trace;
  if (t.empty()) { MC_CHECK(r.interrupted && p.limit == 0, "evaluations", "no evaluation"); return; }
  MC_CHECK(!p.start || t[0].x == p.origin, "start", "starting point " << show(p.origin) << " not used: " << tr(r));
  bit_vector_t cur = t[0].x; double val = t[0].v; std::set<bit_vector_t> seen; int moves = 0; bool done = false;
  for (size_t k = 1; k < t.size(); k++) {
    MC_CHECK(!done, "end", "the search goes on after a local maximum: " << tr(r));
    MC_CHECK(p.iters <= 0 || moves < p.iters, "iterations", "too many iterations: " << tr(r));
    MC_CHECK(legal(dist(t[k].x, cur)), "move", "step " << k << " from " << show(cur) << ": " << tr(r));
    MC_CHECK(seen.insert(t[k].x).second, "repeat", "neighbor " << show(t[k].x) << " of " << show(cur) << " evaluated twice: " << tr(r));
    if (t[k].v > val) { cur = t[k].x; val = t[k].v; seen.clear(); moves++; }
    else if (int(seen.size()) == size) done = true;
  }
  if (!r.interrupted) MC_CHECK(done || (p.iters > 0 && moves == p.iters), "end", "the search stops before a local maximum: " << tr(r));
  check_solution(r, cur, val);
}

/// Steepest ascent hill climbing
void sahc_rule(const Run& r, const Par& p, const std::function<bool(int)>& legal, int size) {
  auto& t = r.probe.trace;
  if (t.empty()) { MC_CHECK(r.interrupted && p.limit == 0, "evaluations", "no evaluation"); return; }
  MC_CHECK(!p.start || t[0].x == p.origin, "start", "starting point " << show(p.origin) << " not used: " << tr(r));
  std::set<bit_vector_t> cur = { t[0].x }; double val = t[0].v; bool done = false; int moves = 0;
  size_t k = 1;
  while (k < t.size()) {
    MC_CHECK(!done, "end", "the search goes on after a local maximum: " << tr(r));
    MC_CHECK(p.iters <= 0 || moves < p.iters, "iterations", "too many iterations: " << tr(r));
    size_t stop = std::min(t.size(), k + size_t(size));
    std::set<bit_vector_t> seen; double best = -INFINITY;
    for (size_t i = k; i < stop; i++) {
      MC_CHECK(seen.insert(t[i].x).second, "repeat", "neighbor " << show(t[i].x) << " evaluated twice: " << tr(r));
      best = std::max(best, t[i].v);
    }
    std::set<bit_vector_t> ok;
    for (auto& c : cur) { bool all = true; for (auto& y : seen) all &= legal(dist(c, y)); if (all) ok.insert(c); }
    MC_CHECK(!ok.empty(), "move", "evaluations " << k << ".." << stop << " are not neighbors of a best neighbor: " << tr(r));
    cur = ok;
    if (stop - k < size_t(size)) { MC_CHECK(r.interrupted, "end", "partial scan: " << tr(r)); k = stop; break; }
    moves++;
    if (best > val) { cur.clear(); for (size_t i = k; i < stop; i++) if (t[i].v == best) cur.insert(t[i].x); val = best; }
    else done = true;
    k = stop;
  }
  if (!r.interrupted) MC_CHECK(done || (p.iters > 0 && moves == p.iters), "end", "the search stops before a local maximum: " << tr(r));
  MC_CHECK(r.sol.second == val && cur.count(r.sol.first), "solution", tr(r));
}

long binom(int n, int k) { long r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }

/// Run once, then again on the same object with another landscape
void twice(const std::function<Alg()>& make, const std::function<void(Alg&)>& again, int n, const Land& l1, const Land& l2, bool incremental, long limit,
           const std::function<void(const Run&)>& rule) {
  Alg a = make();
  {
    Run r(n, l1); r.probe.incremental = incremental; r.probe.limit = limit;
    go(a, r);
    rule(r);
  }
  if (again) again(a);
  {
    Run r(n, l2); r.probe.incremental = incremental; r.probe.limit = limit;
    go(a, r);
    rule(r);
  }
}

} // namespace

/// Swallows the standard output; a dialogue which does not end is a failure
struct Chatter: std::streambuf {
  long n = 0;
  std::streambuf *old;
  Chatter() { old = std::cout.rdbuf(this); std::cout.exceptions(std::ios::badbit); }
  ~Chatter() { std::cout.exceptions(std::ios::goodbit); std::cout.rdbuf(old); }
  void count(long k) { if ((n += k) > 20000) { n = 0; mc::fail("human-end", "the dialogue does not end"); } }
  int overflow(int c) override { count(1); return c; }
  std::streamsize xsputn(const char *, std::streamsize k) override { count(k); return k; }
};

void mc_register() {
  const bool th = mc::thorough();
  auto orders = all_orders2();
  // Random local search and random walk over all landscapes of 2 bits
  for (auto& nb : neighborhoods())
    for (int mode = 0; mode < 8; mode++) {
      bool strict = mode & 1, start = mode & 2, inc = mode & 4;
      mc::add("rls " + nb.name + " mode " + mc::str(mode), [=]() {
        for (size_t li = 0; li < orders.size(); li++)
          for (int iters : { 1, 3 })
            for (int pat : { 0, 1, 2 }) {
              if (!th && li % 5 && iters == 3 && pat == 1) continue;
              Par p; p.n = 2; p.iters = iters; p.patience = pat; p.strict = strict; p.start = start; p.incremental = inc; p.origin = bv(li & 3, 2);
              mc::explore(mc::bounds(iters == 3 ? 5 : 8, 1), [&]() {
                twice([&]() {
                    Alg a; auto *q = a.make<RandomLocalSearch>(2, nb.make(a, 2));
                    q->set_num_iterations(p.iters); q->set_patience(p.patience); q->set_incremental_evaluation(p.incremental);
                    if (p.strict) q->set_compare(std::greater<double>());
                    if (p.start) { q->set_random_initialization(false); q->set_starting_point(p.origin); }
                    return a;
                  }, nullptr, 2, orders[li], orders[(li * 7 + 3) % orders.size()], inc, -1,
                  [&](const Run& r) { rls_rule(r, p, nb); });
              });
            }
      });
      if (!strict)
        mc::add("walk " + nb.name + " mode " + mc::str(mode), [=]() {
          for (size_t li = 0; li < orders.size(); li++)
            for (int iters : { 1, 3 }) {
              Par p; p.n = 2; p.iters = iters; p.start = start; p.incremental = inc; p.origin = bv(li & 3, 2);
              mc::explore(mc::bounds(iters == 3 ? 5 : 8, 1), [&]() {
                twice([&]() {
                    Alg a; auto *q = a.make<RandomWalk>(2, nb.make(a, 2));
                    q->set_num_iterations(p.iters); q->set_incremental_evaluation(p.incremental); q->set_log_value();
                    if (p.start) { q->set_random_initialization(false); q->set_starting_point(p.origin); }
                    return a;
                  }, nullptr, 2, orders[li], orders[(li * 7 + 3) % orders.size()], inc, -1,
                  [&](const Run& r) { walk_rule(r, p, nb); });
              });
            }
        });
    }
  // Longer runs, more bits, interrupted at every point
  for (int n : { 1, 3, 4, 6 })
    for (auto& nb : neighborhoods()) {
      if (nb.name.back() == '2' && n < 2) continue;
      mc::add("long " + nb.name + " n" + mc::str(n), [=]() {
        for (auto& l : lands(n))
          for (int inc = 0; inc < 2; inc++)
            for (int pat : { 0, 3 })
              for (long limit : { -1L, 0L, 1L, 2L, 5L, 9L }) {
                Par p; p.n = n; p.iters = th ? 14 : 9; p.patience = pat; p.incremental = inc; p.limit = limit;
                mc::explore(mc::bounds(th ? 6 : 4, 1, 3), [&]() {
                  twice([&]() {
                      Alg a; auto *q = a.make<RandomLocalSearch>(n, nb.make(a, n));
                      q->set_num_iterations(p.iters); q->set_patience(p.patience); q->set_incremental_evaluation(p.incremental);
                      return a;
                    }, nullptr, n, l, l, inc, limit, [&](const Run& r) { rls_rule(r, p, nb); });
                });
                if (pat) continue;
                mc::explore(mc::bounds(th ? 6 : 4, 1, 3), [&]() {
                  twice([&]() {
                      Alg a; auto *q = a.make<RandomWalk>(n, nb.make(a, n));
                      q->set_num_iterations(p.iters); q->set_incremental_evaluation(p.incremental);
                      return a;
                    }, nullptr, n, l, l, inc, limit, [&](const Run& r) { walk_rule(r, p, nb); });
                });
              }
      });
    }
  // Simulated annealing: single flips make the acceptance visible
  for (int n : { 2, 3 })
    for (int u10 : { 0, 1, 3, 5, 7, 9 })
      for (int trials : { 1, 2, 3 })
        mc::add("annealing n" + mc::str(n) + " u" + mc::str(u10) + " trials " + mc::str(trials), [=]() {
          auto nb = neighborhoods()[0];
          std::vector<Land> ls = lands(n);
          if (n == 2) for (size_t i = 0; i < orders.size(); i += th ? 1 : 9) ls.push_back(orders[i]);
          for (auto& l : ls)
            for (int transitions : { 1, 2, 50 })
              for (double ratio : { 1.2, 3.0 })
                for (int start = 0; start < 2; start++)
                  for (long limit : { -1L, 4L }) {
                    if (limit > 0 && (transitions != 2 || start)) continue;
                    if (transitions == 50 && ratio == 3.0) continue;
                    Par p; p.n = n; p.iters = 6; p.start = start; p.origin = bv(2, n); p.limit = limit;
                    double u = u10 / 10.0;
                    auto o = mc::bounds(4, 1, th ? 4 : 2); o.levels = { u };
                    mc::explore(o, [&]() {
                      twice([&]() {
                          Alg a; auto *q = a.make<SimulatedAnnealing>(n, nb.make(a, n));
                          q->set_num_iterations(p.iters); q->set_num_trials(trials); q->set_num_transitions(transitions);
                          q->set_initial_acceptance_probability(0.6); q->set_beta_ratio(ratio);
                          if (start) { q->set_random_initialization(false); q->set_starting_point(p.origin); }
                          return a;
                        }, nullptr, n, l, l, false, limit,
                        [&](const Run& r) { sa_rule(r, p, nb, u, trials, transitions, 0.6, ratio); });
                    });
                  }
        });
  // long walks, through many cooling steps
  for (int n : { 2, 3, 5 }) for (int u10 : { 0, 1, 5, 9 })
    mc::add("long annealing n" + mc::str(n) + " u" + mc::str(u10), [=]() {
      auto nb = neighborhoods()[0];
      for (auto& l : lands(n)) for (int transitions : { 1, 3 }) for (double ratio : { 1.05, 1.2, 3.0 }) for (int iters : { 40, 300 }) {
        Par p; p.n = n; p.iters = iters; p.start = false; p.origin = bv(2, n);
        double u = u10 / 10.0;
        auto o = mc::bounds(0, 0, th ? 20 : 6); o.levels = { u };
        mc::explore(o, [&]() {
          twice([&]() {
              Alg a; auto *q = a.make<SimulatedAnnealing>(n, nb.make(a, n));
              q->set_num_iterations(p.iters); q->set_num_trials(4); q->set_num_transitions(transitions);
              q->set_initial_acceptance_probability(0.6); q->set_beta_ratio(ratio);
              return a;
            }, nullptr, n, l, l, false, -1, [&](const Run& r) { sa_rule(r, p, nb, u, 4, transitions, 0.6, ratio); });
        });
      }
    });
  for (int n : { 11, 13 })
    mc::add("larger complete search n" + mc::str(n), [=]() {
      for (int top : { 0, 1, (1 << n) - 1, (1 << (n - 1)) + 5, 4097 % (1 << n) }) {
        Land l = lands(n)[0]; l.f = [=](const bit_vector_t& x) { return bits(x) == uint64_t(top) ? 7.0 : 1.0; };
        Alg a; a.make<CompleteSearch>(n); Run r(n, l); go(a, r);
        std::set<bit_vector_t> s; for (auto& e : r.probe.trace) s.insert(e.x);
        MC_CHECK(s.size() == size_t(1) << n && r.probe.trace.size() == s.size(), "complete", s.size() << " vectors in " << r.probe.trace.size() << " evaluations");
        MC_CHECK(r.sol.second == 7 && bits(r.sol.first) == uint64_t(top), "solution", show(r.sol.first));
      }
    });
  // Hill climbing
  for (int n : { 1, 2, 3, 4, 5 })
    for (int rad = 1; rad <= n && rad <= 3; rad++)
      for (int kind = 0; kind < 2; kind++)
        for (int it = 0; it < 2; it++) {
          if (it == 0 && rad > 1) continue;
          mc::add(std::string(kind ? "steepest" : "first") + " ascent n" + mc::str(n) + " r" + mc::str(rad) + (it ? " sphere" : " flip"), [=]() {
            auto ls = lands(n);
            if (n == 2) ls = orders;
            auto legal = [rad](int d) { return d == rad; };
            for (auto& l : ls)
              for (int iters : { 0, 1, 2 })
                for (int start = 0; start < 2; start++)
                  for (long limit : { -1L, 0L, 1L, 3L, 4L, 7L }) {
                    Par p; p.n = n; p.iters = iters; p.start = start; p.origin = bv(5, n); p.limit = limit;
                    mc::explore(mc::bounds(n == 5 ? 6 : 8, 1), [&]() {
                      twice([&]() {
                          Alg a;
                          NeighborhoodIterator *ni = it ? (NeighborhoodIterator*)a.own<HammingSphereIterator>(n, rad) : (NeighborhoodIterator*)a.own<SingleBitFlipIterator>(n);
                          if (kind) { auto *q = a.make<SteepestAscentHillClimbing>(n, ni); q->set_num_iterations(iters);
                            if (start) { q->set_random_initialization(false); q->set_starting_point(p.origin); } }
                          else { auto *q = a.make<FirstAscentHillClimbing>(n, ni); q->set_num_iterations(iters);
                            if (start) { q->set_random_initialization(false); q->set_starting_point(p.origin); } }
                          return a;
                        }, nullptr, n, l, l, false, limit,
                        [&](const Run& r) {
                          if (kind) sahc_rule(r, p, legal, int(binom(n, rad)));
                          else fahc_rule(r, p, legal, int(binom(n, rad)));
                        });
                    });
                  }
          });
        }
  // Complete and random search
  for (int n : { 1, 2, 3, 4, 6 })
    mc::add("complete search n" + mc::str(n), [=]() {
      auto ls = lands(n);
      if (n == 2) ls = orders;
      for (auto& l : ls)
        for (long limit = -1; limit <= (1L << n); limit++) {
          Alg a; a.make<CompleteSearch>(n);
          for (int rep = 0; rep < 2; rep++) {
            Run r(n, l); r.probe.limit = limit; go(a, r);
            auto& t = r.probe.trace;
            std::set<bit_vector_t> s; size_t best = 0;
            for (size_t k = 0; k < t.size(); k++) {
              MC_CHECK(s.insert(t[k].x).second, "repeat", "vector evaluated twice: " << tr(r));
              if (t[k].v > t[best].v) best = k;
            }
            if (limit < 0 || limit >= (1L << n)) MC_CHECK(t.size() == size_t(1) << n && !r.interrupted, "complete", tr(r));
            else MC_CHECK(r.interrupted && long(t.size()) == limit, "interruption", tr(r));
            if (!t.empty()) {
              MC_CHECK(r.sol.second == t[best].v && l.f(r.sol.first) == r.sol.second && s.count(r.sol.first), "solution", tr(r));
            }
          }
        }
    });
  for (int n : { 1, 2, 3 })
    mc::add("random search n" + mc::str(n), [=]() {
      auto ls = lands(n);
      if (n == 2) ls = orders;
      for (auto& l : ls)
        for (int iters : { 1, 2, 3 })
          for (long limit : { -1L, 0L, 1L, 2L }) {
            Par p; p.n = n; p.iters = iters; p.limit = limit;
            Nb any = { "any", nullptr, [](int, int) { return true; } };
            mc::explore(mc::bounds(10, 1), [&]() {
              twice([&]() { Alg a; auto *q = a.make<RandomSearch>(n); q->set_num_iterations(iters); return a; }, nullptr, n, l, l, false, limit,
                    [&](const Run& r) { walk_rule(r, p, any); });
            });
          }
    });
  // Exact law of the sequence of evaluations when every candidate is accepted:
  // independent uniform vectors (random search), uniform start then uniform flips
  for (int kind = 0; kind < 5; kind++)
    mc::add(std::string("law of ") + (const char *[]){ "random search", "rls", "random walk", "strict rls", "hill climbing start" }[kind], [=]() {
      for (int n : { 1, 2, 3 })
        for (int iters : { 1, 2 })
          for (int second = 0; second < 2; second++) {
            if (n == 3 && iters == 2 && kind == 0 && !th) continue;
            Land l = lands(n)[0];
            l.f = [](const bit_vector_t&) { return 1.0; };
            std::map<std::vector<bit_vector_t>, double> d; double total = 0;
            mc::Opt o; o.depth = 24;
            mc::explore(o, [&]() {
              Alg a;
              switch (kind) {
              case 0: { auto *q = a.make<RandomSearch>(n); q->set_num_iterations(iters); break; }
              case 1: case 3: { auto *q = a.make<RandomLocalSearch>(n, a.own<SingleBitFlip>(n)); q->set_num_iterations(iters); q->set_patience(0);
                  if (kind == 3) q->set_compare(std::greater<double>()); else q->set_compare(std::greater_equal<double>()); break; }
              case 2: { auto *q = a.make<RandomWalk>(n, a.own<SingleBitFlip>(n)); q->set_num_iterations(iters); break; }
              default: { auto *q = a.make<SteepestAscentHillClimbing>(n, a.own<SingleBitFlipIterator>(n)); q->set_num_iterations(iters); break; }
              }
              if (second) { mc::Fixed f(7); Run r(n, l); go(a, r); }
              Run r(n, l); go(a, r);
              std::vector<bit_vector_t> t; for (auto& e : r.probe.trace) t.push_back(e.x);
              if (kind == 4) t.resize(1);
              d[t] += mc::prob(); total += mc::prob();
            });
            if (mc::replaying()) continue;
            size_t want = 1; int pts = 1 << n;
            if (kind == 4) want = size_t(pts);
            else { want = size_t(pts); for (int i = 0; i < iters; i++) want *= size_t(kind == 0 ? pts : n); }
            MC_CHECK(std::fabs(total - 1) < 1e-9, "law-mass", "total probability " << total);
            MC_CHECK(d.size() == want, "law-support", d.size() << " sequences of evaluations instead of " << want << " for n = " << n << ", " << iters << " iterations");
            for (auto& p : d) MC_CHECK(std::fabs(p.second - 1.0 / double(want)) < 1e-9, "law", "the sequence starting at " << show(p.first[0]) << " has probability " << p.second << " instead of " << 1.0 / double(want) << " (n = " << n << ", " << iters << " iterations)");
          }
    });
  // Human: what is typed is evaluated, in order; too short lines are asked again,
  // too long ones are shortened; quit and the end of the input end the search
  for (int iters : { 0, 1, 2 }) mc::add("human i" + mc::str(iters), [=]() {
    static const char *const words[] = { "00", "01", "10", "11", "1", "011", "1001", "quit" };
    mc::explore([&]() {
      std::string input;
      std::vector<bit_vector_t> typed;
      bool over = false;
      int len = int(choose(mc::thorough() ? 6 : 5));
      for (int k = 0; k < len; k++) {
        std::string w = words[choose(8)];
        input += w + (choose(2) ? "\n" : " ");
        if (w == "quit") over = true;
        if (!over && w.size() >= 2) { bit_vector_t x(2); for (int i = 0; i < 2; i++) x[i] = w[i] == '1'; typed.push_back(x); }
      }
      if (iters > 0 && int(typed.size()) > iters + 1) typed.resize(size_t(iters) + 1);
      bool ends = iters == 0 || int(typed.size()) < iters + 1;
      auto f = [](const bit_vector_t& x) { return double(mix64(bits(x) * 7 + 3) % 5); };
      Probe p(2, f);
      hnco::algorithm::Human h(2);
      h.set_num_iterations(iters);
      bool last = false;
      std::istringstream in(input);
      auto *old = std::cin.rdbuf(in.rdbuf());
      std::cin.clear();
      { Chatter c;
        try { h.maximize({ &p }); } catch (const exception::LastEvaluation&) { last = true; } catch (...) { std::cin.rdbuf(old); std::cin.clear(); throw; } }
      std::cin.rdbuf(old); std::cin.clear();
      MC_CHECK(p.trace.size() == typed.size(), "human", "on " << input << ": " << p.trace.size() << " evaluations instead of " << typed.size());
      for (size_t k = 0; k < typed.size(); k++) MC_CHECK(p.trace[k].x == typed[k], "human", "on " << input << ": evaluation of " << show(p.trace[k].x) << " instead of " << show(typed[k]));
      MC_CHECK(last == ends, "human-end", "on " << input << " with " << iters << " iterations");
      if (!typed.empty()) {
        double best = -1e9; for (auto& x : typed) best = std::max(best, f(x));
        h.finalize();
        auto s = h.get_solution();
        MC_CHECK(s.second == best && f(s.first) == best, "human-solution", "on " << input << ": " << show(s.first) << " of value " << s.second << " instead of " << best);
      }
      mc::state(mc::Hash().adds(input).add(iters));
    });
  });
}
