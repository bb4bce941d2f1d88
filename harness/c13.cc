// C13: evolutionary algorithms follow their rule at every generation.
#include "algs.hh"
#include <map>
using namespace hnco::algorithm;
using namespace hnco::neighborhood;
using namespace vp;

namespace {

using Pop = std::vector<bit_vector_t>;              // sorted multiset
using PopV = std::vector<std::pair<bit_vector_t, double>>;

struct Run { Probe probe; solution_t sol; bool interrupted = false; std::vector<std::vector<std::string>> log; Run(int n, const Land& l): probe(n, l.f) {} };

void go(Alg& a, Run& r) {
  std::string text;
  {
    Capture c;
    try { a.a->maximize({ &r.probe }); }
    catch (hnco::exception::LastEvaluation&) { r.interrupted = true; }
    a.a->finalize();
    text = c.s.str();
  }
  r.sol = a.a->get_solution();
  std::istringstream s(text); std::string line;
  while (std::getline(s, line)) { std::istringstream w(line); std::vector<std::string> v; std::string x; while (w >> x) v.push_back(x); r.log.push_back(v); }
  mc::Hash h; for (auto& e : r.probe.trace) h.addv(e.x); mc::state(h);
}

std::string tr(const Run& r) {
  std::ostringstream s; s.precision(10);
  for (auto& e : r.probe.trace) s << show(e.x) << "=" << e.v << " ";
  s << "solution " << show(r.sol.first) << "=" << r.sol.second;
  return s.str();
}

std::string fmt(double x) { std::ostringstream s; s << x; return s.str(); }

/// The mutation operator seen from outside
struct Mut {
  double rate; bool none;
  bool child(const bit_vector_t& x, const bit_vector_t& y) const {
    int d = dist(x, y), n = int(x.size());
    if (rate >= 1) return d == n;
    if (rate <= 0) return none ? d == 0 : true;
    return none || d >= 1;
  }
};

/// All multisets of size mu made of the best of the pool
std::set<Pop> best_of(const PopV& pool, int mu) {
  PopV s = pool;
  std::stable_sort(s.begin(), s.end(), [](auto& a, auto& b) { return a.second > b.second; });
  double cut = s[size_t(mu - 1)].second;
  Pop sure, maybe;
  for (auto& q : s) if (q.second > cut) sure.push_back(q.first); else if (q.second == cut) maybe.push_back(q.first);
  size_t k = size_t(mu) - sure.size();
  std::set<Pop> r;
  std::vector<bool> pick(maybe.size(), false);
  std::fill(pick.begin(), pick.begin() + long(k), true);
  do {
    Pop q = sure;
    for (size_t i = 0; i < maybe.size(); i++) if (pick[i]) q.push_back(maybe[i]);
    std::sort(q.begin(), q.end());
    r.insert(q);
  } while (std::prev_permutation(pick.begin(), pick.end()));
  return r;
}

void check_best(const Run& r, size_t upto) {
  auto& t = r.probe.trace;
  double best = -INFINITY; bool known = false;
  for (size_t i = 0; i < t.size(); i++) { if (i < upto) best = std::max(best, t[i].v); known |= t[i].x == r.sol.first && t[i].v == r.sol.second; }
  MC_CHECK(known, "solution", "the solution was not evaluated: " << tr(r));
  MC_CHECK(r.sol.second >= best, "best", "the solution is not the best of " << upto << " evaluations: " << tr(r));
  for (auto& e : t) if (e.x == r.sol.first) MC_CHECK(e.v == r.sol.second, "solution", tr(r));
}

struct Par { int n, mu, lambda, iters; Mut m; bool plus; long limit = -1; };

void mu_lambda_rule(const Run& r, const Par& p) {
  auto& t = r.probe.trace;
  size_t init = size_t(p.plus ? p.mu : 1);
  size_t total = init + size_t(p.lambda) * size_t(p.iters);
  if (r.interrupted) MC_CHECK(long(t.size()) == p.limit, "interruption", tr(r));
  else MC_CHECK(t.size() == total, "evaluations", t.size() << " instead of " << total << ": " << tr(r));
  if (t.size() < init) return;
  size_t gens = (t.size() - init) / size_t(p.lambda);
  check_best(r, init + gens * size_t(p.lambda));
  auto f = r.probe.f;
  std::set<Pop> states; bool any = !p.plus;
  if (p.plus) { Pop q; for (size_t i = 0; i < init; i++) q.push_back(t[i].x); std::sort(q.begin(), q.end()); states.insert(q); }
  for (size_t g = 0; g * size_t(p.lambda) + init < t.size(); g++) {
    size_t a = init + g * size_t(p.lambda), b = std::min(t.size(), a + size_t(p.lambda));
    if (!any) {
      std::set<Pop> ok;
      for (auto& s : states) {
        bool good = true;
        for (size_t i = a; good && i < b; i++) {
          bool some = false;
          for (auto& x : s) some |= p.m.child(x, t[i].x);
          good = some;
        }
        if (good) ok.insert(s);
      }
      MC_CHECK(!ok.empty(), "offspring", "generation " << g << " does not descend from the selected parents: " << tr(r));
      states = ok;
    }
    if (b - a < size_t(p.lambda)) break;
    std::set<Pop> next;
    auto add = [&](const Pop& parents) {
      PopV pool;
      if (p.plus) for (auto& x : parents) pool.push_back({ x, f(x) });
      for (size_t i = a; i < b; i++) pool.push_back({ t[i].x, t[i].v });
      for (auto& q : best_of(pool, p.mu)) next.insert(q);
    };
    if (any) add({}); else for (auto& s : states) add(s);
    any = false;
    states = next;
  }
}

/// Genetic algorithm
struct GaPar { int n, mu, ts, iters; double pc; Mut m; long limit = -1; };

void ga_rule(const Run& r, const GaPar& p) {
  auto& t = r.probe.trace;
  size_t mu = size_t(p.mu), total = mu * size_t(1 + p.iters);
  if (r.interrupted) MC_CHECK(long(t.size()) == p.limit, "interruption", tr(r));
  else MC_CHECK(t.size() == total, "evaluations", t.size() << " instead of " << total << ": " << tr(r));
  if (t.size() < mu) return;
  check_best(r, t.size() / mu * mu);
  for (size_t g = 1; g * mu < t.size(); g++) {
    PopV par; for (size_t i = (g - 1) * mu; i < g * mu; i++) par.push_back({ t[i].x, t[i].v });
    // an individual can be selected if it can win a tournament of p.ts distinct individuals
    Pop sel;
    for (size_t i = 0; i < mu; i++) {
      int beaten = 0;
      for (size_t j = 0; j < mu; j++) if (j != i && par[j].second <= par[i].second) beaten++;
      if (beaten >= p.ts - 1) sel.push_back(par[i].first);
    }
    for (size_t i = g * mu; i < std::min(t.size(), (g + 1) * mu); i++) {
      bool ok = false;
      if (p.pc < 1) for (auto& x : sel) ok |= p.m.child(x, t[i].x);
      if (p.pc > 0 && !ok)
        for (auto& x : sel) for (auto& y : sel) {
          if (ok) break;
          // all crossovers of x and y
          int d = 0; std::vector<size_t> pos;
          for (size_t k = 0; k < x.size(); k++) if (x[k] != y[k]) { d++; pos.push_back(k); }
          for (int c = 0; c < (1 << d) && !ok; c++) {
            bit_vector_t z = x;
            for (int k = 0; k < d; k++) if (c >> k & 1) z[pos[size_t(k)]] = y[pos[size_t(k)]];
            ok |= p.m.child(z, t[i].x);
          }
        }
      MC_CHECK(ok, "offspring", "evaluation " << i << " is not an offspring of tournament winners: " << tr(r));
    }
  }
}

/// Self-adjusting (1+1) EA
void sa_ea_rule(const Run& r, int n, int iters, bool none, bool inc, double rate, double lo, double hi, double strength, double ratio, long limit) {
  auto& t = r.probe.trace;
  if (t.empty()) { MC_CHECK(r.interrupted && limit == 0, "evaluations", "no evaluation"); return; }
  if (r.interrupted) MC_CHECK(long(t.size()) == limit, "interruption", tr(r));
  else MC_CHECK(int(t.size()) == 1 + iters, "evaluations", tr(r));
  bit_vector_t cur = t[0].x; double val = t[0].v;
  for (size_t k = 1; k < t.size(); k++) {
    MC_CHECK(Mut({ rate, none }).child(cur, t[k].x), "move", "step " << k << " from " << show(cur) << " at rate " << rate << ": " << tr(r));
    MC_CHECK(t[k].kind == (inc ? 'i' : 'e'), "kind", "step " << k);
    if (t[k].v >= val) { cur = t[k].x; val = t[k].v; rate = std::min(rate * std::pow(strength, ratio), hi); }
    else rate = std::max(rate / strength, lo);
    if (k - 1 < r.log.size()) MC_CHECK(r.log[k - 1].size() == 1 && close(atof(r.log[k - 1][0].c_str()), rate, 1e-5), "mutation-rate", "step " << k << ": " << (r.log[k - 1].empty() ? "" : r.log[k - 1][0]) << " instead of " << rate << ": " << tr(r));
    if (k - 1 >= r.log.size()) MC_CHECK(r.interrupted, "log", "missing line " << k);
  }
  MC_CHECK(r.sol.first == cur && r.sol.second == val, "solution", tr(r));
}

/// Two-rate (1+lambda) EA with all uniform draws equal to u
void two_rate_rule(const Run& r, int n, int lambda, int iters, bool none, double rate, double u, long limit) {
  auto& t = r.probe.trace;
  if (t.empty()) return;
  if (r.interrupted) MC_CHECK(long(t.size()) == limit, "interruption", tr(r));
  else MC_CHECK(int(t.size()) == 1 + lambda * iters, "evaluations", tr(r));
  double lo = 2 / double(n), hi = 0.25;
  // current solution: value known, vector one of the best offsprings
  std::set<bit_vector_t> cur = { t[0].x }; double val = t[0].v;
  std::set<double> rates = { rate };
  size_t g = 0;
  for (; 1 + (g + 1) * size_t(lambda) <= t.size(); g++) {
    size_t a = 1 + g * size_t(lambda);
    std::set<bit_vector_t> okc; std::set<double> okr;
    for (auto& c : cur) for (double q : rates) {
      bool ok = true;
      for (size_t i = 0; i < size_t(lambda) && ok; i++) ok = Mut({ i < size_t(lambda / 2) ? q / 2 : q * 2, none }).child(c, t[a + i].x);
      if (ok) { okc.insert(c); okr.insert(q); }
    }
    MC_CHECK(!okc.empty(), "offspring", "generation " << g << " is not made of mutants of the solution: " << tr(r));
    cur = okc; rates = okr;
    double best = -INFINITY; bool low = false, high = false;
    for (size_t i = 0; i < size_t(lambda); i++) best = std::max(best, t[a + i].v);
    for (size_t i = 0; i < size_t(lambda); i++) if (t[a + i].v == best) (i < size_t(lambda / 2) ? low : high) = true;
    if (best > val) { val = best; cur.clear(); for (size_t i = 0; i < size_t(lambda); i++) if (t[a + i].v == best) cur.insert(t[a + i].x); }
    std::set<double> next;
    for (double q : rates) {
      if (u < 0.25) next.insert(std::max(q / 2, lo));
      else if (u < 0.5) next.insert(std::min(q * 2, hi));
      else { if (low) next.insert(std::min(std::max(q / 2, lo), hi)); if (high) next.insert(std::min(std::max(q * 2, lo), hi)); }
    }
    MC_CHECK(g < r.log.size() || r.interrupted, "log", "missing line");
    if (g < r.log.size()) {
      std::set<double> keep;
      for (double q : next) if (r.log[g].size() == 1 && close(q, atof(r.log[g][0].c_str()), 1e-5)) keep.insert(q);
      MC_CHECK(!keep.empty(), "mutation-rate", "generation " << g << " logs " << (r.log[g].empty() ? "" : r.log[g][0]) << ": " << tr(r));
      next = keep;
    }
    rates = next;
  }
  MC_CHECK(r.sol.second == val && cur.count(r.sol.first), "solution", tr(r));
}

/// (1+(lambda,lambda)) GA
void oll_rule(const Run& r, int n, int lambda, int iters, double rate, long limit) {
  auto& t = r.probe.trace;
  if (t.empty()) return;
  if (r.interrupted) MC_CHECK(long(t.size()) == limit, "interruption", tr(r));
  else MC_CHECK(int(t.size()) == 1 + 2 * lambda * iters, "evaluations", tr(r));
  std::set<bit_vector_t> cur = { t[0].x }; double val = t[0].v;
  size_t L = size_t(lambda);
  for (size_t a = 1; a < t.size(); a += 2 * L) {
    size_t m = std::min(t.size(), a + L), b = std::min(t.size(), a + 2 * L);
    std::set<bit_vector_t> ok;
    for (auto& c : cur) {
      std::set<int> d; for (size_t i = a; i < m; i++) d.insert(dist(c, t[i].x));
      if (d.size() > 1) continue;
      if (rate >= 1 && *d.begin() != n) continue;
      if (m - a < L || b == m) { ok.insert(c); continue; }
      double best = -INFINITY; for (size_t i = a; i < m; i++) best = std::max(best, t[i].v);
      bool some = false;
      for (size_t i = a; i < m; i++) if (t[i].v == best) {
        bool all = true;
        for (size_t k = m; k < b; k++) for (int j = 0; j < n; j++) all &= t[k].x[size_t(j)] == c[size_t(j)] || t[k].x[size_t(j)] == t[i].x[size_t(j)];
        some |= all;
      }
      if (some) ok.insert(c);
    }
    MC_CHECK(!ok.empty(), "offspring", "evaluations from " << a << " are not mutants at a common distance of the solution and crossovers with a best mutant: " << tr(r));
    cur = ok;
    if (b - a < 2 * L) break;
    double best = -INFINITY; for (size_t i = m; i < b; i++) best = std::max(best, t[i].v);
    if (best >= val) { val = best; cur.clear(); for (size_t i = m; i < b; i++) if (t[i].v == best) cur.insert(t[i].x); }
  }
  MC_CHECK(r.sol.second == val && cur.count(r.sol.first), "solution", tr(r));
}

/// Information-theoretic EA
struct It { int n, lambda, sel, iters, rep; double rate0, lo, hi, lr; bool none; int w0; long limit = -1; };

void it_rule(const Run& r, const It& p) {
  auto& t = r.probe.trace;
  if (t.empty()) return;
  size_t L = size_t(p.lambda);
  if (p.rep == 4) MC_CHECK(weight(t[0].x) == p.w0, "initial-weight", tr(r));
  struct S { bit_vector_t c; double v, rate; bool operator<(const S& o) const { return std::tie(c, v, rate) < std::tie(o.c, o.v, o.rate); } };
  std::set<S> st = { { t[0].x, t[0].v, p.rate0 } };
  size_t a = 1; int g = 0;
  size_t sure = 1;
  while (a < t.size()) {
    size_t b = std::min(t.size(), a + L);
    std::set<S> ok;
    for (auto& s : st) { bool all = true; for (size_t i = a; i < b; i++) all &= Mut({ s.rate, p.none }).child(s.c, t[i].x); if (all) ok.insert(s); }
    MC_CHECK(!ok.empty(), "offspring", "generation " << g << " is not made of mutants of the center: " << tr(r));
    st = ok;
    if (b - a < L) { MC_CHECK(r.interrupted, "evaluations", "partial generation: " << tr(r)); break; }
    sure = b;
    std::vector<double> v; for (size_t i = a; i < b; i++) v.push_back(t[i].v);
    std::sort(v.rbegin(), v.rend());
    double cut = v[size_t(p.sel - 1)];
    int first = 0, cnt = 0; for (double x : v) { if (x > cut) first++; if (x == cut) cnt++; }
    bool tie = first + cnt > p.sel;
    double c = tie ? double(p.sel - first) / cnt : 1;
    auto wgt = [&](double x) { return x > cut ? 1.0 : x == cut ? c : 0.0; };
    double best = v[0];
    std::set<S> next; size_t used = 0;
    bool extra_known = b < t.size(); // a center evaluation may follow
    for (auto& s : st) {
      double target = 0; for (size_t i = a; i < b; i++) target += wgt(t[i].v) * dist(s.c, t[i].x);
      target /= double(p.sel * p.n);
      double rate = std::min(std::max(s.rate + p.lr * (target - s.rate), p.lo), p.hi);
      switch (p.rep) {
      case 0: if (best >= s.v) { for (size_t i = a; i < b; i++) if (t[i].v == best) next.insert({ t[i].x, best, rate }); } else next.insert({ s.c, s.v, rate }); break;
      case 1: for (size_t i = a; i < b; i++) if (t[i].v == best) next.insert({ t[i].x, best, rate }); break;
      case 2: {
        if (!extra_known) { next.insert({ s.c, s.v, rate }); break; }
        std::vector<double> l(size_t(p.n), 0); for (size_t i = a; i < b; i++) for (int j = 0; j < p.n; j++) l[size_t(j)] += wgt(t[i].v) * t[i].x[size_t(j)];
        bool good = true;
        for (int j = 0; j < p.n; j++) {
          double e = 2 * l[size_t(j)] - p.sel; if (std::fabs(e) < 1e-9) continue;
          int want = (e > 0) == (s.rate < 0.5) ? 1 : 0;
          good &= t[b].x[size_t(j)] == want;
        }
        if (good) { next.insert({ t[b].x, t[b].v, rate }); used = 1; }
        break;
      }
      case 3: {
        std::vector<double> l(size_t(p.n), 0); for (size_t i = a; i < b; i++) for (int j = 0; j < p.n; j++) l[size_t(j)] += wgt(t[i].v) * (t[i].x[size_t(j)] ^ s.c[size_t(j)]);
        double ext = s.rate < 0.5 ? *std::max_element(l.begin(), l.end()) : *std::min_element(l.begin(), l.end());
        double e = 2 * ext - p.sel; bool up = s.rate < 0.5;
        bool must = std::fabs(e) > 1e-9 && (up ? e > 0 : e < 0), may = std::fabs(e) <= 1e-9;
        if (!must) next.insert({ s.c, s.v, rate });
        if ((must || may)) {
          if (extra_known) { for (int j = 0; j < p.n; j++) if (std::fabs(l[size_t(j)] - ext) < 1e-9 && t[b].x == flipped(s.c, j)) next.insert({ t[b].x, t[b].v, rate }); }
          else if (must && r.interrupted) next.insert({ s.c, s.v, rate });
        }
        break;
      }
      case 4: next.insert({ s.c, s.v, rate }); break;
      }
    }
    MC_CHECK(!next.empty(), "replacement", "generation " << g << " replaces the center against the rule: " << tr(r));
    if (p.rep == 3) {
      // decide by the number of evaluations left whether the center moved
      size_t left = size_t(p.iters - g - 1);
      std::set<S> moved, kept;
      for (auto& s : next) { bool was = false; for (auto& o : st) was |= o.c == s.c; (was ? kept : moved).insert(s); }
      // states carry how many evaluations they consumed: explore both when ambiguous
      if (!moved.empty() && !kept.empty()) {
        MC_CHECK(size_t(g) < r.log.size() || r.interrupted, "log", "missing line");
        if (size_t(g) < r.log.size()) {
          // the logged center fitness tells them apart unless equal
          double cv = atof(r.log[size_t(g)][1].c_str());
          auto has = [&](const std::set<S>& q) { for (auto& s : q) if (close(s.v, cv, 1e-5)) return true; return false; };
          bool hm = has(moved), hk = has(kept);
          MC_CHECK(hm || hk, "center", "logged center fitness " << cv << ": " << tr(r));
          if (hm && hk) return; // ambiguous history, nothing more can be concluded
          next = hm ? moved : kept; used = hm ? 1 : 0;
        } else return;
      } else { next = moved.empty() ? kept : moved; used = moved.empty() ? 0 : 1; }
      (void)left;
    }
    if (p.rep == 2 && !extra_known) { MC_CHECK(r.interrupted, "evaluations", "no evaluation of the new center: " << tr(r)); break; }
    if (size_t(g) < r.log.size()) {
      auto& lg = r.log[size_t(g)];
      MC_CHECK(lg.size() == 2, "log", "line of " << lg.size() << " fields");
      std::set<S> keep;
      for (auto& s : next) if (close(s.rate, atof(lg[0].c_str()), 1e-5) && close(s.v, atof(lg[1].c_str()), 1e-5)) keep.insert(s);
      MC_CHECK(!keep.empty(), "mutation-rate", "generation " << g << " logs " << lg[0] << " " << lg[1] << ", expected rate " << next.begin()->rate << " center " << next.begin()->v << ": " << tr(r));
      next = keep;
    } else MC_CHECK(r.interrupted, "log", "missing line");
    st = next;
    a = b + used; sure = a; g++;
  }
  if (!r.interrupted) MC_CHECK(g == p.iters, "iterations", g << " generations: " << tr(r));
  check_best(r, sure);
}

void twice(const std::function<Alg()>& make, int n, const Land& l1, const Land& l2, long limit, const std::function<void(const Run&)>& rule, bool inc = false) {
  Alg a = make();
  for (int k = 0; k < 2; k++) {
    Run r(n, k ? l2 : l1); r.probe.limit = limit; r.probe.incremental = inc;
    go(a, r);
    rule(r);
  }
}

} // namespace

void mc_register() {
  const bool th = mc::thorough();
  auto orders = all_orders2();
  // (mu+lambda) and (mu,lambda)
  for (int plus = 0; plus < 2; plus++)
    for (int mu = 1; mu <= 3; mu++)
      for (int lambda = plus ? 1 : mu; lambda <= 3; lambda++)
        for (int m = 0; m < 4; m++) {
          Mut mut = m == 0 ? Mut{ 1.0, false } : m == 1 ? Mut{ 0.0, true } : m == 2 ? Mut{ 0.5, false } : Mut{ 0.5, true };
          mc::add(std::string(plus ? "plus" : "comma") + " mu" + mc::str(mu) + " lambda" + mc::str(lambda) + " mutation " + mc::str(m), [=]() {
            for (int n : { 2, 3 }) {
              std::vector<Land> ls = lands(n);
              if (n == 2) for (size_t i = 0; i < orders.size(); i += th ? 1 : 15) ls.push_back(orders[i]);
              for (size_t li = 0; li < ls.size(); li++)
                for (int iters : { 1, 3 })
                  for (long limit : { -1L, 2L, 5L }) {
                    if (limit > 0 && iters == 1) continue;
                    Par p; p.n = n; p.mu = mu; p.lambda = lambda; p.iters = iters; p.m = mut; p.plus = plus; p.limit = limit;
                    mc::explore(mc::bounds(th ? 7 : 4, 1, th ? 4 : 1), [&]() {
                      twice([&]() {
                          Alg a;
                          if (plus) { auto *q = a.make<MuPlusLambdaEa>(n, mu, lambda); q->set_num_iterations(iters); q->set_mutation_rate(mut.rate); q->set_allow_no_mutation(mut.none); }
                          else { auto *q = a.make<MuCommaLambdaEa>(n, mu, lambda); q->set_num_iterations(iters); q->set_mutation_rate(mut.rate); q->set_allow_no_mutation(mut.none); }
                          return a;
                        }, n, ls[li], ls[(li * 5 + 1) % ls.size()], limit, [&](const Run& r) { mu_lambda_rule(r, p); });
                    });
                  }
            }
          });
        }
  // every parent of a large population may be drawn, whatever the offspring
  for (int plus = 0; plus < 2; plus++) for (int mu : { 17, 33, 60 })
    mc::add(std::string("large ") + (plus ? "plus" : "comma") + " mu" + mc::str(mu), [=]() {
      const int n = 7, lambda = plus ? 2 : mu;
      std::map<std::vector<bit_vector_t>, std::vector<std::set<bit_vector_t>>> seen;
      mc::explore(mc::bounds(0, 1, 1), [&]() {
        Alg a;
        if (plus) { auto *q = a.make<MuPlusLambdaEa>(n, mu, lambda); q->set_num_iterations(1); q->set_mutation_rate(0); q->set_allow_no_mutation(true); }
        else { auto *q = a.make<MuCommaLambdaEa>(n, mu, lambda); q->set_num_iterations(2); q->set_mutation_rate(0); q->set_allow_no_mutation(true); }
        Run r(n, lands(n)[0]); r.probe.f = [](const bit_vector_t& x) { return double(mix64(bits(x))); };
        go(a, r);
        auto& t = r.probe.trace;
        // with the comma selection, the offspring of the first generation, all of them, are the parents of the second one
        const size_t from = t.size() - size_t(mu + lambda);
        MC_CHECK(int(t.size()) == mu + lambda + (plus ? 0 : 1), "evaluations", t.size());
        std::vector<bit_vector_t> par; for (int i = 0; i < mu; i++) par.push_back(t[from + size_t(i)].x);
        auto& s = seen[par]; s.resize(size_t(lambda));
        for (int i = 0; i < lambda; i++) { auto& x = t[from + size_t(mu + i)].x; MC_CHECK(std::find(par.begin(), par.end(), x) != par.end(), "offspring", show(x) << " is not a parent"); s[size_t(i)].insert(x); }
      });
      if (mc::replaying()) return;
      // the parents of the execution whose draws of parents were all varied
      size_t best = 0; for (auto& e : seen) best = std::max(best, e.second[0].size());
      for (auto& e : seen) if (e.second[0].size() == best) { std::set<bit_vector_t> all(e.first.begin(), e.first.end()); for (auto& s : e.second) MC_CHECK(s == all, "parents", s.size() << " of " << all.size() << " parents are ever chosen"); break; }
    });
  mc::add("comma rejects lambda < mu", [=]() {
    for (int mu = 1; mu < 5; mu++) for (int l = 1; l < 5; l++) {
      bool thrown = false;
      try { MuCommaLambdaEa q(3, mu, l); } catch (std::exception&) { thrown = true; }
      MC_CHECK(thrown == (l < mu), "comma-sizes", "mu " << mu << " lambda " << l);
    }
  });
  // Genetic algorithm
  for (int mu = 3; mu <= 5; mu++)
    for (int ts = 2; ts < mu; ts++)
      for (int pc = 0; pc < 3; pc++)
        for (int m = 0; m < 3; m++) {
          Mut mut = m == 0 ? Mut{ 1.0, false } : m == 1 ? Mut{ 0.0, true } : Mut{ 0.5, false };
          mc::add("ga mu" + mc::str(mu) + " tournament " + mc::str(ts) + " crossover " + mc::str(pc) + " mutation " + mc::str(m), [=]() {
            for (int n : { 2, 3, 4 })
              for (auto& l : lands(n))
                for (int iters : { 1, 3 })
                  for (long limit : { -1L, 2L, 7L }) {
                    if (limit > 0 && iters == 1) continue;
                    if (!th && ((mu > 3 && n == 3) || (iters == 3 && limit < 0 && (mu + ts + pc + m + n) % 3))) continue;
                    GaPar p; p.n = n; p.mu = mu; p.ts = ts; p.iters = iters; p.pc = pc / 2.0; p.m = mut; p.limit = limit;
                    mc::explore(mc::bounds(th ? 6 : mu > 3 ? 1 : 3, 1, th ? 6 : 1), [&]() {
                      twice([&]() {
                          Alg a; auto *q = a.make<GeneticAlgorithm>(n, mu); q->set_num_iterations(iters); q->set_mutation_rate(mut.rate);
                          q->set_allow_no_mutation(mut.none); q->set_tournament_size(ts); q->set_crossover_probability(p.pc); return a;
                        }, n, l, l, limit, [&](const Run& r) { ga_rule(r, p); });
                    });
                  }
          });
        }
  // (1+1) EA
  for (int none = 0; none < 2; none++)
    for (int inc = 0; inc < 2; inc++)
      mc::add("1+1 none" + mc::str(none) + " incremental" + mc::str(inc), [=]() {
        for (int n : { 1, 2, 3 }) {
          auto ls = lands(n); if (n == 2) ls = orders;
          for (auto& l : ls)
            for (double rate : { 0.3, 1.0 })
              for (long limit : { -1L, 0L, 1L, 3L })
                mc::explore(mc::bounds(th ? 7 : 5, 1), [&]() {
                  twice([&]() { Alg a; auto *q = a.make<OnePlusOneEa>(n); q->set_num_iterations(5); q->set_mutation_rate(rate); q->set_allow_no_mutation(none); q->set_incremental_evaluation(inc); return a; },
                        n, l, l, limit, [&](const Run& r) {
                          auto& t = r.probe.trace;
                          if (t.empty()) return;
                          if (r.interrupted) MC_CHECK(long(t.size()) == limit, "interruption", tr(r));
                          else MC_CHECK(t.size() == 6, "evaluations", tr(r));
                          bit_vector_t c = t[0].x; double v = t[0].v;
                          for (size_t k = 1; k < t.size(); k++) {
                            MC_CHECK(Mut({ rate, bool(none) }).child(c, t[k].x), "move", "step " << k << " from " << show(c) << ": " << tr(r));
                            MC_CHECK(t[k].kind == (inc ? 'i' : 'e'), "kind", "step " << k);
                            if (t[k].v >= v) { c = t[k].x; v = t[k].v; }
                          }
                          MC_CHECK(r.sol.first == c && r.sol.second == v, "solution", tr(r));
                        }, inc);
                });
        }
      });
  // Self-adjusting (1+1) EA
  for (int none = 0; none < 2; none++)
    for (int inc = 0; inc < 2; inc++)
      for (int par = 0; par < 3; par++)
        mc::add("self-adjusting none" + mc::str(none) + " incremental" + mc::str(inc) + " parameters " + mc::str(par), [=]() {
          for (int n : { 2, 3, 5 })
            for (auto& l : lands(n))
              for (long limit : { -1L, 0L, 1L, 4L }) {
                double rate = par == 0 ? 1.0 / n : par == 1 ? 0.4 : 0.6, lo = par == 0 ? 1.0 / (n * n) : par == 1 ? 0.3 : 0.05, hi = par == 2 ? 1.0 : 0.5;
                double st = par == 0 ? 1 + 1.0 / n : par == 1 ? 1.5 : 1.3, ra = par == 0 ? 4 : par == 1 ? 2 : 3;
                mc::explore(mc::bounds(th ? 5 : 3, 1, th ? 3 : 2), [&]() {
                  twice([&]() {
                      Alg a; auto *q = a.make<SelfAdjustingOnePlusOneEa>(n); q->set_num_iterations(6); q->set_allow_no_mutation(none); q->set_incremental_evaluation(inc); q->set_log_mutation_rate(true);
                      if (par) { q->set_mutation_rate_init(rate); q->set_mutation_rate_min(lo); q->set_mutation_rate_max(hi); q->set_update_strength(st); q->set_success_ratio(ra); }
                      return a;
                    }, n, l, l, limit, [&](const Run& r) { sa_ea_rule(r, n, 6, none, inc, rate, lo, hi, st, ra, limit); }, inc);
                });
              }
        });
  // Two-rate (1+lambda) EA
  for (int lambda : { 1, 2, 3, 4 })
    for (int u10 : { 1, 3, 7 })
      for (int none = 0; none < 2; none++)
        mc::add("two-rate lambda" + mc::str(lambda) + " u" + mc::str(u10) + " none" + mc::str(none), [=]() {
          for (int n : { 8, 16, 20 })
            for (auto& l : lands(n))
              for (double rate : { 0.5, 0.25, 0.2 })
                for (long limit : { -1L, 3L }) {
                  if (!th && n == 8 && rate == 0.2) continue;
                  auto o = mc::bounds(th ? 3 : 1, 1, th ? 2 : 1); o.levels = { u10 / 10.0 };
                  if (n > 8) { o.depth = 1; o.dev = 0; o.policies = th ? 20 : 6; }
                  mc::explore(o, [&]() {
                    twice([&]() { Alg a; auto *q = a.make<TwoRateOnePlusLambdaEa>(n, lambda); q->set_num_iterations(4); q->set_mutation_rate_init(rate); q->set_allow_no_mutation(none); q->set_log_mutation_rate(true); return a; },
                          n, l, l, limit, [&](const Run& r) { two_rate_rule(r, n, lambda, 4, none, rate, u10 / 10.0, limit); });
                  });
                }
        });
  // (1+(lambda,lambda)) GA
  for (int n : { 1, 2, 3, 4 })
    for (int lambda = 1; lambda <= n && lambda <= 3; lambda++)
      mc::add("one-plus-lambda-comma-lambda n" + mc::str(n) + " lambda" + mc::str(lambda), [=]() {
        auto ls = lands(n); if (n == 2) ls = orders;
        for (auto& l : ls)
          for (double rate : { 0.5, 1.0 })
            for (double bias : { 0.5, 0.9 })
              for (long limit : { -1L, 1L, 4L })
                mc::explore(mc::bounds(th ? 7 : 4, 1, 2), [&]() {
                  twice([&]() { Alg a; auto *q = a.make<OnePlusLambdaCommaLambdaGa>(n, lambda); q->set_num_iterations(3); q->set_mutation_rate(rate); q->set_crossover_bias(bias); return a; },
                        n, l, l, limit, [&](const Run& r) { oll_rule(r, n, lambda, 3, rate, limit); });
                });
      });
  // Information-theoretic EA
  for (int rep = 0; rep < 5; rep++)
    for (int lambda = 2; lambda <= 4; lambda++)
      for (int sel = 1; sel < lambda; sel++)
        for (int none = 0; none < 2; none++)
          mc::add("it-ea replacement " + mc::str(rep) + " lambda" + mc::str(lambda) + " selection " + mc::str(sel) + " none" + mc::str(none), [=]() {
            for (int n : { 2, 3 })
              for (auto& l : lands(n))
                for (int par = 0; par < 3; par++)
                  for (long limit : { -1L, 4L }) {
                    It p; p.n = n; p.lambda = lambda; p.sel = sel; p.iters = 3; p.rep = rep; p.none = none; p.limit = limit; p.w0 = par % (n + 1);
                    p.rate0 = par == 0 ? 1.0 / n : par == 1 ? 0.7 : 1.0; p.lo = par == 0 ? 1.0 / n : 0.1; p.hi = par == 0 ? 0.5 : 1.0; p.lr = par == 0 ? 0.01 : 0.5;
                    mc::explore(mc::bounds(th ? 6 : 4, 1, th ? 4 : 1), [&]() {
                      twice([&]() {
                          Alg a; auto *q = a.make<InformationTheoreticEa>(n, lambda); q->set_num_iterations(p.iters); q->set_selection_size(sel); q->set_replacement(rep);
                          q->set_allow_no_mutation(none); q->set_log_mutation_rate(true); q->set_log_center_fitness(true); q->set_initial_hamming_weight(p.w0);
                          if (par) { q->set_mutation_rate_init(p.rate0); q->set_mutation_rate_min(p.lo); q->set_mutation_rate_max(p.hi); q->set_learning_rate(p.lr); }
                          return a;
                        }, n, l, l, limit, [&](const Run& r) { it_rule(r, p); });
                    });
                  }
          });
  for (auto rep : { 0, 1, 2, 3, 4 }) for (auto z : { std::make_pair(12, 5), std::make_pair(40, 20), std::make_pair(70, 66) })
    mc::add("large it-ea replacement " + mc::str(rep) + " lambda" + mc::str(z.first) + " selection " + mc::str(z.second), [=]() {
      const int n = 4;
      for (int land : { 0, 6 }) {
        It p; p.n = n; p.lambda = z.first; p.sel = z.second; p.iters = 3; p.rep = rep; p.none = true; p.limit = -1; p.w0 = 2;
        p.rate0 = 0.7; p.lo = 0.1; p.hi = 1.0; p.lr = 0.5;
        mc::explore(mc::bounds(0, 0, 3), [&]() {
          twice([&]() {
              Alg a; auto *q = a.make<InformationTheoreticEa>(n, p.lambda); q->set_num_iterations(p.iters); q->set_selection_size(p.sel); q->set_replacement(rep);
              q->set_allow_no_mutation(true); q->set_log_mutation_rate(true); q->set_log_center_fitness(true); q->set_initial_hamming_weight(p.w0);
              q->set_mutation_rate_init(p.rate0); q->set_mutation_rate_min(p.lo); q->set_mutation_rate_max(p.hi); q->set_learning_rate(p.lr);
              return a;
            }, n, lands(n)[size_t(land)], lands(n)[size_t(land)], -1, [&](const Run& r) { it_rule(r, p); });
        });
      }
    });
}
