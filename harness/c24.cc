// C24: Pareto dominance, Pareto fronts and NSGA-II.
#include <map>
#include "common.hh"
#include "hnco/multiobjective/algorithms/all.hh"
#include "hnco/multiobjective/algorithms/random-selection.hh"
#include "hnco/multiobjective/algorithms/pareto-front-computation.hh"
using namespace hnco;
using namespace hnco::multiobjective::algorithm;
using namespace vp;
using MF = hnco::multiobjective::function::Function;
using value_t = hnco::multiobjective::function::value_t;
using hnco::multiobjective::function::dominates;

namespace {

const double INF = std::numeric_limits<double>::infinity();

bool dom(const value_t& a, const value_t& b) {
  bool s = false;
  for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; if (a[i] < b[i]) s = true; }
  return s;
}

/// Definition: front 0 is the set of non dominated values, front k+1 that of what is left
std::vector<int> fronts(const std::vector<value_t>& v) {
  std::vector<int> r(v.size(), -1); size_t left = v.size();
  for (int f = 0; left; f++) {
    std::vector<size_t> now;
    for (size_t i = 0; i < v.size(); i++) if (r[i] < 0) {
      bool ok = true;
      for (size_t j = 0; j < v.size(); j++) if (r[j] < 0 && dom(v[j], v[i])) ok = false;
      if (ok) now.push_back(i);
    }
    for (size_t i : now) r[i] = f;
    left -= now.size();
  }
  return r;
}

std::string show_values(const std::vector<value_t>& v) { std::string s; for (auto& x : v) s += mc::vec(x); return s; }

void dominance(int k, const std::vector<double>& g) {
  uint64_t N = 1; for (int i = 0; i < k; i++) N *= g.size();
  auto at = [&](uint64_t a) { value_t x; for (int i = 0; i < k; i++) { x.push_back(g[a % g.size()]); a /= g.size(); } return x; };
  for (uint64_t a = 0; a < N; a++) for (uint64_t b = 0; b < N; b++) {
    value_t x = at(a), y = at(b);
    bool d = dominates(x, y);
    MC_CHECK(d == dom(x, y), "dominance", mc::vec(x) << " dominates " << mc::vec(y) << ": " << d);
    MC_CHECK(!(d && dominates(y, x)), "dominance", mc::vec(x) << " and " << mc::vec(y) << " dominate each other");
    mc::state(mc::Hash().add(a).add(b).add(k));
  }
}

void ranking(int m, int k, const std::vector<double>& g) {
  uint64_t D = 1; for (int i = 0; i < k; i++) D *= g.size();
  uint64_t N = 1; for (int i = 0; i < m; i++) N *= D;
  Population p(m, 1, k), before(m, 1, k);
  Nsga2ParetoFrontComputation kept(p);
  for (uint64_t a = 0; a < N; a++) {
    uint64_t c = a;
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) { p.values[size_t(i)][size_t(j)] = g[c % g.size()]; c /= g.size(); }
    before.values = p.values;
    auto want = fronts(p.values);
    std::vector<int> got(size_t(m), int(a % 3)); 
    kept.compute(got);
    MC_CHECK(got == want, "fronts", show_values(p.values) << " has fronts " << mc::vec(got) << " instead of " << mc::vec(want));
    if (a % 7 == 0) {
      Nsga2ParetoFrontComputation fresh(p); std::vector<int> again(size_t(m), 99); fresh.compute(again);
      MC_CHECK(again == want, "fronts", show_values(p.values) << " has fronts " << mc::vec(again) << " instead of " << mc::vec(want));
    }
    MC_CHECK(p.values == before.values, "population", "the computation changes the population");
    mc::state(mc::Hash().add(a).add(m).add(k));
  }
}

/// Tabulated function that records its evaluations
struct Table: MF {
  int n, k; std::vector<value_t> v; std::vector<bit_vector_t> trace; std::function<void(long)> hook; int dirty = 0;
  Table(int n_, int k_, std::vector<value_t> w): n(n_), k(k_), v(w) {}
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return k; }
  void evaluate(const bit_vector_t& x, value_t& y) override {
    MC_CHECK(int(x.size()) == n && valid(x), "argument", "evaluation of " << show(x));
    MC_CHECK(int(y.size()) == k, "argument", "an output of size " << y.size());
    trace.push_back(x);
    for (int i = 0; i < k; i++) y[size_t(i)] = v[bits(x)][size_t(i)];
    if (hook) hook(long(trace.size()));
  }
};

std::vector<value_t> table(int n, int k, int which) {
  std::vector<value_t> v;
  for (uint64_t u = 0; u < 1ull << n; u++) {
    value_t y; int w = __builtin_popcountll(u); int hi = 0; for (int i = n - 1; i >= 0 && (u >> i & 1); i--) hi++;
    int lo = 0; while (lo < n && !(u >> lo & 1)) lo++;
    for (int j = 0; j < k; j++) {
      double z = 0;
      switch (which) {
      case 0: z = 0; break;                                             // everything equivalent
      case 1: z = j == 0 ? w : -w; break;                               // one front, ties
      case 2: z = j == 0 ? double(u) : -double(u * u); break;           // one front, distinct
      case 3: z = j == 0 ? -hi : j == 1 ? -lo : -w; break;              // leading ones, trailing zeros
      case 4: z = double(mix64(u * 31 + uint64_t(j)) % 4); break;       // scattered
      case 5: z = double(mix64(u * 37 + uint64_t(j) + 5) % 1000) / 7; break;
      case 6: z = j == 0 ? double(u) : double(u); break;                // a chain
      case 7: z = j == 0 ? (u == 0 ? 1e200 : double(u)) : -double(w); break;
      default: z = j == 0 ? double(u) * 100 : j == 1 ? -double(mix64(u) % 3) : double(u % 2); break;
      }
      y.push_back(z);
    }
    v.push_back(y);
  }
  return v;
}

/// An individual and what selection knows about it
struct Ind { uint64_t x; int front; double crowd; bool operator<(const Ind& o) const { return std::tie(x, front, crowd) < std::tie(o.x, o.front, o.crowd); } bool operator==(const Ind& o) const { return x == o.x && front == o.front && crowd == o.crowd; } };
using Pop = std::vector<Ind>;
bool better(const Ind& a, const Ind& b) { return a.front < b.front || (a.front == b.front && a.crowd > b.crowd); }

/// What an objective adds to the crowding distances of a front (equal values may be sorted in any order)
std::set<std::vector<double>> shares(const std::vector<double>& key) {
  size_t m = key.size();
  std::map<double, std::vector<size_t>> groups; for (size_t i = 0; i < m; i++) groups[key[i]].push_back(i);
  std::set<std::vector<double>> acc; acc.insert(std::vector<double>(m, 0));
  for (auto g = groups.begin(); g != groups.end(); ++g) {
    double lo = g == groups.begin() ? INF : g->first - std::prev(g)->first;
    double hi = std::next(g) == groups.end() ? INF : std::next(g)->first - g->first;
    std::set<std::vector<double>> next;
    auto& e = g->second;
    for (auto& d0 : acc) for (size_t a : e) for (size_t b : e) {
      if (a == b && e.size() > 1) continue;
      auto d = d0; d[a] += lo; d[b] += hi; if (d[a] > 1e300) d[a] = INF;
      next.insert(d);
    }
    acc.swap(next);
  }
  return acc;
}

/// All the crowding distances a front can get; empty if there are too many
std::set<std::vector<double>> crowdings(const std::vector<value_t>& v, int k) {
  size_t m = v.size();
  std::set<std::vector<double>> acc; acc.insert(std::vector<double>(m, 0));
  for (int j = 0; j < k; j++) {
    std::vector<double> key; for (auto& x : v) key.push_back(x[size_t(j)]);
    auto one = shares(key); std::set<std::vector<double>> next;
    if (acc.size() * one.size() > 20000) return {};
    for (auto& a : acc) for (auto& b : one) { auto c = a; for (size_t i = 0; i < m; i++) c[i] += b[i]; next.insert(c); }
    acc.swap(next);
  }
  return acc;
}

/// The populations that may survive (memoized); empty if there are too many
const std::set<Pop>& survivors(std::vector<uint64_t> full, const std::vector<value_t>& v, int k, int mu, int key) {
  static std::map<std::pair<int, int>, std::map<std::vector<uint64_t>, std::set<Pop>>> memos;
  auto& memo = memos[{ key, mu }];
  std::sort(full.begin(), full.end());
  auto it = memo.find(full); if (it != memo.end()) return it->second;
  std::vector<value_t> w; for (auto u : full) w.push_back(v[u]);
  auto fr = fronts(w);
  std::set<Pop> acc; acc.insert(Pop());
  int taken = 0;
  for (int f = 0; taken < mu; f++) {
    std::vector<size_t> mem; for (size_t i = 0; i < full.size(); i++) if (fr[i] == f) mem.push_back(i);
    std::vector<value_t> fv; for (size_t i : mem) fv.push_back(w[i]);
    size_t room = std::min(mem.size(), size_t(mu - taken));
    std::set<Pop> parts;
    auto cr = crowdings(fv, k);
    if (cr.size() * (1ull << mem.size()) > 20000) return memo[full] = {};
    if (cr.empty()) return memo[full] = {};
    for (auto& d : cr) {
      Pop all; for (size_t i = 0; i < mem.size(); i++) all.push_back({ full[mem[i]], f, d[i] });
      // any choice of room individuals such that no left out one is less crowded
      for (uint64_t s = 0; s < 1ull << all.size(); s++) {
        if (size_t(__builtin_popcountll(s)) != room) continue;
        double worst = INF, best = -1; Pop q;
        for (size_t i = 0; i < all.size(); i++) { if (s >> i & 1) { worst = std::min(worst, all[i].crowd); q.push_back(all[i]); } else best = std::max(best, all[i].crowd); }
        if (best > worst) continue;
        std::sort(q.begin(), q.end()); parts.insert(q);
      }
    }
    std::set<Pop> next;
    for (auto& a : acc) for (auto& b : parts) { Pop c = a; c.insert(c.end(), b.begin(), b.end()); std::sort(c.begin(), c.end()); next.insert(c); }
    acc.swap(next);
    if (acc.size() > 60) return memo[full] = {};
    taken += int(room);
  }
  return memo[full] = acc;
}

struct Cfg { int n, k, mu, T, iters, which; double rate, cross; bool nomut; };

/// Could the offspring be produced by the tournaments, one pass (permutation) after the other
bool tournaments(const Pop& p, int T, std::vector<uint64_t> winners) {
  size_t r = p.size() / size_t(T);
  for (size_t s = 0; s < winners.size(); s += r) {
    std::vector<size_t> perm; for (size_t i = 0; i < p.size(); i++) perm.push_back(i);
    bool ok = false;
    do {
      bool good = true;
      for (size_t t = 0; t < r && s + t < winners.size() && good; t++) {
        bool found = false;
        for (size_t a = t * size_t(T); a < (t + 1) * size_t(T); a++) {
          if (p[perm[a]].x != winners[s + t]) continue;
          bool beaten = false;
          for (size_t b = t * size_t(T); b < (t + 1) * size_t(T); b++) if (better(p[perm[b]], p[perm[a]])) beaten = true;
          if (!beaten) { found = true; break; }
        }
        good = found;
      }
      if (good) { ok = true; break; }
    } while (std::next_permutation(perm.begin(), perm.end()));
    if (!ok) return false;
  }
  return true;
}

/// Can an individual win a tournament
bool selectable(const Pop& p, size_t i, int T) { int c = 0; for (auto& q : p) if (!better(q, p[i])) c++; return c >= T; }

bool offspring_ok(const Cfg& c, const Pop& p, const std::vector<uint64_t>& off, std::string& why) {
  const uint64_t mask = (1ull << c.n) - 1;
  if (c.cross == 0 && ((c.rate == 0 && c.nomut) || c.rate == 1)) {
    auto w = off; if (c.rate == 1) for (auto& u : w) u ^= mask;
    if (!tournaments(p, c.T, w)) { why = "not the winners of tournaments"; return false; }
    return true;
  }
  for (auto u : off) {
    bool ok = false;
    for (size_t i = 0; i < p.size() && !ok; i++) for (size_t j = 0; j < p.size() && !ok; j++) {
      if (!selectable(p, i, c.T) || !selectable(p, j, c.T)) continue;
      if (c.cross == 0 && i != j) continue;
      uint64_t a = p[i].x, b = p[j].x, y = c.rate == 1 ? u ^ mask : u;
      if ((c.rate == 0 && c.nomut) || c.rate == 1) ok = ((a ^ y) & (b ^ y)) == 0;
      else if (c.cross == 0) ok = c.nomut || a != u;
      else ok = c.nomut || !(a == b && a == u);
    }
    if (!ok) { why = "offspring " + show(bv(u, c.n)) + " cannot come from the parents"; return false; }
  }
  return true;
}

std::string name(const Cfg& c) { std::ostringstream s; s << "n " << c.n << " objectives " << c.k << " mu " << c.mu << " tournament " << c.T << " iterations " << c.iters << " function " << c.which << " rate " << c.rate << " crossover " << c.cross << (c.nomut ? " no mutation allowed" : ""); return s.str(); }

std::unique_ptr<Nsga2> make(const Cfg& c) {
  auto p = std::make_unique<Nsga2>(c.n, c.k, c.mu); Nsga2& a = *p;
  a.set_num_iterations(c.iters); a.set_tournament_size(c.T); a.set_crossover_probability(c.cross); a.set_allow_no_mutation(c.nomut); a.set_mutation_rate(c.rate);
  return p;
}

/// One run judged against all the runs the definition of NSGA-II admits
void judge(const Cfg& c, const std::vector<value_t>& v, const Table& f, const Population& sol, const std::string& w) {
  size_t mu = size_t(c.mu);
  std::string t; for (auto& x : f.trace) t += show(x) + " ";
  MC_CHECK(f.trace.size() == mu * size_t(1 + c.iters), "evaluations", w << ": " << f.trace.size() << " evaluations for a population of " << mu << " and " << c.iters << " iterations");
  std::vector<uint64_t> tr; for (auto& x : f.trace) tr.push_back(bits(x));
  // initial parents are compared by front only
  std::set<Pop> now;
  {
    std::vector<value_t> pv; for (size_t i = 0; i < mu; i++) pv.push_back(v[tr[i]]);
    auto fr = fronts(pv); Pop p; for (size_t i = 0; i < mu; i++) p.push_back({ tr[i], fr[i], 0 });
    std::sort(p.begin(), p.end()); now.insert(p);
  }
  bool known = true;
  for (int it = 0; it < c.iters && known; it++) {
    std::vector<uint64_t> off(tr.begin() + long(mu) * (1 + it), tr.begin() + long(mu) * (2 + it));
    std::set<Pop> keep, next; std::string why;
    for (auto& p : now) if (offspring_ok(c, p, off, why)) keep.insert(p);
    MC_CHECK(!keep.empty(), "offspring", w << ": generation " << it + 1 << " of " << t << ": " << why);
    std::set<std::vector<uint64_t>> fulls;
    for (auto& p : keep) { std::vector<uint64_t> full(off); for (auto& i : p) full.push_back(i.x); std::sort(full.begin(), full.end()); fulls.insert(full); }
    for (auto& full : fulls) { auto& s = survivors(full, v, c.k, c.mu, c.which * 100 + c.k * 10 + c.n); if (s.empty()) known = false; next.insert(s.begin(), s.end()); }
    if (next.size() > 60) known = false;
    now.swap(next);
  }
  // solutions
  MC_CHECK(sol.bvs.size() == sol.values.size() && sol.get_size() >= 1, "solutions", w << ": " << sol.bvs.size() << " vectors and " << sol.values.size() << " values");
  std::vector<uint64_t> got;
  for (size_t i = 0; i < sol.bvs.size(); i++) {
    MC_CHECK(int(sol.bvs[i].size()) == c.n && valid(sol.bvs[i]), "solutions", w << ": solution " << show(sol.bvs[i]));
    got.push_back(bits(sol.bvs[i]));
    MC_CHECK(sol.values[i] == v[got.back()], "value", w << ": solution " << show(sol.bvs[i]) << " with value " << mc::vec(sol.values[i]) << " instead of " << mc::vec(v[got.back()]));
    MC_CHECK(std::find(tr.begin(), tr.end(), got.back()) != tr.end(), "solutions", w << ": solution " << show(sol.bvs[i]) << " was never evaluated");
  }
  for (size_t i = 0; i < got.size(); i++) for (size_t j = 0; j < got.size(); j++)
    MC_CHECK(!dom(v[got[i]], v[got[j]]), "domination", w << ": solution " << show(sol.bvs[i]) << " dominates solution " << show(sol.bvs[j]));
  std::sort(got.begin(), got.end());
  if (!known) return;
  bool ok = false; std::string cand;
  for (auto& p : now) {
    std::vector<uint64_t> want; for (auto& i : p) { bool d = false; for (auto& j : p) if (dom(v[j.x], v[i.x])) d = true; if (!d) want.push_back(i.x); }
    std::sort(want.begin(), want.end());
    if (want == got) { ok = true; break; }
    if (cand.size() < 200) cand += " " + mc::vec(want);
  }
  MC_CHECK(ok, "survivors", w << ": evaluations " << t << "end with solutions " << mc::vec(got) << " instead of" << cand);
  mc::Hash h; h.addv(tr).addv(got); mc::state(h);
}

void run(const Cfg& c, const mc::Opt& o) {
  auto v = table(c.n, c.k, c.which);
  mc::explore(o, [&]() {
    auto p_ = make(c); Nsga2& a = *p_;
    Table f(c.n, c.k, v);
    a.minimize({ &f });
    judge(c, v, f, a.get_solutions(), name(c));
  });
}

/// A used algorithm behaves as a new one; other functions are only used for parallel evaluation
void reuse(Cfg c, const mc::Opt& o) {
  auto v = table(c.n, c.k, c.which), v0 = table(c.n, c.k, 6), v1 = table(c.n, c.k, 1);
  mc::explore(o, [&]() {
    auto p_ = make(c); Nsga2& a = *p_;
    { mc::Fixed fx(3); Table f(c.n, c.k, v0); a.minimize({ &f }); judge([&] { Cfg d = c; d.which = 6; return d; }(), v0, f, a.get_solutions(), name(c) + ", first run"); }
    Table f(c.n, c.k, v);
    a.minimize({ &f });
    Population s = a.get_solutions();
    judge(c, v, f, s, name(c) + ", second run");
    { mc::Fixed fx(5); a.set_num_iterations(c.iters + 1); Table g(c.n, c.k, v1); a.minimize({ &g }); Cfg d = c; d.which = 1; d.iters++; judge(d, v1, g, a.get_solutions(), name(c) + ", third run"); }
  });
}

/// Law of the first offspring, given the initial population
bool law_(Cfg c, uint64_t seed, int depth, std::string& why) {
  auto v = table(c.n, c.k, c.which);
  std::map<uint64_t, double> d; double total = 0; Pop p;
  mc::Opt o = mc::bounds(depth); std::vector<double> th; for (double x : { c.rate, c.cross, 0.5 }) { th.push_back(x); th.push_back(1 - x); }
  mc::cells(o, th);
  mc::explore(o, [&]() {
    auto p_ = make(c); Nsga2& a = *p_;
    Table f(c.n, c.k, v);
    auto fx = std::make_unique<mc::Fixed>(seed);
    f.hook = [&](long i) { if (i == c.mu) fx.reset(); };
    a.minimize({ &f });
    std::vector<value_t> pv; for (int i = 0; i < c.mu; i++) pv.push_back(v[bits(f.trace[size_t(i)])]);
    auto fr = fronts(pv); p.clear(); for (int i = 0; i < c.mu; i++) p.push_back({ bits(f.trace[size_t(i)]), fr[size_t(i)], 0 });
    d[bits(f.trace[size_t(c.mu)])] += mc::head_prob(); total += mc::head_prob();
    mc::state(mc::Hash().addv(f.trace[size_t(c.mu)]).add(seed));
  });
  if (mc::replaying() || std::fabs(total - 1) > 1e-9) return true;   // draws of unknown probability: nothing can be said
  // winners of two consecutive tournaments
  std::map<std::pair<uint64_t, uint64_t>, double> two;
  std::vector<size_t> perm; for (size_t i = 0; i < p.size(); i++) perm.push_back(i);
  auto win = [&](const std::vector<size_t>& q, size_t s) { size_t b = q[s]; for (size_t i = s; i < s + size_t(c.T); i++) if (better(p[q[i]], p[b])) b = q[i]; return p[b].x; };
  std::vector<std::vector<size_t>> perms; do perms.push_back(perm); while (std::next_permutation(perm.begin(), perm.end()));
  for (auto& q : perms) {
    if (p.size() / size_t(c.T) >= 2) two[{ win(q, 0), win(q, size_t(c.T)) }] += 1.0 / double(perms.size());
    else for (auto& r : perms) two[{ win(q, 0), win(r, 0) }] += 1.0 / double(perms.size()) / double(perms.size());
  }
  std::map<uint64_t, double> child, e;
  for (auto& t : two) {
    child[t.first.first] += (1 - c.cross) * t.second;
    for (uint64_t m = 0; m < 1ull << c.n; m++) child[(t.first.first & m) | (t.first.second & ~m & ((1ull << c.n) - 1))] += c.cross * t.second / double(1ull << c.n);
  }
  for (auto& x : child) for (uint64_t m = 0; m < 1ull << c.n; m++) {
    int w = __builtin_popcountll(m); double q = std::pow(c.rate, w) * std::pow(1 - c.rate, c.n - w);
    if (!c.nomut) q = w == 0 ? 0 : q / (1 - std::pow(1 - c.rate, c.n));
    e[x.first ^ m] += x.second * q;
  }
  for (uint64_t u = 0; u < 1ull << c.n; u++) if (std::fabs(d[u] - e[u]) > 1e-9 + (c.nomut ? 0 : std::pow(1 - c.rate, 2 * c.n))) {
    std::ostringstream s; s << name(c) << ": the first offspring of seed " << seed << " is " << show(bv(u, c.n)) << " with probability " << d[u] << " instead of " << e[u]; why = s.str(); return false;
  }
  return true;
}
/// The depth at which the first offspring is complete is not known in advance
void law(const Cfg& c, uint64_t seed) {
  std::string why;
  for (int depth = 10; depth <= 16; depth++) { mc::step(); if (law_(c, seed, depth, why)) return; }
  mc::fail("law", why);
}

/// Tournament selection without replacement, all values, all permutations
template<class C> void selection(int m, int T, int levels) {
  uint64_t N = 1; for (int i = 0; i < m; i++) N *= uint64_t(levels);
  int r = m / T;
  std::vector<bit_vector_t> bvs; for (int i = 0; i < m; i++) bvs.push_back(bv(uint64_t(i), 3));
  for (uint64_t a = 0; a < N; a++) {
    std::vector<int> v; uint64_t c = a; for (int i = 0; i < m; i++) { v.push_back(int(c % uint64_t(levels))); c /= uint64_t(levels); }
    C cmp; std::map<std::vector<int>, double> got, want; double total = 0;
    mc::explore(mc::bounds(1 << 20), [&]() {
      TournamentSelection<int, C> s(bvs, v);
      s.set_tournament_size(T);
      s.init();
      std::vector<int> w;
      for (int i = 0; i < r; i++) { if (i == r - 1) { w.push_back(-1); double p = mc::prob(); mc::Fixed f(1); w.back() = int(bits(s.select())); MC_CHECK(mc::prob() == p, "draws", ""); } else w.push_back(int(bits(s.select()))); }
      // later passes
      for (int pass = 0; pass < 3; pass++) {
        mc::Fixed f(uint64_t(pass) + 5); std::set<int> seen;
        for (int i = 0; i < r; i++) {
          int k = int(bits(s.select()));
          MC_CHECK(k < m && seen.insert(k).second, "replacement", mc::vec(v) << ": " << k << " selected twice in a pass");
          int nb = 0; for (int j = 0; j < m; j++) if (!cmp(v[size_t(j)], v[size_t(k)])) nb++;
          MC_CHECK(nb >= T, "selection", mc::vec(v) << ": " << k << " cannot win a tournament of " << T);
        }
      }
      got[w] += mc::prob(); total += mc::prob();
    });
    if (mc::replaying()) continue;
    std::vector<int> perm; for (int i = 0; i < m; i++) perm.push_back(i); double F = 1; for (int i = 2; i <= m; i++) F *= i;
    do {
      std::vector<int> w; for (int t = 0; t < r; t++) { int b = perm[size_t(t * T)]; for (int i = t * T; i < (t + 1) * T; i++) if (cmp(v[size_t(perm[size_t(i)])], v[size_t(b)])) b = perm[size_t(i)]; w.push_back(b); }
      want[w] += 1 / F;
    } while (std::next_permutation(perm.begin(), perm.end()));
    for (auto& p : got) MC_CHECK(want.count(p.first), "selection", mc::vec(v) << " selects " << mc::vec(p.first));
    if (std::fabs(total - 1) < 1e-9) for (auto& p : want) MC_CHECK(std::fabs(got[p.first] - p.second) < 1e-9, "selection", mc::vec(v) << " selects " << mc::vec(p.first) << " with probability " << got[p.first] << " instead of " << p.second);
  }
}

} // namespace

void mc_register() {
  const bool th = mc::thorough();
  const std::vector<double> wide = { -INF, -1.7e308, -1, -1e-300, 0, 4e-324, 1e-300, 1, 1 + 1e-15, 1.7e308, INF };
  for (int k = 1; k <= 2; k++) mc::add("dominance " + mc::str(k), [=]() { dominance(k, wide); });
  mc::add("dominance 3", [=]() { dominance(3, { -INF, -1, 0, 1e-300, 1, INF }); });
  mc::add("dominance 4", [=]() { dominance(4, { -1, 0, 2 }); });
  for (int m = 1; m <= (th ? 7 : 6); m++) mc::add("fronts 2x3 " + mc::str(m), [=]() { ranking(m, 2, { 0, 1, 2 }); });
  for (int m = 1; m <= (th ? 6 : 4); m++) mc::add("fronts 2x4 " + mc::str(m), [=]() { ranking(m, 2, { -1, 0, 0.5, 7 }); });
  for (int m = 1; m <= (th ? 7 : 6); m++) mc::add("fronts 3x2 " + mc::str(m), [=]() { ranking(m, 3, { 0, 1 }); });
  for (int m = 1; m <= 4; m++) mc::add("fronts 3x3 " + mc::str(m), [=]() { ranking(m, 3, { 0, 1, 2 }); });
  for (int m = 1; m <= (th ? 10 : 8); m++) mc::add("fronts 1x4 " + mc::str(m), [=]() { ranking(m, 1, { 0, 1, 2, 3 }); });
  mc::add("fronts infinite", []() { ranking(4, 2, { -INF, 0, INF }); });
  for (int m = 3; m <= 5; m++) for (int T = 2; T < m; T++)
    mc::add("selection " + mc::str(m) + " " + mc::str(T), [=]() { selection<std::less<int>>(m, T, m == 5 ? 2 : 3); if (m < 5) selection<std::greater<int>>(m, T, 2); });
  for (int m : { 12, 33, 70, 130 })
    mc::add("fronts large " + mc::str(m), [=]() {
      for (int k = 1; k <= 6; k++) for (int kind = 0; kind < 5; kind++) for (int order = 0; order < 3; order++) {
        Population p(m, 1, k);
        for (int i = 0; i < m; i++) {
          int r = order == 0 ? i : order == 1 ? m - 1 - i : int((uint64_t(i) * 37) % 131);
          for (int j = 0; j < k; j++)
            p.values[size_t(i)][size_t(j)] = kind == 0 ? double(r) : kind == 1 ? double(r / 4 + ((r + j) % 4 == 0)) : kind == 2 ? double(mix64(uint64_t(r * 8 + j)) % 5) : kind == 3 ? (j % 2 ? -r : r) : double(mix64(uint64_t(r * 8 + j))) / 1e15;
        }
        auto want = fronts(p.values); std::vector<int> got(size_t(m), 3);
        Nsga2ParetoFrontComputation c(p); c.compute(got);
        MC_CHECK(got == want, "fronts", "population " << m << " with " << k << " objectives, kind " << kind << " order " << order << ": fronts " << mc::vec(got) << " instead of " << mc::vec(want));
        mc::state(mc::Hash().add(m).add(k).add(kind).add(order));
      }
    });
  // NSGA-II
  for (int which = 0; which <= 8; which++)
    for (int k : { 2, 3, 1 }) {
      mc::add("nsga2 parents " + mc::str(which) + " " + mc::str(k), [=]() {
        for (double rate : { 0.0, 1.0, 0.3 }) for (double cross : { 0.0, 1.0, 0.5 }) for (int mu : { 3, 4 }) {
          Cfg c{ 2, k, mu, 2, 1, which, rate, cross, rate < 1 };
          run(c, mc::bounds(2 * mu + (th ? 3 : 0), 0, 2));
          c.n = 3; c.iters = 2; run(c, mc::bounds(th ? 7 : 3, 1, 2));
          c.iters = 4; c.nomut = rate == 0; run(c, mc::bounds(th ? 4 : 1, 1, th ? 8 : 2));
        }
      });
      mc::add("nsga2 longer " + mc::str(which) + " " + mc::str(k), [=]() {
        for (int mu : { 3, 4, 5 }) for (int T = 2; T < mu; T++) for (double cross : { 0.0, 1.0, 0.8 }) {
          if (!th && mu == 5 && (T == 3 || (cross == 0.8 && T == 2))) continue;
          Cfg c{ 4, k, mu, T, 3, which, 0.25, cross, false };
          if (mu == 5 && which == 0) c.iters = 1;
          run(c, mc::bounds(1, 1, th ? 12 : mu == 5 ? 1 : 2));
          c.rate = 0; c.nomut = true; run(c, mc::bounds(1, 1, th ? 12 : mu == 5 ? 1 : 2));
          c.rate = 1; run(c, mc::bounds(1, 1, th ? 8 : 1));
        }
      });
      mc::add("nsga2 reuse " + mc::str(which) + " " + mc::str(k), [=]() {
        for (int mu : { 3, 4 }) for (double cross : { 0.0, 0.7 }) reuse(Cfg{ 3, k, mu, 2, 2, which, cross == 0 ? 1.0 : 0.3, cross, false }, mc::bounds(th ? 6 : 2, 1, 2));
      });
    }
  // more objectives and larger populations along a few executions
  for (int which : { 3, 4, 5, 8 }) for (int k : { 4, 5, 6 })
    mc::add("nsga2 many objectives " + mc::str(which) + " " + mc::str(k), [=]() { for (int mu : { 3, 4 }) { Cfg c{ 4, k, mu, 2, 3, which, 0.25, 0.8, false }; run(c, mc::bounds(1, 1, 2)); } });
  for (double cross : { 0.0, 0.25, 0.8, 1.0 }) for (double rate : { 0.0, 0.2, 0.5 }) for (int mu : { 3, 4 })
    mc::add("nsga2 law " + mc::str(cross) + " " + mc::str(rate) + " " + mc::str(mu), [=]() {
      for (uint64_t seed = 0; seed < (th ? 12u : 2u); seed++) for (int which : { 0, 3, 4, 6 }) law(Cfg{ 2, 2, mu, 2, 1, which, rate, cross, true }, seed);
    });
  for (double rate : { 0.5, 0.8 })
    mc::add("nsga2 law rejection " + mc::str(rate), [=]() { for (uint64_t seed = 0; seed < 6; seed++) for (int which : { 0, 3, 4, 6 }) law(Cfg{ 2, 2, 3, 2, 1, which, rate, 0.0, false }, seed); });
  mc::add("nsga2 iterations", []() {
    // an unlimited number of iterations ends only by the function
    struct Stop {};
    for (int it : { 0, -1, -5 }) {
      Nsga2 a(3, 2, 4); if (it != -5) a.set_num_iterations(it);
      Table f(3, 2, table(3, 2, 3)); f.hook = [](long i) { if (i == 403) throw Stop(); };
      bool stopped = false;
      try { a.minimize({ &f }); } catch (Stop&) { stopped = true; }
      MC_CHECK(stopped, "iterations", "number of iterations " << it << " ends after " << f.trace.size() << " evaluations");
    }
  });
}
