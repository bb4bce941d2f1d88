// C15: populations, selection and crossover.
#include "algs.hh"
#include <map>
using namespace hnco::algorithm;
using namespace vp;

namespace {

using Tab = std::vector<double>;

/// All weak orders of m values, negative ones and infinities included
std::vector<Tab> weak_orders(int m) {
  std::vector<Tab> r;
  uint64_t N = 1; for (int i = 0; i < m; i++) N *= uint64_t(m);
  for (uint64_t c = 0; c < N; c++) {
    std::vector<int> d; uint64_t x = c; for (int i = 0; i < m; i++) { d.push_back(int(x % uint64_t(m))); x /= uint64_t(m); }
    int top = *std::max_element(d.begin(), d.end()); bool ok = true;
    for (int k = 0; k <= top; k++) ok &= std::count(d.begin(), d.end(), k) > 0;
    if (!ok) continue;
    Tab t; for (int k : d) t.push_back(k - 1.5);
    r.push_back(t);
  }
  return r;
}

std::vector<Tab> tables(int m) {
  auto r = weak_orders(m);
  auto s = r.size();
  for (size_t i = 0; i < s; i += 3) { Tab t = r[i]; double mx = *std::max_element(t.begin(), t.end()), mn = *std::min_element(t.begin(), t.end()); for (auto& v : t) { if (v == mx) v = INFINITY; else if (v == mn) v = -INFINITY; } r.push_back(t); }
  return r;
}

bit_vector_t label(int i, int n = 4) { return bv(uint64_t(i * 5 + 3) % 16, n); }

Population make(const Tab& t) {
  Population p(int(t.size()), 4);
  for (size_t i = 0; i < t.size(); i++) { p.bvs[i] = label(int(i)); p.values[i] = t[i]; }
  return p;
}

void intact(const Population& p, const Tab& t, const char *what) {
  for (size_t i = 0; i < t.size(); i++) MC_CHECK(p.bvs[i] == label(int(i)) && p.values[i] == t[i], "intact", what << ": individual " << i << " changed");
}

using Dist = std::map<std::vector<int>, double>;

int index_of(const bit_vector_t& x, int m) { for (int i = 0; i < m; i++) if (label(i) == x) return i; return -1; }

void compare(const Dist& got, const Dist& want, const std::string& what) {
  double total = 0; for (auto& g : got) total += g.second;
  if (mc::replaying()) return;
  for (auto& w : want) {
    auto it = got.find(w.first);
    MC_CHECK(w.second < 1e-12 || it != got.end(), "distribution", what << ": outcome " << mc::vec(w.first) << " has probability " << w.second << " and never happens");
    if (std::fabs(total - 1) < 1e-9) MC_CHECK(std::fabs((it == got.end() ? 0 : it->second) - w.second) < 1e-9, "distribution", what << ": outcome " << mc::vec(w.first) << " has probability " << (it == got.end() ? 0 : it->second) << " instead of " << w.second);
  }
  for (auto& g : got) { auto it = want.find(g.first); MC_CHECK(it != want.end() && it->second > 0, "distribution", what << ": impossible outcome " << mc::vec(g.first)); }
}

void sorting(int m) {
  for (auto& t : tables(m)) {
    Dist order, want;
    std::vector<int> id; for (int i = 0; i < m; i++) id.push_back(i);
    double count = 0;
    do { bool ok = true; for (int i = 0; i + 1 < m; i++) ok &= t[size_t(id[size_t(i)])] >= t[size_t(id[size_t(i + 1)])]; if (ok) { want[id] = 1; count++; } } while (std::next_permutation(id.begin(), id.end()));
    for (auto& w : want) w.second = 1 / count;
    for (int k = 0; k <= m; k++) {
      Dist got;
      mc::explore([&]() {
        Population p = make(t);
        { mc::Fixed f(uint64_t(k)); perm_shuffle(p.permutation); }
        if (k) p.partial_sort(k); else p.sort();
        intact(p, t, "sort");
        MC_CHECK(perm_is_valid(p.permutation), "permutation", mc::vec(p.permutation));
        int s = k ? k : m;
        std::vector<int> o;
        for (int i = 0; i < s; i++) {
          int j = index_of(p.get_best_bv(i), m);
          o.push_back(j);
          MC_CHECK(p.get_best_value(i) == t[size_t(j)] && p.get_best_index(i) == j, "accessors", "rank " << i);
          if (i) MC_CHECK(p.get_best_value(i - 1) >= p.get_best_value(i), "order", mc::vec(t) << " sorted as " << mc::vec(p.permutation) << (k ? " partially" : ""));
          for (int r = s; r < m; r++) MC_CHECK(p.values[size_t(p.permutation[size_t(r)])] <= p.get_best_value(i), "order", mc::vec(t) << " sorted as " << mc::vec(p.permutation) << " for the " << k << " best");
        }
        MC_CHECK(p.get_best_bv() == p.get_best_bv(0) && p.get_best_value() == p.get_best_value(0) && p.get_best_index() == p.get_best_index(0), "accessors", "best");
        if (!k) {
          for (int i = 0; i < m; i++) {
            MC_CHECK(p.get_worst_bv(i) == p.get_best_bv(m - 1 - i), "accessors", "worst " << i);
            auto e = p.get_equivalent_bvs(i);
            int a = 0, b = m;
            while (a < m && p.get_best_value(a) > p.get_best_value(i)) a++;
            b = a; while (b < m && p.get_best_value(b) == p.get_best_value(i)) b++;
            MC_CHECK(e.first == a && e.second == b, "equivalent", "rank " << i << " of " << mc::vec(t) << ": [" << e.first << ", " << e.second << ")");
          }
          got[o] += mc::prob();
        }
        mc::state(mc::Hash().addv(p.permutation).add(k));
      });
      if (!k) compare(got, want, "sort of " + mc::vec(t));
    }
  }
}

void evaluation(int m) {
  for (int n : { 1, 3 }) {
    mc::explore(mc::bounds(6, 0, 2), [&]() {
      Population p(m, n);
      MC_CHECK(p.get_size() == m && p.get_bv_size() == n, "size", "");
      p.random();
      for (auto& x : p.bvs) MC_CHECK(int(x.size()) == n && valid(x), "random", show(x));
      auto before = p.bvs;
      for (auto& l : lands(n)) {
        Probe f(n, l.f);
        p.evaluate(&f);
        MC_CHECK(p.bvs == before && int(f.trace.size()) == m, "evaluate", "");
        for (int i = 0; i < m; i++) MC_CHECK(p.values[size_t(i)] == l.f(before[size_t(i)]), "evaluate", "individual " << i);
      }
    });
  }
}

/// Winners of consecutive tournaments for every order of the individuals
Dist tournaments(const Tab& t, int ts, int selects) {
  const int m = int(t.size());
  Dist one;    // winners of a whole round
  std::vector<int> id; for (int i = 0; i < m; i++) id.push_back(i);
  double count = 0;
  do {
    std::vector<int> w;
    for (int s = 0; s + ts <= m; s += ts) { int b = id[size_t(s)]; for (int c = s + 1; c < s + ts; c++) if (t[size_t(id[size_t(c)])] > t[size_t(b)]) b = id[size_t(c)]; w.push_back(b); }
    one[w]++; count++;
  } while (std::next_permutation(id.begin(), id.end()));
  Dist r; r[{}] = 1;
  while (int(r.begin()->first.size()) < selects) {
    Dist q;
    for (auto& a : r) for (auto& b : one) { auto k = a.first; for (int x : b.first) if (int(k.size()) < selects) k.push_back(x); q[k] += a.second * b.second / count; }
    r = q;
  }
  return r;
}

} // namespace

bit_vector_t BV(int n, uint64_t u) { bit_vector_t x(static_cast<size_t>(n)); for (int i = 0; i < n; i++) x[size_t(i)] = bit_t(u >> i & 1); return x; }

void mc_register() {
  const bool th = mc::thorough();
  for (int m = 1; m <= (th ? 5 : 4); m++) {
    mc::add("sort " + mc::str(m), [=]() { sorting(m); });
    mc::add("evaluate " + mc::str(m), [=]() { evaluation(m); });
  }
  // large populations (std::sort changes its method), a few shuffles
  for (int m : { 17, 33, 100 })
    mc::add("sort " + mc::str(m), [=]() {
      for (int kind = 0; kind < 4; kind++) {
        Tab t; for (int i = 0; i < m; i++) t.push_back(kind == 0 ? double(mix64(uint64_t(i)) % 7) : kind == 1 ? double(i) : kind == 2 ? 1.0 : double(mix64(uint64_t(i) + 9)) / 1e18);
        for (int k : { 0, 1, m / 3, m })
          mc::explore(mc::bounds(0, 1, th ? 10 : 2), [&]() {
            Population p(m, 2); p.values = t;
            if (k) p.partial_sort(k); else p.sort();
            MC_CHECK(perm_is_valid(p.permutation), "permutation", "");
            int s = k ? k : m;
            for (int i = 1; i < s; i++) MC_CHECK(p.get_best_value(i - 1) >= p.get_best_value(i), "order", "rank " << i);
            for (int i = s; i < m; i++) MC_CHECK(p.values[size_t(p.permutation[size_t(i)])] <= p.get_best_value(s - 1), "order", "rank " << i);
            if (!k) for (int i : { 0, 1, m / 3, m / 2, m - 1 }) {
              auto e = p.get_equivalent_bvs(i); int a = i, b = i + 1;
              while (a > 0 && p.get_best_value(a - 1) == p.get_best_value(i)) a--;
              while (b < m && p.get_best_value(b) == p.get_best_value(i)) b++;
              MC_CHECK(e.first == a && e.second == b, "equivalent", "rank " << i << " of " << m << ": [" << e.first << ", " << e.second << ") instead of [" << a << ", " << b << ")");
            }
          });
      }
    });
  mc::add("populations must not be empty", [=]() {
    for (auto z : { std::make_pair(0, 3), std::make_pair(3, 0), std::make_pair(-1, 2), std::make_pair(2, -1) }) {
      bool thrown = false;
      try { Population p(z.first, z.second); } catch (std::exception&) { thrown = true; }
      MC_CHECK(thrown, "sizes", z.first << " " << z.second);
    }
  });
  // selection for reproduction
  for (int m = 2; m <= 5; m++)
    mc::add("uniform selection " + mc::str(m), [=]() {
      for (auto& t : { Tab(size_t(m), 1.0), tables(m > 4 ? 4 : m).back() }) {
        Tab u = t; u.resize(size_t(m), -2.0);
        Dist got, want;
        for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) want[{ a, b }] = 1.0 / m / m;
        mc::explore([&]() {
          Population p = make(u); UniformSelection s(p); s.init();
          std::vector<int> o; for (int i = 0; i < 2; i++) o.push_back(index_of(s.select(), m));
          got[o] += mc::prob();
        });
        compare(got, want, "uniform selection");
      }
    });
  for (int m = 3; m <= (th ? 6 : 5); m++)
    for (int ts = 2; ts < m; ts++)
      mc::add("tournament selection " + mc::str(m) + " size " + mc::str(ts), [=]() {
        auto ts_ = m <= 4 ? tables(m) : std::vector<Tab>{ { 0, 1, 2, 3, 4, 5 }, { 1, 1, 0, 2, 2, 0 }, { 5, 4, 4, 4, 0, 9 } };
        for (auto t : ts_) {
          t.resize(size_t(m));
          int per = m / ts;
          for (int selects : { 1, per, per + 1 }) {
            if (m > 4 && selects > per) continue;
            Dist got;
            mc::explore([&]() {
              Population p = make(t); TournamentSelection s(p); s.set_tournament_size(ts);
              // a selection object is initialized again for every generation
              { mc::Fixed f(5); s.init(); s.select(); }
              s.init();
              std::vector<int> o; for (int i = 0; i < selects; i++) o.push_back(index_of(s.select(), m));
              got[o] += mc::prob();
              intact(p, t, "tournament");
            });
            compare(got, tournaments(t, ts, selects), "tournaments of " + mc::str(ts) + " among " + mc::vec(t));
          }
        }
      });
  mc::add("tournament sizes", [=]() {
    for (int m = 3; m < 6; m++) for (int ts = -1; ts < m + 2; ts++) {
      bool thrown = false;
      Population p = make(Tab(size_t(m), 1.0)); TournamentSelection s(p);
      try { s.set_tournament_size(ts); s.init(); } catch (std::exception&) { thrown = true; }
      MC_CHECK(thrown == !(ts >= 2 && ts < m), "tournament size", "size " << ts << " among " << m);
    }
  });
  for (int m = 2; m <= 4; m++)
    mc::add("proportionate and Boltzmann selection " + mc::str(m), [=]() {
      for (auto t : weak_orders(m)) {
        for (auto& v : t) v = 2 * v + 4;
        double s0 = 0; for (double v : t) s0 += v;
        Dist got, want;
        for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) want[{ a, b }] = t[size_t(a)] / s0 * t[size_t(b)] / s0;
        mc::explore([&]() {
          Population p = make(t); FitnessProportionateSelection s(p);
          Population q = p;
          s.init();
          std::vector<int> o; for (int i = 0; i < 2; i++) o.push_back(index_of(s.select(), m));
          got[o] += mc::prob();
        });
        compare(got, want, "fitness proportionate selection among " + mc::vec(t));
        for (double beta : { 0.0, 1.0, 0.25, 40.0 }) {
          Tab z; double mx = *std::max_element(t.begin(), t.end()); s0 = 0;
          for (double v : t) { z.push_back(std::exp(beta * (v - mx))); s0 += z.back(); }
          Dist g2, w2;
          for (int a = 0; a < m; a++) w2[{ a }] = z[size_t(a)] / s0;
          mc::explore([&]() {
            Tab other(t.rbegin(), t.rend());
            Population p = make(other); BoltzmannSelection s(p); if (beta != 1) s.set_beta(beta);
            s.init();
            p.values = t; s.init();      // the population changed
            int drawn = index_of(s.select(), m);   // before the probability is read
            g2[{ drawn }] += mc::prob();
          });
          compare(g2, w2, "Boltzmann selection among " + mc::vec(t) + " beta " + mc::str(beta));
        }
      }
    });
  // selection for replacement
  for (int plus = 0; plus < 2; plus++)
    for (int mu = 1; mu <= 3; mu++)
      for (int lambda = plus ? 1 : mu; lambda <= (th ? 4 : 3); lambda++)
        mc::add(std::string(plus ? "plus" : "comma") + " selection " + mc::str(mu) + " " + mc::str(lambda), [=]() {
          for (auto& t : weak_orders(plus ? mu + lambda > 5 ? 5 : mu + lambda : lambda)) {
            mc::explore(mc::bounds(plus ? 5 : 6, 1), [&]() {
              Population pa(mu, 4), of(lambda, 4);
              std::unique_ptr<PlusSelection> ps; std::unique_ptr<CommaSelection> cs;
              if (plus) ps = std::make_unique<PlusSelection>(pa, of); else cs = std::make_unique<CommaSelection>(pa, of);
              for (int round = 0; round < 2; round++) {
                std::vector<std::pair<double, bit_vector_t>> pool;
                for (int i = 0; i < mu; i++) { if (!round) { pa.bvs[size_t(i)] = label(i); pa.values[size_t(i)] = plus ? t[size_t(i)] : 100 + i; } if (plus) pool.push_back({ pa.values[size_t(i)], pa.bvs[size_t(i)] }); }
                for (int i = 0; i < lambda; i++) { of.bvs[size_t(i)] = label(5 + i + 4 * round); of.values[size_t(i)] = t[size_t((plus ? mu : 0) + (i + round) % lambda) % t.size()]; pool.push_back({ of.values[size_t(i)], of.bvs[size_t(i)] }); }
                if (plus) ps->select(); else cs->select();
                std::stable_sort(pool.begin(), pool.end(), [](auto& a, auto& b) { return a.first > b.first; });
                std::multiset<std::pair<double, bit_vector_t>> all(pool.begin(), pool.end());
                for (int i = 0; i < mu; i++) {
                  MC_CHECK(pa.get_best_value(i) == pool[size_t(i)].first, "replacement", "rank " << i << " has value " << pa.get_best_value(i) << " instead of " << pool[size_t(i)].first);
                  auto it = all.find({ pa.get_best_value(i), pa.get_best_bv(i) });
                  MC_CHECK(it != all.end(), "replacement", "parent " << show(pa.get_best_bv(i)) << " with value " << pa.get_best_value(i) << " is not in the pool");
                  all.erase(it);
                }
                for (auto& x : of.bvs) MC_CHECK(x.size() == 4, "sizes", "");
                mc::Hash h; for (auto& x : pa.bvs) h.addv(x); mc::state(h);
              }
            });
          }
        });
  // crossover
  for (int n = 1; n <= (th ? 4 : 3); n++)
    mc::add("crossover " + mc::str(n), [=]() {
      for (auto& x : domain(n, 12)) for (auto& y : domain(n, 12))
        for (double bias : { -1.0, -2.0, 0.5, 0.1, 0.9 }) {
          std::map<bit_vector_t, double> d; double total = 0;
          mc::explore([&]() {
            bit_vector_t o(size_t(n), int(bits(x) & 1)), a = x, b = y;
            if (bias == -1.0) { UniformCrossover c; c.recombine(a, b, o); }
            else { BiasedCrossover c; if (bias > 0) { c.set_bias(0.3); c.set_bias(bias); } c.recombine(a, b, o); }
            MC_CHECK(a == x && b == y && int(o.size()) == n && valid(o), "crossover", show(o));
            d[o] += mc::prob(); total += mc::prob();
          });
          if (mc::replaying()) continue;
          double q = bias > 0 ? bias : 0.5;
          for (auto& z : domain(n, 12)) {
            double e = 1; for (size_t i = 0; i < z.size(); i++) e *= (z[i] == y[i] ? q : 0) + (z[i] == x[i] ? 1 - q : 0);
            double g = d.count(z) ? d[z] : 0;
            MC_CHECK((e > 0) == (g > 0), "crossover", show(x) << " and " << show(y) << " give " << show(z) << (g > 0 ? "" : " never"));
            if (std::fabs(total - 1) < 1e-9) MC_CHECK(std::fabs(g - e) < 1e-9, "crossover", show(x) << " and " << show(y) << " give " << show(z) << " with probability " << g << " instead of " << e);
          }
        }
    });
  // large populations and long bit vectors, along a few executions
  for (auto z : { std::make_pair(1, 100), std::make_pair(30, 70), std::make_pair(64, 65), std::make_pair(100, 130), std::make_pair(17, 300) })
    mc::add("large replacement " + mc::str(z.first) + " " + mc::str(z.second), [=]() {
      const int mu = z.first, lambda = z.second;
      for (int plus = 0; plus < 2; plus++) for (int kind = 0; kind < 5; kind++)
        mc::explore(mc::bounds(0, 0, 3), [&]() {
          auto value = [&](int i) { return kind == 0 ? double(i) : kind == 1 ? -double(i) : kind == 2 ? 1.0 : kind == 3 ? double(mix64(uint64_t(i)) % 9) : double(mix64(uint64_t(i) + 77)) / 1e18; };
          auto name = [](int i) { return BV(12, uint64_t(i)); };
          Population pa(mu, 12), of(lambda, 12);
          std::unique_ptr<PlusSelection> ps; std::unique_ptr<CommaSelection> cs;
          if (plus) ps = std::make_unique<PlusSelection>(pa, of); else cs = std::make_unique<CommaSelection>(pa, of);
          int id = 0;
          for (int i = 0; i < mu; i++) { pa.bvs[size_t(i)] = name(id); pa.values[size_t(i)] = value(id); id++; }
          for (int round = 0; round < 3; round++) {
            std::vector<std::pair<double, bit_vector_t>> pool;
            if (plus) for (int i = 0; i < mu; i++) pool.push_back({ pa.values[size_t(i)], pa.bvs[size_t(i)] });
            for (int i = 0; i < lambda; i++) { of.bvs[size_t(i)] = name(id); of.values[size_t(i)] = value(id); id++; pool.push_back({ of.values[size_t(i)], of.bvs[size_t(i)] }); }
            if (plus) ps->select(); else cs->select();
            std::stable_sort(pool.begin(), pool.end(), [](auto& a, auto& b) { return a.first > b.first; });
            std::multiset<std::pair<double, bit_vector_t>> all(pool.begin(), pool.end());
            for (int i = 0; i < mu; i++) {
              MC_CHECK(pa.get_best_value(i) == pool[size_t(i)].first, "replacement", "rank " << i << " has value " << pa.get_best_value(i) << " instead of " << pool[size_t(i)].first);
              auto it = all.find({ pa.get_best_value(i), pa.get_best_bv(i) });
              MC_CHECK(it != all.end(), "replacement", "parent " << show(pa.get_best_bv(i)) << " with value " << pa.get_best_value(i) << " is not in the pool");
              all.erase(it);
            }
          }
        });
    });
  for (int m : { 20, 65, 130 })
    mc::add("large tournaments " + mc::str(m), [=]() {
      for (int ts : { 2, 3, 10, m - 1 }) for (int kind = 0; kind < 2; kind++)
        mc::explore(mc::bounds(0, 1, 2), [&]() {
          Population p(m, 12); for (int i = 0; i < m; i++) { p.bvs[size_t(i)] = BV(12, uint64_t(i)); p.values[size_t(i)] = kind ? double(i) : double((i * 37) % 131); }
          TournamentSelection s(p); s.set_tournament_size(ts); s.init();
          for (int round = 0; round < 2; round++) {
            // disjoint tournaments: the j-th worst winner beats at least the members of j tournaments but itself
            std::vector<double> w; std::set<uint64_t> seen;
            for (int i = 0; i < m / ts; i++) { auto& x = s.select(); uint64_t b = bits(x); MC_CHECK(b < uint64_t(m) && seen.insert(b).second, "tournament", show(x) << " wins twice"); w.push_back(p.values[b]); }
            std::sort(w.begin(), w.end());
            for (size_t j = 0; j < w.size(); j++) {
              long below = 0; for (double v : p.values) below += v <= w[j];
              MC_CHECK(below >= long(j + 1) * ts, "tournament", "the winner number " << j << " from the worst has only " << below - 1 << " individuals below it, tournaments of size " << ts);
            }
            if (m % ts == 0) MC_CHECK(w.back() == *std::max_element(p.values.begin(), p.values.end()), "tournament", "the best individual did not win");
            if (round == 0) s.init();
          }
        });
    });
  for (int n : { 31, 32, 33, 64, 65, 100, 257 })
    mc::add("long crossover " + mc::str(n), [=]() {
      for (int swap = 0; swap < 2; swap++) for (double bias : { -1.0, -2.0, 0.5, 0.1, 0.9 }) {
        bit_vector_t x(size_t(n), 0), y(size_t(n), 1); if (swap) std::swap(x, y);
        std::vector<int> from1(size_t(n), 0), from2(size_t(n), 0);
        mc::explore(mc::bounds(0, 1, 2), [&]() {
          bit_vector_t o(size_t(n), 0);
          if (bias == -1.0) { UniformCrossover c; c.recombine(x, y, o); }
          else { BiasedCrossover c; if (bias > 0) c.set_bias(bias); c.recombine(x, y, o); }
          MC_CHECK(int(o.size()) == n && valid(o), "crossover", show(o));
          for (size_t i = 0; i < o.size(); i++) (o[i] == x[i] ? from1 : from2)[i]++;
        });
        if (mc::replaying()) continue;
        for (size_t i = 0; i < size_t(n); i++) MC_CHECK(from1[i] && from2[i], "crossover", "n " << n << ": component " << i << " always comes from parent " << (from1[i] ? 1 : 2) << ", bias " << bias);
      }
    });
}
