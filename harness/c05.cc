// C05: random neighborhoods and mutation operators.
#include "common.hh"
#include <map>
#include "hnco/neighborhoods/neighborhood.hh"
using namespace hnco;
using namespace hnco::neighborhood;
using namespace vp;

using Maker = std::function<std::unique_ptr<Neighborhood>()>;
using Legal = std::function<bool(int)>;   // legal numbers of flipped bits

static void check_flips(Neighborhood& nb, const bit_vector_t& from, const bit_vector_t& to, const Legal& legal, const char *k) {
  int d = dist(from, to);
  MC_CHECK(to.size() == from.size() && valid(to), std::string(k) + "-valid", show(to));
  MC_CHECK(legal(d), std::string(k) + "-distance", show(from) << " -> " << show(to));
  auto& f = nb.get_flipped_bits();
  std::vector<int> want;
  for (size_t i = 0; i < from.size(); i++) if (from[i] != to[i]) want.push_back(int(i));
  MC_CHECK(want == std::vector<int>(f.begin(), f.end()), std::string(k) + "-flipped-bits", mc::vec(f) << " for " << show(from) << " -> " << show(to));
}

/// Every sequence of operations up to the given length against the obvious model
static void machine(const Maker& make, int n, const Legal& legal, int ops, const mc::Opt& o) {
  mc::explore(o, [&]() {
    auto nb = make();
    bit_vector_t origin(n);
    bool proposed = false;
    int moves = 0;
    bit_vector_t start = bv(0x2d, n);
    nb->set_origin(start); origin = start;
    for (int i = 0; i < ops; i++) {
      if (proposed) {
        bit_vector_t cand = nb->get_candidate();
        switch (choose(3)) {
        case 0: nb->keep(); origin = cand; break;
        case 1: nb->forget(); break;
        case 2: origin = bv(0x33, n); nb->set_origin(origin); break;
        }
        proposed = false;
        MC_CHECK(nb->get_candidate() == origin, "resync", show(nb->get_candidate()) << " vs " << show(origin));
      } else {
        switch (choose(3)) {
        case 0: {
          nb->propose();
          proposed = true;
          moves++;
          check_flips(*nb, origin, nb->get_candidate(), legal, "propose");
          break;
        }
        case 1: {
          bit_vector_t x = bv(0x1e, n), y = x;
          nb->mutate(y);
          check_flips(*nb, x, y, legal, "mutate");
          MC_CHECK(nb->get_candidate() == origin, "mutate-candidate", "");
          break;
        }
        case 2: {
          bit_vector_t x = bv(0x15, n), x0 = x, y(n, 1);
          nb->map(x, y);
          MC_CHECK(x == x0, "map-input", "");
          check_flips(*nb, x, y, legal, "map");
          MC_CHECK(nb->get_candidate() == origin, "map-candidate", "");
          break;
        }
        }
      }
      MC_CHECK(nb->get_origin() == origin, "origin", show(nb->get_origin()) << " vs " << show(origin));
      mc::state(mc::Hash().addv(nb->get_origin()).addv(nb->get_candidate()).add(int(proposed)).add(i));
    }
  });
}

/// The set of reachable moves is exactly the advertised neighborhood
static void support(const Maker& make, int n, const Legal& legal, const mc::Opt& o) {
  for (int op = 0; op < 3; op++) {
    std::set<bit_vector_t> seen;
    bit_vector_t from = bv(0x2d, n);
    mc::explore(o, [&]() {
      auto nb = make();
      bit_vector_t y(n);
      nb->set_origin(from);
      if (op == 0) { nb->propose(); y = nb->get_candidate(); }
      else if (op == 1) { y = from; nb->mutate(y); }
      else nb->map(from, y);
      check_flips(*nb, from, y, legal, "support");
      seen.insert(y);
    });
    size_t want = 0;
    for (auto& y : domain(n, 12)) want += legal(dist(from, y)) ? 1 : 0;
    MC_CHECK(seen.size() == want, "support", "operation " << op << ": " << seen.size() << " reachable neighbors instead of " << want);
  }
}

static void both(const std::string& name, const Maker& make, int n, const Legal& legal, int sdepth, int sdev) {
  bool T = mc::thorough();
  mc::add("machine-" + name, [=]() {
    mc::Opt o = mc::bounds(T ? 8 : 6, 1); o.max_exec = T ? 6000000 : 1500000;
    machine(make, n, legal, 4, o);
    mc::Opt p = mc::bounds(T ? 3 : 2, 1, 2);
    machine(make, n, legal, 7, p);
  });
  if (sdepth) mc::add("support-" + name, [=]() {
    mc::Opt o = mc::bounds(sdepth, sdev, 2); o.max_exec = 3000000;
    support(make, n, legal, o);
  });
}

/// Exact distribution of the move; law gives the probability of each candidate
static void distribution(const std::string& name, const Maker& make, int n, const std::function<double(const bit_vector_t&, const bit_vector_t&)>& law, int depth, double mass) {
  mc::add("distribution-" + name, [=]() {
    for (int op = 0; op < 3; op++)
      for (int second = 0; second < 2; second++) {
        bit_vector_t from = bv(0x2d, n);
        std::map<bit_vector_t, double> d;
        double total = 0;
        mc::Opt o; o.depth = depth;
        std::vector<double> th; for (int j = 1; j <= n; j++) for (int i = 1; i < j; i++) th.push_back(double(i) / j);
        mc::cells(o, th);
        mc::explore(o, [&]() {
          auto nb = make();
          bit_vector_t y(n);
          nb->set_origin(from);
          if (second) { mc::Fixed f(uint64_t(op) + 3); y = from; nb->mutate(y); nb->set_origin(from); }
          if (op == 0) { nb->propose(); y = nb->get_candidate(); }
          else if (op == 1) { y = from; nb->mutate(y); }
          else nb->map(from, y);
          mc::state(mc::Hash().addv(y).add(op).add(second));
          if (mc::points() > depth) return;
          d[y] += mc::prob(); total += mc::prob();
        });
        if (mc::replaying()) continue;
        if (!(total >= mass / 2)) continue;   // too few executions end within the depth to decide
        for (auto& y : domain(n, 12)) {
          double e = law(from, y), g = d.count(y) ? d[y] / total : 0;
          MC_CHECK(std::fabs(g - e) <= (1 - total) + 1e-9, "distribution", "operation " << op << ": " << show(from) << " -> " << show(y) << " has probability " << g << " instead of " << e);
        }
      }
  });
}

void mc_register() {
  bool T = mc::thorough();
  for (int n = 1; n <= 5; n++) {
    std::string s = std::to_string(n);
    both("single-" + s, [=]() { return std::make_unique<SingleBitFlip>(n); }, n, [](int d) { return d == 1; }, 1, 0);
    for (int r = 1; r <= n; r++) {
      std::string q = s + "-" + std::to_string(r);
      both("ball-" + q, [=]() { return std::make_unique<HammingBall>(n, r); }, n, [=](int d) { return d >= 1 && d <= r; }, n + 2, 1);
      both("sphere-" + q, [=]() { return std::make_unique<HammingSphere>(n, r); }, n, [=](int d) { return d == r; }, n + 2, 1);
      for (int r0 = 1; r0 <= n; r0++)
        if (r0 != r)
          both("sphere-set-" + q + "-" + std::to_string(r0), [=]() { auto p = std::make_unique<HammingSphere>(n, r0); p->set_radius(r); return p; }, n, [=](int d) { return d == r; }, n + 2, 1);
    }
    Legal some = [](int d) { return d >= 1; }, any = [](int) { return true; };
    both("standard-" + s, [=]() { return std::make_unique<StandardBitMutation>(n); }, n, n == 1 ? Legal([](int d) { return d == 1; }) : some, n, 1);
    for (double p : { 0.001, 0.2, 0.5, 0.9 }) {
      std::string q = s + "-" + mc::str(p).substr(0, 5);
      both("standard-p-" + q, [=]() { return std::make_unique<StandardBitMutation>(n, p); }, n, some, n, 1);
      both("standard-rate-" + q, [=]() { auto m = std::make_unique<StandardBitMutation>(n, 0.4); m->set_mutation_rate(p); return m; }, n, some, n + 2, 0);
      both("standard-rate-twice-" + q, [=]() { auto m = std::make_unique<StandardBitMutation>(n, 0.4); m->set_mutation_rate(0.01); m->set_mutation_rate(p); return m; }, n, some, n + 2, 0);
      both("standard-allow-" + q, [=]() { auto m = std::make_unique<StandardBitMutation>(n, p); m->set_allow_no_mutation(true); return m; }, n, any, n, 0);
      both("standard-rate-allow-" + q, [=]() { auto m = std::make_unique<StandardBitMutation>(n, p); m->set_allow_no_mutation(true); m->set_mutation_rate(p); return m; }, n, any, n + 2, 0);
      both("standard-disallow-" + q, [=]() { auto m = std::make_unique<StandardBitMutation>(n, p); m->set_allow_no_mutation(true); m->set_allow_no_mutation(false); return m; }, n, some, n, 1);
    }
    both("standard-zero-allow-" + s, [=]() { auto m = std::make_unique<StandardBitMutation>(n, 0); m->set_allow_no_mutation(true); return m; }, n, [](int d) { return d == 0; }, n, 0);
    both("standard-rate-zero-allow-" + s, [=]() { auto m = std::make_unique<StandardBitMutation>(n); m->set_allow_no_mutation(true); m->set_mutation_rate(0); return m; }, n, [](int d) { return d == 0; }, n, 0);
    both("standard-one-" + s, [=]() { return std::make_unique<StandardBitMutation>(n, 1); }, n, [=](int d) { return d == n; }, n, 0);
    both("standard-rate-one-" + s, [=]() { auto m = std::make_unique<StandardBitMutation>(n); m->set_mutation_rate(1); return m; }, n, [=](int d) { return d == n; }, n, 0);
  }
  // larger dimensions: every single departure from listed draws
  for (int n : { 7, 8, 9, 10, 16, 17, 33, 64, 65, 100, 130 })
    mc::add("long-" + std::to_string(n), [=]() {
      std::vector<std::pair<Maker, Legal>> v;
      v.push_back({ [=]() { return std::make_unique<SingleBitFlip>(n); }, [](int d) { return d == 1; } });
      for (int r : { 1, 2, 3, int(std::sqrt(n)), int(std::sqrt(n)) + 1, n / 2, n - 1, n }) {
        if (r > n) continue;
        v.push_back({ [=]() { return std::make_unique<HammingBall>(n, r); }, [=](int d) { return d >= 1 && d <= r; } });
        v.push_back({ [=]() { return std::make_unique<HammingSphere>(n, r); }, [=](int d) { return d == r; } });
      }
      for (double p : { 0.5 / n, 1.0 / n, 0.3 })
        for (int k = 0; k < 3; k++)
          v.push_back({ [=]() {
            auto m = std::make_unique<StandardBitMutation>(n, p);
            if (k >= 1) m->set_mutation_rate(p);
            if (k == 2) m->set_allow_no_mutation(true);
            return m; }, [=](int d) { return k == 2 || d >= 1; } });
      // every number of flips of a ball can be drawn
      for (int r : { 2, 5, 8 }) if (r < n) {
        std::set<int> seen;
        mc::explore(mc::bounds(1, n <= 33 ? 1 : 0, 4), [&]() {
          HammingBall b(n, r); b.set_origin(bit_vector_t(size_t(n)));
          b.propose(); seen.insert(weight(b.get_candidate()));
        });
        if (!mc::replaying()) for (int d = 1; d <= r; d++) MC_CHECK(seen.count(d), "support", "no move of a ball of radius " << r << " in dimension " << n << " flips " << d << " bits");
      }
      for (auto& x : v) {
        machine(x.first, n, x.second, 4, mc::bounds(1, n <= 20 ? 1 : 0, T ? 20 : 4));
      }
    });
  // distributions
  auto binom = [](int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; };
  for (int n = 1; n <= (T ? 6 : 5); n++) {
    std::string s = std::to_string(n);
    distribution("single-" + s, [=]() { return std::make_unique<SingleBitFlip>(n); }, n, [=](const bit_vector_t& x, const bit_vector_t& y) { return dist(x, y) == 1 ? 1.0 / n : 0; }, 4, 1 - 1e-9);
    for (int r = 1; r <= n; r++) {
      bool rejects = r < std::sqrt(n);
      distribution("sphere-" + s + "-" + std::to_string(r), [=]() { return std::make_unique<HammingSphere>(n, r); }, n, [=](const bit_vector_t& x, const bit_vector_t& y) { return dist(x, y) == r ? 1 / binom(n, r) : 0; }, rejects ? 12 : n + 2, 0.999);
      distribution("ball-" + s + "-" + std::to_string(r), [=]() { return std::make_unique<HammingBall>(n, r); }, n, [=](const bit_vector_t& x, const bit_vector_t& y) { int d = dist(x, y); return d >= 1 && d <= r ? 1 / binom(n, d) / r : 0; }, 12, 0.999);
    }
    for (double p : { -1.0, 0.2, 0.5, 0.9, 1.0 })
      for (int set = 0; set < 5; set++)   // rate given, set, set after small or large rates, after moves with them
        for (int allow = 0; allow < 2; allow++) {
          double q = p < 0 ? 1.0 / n : p;
          if (n > 4 && p > 0 && p < 0.4 && set) continue;
          bool rejects = set && (q < 1 / std::sqrt(n) || set == 2 || set == 4);
          if (rejects && n > 3) continue;   // many repeated indices
          if (set > 1 && n > 4) continue;
          if (set == 3 && n < 2) continue;
          const char *const hist[] = { "", "-set", "-set-small", "-set-large", "-small-moves" };
          distribution("standard-" + s + "-" + mc::str(p) + hist[set] + (allow ? "-allow" : ""), [=]() {
            std::unique_ptr<StandardBitMutation> m;
            if (set) {
              m = std::make_unique<StandardBitMutation>(n, 0.7);
              if (set == 2) { m->set_mutation_rate(0.8); m->set_mutation_rate(0.05); }
              if (set == 3) { m->set_mutation_rate(0.75); m->set_mutation_rate(0.95); }
              if (set == 4) { mc::Fixed f(5); m->set_mutation_rate(0.05); bit_vector_t z(n, 0); m->mutate(z); m->set_mutation_rate(0.4); m->mutate(z); m->set_origin(z); m->propose(); }
              m->set_mutation_rate(q);
            } else if (p < 0) m = std::make_unique<StandardBitMutation>(n); else m = std::make_unique<StandardBitMutation>(n, p);
            m->set_allow_no_mutation(allow); return m;
          }, n, [=](const bit_vector_t& x, const bit_vector_t& y) {
            int d = dist(x, y); double e = std::pow(q, d) * std::pow(1 - q, n - d);
            if (allow) return e;
            return d ? e / (1 - std::pow(1 - q, n)) : 0.0;
          }, rejects ? 14 : allow ? 12 : 60, rejects ? 0.95 : 0.999);
        }
    // random bit vectors
    mc::add("distribution-random-" + s, [=]() {
      for (int k = -1; k <= n; k++) {
        std::map<bit_vector_t, double> d;
        mc::Opt o; std::vector<double> th; for (int j = 1; j <= n; j++) for (int i = 1; i < j; i++) th.push_back(double(i) / j);
        th.push_back(0.5);
        mc::cells(o, th);
        mc::explore(o, [&]() { bit_vector_t x(n, k & 1); if (k < 0) bv_random(x); else bv_random(x, k); MC_CHECK(valid(x), "random", show(x)); d[x] += mc::prob(); });
        if (mc::replaying()) continue;
        for (auto& y : domain(n, 12)) { double e = k < 0 ? std::pow(0.5, n) : weight(y) == k ? 1 / binom(n, k) : 0, g = d.count(y) ? d[y] : 0; MC_CHECK(std::fabs(g - e) < 1e-9, "random", "weight " << k << ": " << show(y) << " has probability " << g << " instead of " << e); }
      }
    });
  }
}
