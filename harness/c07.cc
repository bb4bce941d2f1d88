// C07: a declared maximum is the true maximum and is attained, also through decorators.
#include <map>
#include "functions.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/neighborhoods/neighborhood.hh"
using namespace hnco;
using namespace hnco::function::controller;
using namespace hnco::function::modifier;
using namespace vp;

static bool throws(std::function<void()> fn) { try { fn(); } catch (const std::runtime_error&) { return true; } return false; }

/// Exhaustive when n <= lim; otherwise no listed vector above, every listed maximiser at the maximum
static void exact(const std::string& name, Function& f, int lim, const std::vector<bit_vector_t>& maximisers = {}, double tol = 0) {
  int n = f.get_bv_size();
  if (!f.has_known_maximum()) {
    MC_CHECK(throws([&]() { f.get_maximum(); }), name + "-unknown", "get_maximum of an unknown maximum");
    return;
  }
  double m = f.get_maximum(), best = -std::numeric_limits<double>::infinity(); bit_vector_t arg;
  auto dom = domain(n, lim);
  if (n > lim) { for (auto& x : maximisers) dom.push_back(x); for (auto& x : maximisers) for (int i = 0; i < n; i++) dom.push_back(flipped(x, i)); }
  for (auto& x : dom) {
    double v = f.evaluate(x);
    mc::state(mc::Hash().adds(name).addv(x).add(v));
    mc::step();
    if (v > best) { best = v; arg = x; }
  }
  MC_CHECK(best <= m + tol, name + "-exceeded", "f(" << show(arg) << ") = " << best << " above the declared maximum " << m);
  if (n <= lim || !maximisers.empty())
    MC_CHECK(best >= m - tol, name + "-not-attained", "declared maximum " << m << ", largest value " << best);
  for (auto& x : maximisers) MC_CHECK(f.evaluate(x) >= m - tol, name + "-maximiser", "f(" << show(x) << ") = " << f.evaluate(x) << " declared " << m);
}
static void entry(const Entry& e, int lim) { auto f = e.make(); exact(e.name, *f, lim, e.maximisers, e.tol); }

static void decorated(const Entry& e) {
  auto f = e.make();
  bool k = f->has_known_maximum();
  int n = f->get_bv_size();
  auto like = [&](const char *what, Function& g, bool strict) {
    MC_CHECK(g.get_bv_size() == n, std::string(what) + "-size", "");
    MC_CHECK(strict ? g.has_known_maximum() == k : (!g.has_known_maximum() || k), std::string(what) + "-known", e.name);
    exact(e.name + "-" + what, g, 10, {}, e.tol);
  };
  CallCounter cc(f.get()); like("counter", cc, true);
  OnBudgetFunction ob(f.get(), 1 << 30); like("budget", ob, true);
  ProgressTracker pt(&cc); like("tracker", pt, true);
  Cache ca(f.get()); like("cache", ca, true);
  Cache c2(&pt); like("cache-tracker", c2, true);
  OppositeFunction op(f.get()); exact(e.name + "-opposite", op, 10, {}, e.tol);
  OppositeFunction oo(&op); exact(e.name + "-opposite-opposite", oo, 10, {}, e.tol);
  ParsedModifier pm(f.get(), "2*x+1"); exact(e.name + "-parsed", pm, 10, {}, e.tol);
  ParsedModifier pa(f.get(), "-abs(x)"); exact(e.name + "-parsed-abs", pa, 10, {}, e.tol);
  if (k) {
    // stop on maximum fires exactly at maximisers
    StopOnMaximum s(f.get());
    MC_CHECK(s.has_known_maximum() && s.get_maximum() == f->get_maximum(), "stop-on-maximum-known", e.name);
    for (auto& x : domain(n, 8)) {
      bool fired = false;
      try { s.evaluate(x); } catch (const hnco::exception::TargetReached&) { fired = true; }
      MC_CHECK(fired == (f->evaluate(x) >= f->get_maximum()), "stop-on-maximum", e.name << " " << show(x));
    }
  }
}
static void mapped(const Entry& e, std::vector<std::unique_ptr<map::Map>>& maps) {
  auto f = e.make();
  for (auto& m : maps) {
    if (m->get_output_size() != f->get_bv_size()) { MC_CHECK(throws([&]() { FunctionMapComposition g(f.get(), m.get()); }), "map-size", ""); continue; }
    FunctionMapComposition g(f.get(), m.get());
    MC_CHECK(g.get_bv_size() == m->get_input_size(), "map-bv-size", "");
    std::set<bit_vector_t> image; bit_vector_t y(m->get_output_size());
    for (auto& x : domain(m->get_input_size(), 8)) { m->map(x, y); image.insert(y); double v = g.evaluate(x); MC_CHECK(same(v, f->evaluate(y)), "map-value", e.name << " " << show(x)); }
    bool onto = image.size() == (size_t(1) << f->get_bv_size());
    if (f->has_known_maximum() && m->is_surjective()) MC_CHECK(g.has_known_maximum(), "map-known", "surjective map loses the maximum");
    if (!f->has_known_maximum()) MC_CHECK(!g.has_known_maximum(), "map-unknown", "");
    exact(e.name + "-mapped" + (onto ? "-onto" : ""), g, 8, {}, e.tol);
    CallCounter c(&g); exact(e.name + "-mapped-counter", c, 8, {}, e.tol);
  }
}
static void noise(const Entry& e) {
  auto f = e.make();
  int n = f->get_bv_size();
  AdditiveGaussianNoise a(f.get(), 1.0);
  MC_CHECK(a.get_bv_size() == n && !a.has_known_maximum(), "gaussian-known", "unbounded noise cannot have a known maximum");
  neighborhood::SingleBitFlip sb(n);
  PriorNoise p(f.get(), &sb);
  std::set<double> seen;
  mc::explore([&]() {
    bit_vector_t x = choose_bv(n);
    double v = p.evaluate(x);
    if (p.has_known_maximum()) MC_CHECK(v <= p.get_maximum() + e.tol, "prior-noise-exceeded", v);
    seen.insert(v);
  });
  if (p.has_known_maximum()) MC_CHECK(*seen.rbegin() >= p.get_maximum() - e.tol, "prior-noise-attained", *seen.rbegin());
}
static void long_path_big() {
  for (int k = 2; k <= 12; k++) for (int q = 1; q <= 64; q++) {
    int n = k * q;
    LongPath f(n, k);
    bit_vector_t last(n, 0); for (int i = 0; i < k; i++) last[i] = 1;
    if (f.has_known_maximum()) {
      MC_CHECK(q < 62, "longpath-inexact", n << " " << k);
      __int128 m = (__int128(k) << q) - k + 1;
      double d = f.get_maximum();
      MC_CHECK(__int128(d) == m, "longpath-maximum", "n=" << n << " k=" << k << " declared " << d);
      double v = f.evaluate(last);
      MC_CHECK(v == d, "longpath-maximiser", "n=" << n << " k=" << k << ": " << v << " vs " << d);
      for (int i = 0; i < n; i++) MC_CHECK(f.evaluate(flipped(last, i)) < d, "longpath-neighbor", i);
    } else {
      MC_CHECK(throws([&]() { f.get_maximum(); }), "longpath-unknown", n << " " << k);
      MC_CHECK(q + std::log2(double(k)) > 52.999, "longpath-known", "n=" << n << " k=" << k << " is exactly representable");
    }
  }
}

void mc_register() {
  int lim = mc::thorough() ? 16 : 12;
  for (int n = 1; n <= lim; n++) {
    mc::add("theory-" + mc::str(n), [n, lim]() { for (auto& e : theory(n)) entry(e, lim); });
    if (n <= 10) mc::add("weighted-" + mc::str(n), [n]() { for (int v = 0; v < NUM_WT; v++) for (auto& e : weighted(n, v)) entry(e, 10); });
    if (n <= 9) mc::add("decorated-" + mc::str(n), [n]() { for (auto& e : theory(n)) decorated(e); });
    if (n <= 4) mc::add("decorated-weighted-" + mc::str(n), [n]() { for (int v = 0; v < NUM_WT; v++) for (auto& e : weighted(n, v)) decorated(e); });
    if (n <= 5) mc::add("noise-" + mc::str(n), [n]() { for (auto& e : theory(n)) noise(e); });
  }
  mc::add("theory-18", []() { for (auto& e : theory(18)) if (e.name.find("Cancel") != std::string::npos || e.name.find("Long") != std::string::npos) entry(e, 18); });
  mc::add("hiff-16", []() { for (auto& e : theory(16)) entry(e, 16); });
  for (int n : { 24, 27, 31, 32, 33, 36, 63, 64, 65, 100, 128, 130 })
    mc::add("listed-" + mc::str(n), [n]() { for (auto& e : theory(n)) entry(e, 8); for (int v = 0; v < 5; v++) for (auto& e : weighted(n, v)) entry(e, 8); });
  mc::add("long-path", long_path_big);
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 4; c++) {
    if (r * c > (mc::thorough() ? 12 : 9)) continue;
    mc::add("mapped-linear-" + mc::str(r) + "x" + mc::str(c), [r, c]() {
      // every matrix through the random draws
      mc::explore([&]() {
        std::vector<std::unique_ptr<map::Map>> one;
        auto l = std::make_unique<map::LinearMap>(); l->random(r, c, false); one.push_back(std::move(l));
        for (auto& e : theory(r)) if (e.name == "OneMax" || e.name == "LeadingOnes" || e.name == "Labs") mapped(e, one);
      });
      mc::explore([&]() {
        std::vector<std::unique_ptr<map::Map>> one;
        auto l = std::make_unique<map::AffineMap>(); l->random(r, c, false); one.push_back(std::move(l));
        for (auto& e : theory(r)) if (e.name == "Needle") mapped(e, one);
      });
    });
  }
  mc::add("mapped-structured", []() {
    for (int n = 1; n <= 4; n++) for (int in = 1; in <= 5; in++) {
      // injections and projections over every list of positions
      std::vector<std::unique_ptr<map::Map>> maps;
      for (int mask = 1; mask < (1 << std::max(n, in)); mask++) {
        std::vector<int> pos; for (int i = 0; i < std::max(n, in); i++) if ((mask >> i) & 1) pos.push_back(i);
        if (int(pos.size()) == n && in >= n && mask < (1 << in)) maps.push_back(std::make_unique<map::Projection>(pos, in));
        if (int(pos.size()) == in && n >= in && mask < (1 << n)) maps.push_back(std::make_unique<map::Injection>(pos, n));
      }
      if (in == n) {
        mc::set_policy(5);
        auto t = std::make_unique<map::Translation>(); t->random(n); maps.push_back(std::move(t));
        auto p = std::make_unique<map::Permutation>(); p->random(n); maps.push_back(std::move(p));
      }
      for (auto& e : theory(n)) mapped(e, maps);
      for (auto& e : weighted(n, 0)) mapped(e, maps);
    }
  });
}
