// C08: incremental evaluation agrees with full evaluation.
#include <map>
#include "functions.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/maps/map.hh"
using namespace hnco;
using namespace hnco::function::controller;
using namespace hnco::function::modifier;
using namespace vp;

static bool throws(std::function<void()> fn) { try { fn(); } catch (const std::runtime_error&) { return true; } return false; }
static sparse_bit_vector_t sparse(const bit_vector_t& m) { sparse_bit_vector_t s; for (size_t i = 0; i < m.size(); i++) if (m[i]) s.push_back(int(i)); return s; }
static bit_vector_t add(bit_vector_t x, const bit_vector_t& m) { for (size_t i = 0; i < x.size(); i++) x[i] ^= m[i]; return x; }

/// All (x, flips); then a second increment from there, and full evaluation in between
static void agree(const std::string& name, Function& f, const Oracle& want, int lim) {
  int n = f.get_bv_size();
  if (!f.provides_incremental_evaluation()) {
    bit_vector_t x(n, 0);
    MC_CHECK(throws([&]() { f.evaluate_incrementally(x, 0, sparse_bit_vector_t()); }), name + "-not-provided", "incremental evaluation not provided, yet answered");
    return;
  }
  auto dom = domain(n, lim);
  for (auto& x : dom) {
    double v = f.evaluate(x);
    MC_CHECK(same(v, want(x)), name + "-full", show(x) << ": " << v << " vs " << want(x));
    for (auto& m : dom) {
      bit_vector_t y = add(x, m), c = x;
      auto s = sparse(m), s0 = s;
      double w;
      try { w = f.evaluate_incrementally(c, v, s); }
      catch (const std::runtime_error& e) { mc::fail(name + "-throws", std::string("declared incremental evaluation throws: ") + e.what()); }
      MC_CHECK(same(w, want(y)), name + "-incremental", show(x) << " flips " << mc::vec(s) << ": incremental " << w << ", full " << want(y));
      MC_CHECK(c == x && s == s0, name + "-argument", "argument modified");
      mc::state(mc::Hash().adds(name).addv(x).addv(m));
      if (n <= 5) {
        bit_vector_t m2 = add(m, x), y2 = add(y, m2);   // a second step depending on both
        double w2 = f.evaluate_incrementally(y, w, sparse(m2));
        MC_CHECK(same(w2, want(y2)), name + "-chain", show(x) << "," << mc::vec(s) << ": " << w2 << " vs " << want(y2));
      }
    }
    MC_CHECK(same(f.evaluate(x), want(x)), name + "-full-after", show(x));
  }
}
static void entry(const Entry& e, int lim) { auto f = e.make(); agree(e.name, *f, e.oracle, lim); }
static void decorated(const Entry& e) {
  auto f = e.make();
  bool p = f->provides_incremental_evaluation();
  if (e.tol != 0) return;
  auto neg = [&](const bit_vector_t& x) { return -e.oracle(x); };
  int n = f->get_bv_size();
  OppositeFunction op(f.get()), oo(&op);
  agree(e.name + "-opposite", op, neg, 5);
  agree(e.name + "-opposite-opposite", oo, e.oracle, 5);
  CallCounter cc(f.get()); agree(e.name + "-counter", cc, e.oracle, 5);
  MC_CHECK(cc.provides_incremental_evaluation() == p, "counter-provides", e.name);
  OnBudgetFunction ob(&cc, 1 << 30); agree(e.name + "-budget", ob, e.oracle, 5);
  ProgressTracker pt(&ob); agree(e.name + "-tracker", pt, e.oracle, 5);
  StopOnTarget st(&op, 1e300); agree(e.name + "-target-opposite", st, neg, 5);
  Cache ca(f.get()); MC_CHECK(!ca.provides_incremental_evaluation(), "cache-provides", "");
  map::Translation t; mc::set_policy(3); t.random(n);
  bit_vector_t y(n);
  FunctionMapComposition fm(f.get(), &t); agree(e.name + "-map", fm, [&](const bit_vector_t& x) { bit_vector_t z(n); t.map(x, z); return e.oracle(z); }, 5);
  // noise: nothing declared which is not provided (a noise which never acts is transparent)
  AdditiveGaussianNoise gn(f.get(), 0); agree(e.name + "-gaussian", gn, e.oracle, 5);
  neighborhood::SingleBitFlip nh(n); PriorNoise pn(f.get(), &nh);
  if (!pn.provides_incremental_evaluation()) agree(e.name + "-prior", pn, e.oracle, 5);
  else { bit_vector_t x(n, 0); try { pn.evaluate_incrementally(x, e.oracle(x), sparse_bit_vector_t()); } catch (const std::runtime_error&) { mc::fail("noise-provides", e.name + ": prior noise declares an incremental evaluation and refuses it"); } }
  ParsedModifier pm(f.get(), "2*x+1"); agree(e.name + "-parsed", pm, [&](const bit_vector_t& x) { return 2 * e.oracle(x) + 1; }, 5);
}
template<class F> static void reloaded(const char *name, F& f, const Oracle& o) {
  std::string path = scratch() + "/c08." + name;
  f.save(path);
  for (int k : { 0, 1, 2, 7 }) {   // fresh, smaller and larger previous content
    F g;
    if (k) g.generate_first(k);
    g.load(path);
    agree(std::string(name) + "-reloaded", g, o, 5);
  }
  unlink(path.c_str());
}
struct I1 : NearestNeighborIsingModel1 { void generate_first(int k) { generate(k, gen(1), gen(2)); set_periodic_boundary_conditions(true); } };
struct I2 : NearestNeighborIsingModel2 { void generate_first(int k) { generate(1, k, gen(1), gen(2)); set_periodic_boundary_conditions(true); } };
struct LF : LinearFunction { void generate_first(int k) { generate(k, gen(1)); } };
struct W1 : WalshExpansion1 { void generate_first(int k) { generate(k, gen(1)); } };

void mc_register() {
  int lim = mc::thorough() ? 9 : 7;
  for (int n = 1; n <= lim; n++) {
    mc::add("theory-" + mc::str(n), [n, lim]() { for (auto& e : theory(n)) entry(e, lim); });
    for (int v = 0; v < NUM_WT; v++) mc::add("weighted-" + mc::str(n) + "-" + mc::str(v), [n, v, lim]() { for (auto& e : weighted(n, v)) if (e.tol == 0) entry(e, lim); });
    if (n <= 4) mc::add("decorated-weighted-" + mc::str(n), [n]() { for (int v : { 0, 2, 5 }) for (auto& e : weighted(n, v)) decorated(e); });
    if (n <= 5) mc::add("decorated-theory-" + mc::str(n), [n]() { for (auto& e : theory(n)) decorated(e); });
  }
  for (auto rc : std::vector<std::pair<int, int>>{ { 2, 4 }, { 3, 3 }, { 4, 2 }, { 2, 2 }, { 1, 8 }, { 8, 1 } }) {
    mc::add("ising2-" + mc::str(rc.first) + "x" + mc::str(rc.second), [rc]() {
      for (auto& e : weighted(rc.first * rc.second, 2)) if (e.name.find("Ising2-" + mc::str(rc.first) + "x") == 0) entry(e, 9);
    });
  }
  for (int n : { 12, 31, 32, 33, 64, 65, 100, 128, 130 })
    mc::add("listed-" + mc::str(n), [n]() { for (auto& e : theory(n)) entry(e, 8); for (int v : { 0, 2, 6 }) for (auto& e : weighted(n, v)) if (e.tol == 0) entry(e, 8); });
  mc::add("reloaded", []() {
    for (int n = 1; n <= 5; n++) for (int v : { 0, 2 }) for (auto& e : weighted(n, v)) {
      for (int per = 0; per < 2; per++) {
        std::string s = "-w" + mc::str(v) + (per ? "-periodic" : "");
        if (e.name == "Ising1" + s) { I1 f; f.generate(n, gen(v), gen(v, 5)); f.set_periodic_boundary_conditions(per); reloaded("ising1", f, e.oracle); }
        if (e.name == "Ising2-1x" + mc::str(n) + s) { I2 f; f.generate(1, n, gen(v), gen(v, 5)); f.set_periodic_boundary_conditions(per); reloaded("ising2", f, e.oracle); }
      }
      if (e.name == "LinearFunction-w" + mc::str(v)) { LF f; f.generate(n, gen(v)); reloaded("linear", f, e.oracle); }
      if (e.name == "WalshExpansion1-w" + mc::str(v)) { W1 f; f.generate(n, gen(v)); reloaded("walsh1", f, e.oracle); }
    }
  });
  mc::add("regenerated", []() {
    for (int n0 = 1; n0 <= 5; n0++) for (int n = 1; n <= 5; n++) for (int per = 0; per < 2; per++) for (auto& e : weighted(n, 2)) {
      if (e.name == std::string("Ising1-w2") + (per ? "-periodic" : "")) {
        NearestNeighborIsingModel1 f; f.generate(n0, gen(1), gen(1)); f.set_periodic_boundary_conditions(!per);
        f.evaluate_incrementally(bit_vector_t(n0, 0), 0, { 0 });
        f.generate(n, gen(2), gen(2, 5)); f.set_periodic_boundary_conditions(per);
        agree("ising1-regenerated", f, e.oracle, 5);
      }
      if (e.name == "Ising2-1x" + mc::str(n) + "-w2" + (per ? "-periodic" : "")) {
        NearestNeighborIsingModel2 f; f.generate(n0, 2, gen(1), gen(1)); f.set_periodic_boundary_conditions(!per);
        f.evaluate_incrementally(bit_vector_t(2 * n0, 0), 0, { 0 });
        f.generate(1, n, gen(2), gen(2, 5)); f.set_periodic_boundary_conditions(per);
        agree("ising2-regenerated", f, e.oracle, 5);
      }
    }
  });
}
