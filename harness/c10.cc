// C10: targets, progress tracking and caching through every stack of controllers.
#include "controllers.hh"
using namespace vp;

static void cache_case(int n) {
  // the cache evaluates each vector once and then answers from memory
  mc::explore(mc::bounds(64), [&]() {
    std::vector<double> t; for (int i = 0; i < (1 << n); i++) t.push_back(i % 3 - 1);
    Base base(n, t); Cache c(&base); std::set<bit_vector_t> seen;
    for (int i = 0; i < 4; i++) {
      bit_vector_t x = choose_bv(n);
      double v = c.evaluate(x); seen.insert(x);
      MC_CHECK(same(v, base.at(x)), "cache-value", show(x) << ": " << v);
      MC_CHECK(base.calls == int(seen.size()), "cache-calls", base.calls << " evaluations of " << seen.size() << " vectors");
    }
    mc::state(mc::Hash().add(n).add(base.calls));
  });
}
void mc_register() {
  double inf = std::numeric_limits<double>::infinity();
  std::vector<Spec> kinds = { { COUNTER, 0 }, { BUDGET, 2 }, { TRACKER, 0, 1 }, { TARGETK, 1 }, { TARGETK, 2 }, { CACHE, 0 } };
  std::vector<std::vector<double>> tables = { { 0, 2, -1, 1 }, { 1, 1, 0, 1 }, { -inf, -3, -inf, inf } };
  for (auto& a : kinds) {
    for (size_t t = 0; t < tables.size(); t++)
      mc::add("stack-" + name(a) + "-" + mc::str(t), [=]() { mc::explore([&]() { history({ a }, tables[t], 2, mc::thorough() ? 5 : 4, false, true); }); });
    for (auto& b : kinds) {
      mc::add("stack-" + text({ a, b }), [=]() { mc::explore([&]() { history({ a, b }, tables[0], 2, mc::thorough() ? 4 : 3, false, true); }); });
      mc::add("stacks-" + text({ a, b }), [=]() { for (auto& c : kinds) mc::explore([&]() { history({ a, b, c }, tables[0], 2, 3, false, true); }); });
    }
    mc::add("long-" + name(a), [=]() { mc::explore([&]() { history({ a }, { -1, 2 }, 1, mc::thorough() ? 6 : 5, false, true); }); });
  }
  for (int flags = 0; flags < 8; flags++)
    mc::add("tracker-flags-" + mc::str(flags), [=]() { for (auto& t : tables) mc::explore([&]() { history({ { TRACKER, 0, flags } }, t, 2, 3, false, true); }); });
  for (int n = 1; n <= 4; n++) mc::add("cache-" + mc::str(n), [n]() { cache_case(n); });
  for (int n : { 31, 32, 33, 63, 64, 65, 130 }) mc::add("cache-listed-" + mc::str(n), [n]() {
    struct Id : Base { int n; std::map<bit_vector_t, double> id; Id(int n) : Base(n, { 0 }), n(n) {} double evaluate(const bit_vector_t& x) override { calls++; auto it = id.find(x); if (it == id.end()) it = id.insert({ x, double(id.size()) }).first; return it->second; } } base(n);
    Cache c(&base);
    std::vector<bit_vector_t> all; for (auto& p : patterns(n)) { all.push_back(p); for (int i = 0; i < n; i++) all.push_back(flipped(p, i)); }
    std::map<bit_vector_t, double> seen;
    for (auto& x : all) { double v = c.evaluate(x); if (seen.count(x)) MC_CHECK(seen[x] == v, "cache-large", show(x)); else { seen[x] = v; MC_CHECK(base.calls == int(seen.size()), "cache-collision", show(x)); } }
    for (auto& p : seen) MC_CHECK(c.evaluate(p.first) == p.second, "cache-stable", show(p.first));
    MC_CHECK(base.calls == int(seen.size()), "cache-large-calls", base.calls);
  });
}
