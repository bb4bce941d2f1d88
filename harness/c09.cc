// C09: evaluation counts and budgets through every stack of controllers.
#include "controllers.hh"
using namespace vp;

/// A budget of b lets exactly b evaluations through to the function, whatever their kind
static void budget(int b, bool tracker_inside) {
  mc::explore([&]() {
    Base base(2, { 0, 1, 2, 3 });
    ProgressTracker t(&base);
    OnBudgetFunction f(tracker_inside ? static_cast<Function *>(&t) : &base, b);
    int done = 0;
    for (int i = 0; i < b + 3; i++) {
      unsigned k = choose(3); bit_vector_t x = bv(i, 2);
      Res r = real_call([&]() { if (k == 0) return f.evaluate(x); if (k == 1) { double v = f.evaluate_safely(x); f.update(x, v); return v; } return f.evaluate_incrementally(x, base.at(x), { 0 }); });
      MC_CHECK(r.out == (i < b ? OK : LAST), "budget-limit", "call " << i << " with budget " << b << ": outcome " << r.out);
      if (r.out == OK) done++;
      MC_CHECK(f.get_num_calls() == done && base.calls + base.inc + base.upd == done, "budget-count", f.get_num_calls() << " counted, " << done << " done");
      mc::state(mc::Hash().add(b).add(i).add(done).add(int(k)));
    }
  });
}

void mc_register() {
  std::vector<Spec> kinds = { { COUNTER, 0 }, { BUDGET, 1 }, { BUDGET, 2 }, { BUDGET, 3 }, { TRACKER, 0 }, { TARGETK, 1 }, { TARGETK, 100 }, { CACHE, 0 } };
  std::vector<double> table = { 0, 2, -1, 1 };
  int o1 = mc::thorough() ? 5 : 4, o3 = mc::thorough() ? 4 : 3;
  for (auto& a : kinds) {
    mc::add("stack-" + name(a), [=]() { mc::explore([&]() { history({ a }, table, 2, o1, true, false); }); });
    for (auto& b : kinds) {
      mc::add("stack-" + text({ a, b }), [=]() { mc::explore([&]() { history({ a, b }, table, 2, o1 - 1, true, false); }); });
      mc::add("stacks-" + text({ a, b }), [=]() { for (auto& c : kinds) mc::explore([&]() { history({ a, b, c }, table, 2, o3 - (mc::thorough() ? 1 : 0), true, false); }); });
    }
    mc::add("long-" + name(a), [=]() { mc::explore([&]() { history({ a }, { -1, 2 }, 1, mc::thorough() ? 6 : 5, true, false); }); });
  }
  for (int b = 0; b <= 6; b++) for (int t = 0; t < 2; t++) mc::add("budget-" + mc::str(b) + (t ? "-tracker" : ""), [=]() { budget(b, t); });
  mc::add("budget-large", []() {
    for (int b : { 100, 65535, 65536, 100000, 300000 }) {
      Base base(2, { 0, 1, 2, 3 }); OnBudgetFunction f(&base, b);
      int done = 0; for (;;) { Res r = real_call([&]() { return f.evaluate(bv(done, 2)); }); if (r.out != OK) break; done++; if (done > b + 1) break; }
      MC_CHECK(done == b && f.get_num_calls() == b && base.calls == b, "budget-large", done << " of " << b);
    }
  });
}
