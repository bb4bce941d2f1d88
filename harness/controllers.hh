// Reference model of function controllers and stacks of them, shared by C09 and C10.
#ifndef VP_CONTROLLERS_HH
#define VP_CONTROLLERS_HH
#include "common.hh"
#include <map>
#include "hnco/exception.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/function.hh"
namespace vp {
using namespace hnco::function;
using namespace hnco::function::controller;

/// Table function that records its calls
struct Base : Function {
  int n; std::vector<double> t; int calls = 0, safe = 0, inc = 0, upd = 0;
  Base(int n, const std::vector<double>& t) : n(n), t(t) {}
  double at(const bit_vector_t& x) const { return t[bits(x) % t.size()]; }
  int get_bv_size() const override { return n; }
  bool has_known_maximum() const override { return true; }
  double get_maximum() const override { return *std::max_element(t.begin(), t.end()); }
  bool provides_incremental_evaluation() const override { return true; }
  double evaluate(const bit_vector_t& x) override { calls++; return at(x); }
  double evaluate_safely(const bit_vector_t& x) override { safe++; return at(x); }
  double evaluate_incrementally(const bit_vector_t& x, double, const hnco::sparse_bit_vector_t& f) override { inc++; bit_vector_t y = x; for (int i : f) y[i] ^= 1; return at(y); }
  void update(const bit_vector_t&, double) override { upd++; }
};

enum Out { OK, LAST, TARGET };
struct Res { Out out; double v; };

enum Kind { COUNTER, BUDGET, TRACKER, TARGETK, CACHE };
struct Spec { Kind k; double p; int flags = 0; };
inline std::string name(const Spec& s) { const char *n[] = { "counter", "budget", "tracker", "target", "cache" }; return n[s.k] + (s.k == BUDGET || s.k == TARGETK ? mc::str(s.p) : std::string()) + (s.flags ? "f" + mc::str(s.flags) : ""); }

/// Model of one layer; inner is the next layer, or null for the base
struct Layer {
  Spec s; Layer *inner; Base *b;
  int calls = 0; bool improved = false; int imp_calls = 0; double imp = 0; bit_vector_t imp_x; std::string log;
  bool fired = false; bit_vector_t trig_x; double trig = 0;
  std::map<bit_vector_t, double> cache; int evals = 0, looks = 0;
  // reality
  std::unique_ptr<Controller> real;

  template<class In> Res call(const bit_vector_t& y, In in, bool full) {
    if (s.k == CACHE && full) {
      evals++;
      auto it = cache.find(y);
      if (it != cache.end()) { looks++; return { OK, it->second }; }
    }
    if (s.k == BUDGET && calls == int(s.p)) return { LAST, 0 };
    Res r = in();
    if (r.out != OK) return r;
    if (s.k == CACHE && full) cache[y] = r.v;
    if (s.k == COUNTER || s.k == BUDGET || s.k == TRACKER) calls++;
    if (s.k == TRACKER && (calls == 1 || r.v > imp)) {
      improved = true; imp = r.v; imp_calls = calls; imp_x = y;
      log += mc::str(calls) + " " + shortstr(r.v) + "\n";
    }
    if (s.k == TARGETK && r.v >= s.p) { fired = true; trig_x = y; trig = r.v; return { TARGET, 0 }; }
    return r;
  }
  static std::string shortstr(double v) { std::ostringstream o; o << v; return o.str(); }
  Res eval(const bit_vector_t& x) { return call(x, [&]() { return inner ? inner->eval(x) : Res{ OK, b->at(x) }; }, true); }
  Res inc(const bit_vector_t& y) { return call(y, [&]() { return inner ? inner->inc(y) : Res{ OK, b->at(y) }; }, false); }
  Res upd(const bit_vector_t& x, double v) {
    return call(x, [&]() { if (inner) { Res r = inner->upd(x, v); if (r.out != OK) return r; } return Res{ OK, v }; }, false);
  }
};

struct Stack {
  Base base; std::vector<std::unique_ptr<Layer>> l;
  Stack(int n, const std::vector<double>& t, const std::vector<Spec>& specs) : base(n, t) {
    Function *f = &base; Layer *in = nullptr;
    for (auto& s : specs) {   // innermost first
      auto y = std::make_unique<Layer>(); y->s = s; y->inner = in; y->b = &base;
      switch (s.k) {
      case COUNTER: y->real.reset(new CallCounter(f)); break;
      case BUDGET: y->real.reset(new OnBudgetFunction(f, int(s.p))); break;
      case TRACKER: { auto t = new ProgressTracker(f); if (s.flags & 1) t->set_record_bit_vector(true); if (s.flags & 2) t->set_record_evaluation_time(true); if (s.flags & 4) t->set_log_improvement(true);   // defaults otherwise
        y->real.reset(t); break; }
      case TARGETK: y->real.reset(new StopOnTarget(f, s.p)); break;
      case CACHE: y->real.reset(new Cache(f)); break;
      }
      f = y->real.get(); in = y.get(); l.push_back(std::move(y));
    }
  }
  Layer& top() { return *l.back(); }
  Function& f() { return *l.back()->real; }
  bool cached() { for (auto& y : l) if (y->s.k == CACHE) return true; return false; }
  bool has(Kind k) { for (auto& y : l) if (y->s.k == k) return true; return false; }
};

inline std::string text(const std::vector<Spec>& s) { std::string r; for (auto it = s.rbegin(); it != s.rend(); ++it) r += (r.empty() ? "" : "(") + name(*it); return r; }

template<class F> Res real_call(F fn) {
  try { return { OK, fn() }; }
  catch (const hnco::exception::LastEvaluation&) { return { LAST, 0 }; }
  catch (const hnco::exception::TargetReached&) { return { TARGET, 0 }; }
}

/// One operation chosen among all; checks result, then calls observe
inline void history(const std::vector<Spec>& specs, const std::vector<double>& table, int n, int ops, bool counts, bool details) {
  Stack s(n, table, specs);
  std::ostringstream log; auto *old = std::cout.rdbuf(log.rdbuf());
  struct Restore { std::streambuf *o; ~Restore() { std::cout.rdbuf(o); } } restore{ old };
  std::string trace = text(specs) + ":";
  mc::Hash h; h.adds(text(specs));
  bool inc_ok = !s.cached();
  MC_CHECK(s.f().provides_incremental_evaluation() == inc_ok, "provides-incremental", trace);
  MC_CHECK(s.f().get_bv_size() == n, "bv-size", trace);
  for (int i = 0; i < ops; i++) {
    unsigned kinds = inc_ok ? 3 : 2, k = choose(kinds);
    bit_vector_t x = choose_bv(n);
    Res want{ OK, 0 }, got{ OK, 0 };
    int before = s.base.calls + s.base.inc + s.base.upd;
    if (k == 0) {
      trace += " eval(" + show(x) + ")";
      want = s.top().eval(x);
      got = real_call([&]() { return s.f().evaluate(x); });
    } else if (k == 1) {
      trace += " safe+update(" + show(x) + ")";
      double v = s.f().evaluate_safely(x);
      MC_CHECK(same(v, s.base.at(x)), "safe-value", trace << ": " << v);
      MC_CHECK(s.base.calls + s.base.inc + s.base.upd == before, "safe-pure", trace);
      want = s.top().upd(x, v);
      got = real_call([&]() { s.f().update(x, v); return v; });
    } else {
      int m = int(choose(3));   // no flip, first bit, all bits
      hnco::sparse_bit_vector_t fl; bit_vector_t y = x;
      for (int j = 0; j < (m == 0 ? 0 : m == 1 ? 1 : n); j++) { fl.push_back(j); y[j] ^= 1; }
      trace += " inc(" + show(x) + "," + mc::vec(fl) + ")";
      want = s.top().inc(y);
      got = real_call([&]() { return s.f().evaluate_incrementally(x, s.base.at(x), fl); });
    }
    mc::step();
    MC_CHECK(got.out == want.out, "outcome", trace << ": outcome " << got.out << " expected " << want.out << " (0 value, 1 last evaluation, 2 target reached)");
    if (want.out == OK && k != 1) MC_CHECK(same(got.v, want.v), "value", trace << ": " << got.v << " expected " << want.v);
    for (auto& y : s.l) {
      h.add(y->calls).add(y->evals).add(y->looks);
      if (counts) {
        if (auto c = dynamic_cast<CallCounter *>(y->real.get())) MC_CHECK(c->get_num_calls() == y->calls, "num-calls", trace << ": " << name(y->s) << " counts " << c->get_num_calls() << " expected " << y->calls);
        if (y->s.k == BUDGET) {
          auto c = dynamic_cast<CallCounter *>(y->real.get());
          MC_CHECK(c->get_num_calls() <= int(y->s.p), "budget-exceeded", trace << ": " << c->get_num_calls());
        }
      }
      if (details) {
        if (auto t = dynamic_cast<ProgressTracker *>(y->real.get())) {
          auto& e = t->get_last_improvement();
          MC_CHECK((e.num_evaluations != 0) == y->improved, "improvement-none", trace);
          if (y->improved) {
            MC_CHECK(e.num_evaluations == y->imp_calls && same(e.solution.second, y->imp), "improvement", trace << ": last improvement " << e.num_evaluations << " " << e.solution.second << ", expected " << y->imp_calls << " " << y->imp);
            if (y->s.flags & 1) MC_CHECK(e.solution.first == y->imp_x, "improvement-bv", trace << ": recorded " << show(e.solution.first) << " expected " << show(y->imp_x));
          }
          if (y->s.flags & 4) MC_CHECK(log.str() == y->log, "improvement-log", trace << ": logged " << log.str() << " expected " << y->log);
        }
        if (auto t = dynamic_cast<StopOnTarget *>(y->real.get()))
          if (y->fired) MC_CHECK(t->get_trigger().first == y->trig_x && same(t->get_trigger().second, y->trig), "trigger", trace << ": trigger " << show(t->get_trigger().first) << " " << t->get_trigger().second << ", expected " << show(y->trig_x) << " " << y->trig);
        if (auto c = dynamic_cast<Cache *>(y->real.get()))
          if (y->evals) MC_CHECK(same(c->get_lookup_ratio(), double(y->looks) / y->evals), "lookup-ratio", trace << ": " << c->get_lookup_ratio() << " expected " << y->looks << "/" << y->evals);
      }
    }
    bool logs = false; for (auto& y : s.l) logs = logs || (y->s.k == TRACKER && (y->s.flags & 4));
    if (!logs) MC_CHECK(log.str().empty(), "silent", "");
    mc::state(h);
  }
}
} // namespace vp
#endif
