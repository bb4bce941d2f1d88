// C16: parallel evaluation is equivalent to sequential evaluation, under every schedule.
#include "catalogue.hh"
#include "controllers.hh"
#include "functions.hh"
#include "race.hh"
#include "hnco/algorithms/population.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/multiobjective/algorithms/population.hh"
using namespace vp;

namespace {

/// Function used by one thread: scheduling points inside of evaluations
class Local: public hnco::function::Function {
public:
  int n; Oracle f;
  int user = -1; long region = -1; ///< thread which uses the function, in which region
  int inside = 0;
  std::vector<Ev> *global = nullptr;
  Local(int n_, Oracle f_): n(n_), f(f_) {}
  int get_bv_size() const override { return n; }
  double enter(const bit_vector_t& x, char kind) {
    if (race::in_region()) {
      if (region == race::regions && user != race::self()) race::report("two threads use the same function in the same region");
      user = race::self(); region = race::regions;
      if (inside++) race::report("a function is entered twice");
      race::yield();
    }
    double v = f(x);
    if (race::in_region()) { race::yield(); inside--; }
    if (global) { race::Quiet q; global->push_back({ kind, x, v }); }
    return v;
  }
  double evaluate(const bit_vector_t& x) override { return enter(x, 'e'); }
  double evaluate_safely(const bit_vector_t& x) override { return enter(x, 's'); }
  void update(const bit_vector_t& x, double v) override {
    if (race::in_region()) race::report("update inside of a parallel region");
    if (global) global->push_back({ 'u', x, v });
  }
  void display(std::ostream& s) const override { s << "Local"; }
};

void no_error() {
  const char *e = race::error();
  std::string s = e ? e : "";
  race::reset();
  MC_CHECK(!e, "race", s);
}

/// All populations of m vectors of n bits, T functions, teams of k threads
void population(int n, int m, int T, int k) {
  int N = 1 << n;
  int total = 1; for (int i = 0; i < m; i++) total *= N;
  for (auto& l : lands(n)) {
    if (l.name != "hash" && (l.name != "coarse" || !mc::thorough())) continue;
    int stride = std::max(1, total / (mc::thorough() ? 30 : 6));
    for (int c = 0; c < total; c += stride) {
      auto o = mc::bounds(mc::thorough() ? 8 : 4, 2, 1);
      mc::explore(o, [&]() {
        race::reset(); race::team = k;
        hnco::algorithm::Population p(m, n), q(m, n);
        int z = c;
        for (int i = 0; i < m; i++) { p.bvs[i] = q.bvs[i] = bv(unsigned(z % N), n); z /= N; }
        std::vector<Ev> seq, par;
        Local s(n, l.f); s.global = &seq;
        p.evaluate(&s);
        std::vector<std::unique_ptr<Local>> fs; std::vector<hnco::function::Function *> fp;
        for (int t = 0; t < T; t++) { fs.emplace_back(new Local(n, l.f)); fs.back()->global = &par; fp.push_back(fs.back().get()); }
        q.evaluate_in_parallel(fp);
        no_error();
        MC_CHECK(q.bvs == p.bvs, "population", "individuals changed");
        MC_CHECK(q.values == p.values, "values", "parallel " << mc::vec(q.values) << " sequential " << mc::vec(p.values) << " of " << show(q.bvs));
        std::vector<Ev> u; std::multiset<bit_vector_t> safe, all(q.bvs.begin(), q.bvs.end());
        for (auto& e : par) { if (e.kind == 'u') u.push_back({ 'e', e.x, e.v }); else safe.insert(e.x); }
        MC_CHECK(safe == all, "evaluations", "evaluated vectors differ from the population");
        MC_CHECK(u == seq, "updates", "updates of the main function are not the sequential evaluations, in order");
        for (auto& f : fs) MC_CHECK(f->inside == 0, "leave", "unfinished evaluation");
        mc::Hash h; h.add(c); for (auto& e : par) h.addv(e.x); mc::state(h);
      });
    }
  }
}

/// Large populations, with as many functions as threads or more
void large(int m, int T, int k) {
  int n = 12;
  for (int policy = 1; policy <= 3; policy++)
    mc::explore(mc::bounds(0, 0, policy), [&]() {
      race::reset(); race::team = k;
      auto f = [&](const bit_vector_t& x) { double r = 0; for (int i = 0; i < n; i++) r = 3 * r + x[size_t(i)]; return r; };
      hnco::algorithm::Population p(m, n), q(m, n);
      for (int i = 0; i < m; i++) p.bvs[i] = q.bvs[i] = bv(mix64(uint64_t(i) * 7 + uint64_t(policy)) % 4096, n);
      std::vector<Ev> seq, par;
      Local s(n, f); s.global = &seq;
      p.evaluate(&s);
      std::vector<std::unique_ptr<Local>> fs; std::vector<hnco::function::Function *> fp;
      for (int t = 0; t < T; t++) { fs.emplace_back(new Local(n, f)); fs.back()->global = &par; fp.push_back(fs.back().get()); }
      q.evaluate_in_parallel(fp);
      no_error();
      MC_CHECK(q.bvs == p.bvs && q.values == p.values, "large", m << " individuals, " << k << " threads: the values differ from the sequential ones");
      std::vector<Ev> u; std::multiset<bit_vector_t> safe, all(q.bvs.begin(), q.bvs.end());
      for (auto& e : par) { if (e.kind == 'u') u.push_back({ 'e', e.x, e.v }); else safe.insert(e.x); }
      MC_CHECK(safe == all, "evaluations", m << " individuals: evaluated vectors differ from the population");
      MC_CHECK(u == seq, "updates", m << " individuals: updates of the main function are not the sequential evaluations, in order");
      mc::state(mc::Hash().add(m).add(k).add(policy));
    });
}

struct MoLocal: hnco::multiobjective::function::Function {
  int n, user = -1; long region = -1; int inside = 0, count = 0; Oracle f;
  MoLocal(int n_, Oracle f_): n(n_), f(f_) {}
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return 2; }
  void evaluate(const bit_vector_t& x, hnco::multiobjective::function::value_t& v) override {
    if (race::in_region()) {
      if (region == race::regions && user != race::self()) race::report("two threads use the same function in the same region");
      user = race::self(); region = race::regions;
      if (inside++) race::report("a function is entered twice");
      race::yield();
    }
    v.resize(2); v[0] = f(x);
    if (race::in_region()) race::yield();
    v[1] = double(bits(x));
    count++;
    if (race::in_region()) inside--;
  }
};

void mo_population(int n, int m, int T, int k) {
  auto l = lands(n)[6];
  mc::explore(mc::bounds(mc::thorough() ? 8 : 5, mc::thorough() ? 3 : 2, 1), [&]() {
    race::reset(); race::team = k;
    hnco::multiobjective::algorithm::Population p(m, n, 2), q(m, n, 2);
    for (int i = 0; i < m; i++) p.bvs[i] = q.bvs[i] = bv(unsigned(mix64(i) % (1u << n)), n);
    MoLocal s(n, l.f); p.evaluate(&s);
    std::vector<std::unique_ptr<MoLocal>> fs; std::vector<hnco::multiobjective::function::Function *> fp;
    for (int t = 0; t < T; t++) { fs.emplace_back(new MoLocal(n, l.f)); fp.push_back(fs.back().get()); }
    q.evaluate_in_parallel(fp);
    no_error();
    int c = 0; for (auto& f : fs) c += f->count;
    MC_CHECK(q.bvs == p.bvs && q.values == p.values, "values", "parallel and sequential evaluations differ");
    MC_CHECK(c == m, "evaluations", c << " evaluations of " << m << " individuals");
    mc::Hash h; for (auto& f : fs) h.add(f->count); h.add(mc::points()); mc::state(h);
  });
}

/// Controllers around the main function
struct Stack {
  std::unique_ptr<Local> base; std::unique_ptr<Controller> a, b, c;
  ProgressTracker *tracker = nullptr; StopOnTarget *target = nullptr;
  hnco::function::Function *top;
  Stack(int n, const Oracle& f, int kind, double t) {
    base.reset(new Local(n, f)); top = base.get();
    if (kind >= 1) { tracker = new ProgressTracker(top); a.reset(tracker); top = tracker; }
    if (kind == 2) { b.reset(new OnBudgetFunction(top, 7)); top = b.get(); }
    if (kind == 3) { target = new StopOnTarget(top, t); b.reset(target); top = target; }
  }
};

struct Result { int how = 0; solution_t sol; std::string log; std::vector<Ev> trace; int calls = 0; ProgressTracker::Event ev; solution_t trig; };

Result run(Alg& a, int n, const Oracle& f, int T, int kind, double target) {
  Result r; Capture c;
  Stack s(n, f, kind, target);
  s.base->global = &r.trace;
  std::vector<std::unique_ptr<Local>> fs; std::vector<hnco::function::Function *> fp = { s.top };
  for (int t = 1; t < T; t++) { fs.emplace_back(new Local(n, f)); fp.push_back(fs.back().get()); }
  // functions may be used by one thread per region, and all regions map functions to threads in the same way
  try { a.a->maximize(fp); }
  catch (hnco::exception::LastEvaluation&) { r.how = 1; }
  catch (hnco::exception::TargetReached&) { r.how = 2; }
  a.a->finalize();
  r.sol = a.a->get_solution();
  if (s.tracker) { r.calls = s.tracker->get_num_calls(); r.ev = s.tracker->get_last_improvement(); }
  if (s.target && r.how == 2) r.trig = s.target->get_trigger();
  r.log = c.s.str();
  std::vector<Ev> t;
  for (auto& e : r.trace) if (e.kind != 's') t.push_back({ 'e', e.x, e.v });
  r.trace = t;
  return r;
}

void algorithm_equivalence(const Cat& cat, int n, int T, int kind) {
  for (auto& l : lands(n)) {
    if (!mc::thorough() && l.name != "hash" && l.name != "coarse" && l.name != "onemax") continue;
    mc::explore(mc::bounds(mc::thorough() ? 4 : 2, 1, mc::thorough() ? 4 : 2), [&]() {
      race::reset(); race::team = T;
      Alg a, b; cat.make(a, n, 3); cat.make(b, n, 3);
      for (int use = 0; use < 2; use++) {
        int from = mc::points();
        double target = l.f(bit_vector_t(n, 1));
        Result s = run(a, n, l.f, 1, kind, target);
        int to = mc::points();
        long before = race::regions;
        Result p; bool same_draws;
        { mc::Rerun rr(from, to); p = run(b, n, l.f, T, kind, target); same_draws = rr.faithful(); }
        no_error();
        if (kind == 0) MC_CHECK(race::regions > before, "parallel", "the populations are not evaluated in parallel");
        MC_CHECK(p.how == s.how, "end", "parallel ends with " << p.how << " sequential with " << s.how);
        MC_CHECK(same_draws, "draws", "random draws differ");
        MC_CHECK(p.trace == s.trace, "evaluations", "the evaluations seen by the main function differ");
        MC_CHECK(p.log == s.log, "log", "logs differ");
        MC_CHECK(p.sol.first == s.sol.first && same(p.sol.second, s.sol.second), "solution", "parallel " << show(p.sol.first) << " " << p.sol.second << " sequential " << show(s.sol.first) << " " << s.sol.second);
        if (kind) MC_CHECK(p.calls == s.calls && p.ev.num_evaluations == s.ev.num_evaluations && p.ev.solution.first == s.ev.solution.first && same(p.ev.solution.second, s.ev.solution.second), "tracker", "progress trackers differ");
        MC_CHECK(p.trig.first == s.trig.first, "target", "triggers differ");
        mc::Hash h; for (auto& e : p.trace) h.addv(e.x); mc::state(h);
      }
    });
  }
}

/// Independent copies of a function are evaluated by two threads
void independent(const std::string& name, const std::function<FnPtr()>& make) {
  mc::explore(mc::bounds(0, 1, 1), [&]() {
    race::reset(); race::team = 2;
    auto f = make(), g = make(), ref = make();
    int n = f->get_bv_size();
    hnco::algorithm::Population p(4, n), q(4, n);
    for (int i = 0; i < 4; i++) { for (int j = 0; j < n; j++) p.bvs[i][j] = mix64(i * 1000 + j) & 1; q.bvs[i] = p.bvs[i]; }
    for (int i = 0; i < 4; i++) p.values[i] = ref->evaluate(p.bvs[i]);
    q.evaluate_in_parallel({ f.get(), g.get() });
    no_error();
    for (int i = 0; i < 4; i++) MC_CHECK(same(p.values[i], q.values[i]), "values", name << ": parallel " << q.values[i] << " sequential " << p.values[i] << " at " << show(p.bvs[i]));
    mc::state(mc::Hash().adds(name));
  });
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  for (int T = 1; T <= (th ? 5 : 4); T++)
    for (int k = 1; k <= T; k++)
      for (int m = 1; m <= (th ? 6 : 5); m++) {
        mc::add("population " + mc::str(m) + " functions " + mc::str(T) + " threads " + mc::str(k), [=]() { population(m <= 2 ? 3 : 2, m, T, k); });
        mc::add("multiobjective population " + mc::str(m) + " functions " + mc::str(T) + " threads " + mc::str(k), [=]() { mo_population(3, m, T, k); });
      }
  for (int m : { 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 257, 300 })
    for (int T = 1; T <= 4; T++) mc::add("large population " + mc::str(m) + " functions " + mc::str(T), [=]() { for (int k = 1; k <= T; k++) large(m, T, k); });
  for (auto& c : catalogue())
    if (c.parallel)
      for (int T = 2; T <= 3; T++)
        for (int kind = 0; kind < 4; kind++) {
          auto cc = c;
          mc::add("algorithm " + c.name + " threads " + mc::str(T) + " controllers " + mc::str(kind), [=]() { algorithm_equivalence(cc, cc.name == "two-rate" ? 8 : 3, T, kind); });
        }
  std::vector<Entry> es;
  for (auto& e : theory(8)) es.push_back(e);
  for (auto& e : theory(9)) if (e.name.find("Summation") != std::string::npos) es.push_back(e);
  for (auto& e : weighted(8, 0)) es.push_back(e);
  auto more = [&](const std::string& nm, std::function<FnPtr()> m) { es.push_back({ nm, m, nullptr }); };
  auto fixed = [&](const std::string& nm, std::function<FnPtr()> m) { more(nm, [m]() { mc::Fixed f(5); return m(); }); };
  fixed("NkLandscape", []() { auto f = new NkLandscape; f->random(8, 2); return FnPtr(f); });
  fixed("Qubo", []() { std::string p = scratch() + "/c16." + mc::str(getpid()); { std::ofstream o(p); o << "p qubo 0 4 2 2\n0 0 1.5\n2 2 -3\n0 1 2\n1 3 -1\n"; } auto f = new Qubo; f->load(p); std::remove(p.c_str()); return FnPtr(f); });
  fixed("MaxSat", []() { auto f = new MaxSat; f->random(8, 3, 10); return FnPtr(f); });
  more("Factorization", []() { return FnPtr(new Factorization("143")); });
  using namespace hnco::function::modifier;
  struct Owner: Function {
    std::vector<std::shared_ptr<void>> keep; std::unique_ptr<Function> f;
    int get_bv_size() const override { return f->get_bv_size(); }
    double evaluate(const bit_vector_t& x) override { return f->evaluate(x); }
    double evaluate_safely(const bit_vector_t& x) override { return f->evaluate_safely(x); }
    void update(const bit_vector_t& x, double v) override { f->update(x, v); }
  };
  auto mapped = [&](const std::string& nm, auto mk) {
    fixed("mapped by " + nm, [mk]() {
      auto o = new Owner; auto h = std::make_shared<LeadingOnes>(8); auto m = mk(); o->keep = { h, m };
      o->f.reset(new FunctionMapComposition(h.get(), m.get())); return FnPtr(o); });
  };
  mapped("translation", []() { auto m = std::make_shared<hnco::map::Translation>(); m->random(8); return m; });
  mapped("permutation", []() { auto m = std::make_shared<hnco::map::Permutation>(); m->random(8); return m; });
  mapped("linear map", []() { auto m = std::make_shared<hnco::map::LinearMap>(); m->random(8, 8, false); return m; });
  mapped("affine map", []() { auto m = std::make_shared<hnco::map::AffineMap>(); m->random(8, 5, false); return m; });
  mapped("transvections", []() { auto m = std::make_shared<hnco::map::TsAffineMap>(); m->random(8, 5, 0); return m; });
  mapped("injection", []() { return std::make_shared<hnco::map::Injection>(std::vector<int>{ 1, 4, 5 }, 8); });
  fixed("opposite", []() { auto o = new Owner; auto h = std::make_shared<LeadingOnes>(8); o->keep = { h }; o->f.reset(new OppositeFunction(h.get())); return FnPtr(o); });
  for (auto& e : es) { auto m = e.make; auto nm = e.name; mc::add("function " + nm, [=]() { independent(nm, m); }); }
}
