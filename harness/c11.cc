// C11: modifiers and stacks of modifiers compute the function they stand for.
#include <map>
#include "common.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/neighborhoods/neighborhood.hh"
using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::controller;
using namespace hnco::function::modifier;
using namespace vp;

namespace {

/// A function which records its arguments
struct Base: Function {
  int n; std::vector<bit_vector_t> seen; int variant;
  Base(int n_, int v): n(n_), variant(v) {}
  double f(const bit_vector_t& x) const {
    switch (variant) {
    case 0: return double(bits(x)) - 2.5;
    case 1: return bits(x) == 0 ? 0 : 1 / (double(bits(x)) - 3.5);
    default: return double(weight(x) % 2) * 1e10;
    }
  }
  int get_bv_size() const override { return n; }
  double evaluate(const bit_vector_t& x) override { seen.push_back(x); return f(x); }
  void display(std::ostream& s) const override { s << "base " << n; }
  void describe(const bit_vector_t& x, std::ostream& s) override { s << "described " << show(x); }
};

/// Distribution of (argument of the base function, value)
using Out = std::pair<bit_vector_t, double>;
using Dist = std::map<Out, double>;

const double NORMAL[] = { 0.625, -1.25, 0.0, 2.0 / 3 };

/// A layer: builds the modifier and transforms the reference
struct Layer {
  std::string name;
  std::function<Function *(Function *, std::vector<std::shared_ptr<void>>&)> make;   ///< null if incompatible
  /// random argument of the function below, as a distribution
  std::function<std::vector<std::pair<bit_vector_t, double>>(const bit_vector_t&)> down;
  /// value from the value below
  std::function<std::vector<std::pair<double, double>>(double)> up;
  std::function<int(int)> size = [](int n) { return n; };         ///< input size for an output size
  std::function<bit_vector_t(const bit_vector_t&)> description;   ///< argument described
};

std::vector<std::pair<bit_vector_t, double>> sure(const bit_vector_t& x) { return { { x, 1 } }; }
std::vector<std::pair<double, double>> surely(double v) { return { { v, 1 } }; }

template<class T, class F> Layer map_layer(const std::string& name, F init, std::function<bit_vector_t(const bit_vector_t&)> ref, int in, int out) {
  Layer l; l.name = name;
  l.make = [init, in, out](Function *f, std::vector<std::shared_ptr<void>>& keep) -> Function * {
    if (f->get_bv_size() != out) return nullptr;
    auto m = init(); keep.push_back(m);
    return new FunctionMapComposition(f, m.get());
  };
  l.down = [ref](const bit_vector_t& x) { return sure(ref(x)); };
  l.up = surely; l.size = [in](int) { return in; }; l.description = ref;
  return l;
}

struct Any: map::Map {
  int in, out; std::function<bit_vector_t(const bit_vector_t&)> f;
  Any(int i, int o, std::function<bit_vector_t(const bit_vector_t&)> g): in(i), out(o), f(g) {}
  void map(const bit_vector_t& x, bit_vector_t& y) override { y = f(x); }
  int get_input_size() const override { return in; }
  int get_output_size() const override { return out; }
  bool is_surjective() const override { return false; }
};

std::vector<Layer> layers() {
  std::vector<Layer> r;
  auto id = [](const bit_vector_t& x) { return x; };
  r.push_back({ "opposite", [](Function *f, auto&) { return new OppositeFunction(f); }, sure, [](double v) { return surely(-v); } });
  auto parsed = [&](const std::string& e, double (*g)(double)) {
    r.push_back({ "parsed " + e, [e](Function *f, auto&) { return new ParsedModifier(f, e); }, sure, [g](double v) { return surely(g(v)); } });
  };
  parsed("x", [](double x) { return x; });
  parsed("2*x-3", [](double x) { return 2 * x - 3; });
  parsed("abs(x)", [](double x) { return std::fabs(x); });
  parsed("x*x+0.5", [](double x) { return x * x + 0.5; });
  parsed("min(x,1)", [](double x) { return std::min(x, 1.); });
  parsed("if(x>0, x, 7)", [](double x) { return x > 0 ? x : 7; });
  r.push_back({ "counter", [](Function *f, auto&) { return new CallCounter(f); }, sure, surely });
  // maps: inputs of other sizes
  r.push_back(map_layer<map::Injection>("injection", []() { return std::make_shared<map::Injection>(std::vector<int>{ 0, 2 }, 3); },
    [](const bit_vector_t& x) { return bit_vector_t{ x[0], 0, x[1] }; }, 2, 3));
  r.push_back(map_layer<map::Projection>("projection", []() { return std::make_shared<map::Projection>(std::vector<int>{ 1, 2 }, 3); },
    [](const bit_vector_t& x) { return bit_vector_t{ x[1], x[2] }; }, 3, 2));
  for (int n = 2; n <= 3; n++) {
    auto tr = [n]() { auto m = std::make_shared<map::Translation>(); bit_vector_t b(n, 0); b[n - 1] = 1; m->set_bv(b); return m; };
    r.push_back(map_layer<map::Translation>("translation " + mc::str(n), tr, [n](const bit_vector_t& x) { return flipped(x, n - 1); }, n, n));
  }
  for (auto d : std::vector<std::pair<int, int>>{ { 3, 3 }, { 2, 3 }, { 3, 2 }, { 2, 2 }, { 3, 1 }, { 2, 1 } }) {
    auto M = mat(0x1b7, d.first, d.second);
    auto f = [M](const bit_vector_t& x) { auto y = mul(M, x); y[0] ^= 1; return y; };
    r.push_back(map_layer<Any>("map " + mc::str(d.second) + " to " + mc::str(d.first), [d, f]() { return std::make_shared<Any>(d.second, d.first, f); }, f, d.second, d.first));
  }
  // noise
  r.push_back({ "bit flip noise", [](Function *f, std::vector<std::shared_ptr<void>>& keep) {
    auto nh = std::make_shared<neighborhood::SingleBitFlip>(f->get_bv_size()); keep.push_back(nh); return new PriorNoise(f, nh.get()); },
    [](const bit_vector_t& x) { std::vector<std::pair<bit_vector_t, double>> d; for (size_t i = 0; i < x.size(); i++) d.push_back({ flipped(x, int(i)), 1. / double(x.size()) }); return d; }, surely });
  r.push_back({ "ball noise", [](Function *f, std::vector<std::shared_ptr<void>>& keep) {
    if (f->get_bv_size() < 2) return (PriorNoise *)nullptr; auto nh = std::make_shared<neighborhood::HammingSphere>(f->get_bv_size(), 2); keep.push_back(nh); return new PriorNoise(f, nh.get()); },
    [](const bit_vector_t& x) {
      std::vector<std::pair<bit_vector_t, double>> d; int n = int(x.size());
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) d.push_back({ flipped(flipped(x, i), j), 2. / (n * (n - 1)) });
      return d; }, surely });
  for (double s : { 1., 8. })
    r.push_back({ "gaussian " + mc::str(s), [s](Function *f, auto&) { return new AdditiveGaussianNoise(f, s); }, sure,
      [s](double v) { std::vector<std::pair<double, double>> d; for (double z : NORMAL) d.push_back({ v + s * z, 0.25 }); return d; } });
  for (auto& l : r) if (!l.description) l.description = id;
  return r;
}

struct Stack {
  std::vector<const Layer *> ls;                 ///< from the base up
  std::string name() const { std::string s = "base"; for (auto l : ls) s = l->name + "(" + s + ")"; return s; }
  Dist dist(const bit_vector_t& x, const Base& b) const { return dist(x, b, int(ls.size()) - 1); }
  Dist dist(const bit_vector_t& x, const Base& b, int k) const {
    if (k < 0) return { { { x, b.f(x) }, 1. } };
    Dist r;
    for (auto& d : ls[k]->down(x))
      for (auto& o : dist(d.first, b, k - 1))
        for (auto& u : ls[k]->up(o.first.second)) r[{ o.first.first, u.first }] += d.second * o.second * u.second;
    return r;
  }
};

std::string show(const Dist& d) { std::ostringstream s; s.precision(17); for (auto& p : d) s << vp::show(p.first.first) << "->" << p.first.second << " (" << p.second << ") "; return s.str(); }
bool near(const Dist& a, const Dist& b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin(); auto j = b.begin();
  for (; i != a.end(); ++i, ++j) if (i->first.first != j->first.first || !(same(i->first.second, j->first.second) || close(i->first.second, j->first.second, 1e-13)) || std::fabs(i->second - j->second) > 1e-12) return false;
  return true;
}
/// merge values equal up to rounding
Dist rounded(const Dist& d) {
  Dist r;
  for (auto& p : d) {
    bool done = false;
    for (auto& q : r) if (q.first.first == p.first.first && close(q.first.second, p.first.second, 1e-13)) { q.second += p.second; done = true; break; }
    if (!done) r[p.first] += p.second;
  }
  return r;
}

/// Check a stack; false if the sizes are incompatible
bool check(const Stack& st, int n, int variant) {
  Base base(n, variant);
  std::vector<std::shared_ptr<void>> keep;
  std::vector<std::unique_ptr<Function>> fs;
  Function *top = &base; int size = n, noises = 0;
  for (auto l : st.ls) {
    Function *g = l->make(top, keep);
    if (!g) return false;
    fs.emplace_back(g); top = g; size = l->size(size);
    noises += l->name.find("noise") != std::string::npos || l->name.find("gaussian") != std::string::npos;
  }
  MC_CHECK(top->get_bv_size() == size, "size", st.name() << ": size " << top->get_bv_size());
  { std::ostringstream s; top->display(s); MC_CHECK(s.str() == "base " + mc::str(n), "display", st.name() << " displays " << s.str()); }
  for (auto& x : domain(size, 5)) {
    Dist want = rounded(st.dist(x, base));
    for (int how = 0; how < 2; how++) {
      Dist got;
      mc::Opt o; mc::cells(o, { 1. / 3, 0.5, 2. / 3 });
      mc::explore(o, [&]() {
        base.seen.clear();
        bit_vector_t y = x;
        double v = how ? top->evaluate_safely(y) : top->evaluate(y);
        MC_CHECK(y == x, "argument", st.name() << " modifies its argument");
        MC_CHECK(base.seen.size() == 1, "calls", st.name() << ": " << base.seen.size() << " evaluations of the base function");
        got[{ base.seen[0], v }] += mc::prob();
        top->update(y, v);
        mc::state(mc::Hash().addv(base.seen[0]).add(v));
      });
      got = rounded(got);
      MC_CHECK(near(got, want), "distribution", st.name() << " of " << vp::show(x) << ": " << show(got) << " expected " << show(want));
    }
    bit_vector_t z = x; for (int k = int(st.ls.size()) - 1; k >= 0; k--) z = st.ls[k]->description(z);
    std::ostringstream s;
    { mc::Fixed fx(1); top->describe(x, s); }
    MC_CHECK(s.str() == "described " + vp::show(z), "describe", st.name() << " of " << vp::show(x) << " says " << s.str());
  }
  return true;
}

void stacks(const std::vector<Layer>& all, std::vector<const Layer *> prefix, int depth, int n, int noise) {
  Stack s; s.ls = prefix;
  if (!check(s, n, int(prefix.size()) % 3)) return;
  if (depth == 0) return;
  for (auto& l : all) {
    int k = noise + (l.name.find("noise") != std::string::npos || l.name.find("gaussian") != std::string::npos ? 1 : 0);
    if (k > 2) continue;
    auto p = prefix; p.push_back(&l); stacks(all, p, depth - 1, n, k);
  }
}

void invalid() {
  Base b(2, 0);
  for (const char *e : { "", "x+", "y", "2*(x", "x)", "foo(x)", "x y" }) {
    bool thrown = false;
    try { ParsedModifier m(&b, e); } catch (std::runtime_error&) { thrown = true; }
    MC_CHECK(thrown, "expression", "accepted expression '" << e << "'");
  }
  map::Translation t; t.set_bv(bit_vector_t(3, 0));
  bool thrown = false;
  try { FunctionMapComposition m(&b, &t); } catch (std::runtime_error&) { thrown = true; }
  MC_CHECK(thrown, "map size", "accepted a map of another size");
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  static const auto all = layers();
  for (int n = 2; n <= 3; n++) {
    for (size_t i = 0; i < all.size(); i++)
      mc::add("stacks on " + mc::str(n) + " bits, first " + all[i].name, [=]() { stacks(all, { &all[i] }, th ? 4 : 3, n, i + 4 >= all.size()); });
    mc::add("no modifier, " + mc::str(n), [=]() { stacks(all, {}, 0, n, 0); });
  }
  mc::add("invalid", invalid);
}
