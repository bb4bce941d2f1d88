// C23: adapters turn functions over other domains into functions over bit vectors by composition.
#include <complex>
#include <variant>
#include "common.hh"
#include "hnco/functions/converter.hh"
#include "hnco/functions/multiobjective-function-adapter.hh"
#include "hnco/functions/multivariate-function-adapter.hh"
#include "hnco/functions/permutation-function-adapter.hh"
#include "hnco/functions/universal-function-adapter.hh"
#include "hnco/functions/collection/parsed-multivariate-function.hh"
#include "hnco/multiobjective/functions/multivariate-function-adapter.hh"
#include "hnco/multiobjective/functions/universal-function-adapter.hh"
#include "hnco/multiobjective/functions/collection/parsed-multivariate-function.hh"
#include "fparser/fparser.hh"
using namespace hnco;
using namespace hnco::representation;
using namespace vp;
namespace F = hnco::function;
namespace M = hnco::multiobjective::function;

namespace {

bit_vector_t complement(bit_vector_t x) { for (auto& b : x) b ^= 1; return x; }


using I = DyadicIntegerRepresentation<int>;
using L = DyadicIntegerRepresentation<long>;
using D = DyadicFloatRepresentation<double>;
using V = ValueSetRepresentation<double>;
using C = ComplexRepresentation<D>;
using K = LinearCategoricalRepresentation;
using P = PermutationRepresentation;

template<class T> std::string str(const T& x) { std::ostringstream s; s.precision(17); s << x; return s.str(); }
template<class T> std::string str(const std::vector<T>& v) { std::string s = "("; for (auto& x : v) s += str(x) + " "; return s + ")"; }

/// A function which records its arguments and depends on every variable and position
template<class T> double mixture(const std::vector<T>& x) { double r = 0.5; int k = 1; for (auto& v : x) { r += double(k) * double(v); k = (k * 3 + 1) % 100003; } return r; }
template<class T, class U = T> struct Fn {
  using domain_type = T; using codomain_type = U;
  int n, m; std::vector<std::vector<T>> seen; std::vector<std::vector<T>> described; std::function<U(const std::vector<T>&, int)> f;
  Fn(int n_, std::function<U(const std::vector<T>&, int)> g, int m_ = 2): n(n_), m(m_), f(g) {}
  int get_num_variables() const { return n; }
  int get_output_size() const { return m; }
  U evaluate(const std::vector<T>& x) { seen.push_back(x); return f(x, 0); }
  void evaluate(const std::vector<T>& x, std::vector<U>& v) { seen.push_back(x); for (int i = 0; i < m; i++) v[i] = f(x, i); }
  void describe(const std::vector<T>& x, std::ostream& s) { described.push_back(x); s << "vars " << str(x); }
  void display(std::ostream& s) const { s << "fn "; }
};

/// Values of consecutive slices
template<class Rep> auto slice(Rep& r, const bit_vector_t& x, int& start) { bit_vector_t b(x.begin() + start, x.begin() + start + r.size()); start += r.size(); return r.unpack(b, 0); }
inline permutation_t slice(P& r, const bit_vector_t& x, int& start) { bit_vector_t b(x.begin() + start, x.begin() + start + r.size()); start += r.size(); permutation_t p(r.get_num_elements()); r.unpack(b, 0, p); return p; }

/// All multisets of indices into a list of representations, in order
void tuples(int kinds, int len, const std::function<void(const std::vector<int>&)>& f) {
  std::vector<int> t;
  std::function<void()> rec = [&]() { if (!t.empty()) f(t); if (int(t.size()) == len) return; for (int i = 0; i < kinds; i++) { t.push_back(i); rec(); t.pop_back(); } };
  rec();
}

/// Check one adapter of each kind: single objective and multiobjective
template<class T, class U, class Rep, class Conv>
void adapters(const std::string& w, std::vector<Rep> reps, std::function<U(const std::vector<T>&, int)> f, std::function<double(U)> conv, int m) {
  Fn<T, U> fn(int(reps.size()), f, m), gn(int(reps.size()), f, m);
  F::MultivariateFunctionAdapter<Fn<T, U>, Rep, Conv> a(&fn, reps);
  M::MultivariateFunctionAdapter<Fn<T, U>, Rep, Conv> b(&gn, reps);
  F::MultiobjectiveFunctionAdapter sum(&b);
  int n = 0; for (auto& r : reps) n += r.size();
  MC_CHECK(a.get_bv_size() == n && b.get_bv_size() == n && sum.get_bv_size() == n, "size", w << ": sizes " << a.get_bv_size() << " and " << b.get_bv_size() << ", expected " << n);
  MC_CHECK(b.get_output_size() == m, "size", w << ": output size " << b.get_output_size());
  { std::ostringstream d, e, t; a.display(d); b.display(e); t << "fn Representations:" << std::endl; for (auto& r : reps) { r.display(t); t << std::endl; } MC_CHECK(d.str() == t.str() && e.str() == t.str(), "display", w << " displays " << d.str()); }
  std::vector<std::pair<bit_vector_t, double>> hist;
  for (auto& x : domain(n, 10)) {
    bit_vector_t y = x;
    std::vector<T> want; int start = 0; for (auto& r : reps) want.push_back(slice(r, x, start));
    fn.seen.clear(); gn.seen.clear(); fn.described.clear();
    double v = a.evaluate(y);
    M::value_t vs(m, -77); b.evaluate(y, vs);
    MC_CHECK(fn.seen.size() == 1 && gn.seen.size() == 1, "calls", w << ": " << fn.seen.size() << " calls");
    MC_CHECK(fn.seen[0] == want && gn.seen[0] == want, "variables", w << " of " << show(x) << ": " << str(fn.seen[0]) << " and " << str(gn.seen[0]) << " instead of " << str(want));
    MC_CHECK(same(v, conv(f(want, 0))), "value", w << " of " << show(x) << ": " << v << " instead of " << conv(f(want, 0)));
    double s = 0;
    for (int i = 0; i < m; i++) { MC_CHECK(same(vs[i], conv(f(want, i))), "objective", w << " of " << show(x) << ": objective " << i << " is " << vs[i]); s += vs[i]; }
    MC_CHECK(close(sum.evaluate(y), s, 1e-12), "sum", w << " of " << show(x) << ": sum of objectives " << sum.evaluate(y) << " instead of " << s);
    // the description is that of its argument, not of the vector evaluated last, and conversely
    { bit_vector_t z = complement(x); a.evaluate(z); b.evaluate(z, vs); sum.evaluate(z); }
    std::ostringstream d, e, g; a.describe(y, d); b.describe(y, e); sum.describe(y, g);
    { bit_vector_t z = complement(x); std::ostringstream o; a.describe(z, o); b.describe(z, o); }
    MC_CHECK(same(a.evaluate(y), v), "history", w << " of " << show(x) << " depends on earlier descriptions");
    b.evaluate(y, vs); MC_CHECK(same(vs[0], conv(f(want, 0))), "history", w << " of " << show(x) << " depends on earlier descriptions");
    MC_CHECK(d.str() == "vars " + str(want) && e.str() == d.str() && g.str() == d.str(), "describe", w << " describes " << show(x) << " as " << d.str());
    MC_CHECK(x == y, "argument", w << " modifies its argument");
    if (!hist.empty()) { auto& h = hist[hist.size() / 2]; MC_CHECK(same(a.evaluate(h.first), h.second), "history", w << " depends on earlier evaluations"); }
    hist.push_back({ x, v });
    mc::state(mc::Hash().adds(w).add(v).adds(str(want)));
  }
}
template<class Rep> std::vector<Rep> pick(const std::vector<Rep>& all, const std::vector<int>& t) { std::vector<Rep> r; for (int i : t) r.push_back(all[i]); return r; }

void multivariate(int kind, int depth) {
  const std::vector<I> is = { I(0, 1), I(-3, 2), I(5, 6, 1) };
  const std::vector<L> ls = { L(0, 1), L(-3, 2), L(1000000000000l, 1000000000005l) };
  const std::vector<D> ds = { D(0, 1, 1), D(-1, 2, 2), D(0, 10, 3.) };
  const std::vector<V> vs = { V({ 1.5, -2 }), V({ 3, 1, 2 }), V({ 7, 7.5, 8, 8.5, 9 }) };
  const std::vector<C> cs = { C(D(0, 1, 1)), C(D(-1, 1, 2), D(5, 6, 1)), C(D(0, 4, 1), D(-2, 2, 2)) };
  auto all = [&](const std::function<void(const std::vector<int>&)>& g) {
    if (depth > 0) { tuples(3, depth, g); return; }
    for (int len : { 30, 70, 150, 300 }) { std::vector<int> t; for (int i = 0; i < len; i++) t.push_back(int(mix64(uint64_t(i + len)) % 3)); g(t); }
  };
  all([&](const std::vector<int>& t) {
    for (int m = 1; m <= 3; m++) switch (kind) {
    case 0: adapters<double, double, D, F::ScalarToDouble<double>>("doubles " + mc::vec(t), pick(ds, t), [](auto& x, int i) { return mixture(x) - 4 * i; }, [](double u) { return u; }, m); break;
    case 1: adapters<double, double, D, F::AbsoluteValue<double>>("doubles, absolute " + mc::vec(t), pick(ds, t), [](auto& x, int i) { return mixture(x) - 4 - i; }, [](double u) { return std::fabs(u); }, m); break;
    case 2: adapters<double, double, I, F::OppositeAbsoluteValue<double>>("ints as doubles, opposite absolute " + mc::vec(t), pick(is, t), [](auto& x, int i) { return mixture(x) - 4 - i; }, [](double u) { return -std::fabs(u); }, m); break;
    case 3: adapters<long, long, L, F::ScalarToDouble<long>>("longs " + mc::vec(t), pick(ls, t), [](auto& x, int i) { long r = 1 - i; for (auto v : x) r = 3 * r + v % 1000; return r; }, [](long u) { return double(u); }, m); break;
    case 4: adapters<long, long, L, F::AbsoluteValue<long>>("longs, absolute " + mc::vec(t), pick(ls, t), [](auto& x, int i) { long r = -7 - i; for (auto v : x) r = 3 * r + v % 1000; return r; }, [](long u) { return double(u < 0 ? -u : u); }, m); break;
    case 5: adapters<long, long, L, F::OppositeAbsoluteValue<long>>("longs, opposite absolute " + mc::vec(t), pick(ls, t), [](auto& x, int i) { long r = -7 - i; for (auto v : x) r = 3 * r + v % 1000; return r; }, [](long u) { return -double(u < 0 ? -u : u); }, m); break;
    case 6: adapters<double, double, V, F::ScalarToDouble<double>>("values " + mc::vec(t), pick(vs, t), [](auto& x, int i) { return mixture(x) - 4 * i; }, [](double u) { return u; }, m); break;
    case 7: case 8: {
      using Z = std::complex<double>;
      auto f = [](const std::vector<Z>& x, int i) { Z r(1, -i); for (auto& z : x) r = r * z + Z(0.5, 1); return r; };
      if (kind == 7) adapters<Z, Z, C, F::SquaredMagnitude<double>>("complex " + mc::vec(t), pick(cs, t), f, [](Z z) { return std::norm(z); }, m);
      else adapters<Z, Z, C, F::OppositeSquaredMagnitude<double>>("complex, opposite " + mc::vec(t), pick(cs, t), f, [](Z z) { return -std::norm(z); }, m);
    } }
  });
}

/// Representations of mixed kinds
void mixed(int depth) {
  using R = std::variant<I, L, D, V>;
  const std::vector<R> rs = { I(-1, 1), L(-2, 3), D(0, 1, 2), V({ 3.5, 2.5, 1.5 }), D(-4, 4, 1) };
  auto all = [&](const std::function<void(const std::vector<int>&)>& g) {
    if (depth > 0) { tuples(5, depth, g); return; }
    for (int len : { 30, 70, 150, 300 }) { std::vector<int> t; for (int i = 0; i < len; i++) t.push_back(int(mix64(uint64_t(i + len)) % 5)); g(t); }
  };
  all([&](const std::vector<int>& t) {
    auto reps = pick(rs, t);
    std::string w = "mixed " + mc::vec(t);
    auto f = [](const std::vector<double>& x, int i) { return mixture(x) - 5 * i; };
    for (int m = 1; m <= 2; m++) {
      Fn<double> fn(int(t.size()), f, m), gn(int(t.size()), f, m);
      F::MixedRepresentationMultivariateFunctionAdapter<Fn<double>, R, F::AbsoluteValue<double>> a(&fn, reps);
      M::MixedRepresentationMultivariateFunctionAdapter<Fn<double>, R, F::AbsoluteValue<double>> b(&gn, reps);
      int n = 0; for (auto& r : reps) n += std::visit([](auto&& v) { return v.size(); }, r);
      MC_CHECK(a.get_bv_size() == n && b.get_bv_size() == n && b.get_output_size() == m, "size", w << ": size " << a.get_bv_size());
      { std::ostringstream d, e, s; a.display(d); b.display(e); s << "fn Representations:" << std::endl; for (auto& r : reps) { std::visit([&](auto&& v) { v.display(s); }, r); s << std::endl; } MC_CHECK(d.str() == s.str() && e.str() == s.str(), "display", w << " displays " << d.str()); }
      for (auto& x : domain(n, 9)) {
        bit_vector_t y = x;
        std::vector<double> want; int start = 0; for (auto& r : reps) want.push_back(std::visit([&](auto&& v) { return double(slice(v, x, start)); }, r));
        fn.seen.clear(); gn.seen.clear();
        double v = a.evaluate(y); M::value_t vs(m, -77); b.evaluate(y, vs);
        MC_CHECK(fn.seen.size() == 1 && fn.seen[0] == want && gn.seen.size() == 1 && gn.seen[0] == want, "variables", w << " of " << show(x) << ": " << str(fn.seen) << " instead of " << str(want));
        MC_CHECK(v == std::fabs(f(want, 0)), "value", w << " of " << show(x) << ": " << v);
        for (int i = 0; i < m; i++) MC_CHECK(vs[i] == std::fabs(f(want, i)), "objective", w << " of " << show(x) << ": objective " << i << " is " << vs[i]);
        { bit_vector_t z = complement(x); a.evaluate(z); b.evaluate(z, vs); }
        std::ostringstream d, e; a.describe(y, d); b.describe(y, e);
        { bit_vector_t z = complement(x); std::ostringstream o; a.describe(z, o); b.describe(z, o); }
        MC_CHECK(a.evaluate(y) == v, "history", w << " of " << show(x) << " depends on earlier descriptions");
        b.evaluate(y, vs); MC_CHECK(vs[0] == std::fabs(f(want, 0)), "history", w << " of " << show(x) << " depends on earlier descriptions");
        MC_CHECK(d.str() == "vars " + str(want) && e.str() == d.str(), "describe", w << " describes " << show(x) << " as " << d.str());
        MC_CHECK(x == y, "argument", w << " modifies its argument");
        mc::state(mc::Hash().adds(w).add(v));
      }
    }
  });
}

/// Functions over permutations
struct PFn {
  int n; std::vector<permutation_t> seen;
  int get_num_elements() const { return n; }
  static double f(const permutation_t& p) { double r = 0; for (int i : p) r = r * 10 + i; return r; }
  double evaluate(const permutation_t& p) { seen.push_back(p); return f(p); }
  void display(std::ostream& s) const { s << "pfn "; }
  void describe(const permutation_t& p, std::ostream& s) { seen.push_back(p); s << f(p); }
};
void permutations(int n, int extra) {
  P rep(n, extra);
  PFn fn{ n, {} };
  F::PermutationFunctionAdapter<PFn> a(&fn, rep);
  MC_CHECK(a.get_bv_size() == rep.size(), "size", "permutation adapter of size " << a.get_bv_size());
  { std::ostringstream d, t; a.display(d); t << "pfn "; rep.display(t); MC_CHECK(d.str() == t.str(), "display", "displays " << d.str()); }
  for (auto& x : domain(rep.size(), 9)) {
    std::set<permutation_t> want, got;
    mc::explore(mc::Opt(), [&]() { permutation_t p(n); rep.unpack(x, 0, p); want.insert(p); });
    mc::explore(mc::Opt(), [&]() {
      { mc::Fixed fixed(1); std::ostringstream o; a.describe(complement(x), o); }
      fn.seen.clear(); bit_vector_t y = x;
      double v = a.evaluate(y);
      MC_CHECK(fn.seen.size() == 1, "calls", fn.seen.size() << " calls");
      MC_CHECK(v == PFn::f(fn.seen[0]), "value", "value " << v << " of " << mc::vec(fn.seen[0]));
      MC_CHECK(want.count(fn.seen[0]) == 1, "permutation", show(x) << " evaluated as " << mc::vec(fn.seen[0]));
      MC_CHECK(x == y, "argument", "the adapter modifies its argument");
      got.insert(fn.seen[0]);
      mc::state(mc::Hash().addv(x).add(v));
    });
    MC_CHECK(got == want, "permutation", show(x) << ": " << got.size() << " permutations instead of " << want.size());
    mc::explore(mc::Opt(), [&]() {
      { mc::Fixed fixed(1); a.evaluate(complement(x)); }
      fn.seen.clear(); std::ostringstream s; a.describe(x, s);
      MC_CHECK(fn.seen.size() == 1 && want.count(fn.seen[0]) == 1 && s.str() == str(PFn::f(fn.seen[0])), "describe", show(x) << " described as " << s.str());
    });
  }
  for (int k = 1; k <= 4; k++) if (k != n) {
    bool thrown = false; PFn other{ k, {} };
    try { F::PermutationFunctionAdapter<PFn> z(&other, rep); } catch (std::runtime_error&) { thrown = true; }
    MC_CHECK(thrown, "elements", "a representation of " << n << " elements is accepted for " << k);
  }
}

/// Universal functions
struct Args { bit_vector_t b; std::vector<int> i; std::vector<double> f; std::vector<std::complex<double>> z; std::vector<int> c; std::vector<permutation_t> p;
  bool operator==(const Args& o) const { return b == o.b && i == o.i && f == o.f && z == o.z && c == o.c && p == o.p; }
  std::string text() const { std::string s = "b " + show(b) + " i " + str(i) + " f " + str(f) + " z " + str(z) + " c " + str(c) + " p "; for (auto& q : p) s += mc::vec(q); return s; }
  double value() const { double r = 1; for (auto x : b) r = 2 * r + x; for (auto x : i) r = 3 * r + x; for (auto x : f) r = r / 2 + x; for (auto x : z) r += x.real() - 3 * x.imag(); for (auto x : c) r = 5 * r + x; for (auto& q : p) r += 7 * PFn::f(q); return r; }
};
struct U1: F::UniversalFunction {
  std::vector<Args> seen;
  double evaluate(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& z, const std::vector<int>& c, const std::vector<permutation_t>& p) override { seen.push_back({ b, i, f, z, c, p }); return seen.back().value(); }
  void display(std::ostream& s) const override { s << "u1"; }
  void describe(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& z, const std::vector<int>& c, const std::vector<permutation_t>& p, std::ostream& s) override { Args a{ b, i, f, z, c, p }; seen.push_back(a); s << a.text(); }
};
struct U2: M::UniversalFunction {
  std::vector<Args> seen; int m = 2;
  int get_output_size() const override { return m; }
  void evaluate(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& z, const std::vector<int>& c, std::vector<permutation_t> p, M::value_t& v) { seen.push_back({ b, i, f, z, c, p }); for (int k = 0; k < m; k++) v[k] = seen.back().value() * (k + 1) - k; }
  void evaluate(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& z, const std::vector<int>& c, const std::vector<permutation_t>& p, M::value_t& v) { seen.push_back({ b, i, f, z, c, p }); for (int k = 0; k < m; k++) v[k] = seen.back().value() * (k + 1) - k; }
  void display(std::ostream& s) const override { s << "u2"; }
  void describe(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& z, const std::vector<int>& c, std::vector<permutation_t> p, std::ostream& s) { Args a{ b, i, f, z, c, p }; seen.push_back(a); s << a.text(); }
  void describe(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& z, const std::vector<int>& c, const std::vector<permutation_t>& p, std::ostream& s) { Args a{ b, i, f, z, c, p }; seen.push_back(a); s << a.text(); }
};
void universal(int mask) {
  // number of variables of each kind in base 3, at most 2 each
  int num[6]; int v = mask, total = 0; for (auto& k : num) { k = v % 3; v /= 3; total += k; }
  if (total == 0 || total > (mc::thorough() ? 6 : 4)) return;
  std::vector<I> is; std::vector<D> fs; std::vector<C> zs; std::vector<K> ks; std::vector<P> ps;
  for (int k = 0; k < num[1]; k++) is.push_back(k ? I(-2, 3) : I(5, 6));
  for (int k = 0; k < num[2]; k++) fs.push_back(k ? D(-1, 1, 2) : D(3, 4, 1));
  for (int k = 0; k < num[3]; k++) zs.push_back(k ? C(D(0, 1, 1)) : C(D(5, 7, 1), D(-3, 0, 2)));
  for (int k = 0; k < num[4]; k++) ks.push_back(k ? K(2) : K(3));
  for (int k = 0; k < num[5]; k++) ps.push_back(k ? P(1, 1) : P(2, 1));
  int n = num[0]; for (auto& r : is) n += r.size(); for (auto& r : fs) n += r.size(); for (auto& r : zs) n += r.size(); for (auto& r : ks) n += r.size(); for (auto& r : ps) n += r.size();
  U1 u; U2 w;
  F::UniversalFunctionAdapter a(&u, num[0], is, fs, zs, ks, ps);
  M::UniversalFunctionAdapter b(&w, num[0], is, fs, zs, ks, ps);
  std::string name = "universal " + mc::str(mask);
  MC_CHECK(a.get_bv_size() == n && b.get_bv_size() == n && b.get_output_size() == 2, "size", name << ": size " << a.get_bv_size() << ", expected " << n);
  { std::ostringstream s, t; a.display(s); b.display(t); MC_CHECK(s.str().find("u1") != std::string::npos && t.str().find("u2") != std::string::npos, "display", name << " does not display its function"); }
  for (auto& x : domain(n, 9)) {
    std::set<std::string> want, got, got2;
    mc::explore(mc::Opt(), [&]() {
      Args e; int s = num[0]; e.b.assign(x.begin(), x.begin() + s);
      for (auto& r : is) e.i.push_back(slice(r, x, s));
      for (auto& r : fs) e.f.push_back(slice(r, x, s));
      for (auto& r : zs) e.z.push_back(slice(r, x, s));
      for (auto& r : ks) e.c.push_back(int(slice(r, x, s)));
      for (auto& r : ps) e.p.push_back(slice(r, x, s));
      want.insert(e.text());
    });
    mc::explore(mc::Opt(), [&]() {
      { mc::Fixed fixed(1); std::ostringstream o; a.describe(complement(x), o); }
      u.seen.clear(); bit_vector_t y = x;
      double val = a.evaluate(y);
      MC_CHECK(u.seen.size() == 1 && val == u.seen[0].value(), "value", name << " of " << show(x) << ": " << val);
      got.insert(u.seen[0].text());
      MC_CHECK(y == x, "argument", name << " modifies its argument");
      mc::state(mc::Hash().add(mask).addv(x).add(val));
    });
    mc::explore(mc::Opt(), [&]() {
      w.seen.clear(); M::value_t vs(2, -77); b.evaluate(x, vs);
      MC_CHECK(w.seen.size() == 1 && vs[0] == w.seen[0].value() && vs[1] == 2 * w.seen[0].value() - 1, "objectives", name << " of " << show(x));
      got2.insert(w.seen[0].text());
    });
    MC_CHECK(got == want && got2 == want, "variables", name << " of " << show(x) << ": " << *got.begin() << " instead of " << *want.begin());
    mc::explore(mc::Opt(), [&]() {
      { mc::Fixed fixed(1); M::value_t vs(2, -77); a.evaluate(complement(x)); b.evaluate(complement(x), vs); }
      std::ostringstream s, t; u.seen.clear(); w.seen.clear(); a.describe(x, s); b.describe(x, t);
      for (auto q : { std::make_pair(s.str(), &u.seen), std::make_pair(t.str(), &w.seen) }) {
        MC_CHECK(q.second->size() == 1, "describe", name << ": " << q.second->size() << " descriptions");
        const Args& e = (*q.second)[0];
        MC_CHECK(want.count(e.text()) && q.first.size() >= e.text().size() && q.first.substr(q.first.size() - e.text().size()) == e.text(), "describe", name << " describes " << show(x) << " as " << q.first);
        for (size_t k = 0; k < e.b.size(); k++) MC_CHECK(q.first.find("boolean[" + mc::str(k) + "] = " + mc::str(int(e.b[k])) + "\n") != std::string::npos, "describe", name << ": boolean " << k);
        for (size_t k = 0; k < e.i.size(); k++) MC_CHECK(q.first.find("integer[" + mc::str(k) + "] = " + mc::str(e.i[k]) + "\n") != std::string::npos, "describe", name << ": integer " << k);
        for (size_t k = 0; k < e.c.size(); k++) MC_CHECK(q.first.find("categorical[" + mc::str(k) + "] = " + mc::str(e.c[k]) + "\n") != std::string::npos, "describe", name << ": category " << k);
      }
    });
  }
}

/// Parsed expressions
struct Expr { const char *text; std::vector<std::string> names; std::function<double(const std::vector<double>&)> f; };
void parsed() {
  const double V5[] = { -2.5, -1, 0, 0.5, 3 };
  std::vector<Expr> es = {
    { "x", { "x" }, [](auto& v) { return v[0]; } },
    { "x + 2*y", { "x", "y" }, [](auto& v) { return v[0] + 2 * v[1]; } },
    { "y - x", { "y", "x" }, [](auto& v) { return v[0] - v[1]; } },
    { "z*z - b*a", { "z", "b", "a" }, [](auto& v) { return v[0] * v[0] - v[1] * v[2]; } },
    { "(x+y)^2 / (1 + x^2)", { "x", "y" }, [](auto& v) { return (v[0] + v[1]) * (v[0] + v[1]) / (1 + v[0] * v[0]); } },
    { " x\n+\ty ", { "x", "y" }, [](auto& v) { return v[0] + v[1]; } },
    { "if(u < v, u, 10*v)", { "u", "v" }, [](auto& v) { return v[0] < v[1] ? v[0] : 10 * v[1]; } },
    { "pi * r + e", { "r" }, [](auto& v) { return M_PI * v[0] + M_E; } },
    { "x2 + x10 + x1 * 3", { "x2", "x10", "x1" }, [](auto& v) { return v[0] + v[1] + v[2] * 3; } },
    { "abs(x) + max(y, x) - min(w, 1)", { "x", "y", "w" }, [](auto& v) { return std::fabs(v[0]) + std::max(v[1], v[0]) - std::min(v[2], 1.); } },
  };
  auto grid = [&](size_t n, auto f) { std::vector<size_t> i(n, 0); for (;;) { std::vector<double> v; for (auto k : i) v.push_back(V5[k]); f(v); size_t k = 0; while (k < n && ++i[k] == 5) i[k++] = 0; if (k == n) break; } };
  for (auto& e : es) {
    F::ParsedMultivariateFunction<FunctionParser> fn(e.text);
    fn.add_constant("pi", M_PI); fn.add_constant("e", M_E); fn.parse();
    auto order = e.names; std::sort(order.begin(), order.end());
    MC_CHECK(fn.get_variable_names() == order && fn.get_num_variables() == int(e.names.size()), "names", "variables of " << e.text << ": " << str(fn.get_variable_names()));
    grid(e.names.size(), [&](const std::vector<double>& v) {
      std::vector<double> a; for (auto& n : e.names) a.push_back(v[std::lower_bound(order.begin(), order.end(), n) - order.begin()]);
      double got = fn.evaluate(v), want = e.f(a);
      MC_CHECK(close(got, want, 1e-12), "expression", e.text << " at " << str(v) << " is " << got << " instead of " << want);
      std::ostringstream s, t; fn.describe(v, s); for (size_t i = 0; i < v.size(); i++) t << order[i] << " = " << v[i] << std::endl;
      MC_CHECK(s.str() == t.str(), "describe", e.text << " described as " << s.str());
      mc::state(mc::Hash().adds(e.text).add(got));
    });
  }
  // several objectives share their variables, in alphabetical order
  for (auto& e : es) for (auto& g : es) for (int third = 0; third < 2; third++) {
    std::vector<const Expr *> list = { &e, &g }; if (third) list.push_back(&es[2]);
    std::string text; for (auto q : list) text += (text.empty() ? "" : "::") + std::string(q->text);
    std::set<std::string> names; for (auto q : list) names.insert(q->names.begin(), q->names.end());
    std::vector<std::string> order(names.begin(), names.end());
    if (order.size() > 5) continue;
    M::ParsedMultivariateFunction<FunctionParser> fn(text);
    fn.add_constant("pi", M_PI); fn.add_constant("e", M_E); fn.parse();
    MC_CHECK(fn.get_variable_names() == order && fn.get_output_size() == int(list.size()) && fn.get_num_variables() == int(order.size()), "names", "variables of " << text << ": " << str(fn.get_variable_names()));
    grid(order.size(), [&](const std::vector<double>& v) {
      std::vector<double> got(list.size(), -77); fn.evaluate(v, got);
      for (size_t i = 0; i < list.size(); i++) {
        std::vector<double> a; for (auto& n : list[i]->names) a.push_back(v[std::lower_bound(order.begin(), order.end(), n) - order.begin()]);
        MC_CHECK(close(got[i], list[i]->f(a), 1e-12), "expression", text << " at " << str(v) << ": objective " << i << " is " << got[i] << " instead of " << list[i]->f(a));
      }
      std::ostringstream s, t; fn.describe(v, s); for (size_t i = 0; i < v.size(); i++) t << order[i] << " = " << v[i] << std::endl;
      MC_CHECK(s.str() == t.str(), "describe", text << " described as " << s.str());
      mc::step();
    });
    mc::state(mc::Hash().adds(text));
  }
  for (const char *bad : { "", "x +", "2 * (x", "foo(x)", "x y", "x::", "::x", "x::+" }) {
    bool one = false, two = false;
    try { F::ParsedMultivariateFunction<FunctionParser> f(bad); f.parse(); } catch (std::runtime_error&) { one = true; }
    try { M::ParsedMultivariateFunction<FunctionParser> f(bad); f.parse(); } catch (std::runtime_error&) { two = true; }
    MC_CHECK(one && two, "expression", "accepted expression '" << bad << "'");
  }
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  for (int k = 0; k < 9; k++) mc::add("multivariate " + mc::str(k), [=]() { multivariate(k, th ? 5 : 4); });
  mc::add("mixed", [=]() { mixed(th ? 5 : 4); });
  for (int k : { 0, 1, 2, 6 }) mc::add("many variables " + mc::str(k), [=]() { multivariate(k, 0); });
  mc::add("many mixed variables", [=]() { mixed(0); });
  for (int n = 1; n <= 4; n++) for (int e = 1; e <= 2; e++) if (n * (e + 2) <= 12 || th) mc::add("permutations " + mc::str(n) + " " + mc::str(e), [=]() { permutations(n, e); });
  for (int m = 0; m < 729; m++) mc::add("universal " + mc::str(m), [=]() { universal(m); });
  mc::add("parsed", parsed);
}
