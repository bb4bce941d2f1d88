// C21: Walsh transforms, local and global maximality agree with their definitions.
#include <map>
#include "functions.hh"
#include "hnco/functions/collection/walsh/all.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
using namespace hnco;
using namespace hnco::function;
using namespace hnco::neighborhood;
using namespace vp;

namespace {

struct Table: Function {
  int n; std::vector<double> v; std::vector<int> calls; bool known = false; double max = 0;
  Table(int n_, std::vector<double> w): n(n_), v(w), calls(w.size()) { max = *std::max_element(v.begin(), v.end()); }
  int get_bv_size() const override { return n; }
  double evaluate(const bit_vector_t& x) override { MC_CHECK(int(x.size()) == n && valid(x), "argument", "bad argument " << show(x)); calls[bits(x)]++; return v[bits(x)]; }
  bool has_known_maximum() const override { return known; }
  double get_maximum() const override { return max; }
};

using Terms = std::vector<WalshTerm>;
std::string text(const Terms& ts) { std::string s; for (auto& t : ts) { for (bool b : t.feature) s += b ? '1' : '0'; s += ":" + mc::str(t.coefficient) + " "; } return s; }

/// Definition
std::map<uint64_t, double> transform(const std::vector<double>& v) {
  std::map<uint64_t, double> r;
  for (uint64_t u = 0; u < v.size(); u++) { double c = 0; for (uint64_t x = 0; x < v.size(); x++) c += __builtin_popcountll(u & x) % 2 ? -v[x] : v[x]; r[u] = c; }
  return r;
}

void check_terms(const std::string& w, int n, const std::vector<double>& v, const Terms& ts, const std::map<uint64_t, double>& want, bool exact) {
  std::map<uint64_t, double> got; double scale = 1; for (double x : v) scale += std::fabs(x);
  for (auto& t : ts) {
    MC_CHECK(int(t.feature.size()) == n, "feature", w << ": a feature of " << t.feature.size() << " bits");
    uint64_t u = 0; for (int i = 0; i < n; i++) if (t.feature[i]) u |= uint64_t(1) << i;
    MC_CHECK(got.count(u) == 0, "feature", w << ": feature " << u << " twice");
    MC_CHECK(t.coefficient != 0, "zero", w << ": null term");
    got[u] = t.coefficient;
  }
  for (auto& p : want) {
    double g = got.count(p.first) ? got[p.first] : 0;
    MC_CHECK(exact ? g == p.second : std::fabs(g - p.second) <= 1e-12 * scale, "coefficient", w << ": coefficient " << g << " of feature " << show(bv(p.first, n)) << " instead of " << p.second);
  }
}

void walsh(const std::string& w, int n, const std::vector<double>& v, bool exact) {
  auto want = transform(v);
  for (int fast = 0; fast < 2; fast++) {
    Table f(n, v);
    Terms ts(3); ts[0].feature.assign(7, true); ts[0].coefficient = 5;       // previous content
    if (fast) compute_fast_walsh_transform(&f, ts); else compute_walsh_transform(&f, ts);
    check_terms(w + (fast ? " (fast)" : ""), n, v, ts, want, exact);
    for (int c : f.calls) MC_CHECK(c == 1, "evaluations", w << ": a vector is evaluated " << c << " times");
    // the expansion with these terms is the function again, up to the factor 2^n
    if (!ts.empty()) {
      WalshExpansion e; e.set_terms(ts);
      double scale = 1; for (double x : v) scale += std::fabs(x);
      for (uint64_t x = 0; x < v.size(); x++) {
        double got = e.evaluate(bv(x, n)) / double(v.size());
        MC_CHECK(exact ? got == v[x] : std::fabs(got - v[x]) <= 1e-12 * scale, "inversion", w << ": the expansion is " << got << " at " << show(bv(x, n)) << " instead of " << v[x] << ", terms " << text(ts));
      }
      MC_CHECK(e.get_bv_size() == n, "inversion", w << ": expansion of size " << e.get_bv_size());
    }
    mc::state(mc::Hash().adds(w).add(fast).adds(text(ts)));
  }
}

/// All functions with values in a small set
void all_tables(int n, const std::vector<double>& alphabet, uint64_t part, uint64_t of, const std::function<void(const std::vector<double>&)>& f) {
  uint64_t size = 1u << n, total = 1; for (uint64_t i = 0; i < size; i++) total *= alphabet.size();
  for (uint64_t k = part; k < total; k += of) { std::vector<double> v(size); uint64_t q = k; for (auto& x : v) { x = alphabet[q % alphabet.size()]; q /= alphabet.size(); } f(v); }
}

/// Is x at least as good as its neighbors?
void maximal(int n, const std::vector<double>& v) {
  Table f(n, v);
  std::vector<std::unique_ptr<NeighborhoodIterator>> its; std::vector<int> radius;
  its.emplace_back(new SingleBitFlipIterator(n)); radius.push_back(1);
  for (int r = 1; r <= n; r++) { its.emplace_back(new HammingSphereIterator(n, r)); radius.push_back(r); }
  double top = *std::max_element(v.begin(), v.end());
  for (uint64_t x = 0; x < v.size(); x++) {
    bit_vector_t b = bv(x, n);
    for (size_t k = 0; k < its.size(); k++) {
      bool want = true;
      for (uint64_t y = 0; y < v.size(); y++) if (__builtin_popcountll(x ^ y) == radius[k] && v[y] > v[x]) want = false;
      for (int again = 0; again < 2; again++) {
        bool got = bv_is_locally_maximal(b, f, *its[k]);
        MC_CHECK(got == want, "locally maximal", show(b) << " radius " << radius[k] << " on " << mc::vec(v) << ": " << got);
      }
      MC_CHECK(b == bv(x, n), "argument", "argument modified");
      mc::state(mc::Hash().addv(v).add(x).add(radius[k]).add(want));
    }
    for (double m : { top, top + 1 }) { f.known = true; f.max = m; MC_CHECK(bv_is_globally_maximal(b, f) == (v[x] == m), "globally maximal", show(b) << " with maximum " << m); }
  }
}

/// Shipped functions
void shipped(int n) {
  std::vector<Entry> es = theory(n);
  for (int v = 0; v < 3; v++) for (auto& e : weighted(n, v)) es.push_back(e);
  for (auto& e : es) {
    auto f = e.make();
    if (!f || f->get_bv_size() != n) continue;
    std::vector<double> v(size_t(1) << n); for (uint64_t x = 0; x < v.size(); x++) v[x] = f->evaluate(bv(x, n));
    auto want = transform(v);
    for (int fast = 0; fast < 2; fast++) { Terms ts; if (fast) compute_fast_walsh_transform(f.get(), ts); else compute_walsh_transform(f.get(), ts); check_terms(e.name + (fast ? " (fast)" : ""), n, v, ts, want, false); mc::state(mc::Hash().adds(e.name).adds(text(ts))); }
  }
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  for (int n = 1; n <= 3; n++) for (uint64_t p = 0; p < 8; p++)
    mc::add("walsh " + mc::str(n) + " part " + mc::str(p), [=]() { all_tables(n, n < 3 ? std::vector<double>{ -3, 0, 1, 2, 7 } : th ? std::vector<double>{ -2, 0, 1, 3, 5 } : std::vector<double>{ -2, 0, 1, 5 }, p, 8, [=](auto& v) { walsh("table " + mc::vec(v), n, v, true); }); });
  // wide ranges of values, all sums being exact
  for (int n = 1; n <= 3; n++) for (uint64_t p = 0; p < 4; p++)
    mc::add("walsh wide " + mc::str(n) + " part " + mc::str(p), [=]() {
      all_tables(n, { 0, 1, std::ldexp(1, 48) }, p, 4, [=](auto& v) { walsh("wide table " + mc::vec(v), n, v, true); });
      all_tables(n, { std::ldexp(1, -40), -std::ldexp(1, -41), 1 }, p, 4, [=](auto& v) { walsh("small table " + mc::vec(v), n, v, true); });
      all_tables(n, { 0, 1e-300, -1e-300 }, p, 4, [=](auto& v) { auto w = v; for (auto& x : w) x = x > 0 ? std::ldexp(1, -1000) : x < 0 ? -std::ldexp(1, -1000) : 0; walsh("tiny table " + mc::vec(w), n, w, true); });
    });
  for (uint64_t p = 0; p < 8; p++) mc::add("walsh 4 part " + mc::str(p), [=]() { all_tables(4, { 0, 1 }, p, 8, [=](auto& v) { walsh("table " + mc::vec(v), 4, v, true); }); });
  for (int n = 1; n <= (th ? 12 : 10); n++) mc::add("walsh listed " + mc::str(n), [=]() {
    for (int k = 0; k < 12; k++) { std::vector<double> v; for (uint64_t x = 0; x < (uint64_t(1) << n); x++) v.push_back(k == 0 ? double(x) : k == 1 ? x == 5 : k == 2 ? double(__builtin_popcountll(x)) : k == 3 ? 1. / double(x + 1) : double(int64_t(mix64(x * 31 + k)) >> 40) * (k % 2 ? 1 : 0.1)); walsh("listed " + mc::str(k) + " of " + mc::str(n), n, v, k < 3 || (k > 3 && k % 2)); }
  });
  for (int n = 1; n <= 3; n++) for (uint64_t p = 0; p < 8; p++)
    mc::add("maximal " + mc::str(n) + " part " + mc::str(p), [=]() { all_tables(n, n < 3 ? std::vector<double>{ -INFINITY, -1, 0, 0.5, INFINITY } : th ? std::vector<double>{ -1, 0, 2, 3 } : std::vector<double>{ -1, 0, 2 }, p, 8, [=](auto& v) { maximal(n, v); }); });
  for (int n = 2; n <= (th ? 10 : 8); n++) mc::add("shipped " + mc::str(n), [=]() { shipped(n); });
}
