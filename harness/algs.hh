// Algorithms under a probe function which records every evaluation.
#ifndef VP_ALGS_HH
#define VP_ALGS_HH
#include "common.hh"

#include "hnco/algorithms/complete-search.hh"
#include "hnco/algorithms/decorators/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/algorithms/local-search/all.hh"
#include "hnco/algorithms/mimic.hh"
#include "hnco/algorithms/probability-vector/all.hh"
#include "hnco/algorithms/random-search.hh"
#include "hnco/algorithms/walsh-moment/all.hh"
#include "hnco/exception.hh"
#include "hnco/functions/function.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"

namespace vp {

using namespace hnco;
using hnco::algorithm::solution_t;

struct Ev { char kind; bit_vector_t x; double v; };   // e evaluate, i incremental, s safe, u update
inline bool operator==(const Ev& a, const Ev& b) { return a.kind == b.kind && a.x == b.x && same(a.v, b.v); }

/// Function given by a table or a rule, recording what is asked
class Probe: public function::Function {
public:
  int n;
  std::function<double(const bit_vector_t&)> f;
  bool incremental = false;
  long limit = -1;                 ///< number of evaluations before LastEvaluation
  std::vector<Ev> trace;
  long count = 0;
  std::string error;
  Probe(int n_, std::function<double(const bit_vector_t&)> f_): n(n_), f(f_) {}
  int get_bv_size() const override { return n; }
  int thrown = 0;                  ///< evaluations refused
  void tick() { if (limit >= 0 && count >= limit) { thrown++; throw exception::LastEvaluation(); } count++; }
  void arg(const bit_vector_t& x) {
    if (int(x.size()) != n) mc::fail("argument", "evaluation of a bit vector of size " + mc::str(x.size()) + " instead of " + mc::str(n));
    if (!valid(x)) mc::fail("argument", "evaluation of an invalid bit vector " + show(x));
  }
  double evaluate(const bit_vector_t& x) override {
    arg(x); tick(); double v = f(x); trace.push_back({ 'e', x, v }); return v;
  }
  bool provides_incremental_evaluation() const override { return incremental; }
  double evaluate_incrementally(const bit_vector_t& x, double v, const sparse_bit_vector_t& flips) override {
    arg(x);
    if (!incremental) mc::fail("incremental", "incremental evaluation asked of a function without it");
    if (!(v == f(x))) mc::fail("incremental", "incremental evaluation from " + show(x) + " given the value " + mc::str(v) + " instead of " + mc::str(f(x)));
    bit_vector_t y(x);
    std::set<int> seen;
    for (auto i : flips) {
      if (int(i) < 0 || int(i) >= n || !seen.insert(int(i)).second) mc::fail("incremental", "invalid set of flipped bits " + mc::vec(flips));
      y[size_t(i)] ^= 1;
    }
    tick();
    double w = f(y); trace.push_back({ 'i', y, w }); return w;
  }
  double evaluate_safely(const bit_vector_t& x) override { arg(x); double v = f(x); trace.push_back({ 's', x, v }); return v; }
  void update(const bit_vector_t& x, double v) override { arg(x); tick(); trace.push_back({ 'u', x, v }); }
  void display(std::ostream& s) const override { s << "Probe"; }
};

/// Captures what is written on the standard output
struct Capture {
  std::ostringstream s;
  std::streambuf *old;
  Capture() { old = std::cout.rdbuf(s.rdbuf()); }
  ~Capture() { std::cout.rdbuf(old); }
};

/// An algorithm with what it needs
struct Alg {
  std::vector<std::shared_ptr<void>> keep;
  std::shared_ptr<algorithm::Algorithm> a;
  template<class T, class... A> T *own(A... args) { auto p = std::make_shared<T>(args...); keep.push_back(p); return p.get(); }
  template<class T, class... A> T *make(A... args) { auto p = std::make_shared<T>(args...); a = p; return p.get(); }
};

/// Landscapes of n bits used as probe functions
struct Land { std::string name; std::function<double(const bit_vector_t&)> f; };

inline Land table(const std::string& name, std::vector<double> t) {
  return { name, [t](const bit_vector_t& x) { return t[bits(x)]; } };
}

/// All weak orders of 4 vectors (n = 2) as tables
inline std::vector<Land> all_orders2() {
  std::vector<Land> r;
  for (int c = 0; c < 256; c++) {
    int d[4] = { c & 3, (c >> 2) & 3, (c >> 4) & 3, (c >> 6) & 3 };
    int m = std::max(std::max(d[0], d[1]), std::max(d[2], d[3]));
    bool ok = true;
    for (int k = 0; k <= m; k++) { bool has = false; for (int i = 0; i < 4; i++) has |= d[i] == k; ok &= has; }
    if (!ok) continue;
    // negative values too, so that nothing relies on an initial zero
    r.push_back(table("order" + mc::str(d[0]) + mc::str(d[1]) + mc::str(d[2]) + mc::str(d[3]),
                      { d[0] - 4.5, d[1] - 4.5, d[2] - 4.5, d[3] - 4.5 }));
  }
  return r;
}

inline std::vector<Land> lands(int n) {
  std::vector<Land> r;
  r.push_back({ "onemax", [](const bit_vector_t& x) { return double(weight(x)); } });
  r.push_back({ "negative-zeromax", [n](const bit_vector_t& x) { return -1.0 - weight(x); } });
  r.push_back({ "constant", [](const bit_vector_t&) { return -3.0; } });
  r.push_back({ "needle", [n](const bit_vector_t& x) { return weight(x) == n ? -1.0 : -2.0; } });
  r.push_back({ "trap", [n](const bit_vector_t& x) { int w = weight(x); return w == n ? double(n) : double(n - 1 - w); } });
  r.push_back({ "value", [](const bit_vector_t& x) { double s = 0; for (auto b : x) s = 2 * s + b; return s / 8 - 100; } });
  r.push_back({ "hash", [](const bit_vector_t& x) { return double(mix64(bits(x) * 77 + 5) % 1000) / 7 - 80; } });
  r.push_back({ "coarse", [](const bit_vector_t& x) { return double(mix64(bits(x) * 131 + 9) % 3) - 7; } });
  return r;
}

} // namespace vp
#endif
