// Choice-point replacement for the C++ random number facilities.
//
// This header is force-included (-include) in front of every translation unit
// of the "choice" build of the library, so that every random draw made by the
// real code becomes a choice point of the explorer (mc.hh / mc.cc).  Nothing in
// /repo is modified: the identifiers std::mt19937, std::shuffle and the
// distributions are renamed by macros after the standard headers that declare
// them have been included.
#ifndef VP_SHIM_HH
#define VP_SHIM_HH
#ifdef __cplusplus
#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace vp {
/// Resolve one choice point with n alternatives, returns a value in [0, n).
unsigned choose(unsigned n);
/// Same, alternative i having probability w(i)
unsigned choose_weighted(unsigned n, const std::function<double(unsigned)>& w);
/// A value determined by the position in the execution and the last choice
unsigned long long wide();
/// A draw with a single possible outcome
void tick();
/// Resolve a draw of the raw 32-bit engine.
unsigned raw();
/// A draw of the uniform distribution over [0, 1): one of the configured levels.
double real01();
/// The engine has been (re)seeded.
void seeded(unsigned long long s);
}

namespace std {

struct vp_mt19937 {
  using result_type = std::uint_fast32_t;
  static constexpr result_type default_seed = 5489u;
  vp_mt19937() {}
  explicit vp_mt19937(result_type s) { vp::seeded(s); }
  template<class Sseq, class = typename std::enable_if<std::is_class<Sseq>::value>::type>
  explicit vp_mt19937(Sseq&) { vp::seeded(0); }
  void seed(result_type s = default_seed) { vp::seeded(s); }
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return vp::raw(); }
  void discard(unsigned long long) {}
  bool operator==(const vp_mt19937&) const { return true; }
  bool operator!=(const vp_mt19937&) const { return false; }
};

template<class T = int>
class vp_uniform_int_distribution {
public:
  using result_type = T;
  struct param_type {
    T _a, _b;
    using distribution_type = vp_uniform_int_distribution<T>;
    explicit param_type(T a = 0, T b = std::numeric_limits<T>::max()): _a(a), _b(b) {}
    T a() const { return _a; }
    T b() const { return _b; }
    bool operator==(const param_type& o) const { return _a == o._a && _b == o._b; }
  };
  param_type _p;
  vp_uniform_int_distribution(): _p() {}
  explicit vp_uniform_int_distribution(T a, T b = std::numeric_limits<T>::max()): _p(a, b) {}
  explicit vp_uniform_int_distribution(const param_type& p): _p(p) {}
  void reset() {}
  T a() const { return _p._a; }
  T b() const { return _p._b; }
  T min() const { return _p._a; }
  T max() const { return _p._b; }
  param_type param() const { return _p; }
  void param(const param_type& p) { _p = p; }
  template<class G> T operator()(G& g) { return (*this)(g, _p); }
  template<class G> T operator()(G&, const param_type& p) {
    if (!(p._a <= p._b)) __builtin_trap();   // undefined behaviour in the standard
    unsigned long long range = (unsigned long long)p._b - (unsigned long long)p._a;
    if (range < 64)
      return T(p._a + T(vp::choose(unsigned(range) + 1)));
    // representatives of a wide range
    switch (vp::choose(5)) {
    case 0: return p._a;
    case 1: return p._b;
    default: return T((unsigned long long)p._a + (range + 1 ? vp::wide() % (range + 1) : vp::wide()));
    }
  }
};
template<class T> vp_uniform_int_distribution(T, T) -> vp_uniform_int_distribution<T>;

template<class T = double>
class vp_uniform_real_distribution {
public:
  using result_type = T;
  struct param_type {
    T _a, _b;
    using distribution_type = vp_uniform_real_distribution<T>;
    explicit param_type(T a = 0, T b = 1): _a(a), _b(b) {}
    T a() const { return _a; }
    T b() const { return _b; }
  };
  param_type _p;
  vp_uniform_real_distribution(): _p() {}
  explicit vp_uniform_real_distribution(T a, T b = 1): _p(a, b) {}
  explicit vp_uniform_real_distribution(const param_type& p): _p(p) {}
  void reset() {}
  T a() const { return _p._a; }
  T b() const { return _p._b; }
  T min() const { return _p._a; }
  T max() const { return _p._b; }
  param_type param() const { return _p; }
  void param(const param_type& p) { _p = p; }
  template<class G> T operator()(G& g) { return (*this)(g, _p); }
  template<class G> T operator()(G&, const param_type& p) {
    T r = p._a + T(vp::real01()) * (p._b - p._a);
    if (r >= p._b && p._b > p._a) r = std::nextafter(p._b, p._a);
    return r;
  }
};

class vp_bernoulli_distribution {
public:
  using result_type = bool;
  struct param_type {
    double _p;
    using distribution_type = vp_bernoulli_distribution;
    explicit param_type(double p = 0.5): _p(p) {}
    double p() const { return _p; }
  };
  param_type _p;
  vp_bernoulli_distribution(): _p() {}
  explicit vp_bernoulli_distribution(double p): _p(p) {}
  explicit vp_bernoulli_distribution(const param_type& p): _p(p) {}
  void reset() {}
  double p() const { return _p._p; }
  bool min() const { return false; }
  bool max() const { return true; }
  param_type param() const { return _p; }
  void param(const param_type& p) { _p = p; }
  template<class G> bool operator()(G& g) { return (*this)(g, _p); }
  template<class G> bool operator()(G&, const param_type& p) {
    if (!(p._p > 0)) { vp::tick(); return false; }
    if (p._p >= 1) return true;
    double q = p._p;
    return vp::choose_weighted(2, [q](unsigned i) { return i ? q : 1 - q; }) == 1;
  }
};

template<class T = int>
class vp_binomial_distribution {
public:
  using result_type = T;
  struct param_type {
    T _t; double _p;
    using distribution_type = vp_binomial_distribution<T>;
    explicit param_type(T t = 1, double p = 0.5): _t(t), _p(p) {}
    T t() const { return _t; }
    double p() const { return _p; }
  };
  param_type _p;
  vp_binomial_distribution(): _p() {}
  explicit vp_binomial_distribution(T t, double p = 0.5): _p(t, p) {}
  explicit vp_binomial_distribution(const param_type& p): _p(p) {}
  void reset() {}
  T t() const { return _p._t; }
  double p() const { return _p._p; }
  T min() const { return 0; }
  T max() const { return _p._t; }
  param_type param() const { return _p; }
  void param(const param_type& p) { _p = p; }
  template<class G> T operator()(G& g) { return (*this)(g, _p); }
  template<class G> T operator()(G&, const param_type& p) {
    if (p._t < 0) __builtin_trap();
    if (!(p._p > 0)) { vp::tick(); return 0; }
    if (p._p >= 1) return p._t;
    double t = double(p._t), q = p._p;
    return T(vp::choose_weighted(unsigned(p._t) + 1, [t, q](unsigned i) {
      return std::exp(std::lgamma(t + 1) - std::lgamma(i + 1.0) - std::lgamma(t - i + 1) + i * std::log(q) + (t - i) * std::log1p(-q)); }));
  }
};

template<class T = double>
class vp_normal_distribution {
public:
  using result_type = T;
  struct param_type {
    T _m, _s;
    using distribution_type = vp_normal_distribution<T>;
    explicit param_type(T m = 0, T s = 1): _m(m), _s(s) {}
    T mean() const { return _m; }
    T stddev() const { return _s; }
  };
  param_type _p;
  vp_normal_distribution(): _p() {}
  explicit vp_normal_distribution(T m, T s = 1): _p(m, s) {}
  explicit vp_normal_distribution(const param_type& p): _p(p) {}
  void reset() {}
  T mean() const { return _p._m; }
  T stddev() const { return _p._s; }
  param_type param() const { return _p; }
  void param(const param_type& p) { _p = p; }
  template<class G> T operator()(G& g) { return (*this)(g, _p); }
  template<class G> T operator()(G&, const param_type& p) {
    static const double levels[] = { 0.625, -1.25, 0.0, 2.0 / 3 };
    return T(p._m + p._s * levels[vp::choose(4)]);
  }
};

template<class T = int>
class vp_geometric_distribution {
public:
  using result_type = T;
  struct param_type {
    double _p;
    using distribution_type = vp_geometric_distribution<T>;
    explicit param_type(double p = 0.5): _p(p) {}
    double p() const { return _p; }
  };
  param_type _p;
  vp_geometric_distribution(): _p() {}
  explicit vp_geometric_distribution(double p): _p(p) {}
  explicit vp_geometric_distribution(const param_type& p): _p(p) {}
  void reset() {}
  double p() const { return _p._p; }
  param_type param() const { return _p; }
  void param(const param_type& p) { _p = p; }
  template<class G> T operator()(G& g) { return (*this)(g, _p); }
  template<class G> T operator()(G&, const param_type& p) {
    static const int levels[] = { 1, 0, 2, 5, 40 };
    if (!(p._p > 0)) __builtin_trap();
    if (p._p >= 1) { vp::tick(); return T(0); }
    double q = p._p, r = 1 - q;
    // 5 stands for 3 to 20, 40 for more
    return T(levels[vp::choose_weighted(5, [q, r](unsigned i) {
      return i == 0 ? q * r : i == 1 ? q : i == 2 ? q * r * r : i == 3 ? std::pow(r, 3) - std::pow(r, 21) : std::pow(r, 21); })]);
  }
};

template<class T = int>
class vp_discrete_distribution {
public:
  using result_type = T;
  struct param_type {
    std::vector<double> _w;
    using distribution_type = vp_discrete_distribution<T>;
    param_type(): _w(1, 1.0) {}
    template<class I> param_type(I a, I b): _w(a, b) { if (_w.empty()) _w.assign(1, 1.0); }
    param_type(std::initializer_list<double> l): _w(l) { if (_w.empty()) _w.assign(1, 1.0); }
    std::vector<double> probabilities() const {
      double s = 0; for (double x : _w) s += x;
      std::vector<double> r(_w); for (double& x : r) x /= s; return r;
    }
  };
  param_type _p;
  vp_discrete_distribution() {}
  template<class I> vp_discrete_distribution(I a, I b): _p(a, b) {}
  vp_discrete_distribution(std::initializer_list<double> l): _p(l) {}
  template<class F> vp_discrete_distribution(size_t n, double lo, double hi, F f) {
    _p._w.clear(); double d = (hi - lo) / double(n ? n : 1);
    for (size_t i = 0; i < n; i++) _p._w.push_back(f(lo + d * double(i) + d / 2));
  }
  explicit vp_discrete_distribution(const param_type& p): _p(p) {}
  void reset() {}
  std::vector<double> probabilities() const { return _p.probabilities(); }
  T min() const { return 0; }
  T max() const { return T(_p._w.size()) - 1; }
  param_type param() const { return _p; }
  void param(const param_type& p) { _p = p; }
  template<class G> T operator()(G& g) { return (*this)(g, _p); }
  template<class G> T operator()(G&, const param_type& p) {
    std::vector<int> idx;
    for (size_t i = 0; i < p._w.size(); i++)
      if (p._w[i] > 0) idx.push_back(int(i));
    if (idx.empty()) return T(0);
    return T(idx[vp::choose_weighted(unsigned(idx.size()), [&](unsigned k) {
      double s = 0; for (double x : p._w) s += x;
      return p._w[size_t(idx[k])] / s; })]);
  }
};

template<class It, class G>
void vp_shuffle(It first, It last, G&&) {
  auto n = last - first;
  for (decltype(n) i = 1; i < n; i++) {
    auto j = decltype(n)(vp::choose(unsigned(i + 1)));
    // alternative 0 leaves element i in place
    std::iter_swap(first + i, first + (i - j));
  }
}

} // namespace std

#define mt19937 vp_mt19937
#define uniform_int_distribution vp_uniform_int_distribution
#define uniform_real_distribution vp_uniform_real_distribution
#define bernoulli_distribution vp_bernoulli_distribution
#define binomial_distribution vp_binomial_distribution
#define normal_distribution vp_normal_distribution
#define geometric_distribution vp_geometric_distribution
#define discrete_distribution vp_discrete_distribution
#define shuffle vp_shuffle
#endif
#endif
