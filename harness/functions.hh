// Reference definitions of the benchmark functions (oracles), shared by C06-C08.
#ifndef VP_FUNCTIONS_HH
#define VP_FUNCTIONS_HH
#include "common.hh"
#include <fstream>
#include "hnco/functions/collection/all.hh"
#include "hnco/functions/function.hh"
namespace vp {
using namespace hnco::function;

using FnPtr = std::shared_ptr<Function>;
using Oracle = std::function<double(const bit_vector_t&)>;

struct Entry {
  std::string name;
  std::function<FnPtr()> make;
  Oracle oracle;
  double tol = 0;                              // 0: exact
  std::vector<bit_vector_t> maximisers = {};   // listed maximisers for large sizes
};

inline int head(const bit_vector_t& x, int b) { int i = 0; while (i < int(x.size()) && x[i] == b) i++; return i; }
inline int tail(const bit_vector_t& x, int b) { int i = 0, n = int(x.size()); while (i < n && x[n - 1 - i] == b) i++; return i; }
inline bool ridge_shape(const bit_vector_t& x) { return weight(x) == head(x, 1); }
inline int sgn(int b) { return b ? -1 : 1; }

/// Explicit construction of the k-long path of dimension n
inline std::vector<bit_vector_t> long_path(int n, int k) {
  if (n == 0) return { bit_vector_t() };
  auto p = long_path(n - k, k);
  std::vector<bit_vector_t> r;
  for (auto& v : p) { bit_vector_t x(k, 0); x.insert(x.end(), v.begin(), v.end()); r.push_back(x); }
  for (int i = 1; i < k; i++) { bit_vector_t x(k, 0); for (int j = 0; j < i; j++) x[k - 1 - j] = 1; x.insert(x.end(), p.back().begin(), p.back().end()); r.push_back(x); }
  for (auto it = p.rbegin(); it != p.rend(); ++it) { bit_vector_t x(k, 1); x.insert(x.end(), it->begin(), it->end()); r.push_back(x); }
  return r;
}

/// Weights used for parameterised instances: exact dyadic numbers with both signs, zeros and repetitions
inline double wt(int variant, int i) {
  switch (variant) {
  case 0: return (i % 5) - 2 + 0.25 * (i % 3);
  case 1: return -1.5 - i;
  case 2: return double(int(mix64(i + 77) % 4001) - 2000) / 8;
  case 3: return i % 2 ? 0 : 1;
  case 4: return 0;
  case 6: return (i % 4 == 2 ? -1 : 1) * (1073741824.0 + 3 * i);   // sums need more than single precision
  default: return std::ldexp(1.0, i % 20) * (i % 3 == 1 ? -1 : 1);
  }
}
const int NUM_WT = 6;

inline std::function<double()> gen(int variant, int offset = 0) {
  auto c = std::make_shared<int>(offset);
  return [c, variant]() { return wt(variant, (*c)++); };
}

/// Functions with only a size, sizes n
inline std::vector<Entry> theory(int n) {
  std::vector<Entry> r;
  bit_vector_t ones(n, 1);
  r.push_back({ "OneMax", [n] { return FnPtr(new OneMax(n)); }, [](const bit_vector_t& x) { return double(weight(x)); }, 0, { ones } });
  r.push_back({ "LeadingOnes", [n] { return FnPtr(new LeadingOnes(n)); }, [](const bit_vector_t& x) { return double(head(x, 1)); }, 0, { ones } });
  r.push_back({ "Needle", [n] { return FnPtr(new Needle(n)); }, [n](const bit_vector_t& x) { return weight(x) == n ? 1. : 0.; }, 0, { ones } });
  r.push_back({ "Ridge", [n] { return FnPtr(new Ridge(n)); }, [n](const bit_vector_t& x) { return double(ridge_shape(x) ? n + weight(x) : n - weight(x)); }, 0, { ones } });
  r.push_back({ "Plateau", [n] { return FnPtr(new Plateau(n)); }, [n](const bit_vector_t& x) { return double(weight(x) == n ? n + 2 : ridge_shape(x) ? n + 1 : n - weight(x)); }, 0, { ones } });
  r.push_back({ "Labs", [n] { return FnPtr(new Labs(n)); }, [n](const bit_vector_t& x) {
    double e = 0;
    for (int k = 1; k < n; k++) { double c = 0; for (int i = 0; i + k < n; i++) c += x[i] == x[i + k] ? 1 : -1; e += c * c; }
    return -e; } });
  if (n > 1)
    r.push_back({ "Labs-merit", [n] { auto l = new Labs(n); l->set_merit_factor_flag(true); return FnPtr(l); }, [n](const bit_vector_t& x) {
      double e = 0;
      for (int k = 1; k < n; k++) { double c = 0; for (int i = 0; i + k < n; i++) c += x[i] == x[i + k] ? 1 : -1; e += c * c; }
      return double(n) * n / (2 * e); }, 1e-12 });
  if ((n & (n - 1)) == 0)
    r.push_back({ "Hiff", [n] { return FnPtr(new Hiff(n)); }, [n](const bit_vector_t& x) {
      double s = 0;
      for (int b = 1; b <= n; b *= 2) for (int o = 0; o < n; o += b) {
        int w = 0; for (int i = 0; i < b; i++) w += x[o + i];
        if (w == 0 || w == b) s += b;
      }
      return s; }, 0, { ones, bit_vector_t(n, 0) } });
  for (int t = 1; t <= n; t++) if (n % t == 0 && (n <= 16 || t <= 4 || t >= n / 2))
    r.push_back({ "Trap-" + mc::str(t), [n, t] { return FnPtr(new Trap(n, t)); }, [n, t](const bit_vector_t& x) {
      int s = n / t, r = 0;
      for (int i = 0; i < t; i++) { int w = 0; for (int j = 0; j < s; j++) w += x[i * s + j]; r += w == s ? s : s - 1 - w; }
      return double(r); }, 0, { ones } });
  for (int g = 1; g <= std::min(n, 12); g++) {
    r.push_back({ "Jump-" + mc::str(g), [n, g] { return FnPtr(new Jump(n, g)); }, [n, g](const bit_vector_t& x) { int w = weight(x); return double(w < n && w > n - g ? 0 : w); }, 0, { ones } });
    r.push_back({ "DeceptiveJump-" + mc::str(g), [n, g] { return FnPtr(new DeceptiveJump(n, g)); }, [n, g](const bit_vector_t& x) { int w = weight(x); return double(w < n && w > n - g ? n - w : w + g); }, 0, { ones } });
  }
  for (int t = 0; t <= n / 2 - 1; t++) if (n <= 16 || t < 3 || t > n / 2 - 3) {
    bit_vector_t m(n, 1); for (int i = 0; i < t + 1; i++) m[n - 1 - i] = 0;
    bit_vector_t m2(n, 0); for (int i = 0; i < t + 1; i++) m2[i] = 1;
    r.push_back({ "FourPeaks-" + mc::str(t), [n, t] { return FnPtr(new FourPeaks(n, t)); }, [n, t](const bit_vector_t& x) {
      int h = head(x, 1), l = tail(x, 0); return double(std::max(h, l) + (h > t && l > t ? n : 0)); }, 0, { m, m2 } });
    bit_vector_t c = m, c2 = m2; for (auto& b : c) b ^= 1; for (auto& b : c2) b ^= 1;
    r.push_back({ "SixPeaks-" + mc::str(t), [n, t] { return FnPtr(new SixPeaks(n, t)); }, [n, t](const bit_vector_t& x) {
      int h0 = head(x, 0), h1 = head(x, 1), l0 = tail(x, 0), l1 = tail(x, 1);
      return double(std::max(std::max(h0, h1), std::max(l0, l1)) + ((h0 > t && l1 > t) || (h1 > t && l0 > t) ? n : 0)); }, 0, { m, m2, c, c2 } });
  }
  for (int k = 2; k <= n; k++) if (n % k == 0 && n / k <= 12) {
    auto path = std::make_shared<std::map<bit_vector_t, double>>();
    auto last = std::make_shared<bit_vector_t>();
    auto fill = [n, k, path, last] { if (path->empty()) { auto p = long_path(n, k); for (size_t i = 0; i < p.size(); i++) (*path)[p[i]] = double(i + 1); *last = p.back(); } };
    fill();
    r.push_back({ "LongPath-" + mc::str(k), [n, k] { return FnPtr(new LongPath(n, k)); }, [n, k, path](const bit_vector_t& x) {
      auto it = path->find(x);
      if (it != path->end()) return it->second;
      double s = 0; for (int i = 0; i < n; i++) s += x[i] ? (i < k ? n : 1) : 0;
      return -s; }, 0, { *last } });
  }
  if (n % 9 == 0) {
    auto decode = [](const bit_vector_t& x) {
      std::vector<int> v;
      for (size_t o = 0; o < x.size(); o += 9) {
        int m = 0; for (int j = 0; j < 8; j++) m |= x[o + 1 + j] << j;
        v.push_back(x[o] ? m - 256 : m);    // two's complement on nine bits, sign first
      }
      return v; };
    r.push_back({ "SummationCancellation", [n] { return FnPtr(new SummationCancellation(n)); }, [decode](const bit_vector_t& x) {
      int s = 0, t = 0; for (int v : decode(x)) { s += v; t += std::abs(s); }
      return -t / 100.; }, 1e-12, { bit_vector_t(n, 0) } });
    r.push_back({ "SinusSummationCancellation", [n] { return FnPtr(new SinusSummationCancellation(n)); }, [decode](const bit_vector_t& x) {
      double t = 0, y = 0; bool first = true;
      for (int v : decode(x)) { y = v / 100. + (first ? 0 : std::sin(y)); first = false; t += std::fabs(y); }
      return -t; }, 1e-12, { bit_vector_t(n, 0) } });
  }
  return r;
}

/// Functions with numerical parameters
inline std::vector<Entry> weighted(int n, int v) {
  std::vector<Entry> r;
  std::string s = "-w" + mc::str(v);
  bit_vector_t lm(n), wm(n);
  for (int i = 0; i < n; i++) { lm[i] = wt(v, i) > 0; wm[i] = wt(v, i) < 0; }
  r.push_back({ "LinearFunction" + s, [n, v] { auto f = new LinearFunction; f->generate(n, gen(v)); return FnPtr(f); }, [n, v](const bit_vector_t& x) {
    double t = 0; for (int i = 0; i < n; i++) t += x[i] ? wt(v, i) : 0; return t; }, 0, { lm } });
  r.push_back({ "WalshExpansion1" + s, [n, v] { auto f = new WalshExpansion1; f->generate(n, gen(v)); return FnPtr(f); }, [n, v](const bit_vector_t& x) {
    double t = 0; for (int i = 0; i < n; i++) t += sgn(x[i]) * wt(v, i); return t; }, 0, { wm } });
  r.push_back({ "WalshExpansion2" + s, [n, v] { auto f = new WalshExpansion2; f->generate(n, gen(v), gen(v, 3)); return FnPtr(f); }, [n, v](const bit_vector_t& x) {
    double t = 0; for (int i = 0; i < n; i++) t += sgn(x[i]) * wt(v, i);
    int c = 3; for (int i = 1; i < n; i++) for (int j = 0; j < i; j++) t += sgn(x[i]) * sgn(x[j]) * wt(v, c++);
    return t; } });
  for (int per = 0; per < 2; per++) {
    r.push_back({ "Ising1" + s + (per ? "-periodic" : ""), [n, v, per] { auto f = new NearestNeighborIsingModel1; f->generate(n, gen(v), gen(v, 5)); f->set_periodic_boundary_conditions(per); return FnPtr(f); }, [n, v, per](const bit_vector_t& x) {
      double t = 0;
      for (int i = 0; i < n; i++) {
        if (i + 1 < n || per) t += sgn(x[i]) * sgn(x[(i + 1) % n]) * wt(v, i);
        t += sgn(x[i]) * wt(v, 5 + i);
      }
      return t; } });
    for (int rows = 1; rows <= n; rows++) if (n % rows == 0 && (n <= 16 || rows <= 3 || rows == 8 || rows == n)) {
      int cols = n / rows;
      r.push_back({ "Ising2-" + mc::str(rows) + "x" + mc::str(cols) + s + (per ? "-periodic" : ""), [rows, cols, v, per] { auto f = new NearestNeighborIsingModel2; f->generate(rows, cols, gen(v), gen(v, 5)); f->set_periodic_boundary_conditions(per); return FnPtr(f); }, [rows, cols, v, per](const bit_vector_t& x) {
        double t = 0;
        for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) {
          int site = i * cols + j;
          if (j + 1 < cols || per) t += sgn(x[site]) * sgn(x[i * cols + (j + 1) % cols]) * wt(v, 2 * site);
          if (i + 1 < rows || per) t += sgn(x[site]) * sgn(x[((i + 1) % rows) * cols + j]) * wt(v, 2 * site + 1);
          t += sgn(x[site]) * wt(v, 5 + site);
        }
        return t; } });
    }
  }
  r.push_back({ "EqualProducts" + s, [n, v] { auto f = new EqualProducts; f->generate(n, gen(v)); return FnPtr(f); }, [n, v](const bit_vector_t& x) {
    double a = 1, b = 1; for (int i = 0; i < n; i++) (x[i] ? a : b) *= wt(v, i);
    return -std::fabs(a - b); }, 1e-12 });
  r.push_back({ "Partition" + s, [n, v] { auto f = new Partition; auto g = gen(v); f->generate(n, [g]() { return int(std::fmod(std::fabs(g() * 8), 1000003)) + 1; }); return FnPtr(f); }, [n, v](const bit_vector_t& x) {
    long a = 0; for (int i = 0; i < n; i++) { int w = int(std::fmod(std::fabs(wt(v, i) * 8), 1000003)) + 1; a += x[i] ? w : -w; }
    return -double(std::labs(a)); } });
  for (int terms : { 1, 3, 7 }) {
    auto t = std::make_shared<std::vector<WalshTerm>>();
    for (int k = 0; k < terms; k++) {
      WalshTerm w; w.feature.resize(n); for (int i = 0; i < n; i++) w.feature[i] = (mix64(k * 131 + i + v) >> 40) & 1;
      w.coefficient = wt(v, k); t->push_back(w);
    }
    r.push_back({ "WalshExpansion-" + mc::str(terms) + s, [t] { auto f = new WalshExpansion; f->set_terms(*t); return FnPtr(f); }, [t, n](const bit_vector_t& x) {
      double r = 0; for (auto& w : *t) { int p = 0; for (int i = 0; i < n; i++) p ^= (x[i] & (w.feature[i] ? 1 : 0)); r += p ? -w.coefficient : w.coefficient; }
      return r; } });
  }
  return r;
}

} // namespace vp
#endif
