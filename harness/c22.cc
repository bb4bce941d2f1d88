// C22: representations decode every bit vector into their domain, cover it, and use the promised number of bits.
#include <map>
#include "common.hh"
#include "hnco/permutation.hh"
#include "hnco/representations/all.hh"
using namespace hnco;
using namespace hnco::representation;
using namespace vp;

namespace {

using i128 = __int128;

/// Bits put after some garbage and followed by some: only the bits of the representation count
struct Padded { bit_vector_t x; int start; };
Padded padded(const bit_vector_t& b, int before, int after, int fill) {
  Padded p; p.x.assign(before, bit_t(fill)); p.x.insert(p.x.end(), b.begin(), b.end()); p.x.insert(p.x.end(), after, bit_t(fill)); p.start = before; return p;
}
const int PADS[][3] = { { 0, 0, 0 }, { 3, 0, 1 }, { 0, 2, 1 }, { 5, 4, 1 }, { 1, 1, 0 } };

/// Value of a bit vector, wherever it lies
template<class Rep> typename Rep::domain_type decode(Rep& r, const bit_vector_t& b, const std::string& what) {
  auto v = r.unpack(b, 0);
  for (auto& q : PADS) {
    auto p = padded(b, q[0], q[1], q[2]); auto y = p.x;
    auto w = r.unpack(p.x, p.start);
    MC_CHECK(w == v, "position", what << ": " << show(b) << " decoded differently at position " << p.start);
    MC_CHECK(p.x == y, "argument", what << " modifies its argument");
  }
  mc::step();
  return v;
}

int bits_for(i128 count) { int s = 0; while ((i128(1) << s) < count) s++; return s; }

/// Integers: reference size e - s bits are dropped
template<class T> void integer(T lo, T hi, int form, int param, int lim) {
  using Rep = DyadicIntegerRepresentation<T>;
  std::ostringstream w; w << "integers [" << lo << ".." << hi << "] form " << form << " " << param;
  i128 count = i128(hi) - i128(lo) + 1;
  int e = std::max(1, bits_for(count)), s = e;
  std::unique_ptr<Rep> r;
  if (form == 0) r.reset(new Rep(lo, hi));
  else if (form == 1) { r.reset(new Rep(lo, hi, param)); s = std::min(e, param); }
  else if (form == 2) {
    r.reset(new Rep(lo, hi, typename Rep::Precision(param)));
    s = e; while (s > 1 && (i128(1) << (e - s + 1)) <= param) s--;
  } else r.reset(new Rep(T(hi + 1)));
  MC_CHECK(r->size() == s, "size", w.str() << ": " << r->size() << " bits, expected " << s);
  { std::ostringstream d; r->display(d); std::ostringstream t; t << "[" << lo << ".." << hi << "]"; MC_CHECK(d.str().find(t.str()) != std::string::npos, "display", w.str() << " displays " << d.str()); }
  std::set<T> seen;
  auto dom = domain(s, lim);
  if (s > lim) {
    for (int i = 0; i < s; i++) { dom.push_back(bv(uint64_t(1) << i, s)); dom.push_back(bv((uint64_t(1) << i) - 1, s)); }
    for (i128 c : { count - 1, count - 2, count, count / 2, count + 1 }) dom.push_back(bv(uint64_t(c >> (e - s)), s));
  }
  for (auto& b : dom) {
    i128 u = i128(bits(b)) << (e - s), want = i128(lo) + std::min(u, count - 1);
    T got = decode(*r, b, w.str());
    MC_CHECK(got >= lo && got <= hi, "range", w.str() << ": " << show(b) << " decoded as " << got);
    MC_CHECK(i128(got) == want, "value", w.str() << ": " << show(b) << " decoded as " << got << " instead of " << (long)want);
    seen.insert(got);
  }
  if (s == e) {
    MC_CHECK(seen.count(lo) && seen.count(hi), "onto", w.str() << ": a bound is never reached");
    if (s <= lim) MC_CHECK(i128(seen.size()) == count, "onto", w.str() << ": " << seen.size() << " of " << (long)count << " values reached");
  }
  mc::state(mc::Hash().adds(w.str()).add(uint64_t(seen.size())));
}
template<class T> void integers_small(int lo) {
  for (int hi = lo; hi <= 24; hi++) {
    integer<T>(T(lo), T(hi), 0, 0, 8);
    for (int s = 1; s <= 9; s++) integer<T>(T(lo), T(hi), 1, s, 8);
    for (int p = 1; p <= 70; p++) integer<T>(T(lo), T(hi), 2, p, 8);
    if (lo == 0) integer<T>(T(lo), T(hi), 3, 0, 8);
  }
}
template<class T> void integers_large(int k) {
  const T max = std::numeric_limits<T>::max(), min = std::numeric_limits<T>::min();
  for (int d = -2; d <= 2; d++) {
    i128 span = (i128(1) << k) + d;                       // hi - lo
    if (span < 0 || span > i128(max)) continue;
    std::vector<i128> los = { 0, 1, -1, -(span / 2), i128(min), i128(max) - span, 1000 };
    for (i128 lo : los) {
      i128 hi = lo + span;
      if (lo < i128(min) || hi > i128(max)) continue;
      if (lo < 0 && hi >= 0 && -lo > i128(max) - hi) continue;   // documented as unsafe
      integer<T>(T(lo), T(hi), 0, 0, 10);
      for (int s : { 1, k / 2, k - 1, k, k + 1, int(8 * sizeof(T)) - 1 }) if (s >= 1 && s < int(8 * sizeof(T))) integer<T>(T(lo), T(hi), 1, s, 10);
      for (int p : { 1, 2, 3, 1000, 1024, 1025, 1 << 20, 2147483647 }) integer<T>(T(lo), T(hi), 2, p, 10);
      if (lo == 0 && hi < i128(max)) integer<T>(T(lo), T(hi), 3, 0, 10);
    }
  }
}

/// Floating point numbers
template<class T> void floating(T lo, T hi, int size, T precision) {
  using Rep = DyadicFloatRepresentation<T>;
  std::ostringstream w; w.precision(20); w << (sizeof(T) == 4 ? "floats [" : "doubles [") << lo << ", " << hi << ") "; if (precision > 0) w << "precision " << precision; else w << size << " bits";
  std::unique_ptr<Rep> r;
  long double len = (long double)hi - lo;
  if (precision > 0) {
    r.reset(new Rep(lo, hi, precision));
    size = r->size();
    MC_CHECK(size >= 1, "size", w.str() << ": " << size << " bits");
    long double step = std::ldexp(len, -size);
    MC_CHECK(step <= precision * (1 + 1e-6L), "precision", w.str() << ": " << size << " bits give steps of " << (double)step);
    MC_CHECK(size == 1 || step * 2 > precision * (1 - 1e-6L), "precision", w.str() << ": " << size << " bits are too many");
  } else {
    r.reset(new Rep(lo, hi, size));
    MC_CHECK(r->size() == size, "size", w.str() << ": " << r->size() << " bits");
  }
  long double tol = 8 * std::numeric_limits<T>::epsilon() * (std::fabs((long double)lo) + std::fabs((long double)hi));
  auto dom = domain(size, 11);
  if (size > 11) for (int i = 0; i < size; i++) { bit_vector_t b(size, 0); b[i] = 1; dom.push_back(b); for (int j = i; j < size; j++) b[j] = 1; dom.push_back(b); for (auto& c : b) c ^= 1; dom.push_back(b); }
  std::vector<std::pair<bit_vector_t, T>> all;
  for (auto& b : dom) {
    long double x = 0, l = 0.5; for (auto c : b) { if (c) x += l; l /= 2; }
    T got = decode(*r, b, w.str());
    MC_CHECK(got >= lo && got < hi, "range", w.str() << ": " << show(b) << " decoded as " << got);
    MC_CHECK(std::fabs((long double)got - (lo + len * x)) <= tol, "value", w.str() << ": " << show(b) << " decoded as " << got << " instead of " << (double)(lo + len * x));
    all.push_back({ b, got });
  }
  // lexicographic order of bits is the order of values
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (size_t i = 1; i < all.size(); i++) MC_CHECK(all[i - 1].second <= all[i].second, "order", w.str() << ": " << show(all[i - 1].first) << " above " << show(all[i].first));
  MC_CHECK(all[0].second == lo, "value", w.str() << ": the null vector is decoded as " << all[0].second);
  mc::state(mc::Hash().adds(w.str()).add(double(all.back().second)));
}
template<class T> void floats(T lo, T hi) {
  for (int s = 1; s <= 12; s++) floating<T>(lo, hi, s, 0);
  for (int s : { 16, 20, 24, 25, 31, 32, 33, 50, 52, 53, 54, 55, 60, 63, 64, 65, 100, 200 }) floating<T>(lo, hi, s, 0);
  T len = hi - lo;
  for (int k = -3; k <= 40; k++) for (double m : { 1., 0.99, 1.01, 1.5 }) { T p = T(len * m * std::pow(2., -k)); if (p > 0) floating<T>(lo, hi, 0, p); }
  for (double p : { 1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-9, 0.3, 7. }) floating<T>(lo, hi, 0, T(p));
}

/// Categories
template<class Rep> void categorical(int k, int linear) {
  Rep r(k);
  std::string w = std::string(linear ? "linear" : "integer") + " categories " + mc::str(k);
  int b = bits_for(k), n = linear ? (1 << b) - 1 : b;
  MC_CHECK(r.size() == n, "size", w << ": " << r.size() << " bits");
  std::set<size_t> seen;
  auto dom = domain(n, 15);
  if (n > 15) for (int i = 0; i < n; i++) { bit_vector_t x(n, 0); x[i] = 1; dom.push_back(x); }
  int count = 0;
  for (auto& x : dom) {
    size_t c = decode(r, x, w);
    MC_CHECK(c < size_t(k), "range", w << ": " << show(x) << " decoded as " << c);
    if (linear) {
      if (n <= 7 || ++count % 16 == 1) {
        // any category is one flip away
        std::set<size_t> near = { c };
        for (int i = 0; i < n; i++) near.insert(r.unpack(flipped(x, i), 0));
        MC_CHECK(near.size() == size_t(k), "one flip", w << ": " << near.size() << " categories around " << show(x));
      }
    } else MC_CHECK(c == bits(x) % uint64_t(k), "value", w << ": " << show(x) << " decoded as " << c);
    seen.insert(c);
  }
  MC_CHECK(seen.size() == size_t(k), "onto", w << ": " << seen.size() << " categories reached");
  if (linear && (k & (k - 1)) == 0 && n <= 7)
    for (auto& x : dom) for (auto& y : dom) {
      bit_vector_t z = x; for (int i = 0; i < n; i++) z[i] ^= y[i];
      MC_CHECK(r.unpack(z, 0) == (r.unpack(x, 0) ^ r.unpack(y, 0)), "linear", w << " is not linear at " << show(x) << ", " << show(y));
    }
  mc::state(mc::Hash().adds(w).add(uint64_t(seen.size())));
}

/// Sets of values
void value_set(std::vector<double> vs) {
  std::string w = "values " + mc::vec(vs);
  ValueSetRepresentation<double> r(vs);
  auto sorted = vs; std::sort(sorted.begin(), sorted.end());
  int s = std::max(1, bits_for(i128(vs.size())));
  MC_CHECK(r.size() == s, "size", w << ": " << r.size() << " bits");
  for (auto& b : domain(s, 12)) {
    double got = decode(r, b, w), want = sorted[std::min<size_t>(bits(b), sorted.size() - 1)];
    MC_CHECK(got == want, "value", w << ": " << show(b) << " decoded as " << got << " instead of " << want);
    mc::state(mc::Hash().adds(w).add(got));
  }
}

/// Complex numbers
void complex_rep(double a, double b, int s, double c, double d, int t) {
  using F = DyadicFloatRepresentation<double>;
  F re(a, b, s), im(c, d, t);
  ComplexRepresentation<F> z(re, im), y(re);
  MC_CHECK(z.size() == s + t && y.size() == 2 * s, "size", "complex sizes " << z.size() << " and " << y.size());
  for (auto& u : domain(s, 8)) {
    for (auto& v : domain(t, 8)) {
      bit_vector_t x = u; x.insert(x.end(), v.begin(), v.end());
      auto got = decode(z, x, "complex");
      MC_CHECK(got.real() == re.unpack(u, 0) && got.imag() == im.unpack(v, 0), "complex", "complex number " << got.real() << "," << got.imag() << " of " << show(x));
      mc::state(mc::Hash().add(got.real()).add(got.imag()));
    }
    for (auto& v : domain(s, 8)) {
      bit_vector_t x = u; x.insert(x.end(), v.begin(), v.end());
      auto got = decode(y, x, "complex");
      MC_CHECK(got.real() == re.unpack(u, 0) && got.imag() == re.unpack(v, 0), "complex", "complex number of " << show(x));
    }
  }
}

/// Permutations: the elements are sorted by their integers, ties in any order
void permutation(int n, int extra, const std::vector<bit_vector_t>& dom, size_t from, size_t step) {
  PermutationRepresentation r(n, extra);
  int e = bits_for(n) + extra;
  std::string w = "permutations of " + mc::str(n) + " with " + mc::str(extra) + " additional bits";
  MC_CHECK(r.size() == n * e && r.get_num_elements() == n, "size", w << ": " << r.size() << " bits");
  for (size_t k = from; k < dom.size(); k += step) {
    const auto& x = dom[k];
    std::vector<uint64_t> v(n); for (int i = 0; i < n; i++) v[i] = bits(bit_vector_t(x.begin() + i * e, x.begin() + (i + 1) * e));
    std::set<permutation_t> got, want;
    permutation_t p(n); for (int i = 0; i < n; i++) p[i] = i;
    if (n <= 5) do { bool ok = true; for (int i = 1; i < n; i++) ok = ok && v[p[i - 1]] <= v[p[i]]; if (ok) want.insert(p); } while (std::next_permutation(p.begin(), p.end()));
    auto& pad = PADS[k % 5];
    auto y = padded(x, pad[0], pad[1], pad[2]);
    mc::explore(n <= 5 ? mc::Opt() : mc::bounds(2, 0), [&]() {
      permutation_t q(n, int(k % n));                                // any previous content
      r.unpack(y.x, y.start, q);
      std::vector<char> hit(n); bool ok = true;
      for (int i : q) { ok = ok && i >= 0 && i < n && !hit[i]; if (ok) hit[i] = 1; }
      MC_CHECK(ok, "permutation", w << ": " << show(x) << " decoded as " << mc::vec(q));
      for (int i = 1; i < n; i++) MC_CHECK(v[q[i - 1]] <= v[q[i]], "order", w << ": " << show(x) << " decoded as " << mc::vec(q) << ", keys " << v[q[i - 1]] << " and " << v[q[i]]);
      got.insert(q);
      mc::state(mc::Hash().adds(w).add(uint64_t(k)).add(uint64_t(got.size())));
    });
    if (n <= 5) MC_CHECK(got == want, "ties", w << ": " << got.size() << " permutations for " << show(x) << ", expected " << want.size());
  }
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  for (int lo = -24; lo <= 24; lo++) {
    mc::add("int " + mc::str(lo), [=]() { integers_small<int>(lo); });
    mc::add("long " + mc::str(lo), [=]() { integers_small<long>(lo); });
  }
  for (int k = 1; k <= 31; k++) mc::add("int span 2^" + mc::str(k), [=]() { integers_large<int>(k); });
  for (int k = 1; k <= 63; k++) mc::add("long span 2^" + mc::str(k), [=]() { integers_large<long>(k); });
  std::vector<std::pair<double, double>> iv = { { 0, 1 }, { -1, 1 }, { -0.1, 0.3 }, { 1, 1.0000001 }, { 1e-3, 1e3 }, { -5.12, 5.12 }, { 1e6, 1e6 + 3 }, { -1e10, 1e-10 }, { 3, 11 }, { -7, -6.5 }, { 1e100, 3e100 } };
  for (auto& p : iv) {
    mc::add("doubles " + mc::str(p.first) + " " + mc::str(p.second), [=]() { floats<double>(p.first, p.second); });
    if (p.second < 1e30 && float(p.first) < float(p.second)) mc::add("floats " + mc::str(p.first) + " " + mc::str(p.second), [=]() { floats<float>(float(p.first), float(p.second)); });
  }
  for (int k = 2; k <= (th ? 300 : 70); k++) {
    if (k <= (th ? 70 : 40)) mc::add("linear categories " + mc::str(k), [=]() { categorical<LinearCategoricalRepresentation>(k, 1); });
    mc::add("integer categories " + mc::str(k), [=]() { categorical<IntegerCategoricalRepresentation>(k, 0); });
  }
  for (int k : { 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 4097, 32769, 65535, 65536, 65537, 70000, 100000 }) {
    mc::add("many integer categories " + mc::str(k), [=]() {
      IntegerCategoricalRepresentation r(k);
      int b = bits_for(k); MC_CHECK(r.size() == b, "size", k << " categories: " << r.size() << " bits");
      for (uint64_t u = 0; u < (uint64_t(1) << b); u += 1 + (k > 5000 ? mix64(u) % 9 : 0)) { size_t c = r.unpack(bv(u, b), 0); MC_CHECK(c == u % uint64_t(k), "value", k << " categories: " << u << " decoded as " << c); }
    });
    if (k <= 1100) mc::add("many linear categories " + mc::str(k), [=]() {
      LinearCategoricalRepresentation r(k);
      int b = bits_for(k), n = (1 << b) - 1; MC_CHECK(r.size() == n, "size", k << " categories: " << r.size() << " bits");
      for (auto& x : domain(n, 4)) {
        size_t c = r.unpack(x, 0); MC_CHECK(c < size_t(k), "range", k << " categories: " << c);
        if (bv_hamming_weight(x) > 2) continue;
        std::set<size_t> near = { c };
        for (int i = 0; i < n; i++) near.insert(r.unpack(flipped(x, i), 0));
        MC_CHECK(near.size() == size_t(k), "one flip", k << " categories: " << near.size() << " categories around " << show(x));
        break;
      }
    });
  }
  mc::add("value sets", [=]() {
    for (int n = 1; n <= 70; n++) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back((i * 37) % 64 - 3.25); value_set(v); }
    std::vector<double> u = { -1.5, 0, 2, 1e300 };
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { value_set({ u[a], u[b] }); for (int c = 0; c < 4; c++) { value_set({ u[a], u[b], u[c] }); for (int d = 0; d < 4; d++) value_set({ u[a], u[b], u[c], u[d] }); } }
  });
  for (int s = 1; s <= 4; s++) for (int t = 1; t <= 4; t++) mc::add("complex " + mc::str(s) + " " + mc::str(t), [=]() { complex_rep(-1, 2, s, 10, 10.5, t); });
  struct Q { int n, extra, parts; };
  for (auto q : std::vector<Q>{ { 1, 1, 1 }, { 1, 4, 1 }, { 2, 1, 1 }, { 2, 2, 1 }, { 2, 5, 1 }, { 3, 1, 2 }, { 3, 2, 4 }, { 4, 1, 4 }, { 4, 2, th ? 16 : 0 } })
    for (int p = 0; p < q.parts; p++) mc::add("permutations " + mc::str(q.n) + " " + mc::str(q.extra) + " " + mc::str(p), [=]() { permutation(q.n, q.extra, domain(q.n * (bits_for(q.n) + q.extra), 16), p, q.parts); });
  // longer keys and more elements: listed vectors
  for (int n : { 2, 3, 4, 5, 7, 8, 9, 16, 17, 33 }) for (int extra : { 1, 3, 13, 25, 26, 27, 28, 29, 30, 31, 40, 57, 58 }) if (bits_for(n) + extra <= 64)
    mc::add("long permutations " + mc::str(n) + " " + mc::str(extra), [=]() {
      int e = bits_for(n) + extra;
      auto dom = patterns(n * e, 8);
      // keys in decreasing, increasing and alternating order of their top bits
      for (int m = 0; m < 6; m++) { bit_vector_t x; for (int i = 0; i < n; i++) { uint64_t key = m == 0 ? uint64_t(i) : m == 1 ? uint64_t(n - 1 - i) : m == 2 ? uint64_t(i % 2) : m == 3 ? uint64_t((i * 5) % n) : m == 4 ? ~uint64_t(i) : mix64(i); key <<= m < 4 ? e - std::max(1, bits_for(n)) : 0; auto b = bv(key, e); x.insert(x.end(), b.begin(), b.end()); } dom.push_back(x); }
      permutation(n, extra, dom, 0, 1);
    });
}
