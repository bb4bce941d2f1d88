// Helpers shared by the harnesses.
#ifndef VP_COMMON_HH
#define VP_COMMON_HH
#include "mc.hh"

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "hnco/bit-vector.hh"
#include "hnco/bit-matrix.hh"

namespace vp {

using hnco::bit_t;
using hnco::bit_vector_t;
using hnco::bit_matrix_t;

/// Bit vector of an integer, least significant bit first
inline bit_vector_t bv(uint64_t u, int n) {
  bit_vector_t x(n);
  for (int i = 0; i < n; i++) x[i] = i < 64 ? (u >> i) & 1 : 0;
  return x;
}

inline uint64_t bits(const bit_vector_t& x) {
  uint64_t u = 0;
  for (size_t i = 0; i < x.size(); i++) if (x[i]) u |= uint64_t(1) << i;
  return u;
}

inline std::string show(const bit_vector_t& x) {
  std::string s;
  for (auto b : x) s += b == 0 ? '0' : b == 1 ? '1' : '?';
  return s;
}

inline bool valid(const bit_vector_t& x) {
  for (auto b : x) if (b > 1) return false;
  return true;
}

inline int weight(const bit_vector_t& x) { int w = 0; for (auto b : x) w += b ? 1 : 0; return w; }
inline int dist(const bit_vector_t& x, const bit_vector_t& y) {
  int w = 0;
  for (size_t i = 0; i < x.size(); i++) w += (x[i] != y[i]);
  return w;
}
inline bit_vector_t flipped(bit_vector_t x, int i) { x[i] ^= 1; return x; }

/// Listed (not random) long vectors used where 2^n is out of reach
inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline std::vector<bit_vector_t> patterns(int n, int extra = 4) {
  std::vector<bit_vector_t> r;
  auto gen = [&](auto f) { bit_vector_t x(n); for (int i = 0; i < n; i++) x[i] = f(i) ? 1 : 0; r.push_back(x); };
  gen([](int) { return 0; });
  gen([](int) { return 1; });
  gen([](int i) { return i % 2; });
  gen([](int i) { return i % 2 == 0; });
  gen([](int i) { return i % 3 == 0; });
  gen([n](int i) { return i < n / 2; });
  gen([n](int i) { return i >= n / 2; });
  gen([](int i) { return i == 0; });
  gen([n](int i) { return i == n - 1; });
  gen([n](int i) { return i != n - 1; });
  gen([](int i) { return i != 0; });
  gen([](int i) { return i == 31 || i == 32 || i == 63 || i == 64; });
  for (int k = 0; k < extra; k++)
    gen([k](int i) { return mix64(uint64_t(k) * 1000 + uint64_t(i)) >> 63; });
  return r;
}

/// All vectors of size n if n <= lim, else the listed ones
inline std::vector<bit_vector_t> domain(int n, int lim) {
  if (n > lim) return patterns(n);
  std::vector<bit_vector_t> r;
  for (uint64_t u = 0; u < (uint64_t(1) << n); u++) r.push_back(bv(u, n));
  return r;
}

/// Every bit vector of size n through choice points (for use in explorations)
inline bit_vector_t choose_bv(int n) {
  bit_vector_t x(n);
  for (int i = 0; i < n; i++) x[i] = bit_t(choose(2));
  return x;
}

inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double tol = 1e-9) {
  if (same(a, b)) return true;
  return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

/// Matrix from an integer, row major
inline bit_matrix_t mat(uint64_t u, int r, int c) {
  bit_matrix_t m(r, bit_vector_t(c));
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = (u >> (i * c + j)) & 1;
  return m;
}
inline bit_vector_t mul(const bit_matrix_t& m, const bit_vector_t& x) {
  bit_vector_t y(m.size());
  for (size_t i = 0; i < m.size(); i++) { int s = 0; for (size_t j = 0; j < x.size(); j++) s ^= (m[i][j] & x[j]); y[i] = bit_t(s); }
  return y;
}
inline bit_matrix_t mul(const bit_matrix_t& a, const bit_matrix_t& b) {
  bit_matrix_t r(a.size(), bit_vector_t(b[0].size()));
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) {
    int s = 0; for (size_t k = 0; k < b.size(); k++) s ^= (a[i][k] & b[k][j]); r[i][j] = bit_t(s);
  }
  return r;
}
/// Rank by counting: independent of the library's elimination
inline int rank_of(const bit_matrix_t& m) {
  std::vector<bit_vector_t> basis; // reduced, with leading index
  std::vector<size_t> lead;
  for (auto row : m) {
    for (size_t k = 0; k < basis.size(); k++) if (row[lead[k]]) for (size_t j = 0; j < row.size(); j++) row[j] ^= basis[k][j];
    size_t l = 0; while (l < row.size() && !row[l]) l++;
    if (l == row.size()) continue;
    for (auto& b : basis) if (b[l]) for (size_t j = 0; j < row.size(); j++) b[j] ^= row[j];
    basis.push_back(row); lead.push_back(l);
  }
  return int(basis.size());
}
inline bool is_id(const bit_matrix_t& m) {
  for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) if (m[i][j] != (i == j)) return false;
  return true;
}
inline std::string show(const bit_matrix_t& m) { std::string s; for (auto& r : m) s += show(r) + "/"; return s; }
inline mc::Hash& hash_add(mc::Hash& h, const bit_matrix_t& m) { for (auto& r : m) h.addv(r); return h; }

/// Scratch directory of the check
inline std::string scratch() { const char *s = getenv("VP_SCRATCH"); return s ? s : "/tmp"; }

} // namespace vp
#endif
