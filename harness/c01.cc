// C01: bit-vector, sparse bit-vector and bit-matrix algebra over F2.
#include "common.hh"
#include "hnco/permutation.hh"
using namespace hnco;
using namespace vp;

static void unary(const bit_vector_t& x) {
  int n = int(x.size());
  MC_CHECK(bv_is_valid(x), "bv_is_valid", show(x));
  MC_CHECK(bv_is_zero(x) == (weight(x) == 0), "bv_is_zero", show(x));
  MC_CHECK(bv_hamming_weight(x) == weight(x), "bv_hamming_weight", show(x));
  // whatever the destination held before
  for (int held = 0; held < 3; held++) {
    std::vector<bool> b(n, held == 1);
    if (held == 2) for (int i = 0; i < n; i++) b[i] = !x[i];
    bv_to_vector_bool(b, x);
    for (int i = 0; i < n; i++) MC_CHECK(b[i] == (x[i] == 1), "bv_to_vector_bool", show(x));
    MC_CHECK(bv_hamming_weight(b) == weight(x), "bv_hamming_weight_bool", show(x));
    bit_vector_t y(n, held == 1);
    if (held == 2) for (int i = 0; i < n; i++) y[i] = !x[i];
    bv_from_vector_bool(y, b);
    MC_CHECK(y == x, "bv_from_vector_bool", show(x) << " -> " << show(y));
  }
  if (n <= 64) {
    std::size_t u = bv_to_size_type(x);
    MC_CHECK(u == bits(x), "bv_to_size_type", show(x) << " -> " << u);
    for (int held = 0; held < 2; held++) {
      bit_vector_t z(n, held);
      bv_from_size_type(z, u);
      MC_CHECK(z == x, "bv_from_size_type", show(x) << " -> " << show(z));
    }
  }
  for (int s = 0; s < n; s++)
    for (int t = s + 1; t <= n; t++) {
      if (t - s > 64) continue;
      if (n > 24 && !(s < 2 || s > n - 3 || t - s > 61 || t > n - 2)) continue;
      bit_vector_t sub(x.begin() + s, x.begin() + t);
      std::size_t u = bv_to_size_type(x, s, t);
      MC_CHECK(u == bits(sub), "bv_to_size_type_range", show(x) << " [" << s << "," << t << ") -> " << u);
    }
  std::ostringstream os;
  bv_display(x, os);
  MC_CHECK(os.str() == show(x), "bv_display", os.str());
  MC_CHECK(bv_from_string(os.str()) == x, "bv_from_string", os.str());
  std::istringstream is(os.str() + "\n");
  MC_CHECK(bv_from_stream(is) == x, "bv_from_stream", os.str());
  for (int i = 0; i < n; i++) {
    bit_vector_t z(x);
    bv_flip(z, i);
    MC_CHECK(dist(z, x) == 1 && z[i] == 1 - x[i], "bv_flip", show(x) << " " << i);
    bv_flip(z, i);
    MC_CHECK(z == x, "bv_flip_involution", show(x) << " " << i);
  }
  bit_vector_t z(x);
  bv_clear(z);
  MC_CHECK(weight(z) == 0 && z.size() == x.size(), "bv_clear", show(x));
  mc::state(mc::Hash().addv(x));
}

static void binary(const bit_vector_t& x, const bit_vector_t& y) {
  int n = int(x.size());
  MC_CHECK(bv_hamming_distance(x, y) == dist(x, y), "bv_hamming_distance", show(x) << " " << show(y));
  int dot = 0;
  for (int i = 0; i < n; i++) dot ^= (x[i] & y[i]);
  MC_CHECK(bv_dot_product(x, y) == dot, "bv_dot_product", show(x) << " " << show(y));
  std::vector<bool> yb(n);
  for (int i = 0; i < n; i++) yb[i] = y[i];
  MC_CHECK(bv_dot_product(x, yb) == dot, "bv_dot_product_bool", show(x) << " " << show(y));
  bit_vector_t s(n), d(x);
  for (int i = 0; i < n; i++) s[i] = x[i] ^ y[i];
  bv_add(d, y);
  MC_CHECK(d == s, "bv_add_in_place", show(x) << " " << show(y) << " -> " << show(d));
  for (int held = 0; held < 2; held++) {
    bit_vector_t e(n, held);
    bv_add(e, x, y);
    MC_CHECK(e == s, "bv_add", show(x) << " " << show(y) << " -> " << show(e));
  }
  if (x == y) { bit_vector_t e(x); bv_add(e, e, e); MC_CHECK(weight(e) == 0, "bv_add_alias", show(x)); }
  bit_vector_t f(x);
  bv_add(f, f, y);                       // aliased operands
  MC_CHECK(f == s, "bv_add_alias", show(x) << " " << show(y) << " -> " << show(f));
  sparse_bit_vector_t sp;
  for (int i = 0; i < n; i++) if (y[i]) sp.push_back(i);
  MC_CHECK(sbv_is_valid(sp) && sbv_is_valid(sp, n), "sbv_is_valid", show(y));
  if (!sp.empty()) MC_CHECK(!sbv_is_valid(sp, sp.back()), "sbv_is_valid_dimension", show(y));
  if (sp.size() >= 2) { auto r = sp; std::swap(r[0], r[r.size() - 1]); MC_CHECK(!sbv_is_valid(r), "sbv_is_valid_order", show(y)); }
  if (!sp.empty()) { auto r = sp; r[0] = -1; MC_CHECK(!sbv_is_valid(r), "sbv_is_valid_negative", show(y)); }
  bit_vector_t g(x);
  bv_flip(g, sp);
  MC_CHECK(g == s, "bv_flip_sparse", show(x) << " " << show(y) << " -> " << show(g));
  std::ostringstream os, ref;
  sbv_display(sp, os);
  for (int i : sp) ref << i << " ";
  MC_CHECK(os.str() == ref.str(), "sbv_display", os.str());
  mc::state(mc::Hash().addv(x).addv(y));
}

static bool echelon(const bit_matrix_t& a) {
  int last = -1;
  bool zero = false;
  for (auto& row : a) {
    size_t l = 0; while (l < row.size() && !row[l]) l++;
    if (l == row.size()) { zero = true; continue; }
    if (zero || int(l) <= last) return false;
    last = int(l);
  }
  return true;
}

/// Operations on any matrix
static void matrix_ops(const bit_matrix_t& m) {
  int r = int(m.size()), c = int(m[0].size());
  std::string t = std::to_string(r) + "x" + std::to_string(c) + " " + show(m);
  MC_CHECK(bm_is_valid(m), "bm_is_valid", t);
  MC_CHECK(bm_num_rows(m) == r && bm_num_columns(m) == c, "bm_num", t);
  MC_CHECK(bm_is_square(m) == (r == c), "bm_is_square", t);
  bool up = true;
  for (int i = 0; i < r; i++) for (int j = 0; j < std::min(i, c); j++) if (m[i][j]) up = false;
  MC_CHECK(bm_is_upper_triangular(m) == up, "bm_is_upper_triangular", t);
  MC_CHECK(bm_is_identity(m) == (r == c && is_id(m)), "bm_is_identity", t);
  bit_matrix_t tr = bm_transpose(m);
  MC_CHECK(int(tr.size()) == c && int(tr[0].size()) == r, "bm_transpose_size", t);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) MC_CHECK(tr[j][i] == m[i][j], "bm_transpose", t);
  bit_matrix_t e(m);
  bm_row_echelon_form(e);
  MC_CHECK(echelon(e), "bm_row_echelon_form", t << " -> " << show(e));
  int rk = rank_of(m);
  bit_matrix_t stack(m);
  stack.insert(stack.end(), e.begin(), e.end());
  MC_CHECK(rank_of(e) == rk && rank_of(stack) == rk, "bm_row_echelon_form_row_space", t << " -> " << show(e));
  MC_CHECK(bm_rank(e) == rk, "bm_rank", t << " rank " << rk << " computed " << bm_rank(e));
  std::ostringstream os, ref;
  bm_display(m, os);
  for (auto& row : m) ref << show(row) << "\n";
  MC_CHECK(os.str() == ref.str(), "bm_display", t);
  mc::Hash h; hash_add(h, m); mc::state(h.add(r).add(c));
}

static void row_col_ops(const bit_matrix_t& m) {
  int r = int(m.size()), c = int(m[0].size());
  std::string t = std::to_string(r) + "x" + std::to_string(c) + " " + show(m);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < r; j++) {
      bit_matrix_t s(m), ref(m);
      bm_swap_rows(s, i, j);
      std::swap(ref[i], ref[j]);
      MC_CHECK(s == ref, "bm_swap_rows", t << " " << i << " " << j);
      if (i == j) continue;
      bit_matrix_t a(m), ra(m);
      bm_add_rows(a, i, j);
      for (int k = 0; k < c; k++) ra[i][k] = m[i][k] ^ m[j][k];
      MC_CHECK(a == ra, "bm_add_rows", t << " " << i << " " << j);
    }
  for (int i = 0; i < c; i++) {
    for (int j = 0; j < c; j++) {
      if (i == j) continue;
      bit_matrix_t a(m), ra(m);
      bm_add_columns(a, i, j);
      for (int k = 0; k < r; k++) ra[k][i] = m[k][i] ^ m[k][j];
      MC_CHECK(a == ra, "bm_add_columns", t << " " << i << " " << j);
    }
    for (auto& x : r <= 4 ? domain(r, 4) : patterns(r, 1)) {
      bit_matrix_t a(m), ra(m);
      bm_set_column(a, i, x);
      for (int k = 0; k < r; k++) ra[k][i] = x[k];
      MC_CHECK(a == ra, "bm_set_column", t << " " << i);
    }
  }
}

static void products(const bit_matrix_t& m, const std::vector<bit_vector_t>& xs) {
  int r = int(m.size());
  for (auto& x : xs) {
    for (int held = 0; held < 2; held++) {
      bit_vector_t y(r, held);
      bm_multiply(y, m, x);
      MC_CHECK(y == mul(m, x), "bm_multiply", show(m) << " * " << show(x) << " = " << show(y));
    }
  }
}

static void square_ops(const bit_matrix_t& m, const std::vector<bit_vector_t>& bs) {
  int n = int(m.size());
  int rk = rank_of(m);
  for (int held = 0; held < 2; held++) {
    bit_matrix_t a(m), inv(n, bit_vector_t(n, held));
    bool ok = bm_invert(a, inv);
    MC_CHECK(ok == (rk == n), "bm_invert_verdict", show(m) << " rank " << rk << " -> " << ok);
    if (ok) {
      MC_CHECK(is_id(mul(m, inv)) && is_id(mul(inv, m)), "bm_invert", show(m) << " -> " << show(inv));
      MC_CHECK(is_id(a), "bm_invert_reduces", show(m));
    }
  }
  bool up = true;
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (m[i][j]) up = false;
  for (auto& b : bs) {
    bit_matrix_t s(m);
    bit_vector_t x(b);
    bool solved = bm_solve(s, x);
    MC_CHECK(solved == (rk == n), "bm_solve_verdict", show(m) << " b " << show(b));
    if (solved) {
      MC_CHECK(valid(x) && mul(m, x) == b, "bm_solve", show(m) << " b " << show(b) << " x " << show(x));
      MC_CHECK(is_id(s), "bm_solve_reduces", show(m));
    }
    if (up && rk == n) {
      bit_matrix_t s2(m);
      bit_vector_t x2(b);
      MC_CHECK(bm_solve_upper_triangular(s2, x2), "bm_solve_upper_triangular_verdict", show(m));
      MC_CHECK(mul(m, x2) == b && is_id(s2), "bm_solve_upper_triangular", show(m) << " b " << show(b) << " x " << show(x2));
    }
  }
  bit_matrix_t id(m);
  bm_identity(id);
  MC_CHECK(is_id(id), "bm_identity", show(m));
}

/// Listed large square matrices: product of unit lower, upper and a permutation
static bit_matrix_t listed(int r, int c, int k) {
  bit_matrix_t m(r, bit_vector_t(c));
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    bool b = mix64(uint64_t(k) * 7919 + uint64_t(i) * 131 + uint64_t(j)) >> 63;
    switch (k % 6) {
    case 0: m[i][j] = i == j; break;
    case 1: m[i][j] = i == j || (j > i && b); break;
    case 2: m[i][j] = i == j || (j < i && b); break;
    case 3: m[i][j] = j == (i + 1) % c || (j > i + 1 && b); break;
    case 4: m[i][j] = b; break;
    case 5: m[i][j] = j == c - 1 - i; break;
    }
  }
  return m;
}

void mc_register() {
  int nb = mc::thorough() ? 8 : 6;
  for (int n = 0; n <= nb; n++)
    mc::add("vectors-" + std::to_string(n), [n]() {
      for (auto& x : domain(n, 10)) {
        unary(x);
        for (auto& y : domain(n, 10)) binary(x, y);
      }
      mc::sample("all pairs of vectors of size " + std::to_string(n));
    });
  for (int n : { 9, 12, 16 })
    mc::add("vectors-unary-" + std::to_string(n), [n]() {
      int k = mc::thorough() ? n : std::min(n, 12);
      if (n > k) return;
      for (auto& x : domain(n, 16)) unary(x);
    });
  for (int n : { 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 257, 300, 513, 1025 })
    mc::add("long-vectors-" + std::to_string(n), [n]() {
      for (auto& x : patterns(n)) {
        unary(x);
        for (auto& y : patterns(n)) binary(x, y);
      }
    });
  // invalid inputs of the validity predicates
  mc::add("invalid", []() {
    for (int n = 1; n <= 5; n++)
      for (int i = 0; i < n; i++)
        for (int v : { 2, 3, 128, 255 }) {
          bit_vector_t x(n, 1);
          x[i] = bit_t(v);
          MC_CHECK(!bv_is_valid(x), "bv_is_valid_reject", n << " " << i << " " << v);
          MC_CHECK(!bm_is_valid(bit_matrix_t(2, x)), "bm_is_valid_reject", n << " " << i << " " << v);
          bit_matrix_t m(n, bit_vector_t(n)); m[i][n - 1 - i] = bit_t(v);
          MC_CHECK(!bm_is_valid(m), "bm_is_valid_reject", n << " " << i << " " << v);
        }
    for (int r = 2; r <= 4; r++)
      for (int i = 1; i < r; i++) {
        bit_matrix_t m(r, bit_vector_t(3));
        m[i].resize(2);
        MC_CHECK(!bm_is_valid(m), "bm_is_valid_ragged", r);
        m[i].resize(4);
        MC_CHECK(!bm_is_valid(m), "bm_is_valid_ragged", r);
      }
    MC_CHECK(!bm_is_valid(bit_matrix_t()), "bm_is_valid_empty", "");
    // strings with characters other than 0 and 1 / permutation validity
    std::vector<int> p;
    for (int n = 0; n <= 4; n++) {
      int total = 1;
      for (int i = 0; i < n; i++) total *= n + 2;
      for (int u = 0; u < total; u++) {
        p.clear();
        int v = u;
        std::set<int> s;
        bool in = true;
        for (int i = 0; i < n; i++) { p.push_back(v % (n + 2) - 1); v /= n + 2; s.insert(p.back()); in = in && p.back() >= 0 && p.back() < n; }
        MC_CHECK(perm_is_valid(p) == (in && int(s.size()) == n), "perm_is_valid", mc::vec(p));
      }
    }
    for (int n = 0; n <= 6; n++) {
      permutation_t q(n, 7);
      perm_identity(q);
      for (int i = 0; i < n; i++) MC_CHECK(q[i] == i, "perm_identity", n);
      std::ostringstream os, ref;
      perm_display(q, os);
      for (int i : q) ref << i << ", ";
      MC_CHECK(os.str() == ref.str() + "last", "perm_display", os.str());
    }
  });
  mc::add("make", []() {
    for (int r = 1; r <= 6; r++) {
      for (int c = 1; c <= 6; c++) {
        auto m = bm_rectangular(r, c);
        MC_CHECK(m == bit_matrix_t(r, bit_vector_t(c, 0)), "bm_rectangular", r << " " << c);
        for (int r2 = 1; r2 <= 6; r2++)
          for (int c2 = 1; c2 <= 6; c2++) {
            bit_matrix_t k(r2, bit_vector_t(c2, 1));
            bm_resize(k, r, c);
            MC_CHECK(int(k.size()) == r, "bm_resize", r << " " << c);
            for (int i = 0; i < r; i++) {
              MC_CHECK(int(k[i].size()) == c, "bm_resize", r << " " << c);
              for (int j = 0; j < c; j++) MC_CHECK(k[i][j] == (i < r2 && j < c2), "bm_resize_content", r << " " << c);
            }
            bm_clear(k);
            MC_CHECK(k == bit_matrix_t(r, bit_vector_t(c, 0)), "bm_clear", r << " " << c);
          }
      }
      MC_CHECK(bm_square(r) == bit_matrix_t(r, bit_vector_t(r, 0)), "bm_square", r);
      MC_CHECK(is_id(bm_identity(r)) && int(bm_identity(r).size()) == r, "bm_identity_make", r);
      bit_matrix_t k(1, bit_vector_t(3));
      bm_resize(k, r);
      MC_CHECK(int(k.size()) == r && int(k[0].size()) == r && int(k[r - 1].size()) == r, "bm_resize_square", r);
    }
  });
  int area = mc::thorough() ? 20 : 16;
  for (int r = 1; r <= 7; r++)
    for (int c = 1; c <= 7; c++) {
      if (r * c > area && !(r == 4 && c == 4)) continue;
      int parts = r * c >= 18 ? 32 : r * c >= 15 ? 8 : 1;
      for (int p = 0; p < parts; p++)
        mc::add("matrix-" + std::to_string(r) + "x" + std::to_string(c) + "." + std::to_string(p), [=]() {
          uint64_t tot = uint64_t(1) << (r * c);
          for (uint64_t u = tot / parts * p; u < tot / parts * (p + 1); u++) {
            auto m = mat(u, r, c);
            matrix_ops(m);
            products(m, domain(c, 7));
            if (r * c <= 12) row_col_ops(m);
            if (r == c) square_ops(m, domain(r, 4));
          }
          mc::sample("all " + std::to_string(r) + "x" + std::to_string(c) + " matrices");
        });
    }
  // 5x5 and larger: listed matrices
  for (int n : { 5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 70, 129 })
    mc::add("large-matrix-" + std::to_string(n), [n]() {
      for (int k = 0; k < (n > 40 ? 12 : 60); k++) {
        auto m = listed(n, n, k);
        matrix_ops(m);
        products(m, patterns(n));
        if (n < 20) row_col_ops(m);
        square_ops(m, patterns(n, n > 40 ? 1 : 4));
        for (int c : { 1, 2, n - 1, n + 1, n + 3 }) {
          auto q = listed(n, c, k);
          matrix_ops(q);
          products(q, patterns(c));
          auto t = listed(c, n, k);
          matrix_ops(t);
          products(t, patterns(n));
        }
      }
    });
}
