// C03: random generators deliver the structure they promise for every random
// outcome, whatever the state of the object they fill.
#include "common.hh"
#include "hnco/maps/map.hh"
#include "hnco/permutation.hh"
using namespace hnco;
using namespace hnco::map;
using namespace vp;

static std::string show_ts(const transvection_sequence_t& ts) {
  std::ostringstream s;
  for (auto& t : ts) s << "(" << t.row_index << "," << t.column_index << ")";
  return s.str();
}

static int commuting_max(int n) { return (n / 2) * ((n + 1) / 2); }

static const char *names[] = { "unconstrained", "commuting", "unique-source", "unique-destination", "disjoint", "non-commuting" };

static void sample(int mode, transvection_sequence_t& ts, int n, int t) {
  switch (mode) {
  case 0: ts_random(ts, n, t); break;
  case 1: ts_random_commuting(ts, n, t); break;
  case 2: ts_random_unique_source(ts, n, t); break;
  case 3: ts_random_unique_destination(ts, n, t); break;
  case 4: ts_random_disjoint(ts, n, t); break;
  case 5: ts_random_non_commuting(ts, n, t); break;
  }
}

static void check(int mode, const transvection_sequence_t& ts, int n, int t, const char *ctx) {
  std::string k = std::string(names[mode]) + ctx;
  int want = t;
  if (mode == 1) want = std::min(t, commuting_max(n));
  if (mode == 2 || mode == 3) want = std::min(t, n - 1);
  if (mode == 4) want = std::min(t, n / 2);
  MC_CHECK(int(ts.size()) == want, k + "-length", "n " << n << " t " << t << " got " << ts.size() << " " << show_ts(ts));
  for (auto& a : ts)
    MC_CHECK(a.row_index >= 0 && a.row_index < n && a.column_index >= 0 && a.column_index < n && a.row_index != a.column_index, k + "-valid", show_ts(ts));
  for (size_t i = 0; i < ts.size(); i++)
    for (size_t j = i + 1; j < ts.size(); j++) {
      auto& a = ts[i]; auto& b = ts[j];
      bool commute = a.row_index != b.column_index && a.column_index != b.row_index;
      switch (mode) {
      case 1:
        MC_CHECK(commute, k, show_ts(ts));
        MC_CHECK(a.row_index != b.row_index || a.column_index != b.column_index, k + "-distinct", show_ts(ts));
        break;
      case 2: // for each destination a unique source
        MC_CHECK(a.row_index != b.row_index && commute, k, show_ts(ts)); break;
      case 3:
        MC_CHECK(a.column_index != b.column_index && commute, k, show_ts(ts)); break;
      case 4:
        MC_CHECK(a.row_index != b.row_index && a.column_index != b.column_index && commute, k, show_ts(ts)); break;
      case 5:
        if (j == i + 1) MC_CHECK(!commute, k, show_ts(ts));
        break;
      }
    }
}

void mc_register() {
  bool T = mc::thorough();
  // bit vectors of given weight
  for (int n = 1; n <= (T ? 12 : 9); n++)
    for (int k = 0; k <= n; k++)
      mc::add("weight-" + std::to_string(n) + "-" + std::to_string(k), [=]() {
        std::set<bit_vector_t> seen;
        mc::explore([&]() {
          bit_vector_t x(n, 1);
          for (int i = 0; i < n; i += 2) x[i] = 0;
          bv_random(x, k);
          MC_CHECK(int(x.size()) == n && valid(x) && weight(x) == k, "bv_random-weight", "n " << n << " k " << k << " got " << show(x));
          seen.insert(x);
          mc::state(mc::Hash().addv(x));
        });
        double c = 1;
        for (int i = 0; i < k; i++) c = c * (n - i) / (i + 1);
        MC_CHECK(seen.size() == size_t(std::llround(c)), "bv_random-support", "n " << n << " k " << k << ": " << seen.size() << " vectors of " << c);
      });
  mc::add("weight-long", [=]() {
    for (int n : { 31, 32, 33, 63, 64, 65, 100, 130, 257 })
      for (int k : { 0, 1, 2, n / 3, n / 2, n - 1, n })
        mc::explore(mc::bounds(2, 1, 3), [&]() {
          bit_vector_t x(n, 1);
          bv_random(x, k);
          MC_CHECK(valid(x) && weight(x) == k, "bv_random-weight", "n " << n << " k " << k << " got " << show(x));
        });
  });
  for (int n = 1; n <= 8; n++)
    mc::add("uniform-vector-" + std::to_string(n), [=]() {
      std::set<bit_vector_t> seen, seen2;
      mc::explore([&]() {
        bit_vector_t x(n, 1);
        bv_random(x);
        MC_CHECK(valid(x) && int(x.size()) == n, "bv_random", show(x));
        seen.insert(x);
        mc::state(mc::Hash().addv(x));
      });
      MC_CHECK(seen.size() == size_t(1) << n, "bv_random-support", seen.size());
      mc::explore([&]() { Translation m; m.random(2); m.random(n); bit_vector_t y(n); m.map(bit_vector_t(n), y); seen2.insert(y); });
      MC_CHECK(seen2.size() == size_t(1) << n, "translation-random-support", seen2.size());
    });
  for (int r = 1; r <= 3; r++)
    for (int c = 1; c <= 3; c++)
      mc::add("matrix-" + std::to_string(r) + "x" + std::to_string(c), [=]() {
        std::set<bit_matrix_t> seen;
        mc::explore([&]() {
          bit_matrix_t m(r, bit_vector_t(c, 1));
          bm_random(m);
          MC_CHECK(bm_is_valid(m) && int(m.size()) == r && int(m[0].size()) == c, "bm_random", show(m));
          seen.insert(m);
          mc::Hash h; hash_add(h, m); mc::state(h);
        });
        MC_CHECK(seen.size() == size_t(1) << (r * c), "bm_random-support", seen.size());
        // maps: every matrix (of full rank) can be drawn, and only those
        auto matrix = [&](Map& m) {
          bit_matrix_t a(r, bit_vector_t(c));
          bit_vector_t z(r); m.map(bit_vector_t(c), z);
          for (int j = 0; j < c; j++) { bit_vector_t e(c), y(r); e[j] = 1; m.map(e, y); for (int i = 0; i < r; i++) a[i][j] = y[i] ^ z[i]; }
          return a;
        };
        size_t full = 0;
        for (uint64_t u = 0; u < (uint64_t(1) << (r * c)); u++) full += rank_of(mat(u, r, c)) == r;
        for (int surj = 0; surj <= (r <= c); surj++) {
          std::set<bit_matrix_t> l, a;
          std::set<bit_vector_t> b;
          mc::explore(mc::bounds(r * c, 0), [&]() {
            LinearMap m; m.random(r, c, surj); auto x = matrix(m); l.insert(x);
            if (surj) MC_CHECK(rank_of(x) == r, "linear-random-surjective", show(x));
          });
          mc::explore(mc::bounds(r * c, surj ? (r * c <= 6 ? 2 : 1) : 0, 1 + surj), [&]() {
            AffineMap m; m.random(r, c, surj); auto x = matrix(m); a.insert(x);
            bit_vector_t z(r); m.map(bit_vector_t(c), z); b.insert(z);
            if (surj) MC_CHECK(rank_of(x) == r, "affine-random-surjective", show(x));
          });
          MC_CHECK(l.size() == (surj ? full : size_t(1) << (r * c)), "linear-random-support", "surjective " << surj << ": " << l.size());
          MC_CHECK(a.size() == (surj ? full : size_t(1) << (r * c)), "affine-random-support", "surjective " << surj << ": " << a.size());
        }
      });
  for (int n = 1; n <= (T ? 8 : 7); n++)
    mc::add("permutation-" + std::to_string(n), [=]() {
      std::set<permutation_t> seen;
      mc::explore([&]() {
        permutation_t p(n, 9);
        perm_random(p);
        MC_CHECK(perm_is_valid(p), "perm_random", mc::vec(p));
        auto q = p;
        seen.insert(p);
        mc::state(mc::Hash().addv(p));
      });
      size_t f = 1; for (int i = 2; i <= n; i++) f *= i;
      MC_CHECK(seen.size() == f, "perm_random-support", seen.size());
      if (n > 5) return;
      std::set<permutation_t> seen2, seen3;
      mc::explore([&]() {
        permutation_t p(n);
        for (int i = 0; i < n; i++) p[i] = n - 1 - i;
        perm_shuffle(p);
        MC_CHECK(perm_is_valid(p), "perm_shuffle", mc::vec(p));
        seen2.insert(p);
      });
      MC_CHECK(seen2.size() == f, "perm_shuffle-support", seen2.size());
      mc::explore([&]() {
        Permutation m;
        m.random(n);
        permutation_t p(n, -1);
        for (int j = 0; j < n; j++) {
          bit_vector_t e(n), y(n); e[j] = 1; m.map(e, y);
          MC_CHECK(weight(y) == 1, "permutation-random", show(y));
          for (int i = 0; i < n; i++) if (y[i]) p[i] = j;
        }
        MC_CHECK(perm_is_valid(p), "permutation-random", mc::vec(p));
        seen3.insert(p);
      });
      MC_CHECK(seen3.size() == f, "permutation-random-support", seen3.size());
    });
  // transvections
  for (int n = 2; n <= 5; n++)
    mc::add("transvection-" + std::to_string(n), [=]() {
      std::set<std::pair<int, int>> seen;
      mc::explore(mc::bounds(4, 0, 2), [&]() {
        Transvection t; t.row_index = t.column_index = 77;
        t.random(n);
        MC_CHECK(t.row_index >= 0 && t.row_index < n && t.column_index >= 0 && t.column_index < n && t.row_index != t.column_index, "transvection-random", t.row_index << "," << t.column_index);
        seen.insert({ t.row_index, t.column_index });
        mc::state(mc::Hash().add(t.row_index).add(t.column_index));
      });
      MC_CHECK(int(seen.size()) == n * (n - 1), "transvection-random-support", seen.size());
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
          if (i == j) continue;
          std::set<std::pair<int, int>> s, e;
          for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) if (k != l && (k == j || l == i)) e.insert({ k, l });
          mc::explore(mc::bounds(4, 0, 2), [&]() {
            Transvection a, t; a.row_index = i; a.column_index = j;
            t.random_non_commuting(n, a);
            s.insert({ t.row_index, t.column_index });
          });
          MC_CHECK(s == e, "transvection-non-commuting-support", i << "," << j << ": " << s.size() << " of " << e.size());
        }
    });
  // sequences: fresh objects
  for (int mode = 0; mode < 6; mode++)
    for (int n = 2; n <= 6; n++)
      for (int t = 0; t <= (n <= 4 ? 6 : 10); t++)
        mc::add(std::string("ts-") + names[mode] + "-" + std::to_string(n) + "-" + std::to_string(t), [=]() {
          mc::Opt o = mc::bounds(n <= 3 ? (mode == 5 ? 9 : 12) : n == 4 ? 8 : 5, 1, 2);
          if (!T && mode == 0) o.depth = n <= 3 ? 6 : 4;
          if (T) o.depth += 2;
          o.max_exec = T ? 20000000 : 1000000;
          mc::explore(o, [&]() {
            transvection_sequence_t ts;
            sample(mode, ts, n, t);
            check(mode, ts, n, t, "");
            mc::Hash h; for (auto& x : ts) h.add(x.row_index).add(x.column_index); mc::state(h);
          });
        });
  // sequences: objects which already hold a sequence of another shape
  for (int mode = 0; mode < 6; mode++)
    mc::add(std::string("ts-reuse-") + names[mode], [=]() {
      for (int n1 = 2; n1 <= 6; n1++)
        for (int t1 = 0; t1 <= 6; t1++)
          for (int m1 = 0; m1 < 6; m1++)
            for (int n = 2; n <= 5; n++)
              for (int t = 0; t <= 5; t++)
                mc::explore(mc::bounds(0, 1, 1), [&]() {
                  transvection_sequence_t ts;
                  sample(m1, ts, n1, t1);
                  sample(mode, ts, n, t);
                  check(mode, ts, n, t, "-reuse");
                });
    });
  mc::add("ts-long", [=]() {
    for (int mode = 0; mode < 6; mode++)
      for (int n : { 7, 10, 15, 16, 33, 64, 65 })
        for (int t : { 0, 1, 2, n / 2, n / 2 + 1, n - 1, n, 2 * n })
          mc::explore(mc::bounds(1, 0, 8), [&]() {
            transvection_sequence_t ts;
            sample(mode, ts, n, t);
            check(mode, ts, n, t, "-long");
            sample(mode, ts, n, t);
            check(mode, ts, n, t, "-long-reuse");
          });
    // around the largest possible length of a commuting sequence
    for (int n = 2; n <= 24; n++)
      for (int d = -3; d <= 2; d++)
        mc::explore(mc::bounds(0, 0, 6), [&]() {
          int t = commuting_max(n) + d;
          if (t < 0) return;
          transvection_sequence_t ts;
          ts_random_commuting(ts, n, t);
          check(1, ts, n, t, "-max");
        });
  });
  mc::add("ts-map-reuse", [=]() {
    for (int m1 = 0; m1 < 6; m1++)
      for (int n1 = 2; n1 <= 5; n1++)
        for (int t1 = 0; t1 <= 3; t1++)
          for (int mode = 0; mode < 6; mode++)
            for (int n = 2; n <= 4; n++)
              for (int t = 0; t <= 3; t++) {
                mc::set_policy(uint64_t(n1 * 100 + t1 * 10 + t));
                TsAffineMap m;
                m.random(n1, t1, m1);
                m.random(n, t, mode);
                MC_CHECK(m.get_input_size() == n && m.get_output_size() == n, "ts-map-size", n);
                std::ostringstream os;
                m.display(os);
                transvection_sequence_t ts;
                std::string s = os.str();
                for (size_t p = 0; (p = s.find('(', p)) != std::string::npos; p++) {
                  Transvection tv;
                  if (sscanf(s.c_str() + p, "(%d, %d)", &tv.row_index, &tv.column_index) == 2) ts.push_back(tv);
                }
                check(mode, ts, n, t, "-map-reuse");
                bit_vector_t y(n);
                m.map(bv(5, n), y);
              }
  });
  mc::add("permutation-long", [=]() {
    for (int n : { 255, 256, 257, 300, 520, 1000 }) {
      permutation_t p(static_cast<size_t>(n)); perm_identity(p);
      MC_CHECK(perm_is_valid(p), "permutation-valid", n);
      for (int i = 0; i < n; i++) MC_CHECK(p[size_t(i)] == i, "permutation-identity", n);
      for (int i : { 0, 1, n / 2, 255, n - 2, n - 1 }) if (i < n) for (int v : { -1, n, n + 256, (i + 1) % n, (i + 254) % n, 65536 + i }) { auto q = p; q[size_t(i)] = v; MC_CHECK(!perm_is_valid(q), "permutation-valid", "n " << n << " with " << v << " at " << i << " is accepted"); }
      mc::explore(mc::bounds(0, 0, 4), [&]() {
        auto q = p; perm_random(q); MC_CHECK(perm_is_valid(q), "permutation-random", n);
        std::set<int> s(q.begin(), q.end()); MC_CHECK(int(s.size()) == n && *s.begin() == 0 && *s.rbegin() == n - 1, "permutation-random", n);
        perm_shuffle(q); std::set<int> t(q.begin(), q.end()); MC_CHECK(int(t.size()) == n && *t.begin() == 0 && *t.rbegin() == n - 1, "permutation-shuffle", n);
      });
    }
  });
}
