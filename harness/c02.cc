// C02: maps between hypercubes compute what they are defined to compute.
#include "common.hh"
#include "hnco/maps/map.hh"
using namespace hnco;
using namespace hnco::map;
using namespace vp;

/// Reads the permutation of a saved Permutation map
struct PermutationView {
  std::vector<int> p;
  template<class A> void serialize(A& ar, unsigned) { ar & p; }
};

static bit_vector_t app(Map& m, const bit_vector_t& x, int fill = 0) {
  bit_vector_t y(m.get_output_size(), bit_t(fill)), in(x);
  m.map(in, y);
  MC_CHECK(in == x, "input-modified", show(x));
  MC_CHECK(valid(y), "output-valid", show(x) << " -> " << show(y));
  return y;
}

/// Is the map onto? (n <= 12)
static bool onto(Map& m) {
  std::set<bit_vector_t> im;
  for (auto& x : domain(m.get_input_size(), 16)) im.insert(app(m, x));
  return im.size() == (size_t(1) << m.get_output_size());
}

static std::vector<bit_vector_t> dom(int n) { return domain(n, 8); }

static void sizes(Map& m, int in, int out, const char *k) {
  MC_CHECK(m.get_input_size() == in, std::string(k) + "-input-size", m.get_input_size() << " != " << in);
  MC_CHECK(m.get_output_size() == out, std::string(k) + "-output-size", m.get_output_size() << " != " << out);
}

static void check_translation(Translation& m, int n) {
  sizes(m, n, n, "translation");
  auto b = app(m, bit_vector_t(n));
  {
    std::ostringstream os; m.display(os); auto t = os.str(); auto p = t.find(": ");
    MC_CHECK(p != std::string::npos && t.find("(" + std::to_string(n) + ")") != std::string::npos, "translation-display", t);
    std::string bits; for (char c : t.substr(p)) if (c == '0' || c == '1') bits += c;
    MC_CHECK(bits == show(b).substr(0, 5) && (t.find("...") != std::string::npos) == (n > 5), "translation-display", t << " for " << show(b));
  }
  for (auto& x : dom(n)) {
    bit_vector_t e(n);
    for (int i = 0; i < n; i++) e[i] = x[i] ^ b[i];
    MC_CHECK(app(m, x) == e && app(m, x, 1) == e, "translation", show(x));
  }
  MC_CHECK(m.is_surjective(), "translation-surjective", "");
  mc::state(mc::Hash().adds("T").addv(b));
}

static bit_matrix_t matrix_of(Map& m, const bit_vector_t& b) {
  int n = m.get_input_size(), o = m.get_output_size();
  bit_matrix_t a(o, bit_vector_t(n));
  for (int j = 0; j < n; j++) {
    bit_vector_t e(n); e[j] = 1;
    auto y = app(m, e);
    for (int i = 0; i < o; i++) a[i][j] = y[i] ^ b[i];
  }
  return a;
}

/// m is x -> Ax + b
static void check_affine(Map& m, const char *k, bool linear) {
  int n = m.get_input_size(), o = m.get_output_size();
  auto b = app(m, bit_vector_t(n), 1);
  if (linear) MC_CHECK(weight(b) == 0, std::string(k) + "-zero", show(b));
  auto a = matrix_of(m, b);
  for (auto& x : dom(n)) {
    auto y = mul(a, x);
    for (int i = 0; i < o; i++) y[i] ^= b[i];
    MC_CHECK(app(m, x) == y && app(m, x, 1) == y, std::string(k) + "-affine", show(a) << " + " << show(b) << " at " << show(x));
  }
  mc::Hash h; h.adds(k).addv(b); hash_add(h, a);
  mc::state(h);
}

static void check_surj_exact(Map& m, const char *k) {
  if (m.get_input_size() <= 10)
    MC_CHECK(m.is_surjective() == onto(m), std::string(k) + "-surjective", "declared " << m.is_surjective());
  else {
    auto b = app(m, bit_vector_t(m.get_input_size()));
    bool r = rank_of(matrix_of(m, b)) == m.get_output_size();
    MC_CHECK(m.is_surjective() == r, std::string(k) + "-surjective", "declared " << m.is_surjective());
  }
}

static void check_permutation(Permutation& m, int n) {
  sizes(m, n, n, "permutation");
  check_affine(m, "permutation", true);
  auto a = matrix_of(m, bit_vector_t(n));
  std::vector<int> sigma(n, -1), count(n, 0);
  for (int i = 0; i < n; i++) {
    MC_CHECK(weight(a[i]) == 1, "permutation-rows", show(a));
    for (int j = 0; j < n; j++) if (a[i][j]) { sigma[i] = j; count[j]++; }
  }
  for (int j = 0; j < n; j++) MC_CHECK(count[j] == 1, "permutation-columns", show(a));
  MC_CHECK(m.is_surjective(), "permutation-surjective", "");
}

static std::string file() { return scratch() + "/c02-" + std::to_string(getpid()); }

#include <unistd.h>

static void check_permutation_definition(Permutation& m, int n) {
  std::string p = file();
  m.save(p);
  PermutationView v;
  bool read = true;
  try { load_from_archive(v, p, "view"); } catch (std::exception&) { read = false; }
  unlink(p.c_str());
  if (!read || int(v.p.size()) != n) return;   // another file format
  for (auto& x : dom(n)) {
    auto y = app(m, x);
    for (int i = 0; i < n; i++) MC_CHECK(y[i] == x[v.p[i]], "permutation-definition", mc::vec(v.p) << " at " << show(x) << " -> " << show(y));
  }
}

/// The product and the vector that a sequence affine map displays
static std::vector<std::pair<int, int>> parse_ts(const std::string& s) {
  std::vector<std::pair<int, int>> r;
  size_t p = 0;
  while ((p = s.find('(', p)) != std::string::npos) {
    int i, j;
    if (sscanf(s.c_str() + p, "(%d, %d)", &i, &j) == 2) r.push_back({ i, j });
    p++;
  }
  return r;
}

static void check_ts(TsAffineMap& m, int n) {
  sizes(m, n, n, "ts");
  check_affine(m, "ts", false);
  MC_CHECK(m.is_surjective(), "ts-surjective", "");
  std::ostringstream os;
  m.display(os);
  auto ts = parse_ts(os.str());
  auto b = app(m, bit_vector_t(n));
  for (auto& x : dom(n)) {
    bit_vector_t y(x);
    for (auto& t : ts) y[t.first] ^= y[t.second];
    for (int i = 0; i < n; i++) y[i] ^= b[i];
    MC_CHECK(app(m, x) == y, "ts-definition", os.str() << " at " << show(x));
  }
  TsAffineMap inv(m);
  inv.invert();
  for (auto& x : dom(n)) {
    MC_CHECK(app(inv, app(m, x)) == x, "ts-left-inverse", os.str() << " b " << show(b) << " at " << show(x));
    MC_CHECK(app(m, app(inv, x)) == x, "ts-right-inverse", os.str() << " b " << show(b) << " at " << show(x));
  }
  inv.invert();
  for (auto& x : dom(n)) MC_CHECK(app(inv, x) == app(m, x), "ts-double-inverse", os.str() << " at " << show(x));
}

static void check_affine_display(AffineMap& m) {
  std::ostringstream os;
  m.display(os);
  std::istringstream is(os.str());
  std::string line;
  std::vector<std::string> rows;
  while (std::getline(is, line))
    if (!line.empty() && line.find_first_not_of("01") == std::string::npos) rows.push_back(line);
  int o = m.get_output_size(), n = m.get_input_size();
  if (int(rows.size()) != o + 1) return;
  auto b = app(m, bit_vector_t(n));
  auto a = matrix_of(m, b);
  for (int i = 0; i < o; i++) MC_CHECK(rows[i] == show(a[i]), "affine-display", os.str());
  MC_CHECK(rows[o] == show(b), "affine-display", os.str());
}

static mc::Opt opt(int depth, int dev, int pol = 1) { return mc::bounds(depth, dev, pol); }

void mc_register() {
  bool T = mc::thorough();

  for (int n : { 1, 2, 3, 4, 5, 6, 7, 8, 31, 32, 33, 63, 64, 65, 100, 130 }) {
    std::string s = std::to_string(n);
    mc::add("translation-" + s, [=]() {
      mc::explore(opt(n <= 8 ? n : 4, 1), [&]() {
        Translation m; m.random(n); check_translation(m, n);
        m.set_bv(bv(5, n)); check_translation(m, n);
        MC_CHECK(app(m, bit_vector_t(n)) == bv(5, n), "set_bv", "");
        int n2 = n > 1 ? n / 2 : 3;       // reuse with another size
        m.random(n2); check_translation(m, n2);
      });
    });
    mc::add("permutation-" + s, [=]() {
      mc::explore(opt(n <= 5 ? 5 : 3, n <= 8 ? 1 : 0, 2), [&]() {
        Permutation m; m.random(n); check_permutation(m, n);
        if (n <= 33) check_permutation_definition(m, n);
        int n2 = n > 1 ? n - 1 : 3;
        m.random(n2); check_permutation(m, n2);
      });
    });
  }
  for (int r = 1; r <= 4; r++)
    for (int c = 1; c <= 4; c++)
      for (int surj = 0; surj < 2; surj++) {
        if (r * c > (T ? 12 : 9)) continue;
        std::string s = std::to_string(r) + "x" + std::to_string(c) + (surj ? "-surj" : "");
        mc::add("linear-" + s, [=]() {
          if (surj && r > c) {
            for (int k = 0; k < 2; k++) {
              LinearMap m;
              if (k) m.random(1, 2, true);
              bool thrown = false;
              try { m.random(r, c, true); } catch (std::runtime_error&) { thrown = true; }
              MC_CHECK(thrown, "linear-impossible", s);
            }
            return;
          }
          mc::explore(opt(r * c, 0), [&]() {
            LinearMap m; m.random(r, c, surj); sizes(m, c, r, "linear");
            check_affine(m, "linear", true); check_surj_exact(m, "linear");
            if (surj) MC_CHECK(m.is_surjective(), "linear-random-surjective", s);
          });
        });
        mc::add("affine-" + s, [=]() {
          if (surj && r > c) {
            AffineMap m;
            bool thrown = false;
            try { m.random(r, c, true); } catch (std::runtime_error&) { thrown = true; }
            MC_CHECK(thrown, "affine-impossible", s);
            return;
          }
          mc::explore(opt(surj ? r * c : r * c + r, 0), [&]() {
            AffineMap m; m.random(r, c, surj); sizes(m, c, r, "affine");
            check_affine(m, "affine", false); check_surj_exact(m, "affine");
            if (surj) MC_CHECK(m.is_surjective(), "affine-random-surjective", s);
            check_affine_display(m);
          });
        });
      }
  // listed larger shapes, object reuse with growing and shrinking shapes
  mc::add("reuse-shapes", [=]() {
    std::vector<std::pair<int, int>> sh = { { 2, 3 }, { 5, 7 }, { 3, 3 }, { 1, 9 }, { 8, 8 }, { 4, 2 }, { 20, 40 }, { 65, 70 }, { 3, 130 } };
    for (int p = 0; p < (T ? 40 : 10); p++) {
      mc::set_policy(100 + p);
      LinearMap l; AffineMap a;
      for (auto& s : sh) {
        bool surj = s.first <= s.second && s.second < 60;
        l.random(s.first, s.second, surj); sizes(l, s.second, s.first, "linear");
        check_affine(l, "linear", true); check_surj_exact(l, "linear");
        a.random(s.first, s.second, surj); sizes(a, s.second, s.first, "affine");
        check_affine(a, "affine", false); check_surj_exact(a, "affine");
        check_affine_display(a);
        if (surj) MC_CHECK(l.is_surjective() && a.is_surjective(), "random-surjective", s.first << "x" << s.second);
      }
    }
  });
  for (int n = 2; n <= 5; n++)
    for (int t = 0; t <= (n <= 3 ? 4 : 3); t++)
      for (int mode = 0; mode < 6; mode++)
        mc::add("ts-" + std::to_string(n) + "-" + std::to_string(t) + "-" + std::to_string(mode), [=]() {
          mc::Opt o = opt(n <= 3 ? 9 : 6, 1); o.max_exec = T ? 4000000 : 60000;
          if (!T) o.depth = n <= 3 ? 7 : 4;
          mc::explore(o, [&]() {
            TsAffineMap m;
            m.random(n, t, mode);
            check_ts(m, n);
          });
        });
  mc::add("ts-long", [=]() {
    for (int n : { 7, 33, 64, 65, 130 })
      for (int t : { 1, 5, 31, 64, 200 })
        for (int mode = 0; mode < 6; mode++) { mc::set_policy(uint64_t(n * 1000 + t)); TsAffineMap m; m.random(n, t, mode); check_ts(m, n); }
  });
  mc::add("ts-mode", []() {
    bool thrown = false;
    TsAffineMap m;
    try { m.random(3, 2, 99); } catch (std::runtime_error&) { thrown = true; }
    MC_CHECK(thrown, "ts-unknown-mode", "");
  });
  // transvections and sequences as matrices
  for (int n = 2; n <= 4; n++)
    for (int t = 0; t <= 3; t++)
      mc::add("sequence-" + std::to_string(n) + "-" + std::to_string(t), [=]() {
        mc::explore(opt(100, 0), [&]() {
          transvection_sequence_t ts;
          bit_matrix_t prod = mat(0, n, n);
          for (int i = 0; i < n; i++) prod[i][i] = 1;
          for (int k = 0; k < t; k++) {
            Transvection tv;
            tv.row_index = int(choose(n));
            tv.column_index = int(choose(n));
            MC_CHECK(tv.is_valid() == (tv.row_index != tv.column_index), "transvection-valid", "");
            if (tv.row_index == tv.column_index) return;
            MC_CHECK(tv.is_valid(n) && tv.is_valid(1 + std::max(tv.row_index, tv.column_index)) && !tv.is_valid(std::max(tv.row_index, tv.column_index)), "transvection-valid-dim", "");
            bit_matrix_t e = mat(0, n, n);
            for (int i = 0; i < n; i++) e[i][i] = 1;
            e[tv.row_index][tv.column_index] = 1;
            for (auto& x : domain(n, 8)) { auto y = x; tv.multiply(y); MC_CHECK(y == mul(e, x), "transvection-vector", show(x)); }
            bit_matrix_t pm = prod;
            tv.multiply(pm);
            prod = mul(e, prod);
            MC_CHECK(pm == prod, "transvection-matrix", show(prod));
            ts.push_back(tv);
          }
          MC_CHECK(ts_is_valid(ts) && ts_is_valid(ts, n), "ts-valid", "");
          for (size_t a = 0; a < ts.size(); a++)
            for (size_t b = 0; b < ts.size(); b++) {
              auto ma = mat(0, n, n), mb = ma;
              for (int i = 0; i < n; i++) ma[i][i] = mb[i][i] = 1;
              ma[ts[a].row_index][ts[a].column_index] = 1;
              mb[ts[b].row_index][ts[b].column_index] = 1;
              MC_CHECK(transvections_commute(ts[a], ts[b]) == (mul(ma, mb) == mul(mb, ma)), "transvections-commute", "");
              std::set<int> u = { ts[a].row_index, ts[a].column_index, ts[b].row_index, ts[b].column_index };
              MC_CHECK(transvections_are_disjoint(ts[a], ts[b]) == (u.size() == 4), "transvections-disjoint", "");
            }
          for (auto& x : domain(n, 8)) { auto y = x; ts_multiply(y, ts); MC_CHECK(y == mul(prod, x), "ts-vector", show(x)); }
          for (int c = 1; c <= 2; c++) {
            bit_matrix_t q = mat(0x5a, n, c);
            auto q2 = q; ts_multiply(q2, ts);
            MC_CHECK(q2 == mul(prod, q), "ts-matrix", show(q));
          }
          auto inv = ts;
          ts_invert(inv);
          for (auto& x : domain(n, 8)) { auto y = x; ts_multiply(y, ts); ts_multiply(y, inv); MC_CHECK(y == x, "ts-inverse", show(x)); }
          mc::Hash h; for (auto& t : ts) h.add(t.row_index).add(t.column_index);
          mc::state(h);
        });
      });
  // injections and projections: every list of distinct positions
  for (int n = 1; n <= 5; n++)
    mc::add("injection-projection-" + std::to_string(n), [=]() {
      mc::explore(opt(100, 0), [&]() {
        int m = int(choose(n)) + 1;
        std::vector<int> free, pos;
        for (int i = 0; i < n; i++) free.push_back(i);
        for (int i = 0; i < m; i++) { int k = int(choose(unsigned(free.size()))); pos.push_back(free[k]); free.erase(free.begin() + k); }
        Injection in(pos, n);
        Projection pr(pos, n);
        sizes(in, m, n, "injection");
        sizes(pr, n, m, "projection");
        for (auto& x : domain(m, 8))
          for (int fill = 0; fill < 2; fill++) {
            auto y = app(in, x, fill);
            for (int j = 0; j < m; j++) MC_CHECK(y[pos[j]] == x[j], "injection", mc::vec(pos) << " at " << show(x));
            MC_CHECK(app(pr, y, fill) == x, "projection-injection", mc::vec(pos) << " at " << show(x));
          }
        for (auto& x : domain(n, 8)) {
          auto y = app(pr, x);
          for (int j = 0; j < m; j++) MC_CHECK(y[j] == x[pos[j]], "projection", mc::vec(pos) << " at " << show(x));
        }
        MC_CHECK(pr.is_surjective() && onto(pr), "projection-surjective", mc::vec(pos));
        MC_CHECK(in.is_surjective() == (m == n), "injection-surjective", mc::vec(pos));
        if (m == n) MC_CHECK(onto(in), "injection-onto", mc::vec(pos));
        MapComposition comp(&pr, &in);
        sizes(comp, m, m, "composition");
        for (auto& x : domain(m, 8)) MC_CHECK(app(comp, x) == x, "projection-o-injection", mc::vec(pos) << " at " << show(x));
        if (comp.is_surjective()) MC_CHECK(onto(comp), "composition-surjective", mc::vec(pos));
        mc::state(mc::Hash().addv(pos).add(n));
      });
      bool a = false, b = false;
      std::vector<int> pos; for (int i = 0; i <= n; i++) pos.push_back(i);
      try { Injection x(pos, n); } catch (std::runtime_error&) { a = true; }
      try { Projection x(pos, n); } catch (std::runtime_error&) { b = true; }
      MC_CHECK(a && b, "too-many-positions", n);
    });
  for (int n : { 255, 256, 257, 300, 520 })
    mc::add("large-" + std::to_string(n), [=]() {
      mc::set_policy(uint64_t(n));
      Translation t; t.random(n); check_translation(t, n);
      Permutation p; p.random(n); check_permutation(p, n); check_permutation_definition(p, n);
      for (int r : { 3, n }) {
        LinearMap l; l.random(r, n, false); sizes(l, n, r, "linear"); check_affine(l, "linear", true);
        AffineMap a; a.random(n, r, false); sizes(a, r, n, "affine"); check_affine(a, "affine", false);
      }
      TsAffineMap m; m.random(n, 40, 0); check_ts(m, n);
    });
  mc::add("injection-projection-long", []() {
    for (int n : { 33, 64, 65, 130, 300 })
      for (int step : { 1, 2, 7 }) {
        std::vector<int> pos;
        for (int i = n - 1; i >= 0; i -= step) pos.push_back(i);
        Injection in(pos, n); Projection pr(pos, n);
        for (auto& x : patterns(int(pos.size()))) {
          auto y = app(in, x, 1);
          for (size_t j = 0; j < pos.size(); j++) MC_CHECK(y[pos[j]] == x[j], "injection", n);
          MC_CHECK(app(pr, y) == x, "projection-injection", n);
        }
      }
  });
  // compositions of every pair (and triple) of maps of every kind
  for (int k1 = 0; k1 < 6; k1++)
    for (int k2 = 0; k2 < 6; k2++)
      mc::add("composition-" + std::to_string(k1) + "-" + std::to_string(k2), [=]() {
        auto make = [](int k, int out, int in) -> std::unique_ptr<Map> {
          switch (k) {
          case 0: { auto m = std::make_unique<Translation>(); m->random(in); return m; }
          case 1: { auto m = std::make_unique<Permutation>(); m->random(in); return m; }
          case 2: { auto m = std::make_unique<LinearMap>(); m->random(out, in, false); return m; }
          case 3: { auto m = std::make_unique<AffineMap>(); m->random(out, in, false); return m; }
          case 4: { std::vector<int> p; for (int i = 0; i < out; i++) p.push_back(in - 1 - i); return std::make_unique<Projection>(p, in); }
          default: { auto m = std::make_unique<TsAffineMap>(); m->random(in, 2, 0); return m; }
          }
        };
        for (int a = 2; a <= 3; a++)
          for (int b = 2; b <= 3; b++)
            for (int c = 2; c <= 3; c++) {
              auto ok = [](int k, int out, int in) { return k == 2 || k == 3 ? true : k == 4 ? out <= in : out == in; };
              if (!ok(k1, a, b) || !ok(k2, b, c)) continue;
              mc::Opt o = opt(5, 0, 3);
              mc::explore(o, [&]() {
                auto outer = make(k1, a, b), inner = make(k2, b, c);
                MapComposition m(outer.get(), inner.get());
                sizes(m, c, a, "composition");
                for (auto& x : domain(c, 8)) {
                  bit_vector_t y(b), z(a);
                  inner->map(x, y); outer->map(y, z);
                  MC_CHECK(app(m, x) == z && app(m, x, 1) == z, "composition", show(x));
                }
                MC_CHECK(m.is_surjective() == (outer->is_surjective() && inner->is_surjective()), "composition-declared", "");
                if (m.is_surjective()) MC_CHECK(onto(m), "composition-surjective", "");
                auto third = std::make_unique<AffineMap>();
                third->random(2, a, false);
                MapComposition mm(third.get(), &m);
                for (auto& x : domain(c, 8)) {
                  bit_vector_t y(b), z(a), w(2);
                  inner->map(x, y); outer->map(y, z); third->map(z, w);
                  MC_CHECK(app(mm, x) == w, "composition-nested", show(x));
                }
              });
            }
      });
}
