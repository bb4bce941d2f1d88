// C06: benchmark functions compute their definition, whatever was evaluated before.
#include <map>
#include "functions.hh"
#include "hnco/permutation.hh"
using namespace hnco;
using namespace vp;

static void check(const Entry& e, int lim) {
  auto f = e.make();
  int n = f->get_bv_size();
  auto dom = domain(n, lim);
  for (auto& m : e.maximisers) if (n > lim) dom.push_back(m);
  if (n > lim) for (int i = 0; i <= n; i += (n > 40 ? 7 : 1)) { bit_vector_t x(n, 0); for (int j = 0; j < i; j++) x[j] = 1; dom.push_back(x); for (auto& b : x) b ^= 1; dom.push_back(x); }
  for (auto& x : dom) {
    bit_vector_t c = x;
    double v = f->evaluate(c), w = e.oracle(x);
    mc::state(mc::Hash().adds(e.name).addv(x).add(v));
    MC_CHECK(e.tol == 0 ? same(v, w) : close(v, w, e.tol), e.name + "-value", "f(" << show(x) << ") = " << v << ", definition gives " << w);
    MC_CHECK(c == x, e.name + "-argument", "argument modified");
    double u = f->evaluate_safely(c);
    MC_CHECK(same(u, v), e.name + "-safely", "evaluate_safely(" << show(x) << ") = " << u << " vs " << v);
  }
}
/// Every evaluation is independent of the previous ones: all ordered pairs
static void pairs(const Entry& e) {
  auto f = e.make();
  int n = f->get_bv_size();
  auto dom = domain(n, 5);
  std::ostringstream sink;
  for (auto& x : dom) for (auto& y : dom) {
    f->evaluate(x);
    f->describe(x, sink); sink.str("");
    double v = f->evaluate(y), w = e.oracle(y);
    MC_CHECK(e.tol == 0 ? same(v, w) : close(v, w, e.tol), e.name + "-history", "f(" << show(y) << ") = " << v << " after " << show(x) << ", definition gives " << w);
  }
  f->display(sink);
}
static bool throws(std::function<void()> fn) { try { fn(); } catch (const std::runtime_error&) { return true; } return false; }

static void write_file(const std::string& path, const std::string& s) { std::ofstream o(path); o << s; }

/// Brute force satisfaction
using Cnf = std::vector<std::vector<int>>;
static std::string dimacs(int n, const Cnf& c) {
  std::string s = "p cnf " + mc::str(n) + " " + mc::str(c.size()) + "\n";
  for (auto& k : c) { for (int l : k) s += mc::str(l) + " "; s += "0\n"; }
  return s;
}
static int num_true(const std::vector<int>& c, const bit_vector_t& x) { int t = 0; for (int l : c) t += (l > 0) == (x[std::abs(l) - 1] == 1); return t; }

static void sat_case() {
  std::string path = scratch() + "/c06.cnf";
  int n = mc::thorough() ? 4 : 3;
  // every clause of 1 to 3 literals over n variables, and every pair of clauses
  std::vector<std::vector<int>> clauses;
  std::vector<int> lits; for (int i = 1; i <= n; i++) { lits.push_back(i); lits.push_back(-i); }
  for (int a : lits) { clauses.push_back({ a }); for (int b : lits) { clauses.push_back({ a, b }); for (int c : lits) clauses.push_back({ a, b, c }); } }
  auto run = [&](const Cnf& cnf) {
    write_file(path, dimacs(n, cnf));
    MaxSat f; f.load(path);
    MC_CHECK(f.get_bv_size() == n, "maxsat-size", f.get_bv_size());
    bool three = true; for (auto& c : cnf) if (c.size() != 3) three = false;
    MaxNae3Sat g;
    bool rejected = throws([&]() { g.load(path); });
    MC_CHECK(rejected == !three, "nae-3-literals", dimacs(n, cnf));
    for (auto& x : domain(n, n)) {
      int s = 0, e = 0;
      for (auto& c : cnf) { int t = num_true(c, x); s += t > 0; e += t > 0 && t < int(c.size()); }
      MC_CHECK(f.evaluate(x) == s, "maxsat-value", f.evaluate(x) << " for " << show(x) << " in " << dimacs(n, cnf));
      if (three) MC_CHECK(g.evaluate(x) == e, "nae-value", g.evaluate(x) << " for " << show(x) << " in " << dimacs(n, cnf));
    }
  };
  for (auto& c : clauses) run({ c });
  for (size_t i = 0; i < clauses.size(); i += 5) for (size_t j = i % 3; j < clauses.size(); j += (mc::thorough() ? 3 : 11)) run({ clauses[i], clauses[j], clauses[(i + j) % clauses.size()] });
  unlink(path.c_str());
}
static void qubo_case() {
  std::string path = scratch() + "/c06.qubo";
  int n = 3, m = 6;
  std::vector<std::pair<int, int>> pos;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) pos.push_back({ i, j });
  for (int mask = 0; mask < (1 << m); mask++) for (int v = 0; v < 3; v++) {
    std::vector<double> q(m, 0); int diag = 0, off = 0; std::string body;
    for (int k = 0; k < m; k++) if ((mask >> k) & 1) { q[k] = v == 0 ? k + 1 : v == 1 ? -0.5 * (k + 1) : (k % 2 ? 3 : -7.25); (pos[k].first == pos[k].second ? diag : off)++; body += mc::str(pos[k].first) + " " + mc::str(pos[k].second) + " " + mc::str(q[k]) + "\n"; }
    write_file(path, "c comment\np qubo 0 " + mc::str(n) + " " + mc::str(diag) + " " + mc::str(off) + "\n" + body);
    Qubo f; f.load(path);
    MC_CHECK(f.get_bv_size() == n, "qubo-size", "");
    for (auto& x : domain(n, n)) {
      double s = 0; for (int k = 0; k < m; k++) if (x[pos[k].first] && x[pos[k].second]) s -= q[k];
      MC_CHECK(f.evaluate(x) == s, "qubo-value", f.evaluate(x) << " vs " << s << " for " << show(x) << "\n" << body);
    }
  }
  unlink(path.c_str());
}
static void factorization_case() {
  int hi = mc::thorough() ? 127 : 63;
  for (int num = 2; num <= hi; num++) {
    Factorization f(mc::str(num));
    int s = 0; while ((num >> s) != 0) s++;
    int a = (s + 1) / 2, b = s - 1;
    MC_CHECK(f.get_bv_size() == a + b, "factorization-size", f.get_bv_size());
    bool solved = false;
    for (auto& x : domain(a + b, 16)) {
      long p = 0, q = 0;
      for (int i = 0; i < a; i++) p = 2 * p + x[i];
      for (int i = 0; i < b; i++) q = 2 * q + x[a + i];
      long d = (p * q) ^ num; double r = 0;
      for (int i = 0; i < 40; i++) if ((d >> i) & 1) r += i + 1;
      double v = f.evaluate(x);
      MC_CHECK(v == -r, "factorization-value", num << ": " << v << " vs " << -r << " for " << p << "*" << q);
      if (v == 0) solved = true;
    }
    bool composite = false;
    for (int d = 2; d < num; d++) if (num % d == 0) composite = true;
    if (composite) MC_CHECK(solved, "factorization-reachable", num);
  }
  MC_CHECK(throws([]() { Factorization f("12a"); }), "factorization-reject", "");
}
static double tour(const std::vector<std::vector<double>>& d, const permutation_t& p) {
  double s = 0; for (size_t i = 0; i < p.size(); i++) s += d[p[i]][p[(i + 1) % p.size()]];
  return -s;
}
static void all_perms(int n, const std::function<void(const permutation_t&)>& fn) {
  permutation_t p(n); for (int i = 0; i < n; i++) p[i] = i;
  do fn(p); while (std::next_permutation(p.begin(), p.end()));
}
static void tsp_case() {
  std::string path = scratch() + "/c06.tsp";
  for (int n = 1; n <= 6; n++) {
    Tsp t; int c = 0;
    t.generate(n, [&]() { return 1 + 0.5 * (c++); });
    std::vector<std::vector<double>> d(n, std::vector<double>(n, 0)); c = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) d[i][j] = d[j][i] = 1 + 0.5 * (c++);
    MC_CHECK(t.get_num_elements() == n, "tsp-size", t.get_num_elements());
    all_perms(n, [&](const permutation_t& p) { MC_CHECK(t.evaluate(p) == tour(d, p), "tsp-value", t.evaluate(p) << " vs " << tour(d, p) << " for " << mc::vec(p)); });
  }
  for (int att = 0; att < 2; att++) for (int n = 2; n <= 5; n++) for (int v = 0; v < 4; v++) {
    std::vector<int> xs, ys;
    for (int i = 0; i < n; i++) { xs.push_back(int(mix64(i * 7 + v) % 60) - 20); ys.push_back(int(mix64(i * 13 + v + 100) % 60) - 20); }
    std::string s = "NAME : t\nCOMMENT : c\nTYPE : TSP\nDIMENSION : " + mc::str(n) + "\nEDGE_WEIGHT_TYPE : " + (att ? "ATT" : "EUC_2D") + "\nNODE_COORD_SECTION\n";
    for (int i = 0; i < n; i++) s += mc::str(i + 1) + " " + mc::str(xs[i]) + " " + mc::str(ys[i]) + "\n";
    write_file(path, s + "EOF\n");
    Tsp t; t.load(path);
    MC_CHECK(t.get_num_elements() == n, "tsp-size", "");
    std::vector<std::vector<double>> d(n, std::vector<double>(n, 0));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) {
      double q = double(xs[i] - xs[j]) * (xs[i] - xs[j]) + double(ys[i] - ys[j]) * (ys[i] - ys[j]);
      if (att) { double r = std::sqrt(q / 10); double t0 = std::floor(r + 0.5); d[i][j] = t0 < r ? t0 + 1 : t0; }   // TSPLIB
      else d[i][j] = std::floor(std::sqrt(q) + 0.5);
    }
    all_perms(n, [&](const permutation_t& p) { MC_CHECK(t.evaluate(p) == tour(d, p), att ? "tsp-att" : "tsp-euc2d", t.evaluate(p) << " vs " << tour(d, p) << " for " << mc::vec(p)); });
  }
  unlink(path.c_str());
}
static void sudoku_case() {
  std::string path = scratch() + "/c06.sudoku";
  const std::string solved[9] = { "534678912", "672195348", "198342567", "859761423", "426853791", "713924856", "961537284", "287419635", "345286179" };
  auto score = [](const std::vector<std::vector<int>>& b) {
    int r = 0;
    auto unit = [&](std::function<int(int)> at) { int c[10] = { 0 }; for (int k = 0; k < 9; k++) c[at(k)]++; for (int k = 1; k < 10; k++) r += std::abs(c[k] - 1); };
    for (int i = 0; i < 9; i++) {
      unit([&](int k) { return b[i][k]; });
      unit([&](int k) { return b[k][i]; });
      unit([&](int k) { return b[(i / 3) * 3 + k / 3][(i % 3) * 3 + k % 3]; });
    }
    return -double(r);
  };
  // holes: every pair of cells in a listed set, all 81 assignments; one object reused
  Sudoku s;
  std::vector<int> cells = { 0, 1, 8, 9, 10, 20, 30, 40, 41, 44, 60, 72, 80 };
  for (int a : cells) for (int b : cells) if (a < b) {
    std::string text; std::vector<std::vector<int>> board(9, std::vector<int>(9));
    for (int i = 0; i < 9; i++) { for (int j = 0; j < 9; j++) { bool hole = 9 * i + j == a || 9 * i + j == b; text += hole ? '.' : solved[i][j]; board[i][j] = solved[i][j] - '0'; } text += "\n"; }
    write_file(path, text);
    s.load(path);
    MC_CHECK(s.get_num_variables() == 2, "sudoku-variables", s.get_num_variables());
    for (size_t u = 0; u < 9; u++) for (size_t v = 0; v < 9; v++) {
      board[a / 9][a % 9] = int(u) + 1; board[b / 9][b % 9] = int(v) + 1;
      double got = s.evaluate({ u, v }), want = score(board);
      MC_CHECK(got == want, "sudoku-value", got << " vs " << want << " holes " << a << "," << b << " values " << u + 1 << "," << v + 1);
    }
  }
  std::string empty; for (int i = 0; i < 9; i++) empty += ".........\n";
  write_file(path, empty); s.load(path);
  MC_CHECK(s.get_num_variables() == 81, "sudoku-variables", "");
  for (int k = 0; k < 9; k++) {
    std::vector<size_t> x; std::vector<std::vector<int>> board(9, std::vector<int>(9));
    for (int i = 0; i < 81; i++) { x.push_back(size_t((solved[i / 9][i % 9] - '1' + (i < 9 * k ? k : 0)) % 9)); board[i / 9][i % 9] = int(x.back()) + 1; }
    MC_CHECK(s.evaluate(x) == score(board), "sudoku-value", "board " << k);
  }
  unlink(path.c_str());
}
static void nk_case(int n, int k, int n0 = 0, int k0 = 0) {
  // table values encode the table index, so the value reveals which entry each site uses
  mc::Opt o; o.depth = n0 ? 6 : 20; o.dev = n0 ? 1 : 0;
  NkLandscape before; if (n0) { mc::set_policy(3); before.generate(n0, k0, gen(0)); }
  mc::explore(o, [&]() {
    NkLandscape f = before;
    int T = 1 << (k + 1); long c = 0;
    f.generate(n, k, [&]() { long site = c / T, t = c % T; c++; return double(t) * std::pow(double(T), double(site)); });
    MC_CHECK(f.get_bv_size() == n, "nk-size", f.get_bv_size());
    MC_CHECK(c == long(n) * T, "nk-table", c << " table entries");
    std::vector<std::vector<int>> idx;
    for (auto& x : domain(n, n)) {
      double v = f.evaluate(x) * n;
      long L = std::lround(v);
      MC_CHECK(L >= 0 && std::fabs(v - double(L)) < 1e-6, "nk-mean", v);
      std::vector<int> r; for (int i = 0; i < n; i++) { r.push_back(int(L % T)); L /= T; }
      MC_CHECK(L == 0, "nk-range", v);
      idx.push_back(r);
    }
    mc::Hash h;
    for (int i = 0; i < n; i++) {
      // bits on which the index of site i depends
      std::set<int> dep, vals;
      for (int u = 0; u < (1 << n); u++) { vals.insert(idx[u][i]); h.add(idx[u][i]); for (int j = 0; j < n; j++) if (idx[u][i] != idx[u ^ (1 << j)][i]) dep.insert(j); }
      MC_CHECK(int(dep.size()) == k + 1 && dep.count(i), "nk-neighbors", "site " << i << " depends on " << dep.size() << " bits");
      MC_CHECK(int(vals.size()) == T, "nk-entries", "site " << i << " uses " << vals.size() << " entries");
    }
    mc::state(h);
  });
}

/// The point of given index of the long k-path, by its recursive definition
static bit_vector_t path_point(int q, int k, __int128 i) {
  if (q == 0) return {};
  __int128 l = (__int128(k) << (q - 1)) - k + 1;
  bit_vector_t x;
  if (i < l) { x.assign(k, 0); auto t = path_point(q - 1, k, i); x.insert(x.end(), t.begin(), t.end()); }
  else if (i < l + k - 1) { x.assign(k, 0); for (int j = 0; j < int(i - l) + 1; j++) x[k - 1 - j] = 1; auto t = path_point(q - 1, k, l - 1); x.insert(x.end(), t.begin(), t.end()); }
  else { x.assign(k, 1); auto t = path_point(q - 1, k, 2 * l + k - 2 - i); x.insert(x.end(), t.begin(), t.end()); }
  return x;
}
static void long_path_points(int k) {
  for (int q = 1; (__int128(k) << q) <= (__int128(1) << 53); q++) {
    LongPath f(k * q, k);
    __int128 len = (__int128(k) << q) - k + 1;
    std::set<uint64_t> at;
    for (int d = -3; d <= 3; d++) { for (int e = 0; e <= q; e++) { __int128 i = (__int128(k) << e) - k + 1 + d; if (i >= 0 && i < len) { at.insert(uint64_t(i)); at.insert(uint64_t(len - 1 - i)); } } }
    for (uint64_t s = 0; s < 300; s++) at.insert(uint64_t(__int128(mix64(s)) % len));
    for (uint64_t i : at) {
      bit_vector_t x = path_point(q, k, i);
      double v = f.evaluate(x);
      MC_CHECK(v == double(i + 1), "longpath-point", "n=" << k * q << " k=" << k << ": point " << i << " of the path has value " << v);
      mc::state(mc::Hash().add(k).add(q).add(i));
    }
    // out of the path: a fourth of a bridge over something else than the last point
    if (q > 1) { bit_vector_t x(k * q, 0); x[k - 1] = 1; double v = f.evaluate(x); MC_CHECK(v == -double(k * q), "longpath-outside", "n=" << k * q << " k=" << k << " value " << v); }
  }
}
/// Larger neighborhoods, on listed vectors: the table entries are the ones of distinct bits
static void nk_large(int n, int k) {
  NkLandscape f; mc::Fixed fx(uint64_t(n * 100 + k));
  int T = 1 << (k + 1); long c = 0;
  f.generate(n, k, [&]() { long site = c / T, t = c % T; c++; return site == 0 ? double(t) : 0.0; });
  // site 0 only: its value is the index itself, a sum of distinct powers of two
  bit_vector_t zero(n, 0);
  MC_CHECK(f.evaluate(zero) == 0, "nk-index", "value of the null vector");
  std::vector<long> w; std::set<long> seen;
  for (int j = 0; j < n; j++) { auto x = zero; x[j] = 1; long v = std::lround(f.evaluate(x) * n); w.push_back(v); if (v) { MC_CHECK((v & (v - 1)) == 0 && v < T && seen.insert(v).second, "nk-index", "n=" << n << " k=" << k << ": bit " << j << " has weight " << v); } }
  MC_CHECK(int(seen.size()) == k + 1 && w[0], "nk-index", "n=" << n << " k=" << k << ": site 0 depends on " << seen.size() << " bits");
  for (auto& x : domain(n, 10)) { long s = 0; for (int j = 0; j < n; j++) if (x[j]) s += w[j]; MC_CHECK(std::lround(f.evaluate(x) * n) == s, "nk-index", "n=" << n << " k=" << k << ": " << show(x)); mc::state(mc::Hash().add(n).add(k).addv(x)); }
}
static void long_range_case() {
  for (int n = 1; n <= 7; n++) for (double alpha : { 0.0, 1.0, 1.5, 2.0 }) for (int per = 0; per < 2; per++) {
    WalshExpansion2 f;
    f.generate(9, gen(2), gen(1));   // previous content must not leak
    if (per) f.generate_ising1_long_range_periodic(n, alpha); else f.generate_ising1_long_range(n, alpha);
    MC_CHECK(f.get_bv_size() == n, "long-range-size", "");
    for (auto& x : domain(n, n)) {
      double s = 0;
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { int d = i - j; if (per) d = std::min(d, n - d); s += sgn(x[i]) * sgn(x[j]) * std::pow(double(d), -alpha); }
      MC_CHECK(close(f.evaluate(x), s, 1e-12), "long-range-value", f.evaluate(x) << " vs " << s << " n=" << n << " alpha=" << alpha);
    }
  }
}
static void rejects() {
  for (int n = 1; n <= 70; n++) {
    MC_CHECK(throws([&]() { Hiff f(n); }) == ((n & (n - 1)) != 0), "hiff-reject", n);
    MC_CHECK(throws([&]() { SummationCancellation f(n); }) == (n % 9 != 0), "cancellation-reject", n);
    for (int k = 1; k <= 12; k++) {
      MC_CHECK(throws([&]() { LongPath f(n, k); }) == (n % k != 0 || k < 2), "longpath-reject", n << " " << k);
      MC_CHECK(throws([&]() { Trap f(n, k); }) == (n % k != 0), "trap-reject", n << " " << k);
      MC_CHECK(throws([&]() { FourPeaks f(n, k); }) == (k > n / 2 - 1), "fourpeaks-reject", n << " " << k);
      MC_CHECK(throws([&]() { SixPeaks f(n, k); }) == (k > n / 2 - 1), "sixpeaks-reject", n << " " << k);
    }
    MC_CHECK(throws([&]() { Jump f(n, 0); }) && throws([&]() { DeceptiveJump f(n, 0); }) && !throws([&]() { Jump f(n, 1); }), "jump-reject", n);
  }
}
/// An object generated again (other size, other parameters) is the same as a fresh one
template<class F> static void regenerate(const char *name, std::function<void(F&, int, int)> g) {
  for (int n1 = 1; n1 <= 5; n1++) for (int n2 = 1; n2 <= 5; n2++) for (int v = 0; v < NUM_WT; v++) {
    F a, b; g(a, n1, (v + 1) % NUM_WT); a.evaluate(bit_vector_t(n1, 1)); g(a, n2, v); g(b, n2, v);
    MC_CHECK(a.get_bv_size() == n2, std::string(name) + "-regenerate-size", a.get_bv_size());
    for (auto& x : domain(n2, n2)) MC_CHECK(same(a.evaluate(x), b.evaluate(x)), std::string(name) + "-regenerate", n1 << " then " << n2 << ": " << a.evaluate(x) << " vs " << b.evaluate(x));
  }
}

void mc_register() {
  int lim = mc::thorough() ? 16 : 12;
  for (int n = 1; n <= lim; n++) {
    mc::add("theory-" + mc::str(n), [n, lim]() { for (auto& e : theory(n)) check(e, lim); });
    if (n <= (mc::thorough() ? 14 : 10)) for (int v = 0; v < NUM_WT; v++) mc::add("weighted-" + mc::str(n) + "-" + mc::str(v), [n, v, lim]() { for (auto& e : weighted(n, v)) check(e, lim); });
    if (n <= 5) mc::add("history-" + mc::str(n), [n]() { for (auto& e : theory(n)) pairs(e); for (int v = 0; v < NUM_WT; v++) for (auto& e : weighted(n, v)) pairs(e); });
  }
  mc::add("theory-18", [lim]() { for (auto& e : theory(18)) check(e, e.name.find("Cancellation") != std::string::npos ? 18 : lim); });
  for (int n : { 16, 20, 27, 31, 32, 33, 36, 63, 64, 65, 100, 128, 130 }) {
    mc::add("theory-listed-" + mc::str(n), [n]() { for (auto& e : theory(n)) check(e, 10); for (auto& e : theory(n)) pairs(e); });
    mc::add("weighted-listed-" + mc::str(n), [n]() { for (int v : { 0, 2, 6 }) for (auto& e : weighted(n, v)) check(e, 10); });
  }
  for (int n : { 257, 300, 512, 700 })
    mc::add("theory-large-" + mc::str(n), [n]() { for (auto& e : theory(n)) check(e, 10); });
  mc::add("sat", sat_case);
  mc::add("qubo", qubo_case);
  mc::add("factorization", factorization_case);
  mc::add("tsp", tsp_case);
  mc::add("sudoku", sudoku_case);
  for (int n = 2; n <= 5; n++) for (int k = 1; k < n && k <= (n < 5 || mc::thorough() ? 3 : 2); k++) mc::add("nk-" + mc::str(n) + "-" + mc::str(k), [n, k]() { nk_case(n, k); });
  mc::add("long-range", long_range_case);
  for (int k = 2; k <= 12; k++) mc::add("long-path-points-" + mc::str(k), [k]() { long_path_points(k); });
  for (int n : { 9, 12, 20, 65, 130 }) for (int k : { 7, 8, 9, 11 }) if (k < n) mc::add("nk-large-" + mc::str(n) + "-" + mc::str(k), [n, k]() { nk_large(n, k); });
  for (int n : { 64, 129, 257, 300 }) mc::add("long-range-large-" + mc::str(n), [n]() {
    for (double alpha : { 1.0, 2.0 }) for (int per = 0; per < 2; per++) {
      WalshExpansion2 f;
      if (per) f.generate_ising1_long_range_periodic(n, alpha); else f.generate_ising1_long_range(n, alpha);
      auto xs = domain(n, 4); xs.resize(std::min<size_t>(xs.size(), 8));
      for (auto& x : xs) {
        double s = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { int d = i - j; if (per) d = std::min(d, n - d); s += sgn(x[i]) * sgn(x[j]) * std::pow(double(d), -alpha); }
        MC_CHECK(close(f.evaluate(x), s, 1e-9), "long-range-value", f.evaluate(x) << " vs " << s << " n=" << n << " alpha=" << alpha << " periodic " << per);
      }
    }
  });
  mc::add("rejects", rejects);
  mc::add("regenerate-linear", []() { regenerate<LinearFunction>("linear", [](auto& f, int n, int v) { f.generate(n, gen(v)); }); });
  mc::add("regenerate-walsh1", []() { regenerate<WalshExpansion1>("walsh1", [](auto& f, int n, int v) { f.generate(n, gen(v)); }); });
  mc::add("regenerate-walsh2", []() { regenerate<WalshExpansion2>("walsh2", [](auto& f, int n, int v) { f.generate(n, gen(v), gen(v, 3)); }); });
  mc::add("regenerate-ising1", []() { regenerate<NearestNeighborIsingModel1>("ising1", [](auto& f, int n, int v) { f.generate(n, gen(v), gen(v, 3)); }); });
  mc::add("regenerate-ising2", []() { regenerate<NearestNeighborIsingModel2>("ising2", [](auto& f, int n, int v) { f.generate(1, n, gen(v), gen(v, 3)); }); });
  mc::add("regenerate-products", []() { regenerate<EqualProducts>("products", [](auto& f, int n, int v) { f.generate(n, gen(v)); }); });
  mc::add("regenerate-partition", []() { regenerate<Partition>("partition", [](auto& f, int n, int v) { auto g = gen(v); f.generate(n, [g]() { return int(std::fabs(g() * 8)) + 1; }); }); });
  mc::add("regenerate-nk", []() {
    for (int n0 = 2; n0 <= 5; n0++) for (int k0 = 1; k0 < n0; k0++) for (int n = 2; n <= 4; n++) for (int k = 1; k < n; k++) nk_case(n, k, n0, k0);
  });
}
