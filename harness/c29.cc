// C29: what is printed about an instance, a representation or a solution is true.
// The printed text is read back, and what it says is compared with what the object computes.
#include <map>
#include <fstream>
#include <regex>
#include "functions.hh"
#include "hnco/permutation.hh"
#include "hnco/representations/integer.hh"
#include "hnco/representations/float.hh"
#include "hnco/representations/categorical.hh"
#include "hnco/representations/complex.hh"
#include "hnco/representations/value-set.hh"
#include "hnco/representations/permutation.hh"
using namespace hnco;
using namespace hnco::representation;
using namespace vp;

template<class F> static std::string shown(const F& f) { std::ostringstream s; f.display(s); return s.str(); }
template<class F, class X> static std::string told(F& f, const X& x) { std::ostringstream s; f.describe(x, s); return s.str(); }
static void write_file(const std::string& path, const std::string& s) { std::ofstream o(path); o << s; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (getline(i, l)) r.push_back(l); return r; }
/// All integers in a text, in order
static std::vector<long> integers(const std::string& s) {
  std::vector<long> r;
  for (size_t i = 0; i < s.size();) {
    if (isdigit((unsigned char)s[i])) { size_t j = i; long v = 0; while (j < s.size() && isdigit((unsigned char)s[j])) v = 10 * v + (s[j++] - '0'); r.push_back(i > 0 && s[i - 1] == '-' ? -v : v); i = j; }
    else i++;
  }
  return r;
}
/// The elements between the braces that follow a label
static std::vector<long> braces(const std::string& s, const std::string& label) {
  size_t p = s.find(label); MC_CHECK(p != std::string::npos, "label", "no " << label << " in " << s);
  size_t a = s.find('{', p), b = s.find('}', p); MC_CHECK(a != std::string::npos && b != std::string::npos && a < b, "label", "no set after " << label << " in " << s);
  return integers(s.substr(a, b - a));
}

static void partition(int n) {
  const std::vector<int> pool = { 1, 2, 3, 10, 17 };
  long combos = 1; for (int i = 0; i < n; i++) combos *= long(pool.size());
  for (long k = 0; k < combos; k++) {
    std::vector<long> numbers; long q = k; for (int i = 0; i < n; i++, q /= long(pool.size())) numbers.push_back(pool[q % long(pool.size())]);
    Partition f; int c = 0; f.generate(n, [&]() { return int(numbers[c++]); });
    auto sorted = numbers; std::sort(sorted.begin(), sorted.end());
    auto multiset = [](std::vector<long> v) { std::sort(v.begin(), v.end()); return v; };
    MC_CHECK(multiset(braces(shown(f), "S")) == sorted, "partition-display", mc::vec(numbers) << " displayed as " << shown(f));
    for (auto& x : domain(n, n)) {
      auto t = told(f, x);
      auto S = braces(t, "S = "), A = braces(t, "A = "), B = braces(t, "B = ");
      auto all = A; all.insert(all.end(), B.begin(), B.end());
      MC_CHECK(multiset(S) == sorted && multiset(all) == sorted, "partition-description", mc::vec(numbers) << " with " << show(x) << " described as " << t);
      long a = 0, b = 0; for (long v : A) a += v; for (long v : B) b += v;
      MC_CHECK(f.evaluate(x) == -double(std::labs(a - b)), "partition-description", "value " << f.evaluate(x) << " described as " << t);
      std::vector<long> wa, wb; for (int i = 0; i < n; i++) (x[i] ? wa : wb).push_back(numbers[i]);
      MC_CHECK(multiset(A) == multiset(wa) && multiset(B) == multiset(wb), "partition-description", show(x) << " of " << mc::vec(numbers) << " described as " << t);
      mc::state(mc::Hash().adds(t));
    }
  }
}
static void tsp(int n) {
  Tsp f; int c = 0; f.generate(n, [&]() { return std::pow(2.0, c++); });
  auto v = integers(shown(f)); MC_CHECK(!v.empty() && v[0] == n, "tsp-display", n << " cities displayed as " << shown(f));
  permutation_t p(n); for (int i = 0; i < n; i++) p[i] = i;
  std::vector<std::vector<double>> d(n, std::vector<double>(n, 0)); c = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) d[i][j] = d[j][i] = std::pow(2.0, c++);
  do {
    auto t = told(f, p); auto r = integers(t);
    MC_CHECK(int(r.size()) == n, "tsp-tour", mc::vec(p) << " described as " << t);
    double s = 0; for (int i = 0; i < n; i++) { MC_CHECK(r[i] == long(p[i]) + 1, "tsp-tour", mc::vec(p) << " described as " << t); s -= d[r[i] - 1][r[(i + 1) % n] - 1]; }
    MC_CHECK(f.evaluate(p) == s, "tsp-tour", "length of " << t << " is " << s << ", value " << f.evaluate(p));
    mc::state(mc::Hash().adds(t));
  } while (std::next_permutation(p.begin(), p.end()));
}
static void tsp_loaded() {
  std::string path = scratch() + "/c29.tsp";
  for (int n = 2; n <= 6; n++) for (std::string name : { "abc", "berlin52" }) for (std::string comment : { "two words", "none" }) {
    std::string s = "NAME : " + name + "\nCOMMENT : " + comment + "\nTYPE : TSP\nDIMENSION : " + mc::str(n) + "\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n";
    for (int i = 0; i < n; i++) s += mc::str(i + 1) + " " + mc::str(i * i) + " " + mc::str(3 * i) + "\n";
    write_file(path, s + "EOF\n");
    Tsp f; f.load(path); auto t = shown(f); auto v = integers(lines(t).at(0));
    MC_CHECK(!v.empty() && v[0] == n, "tsp-display", t);
    MC_CHECK(t.find(name) != std::string::npos && t.find(comment) != std::string::npos, "tsp-display", "instance " << name << " (" << comment << ") displayed as " << t);
    mc::state(mc::Hash().adds(t));
  }
  unlink(path.c_str());
}
static std::vector<std::string> board(const std::string& t) {
  std::vector<std::string> r;
  for (auto& l : lines(t)) {
    std::string row; for (char ch : l) if (isdigit((unsigned char)ch) || ch == '.') row += ch;
    if (!row.empty()) r.push_back(row);
  }
  MC_CHECK(r.size() == 9, "sudoku-board", t);
  for (auto& row : r) MC_CHECK(row.size() == 9, "sudoku-board", t);
  return r;
}
static double sudoku_score(const std::vector<std::string>& b) {
  int r = 0;
  auto unit = [&](std::function<char(int)> at) { int c[10] = { 0 }; for (int k = 0; k < 9; k++) c[at(k) - '0']++; for (int k = 1; k < 10; k++) r += std::abs(c[k] - 1); };
  for (int i = 0; i < 9; i++) {
    unit([&](int k) { return b[i][k]; });
    unit([&](int k) { return b[k][i]; });
    unit([&](int k) { return b[(i / 3) * 3 + k / 3][(i % 3) * 3 + k % 3]; });
  }
  return -double(r);
}
static void sudoku(int part, int parts) {
  const std::string solved[9] = { "534678912", "672195348", "198342567", "859761423", "426853791", "713924856", "961537284", "287419635", "345286179" };
  std::string path = scratch() + "/c29." + mc::str(part) + ".sudoku";
  Sudoku f;
  for (int a = 0; a < 81; a++) if (a % parts == part) for (int b = a + 1; b < 81; b += (mc::thorough() ? 1 : 7)) {
    std::vector<std::string> puzzle; std::string text;
    for (int i = 0; i < 9; i++) { std::string row = solved[i]; if (a / 9 == i) row[a % 9] = '.'; if (b / 9 == i) row[b % 9] = '.'; puzzle.push_back(row); text += row + "\n"; }
    write_file(path, text); f.load(path);
    MC_CHECK(board(shown(f)) == puzzle, "sudoku-display", "puzzle\n" << text << "displayed as\n" << shown(f));
    for (size_t u = 0; u < 9; u++) for (size_t v = 0; v < 9; v++) {
      std::vector<size_t> x = { u, v };
      auto want = puzzle; want[a / 9][a % 9] = char('1' + u); want[b / 9][b % 9] = char('1' + v);
      auto t = told(f, x); auto got = board(t);
      MC_CHECK(got == want, "sudoku-description", "holes " << a << " and " << b << " filled with " << u + 1 << " and " << v + 1 << " described as\n" << t);
      MC_CHECK(f.evaluate(x) == sudoku_score(got), "sudoku-description", "value " << f.evaluate(x) << " described as\n" << t);
      auto again = told(f, x); MC_CHECK(again == t, "sudoku-description", "described differently once evaluated");
    }
    MC_CHECK(board(shown(f)) == puzzle, "sudoku-display", "the puzzle has changed after evaluations");
    mc::state(mc::Hash().adds(shown(f)));
  }
  unlink(path.c_str());
}
static void factorization(long num) {
  Factorization f(mc::str(num)); int s = 0; while ((num >> s) != 0) s++;
  int a = (s + 1) / 2, b = s - 1;
  auto d = integers(shown(f)); MC_CHECK(!d.empty() && d[0] == num, "factorization-display", num << " displayed as " << shown(f));
  auto binary = [](const std::string& l) { size_t e = l.find('='); MC_CHECK(e != std::string::npos, "factorization-description", l); std::istringstream i(l.substr(e + 1)); std::string w; i >> w; long v = 0; for (char ch : w) { MC_CHECK(ch == '0' || ch == '1', "factorization-description", l); v = 2 * v + (ch - '0'); } return v; };
  for (auto& x : domain(a + b, 16)) {
    long p = 0, q = 0; for (int i = 0; i < a; i++) p = 2 * p + x[i]; for (int i = 0; i < b; i++) q = 2 * q + x[a + i];
    auto t = told(f, x); auto l = lines(t); MC_CHECK(l.size() == 6, "factorization-description", t);
    auto v = integers(l[0]);
    MC_CHECK((v == std::vector<long>{ p, q, p * q, num }), "factorization-description", show(x) << " (" << p << " and " << q << ") described as " << t);
    MC_CHECK(binary(l[1]) == p && binary(l[2]) == q && binary(l[3]) == p * q && binary(l[4]) == num, "factorization-description", t);
    auto h = integers(l[5]); MC_CHECK(h.size() == 1 && h[0] == __builtin_popcountl((unsigned long)((p * q) ^ num)), "factorization-description", t);
    MC_CHECK((f.evaluate(x) == 0) == (p * q == num), "factorization-description", "value " << f.evaluate(x) << " described as " << t);
    mc::state(mc::Hash().adds(t));
  }
}
static void maxsat(int n, int part, int parts) {
  std::string path = scratch() + "/c29." + mc::str(n) + "." + mc::str(part) + ".cnf";
  std::vector<std::vector<int>> clauses; std::vector<int> lits; for (int i = 1; i <= n; i++) { lits.push_back(i); lits.push_back(-i); }
  for (int a : lits) { clauses.push_back({ a }); for (int b : lits) { clauses.push_back({ a, b }); if (n <= 3) for (int c : lits) clauses.push_back({ a, b, c }); } }
  auto parse = [](const std::string& t) {   // conjunction of disjunctions
    std::vector<std::vector<int>> r; std::string s = t; 
    size_t i = 0; bool open = false, neg = false, after = true;
    while (i < s.size()) {
      if (s[i] == '(') { MC_CHECK(!open && after, "maxsat-display", t); open = true; r.push_back({}); after = true; i++; }
      else if (s[i] == ')') { MC_CHECK(open, "maxsat-display", t); open = false; after = false; i++; }
      else if (s[i] == '^') { MC_CHECK(!open, "maxsat-display", t); after = true; i++; }
      else if (s[i] == 'v') { MC_CHECK(open && !after, "maxsat-display", t); after = true; i++; }
      else if ((unsigned char)s[i] == 0xc2) { neg = true; i += 2; }
      else if (s[i] == 'x') { MC_CHECK(open && after, "maxsat-display", t); i++; int v = 0; size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) v = 10 * v + (s[j++] - '0'); MC_CHECK(j > i, "maxsat-display", t); i = j; r.back().push_back(neg ? -v : v); neg = false; after = false; }
      else { MC_CHECK(isspace((unsigned char)s[i]), "maxsat-display", t); i++; }
    }
    MC_CHECK(!open, "maxsat-display", t);
    return r;
  };
  for (size_t i = size_t(part); i < clauses.size(); i += size_t(parts)) for (size_t j = 0; j <= clauses.size(); j++) {
    std::vector<std::vector<int>> cnf = { clauses[i] }; if (j < clauses.size()) cnf.push_back(clauses[j]);
    if (j % 3 == 1) cnf.push_back(clauses[(i + 2 * j) % clauses.size()]);
    std::string s = "p cnf " + mc::str(n) + " " + mc::str(cnf.size()) + "\n"; for (auto& k : cnf) { for (int l : k) s += mc::str(l) + " "; s += "0\n"; }
    write_file(path, s);
    MaxSat f; f.load(path); auto t = shown(f); auto r = parse(t);
    MC_CHECK(r == cnf, "maxsat-display", s << "displayed as " << t);
    for (auto& x : domain(n, n)) {
      int v = 0; for (auto& k : r) { bool ok = false; for (int l : k) ok = ok || (l > 0) == (x[std::abs(l) - 1] == 1); v += ok; }
      MC_CHECK(f.evaluate(x) == v, "maxsat-display", t << " has " << v << " true clauses for " << show(x) << ", value " << f.evaluate(x));
    }
    mc::state(mc::Hash().adds(t));
  }
  unlink(path.c_str());
}
static void nk(int n, int k) {
  mc::Opt o; o.depth = 20; o.dev = 0;
  mc::explore(o, [&]() {
    NkLandscape f; int T = 1 << (k + 1); long c = 0;
    f.generate(n, k, [&]() { long site = c / T, t = c % T; c++; return double(t) * std::pow(double(T), double(site)); });
    auto t = shown(f); auto l = lines(t);
    auto h = integers(l.at(0)); MC_CHECK((h == std::vector<long>{ n, k }), "nk-display", "N = " << n << " and K = " << k << " displayed as " << t);
    std::map<long, std::set<long>> told;
    for (auto& s : l) { size_t p = s.find("->"); if (p == std::string::npos) continue; auto a = integers(s.substr(0, p)), b = integers(s.substr(p + 2)); MC_CHECK(a.size() == 1 && !told.count(a[0]), "nk-display", t); told[a[0]] = std::set<long>(b.begin(), b.end()); MC_CHECK(told[a[0]].size() == b.size(), "nk-display", t); }
    MC_CHECK(int(told.size()) == n, "nk-display", t);
    std::vector<std::vector<long>> idx;
    for (auto& x : domain(n, n)) { long L = std::lround(f.evaluate(x) * n); std::vector<long> r; for (int i = 0; i < n; i++) { r.push_back(L % T); L /= T; } idx.push_back(r); }
    for (int i = 0; i < n; i++) {
      std::set<long> dep; for (int u = 0; u < (1 << n); u++) for (int j = 0; j < n; j++) if (idx[u][i] != idx[u ^ (1 << j)][i]) dep.insert(j);
      MC_CHECK(told[i] == dep, "nk-display", "site " << i << " depends on " << mc::vec(std::vector<long>(dep.begin(), dep.end())) << ", displayed as " << t);
    }
    mc::state(mc::Hash().adds(t));
  });
}
static void ising() {
  for (int n = 1; n <= 7; n++) for (bool per : { false, true }) {
    NearestNeighborIsingModel1 f; f.generate(n, []() { return 1.0; }, []() { return 0.0; }); f.set_periodic_boundary_conditions(per);
    auto v = integers(shown(f)); MC_CHECK(v.size() >= 2 && v[v.size() - 2] == n && v.back() == int(per), "ising1-display", n << " spins, periodic " << per << " displayed as " << shown(f));
    if (n >= 2) { bit_vector_t x(n, 0); MC_CHECK(f.evaluate(x) == double(n - 1 + v.back()), "ising1-display", f.evaluate(x) << " displayed as " << shown(f)); }
    for (int m = 1; m <= 5; m++) {
      NearestNeighborIsingModel2 g; g.generate(n, m, []() { return 1.0; }, []() { return 0.0; }); g.set_periodic_boundary_conditions(per);
      auto w = integers(shown(g)); size_t z = w.size(); MC_CHECK(z >= 4 && w[z - 4] == n && w[z - 3] == m && w[z - 2] == n * m && w[z - 1] == int(per), "ising2-display", n << " rows of " << m << ", periodic " << per << " displayed as " << shown(g));
      mc::state(mc::Hash().adds(shown(f) + shown(g)));
    }
  }
}
static void walsh(int n) {
  for (int k = 1; k <= 4; k++) {
    long combos = 1; for (int i = 0; i < k; i++) combos <<= n;
    for (long u = 0; u < combos; u++) {
      std::vector<WalshTerm> terms(k); for (int i = 0; i < k; i++) { auto y = bv(uint64_t(u >> (n * i)) & ((1u << n) - 1), n); terms[i].feature.assign(y.begin(), y.end()); terms[i].coefficient = 1 + i; }
      WalshExpansion f; f.set_terms(terms); auto t = shown(f); auto v = integers(t);
      int order = 0; for (auto& w : terms) order = std::max(order, int(std::count(w.feature.begin(), w.feature.end(), true)));
      MC_CHECK((v == std::vector<long>{ k, order }), "walsh-display", k << " terms of order " << order << " displayed as " << t);
      // the order is that of the function: no interaction of more bits, and one of that many
      int got = 0; for (int s = 0; s < (1 << n); s++) { double a = 0; for (int x = 0; x < (1 << n); x++) a += (__builtin_popcount(s & x) % 2 ? -1 : 1) * f.evaluate(bv(uint64_t(x), n)); if (a != 0) got = std::max(got, __builtin_popcount(unsigned(s))); }
      MC_CHECK(got == order, "walsh-display", "order " << got << " displayed as " << t);
      mc::state(mc::Hash().adds(t));
    }
  }
}
static void linear() {
  for (int n = 1; n <= 9; n++) for (int v = 0; v < 3; v++) {
    LinearFunction f; int c = 0; f.generate(n, [&]() { c++; return double(v == 0 ? c : v == 1 ? 100 - 7 * c : -c); });
    auto t = shown(f); auto r = integers(t); int m = std::min(n, 5);
    MC_CHECK(int(r.size()) == m + 1 && r[0] == n, "linear-display", n << " weights displayed as " << t);
    for (int i = 0; i < m; i++) { bit_vector_t x(n, 0); x[i] = 1; MC_CHECK(f.evaluate(x) == double(r[i + 1]), "linear-display", "weight " << i << " is " << f.evaluate(x) << ", displayed as " << t); }
    MC_CHECK((t.find("...") != std::string::npos) == (n > 5), "linear-display", t);
    mc::state(mc::Hash().adds(t));
  }
}

/// Representations
template<class R> static void bits_told(const R& r, const std::string& t) {
  std::smatch m; std::regex e("\\(?([0-9]+) bits\\)$"); MC_CHECK(std::regex_search(t, m, e), "representation-size", t);
  MC_CHECK(std::stol(m[1]) == r.size(), "representation-size", r.size() << " bits displayed as " << t);
}
template<class R> static auto all_values(R& r) {
  std::set<typename R::domain_type> s; for (auto& x : domain(r.size() + 2, 18)) s.insert(r.unpack(x, 1)); return s;
}
static void representations() {
  for (int n = 0; n <= 130; n++) { auto t = bv_domain(bit_vector_t(size_t(n))); auto v = integers(t); MC_CHECK(v.size() == 1 && v[0] == n, "bit-vector-display", n << " bits displayed as " << t); }
  for (int k = 2; k <= 40; k++) {
    IntegerCategoricalRepresentation r(k); auto t = shown(r); bits_told(r, t); auto v = integers(t); MC_CHECK(!v.empty() && v[0] == k && long(all_values(r).size()) == v[0], "categorical-display", t);
    if (k <= 16) { LinearCategoricalRepresentation l(k); auto u = shown(l); auto w = integers(u); MC_CHECK(w.size() == 3 && w[0] == k && long(all_values(l).size()) == k && w[2] == l.size() && (1L << w[1]) == l.size() + 1, "categorical-display", u); }
  }
  for (int n = 2; n <= 6; n++) for (int extra = 1; extra < 4; extra++) {
    PermutationRepresentation r(n, extra); auto t = shown(r); auto v = integers(t);
    MC_CHECK(v.size() == 3 && v[0] == n && v[2] == r.size() && v[0] * v[1] == v[2] && r.get_num_elements() == n, "permutation-display", t);
  }
  for (int lo : { -7, -1, 0, 3, 100 }) for (int len : { 1, 2, 10, 300 }) for (int s = 1; s <= 6; s++) {
    DyadicFloatRepresentation<double> r(lo, lo + len, s); auto t = shown(r); bits_told(r, t);
    size_t a = t.find('['), b = t.find(',', a), c = t.find(')', b); MC_CHECK(a != std::string::npos && b != std::string::npos && c != std::string::npos, "float-display", t);
    double l = std::stod(t.substr(a + 1)), h = std::stod(t.substr(b + 1));
    auto S = all_values(r); MC_CHECK(l == lo && h == lo + len && *S.begin() == l && *S.rbegin() == h - len / std::pow(2.0, s), "float-display", "values from " << *S.begin() << " to " << *S.rbegin() << " displayed as " << t);
    ComplexRepresentation<DyadicFloatRepresentation<double>> z(r, DyadicFloatRepresentation<double>(0.0, 1.0, 2)); auto u = shown(z);
    MC_CHECK(u.find(t) != std::string::npos && u.rfind(shown(DyadicFloatRepresentation<double>(0.0, 1.0, 2))) > u.find(t), "complex-display", u);
  }
  for (int mask = 1; mask < 128; mask++) {
    const int pool[7] = { -30, -4, 0, 1, 5, 9, 77 }; std::vector<int> V; for (int i = 6; i >= 0; i--) if ((mask >> i) & 1) V.push_back(pool[i]);
    if (V.size() < 2) continue;
    ValueSetRepresentation<int> r(V); auto t = shown(r); bits_told(r, t); auto S = all_values(r); auto b = braces(t, "{");
    MC_CHECK(std::vector<long>(S.begin(), S.end()) == b, "value-set-display", "values " << mc::vec(std::vector<int>(S.begin(), S.end())) << " displayed as " << t);
    mc::state(mc::Hash().adds(t));
  }
  for (int lo : { -9, -1, 0, 4 }) for (int hi = lo + 1; hi <= lo + 40; hi++) {
    DyadicIntegerRepresentation<int> r(lo, hi); auto t = shown(r); auto S = all_values(r);
    std::ostringstream w; w << "[" << *S.begin() << ".." << *S.rbegin() << "]"; MC_CHECK(t.find(w.str()) != std::string::npos, "integer-display", w.str() << " displayed as " << t);
  }
}

void mc_register() {
  bool th = mc::thorough();
  for (int n = 1; n <= (th ? 6 : 4); n++) mc::add("partition-" + mc::str(n), [=]() { partition(n); });
  for (int n = 1; n <= (th ? 9 : 7); n++) mc::add("tsp-" + mc::str(n), [=]() { tsp(n); });
  mc::add("tsp-loaded", tsp_loaded);
  for (int p = 0; p < 9; p++) mc::add("sudoku-" + mc::str(p), [=]() { sudoku(p, 9); });
  for (long v = 2; v <= (th ? 255 : 80); v++) mc::add("factorization-" + mc::str(v), [=]() { factorization(v); });
  for (int n = 1; n <= 4; n++) for (int p = 0; p < 4; p++) mc::add("maxsat-" + mc::str(n) + "-" + mc::str(p), [=]() { maxsat(n, p, 4); });
  for (int n = 2; n <= 5; n++) for (int k = 1; k < n && k <= (n < 5 || th ? 3 : 2); k++) mc::add("nk-" + mc::str(n) + "-" + mc::str(k), [=]() { nk(n, k); });
  mc::add("ising", ising);
  for (int n = 1; n <= 3; n++) mc::add("walsh-" + mc::str(n), [=]() { walsh(n); });
  mc::add("linear", linear);
  mc::add("representations", representations);
}
