// C27: generated instances and maps have the announced structure, whatever the draws.
#include "proc.hh"
#include "instances.hh"
#include "hnco/functions/collection/all.hh"
#include "hnco/functions/collection/sudoku.hh"
#include <getopt.h>
#include <boost/archive/text_iarchive.hpp>

int ffgen_main(int, char **);   // app/ffgen.cc, compiled with the harness
int mapgen_main(int, char **);  // app/mapgen.cc

using namespace vp;
using namespace hnco::function;
namespace M = hnco::map;
using hnco::random::Generator;

namespace {

// ---------------------------------------------------------------- formulas

typedef std::vector<std::vector<int>> Cnf;

Cnf cnf_of(const std::string& file, int n, int c) {
  std::istringstream in(file);
  std::string w; Cnf r; int nn = -1, cc = -1;
  std::string l;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == 'c') continue;
    std::istringstream s(l);
    if (l[0] == 'p') { s >> w >> w >> nn >> cc; continue; }
    std::vector<int> cl; int x;
    while (s >> x && x) cl.push_back(x);
    r.push_back(cl);
  }
  MC_CHECK(nn == n && cc == c && int(r.size()) == c, "formula size", nn << " variables, " << cc << " clauses announced, " << r.size() << " present; asked " << n << ", " << c);
  return r;
}

void check_cnf(const Cnf& f, int n, int k, const std::string& what) {
  for (auto& cl : f) {
    std::set<int> v;
    for (int l : cl) { MC_CHECK(l != 0 && std::abs(l) <= n, "literal", what << ": " << mc::vec(cl)); v.insert(std::abs(l)); }
    MC_CHECK(int(cl.size()) == k && int(v.size()) == k, "distinct variables", what << ": clause " << mc::vec(cl) << " instead of " << k << " distinct variables");
  }
}
int satisfied(const Cnf& f, const bit_vector_t& x) {
  int r = 0;
  for (auto& cl : f) { bool ok = false; for (int l : cl) ok |= l > 0 ? x[l - 1] == 1 : x[-l - 1] == 0; r += ok; }
  return r;
}
double choose_of(int n, int k) { double c = 1; for (int i = 0; i < k; i++) c = c * (n - i) / (i + 1); return c; }

/// Every threshold i / j a sampling without replacement may use
mc::Opt fractions(int n, int depth = 1 << 20) {
  mc::Opt o; o.depth = depth;
  std::vector<double> t;
  for (int b = 1; b <= n; b++) for (int a = 1; a < b; a++) t.push_back(double(a) / b);
  t.push_back(0.5);
  mc::cells(o, t);
  return o;
}

void formulas(int n, int k, int c) {
  std::string p = path_of("c27cnf");
  std::map<std::vector<int>, double> law;
  std::set<Cnf> seen;
  mc::explore(fractions(n), [&]() {
    MaxSat f;
    { mc::Fixed fx(5); f.random(n + 1, 1, 3); }
    double before = mc::prob();
    f.random(n, k, c);
    double pr = mc::prob() / before;
    f.save(p);
    Cnf g = cnf_of(slurp(p), n, c);
    check_cnf(g, n, k, "MaxSat::random");
    MC_CHECK(f.get_bv_size() == n, "size", f.get_bv_size());
    for (uint64_t u = 0; u < (1u << n); u++) MC_CHECK(f.evaluate(bv(u, n)) == satisfied(g, bv(u, n)), "value", show(bv(u, n)));
    auto sorted = g; for (auto& cl : sorted) std::sort(cl.begin(), cl.end());
    law[sorted[0]] += pr; seen.insert(sorted);
    mc::Hash h; for (auto& cl : sorted) h.addv(cl); mc::state(h);
  });
  double clauses = choose_of(n, k) * std::pow(2.0, k);
  MC_CHECK(double(seen.size()) == std::pow(clauses, c), "support", seen.size() << " formulas of " << std::pow(clauses, c));
  for (auto& l : law) MC_CHECK(std::fabs(l.second - 1 / clauses) < 1e-9, "law of clauses", mc::vec(l.first) << " has probability " << l.second << " instead of 1 / " << clauses);
  unlink(p.c_str());
}

void planted(int n, int k, int c) {
  std::string p = path_of("c27pl");
  for (uint64_t u = 0; u < (1u << n); u++) {
    std::set<Cnf> seen;
    bit_vector_t s = bv(u, n);
    mc::explore(fractions(n), [&]() {
      MaxSat f;
      f.random(s, k, c);
      f.save(p);
      Cnf g = cnf_of(slurp(p), n, c);
      check_cnf(g, n, k, "planted");
      MC_CHECK(satisfied(g, s) == c && f.evaluate(s) == c, "planted solution", show(s) << " satisfies " << satisfied(g, s) << " of " << c << " clauses");
      for (auto& cl : g) std::sort(cl.begin(), cl.end());
      seen.insert(g);
      mc::Hash h; h.addv(s); for (auto& cl : g) h.addv(cl); mc::state(h);
    });
    double want = choose_of(n, k) * (std::pow(2.0, k) - 1);
    MC_CHECK(double(seen.size()) == std::pow(want, c), "planted support", seen.size() << " formulas of " << std::pow(want, c));
  }
  unlink(p.c_str());
}

// ---------------------------------------------------------------- Sudoku

struct Board {
  int b[9][9];
  explicit Board(const std::string& t) {
    std::istringstream in(t); std::string l;
    for (int i = 0; i < 9; i++) { MC_CHECK(bool(std::getline(in, l)) && l.size() >= 9, "board", t); for (int j = 0; j < 9; j++) b[i][j] = l[j] == '.' ? 0 : l[j] - '0'; }
  }
  bool can(int i, int j, int d) const {
    for (int k = 0; k < 9; k++) if (b[i][k] == d || b[k][j] == d || b[i / 3 * 3 + k / 3][j / 3 * 3 + k % 3] == d) return false;
    return true;
  }
  bool coherent() {
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) if (b[i][j]) { int d = b[i][j]; b[i][j] = 0; bool ok = can(i, j, d); b[i][j] = d; if (!ok || d < 0 || d > 9) return false; }
    return true;
  }
  bool solve() {
    int bi = -1, bj = -1, best = 10;
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) if (!b[i][j]) { int c = 0; for (int d = 1; d < 10; d++) c += can(i, j, d); if (c < best) best = c, bi = i, bj = j; }
    if (bi < 0) return true;
    for (int d = 1; d < 10; d++) if (can(bi, bj, d)) { b[bi][bj] = d; if (solve()) return true; b[bi][bj] = 0; }
    return false;
  }
};

void sudoku(int c, int used) {
  std::string p = path_of("c27su");
  std::set<std::string> holes;
  mc::explore(mc::bounds(used || c > 6 ? 1 : 3, mc::thorough() ? 2 : 1, used || c > 6 ? 1 : 2), [&]() {
    Sudoku s;
    if (used) { mc::Fixed fx(uint64_t(used)); s.random(used); if (used % 2) { s.save(p); s.load(p); } }
    s.random(c);
    s.save(p);
    std::string t = slurp(p);
    Board b(t);
    int empty = 0; std::vector<std::pair<int, int>> cells;
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) if (!b.b[i][j]) { empty++; cells.push_back({ i, j }); }
    MC_CHECK(empty == c, "empty cells", empty << " instead of " << c << "\n" << t);
    MC_CHECK(b.coherent(), "coherent", t);
    MC_CHECK(b.solve(), "solvable", t);
    // the object is usable at once
    MC_CHECK(s.get_num_variables() == c, "variables", s.get_num_variables() << " instead of " << c);
    std::vector<size_t> x, y(size_t(c), 0);
    for (auto& q : cells) x.push_back(size_t(b.b[q.first][q.second] - 1));
    MC_CHECK(s.evaluate(x) == 0, "solution", "a solution has value " << s.evaluate(x) << "\n" << t);
    Sudoku r; r.load(p);
    double a = s.evaluate(y), d = r.evaluate(y);
    MC_CHECK(a == d, "same as reloaded", a << " and " << d);
    std::ostringstream sa, sd; s.display(sa); s.describe(x, sa); r.display(sd); r.describe(x, sd);
    MC_CHECK(sa.str() == sd.str(), "same as reloaded", sa.str() << " and " << sd.str());
    mc::state(mc::Hash().adds(t));
  });
  unlink(p.c_str());
}

// ---------------------------------------------------------------- random() is generate() with the announced law

template<class F> std::string values(F& f) {
  std::ostringstream s; s << f.get_bv_size() << ":";
  for (auto& x : domain(f.get_bv_size(), 6)) s << hex(f.evaluate(x)) << ",";
  return s.str();
}

double normal() { std::normal_distribution<double> d; return d(Generator::engine); }

template<class F>
void announced(const std::string& name, std::function<void(F&, int)> draw, std::function<void(F&, int)> want, int lo, int hi) {
  mc::add("random " + name, [=]() {
    for (int n = lo; n <= hi; n++) for (int used = 0; used < 3; used++) {
      auto o = mc::bounds(3, mc::thorough() ? 2 : 1, 2);
      o.levels = { 0.1, 0.6, 0.9999999999999999 };
      mc::explore(o, [&]() {
        F f, g;
        if (used) { mc::Fixed fx(uint64_t(used)); draw(f, used == 1 ? n + 2 : std::max(lo, n - 1)); }
        int from = mc::points(); double w0 = mc::log_weight();
        draw(f, n);
        int to = mc::points(); double w1 = mc::log_weight();
        bool faithful;
        { mc::Rerun r(from, to); want(g, n); faithful = r.faithful(); }
        std::string a = values(f), b = values(g);
        MC_CHECK(faithful && a == b && std::fabs((w1 - w0) - (mc::log_weight() - w1)) < 1e-9, "random " + name, "size " << n << ", previously used " << used << ": " << a << " instead of " << b << (faithful ? "" : " and other draws"));
        mc::state(mc::Hash().adds(name).adds(a));
      });
    }
  });
}

// ---------------------------------------------------------------- the generators as programs, all draws

int call(int (*f)(int, char **), Words a) {
  a.insert(a.begin(), "tool");
  std::vector<char *> v; for (auto& x : a) v.push_back(&x[0]);
  v.push_back(nullptr);
  std::ostringstream sink;
  auto *o = std::cout.rdbuf(sink.rdbuf()); auto *e = std::cerr.rdbuf(sink.rdbuf());
  optind = 0;
  int r;
  try { r = f(int(a.size()), v.data()); } catch (...) { std::cout.rdbuf(o); std::cerr.rdbuf(e); throw; }
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  return r;
}

/// ffgen with these options behaves as the library generator
template<class F>
void ffgen_case(const std::string& name, int id, Words args, std::function<void(F&)> want, int depth = 3) {
  mc::add("ffgen " + name + line("", args), [=]() {
    std::string p = path_of("c27ff");
    auto o = mc::bounds(depth, mc::thorough() ? 2 : 1, 1);
    o.levels = { 0.1, 0.6, 0.9999999999999999 };
    for (int form = 0; form < 2; form++)
      mc::explore(o, [&]() {
        unlink(p.c_str());
        Words a = { "--function", mc::str(id), "--path", p };
        if (form) a = { "-F" + mc::str(id), "--path=" + p };
        a.insert(a.end(), args.begin(), args.end());
        int from = mc::points(); double w0 = mc::log_weight();
        int rc = call(ffgen_main, a);
        int to = mc::points(); double w1 = mc::log_weight();
        MC_CHECK(rc == 0, "status", name << " ends with " << rc);
        F f, g; f.load(p);
        bool faithful;
        { mc::Rerun r(from, to); want(g); faithful = r.faithful(); }
        std::string x = values(f), y = values(g);
        MC_CHECK(faithful && x == y && std::fabs((w1 - w0) - (mc::log_weight() - w1)) < 1e-9, "ffgen " + name, line("ffgen", a) << ": " << x << " instead of " << y << (faithful ? "" : " and other draws"));
        mc::state(mc::Hash().adds(name).adds(x));
      });
    unlink(p.c_str());
  });
}

Words with(Words a, const Words& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

void ffgen_cases() {
  for (int n : { 1, 2, 5 }) {
    Words s = { "--bv-size", mc::str(n) };
    for (double sd : { 1.0, 0.25 }) {
      Words t = sd == 1 ? s : with(s, { "--stddev", mc::str(sd) });
      auto g = [sd]() { return sd * normal(); };
      ffgen_case<LinearFunction>("linear", 1, t, [=](LinearFunction& f) { f.generate(n, g); });
      ffgen_case<LinearFunction>("linear", 1, with(t, { "--lin-generator", "0" }), [=](LinearFunction& f) { f.generate(n, g); });
      ffgen_case<WalshExpansion1>("walsh1", 161, t, [=](WalshExpansion1& f) { f.generate(n, g); });
      ffgen_case<WalshExpansion2>("walsh2", 162, t, [=](WalshExpansion2& f) { f.generate(n, g, g); });
      for (int k : { 1, 3 }) ffgen_case<WalshExpansion>("walsh", 160, with(t, { "--walsh-num-features", mc::str(k) }), [=](WalshExpansion& f) { f.generate(n, k, g); });
      for (int k = 1; k < n && k < 4; k++) ffgen_case<NkLandscape>("nk", 60, k == 3 ? t : with(t, { "--nk-k", mc::str(k) }), [=](NkLandscape& f) { f.generate(n, k, g); });
      for (int per = 0; per < 2; per++)
        for (int gen = 0; gen < 4; gen++)
          for (int set = 0; set < 2; set++) {
            Words q = with(t, { "--nn1-generator", mc::str(gen) });
            if (per) q.push_back("--periodic-boundary-conditions");
            if (set) q = with(q, { "--coupling-constant", "1.5", "--field-constant", "-0.75" });
            double cc = set ? 1.5 : 1, fc = set ? -0.75 : 1;
            auto cg = [=]() { return gen < 2 ? g() : cc; };
            auto fg = [=]() { return gen % 2 == 0 ? g() : fc; };
            if (n > 1) ffgen_case<NearestNeighborIsingModel1>("ising1", 171, q, [=](NearestNeighborIsingModel1& f) { f.generate(n, cg, fg); f.set_periodic_boundary_conditions(per); });
            if (n < 4) for (int cols : { 2, 3, 1 }) {
              Words r = { "--nn2-num-rows", mc::str(n), "--nn2-num-columns", mc::str(cols), "--nn2-generator", mc::str(gen), "--stddev", mc::str(sd) };
              if (per) r.push_back("--periodic-boundary-conditions");
              if (set) r = with(r, { "--coupling-constant", "1.5", "--field-constant", "-0.75" });
              ffgen_case<NearestNeighborIsingModel2>("ising2", 172, r, [=](NearestNeighborIsingModel2& f) { f.generate(n, cols, cg, fg); f.set_periodic_boundary_conditions(per); });
            }
          }
    }
    for (int set = 0; set < 2; set++) {
      Words q = set ? with(s, { "--lin-initial-weight", "3", "--lin-distance", "0.5", "--lin-ratio", "1.25" }) : s;
      double w = set ? 3 : 1, d = set ? 0.5 : 1, r = set ? 1.25 : 2;
      ffgen_case<LinearFunction>("arithmetic", 1, with(q, { "--lin-generator", "1" }), [=](LinearFunction& f) { double x = w; std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(x), x += d; size_t i = 0; f.generate(n, [v, i]() mutable { return v[i++]; }); });
      ffgen_case<LinearFunction>("geometric", 1, with(q, { "--lin-generator", "2" }), [=](LinearFunction& f) { double x = w; std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(x), x *= r; size_t i = 0; f.generate(n, [v, i]() mutable { return v[i++]; }); });
      if (n > 1) ffgen_case<WalshExpansion2>("long range", 162, with(s, set ? Words{ "--walsh2-generator", "1", "--walsh2-ising-alpha", "1.5" } : Words{ "--walsh2-generator", "1" }), [=](WalshExpansion2& f) { f.generate_ising1_long_range(n, set ? 1.5 : 2); });
      ffgen_case<EqualProducts>("products", 90, set ? with(s, { "--ep-upper-bound", "2.5" }) : s, [=](EqualProducts& f) { double u = set ? 2.5 : 1; f.generate(n, [u]() { std::uniform_real_distribution<double> dd(0, 1); return u * dd(Generator::engine); }); });
      int ub = set ? 7 : 100;
      ffgen_case<Partition>("partition", 91, set ? with(s, { "--part-upper-bound", "7" }) : s, [=](Partition& f) { f.generate(n, [ub]() { std::uniform_int_distribution<int> dd(1, ub); return dd(Generator::engine); }); }, set ? 3 : 2);
    }
  }
  // formulas and boards
  for (int planted = 0; planted < 2; planted++)
    for (int n : { 2, 3, 4 }) for (int k = 1; k <= std::min(n, 3); k++) for (int c : { 1, 3, 100 })
      mc::add("ffgen maxsat" + mc::str(planted) + "-" + mc::str(n) + "-" + mc::str(k) + "-" + mc::str(c), [=]() {
        std::string p = path_of("c27ms");
        Words a = { "--function", "70", "--path", p, "--bv-size", mc::str(n) };
        if (k != 3) a = with(a, { "--ms-num-literals-per-clause", mc::str(k) });
        if (c != 100) a = with(a, { "--ms-num-clauses", mc::str(c) });
        if (planted) a.push_back("--ms-planted-solution");
        bool both[2] = { false, false };
        mc::explore(mc::bounds(c == 100 ? 3 : 8, 1, c == 100 ? 1 : 2), [&]() {
          MC_CHECK(call(ffgen_main, a) == 0, "status", line("ffgen", a));
          Cnf g = cnf_of(slurp(p), n, c);
          check_cnf(g, n, k, line("ffgen", a));
          int best = 0;
          for (uint64_t u = 0; u < (1u << n); u++) best = std::max(best, satisfied(g, bv(u, n)));
          MC_CHECK(!planted || best == c, "planted solution", line("ffgen", a) << " is not satisfiable: " << best << " of " << c);
          MaxSat f; f.load(p);
          MC_CHECK(f.get_bv_size() == n, "size", f.get_bv_size());
          both[best == c] = true;
          mc::Hash h; for (auto& cl : g) h.addv(cl); mc::state(h);
        });
        unlink(p.c_str());
      });
  for (int c : { 1, 2, 10, 40, 81 })
    mc::add("ffgen sudoku " + mc::str(c), [=]() {
      std::string p = path_of("c27sg");
      Words a = { "--function", "190", "--path", p };
      if (c != 10) a = with(a, { "--sudoku-num-empty-cells", mc::str(c) });
      mc::explore(mc::bounds(c < 40 ? 4 : 2, 1, 2), [&]() {
        MC_CHECK(call(ffgen_main, a) == 0, "status", line("ffgen", a));
        std::string t = slurp(p); Board b(t);
        int empty = 0; for (auto& r : b.b) for (int d : r) empty += d == 0;
        MC_CHECK(empty == c && b.coherent() && b.solve(), "board", t);
        mc::state(mc::Hash().adds(t));
      });
      unlink(p.c_str());
    });
}

template<class T> void load_map(T& m, const std::string& p) { std::ifstream s(p); boost::archive::text_iarchive a(s); a >> m; }

template<class Mp> std::string table(Mp& m) {
  std::ostringstream s; s << m.get_input_size() << ">" << m.get_output_size() << ":";
  bit_vector_t y(size_t(m.get_output_size()));
  for (auto& x : domain(m.get_input_size(), 6)) { m.map(x, y); s << show(y) << ","; }
  return s.str();
}
template<class Mp> bool onto(Mp& m) {
  std::set<bit_vector_t> r; bit_vector_t y(size_t(m.get_output_size()));
  for (uint64_t u = 0; u < (uint64_t(1) << m.get_input_size()); u++) { m.map(bv(u, m.get_input_size()), y); r.insert(y); }
  return r.size() == size_t(1) << m.get_output_size();
}

template<class T>
void mapgen_case(const std::string& name, int id, Words args, std::function<void(T&)> want, int in, int out, bool surjective, int depth = 5) {
  mc::add("mapgen " + name + line("", args), [=]() {
    std::string p = path_of("c27mg");
    Words a = with({ "--map", mc::str(id), "--path", p }, args);
    mc::explore(mc::bounds(depth, mc::thorough() ? 2 : 1, 2), [&]() {
      unlink(p.c_str());
      int from = mc::points();
      int rc = call(mapgen_main, a);
      int to = mc::points();
      MC_CHECK(rc == 0, "status", line("mapgen", a) << " ends with " << rc);
      T m, g; load_map(m, p);
      MC_CHECK(m.get_input_size() == in && m.get_output_size() == out, "sizes", line("mapgen", a) << ": " << m.get_input_size() << " to " << m.get_output_size());
      if (surjective) MC_CHECK(onto(m), "surjective", line("mapgen", a) << ": " << table(m));
      bool faithful;
      { mc::Rerun r(from, to); want(g); faithful = r.faithful(); }
      MC_CHECK(faithful && table(m) == table(g), "mapgen " + name, line("mapgen", a) << ": " << table(m) << " instead of " << table(g));
      mc::state(mc::Hash().adds(table(m)));
    });
    unlink(p.c_str());
  });
}

/// The law of a generated map is uniform on the maps of its kind
template<class Map> void uniform(const std::string& name, int draws, size_t count, std::function<void(Map&)> generate) {
  mc::add("law of " + name, [=]() {
    for (int used = 0; used < 2; used++) {
      std::map<std::string, double> d; double total = 0;
      mc::Opt o; o.depth = draws; std::vector<double> th; for (int j = 2; j <= 4; j++) for (int i = 1; i < j; i++) th.push_back(double(i) / j);
      mc::cells(o, th);
      mc::explore(o, [&]() {
        Map m; if (used) { mc::Fixed fx(7); generate(m); }
        generate(m); auto t = table(m); mc::state(mc::Hash().adds(t));
        if (mc::points() > draws) return;
        d[t] += mc::prob(); total += mc::prob();
      });
      if (mc::replaying() || total <= 0) continue;   // no execution ends within the depth
      if (total > 1 - 1e-9) MC_CHECK(d.size() == count, "law of " + name, d.size() << " of " << count << " maps can be drawn");
      for (auto& x : d) MC_CHECK(d.size() == count && std::fabs(x.second / total - 1.0 / double(count)) < 1e-9, "law of " + name, d.size() << " of " << count << " maps, " << x.first << " has probability " << x.second / total);
    }
  });
}
void map_laws() {
  for (int n = 1; n <= 6; n++) uniform<M::Translation>("translation " + mc::str(n), n, size_t(1) << n, [=](M::Translation& m) { m.random(n); });
  size_t f = 1; for (int n = 1; n <= 4; n++) { f *= size_t(n); uniform<M::Permutation>("permutation " + mc::str(n), n, f, [=](M::Permutation& m) { m.random(n); }); }
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) {
    std::string s = mc::str(r) + "x" + mc::str(c);
    if (r * c <= 6) uniform<M::LinearMap>("linear " + s, r * c, size_t(1) << (r * c), [=](M::LinearMap& m) { m.random(r, c, false); });
    if (r * c + r <= 9) uniform<M::AffineMap>("affine " + s, r * c + r, size_t(1) << (r * c + r), [=](M::AffineMap& m) { m.random(r, c, false); });
    if (r <= c && r * c <= 6) {
      size_t k = 1; for (int i = 0; i < r; i++) k *= (size_t(1) << c) - (size_t(1) << i);
      uniform<M::LinearMap>("surjective linear " + s, r * c, k, [=](M::LinearMap& m) { m.random(r, c, true); });
      uniform<M::AffineMap>("surjective affine " + s, r * c + r, k << r, [=](M::AffineMap& m) { m.random(r, c, true); });
    }
  }
}

void mapgen_cases() {
  for (int n : { 1, 2, 3, 5 }) {
    Words s = { "--output-size", mc::str(n) };
    mapgen_case<M::Translation>("translation", 1, s, [=](M::Translation& m) { m.random(n); }, n, n, true);
    mapgen_case<M::Permutation>("permutation", 2, s, [=](M::Permutation& m) { m.random(n); }, n, n, true);
    mc::add("mapgen permutation and translation " + mc::str(n), [=]() {
      std::string p = path_of("c27mc");
      Words a = with({ "--map", "3", "--path", p }, s);
      mc::explore(mc::bounds(6, mc::thorough() ? 2 : 1, 2), [&]() {
        unlink(p.c_str());
        int from = mc::points();
        MC_CHECK(call(mapgen_main, a) == 0, "status", line("mapgen", a));
        int to = mc::points();
        M::Permutation q, qq; M::Translation t, tt;
        { std::ifstream st(p); boost::archive::text_iarchive ar(st); ar >> q >> t; }
        bool faithful; { mc::Rerun r(from, to); qq.random(n); tt.random(n); faithful = r.faithful(); }
        MC_CHECK(faithful && table(q) == table(qq) && table(t) == table(tt), "mapgen composition", line("mapgen", a));
        mc::state(mc::Hash().adds(table(q)).adds(table(t)));
      });
      unlink(p.c_str());
    });
    for (int in : { 1, 2, 4, 6 }) for (int surj = 0; surj <= (in >= n); surj++) {
      Words q = with(s, { "--input-size", mc::str(in) }); if (surj) q.push_back("--surjective");
      mapgen_case<M::LinearMap>("linear", 4, q, [=](M::LinearMap& m) { m.random(n, in, surj); }, in, n, surj, 7);
      mapgen_case<M::AffineMap>("affine", 5, q, [=](M::AffineMap& m) { m.random(n, in, surj); }, in, n, surj, 7);
    }
    if (n > 1) for (int mode = 0; mode < 6; mode++) for (int len : { 0, 1, 4 })
      if (!(n == 2 && (mode == 5 || len > 1)))
      mapgen_case<M::TsAffineMap>("transvections", 6, { "--input-size", mc::str(n), "--output-size", mc::str(n + 2), "--ts-length", mc::str(len), "--ts-sampling-mode", mc::str(mode) }, [=](M::TsAffineMap& m) { m.random(n, len, mode); }, n, n, true);
  }
}

// ---------------------------------------------------------------- the real programs

void programs() {
  struct G { const char *tool; int id; Words args; std::string file; };
  std::vector<G> gs;
  for (int id : { 1, 60, 70, 90, 91, 160, 161, 162, 171, 190 }) gs.push_back({ "ffgen", id, { "--bv-size", "8" }, "function.txt" });
  gs.push_back({ "ffgen", 172, { "--nn2-num-rows", "2", "--nn2-num-columns", "4", "--bv-size", "8" }, "function.txt" });
  gs.push_back({ "ffgen", 70, { "--bv-size", "8", "--ms-planted-solution", "--ms-num-clauses", "20" }, "function.txt" });
  for (int id = 1; id <= 6; id++) gs.push_back({ "mapgen", id, { "--input-size", "8", "--output-size", "8" }, "map.txt" });
  for (auto& g : gs)
    mc::add(std::string("program ") + g.tool + mc::str(g.id) + line("", g.args), [=]() {
      Dir d, e;
      std::string bin = tool(g.tool), what = g.tool[0] == 'f' ? "--function" : "--map";
      auto args = [&](Words w) { return with(with({ what, mc::str(g.id) }, g.args), w); };
      std::set<std::string> contents;
      for (int seed = 0; seed < (mc::thorough() ? 40 : 6); seed++) {
        Ran a = run(bin, args({ "--seed", mc::str(seed) }), d), b = run(bin, args({ "--seed", mc::str(seed) }), e);
        MC_CHECK(a.status == 0 && a == b, "status", line(bin, args({})) << ": " << a.end() << " " << a.err);
        MC_CHECK(d.files() == std::vector<std::string>{ g.file } && d.read(g.file) == e.read(g.file) && !d.read(g.file).empty(), "reproducible", line(bin, args({})) << " seed " << seed << ": two runs wrote different files");
        contents.insert(d.read(g.file));
        // another path, over a longer file
        d.write("other", std::string(300000, '7'));
        Ran c = run(bin, args({ "--seed", mc::str(seed), "--path", "other" }), d);
        MC_CHECK(c.status == 0 && d.read("other") == e.read(g.file), "path", line(bin, args({})) << ": --path other writes something else");
        unlink((d.path + "/other").c_str());
        // hnco accepts it
        Words h = g.tool[0] == 'f' ? Words{ "--function", mc::str(g.id), "--bv-size", "8", "--fn-get-bv-size" } : Words{ "--function", "0", "--bv-size", "8", "--map", mc::str(g.id), "--fn-get-bv-size" };
        Ran r = run(tool("hnco"), h, d);
        MC_CHECK(r.status == 0 && (g.id == 190 || r.out == "8\n"), "accepted", line(tool("hnco"), h) << " after " << line(bin, args({})) << ": " << r.end() << " " << r.out << r.err);
        mc::state(mc::Hash().adds(g.tool).add(g.id).adds(d.read(g.file)));
      }
      MC_CHECK(contents.size() > 1, "seeds", line(bin, args({})) << ": the seed changes nothing");
      // failures
      for (auto& bad : { std::string("/no such directory/file"), d.path }) {
        Ran r = run(bin, args({ "--seed", "1", "--path", bad }), d);
        MC_CHECK(r.status == 1, "failure", line(bin, args({ "--path", bad })) << " ends with " << r.end());
      }
      if (access("/dev/full", W_OK) == 0) { Ran r = run(bin, args({ "--seed", "1", "--path", "/dev/full" }), d); MC_CHECK(r.status == 1, "failure", line(bin, args({})) << " on a full device ends with " << r.end()); }
      run(bin, args({ "--seed", "1" }), e);
      long size = long(e.read(g.file).size());
      for (long room = 0; room < size; room += std::max(1L, size / (mc::thorough() ? 40 : 6))) {
        unlink((d.path + "/" + g.file).c_str());
        Ran r = run(bin, args({ "--seed", "1" }), d, "", room);
        MC_CHECK(r.status == 1, "failure", line(bin, args({})) << " with room for " << room << " of " << size << " bytes ends with " << r.end());
      }
      Ran r = run(bin, with(args({}), { what, "77" }), d);
      MC_CHECK(r.status == 1, "unknown type", line(bin, { what, "77" }) << " ends with " << r.end());
      r = run(bin, with(args({}), { "--no-such-option" }), d);
      MC_CHECK(r.status == 1, "unknown option", r.end());
    });
}

} // namespace

void mc_register() {
  bool T = mc::thorough();
  for (int n = 1; n <= 4 + T; n++) for (int k = 1; k <= n; k++) for (int c = 1; c <= 2; c++)
    if (choose_of(n, k) * std::pow(2, k) <= (c == 1 ? 100 : 13) && (c == 1 || n <= 2 + T)) {
      mc::add("formulas " + mc::str(n) + " " + mc::str(k) + " " + mc::str(c), [=]() { formulas(n, k, c); });
      if ((c == 1 && n + k < 7 + 2 * T) || n < 3) mc::add("planted " + mc::str(n) + " " + mc::str(k) + " " + mc::str(c), [=]() { planted(n, k, c); });
    }
  for (int c : { 1, 2, 3, 5, 17, 40, 64, 80, 81 }) for (int used : { 0, 1, 30 }) mc::add("sudoku " + mc::str(c) + " after " + mc::str(used), [=]() { sudoku(c, used); });
  announced<LinearFunction>("linear", [](auto& f, int n) { f.random(n); }, [](auto& f, int n) { f.generate(n, normal); }, 1, 5);
  announced<WalshExpansion1>("walsh1", [](auto& f, int n) { f.random(n); }, [](auto& f, int n) { f.generate(n, normal); }, 1, 5);
  announced<WalshExpansion2>("walsh2", [](auto& f, int n) { f.random(n); }, [](auto& f, int n) { f.generate(n, normal, normal); }, 1, 4);
  announced<WalshExpansion>("walsh", [](auto& f, int n) { f.random(n, 3); }, [](auto& f, int n) { f.generate(n, 3, normal); }, 1, 4);
  announced<NkLandscape>("nk", [](auto& f, int n) { f.random(n, 1); }, [](auto& f, int n) { f.generate(n, 1, normal); }, 2, 4);
  announced<NkLandscape>("nk2", [](auto& f, int n) { f.random(n, 2); }, [](auto& f, int n) { f.generate(n, 2, normal); }, 3, 4);
  announced<NearestNeighborIsingModel1>("ising1", [](auto& f, int n) { f.random(n); }, [](auto& f, int n) { f.generate(n, normal, normal); }, 2, 5);
  announced<NearestNeighborIsingModel2>("ising2", [](auto& f, int n) { f.random(n, 2); }, [](auto& f, int n) { f.generate(n, 2, normal, normal); }, 1, 3);
  announced<EqualProducts>("products", [](auto& f, int n) { f.random(n); }, [](auto& f, int n) { f.generate(n, []() { std::uniform_real_distribution<double> d(0, 1); return d(Generator::engine); }); }, 1, 5);
  announced<Partition>("partition", [](auto& f, int n) { f.random(n, 5); }, [](auto& f, int n) { f.generate(n, []() { std::uniform_int_distribution<int> d(1, 5); return d(Generator::engine); }); }, 1, 4);
  ffgen_cases();
  mapgen_cases();
  map_laws();
  programs();
}
