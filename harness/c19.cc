// C19: files are read for what they say or refused, never misread.
#include "instances.hh"
using namespace vp;
using namespace hnco::function;

namespace {

struct Load { bool ok = false; std::string what; };
template<class F> Load load(F& f, const std::string& p) {
  Load r;
  try { f.load(p); r.ok = true; } catch (std::runtime_error& e) { r.what = e.what(); } // anything else is a violation
  return r;
}
std::string quote(const std::string& s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; } return "'" + r + "'"; }
std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> r; std::string l; std::istringstream i(s); while (std::getline(i, l)) r.push_back(l); return r; }
std::vector<std::string> tokens(const std::string& s) { std::vector<std::string> r; std::string t; std::istringstream i(s); while (i >> t) r.push_back(t); return r; }
bool integer(const std::string& t, long& v) {
  if (t.empty() || t.size() > 9) return false;
  size_t i = t[0] == '-' || t[0] == '+'; if (i == t.size()) return false;
  for (size_t k = i; k < t.size(); k++) if (!isdigit((unsigned char)t[k])) return false;
  v = atol(t.c_str()); return true;
}
bool number(const std::string& t, double& v) {
  if (t.empty() || t.find_first_not_of("0123456789.-+e") != std::string::npos) return false;
  char *e; v = strtod(t.c_str(), &e); return *e == 0 && std::isfinite(v);
}

enum Verdict { must_load, must_refuse, may_refuse, unspecified };

/// DIMACS
struct Cnf { int n = 0; std::vector<std::vector<int>> clauses; };
Verdict dimacs(const std::string& s, Cnf& c) {
  bool spec = false, plain = true, loose = false; long n = 0, m = 0; std::vector<int> open; bool has_open = false;
  for (auto& l : lines_of(s)) {
    if (l.empty()) continue;
    auto t = tokens(l);
    if (l[0] == 'c') { if (t[0] != "c") plain = false; continue; }
    if (t.empty()) { plain = false; continue; }            // white line
    if (l[0] == 'p') {
      if (spec) return must_refuse;
      if (t.size() >= 3 && t[0] == "p" && t[1] == "cnf") for (size_t i = 2; i < t.size(); i++) { long z; if (!integer(t[i], z) && isdigit((unsigned char)t[i][0])) return unspecified; }
      if (t.size() < 4 || t[0] != "p" || t[1] != "cnf") return must_refuse;
      if (!integer(t[2], n) || !integer(t[3], m)) { loose = true; char *e; n = strtol(t[2].c_str(), &e, 10); m = strtol(t[3].c_str(), &e, 10); }
      if (t.size() > 4) plain = false;
      if (t[2][0] == '+' || t[3][0] == '+') plain = false;
      if (n <= 0 || m <= 0) return loose ? unspecified : must_refuse;
      spec = true; continue;
    }
    if (!spec) return must_refuse;
    if (isspace((unsigned char)l[0])) plain = false;
    bool closed = false;
    for (auto& w : t) {
      long v;
      if (closed) { loose = true; break; }                 // text after the end of the clause
      if (!integer(w, v)) { return loose ? unspecified : (isdigit((unsigned char)w[0]) || ((w[0] == '-' || w[0] == '+') && w.size() > 1 && isdigit((unsigned char)w[1])) ? unspecified : must_refuse); }
      if (w[0] == '+' || w == "-0") plain = false;
      if (std::labs(v) > n) return loose ? unspecified : must_refuse;
      if (v == 0) { c.clauses.push_back(open); open.clear(); has_open = false; closed = true; if (c.clauses.back().empty()) plain = false; }
      else { open.push_back(int(v)); has_open = true; }
    }
    if (!closed) plain = false;                            // clause over several lines
  }
  if (!spec) return must_refuse;
  if (loose) return unspecified;
  if (has_open) return must_refuse;
  if (long(c.clauses.size()) != m) return must_refuse;
  c.n = int(n);
  return plain ? must_load : may_refuse;
}
void try_dimacs(const std::string& s, const std::string& p) {
  spill(p, s);
  Cnf c; Verdict v = dimacs(s, c);
  for (int used = 0; used < 2; used++) {
    MaxSat f; if (used) { mc::Fixed fx(3); f.random(5, 2, 4); }
    Load l = load(f, p);
    if (v == must_load) MC_CHECK(l.ok, "dimacs", "refused: " << quote(s) << ": " << l.what);
    if (v == must_refuse) MC_CHECK(!l.ok, "dimacs", "accepted: " << quote(s));
    mc::step();
    if (l.ok) {
      int n = f.get_bv_size();
      if (v != unspecified) MC_CHECK(n == c.n, "dimacs", n << " variables read from " << quote(s));
      for (auto& x : domain(n, 4)) {
        double t = 0;
        for (auto& k : c.clauses) { bool sat = false; for (int q : k) if (std::abs(q) <= n) sat |= x[std::abs(q) - 1] == (q > 0); t += sat; }
        double got = f.evaluate(x);
        if (v != unspecified) MC_CHECK(got == t, "dimacs", "value " << got << " of " << show(x) << ", expected " << t << " from " << quote(s));
      }
    }
    mc::state(mc::Hash().adds(s).add(int(l.ok)));
  }
}

/// qubo
struct Q { int n = 0; std::map<std::pair<int, int>, double> q; };
Verdict qubo(const std::string& s, Q& r) {
  bool spec = false, plain = true, loose = false; long z, d = 0, o = 0, n = 0, cd = 0, co = 0;
  for (auto& l : lines_of(s)) {
    if (l.empty()) continue;
    auto t = tokens(l);
    if (l[0] == 'c') { if (t[0] != "c") plain = false; continue; }
    if (t.empty()) { plain = false; continue; }
    if (l[0] == 'p') {
      if (spec) return must_refuse;
      if (t.size() >= 3 && t[0] == "p" && t[1] == "qubo") for (size_t i = 2; i < t.size(); i++) if (!integer(t[i], z) && isdigit((unsigned char)t[i][0])) return unspecified;
      if (t.size() < 6 || t[0] != "p" || t[1] != "qubo") return must_refuse;
      if (!integer(t[2], z) || !integer(t[3], n) || !integer(t[4], d) || !integer(t[5], o)) return isdigit((unsigned char)t[2][0]) && isdigit((unsigned char)t[3][0]) && isdigit((unsigned char)t[4][0]) && isdigit((unsigned char)t[5][0]) ? unspecified : must_refuse;
      if (z != 0 || n <= 0 || d < 0 || o < 0) return must_refuse;
      if (t.size() > 6) plain = false;
      spec = true; continue;
    }
    if (!spec) return must_refuse;
    if (isspace((unsigned char)l[0])) plain = false;
    long i, j; double v;
    // The text between two tokens may be split by formatted extraction, as in "3+3"
    if (t.size() < 3) for (auto& w : t) if (isdigit((unsigned char)w[0]) && !integer(w, z)) return unspecified;
    if (t.size() < 3) return loose ? unspecified : t.size() == 2 && t[1].find_first_of(".e") != std::string::npos ? unspecified : must_refuse;
    if (!integer(t[0], i) || !integer(t[1], j)) return unspecified;
    if (i < 0 || j < 0 || i >= n || j >= n) return loose ? unspecified : must_refuse;
    if (i > j) return loose ? unspecified : must_refuse;
    if (!number(t[2], v)) return isdigit((unsigned char)t[2][0]) || t[2].size() > 1 ? unspecified : loose ? unspecified : must_refuse;
    if (t.size() > 3) plain = false;
    if (v == 0) plain = false;
    if (r.q.count({ int(i), int(j) })) loose = true;
    r.q[{ int(i), int(j) }] = -v;
    (i == j ? cd : co)++;
  }
  if (!spec) return must_refuse;
  if (loose) return unspecified;
  if (cd != d || co != o) return must_refuse;
  r.n = int(n);
  return plain ? must_load : may_refuse;
}
void try_qubo(const std::string& s, const std::string& p) {
  spill(p, s);
  Q q; Verdict v = qubo(s, q);
  for (int used = 0; used < 2; used++) {
    Qubo f;
    if (used) { std::string o = p + "o"; spill(o, "p qubo 0 3 2 1\n0 0 5\n2 2 -7\n0 1 9\n"); f.load(o); unlink(o.c_str()); }
    Load l = load(f, p);
    if (v == must_load) MC_CHECK(l.ok, "qubo", "refused: " << quote(s) << ": " << l.what);
    if (v == must_refuse) MC_CHECK(!l.ok, "qubo", "accepted: " << quote(s));
    mc::step();
    if (l.ok) {
      int n = f.get_bv_size();
      if (v != unspecified) MC_CHECK(n == q.n, "qubo", "dimension " << n << " read from " << quote(s));
      if (n <= 4) for (auto& x : domain(n, 4)) {
        double t = 0; for (auto& e : q.q) if (e.first.second < n && x[e.first.first] && x[e.first.second]) t += e.second;
        double got = f.evaluate(x);
        if (v != unspecified) MC_CHECK(close(got, t, 1e-14), "qubo", "value " << got << " of " << show(x) << ", expected " << t << " from " << quote(s));
      }
    }
    mc::state(mc::Hash().adds(s).add(int(l.ok)));
  }
}

/// Sudoku
void try_sudoku(const std::string& s, const std::string& p, Sudoku *reuse = nullptr) {
  spill(p, s);
  auto ls = lines_of(s);
  bool good = ls.size() >= 9, exact = ls.size() == 9;
  int holes = 0;
  for (size_t i = 0; i < 9 && i < ls.size(); i++) {
    if (ls[i].size() < 9) good = false;
    if (ls[i].size() != 9) exact = false;
    for (size_t j = 0; j < 9 && j < ls[i].size(); j++) { char c = ls[i][j]; if (!(c == '.' || (c >= '1' && c <= '9'))) good = false; holes += c == '.'; }
  }
  Sudoku fresh, &f = reuse ? *reuse : fresh;
  Load l = load(f, p);
  if (good && exact) MC_CHECK(l.ok, "sudoku", "refused: " << quote(s) << ": " << l.what);
  if (!good) MC_CHECK(!l.ok, "sudoku", "accepted: " << quote(s));
  mc::step();
  mc::state(mc::Hash().adds(s));
  if (!l.ok) return;
  MC_CHECK(f.get_num_variables() == holes, "sudoku", f.get_num_variables() << " variables for " << holes << " empty cells in " << quote(s));
  std::vector<size_t> x(holes); for (int i = 0; i < holes; i++) x[i] = size_t(i % 9);
  std::vector<std::vector<int>> b(9, std::vector<int>(9)); int k = 0;
  for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) b[i][j] = ls[i][j] == '.' ? int(x[k++]) + 1 : ls[i][j] - '0';
  int r = 0;
  auto unit = [&](std::function<int(int)> at) { int c[10] = { 0 }; for (int q = 0; q < 9; q++) c[at(q)]++; for (int q = 1; q < 10; q++) r += std::abs(c[q] - 1); };
  for (int i = 0; i < 9; i++) { unit([&](int q) { return b[i][q]; }); unit([&](int q) { return b[q][i]; }); unit([&](int q) { return b[(i / 3) * 3 + q / 3][(i % 3) * 3 + q % 3]; }); }
  double got = f.evaluate(x);
  MC_CHECK(got == -r, "sudoku", "value " << got << " expected " << -r << " from " << quote(s));
}

/// TSPLIB: header lines in any order, coordinates
struct T { int n = 0; int type = -1; std::vector<double> x, y; };
void try_tsp(const std::string& s, const T& want, Verdict v, const std::string& p) {
  spill(p, s);
  for (int used = 0; used < 2; used++) {
    Tsp f;
    if (used) { std::string o = p + "o"; spill(o, "TYPE : TSP\nDIMENSION : 3\nEDGE_WEIGHT_TYPE : ATT\nNODE_COORD_SECTION\n1 0 0\n2 55 5\n3 100 -70\nEOF\n"); f.load(o); unlink(o.c_str()); }
    Load l = load(f, p);
    if (v == must_load) MC_CHECK(l.ok, "tsp", "refused: " << quote(s) << ": " << l.what);
    if (v == must_refuse) MC_CHECK(!l.ok, "tsp", "accepted: " << quote(s));
    mc::step();
    mc::state(mc::Hash().adds(s).add(int(l.ok)));
    if (!l.ok || v == unspecified) continue;
    MC_CHECK(f.get_num_elements() == want.n, "tsp", f.get_num_elements() << " cities read from " << quote(s));
    hnco::permutation_t perm(want.n); for (int i = 0; i < want.n; i++) perm[i] = i;
    do {
      double t = 0;
      for (int i = 0; i < want.n; i++) {
        int a = perm[i], b = perm[(i + 1) % want.n];
        double dx = want.x[a] - want.x[b], dy = want.y[a] - want.y[b], q = dx * dx + dy * dy;
        if (want.type == 0) { double r = std::sqrt(q / 10), u = std::floor(r + 0.5); t += u < r ? u + 1 : u; } else t += std::floor(std::sqrt(q) + 0.5);
      }
      double got = f.evaluate(perm);
      MC_CHECK(got == -t, "tsp", "length " << -got << " expected " << t << " of tour " << mc::vec(perm) << " from " << quote(s));
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
}

void tsp_headers() {
  std::string p = path_of("c19.tsp");
  // all subsets and orders of header lines
  std::vector<std::string> h = { "NAME : foo", "COMMENT : a b c", "TYPE : TSP", "DIMENSION : 3", "EDGE_WEIGHT_TYPE : EUC_2D" };
  std::string coords = "NODE_COORD_SECTION\n1 0 0\n2 3 4\n3 -10 7\nEOF\n";
  std::vector<int> o = { 0, 1, 2, 3, 4 };
  do for (int k = 0; k <= 5; k++) for (int style = 0; style < 3; style++) {
    std::string s; bool dim = false, type = false;
    for (int i = 0; i < k; i++) { std::string l = h[o[i]]; if (style == 1) { auto q = l.find(" :"); l.erase(q, 1); } s += l + (style == 2 ? "\n\n" : "\n"); dim |= o[i] == 3; type |= o[i] == 4; }
    s += coords;
    T w; w.n = 3; w.type = 1; w.x = { 0, 3, -10 }; w.y = { 0, 4, 7 };
    try_tsp(s, w, !dim ? must_refuse : type ? must_load : unspecified, p);
  } while (std::next_permutation(o.begin(), o.end()));
  std::string good = "TYPE : TSP\nDIMENSION : 3\nEDGE_WEIGHT_TYPE : EUC_2D\n";
  T w; w.n = 3; w.type = 1; w.x = { 0, 3, -10 }; w.y = { 0, 4, 7 };
  try_tsp(good + coords, w, must_load, p);
  try_tsp(good + "NODE_COORD_SECTION\n3 -10 7\n1 0 0\n2 3 4\nEOF\n", w, must_load, p);         // any order
  try_tsp(good + "NODE_COORD_SECTION\n1 0 0\n2 3 4\n3 -10 7\n", w, must_load, p);               // no EOF
  try_tsp(good + "NODE_COORD_SECTION\n1 0 0\n2 3 4\n3 -10 7", w, must_load, p);
  try_tsp(good + "NODE_COORD_SECTION\n1 0.0e0 0\n2 3.0 4e0\n3 -1e1 7\nEOF\n", w, must_load, p);
  try_tsp(good, w, must_refuse, p);                                                             // no coordinates
  try_tsp("", w, must_refuse, p);
  try_tsp("\n\n", w, must_refuse, p);
  try_tsp("TYPE : ATSP\n" + good + coords, w, must_refuse, p);
  try_tsp("EDGE_WEIGHT_TYPE : GEO\n" + good + coords, w, must_refuse, p);
  for (const char *d : { "DIMENSION : 0", "DIMENSION : -3", "DIMENSION : x", "DIMENSION :" })
    try_tsp(std::string("TYPE : TSP\nEDGE_WEIGHT_TYPE : EUC_2D\n") + d + "\n" + coords, w, must_refuse, p);
  for (const char *c : { "0 0 0\n2 3 4\n3 -10 7\n", "1 0 0\n2 3 4\n4 -10 7\n", "1 0 0\n2 3 4\n-1 5 6\n3 0 0\n" })
    try_tsp(good + "NODE_COORD_SECTION\n" + c + "EOF\n", w, must_refuse, p);
  for (const char *c : { "1 0 0\n2 3 4\n", "1 0 0\n3 -10 7\n", "", "1 0 0\n2 3 4\n3 -10\n", "1 0 0\n2 3 4\n3\n", "1 0 0\n2 x 4\n3 -10 7\n" })
    try_tsp(good + "NODE_COORD_SECTION\n" + c + "EOF\n", w, must_refuse, p);
  unlink(p.c_str());
}
/// Distances of TSPLIB for every offset of a range
void tsp_distances(int lo, int hi, int att) {
  std::string p = path_of("c19.tsp");
  for (int dx = lo; dx < hi; dx++) {
    // one file with many cities: city 1 at the origin, others at (dx, dy)
    std::vector<int> ys; for (int dy = 0; dy <= dx; dy += mc::thorough() ? 1 : 3) ys.push_back(dy);
    int n = int(ys.size()) + 1;
    std::string s = "TYPE : TSP\nDIMENSION : " + mc::str(n) + "\nEDGE_WEIGHT_TYPE : " + (att ? "ATT" : "EUC_2D") + "\nNODE_COORD_SECTION\n1 0 0\n";
    for (size_t i = 0; i < ys.size(); i++) s += mc::str(i + 2) + " " + mc::str(dx) + " " + mc::str(ys[i]) + "\n";
    spill(p, s + "EOF\n");
    Tsp f; f.load(p);
    // tours of the first three positions: 1 -> i -> 1 by difference is not available, so use the whole tour
    hnco::permutation_t perm(n); for (int i = 0; i < n; i++) perm[i] = i;
    auto d = [&](int a, int b) {
      double x = (a ? dx : 0) - (b ? dx : 0), y = (a ? ys[a - 1] : 0) - (b ? ys[b - 1] : 0), q = x * x + y * y;
      if (att) { double r = std::sqrt(q / 10), u = std::floor(r + 0.5); return u < r ? u + 1 : u; }
      return std::floor(std::sqrt(q) + 0.5);
    };
    for (int i = 1; i < n; i++) {
      // rotate so that 1 lies between i and i+1
      std::rotate(perm.begin() + 1, perm.begin() + 2, perm.end());
      double t = 0; if (n < 400) { for (int k = 0; k < n; k++) t += d(perm[k], perm[(k + 1) % n]); MC_CHECK(f.evaluate(perm) == -t, att ? "att" : "euc_2d", "tour length " << -f.evaluate(perm) << " expected " << t << " with dx = " << dx << ", last dy " << ys[perm[1] - 1]); }
      mc::step();
    }
    mc::state(mc::Hash().add(dx).add(att));
  }
  unlink(p.c_str());
}

/// All sequences of lines
void sequences(const std::vector<std::string>& alphabet, size_t first, int depth, void (*fn)(const std::string&, const std::string&), const std::string& p) {
  std::function<void(const std::string&, int)> rec = [&](const std::string& s, int d) {
    fn(s + "\n", p); fn(s, p);
    if (d == 0) return;
    for (auto& l : alphabet) rec(s + "\n" + l, d - 1);
  };
  rec(alphabet[first], depth - 1);
  unlink(p.c_str());
}
/// All single character edits
void edits(const std::string& s, const std::string& chars, void (*fn)(const std::string&, const std::string&), const std::string& p) {
  for (size_t i = 0; i <= s.size(); i++) {
    fn(s.substr(0, i), p);
    if (i < s.size()) fn(s.substr(0, i) + s.substr(i + 1), p);
    for (char c : chars) { fn(s.substr(0, i) + c + s.substr(i), p); if (i < s.size()) fn(s.substr(0, i) + c + s.substr(i + 1), p); }
  }
  unlink(p.c_str());
}

/// A save which stopped after any number of bytes
void truncated(const Kind& k, int v) {
  std::string p = path_of("c19t");
  auto a = k.make(v);
  a->save(p);
  std::string bytes = slurp(p), whole = a->behaviour();
  for (size_t n = 0; n < bytes.size(); n++) {
    spill(p, bytes.substr(0, n));
    for (int used = 0; used < 2; used++) {
      auto b = used ? k.make((v + 1) % k.variants) : k.fresh();
      bool ok = false;
      try { b->load(p); ok = true; } catch (std::runtime_error&) {}
      if (ok && k.name == "Permutation") {
        auto& m = static_cast<MapObj<hnco::map::Permutation>&>(*b).m;
        int sz = m.get_input_size(); bit_vector_t y(sz);
        std::vector<int> hit(sz); for (int i = 0; i < sz; i++) { bit_vector_t x(sz, 0); x[i] = 1; m.map(x, y); MC_CHECK(weight(y) == 1, "truncated", "not a permutation"); }
      }
      std::string got = ok ? b->behaviour() : "";
      // nothing but white space or the digits of the last number may be missing
      if (ok && n + 25 < bytes.size()) mc::fail("truncated", k.name + ": " + mc::str(n) + " of " + mc::str(bytes.size()) + " bytes are accepted");
      mc::step();
      mc::state(mc::Hash().adds(k.name).add(v).add(uint64_t(n)).adds(got));
    }
  }
  unlink(p.c_str());
}
/// Wrong kinds of files
void wrong(const Kind& k) {
  std::string p = path_of("c19w");
  std::vector<std::string> contents = { "", "\n", " ", "garbage", std::string("\0\1\2", 3), "22 serialization::archive", "0", "1", "\n\n\n\n\n\n\n\n\n\n\n" };
  for (auto& j : kinds()) if (j.name != k.name) { auto a = j.make(0); a->save(p); std::string s = slurp(p); if (k.name == "Sudoku" || k.name == "MaxSat" || j.name == "Sudoku" || j.name == "MaxSat") contents.push_back(s); }
  for (auto& c : contents) {
    spill(p, c);
    auto b = k.fresh();
    bool ok = false;
    try { b->load(p); ok = true; } catch (std::runtime_error&) {}
    MC_CHECK(!ok, "wrong", k.name << " loads " << quote(c.substr(0, 60)));
  }
  unlink(p.c_str());
  auto b = k.fresh(); bool ok = false;
  try { b->load(scratch()); ok = true; } catch (std::runtime_error&) {}
  MC_CHECK(!ok, "wrong", k.name << " loads a directory");
}
void wrong_others() {
  std::string p = path_of("c19w");
  for (std::string c : { "", "\n", "garbage" }) {
    spill(p, c);
    { Qubo f; MC_CHECK(!load(f, p).ok, "wrong", "Qubo loads " << quote(c)); }
    { Tsp f; MC_CHECK(!load(f, p).ok, "wrong", "Tsp loads " << quote(c)); }
    { MaxNae3Sat f; MC_CHECK(!load(f, p).ok, "wrong", "MaxNae3Sat loads " << quote(c)); }
    { Factorization f; MC_CHECK(!load(f, p).ok, "wrong", "Factorization loads " << quote(c)); }
  }
  unlink(p.c_str());
  for (const std::string& d : { scratch(), scratch() + "/missing" }) {
    { Qubo f; MC_CHECK(!load(f, d).ok, "wrong", "Qubo loads " << d); }
    { Tsp f; MC_CHECK(!load(f, d).ok, "wrong", "Tsp loads " << d); }
    { MaxNae3Sat f; MC_CHECK(!load(f, d).ok, "wrong", "MaxNae3Sat loads " << d); }
    { Factorization f; MC_CHECK(!load(f, d).ok, "wrong", "Factorization loads " << d); }
  }
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  const std::vector<std::string> cnf = { "p cnf 2 1", "p cnf 3 2", "p cnf 2 0", "p cnf 0 1", "p cnf 2", "p sat 2 1", "c p cnf 9 9", "c", "", " ", "1 0", "-2 1 0", "1 -3 0", "0", "1", "1 x 0", "\t-1\t2 0 ", "1 0 2 0", "%" };
  for (size_t i = 0; i < cnf.size(); i++) mc::add("dimacs lines " + mc::str(i), [=]() { sequences(cnf, i, th ? 5 : 4, try_dimacs, path_of("c19.cnf")); });
  for (std::string s : { "c hello\np cnf 3 3\n1 -2 0\n3 0\n-1 2 -3 0\n", "p cnf 12 1\n-12 10 0\n" }) mc::add("dimacs edits " + mc::str(s.size()), [=]() { edits(s, "0123-+ \n\tpcx.%", try_dimacs, path_of("c19.cnf")); });
  const std::vector<std::string> qb = { "p qubo 0 2 1 1", "p qubo 0 3 0 2", "p qubo 0 2 0 0", "p qubo 1 2 0 0", "p qubo 0 0 0 0", "p qubo 0 2 1", "p cnf 2 1", "c comment", "", " ", "0 0 1.5", "1 1 -2", "0 1 16777217", "1 2 0.1", "1 0 1", "0 0", "0 1 x", "-1 0 1", "0 0 0" };
  for (size_t i = 0; i < qb.size(); i++) mc::add("qubo lines " + mc::str(i), [=]() { sequences(qb, i, th ? 5 : 4, try_qubo, path_of("c19.qubo")); });
  for (std::string s : { "c hello\np qubo 0 4 2 2\n0 0 1.25\n3 3 -7\n0 3 1e2\n1 2 0.1\n" }) mc::add("qubo edits", [=]() { edits(s, "0123-+ \n\tpce.x", try_qubo, path_of("c19.qubo")); });
  const std::string board = "53..7....\n6..195...\n.98....6.\n8...6...3\n4..8.3..1\n7...2...6\n.6....28.\n...419..5\n....8..79\n";
  auto one = [](const std::string& s, const std::string& p) { try_sudoku(s, p); };
  mc::add("sudoku edits", [=]() { edits(board, "0159.x \n", one, path_of("c19.sudoku")); });
  mc::add("sudoku reuse", [=]() {
    std::string p = path_of("c19.sudoku"); Sudoku f;
    for (int k = 0; k < 82; k++) { std::string s = board; int c = 0; for (auto& ch : s) if (ch != '\n') { if ((c * 37) % 81 < k) ch = '.'; c++; } try_sudoku(s, p, &f); try_sudoku(board, p, &f); try_sudoku(s.substr(0, 30), p, &f); }
    unlink(p.c_str()); });
  mc::add("tsp headers", tsp_headers);
  for (int att = 0; att < 2; att++) for (int lo = 0; lo < (th ? 400 : 300); lo += 50) mc::add("tsp distances " + mc::str(att) + " " + mc::str(lo), [=]() { tsp_distances(lo, lo + 50, att); });
  for (int att = 0; att < 2; att++) for (int lo : { 1000, 2000, 5000, 9990 }) mc::add("tsp distances " + mc::str(att) + " " + mc::str(lo), [=]() { 
    std::string p = path_of("c19.tsp");
    for (int dx = lo; dx < lo + 10; dx++) for (int dy = 0; dy < (th ? 4000 : 1500); dy++) {
      T w; w.n = 2; w.type = att ? 0 : 1; w.x = { 0, double(dx) }; w.y = { 0, double(dy) };
      try_tsp(std::string("TYPE : TSP\nDIMENSION : 2\nEDGE_WEIGHT_TYPE : ") + (att ? "ATT" : "EUC_2D") + "\nNODE_COORD_SECTION\n1 0 0\n2 " + mc::str(dx) + " " + mc::str(dy) + "\n", w, must_load, p);
    }
    unlink(p.c_str()); });
  for (auto& k : kinds()) {
    Kind kk = k;
    for (int v = 0; v < (th ? k.variants : std::min(4, k.variants)); v++) mc::add("truncated " + k.name + " " + mc::str(v), [=]() { truncated(kk, v); });
    mc::add("wrong " + k.name, [=]() { wrong(kk); });
  }
  mc::add("wrong others", wrong_others);
  // large instances
  mc::add("dimacs large", [=]() {
    std::string p = path_of("c19.cnf");
    for (int n : { 20, 70, 150, 300 }) for (int m : { 1, 45, 130, 300 }) for (int k : { 1, 3, 20, 70, 299 }) if (k <= n) {
      std::ostringstream s; s << "c large\np cnf " << n << " " << m << "\n";
      for (int i = 0; i < m; i++) { int a = int(mix64(uint64_t(i * 7 + k)) % uint64_t(n)); for (int j = 0; j < k; j++) s << ((mix64(uint64_t(i * 1000 + j)) % 3) ? "-" : "") << (a + j) % n + 1 << " "; s << "0\n"; }
      try_dimacs(s.str(), p);
      // one clause only is satisfied or not by vectors equal to its negation but one literal
      Cnf c; dimacs(s.str(), c); MaxSat f; spill(p, s.str()); if (!load(f, p).ok) continue;
      for (int i : { 0, m / 2, m - 1 }) for (int j : { 0, k / 2, k - 1 }) {
        bit_vector_t x(size_t(n), 0);
        for (int q = 0; q < k; q++) { int l = c.clauses[size_t(i)][size_t(q)]; x[size_t(std::abs(l) - 1)] = bit_t((l > 0) == (q == j)); }
        double t = 0; for (auto& z : c.clauses) { bool sat = false; for (int q : z) sat |= x[size_t(std::abs(q) - 1)] == (q > 0); t += sat; }
        MC_CHECK(f.evaluate(x) == t, "dimacs", n << " variables, " << m << " clauses of size " << k << ": value " << f.evaluate(x) << " expected " << t);
      }
    }
    unlink(p.c_str());
  });
  mc::add("qubo large", [=]() {
    std::string p = path_of("c19.qubo");
    for (int n : { 20, 65, 130, 300 }) {
      std::ostringstream s; long d = 0, o = 0; std::ostringstream body; Q q;
      for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (mix64(uint64_t(i * 1000 + j)) % 5 == 0) { int v = int(mix64(uint64_t(i * 999 + j)) % 2001) - 1000; if (!v) continue; (i == j ? d : o)++; body << i << " " << j << " " << v << "\n"; q.q[{ i, j }] = -v; }
      s << "p qubo 0 " << n << " " << d << " " << o << "\n" << body.str();
      spill(p, s.str()); Qubo f; auto l = load(f, p);
      MC_CHECK(l.ok && f.get_bv_size() == n, "qubo", "refused or truncated, dimension " << n << ": " << l.what);
      for (auto& x : domain(n, 4)) { double t = 0; for (auto& e : q.q) if (x[size_t(e.first.first)] && x[size_t(e.first.second)]) t += e.second; MC_CHECK(f.evaluate(x) == t, "qubo", "dimension " << n << ": value " << f.evaluate(x) << " expected " << t); }
    }
    unlink(p.c_str());
  });
  mc::add("tsp large", [=]() {
    std::string p = path_of("c19.tsp");
    for (int n : { 12, 101, 130, 300 }) for (int type = 0; type < 2; type++) for (int order = 0; order < 3; order++) {
      std::ostringstream s; s << "NAME : large\nTYPE : TSP\nDIMENSION : " << n << "\nEDGE_WEIGHT_TYPE : " << (type ? "EUC_2D" : "ATT") << "\nNODE_COORD_SECTION\n";
      std::vector<double> X, Y; for (int i = 0; i < n; i++) { X.push_back(double(mix64(uint64_t(i)) % 5000)); Y.push_back(double(mix64(uint64_t(i) + 999) % 5000)); }
      for (int i = 0; i < n; i++) { int c = order == 0 ? i : order == 1 ? n - 1 - i : int((long(i) * 7 + 3) % n); s << c + 1 << " " << X[size_t(c)] << " " << Y[size_t(c)] << "\n"; }
      s << "EOF\n"; if (n % 7 == 0 && order == 2) continue;
      spill(p, s.str()); Tsp f; auto l = load(f, p);
      MC_CHECK(l.ok && f.get_num_elements() == n, "tsp", "refused or truncated, " << n << " cities: " << l.what);
      for (int k = 0; k < 4; k++) {
        hnco::permutation_t perm(size_t(n), 0); for (int i = 0; i < n; i++) perm[size_t(i)] = k == 1 ? n - 1 - i : i;
        if (k > 1) for (int i = n - 1; i > 0; i--) std::swap(perm[size_t(i)], perm[mix64(uint64_t(i * 5 + k)) % uint64_t(i + 1)]);
        double t = 0;
        for (int i = 0; i < n; i++) { size_t a = size_t(perm[size_t(i)]), b = size_t(perm[size_t((i + 1) % n)]); double dx = X[a] - X[b], dy = Y[a] - Y[b], q = dx * dx + dy * dy; if (type == 0) { double r = std::sqrt(q / 10), u = std::floor(r + 0.5); t += u < r ? u + 1 : u; } else t += std::floor(std::sqrt(q) + 0.5); }
        MC_CHECK(f.evaluate(perm) == -t, "tsp", n << " cities: length " << -f.evaluate(perm) << " expected " << t);
      }
    }
    unlink(p.c_str());
  });
}
