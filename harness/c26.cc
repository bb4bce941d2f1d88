// C26: hnco and hnco-mo as programs: reproducible, honest, with the documented statuses.
#include "proc.hh"
using namespace vp;

namespace {

std::string H, MO;

Words with(Words a, const Words& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

struct Alg { int id; Words args; bool remembers; };

/// Every algorithm that needs no plugin and draws its numbers from the generator of hnco
std::vector<Alg> algorithms() {
  Words pop = { "--population-size", "6", "--selection-size", "2", "--learning-rate", "0.2" };
  std::vector<Alg> r = {
    { 0, {}, true }, { 10, {}, true }, { 20, {}, false }, { 100, {}, true }, { 100, { "--incremental-evaluation" }, true }, { 150, {}, true }, { 160, {}, true },
    { 200, { "--sa-num-trials", "5", "--sa-num-transitions", "4" }, false }, { 300, {}, true }, { 301, {}, true },
    { 310, { "--ea-mu", "3", "--ea-lambda", "5" }, true }, { 320, { "--ea-mu", "3", "--ea-lambda", "5" }, true }, { 330, { "--ea-lambda", "4" }, true },
    { 340, { "--population-size", "6", "--selection-size", "2", "--learning-rate", "0.2", "--ea-mutation-rate", "0.2" }, true },
    { 400, { "--ea-mu", "6" }, true }, { 450, { "--ea-mu", "3", "--ea-lambda", "3" }, false },
    { 500, pop, true }, { 501, pop, true }, { 600, pop, true }, { 610, with(pop, { "--ram-ts-length", "3" }), true }, { 612, with(pop, { "--ram-ts-length", "3" }), true },
    { 700, { "--learning-rate", "0.2" }, true }, { 800, { "--learning-rate", "0.2" }, true }, { 900, pop, true }, { 901, pop, true },
    { 1000, with(pop, { "--bm-num-gs-steps", "4" }), true }, { 1001, with(pop, { "--bm-num-gs-steps", "4" }), true },
    { 1100, pop, true }, { 1110, { "--population-size", "6" }, true }, { 1200, { "--population-size", "6" }, true }, { 1300, {}, true }
  };
  return r;
}

struct Fn { int id; Words args; bool max; int seeds; };
std::vector<Fn> functions() {
  return { { 0, {}, true, 3 }, { 10, {}, true, 2 }, { 20, {}, true, 1 }, { 30, { "--fn-threshold", "3" }, true, 1 }, { 110, { "--fn-num-traps", "2" }, true, 1 }, { 80, {}, false, 2 }, { 120, {}, true, 1 }, { 5, {}, true, 1 } };
}

/// Value of a number field of the results, NaN if absent
double field(const std::string& json, const std::string& name) {
  auto k = json.find("\"" + name + "\": ");
  if (k == std::string::npos) return std::nan("");
  return strtod(json.c_str() + k + name.size() + 4, nullptr);
}
int flag(const std::string& json, const std::string& name) {
  auto k = json.find("\"" + name + "\": ");
  if (k == std::string::npos) return -1;
  return json.compare(k + name.size() + 4, 4, "true") == 0;
}
bool wellformed(const std::string& j) {
  // { "name": number | true | false, ... }
  size_t i = 0;
  auto sp = [&]() { while (i < j.size() && isspace((unsigned char)j[i])) i++; };
  auto lit = [&](char c) { sp(); if (i < j.size() && j[i] == c) { i++; return true; } return false; };
  if (!lit('{')) return false;
  do {
    if (!lit('"')) return false;
    auto e = j.find('"', i); if (e == std::string::npos) return false;
    i = e + 1;
    if (!lit(':')) return false;
    sp();
    if (!j.compare(i, 4, "true")) i += 4; else if (!j.compare(i, 5, "false")) i += 5;
    else { char *q; strtod(j.c_str() + i, &q); if (q == j.c_str() + i) return false; i = size_t(q - j.c_str()); }
  } while (lit(','));
  if (!lit('}')) return false;
  sp();
  return i == j.size();
}

std::string desc(const Words& a) { return line("hnco", a); }

/// A run that must end by itself, twice the same
Ran twice(const Words& a, const Dir& d) {
  Ran x = run(H, a, d), y = run(H, a, d);
  MC_CHECK(!x.late && x.status >= 0, "end", desc(a) << ": " << x.end() << " " << x.err);
  MC_CHECK(x == y, "reproducible", desc(a) << ": two runs differ: " << x.end() << " " << x.out << x.err << " and " << y.end() << " " << y.out << y.err);
  return x;
}

struct Split { std::string json, solution, rest; };
Split split(const std::string& out) {
  Split s; auto e = out.find("\n}\n");
  MC_CHECK(out.compare(0, 1, "{") == 0 && e != std::string::npos, "results", out);
  s.json = out.substr(0, e + 3);
  std::string t = out.substr(e + 3); auto l = t.find('\n');
  s.solution = t.substr(0, l);
  s.rest = l == std::string::npos ? "" : t.substr(l + 1);
  return s;
}

/// Value given by --load-solution
std::string loaded(const Words& fn, const std::string& bits, const Dir& d) {
  d.write("s.txt", bits + "\n");
  Words a = with(fn, { "--load-solution", "--solution-path", "s.txt", "--print-results" });
  Ran r = run(H, a, d);
  unlink((d.path + "/s.txt").c_str());
  MC_CHECK(r.status == 0, "load solution", desc(a) << " of " << bits << ": " << r.end() << " " << r.err);
  return r.out;
}

bool interrupted(const Ran& r) { return r.err.find("Last evaluation") != std::string::npos; }

void check_results(const Words& a, const Ran& r, const Split& s, const Words& fn, int n, long budget, bool remembers, const Dir& d) {
  MC_CHECK(wellformed(s.json), "results", desc(a) << ": not JSON: " << s.json);
  double value = field(s.json, "value"), ne = field(s.json, "num_evaluations"), total = field(s.json, "total_num_evaluations");
  MC_CHECK(ne >= 1 && ne <= total && (budget <= 0 || total <= double(budget)), "evaluations", desc(a) << ": best at " << ne << ", total " << total << ", budget " << budget);
  MC_CHECK(!interrupted(r) || total == double(budget), "evaluations", desc(a) << ": interrupted after " << total << " evaluations, budget " << budget);
  MC_CHECK(field(s.json, "total_time") == 0 && field(s.json, "evaluation_time") == 0, "time", desc(a) << ": " << s.json);
  MC_CHECK(int(s.solution.size()) == n && s.solution.find_first_not_of("01") == std::string::npos, "solution", desc(a) << ": " << s.solution);
  std::string v = loaded(fn, s.solution, d);
  double x = strtod(v.c_str(), nullptr);
  // before the end of an initial population there may be no solution yet
  if (!interrupted(r) || total >= 10) MC_CHECK(x <= value, "value", desc(a) << ": solution " << s.solution << " has value " << x << ", the reported best is " << value);
  if (flag(s.json, "success") == 1 || (remembers && !interrupted(r))) MC_CHECK(x == value, "value", desc(a) << ": solution " << s.solution << " has value " << x << ", the reported value is " << value);
}

void campaign(const Alg& al, const Fn& fn, int n) {
  Dir d;
  Words f = with({ "--function", mc::str(fn.id), "--bv-size", mc::str(n) }, fn.args);
  double max = 0;
  if (fn.max) { Ran r = run(H, with(f, { "--fn-get-maximum" }), d); MC_CHECK(r.status == 0, "maximum", desc(f)); max = strtod(r.out.c_str(), nullptr); }
  Words out = { "--print-results", "--print-solution" };
  for (int seed = 0; seed < fn.seeds * (mc::thorough() ? 6 : 1); seed++) {
    Words base = with(with(with({ "--algorithm", mc::str(al.id) }, al.args), f), { "--seed", mc::str(seed + 1) });
    std::vector<std::pair<Words, long>> limits = { { { "--budget", "1" }, 1 }, { { "--budget", "2" }, 2 }, { { "--budget", "37" }, 37 }, { { "--budget", "300" }, 300 } };
    if (al.id < 1100) limits.push_back({ { "--budget", "0", "--num-iterations", "4" }, 0 });
    if (al.id < 1100) limits.push_back({ { "--budget", "60", "--num-iterations", "3" }, 60 });
    for (auto& l : limits) {
      if (l.second == 0 && al.id == 200) continue;
      Words a = with(with(base, l.first), out);
      Ran r = twice(a, d);
      MC_CHECK(r.status == 0, "status", desc(a) << ": " << r.end() << " " << r.err);
      Split s = split(r.out);
      check_results(a, r, s, f, n, l.second, al.remembers, d);
      mc::state(mc::Hash().adds(r.out).add(al.id).add(fn.id));
      // several threads give the same results
      Words t = with(a, { "--num-threads", "3" });
      Ran rt = run(H, t, d);
      MC_CHECK(rt.status == 0 && rt.out == r.out, "threads", desc(t) << ": " << rt.end() << " " << rt.out << " instead of " << r.out);
      if (l.second != 37 && l.second != 300) continue;
      // stop on maximum
      Words m = with(a, { "--stop-on-maximum" });
      Ran rm = twice(m, d);
      if (!fn.max) MC_CHECK(rm.status == 1 && rm.out.empty() && !rm.err.empty(), "unknown maximum", desc(m) << ": " << rm.end() << " " << rm.out);
      else {
        Split q = split(rm.out);
        check_results(m, rm, q, f, n, l.second, al.remembers, d);
        double value = field(q.json, "value");
        MC_CHECK(rm.status == 0 || rm.status == 2, "status", desc(m) << ": " << rm.end());
        MC_CHECK((rm.status == 0) == (flag(q.json, "success") == 1) && (rm.status == 0) == (value == max), "stop on maximum", desc(m) << ": " << rm.end() << ", maximum " << max << ", " << q.json);
        if (rm.status == 0) MC_CHECK(field(q.json, "num_evaluations") == field(q.json, "total_num_evaluations"), "stop on maximum", desc(m) << ": evaluates after the maximum: " << q.json);
        // the maximum is met exactly when the run without stopping meets it
        MC_CHECK((field(s.json, "value") == max) == (rm.status == 0), "stop on maximum", desc(m) << ": " << rm.end() << " but the same run without stopping reaches " << field(s.json, "value"));
        MC_CHECK(rm.status != 0 || field(s.json, "num_evaluations") == field(q.json, "num_evaluations"), "stop on maximum", desc(m) << ": " << q.json << " and without stopping " << s.json);
      }
      // targets: met exactly when the run reaches them
      double best = field(s.json, "value");
      for (int k = -1; k <= 1; k++) {
        double tv = best + k * 1.0;
        Words g = with(a, { "--target", mc::str(tv) });
        Ran rg = run(H, g, d);
        Split q = split(rg.out);
        check_results(g, rg, q, f, n, l.second, al.remembers, d);
        double value = field(q.json, "value");
        MC_CHECK(rg.status == 0 || rg.status == 3, "status", desc(g) << ": " << rg.end());
        MC_CHECK((rg.status == 0) == (flag(q.json, "success") == 1) && (rg.status == 0) == (value >= tv) && (rg.status == 0) == (k <= 0), "target", desc(g) << ": " << rg.end() << ", the run without target reaches " << best << ": " << q.json);
      }
      // restart spends the whole budget and is at least as good
      Words e = with(a, { "--restart" });
      Ran re = twice(e, d);
      Split q = split(re.out);
      check_results(e, re, q, f, n, l.second, false, d);
      MC_CHECK(re.status == 0 && field(q.json, "total_num_evaluations") == double(l.second) && field(q.json, "value") >= best, "restart", desc(e) << ": " << re.end() << " " << q.json << " without restart " << s.json);
    }
  }
}

/// A random part of the function is the same for all threads and when the solution is loaded again
void shared_map(const Alg& al, int m) {
  Dir d;
  for (int f : { 0, 30 }) for (int seed = 1; seed <= (mc::thorough() ? 8 : 2); seed++) for (auto in : { "10", "12", "8" }) {
    if (m != 4 && m != 5 && std::string(in) != "10") continue;
    Words fn = { "--function", mc::str(f), "--bv-size", "10", "--map", mc::str(m), "--map-random", "--map-input-size", in, "--seed", mc::str(seed) };
    Words a = with(with(with({ "--algorithm", mc::str(al.id) }, al.args), fn), { "--budget", "120", "--print-results", "--print-solution" });
    Ran r = run(H, a, d);
    MC_CHECK(r.status == 0, "status", desc(a) << ": " << r.end() << " " << r.err);
    Split s = split(r.out);
    double x = strtod(loaded(fn, s.solution, d).c_str(), nullptr), value = field(s.json, "value");
    MC_CHECK(interrupted(r) || !al.remembers ? x <= value : x == value, "value", desc(a) << ": solution " << s.solution << " has value " << x << ", the reported value is " << value);
    for (auto t : { "2", "4" }) {
      Words w = with(a, { "--num-threads", t });
      Ran q = run(H, w, d);
      MC_CHECK(q.status == 0 && q.out == r.out, "threads", desc(w) << ": " << q.end() << " " << q.out << " instead of " << r.out);
    }
    mc::state(mc::Hash().adds(r.out).add(al.id).add(m));
  }
}

/// Printed, saved and described results are the same
void saved(const Words& a0) {
  Dir d;
  Words a = with(a0, { "--print-results", "--print-solution", "--print-description" });
  Ran base = twice(a, d);
  MC_CHECK(base.status == 0 && d.files().empty(), "files", desc(a) << ": " << base.end() << " " << base.err);
  Words print[3] = { { "--print-results" }, { "--print-solution" }, { "--print-description" } };
  Words save[3] = { { "--save-results" }, { "--save-solution" }, { "--save-description" } };
  const char *dflt[3] = { "results.json", "solution.txt", "description.txt" };
  const char *opt[3] = { "--results-path", "--solution-path", "--description-path" };
  std::string part[3];
  for (int k = 0; k < 3; k++) {
    Ran r = run(H, with(a0, print[k]), d);
    MC_CHECK(r.status == 0, "print", r.err);
    part[k] = r.out;
  }
  MC_CHECK(base.out == part[0] + part[1] + part[2], "print", desc(a) << ": " << base.out << " instead of " << part[0] << part[1] << part[2]);
  for (int set = 1; set < 8; set++) for (int named = 0; named < 2; named++) for (int over = 0; over < 2; over++) {
    d.clear();
    Words s = a0; std::vector<std::string> want;
    for (int k = 0; k < 3; k++) if (set >> k & 1) {
      s = with(s, save[k]);
      std::string file = named ? "other" + mc::str(k) : dflt[k];
      if (named) s = with(s, { opt[k], file });
      want.push_back(file);
      if (over) d.write(file, std::string(5000, 'z'));
    }
    std::sort(want.begin(), want.end());
    Ran r = run(H, s, d);
    MC_CHECK(r.status == 0 && r.out.empty() && d.files() == want, "save", desc(s) << ": " << r.end() << " " << r.out << r.err);
    for (int k = 0; k < 3; k++) if (set >> k & 1) {
      std::string file = named ? "other" + mc::str(k) : dflt[k];
      MC_CHECK(d.read(file) == part[k], "save", desc(s) << ": " << file << " contains " << d.read(file) << " instead of " << part[k]);
    }
    mc::state(mc::Hash().adds(desc(s)).add(over));
  }
  // what cannot be written is reported
  for (int k = 0; k < 3; k++) {
    Words bad = { "/no such directory/file", d.path };
    if (access("/dev/full", W_OK) == 0 && !part[k].empty()) bad.push_back("/dev/full");
    for (auto& b : bad) {
      Ran r = run(H, with(with(a0, save[k]), { opt[k], b }), d);
      MC_CHECK(r.status == 1, "write failure", desc(with(a0, save[k])) << " to " << b << ": " << r.end());
    }
    for (size_t room = 0; room < part[k].size(); room += std::max<size_t>(1, part[k].size() / 5)) {
      d.clear();
      Ran r = run(H, with(a0, save[k]), d, "", long(room));
      MC_CHECK(r.status == 1, "write failure", desc(with(a0, save[k])) << " with room for " << room << " of " << part[k].size() << " bytes: " << r.end());
    }
  }
  d.clear();
  // the solution saved can be loaded again, with its description
  Words fn; for (size_t i = 0; i < a0.size(); i++) if (a0[i] != "--concrete-solution") fn.push_back(a0[i]);
  bool concrete = fn.size() != a0.size();
  Ran r = run(H, with(fn, { "--save-solution" }), d);
  Ran l = run(H, with(fn, { "--load-solution", "--print-results", "--print-description" }), d);
  MC_CHECK(r.status == 0 && l.status == 0, "load solution", l.err);
  auto nl = l.out.find('\n');
  MC_CHECK(l.out.substr(nl + 1) == part[2], "description", desc(a0) << ": described as " << part[2] << " and, once loaded, as " << l.out.substr(nl + 1));
  if (concrete) {
    Words plain; for (size_t i = 0; i < fn.size(); i++) if (fn[i].compare(0, 5, "--map") == 0) { if (fn[i] != "--map-random" && fn[i] != "--map-surjective") i++; } else plain.push_back(fn[i]);
    std::string c = part[1].substr(0, part[1].find('\n'));
    MC_CHECK(loaded(plain, c, d) == l.out.substr(0, nl + 1), "concrete solution", desc(a0) << ": " << c << " has another value without the map");
  }
}

/// Questions about the function
void information(const Words& f, int n, bool known, const std::string& max, bool inc) {
  Dir d;
  auto ask = [&](const char *q) { Ran r = twice(with(f, { q }), d); return mc::str(r.status) + ":" + r.out; };
  MC_CHECK(ask("--fn-get-bv-size") == "0:" + mc::str(n) + "\n", "size", desc(f) << ask("--fn-get-bv-size"));
  MC_CHECK(ask("--fn-has-known-maximum") == (known ? "0:yes\n" : "0:no\n"), "known maximum", desc(f) << ask("--fn-has-known-maximum"));
  MC_CHECK(ask("--fn-get-maximum") == (known ? "0:" + max + "\n" : "1:"), "maximum", desc(f) << ask("--fn-get-maximum"));
  MC_CHECK(ask("--fn-provides-incremental-evaluation") == (inc ? "0:yes\n" : "0:no\n"), "incremental", desc(f) << ask("--fn-provides-incremental-evaluation"));
  MC_CHECK(ask("--fn-display").compare(0, 2, "0:") == 0, "display", desc(f) << ask("--fn-display"));
  MC_CHECK(ask("--map-display").compare(0, 2, "0:") == 0, "display", desc(f) << ask("--map-display"));
  mc::state(mc::Hash().adds(desc(f)));
}

/// Walsh transform: weight and relative amplitude of every feature, in decreasing order
void walsh(const Words& f, int n) {
  Dir d;
  std::vector<double> v;
  for (uint64_t u = 0; u < (1u << n); u++) v.push_back(strtod(loaded(f, show(bv(u, n)), d).c_str(), nullptr));
  std::vector<std::pair<double, int>> want; double norm = 0;
  for (uint64_t w = 1; w < (1u << n); w++) {
    double c = 0; for (uint64_t u = 0; u < (1u << n); u++) c += (__builtin_popcountll(u & w) & 1 ? -1 : 1) * v[u];
    c = std::fabs(c) / double(1u << n); norm = std::max(norm, c);
    want.push_back({ c, __builtin_popcountll(w) });
  }
  std::vector<std::pair<double, int>> w; for (auto& x : want) if (norm > 0 && x.first / norm > 1e-9) w.push_back({ x.first / norm, x.second });
  Ran r = run(H, with(f, { "--fn-walsh-transform" }), d);
  MC_CHECK(r.status == 0, "walsh", desc(f) << ": " << r.end() << " " << r.err);
  std::istringstream in(r.out); int k; double a, last = 1e9; std::vector<std::pair<double, int>> got;
  while (in >> k >> a) { MC_CHECK(a <= last + 1e-9, "walsh", "not in decreasing order: " << r.out); last = a; got.push_back({ a, k }); }
  MC_CHECK(got.size() == w.size(), "walsh", desc(f) << ": " << got.size() << " terms instead of " << w.size());
  auto key = [](std::vector<std::pair<double, int>> q) { for (auto& p : q) p.first = std::round(p.first * 1e4); std::sort(q.begin(), q.end()); return q; };
  auto ka = key(got), kb = key(w);
  for (size_t i = 0; i < ka.size(); i++) MC_CHECK(ka[i].second == kb[i].second && std::fabs(ka[i].first - kb[i].first) <= 1, "walsh", desc(f) << ": " << r.out);
  mc::state(mc::Hash().adds(r.out));
}

void refused(const Words& a, int status = 1) {
  Dir d;
  Ran r = run(H, a, d);
  MC_CHECK(r.status == status && !r.err.empty() && r.out.find("\"value\"") == std::string::npos, "refusal", desc(a) << ": " << r.end() << " " << r.out << r.err);
  mc::state(mc::Hash().adds(desc(a)));
}

void multiobjective() {
  Dir d;
  struct F { Words args; int n, m; };
  std::vector<F> fs = {
    { { "--function", "520", "--fp-expression", "x^2 :: (x-1)^2", "--fp-representations", "x: double(-1, 2, size = 5)" }, 5, 2 },
    { { "--function", "521", "--fp-expression", "x*y :: x-y :: y*y", "--fp-representations", "x: long(-4, 3); y: long(0, 7)" }, 6, 3 },
    { { "--function", "531", "--fp-expression", "x+y-3 :: x*y-2", "--fp-representations", "x: long(0, 7); y: long(0, 7)" }, 6, 2 },
  };
  for (auto& f : fs) for (int seed = 1; seed <= (mc::thorough() ? 30 : 8); seed++) for (int it : { 1, 4 }) {
    Words a = with(f.args, { "--seed", mc::str(seed), "--ea-mu", "8", "--num-iterations", mc::str(it) });
    auto go = [&](const Words& w) { Ran x = run(MO, with(a, w), d), y = run(MO, with(a, w), d); MC_CHECK(x == y && x.status == 0, "reproducible", line("hnco-mo", with(a, w)) << ": " << x.end() << " " << x.out << x.err << " and " << y.end() << " " << y.out << y.err); return x; };
    Ran p = go({ "--print-pareto-front" });
    std::istringstream in(p.out); std::string l; std::vector<std::vector<double>> front;
    while (std::getline(in, l)) { std::istringstream s(l); std::vector<double> v; double x; while (s >> x) v.push_back(x); MC_CHECK(int(v.size()) == f.m, "front", l); front.push_back(v); }
    MC_CHECK(!front.empty() && front.size() <= 8, "front", p.out);
    for (auto& x : front) for (auto& y : front) { bool le = true, lt = false; for (int i = 0; i < f.m; i++) le &= x[size_t(i)] <= y[size_t(i)], lt |= x[size_t(i)] < y[size_t(i)]; MC_CHECK(!(le && lt), "front", line("hnco-mo", a) << ": " << mc::vec(x) << " dominates " << mc::vec(y)); }
    Ran t = run(MO, with(a, { "--print-pareto-front", "--num-threads", "3" }), d);
    MC_CHECK(t.status == 0 && t.out == p.out, "threads", line("hnco-mo", a) << ": " << t.out << " instead of " << p.out);
    Ran de = go({ "--print-description" }), both = go({ "--print-description", "--print-pareto-front" });
    MC_CHECK(both.out == de.out + p.out, "print", both.out);
    size_t k = 0, c = 0; while ((k = de.out.find("Objectives: ", k)) != std::string::npos) { c++; k++; }
    MC_CHECK(c == front.size(), "description", de.out);
    MC_CHECK(go({ "--fn-get-bv-size" }).out == mc::str(f.n) + "\n" && go({ "--fn-get-output-size" }).out == mc::str(f.m) + "\n", "sizes", line("hnco-mo", a));
    mc::state(mc::Hash().adds(p.out).adds(line("", a)));
  }
  for (auto& a : std::vector<Words>{ { "--function", "77" }, { "--algorithm", "77", "--function", "520", "--fp-expression", "x", "--fp-representations", "x: double(0, 1, size = 3)" }, { "--no-such-option" }, { "--num-threads", "0" } }) {
    Ran r = run(MO, a, d);
    MC_CHECK(r.status == 1 && !r.err.empty(), "refusal", line("hnco-mo", a) << ": " << r.end());
  }
}

/// --print-parameters echoes the parameters and changes nothing else
void parameters() {
  Dir d;
  Ran dflt = run(H, { "--print-default-parameters" }, d);
  MC_CHECK(dflt.status == 0 && !dflt.out.empty(), "default parameters", dflt.end());
  auto parse = [](const std::string& t) { std::map<std::string, std::string> m; std::istringstream in(t); std::string l; while (std::getline(in, l)) if (l.compare(0, 2, "# ") == 0) { auto e = l.find(" = "); if (e == std::string::npos) m[l.substr(2, l.find(' ', 2) - 2)] = ""; else m[l.substr(2, e - 2)] = l.substr(e + 3); } return m; };
  auto dm = parse(dflt.out);
  struct P { const char *name, *value; bool str; };
  std::vector<P> ps = { { "bv_size", "7", 0 }, { "budget", "55", 0 }, { "algorithm", "300", 0 }, { "function", "10", 0 }, { "num_iterations", "9", 0 }, { "ea_mu", "4", 0 }, { "learning_rate", "0.125", 0 }, { "path", "zz", 1 }, { "map_path", "a b", 1 }, { "radius", "3", 0 }, { "seed", "4", 0 }, { "target", "3", 0 }, { "ea_mutation_rate", "0.25", 0 },
    { "results_path", "r r", 1 }, { "sa_beta_ratio", "1.5", 0 }, { "population_size", "12", 0 }, { "selection_size", "5", 0 }, { "expression", "x+1", 1 }, { "noise_stddev", "0.5", 0 }, { "map_ts_length", "3", 0 }, { "rls_patience", "4", 0 } };
  for (auto& p : ps) for (int form = 0; form < 2; form++) {
    std::string o = std::string("--") + p.name; for (auto& c : o) if (c == '_') c = '-';
    Words a = form ? Words{ o + "=" + p.value } : Words{ o, p.value };
    Words b = { "--bv-size", "6", "--budget", "40", "--seed", "1" };
    if (std::string(p.name) == "seed") b = { "--bv-size", "6", "--budget", "40" };
    a = with(b, a);
    Ran r = run(H, with(a, { "--print-parameters", "--print-results" }), d), q = run(H, with(a, { "--print-results" }), d);
    MC_CHECK(r.status == q.status && r.status >= 0, "parameters", desc(a) << ": " << r.end());
    MC_CHECK(r.out.size() >= q.out.size() && r.out.substr(r.out.size() - q.out.size()) == q.out, "parameters", desc(a) << ": --print-parameters changes the results");
    auto m = parse(r.out);
    std::string want = p.str ? std::string("\"") + p.value + "\"" : p.value;
    MC_CHECK(m.count(p.name) && m[p.name] == want, "parameters", desc(a) << ": " << p.name << " is printed as " << m[p.name]);
    for (auto& x : dm) if (x.first != p.name && x.first != "bv_size" && x.first != "budget" && x.first != "seed" && x.first != "exec_name" && x.first != "print_default_parameters")
      MC_CHECK(m.count(x.first) && m[x.first] == x.second, "parameters", desc(a) << ": " << x.first << " is printed as " << m[x.first] << " instead of " << x.second);
    mc::state(mc::Hash().adds(desc(a)));
  }
}

/// The cache changes neither the search nor its results
void cached(const Alg& al, int f, int seed) {
  if (al.id >= 1100 || al.id == 200) return;
  Dir d;
  Words a = with(with({ "--algorithm", mc::str(al.id) }, al.args), { "--function", mc::str(f), "--bv-size", "8", "--fn-num-traps", "2", "--fn-threshold", "2", "--budget", "0", "--num-iterations", "6", "--seed", mc::str(seed), "--print-results", "--print-solution" });
  if (std::find(a.begin(), a.end(), "--incremental-evaluation") != a.end()) return;
  Ran r = twice(a, d), c = twice(with(a, { "--cache" }), d);
  Split s = split(r.out), q = split(c.out);
  MC_CHECK(c.status == r.status && s.solution == q.solution && field(s.json, "value") == field(q.json, "value"), "cache", desc(a) << ": " << c.out << " instead of " << r.out);
  double ratio = field(q.json, "lookup_ratio"), t = field(s.json, "total_num_evaluations"), u = field(q.json, "total_num_evaluations");
  MC_CHECK(std::isnan(field(s.json, "lookup_ratio")) && u <= t && u <= 256 && std::fabs(ratio - (t - u) / t) < 1e-5, "cache", desc(a) << ": " << t << " evaluations, " << u << " with a cache, lookup ratio " << ratio);
  // with a budget: the cache saves evaluations unless its lookups are counted
  Words b = with(a, { "--budget", "20", "--num-iterations", "1000000", "--restart" });
  if (al.id == 0) return; // every vector once, then over again: 256 > 20 distinct
  Ran n = run(H, b, d), o = run(H, with(b, { "--cache", "--cache-budget" }), d);
  Split ns = split(n.out), os = split(o.out);
  MC_CHECK(ns.solution == os.solution && field(ns.json, "value") == field(os.json, "value") && field(ns.json, "total_num_evaluations") == 20 && field(os.json, "total_num_evaluations") <= 20, "cache on budget", desc(b) << ": " << o.out << " instead of " << n.out);
  Ran w = run(H, with(b, { "--cache" }), d);
  MC_CHECK(w.status == 0, "cache", w.err);
  Split ws = split(w.out);
  MC_CHECK(field(ws.json, "total_num_evaluations") == 20 && field(ws.json, "value") >= field(ns.json, "value"), "cache", desc(b) << ": " << w.out << " without cache " << n.out);
  mc::state(mc::Hash().adds(r.out).adds(w.out));
}

} // namespace

void mc_register() {
  H = tool("hnco"); MO = tool("hnco-mo");
  bool T = mc::thorough();
  for (auto& al : algorithms()) for (auto& fn : functions()) for (int n : { 8, 13 }) {
    if (n == 13 && !(fn.id == 0 || T)) continue;
    if (n == 13 && (fn.id == 110 || fn.id == 120)) continue;
    if (std::find(al.args.begin(), al.args.end(), "--incremental-evaluation") != al.args.end() && fn.id != 0 && fn.id != 5) continue;
    std::string name = mc::str(al.id); for (auto& x : al.args) if (x == "--incremental-evaluation") name += "i";
    mc::add("algorithm " + name + " function " + mc::str(fn.id) + " size " + mc::str(n), [=]() { campaign(al, fn, n); });
  }
  int k = 0;
  for (auto& al : algorithms()) for (int f : { 0, 110 }) { int s = ++k; mc::add("cache " + mc::str(s), [=]() { cached(al, f, s); }); }
  k = 0;
  for (auto& al : algorithms()) for (int m = 1; m <= 6; m++) mc::add("shared map " + mc::str(++k), [=]() { shared_map(al, m); });
  Words b = { "--bv-size", "6", "--budget", "50" };
  std::vector<Words> sv = { b, with(b, { "--function", "80" }) };
  for (int m = 1; m <= 6; m++) for (int c = 0; c < 2; c++) for (auto in : { "6", "4", "9" }) {
    if (m != 4 && m != 5 && std::string(in) != "6") continue;
    Words w = with(b, { "--map", mc::str(m), "--map-random", "--map-input-size", in });
    if (c) w.push_back("--concrete-solution");
    sv.push_back(w);
    if (T || m == 2) sv.push_back(with(w, { "--function", "110", "--fn-num-traps", "2" }));
  }
  sv.push_back({ "--function", "521", "--fp-expression", "x*y", "--fp-representations", "x: long(-4, 3); y: long(0, 7)", "--budget", "30", "--concrete-solution" });
  sv.push_back({ "--function", "500", "--fp-expression", "x*y-x", "--fp-representations", "x: double(0, 1, size = 3); y: double(0, 3, size = 3)", "--budget", "30" });
  k = 0;
  for (auto& w : sv) for (int seed = 1; seed <= (T ? 8 : 2); seed++) mc::add("saved " + mc::str(++k), [=]() { saved(with(w, { "--seed", mc::str(seed) })); });
  mc::add("information", []() {
    for (int n : { 1, 2, 6, 12, 33 }) {
      Words s = { "--bv-size", mc::str(n) };
      information(with(s, { "--function", "0" }), n, true, mc::str(n), true);
      information(with(s, { "--function", "10" }), n, true, mc::str(n), false);
      information(with(s, { "--function", "20" }), n, true, "1", false);
      information(with(s, { "--function", "80" }), n, false, "", false);
      information(with(s, { "--function", "0", "--additive-gaussian-noise" }), n, false, "", false);
      information(with(s, { "--function", "0", "--map", "2", "--map-random" }), n, true, mc::str(n), false);
      information(with(s, { "--function", "0", "--map", "4", "--map-random", "--map-input-size", mc::str(n + 2), "--map-surjective" }), n + 2, true, mc::str(n), false);
    }
  });
  mc::add("walsh", []() {
    for (int n : { 1, 2, 4 }) for (auto f : { "0", "10", "20", "80" }) if (!(n == 1 && std::string(f) == "80")) walsh({ "--bv-size", mc::str(n), "--function", f }, n);
    walsh({ "--bv-size", "6", "--function", "110", "--fn-num-traps", "2" }, 6);
    for (auto e : { "x * 0", "x * 0 + 5", "x - 1", "1 - x" }) walsh({ "--function", "500", "--fp-expression", e, "--fp-representations", "x: double(0, 1, size = 3)" }, 3);
  });
  mc::add("plugin", []() {
    // functions of a shared library: their values, whatever the size; libraries and functions that do not exist are refused
    Dir d;
    d.write("p.c", "#include <stdlib.h>\n"
            "double number(const unsigned char *x, size_t n) { double r = 0; size_t i; for (i = 0; i < n; i++) { if (x[i] > 1) return -1e9; r = 2 * r + x[i]; } return r + 1000.0 * (double)n; }\n"
            "double count(const unsigned char *x, size_t n) { double r = 0; size_t i; for (i = 0; i < n; i++) r += x[i] != 0; return r; }\n");
    MC_CHECK(run("/usr/bin/cc", { "-shared", "-fPIC", "-O1", "-o", "p.so", "p.c" }, d, "", -1, 120).status == 0, "compiler", "the plugin does not compile");
    std::string so = d.path + "/p.so";
    for (int n = 1; n <= 5; n++) for (auto name : { "number", "count" }) {
      Words f = { "--function", "1000", "--path", so, "--fn-name", name, "--bv-size", mc::str(n) };
      for (uint64_t u = 0; u < (1u << n); u++) {
        auto x = bv(u, n); double v = 1000 * n * (name[0] == 'n'), w = 0; for (int i = 0; i < n; i++) w = name[0] == 'n' ? 2 * w + x[size_t(i)] : w + x[size_t(i)];
        auto got = loaded(f, show(x), d);
        MC_CHECK(!got.empty() && strtod(got.c_str(), nullptr) == v + w, "plugin", desc(f) << ": " << show(x) << " has value " << got << " instead of " << v + w);
      }
      Ran r = twice(with(f, { "--algorithm", "0", "--seed", "1", "--print-results", "--print-solution" }), d);
      auto sp = split(r.out);
      MC_CHECK(r.status == 0 && field(sp.json, "value") == (name[0] == 'n' ? 1000 * n + (1 << n) - 1 : n), "plugin", desc(f) << ": exhaustive search finds " << r.out);
      Ran b = run(H, { "--function", "1000", "--path", d.path + "/missing.so", "--fn-name", name, "--bv-size", mc::str(n), "--print-results" }, d), c = run(H, { "--function", "1000", "--path", so, "--fn-name", "missing", "--bv-size", mc::str(n), "--print-results" }, d);
      for (auto& q : { b, c }) MC_CHECK(q.status == 1 && q.out.empty() && !q.err.empty(), "refusal", "a missing plugin: " << q.end() << " " << q.out << q.err);
    }
  });
  mc::add("refusals", []() {
    refused({ "--function", "77" }); refused({ "--algorithm", "77" }); refused({ "--map", "77", "--map-random" }); refused({ "--no-such-option" }); refused({ "--target" });
    refused({ "--num-threads", "0" }); refused({ "--num-threads", "-2" }); refused({ "--bv-size", "0" }); refused({ "--bv-size", "-3" });
    refused({ "--neighborhood", "77", "--bv-size", "5" }); refused({ "--algorithm", "150", "--neighborhood-iterator", "77", "--bv-size", "5" });
    refused({ "--function", "1", "--path", "missing" }); refused({ "--function", "70", "--path", "missing" }); refused({ "--map", "1", "--map-path", "missing" }); refused({ "--function", "200", "--path", "missing" });
    refused({ "--load-solution", "--bv-size", "4", "--solution-path", "missing" });
    refused({ "--function", "80", "--fn-get-maximum", "--bv-size", "5" }); refused({ "--function", "80", "--stop-on-maximum", "--bv-size", "5" });
    refused({ "--map", "4", "--map-random", "--map-surjective", "--map-input-size", "3", "--bv-size", "5" }); refused({ "--map", "4", "--map-random", "--map-input-size", "0", "--bv-size", "5" });
    refused({ "--function", "500", "--fp-expression", "x+", "--fp-representations", "x: double(0, 1, size = 3)" }); refused({ "--function", "500", "--fp-expression", "x", "--fp-representations", "x: double(0" });
    Dir d;
    d.write("s", "0101\n");
    for (auto n : { "3", "5", "1" }) { Ran r = run(H, { "--load-solution", "--solution-path", "s", "--bv-size", n, "--print-results" }, d); MC_CHECK(r.status == 1 && r.out.empty(), "refusal", "a solution of another size: " << r.end() << r.out); }
    Ran h = run(H, { "--help" }, d), v = run(H, { "--version" }, d);
    MC_CHECK(h.status == 0 && !(h.out + h.err).empty() && v.status == 0 && !(v.out + v.err).empty(), "help", h.end() << v.end());
  });
  mc::add("parameters", parameters);
  mc::add("multiobjective", multiobjective);
}
