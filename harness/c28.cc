// C28: the experiment scripts run exactly what the plan says and report true statistics.
#include "proc.hh"
#include <filesystem>
#include <functional>
#include <regex>

using namespace vp;
namespace fs = std::filesystem;

namespace {

typedef std::vector<double> Data;

// ---------------------------------------------------------------- the laboratory

/// A scratch directory with stand-ins for the modules and programs which are not installed
struct Lab {
  Dir d;
  std::string work;
  std::string scripts() const { return std::string(getenv("VP_REPO")) + "/experiments/scripts/"; }
  Lab() {
    work = d.path + "/home/work";
    fs::create_directories(d.path + "/lib/File"); fs::create_directories(d.path + "/bin"); fs::create_directories(d.path + "/remote"); fs::create_directories(work + "/report");
    put(d.path + "/lib/File/Slurp.pm",
        "package File::Slurp;\nuse strict; use warnings; use Exporter qw(import);\nour @EXPORT_OK = qw(read_file write_file);\n"
        "sub read_file { my $p = shift; open(my $f, '<', $p) or die \"read_file '$p' - open: $!\"; local $/; my $s = <$f>; close $f; return defined $s ? $s : ''; }\n"
        "sub write_file { my $p = shift; open(my $f, '>', $p) or die \"write_file '$p' - open: $!\"; print $f @_; close $f; return 1; }\n1;\n");
    put(d.path + "/lib/File/HomeDir.pm", "package File::HomeDir;\nuse strict; use warnings;\nsub my_home { return '" + d.path + "/home'; }\n1;\n");
    // The program under experiment: prints a result which says how it was called
    put(d.path + "/bin/prog", "#!/bin/sh\necho \"$0 $*\" >> " + d.path + "/calls\nn=$(wc -l < " + d.path + "/calls)\n"
        "echo \"{\\\"value\\\": $n, \\\"num_evaluations\\\": $n, \\\"total_num_evaluations\\\": $n, \\\"total_time\\\": 2, \\\"evaluation_time\\\": 1, \\\"lookup_ratio\\\": 0.5, \\\"success\\\": true, \\\"args\\\": \\\"$*\\\"}\"\n", true);
    put(d.path + "/bin/prog2", "#!/bin/sh\nexec " + d.path + "/bin/prog OTHER \"$@\"\n", true);
    // GNU parallel: run the commands of the file after ::::
    put(d.path + "/bin/parallel", "#!/bin/sh\necho \"$*\" >> " + d.path + "/parallel.calls\nfor f in \"$@\"; do :; done\nwhile read -r l; do sh -c \"$l\"; done < \"$f\"\n", true);
    // The remote machine: same plan, its own files
    put(d.path + "/bin/ssh", "#!/bin/sh\nh=$1; shift\nr=" + d.path + "/remote/$h\nmkdir -p $r/work\ncp " + work + "/plan.json $r/work/\ncd $r && sh -c \"$*\" > /dev/null\n", true);
    put(d.path + "/bin/rsync", "#!/bin/sh\necho \"$*\" >> " + d.path + "/rsync.calls\n", true);
    for (auto& e : fs::directory_iterator(scripts())) {
      std::string n = e.path().filename();
      if (n.size() > 3 && n.substr(n.size() - 3) == ".pl") put(d.path + "/bin/" + n, "#!/bin/sh\nexec /usr/bin/perl -I" + d.path + "/lib -I" + getenv("VP_REPO") + "/experiments/modules/lib " + e.path().string() + " \"$@\"\n", true);
    }
  }
  ~Lab() { fs::remove_all(d.path + "/home"); fs::remove_all(d.path + "/lib"); fs::remove_all(d.path + "/bin"); fs::remove_all(d.path + "/remote"); }
  static void put(const std::string& p, const std::string& s, bool exe = false) { { std::ofstream o(p, std::ios::binary); o << s; } if (exe) fs::permissions(p, fs::perms::owner_all); }
  void fresh() { fs::remove_all(work); fs::create_directories(work + "/report"); fs::remove_all(d.path + "/remote"); fs::create_directories(d.path + "/remote"); for (const char *f : { "calls", "parallel.calls", "rsync.calls" }) fs::remove(d.path + "/" + f); }
  void file(const std::string& p, const std::string& s) { fs::create_directories(fs::path(work + "/" + p).parent_path()); put(work + "/" + p, s); }
  bool has(const std::string& p) const { return fs::exists(work + "/" + p); }
  std::string read(const std::string& p) const { std::ifstream i(p[0] == '/' ? p : work + "/" + p, std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
  Ran perl(const std::string& script, const std::string& plan = "") {
    Words w = { "PATH=" + d.path + "/bin:/usr/bin:/bin", "/usr/bin/perl", "-I" + d.path + "/lib", std::string("-I") + getenv("VP_REPO") + "/experiments/modules/lib", scripts() + script };
    if (!plan.empty()) w.push_back(plan);
    w.insert(w.begin(), { "-C", work });
    return run("/usr/bin/env", w, d, "", -1, 300);
  }
  /// Run a script on plan.json, or, if told, on the same plan with another name
  bool renamed = false;
  void must(const std::string& script, const std::string& what) {
    if (renamed) fs::rename(work + "/plan.json", work + "/other.json");
    Ran r = perl(script, renamed ? "other.json" : "");
    if (renamed) fs::rename(work + "/other.json", work + "/plan.json");
    MC_CHECK(r.status == 0 && !r.late, "script fails", script << " (" << what << "): " << r.end() << ": " << r.err.substr(0, 300));
    MC_CHECK(r.err.find("uninitialized") == std::string::npos && r.err.find("isn't numeric") == std::string::npos, "script warns", script << " (" << what << "): " << r.err.substr(0, 300));
  }
};

// ---------------------------------------------------------------- statistics

struct Q { double min, q1, median, q3, max, mean, sd; double of(int k) const { const double v[] = { min, q1, median, q3, max }; return v[k]; } };
Q stats(Data v) {
  std::sort(v.begin(), v.end());
  auto quantile = [&](double p) { double h = (v.size() - 1) * p; std::size_t i = std::size_t(h); double r = h - double(i); return i + 1 < v.size() ? v[i] + r * (v[i + 1] - v[i]) : v[i]; };
  Q q; q.min = v[0]; q.max = v.back(); q.q1 = quantile(.25); q.median = quantile(.5); q.q3 = quantile(.75);
  double s = 0; for (double x : v) s += x;
  q.mean = s / v.size();
  double ss = 0; for (double x : v) ss += (x - q.mean) * (x - q.mean);
  q.sd = v.size() > 1 ? std::sqrt(ss / (v.size() - 1)) : 0;
  return q;
}
bool near(double a, double b) { return std::fabs(a - b) <= 2e-6 * (1 + std::fabs(a) + std::fabs(b)); }
const int BEST[] = { 2, 3, 1, 4, 0 };   // median q3 q1 max min: greater is better
const int LEAST[] = { 2, 1, 3, 0, 4 };  // median q1 q3 min max: smaller is better
/// < 0 if a is listed before b
int by(const int (&pref)[5], int sign, const Q& a, const Q& b) { for (int k : pref) if (a.of(k) != b.of(k)) return sign * a.of(k) < sign * b.of(k) ? -1 : 1; return 0; }

// ---------------------------------------------------------------- reading what the scripts write

Words split(const std::string& s, char c) { Words w; std::string x; std::istringstream i(s); while (std::getline(i, x, c)) w.push_back(x); return w; }
std::string trim(std::string s) { auto a = s.find_first_not_of(" \t\r\n"); if (a == std::string::npos) return ""; auto b = s.find_last_not_of(" \t\r\n"); return s.substr(a, b - a + 1); }
Words lines(const std::string& s) { Words r; for (auto& l : split(s, '\n')) if (!trim(l).empty()) r.push_back(l); return r; }
/// The body of a LaTeX table: the rows after the last rule
std::vector<Words> table(const std::string& s) {
  std::vector<Words> r; bool end = false;
  for (auto& l : lines(s)) {
    if (l.find("\\midrule") != std::string::npos) { r.clear(); continue; }
    if (l.find("\\bottomrule") != std::string::npos) { end = true; break; }
    std::string t = trim(l);
    if (t.size() < 2 || t.substr(t.size() - 2) != "\\\\") continue;
    Words c; for (auto& x : split(t.substr(0, t.size() - 2), '&')) c.push_back(trim(x));
    r.push_back(c);
  }
  MC_CHECK(end, "table has no end", s.substr(0, 200));
  return r;
}
double number(const std::string& c, bool *mark = nullptr) {
  auto p = c.find_last_of(" }");
  std::string t = p == std::string::npos ? c : c.substr(p + 1);
  if (mark) *mark = p != std::string::npos;
  char *e; double v = strtod(t.c_str(), &e);
  MC_CHECK(!t.empty() && !*e, "not a number", "'" << c << "'");
  return v;
}
std::vector<Data> columns(const std::string& s, int n, const std::string& what) {
  std::vector<Data> r;
  for (auto& l : lines(s)) { std::istringstream i(l); Data d; double x; while (int(d.size()) < n && i >> x) d.push_back(x); MC_CHECK(int(d.size()) == n, "data file", what << ": '" << l << "'"); r.push_back(d); }
  return r;
}

/// Rows { label, five statistics } in the announced order, best ones marked
struct Item { std::string label; Q q; };
void check_values(const std::string& text, const std::vector<Item>& items, bool reverse, int labels, bool marks, const std::string& what) {
  auto t = table(text);
  MC_CHECK(t.size() == items.size(), "value table size", what << ": " << t.size() << " rows for " << items.size() << " algorithms");
  Q best = items[0].q;
  for (auto& i : items) { best.min = std::max(best.min, i.q.min); best.q1 = std::max(best.q1, i.q.q1); best.median = std::max(best.median, i.q.median); best.q3 = std::max(best.q3, i.q.q3); best.max = std::max(best.max, i.q.max); }
  std::set<std::string> seen; const Item *previous = nullptr;
  for (auto& r : t) {
    MC_CHECK(int(r.size()) == labels + 5, "value table row", what << ": " << r.size() << " cells");
    std::string label = r[0]; for (int k = 1; k < labels; k++) label += "&" + r[k];
    const Item *it = nullptr; for (auto& i : items) if (i.label == label) it = &i;
    MC_CHECK(it && seen.insert(label).second, "value table label", what << ": row '" << label << "'");
    for (int k = 0; k < 5; k++) {
      int s = reverse ? 4 - k : k; bool mark; double v = number(r[labels + k], &mark), e = reverse ? -it->q.of(s) : it->q.of(s);
      MC_CHECK(near(v, e), "value table", what << ": " << label << " statistic " << k << " is " << v << " instead of " << e);
      if (marks) MC_CHECK(mark == (it->q.of(s) == best.of(s)), "best mark", what << ": " << label << " statistic " << k << " (" << v << ") is " << (mark ? "" : "not ") << "marked; best is " << best.of(s));
    }
    MC_CHECK(!previous || by(BEST, -1, previous->q, it->q) <= 0, "value table order", what << ": " << previous->label << " is listed before " << label);
    previous = it;
  }
}
/// ranks[item] over the functions
void check_ranks(const std::string& text, const std::vector<std::string>& labels, const std::vector<Data>& ranks, int cells, const Data& success, const std::string& what) {
  auto t = table(text);
  MC_CHECK(t.size() == labels.size(), "rank table size", what << ": " << t.size() << " rows for " << labels.size());
  std::set<std::string> seen; int previous = -1;
  for (auto& r : t) {
    MC_CHECK(int(r.size()) == cells + 5 + int(!success.empty()), "rank table row", what << ": " << r.size() << " cells");
    std::string label = r[0]; for (int k = 1; k < cells; k++) label += "&" + r[k];
    int i = int(std::find(labels.begin(), labels.end(), label) - labels.begin());
    MC_CHECK(i < int(labels.size()) && seen.insert(label).second, "rank table label", what << ": row '" << label << "'");
    Q q = stats(ranks[i]);
    for (int k = 0; k < 5; k++) MC_CHECK(near(number(r[cells + k]), q.of(k)), "rank table", what << ": " << label << " statistic " << k << " is " << r[cells + k] << " instead of " << q.of(k));
    if (!success.empty()) MC_CHECK(std::fabs(number(r.back()) - 100 * success[i]) < 1, "success rate", what << ": " << label << " has " << r.back() << " instead of " << 100 * success[i]);
    if (previous >= 0) {
      bool ok = by(LEAST, 1, stats(ranks[previous]), q) <= 0;
      if (!success.empty() && success[previous] != success[i]) ok = success[previous] > success[i];
      MC_CHECK(ok, "rank table order", what << ": " << labels[previous] << " is listed before " << label);
    }
    previous = i;
  }
}
/// Rank of each item: 1 + number of strictly better ones
Data ranks_of(const std::vector<Item>& items) {
  Data r;
  for (auto& i : items) { int k = 1; for (auto& j : items) k += by(BEST, -1, j.q, i.q) < 0; r.push_back(k); }
  return r;
}

/// A gnuplot column specification on a row of data
double column(const std::string& spec, const Data& row, const std::string& what) {
  static const std::regex neg("\\(-\\$([0-9]+)\\)"), pos("\\(?\\$?([0-9]+)\\)?"); std::smatch m;
  if (std::regex_match(spec, m, neg)) { int k = std::stoi(m[1]); MC_CHECK(k >= 1 && k <= int(row.size()), "plot column", what << ": " << spec); return -row[k - 1]; }
  if (std::regex_match(spec, m, pos)) { int k = std::stoi(m[1]); MC_CHECK(k >= 1 && k <= int(row.size()), "plot column", what << ": " << spec); return row[k - 1]; }
  mc::fail("plot column", what + ": " + spec); return 0;
}
struct Plot { std::string path, with; Words spec; };
std::vector<Plot> plots(const std::string& gp) {
  static const std::regex re("\"([^\"]+)\" using (\\S+) with (\\S+)"); std::vector<Plot> r;
  for (std::sregex_iterator i(gp.begin(), gp.end(), re), e; i != e; ++i) r.push_back({ (*i)[1], (*i)[3], split((*i)[2], ':') });
  return r;
}
/// The candlesticks drawn are the statistics (negated for reversed functions)
void check_candlesticks(const Lab& lab, const std::string& gp, const std::string& path, int width, const std::vector<Q>& q, bool reverse, const std::string& what) {
  int boxes = 0, bars = 0;
  auto rows = columns(lab.read(path), width, what);
  MC_CHECK(rows.size() == q.size(), "data rows", what << ": " << path << " has " << rows.size() << " rows for " << q.size());
  for (auto& p : plots(gp)) if (p.path == path && p.with == "candlesticks") {
    MC_CHECK(p.spec.size() >= 5, "candlesticks", what);
    for (std::size_t i = 0; i < rows.size(); i++) {
      Data v; for (int k = 1; k <= 4; k++) v.push_back(column(p.spec[k], rows[i], what));
      double s = reverse ? -1 : 1, lo = reverse ? -q[i].max : q[i].min, hi = reverse ? -q[i].min : q[i].max, a = reverse ? -q[i].q3 : q[i].q1, b = reverse ? -q[i].q1 : q[i].q3, m = s * q[i].median;
      bool box = near(v[0], a) && near(v[1], lo) && near(v[2], hi) && near(v[3], b), bar = near(v[0], m) && near(v[1], m) && near(v[2], m) && near(v[3], m);
      MC_CHECK(box || bar, "candlestick", what << ": item " << i << " drawn " << mc::vec(v) << " instead of min " << lo << " q1 " << a << " median " << m << " q3 " << b << " max " << hi);
      if (i == 0) { std::set<std::string> c(p.spec.begin() + 1, p.spec.begin() + 5); (c.size() == 1 ? bars : boxes)++; }
    }
  }
  MC_CHECK(boxes >= 1 && bars >= 1, "candlesticks missing", what << ": " << path);
}
/// The y axis is logarithmic exactly for the functions whose plan says so
void check_logscale(const std::string& gp, const std::string& path, bool log, const std::string& what) {
  bool on = false, seen = false;
  for (auto& l : lines(gp)) {
    std::string t = trim(l);
    if (t.rfind("set logscale", 0) == 0) { std::string a = trim(t.substr(12)); if (a.empty() || a[0] == 'y' || a.find('y') != std::string::npos) on = true; }
    if (t.rfind("unset logscale", 0) == 0) { std::string a = trim(t.substr(14)); if (a.empty() || a.find('y') != std::string::npos) on = false; }
    if (t.find("\"" + path + "\" using") != std::string::npos) { seen = true; MC_CHECK(on == log, "logarithmic axis", what << ": " << path << " is drawn " << (on ? "with" : "without") << " a logarithmic axis"); }
  }
  MC_CHECK(seen, "plot missing", what << ": " << path);
}
/// No point lies outside of a numeric x range
void check_range(const Lab& lab, const std::string& gp, const std::string& what) {
  static const std::regex set("set xrange \\[([-0-9.eE+]+):([-0-9.eE+]+)\\]"); bool on = false; double lo = 0, hi = 0;
  for (auto& l : lines(gp)) {
    std::smatch m; std::string t = trim(l);
    if (std::regex_match(t, m, set)) { on = true; lo = std::stod(m[1]); hi = std::stod(m[2]); continue; }
    if (t.rfind("set xrange", 0) == 0 || t.rfind("unset xrange", 0) == 0 || t == "reset") { on = false; continue; }
    if (!on) continue;
    for (auto& p : plots(t)) if (p.with == "candlesticks") {
      int k = std::atoi(p.spec[0].c_str()); if (k < 1) continue;
      for (auto& row : lines(lab.read(p.path))) { std::istringstream in(row); std::string w; for (int i = 0; i < k; i++) in >> w; if (w.empty() || !(isdigit((unsigned char)w[0]) || w[0] == '-')) continue; double x = std::stod(w); MC_CHECK(x > lo && x < hi, "hidden by the x range", what << ": " << p.path << " at " << x << " outside of " << lo << " to " << hi); }
    }
  }
}
/// Data files plotted exist, included tables exist, included graphics are drawn
void check_report(const Lab& lab, const Words& gps, const std::string& report, const std::string& what) {
  std::string gp; for (auto& g : gps) { MC_CHECK(lab.has(g), "plot script", what << ": no " << g); gp += lab.read(g); check_range(lab, lab.read(g), what); }
  for (auto& p : plots(gp)) MC_CHECK(lab.has(p.path), "plotted file", what << ": " << p.path << " does not exist");
  std::string tex = lab.read(report);
  MC_CHECK(!tex.empty(), "report", what << ": no " << report);
  static const std::regex in("\\\\input\\{([^}]*)\\}"), gr("\\\\includegraphics\\[[^\\]]*\\]\\{([^}]*)\\}");
  for (std::sregex_iterator i(tex.begin(), tex.end(), in), e; i != e; ++i) MC_CHECK(lab.has("report/" + (*i)[1].str()), "report input", what << ": " << (*i)[1]);
  for (std::sregex_iterator i(tex.begin(), tex.end(), gr), e; i != e; ++i) MC_CHECK(gp.find("\"graphics/" + (*i)[1].str() + ".pdf\"") != std::string::npos, "report graphics", what << ": " << (*i)[1] << " is not drawn");
}

// ---------------------------------------------------------------- enumerating result tables

const double VALUE[] = { -2, 0.5, 3 };
/// All run tables of r runs over three values: ordered ones if r <= 2, otherwise every multiset, rotated
std::vector<std::vector<int>> run_tables(int r) {
  std::vector<std::vector<int>> t; int n = 1; for (int i = 0; i < r; i++) n *= 3;
  for (int c = 0; c < n; c++) {
    std::vector<int> v; for (int i = 0, x = c; i < r; i++, x /= 3) v.push_back(x % 3);
    if (r > 2 && !std::is_sorted(v.begin(), v.end())) continue;
    if (r > 2) std::rotate(v.begin(), v.begin() + t.size() % r, v.end());
    t.push_back(v);
  }
  return t;
}
/// Batches of functions: what each of a algorithms got in each run
typedef std::vector<std::vector<int>> Cells;   // [algorithm][run]
std::vector<std::vector<Cells>> batches(int a, int r, std::size_t size) {
  auto t = run_tables(r); std::vector<std::vector<Cells>> b; std::vector<std::size_t> k(a, 0);
  while (true) {
    Cells c; for (int i = 0; i < a; i++) c.push_back(t[k[i]]);
    if (b.empty() || b.back().size() == size) b.push_back({});
    b.back().push_back(c);
    int i = 0; while (i < a && ++k[i] == t.size()) k[i++] = 0;
    if (i == a) break;
  }
  return b;
}
std::string num(double x) { std::ostringstream s; s << x; return s.str(); }
std::string result(double value, int evals, int total, double tt, double et, bool success, double ratio) {
  return "{\n  \"value\": " + num(value) + ",\n  \"num_evaluations\": " + mc::str(evals) + ",\n  \"total_num_evaluations\": " + mc::str(total) + ",\n  \"total_time\": " + num(tt) + ",\n  \"evaluation_time\": " + num(et) +
    ",\n  \"success\": " + (success ? "true" : "false") + ",\n  \"lookup_ratio\": " + num(ratio) + "\n}\n";
}
std::string join(const Words& w) { std::string s; for (auto& x : w) s += (s.empty() ? "" : ", ") + x; return s; }
std::string fid(std::size_t f) { return "f" + mc::str(f); }
std::string aid(int a) { return std::string(1, char('p' + a)); }

// ---------------------------------------------------------------- hnco-benchmark-stat

void benchmark(int a, int r, std::size_t size, bool reverse, bool logscale, int deterministic) {
  Lab lab; lab.renamed = reverse;
  for (auto& batch : batches(a, r, size)) {
    lab.fresh();
    Words fns, algos;
    for (int i = 0; i < a; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"-A 1\"" + (i % 2 ? ", \"labels\": { \"latex\": \"L" + aid(i) + "\" }" : i ? ", \"labels\": { \"gnuplot\": \"G" + aid(i) + "\" }" : "") + (deterministic >> i & 1 ? ", \"deterministic\": true" : "") + " }");
    auto runs = [&](int i) { return deterministic >> i & 1 ? 1 : r; };
    auto latex = [&](int i) { return i % 2 ? "L" + aid(i) : aid(i); };
    auto gnuplot = [&](int i) { return i % 2 || !i ? aid(i) : "G" + aid(i); };
    for (std::size_t f = 0; f < batch.size(); f++) {
      fns.push_back("{ \"id\": \"" + fid(f) + "\", \"opt\": \"-F 0\", \"reverse\": " + (reverse ? "true" : "false") + ", \"logscale\": " + (logscale ? "true" : "false") + " }");
      for (int i = 0; i < a; i++) for (int k = 0; k < runs(i); k++) {
        int c = batch[f][i][k];
        lab.file("results/" + fid(f) + "/" + aid(i) + "/" + mc::str(k + 1) + ".out", result(VALUE[c], 10 * k + c, 100, 1 + .25 * (2 - c) + .5 * i, .25 + .25 * k, false, 0));
      }
    }
    lab.file("plan.json", "{ \"exec\": \"prog\", \"opt\": \"\", \"budget\": 10, \"num_runs\": " + mc::str(r) + ", \"functions\": [ " + join(fns) + " ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = mc::str(a) + " algorithms, " + mc::str(r) + " runs" + (reverse ? ", reversed" : "") + (deterministic ? ", deterministic " + mc::str(deterministic) : "");
    lab.must("hnco-benchmark-stat.pl", what);
    std::string gp = lab.read("candlesticks.gp"), sc = lab.read("scatter.gp");
    std::vector<Data> ranks(a); Words labels; for (int i = 0; i < a; i++) labels.push_back(latex(i));
    for (std::size_t f = 0; f < batch.size(); f++) {
      std::string w = what + ", values " + [&] { std::string s; for (auto& c : batch[f]) s += mc::vec(c); return s; }();
      std::vector<Item> items; std::vector<Q> q, at, et, tt;
      for (int i = 0; i < a; i++) {
        Data v, x, y, z; std::string scatter;
        for (int k = 0; k < runs(i); k++) { int c = batch[f][i][k]; v.push_back(VALUE[c]); z.push_back(1 + .25 * (2 - c) + .5 * i); y.push_back(.25 + .25 * k); x.push_back(z.back() - y.back()); scatter += mc::str(10 * k + c) + " " + num(VALUE[c]) + "\n"; }
        items.push_back({ latex(i), stats(v) }); q.push_back(stats(v)); at.push_back(stats(x)); et.push_back(stats(y)); tt.push_back(stats(z));
        std::string got = lab.read("results/" + fid(f) + "/" + aid(i) + "/scatter.dat");
        MC_CHECK(columns(got, 2, w) == columns(scatter, 2, w), "scatter", w << ": algorithm " << i << ": '" << got << "' instead of '" << scatter << "'");
      }
      mc::state(mc::Hash().add(a).add(r).add(int(reverse)).add(deterministic).adds(w));
      check_values(lab.read("report/table.value." + fid(f) + ".tex"), items, reverse, 1, true, w);
      std::string path = "results/" + fid(f) + "/candlesticks.dat", dat = lab.read(path);
      std::vector<Q> drawn = q;
      check_candlesticks(lab, gp, path, 6, drawn, reverse, w);
      check_logscale(gp, path, logscale, w); for (int i = 0; i < a; i++) check_logscale(sc, "results/" + fid(f) + "/" + aid(i) + "/scatter.dat", logscale, w);
      Words l = lines(dat);
      for (int i = 0; i < a; i++) { std::istringstream s(l[i]); double p; s >> p; MC_CHECK(p == i + 1 && l[i].find("\"" + gnuplot(i) + "\"") != std::string::npos, "candlesticks label", w << ": '" << l[i] << "'"); }
      for (auto& p : plots(sc)) if (p.path == "results/" + fid(f) + "/" + aid(0) + "/scatter.dat") MC_CHECK(p.spec.size() == 2 && column(p.spec[0], { 1, 5 }, w) == 1 && column(p.spec[1], { 1, 5 }, w) == (reverse ? -5 : 5), "scatter plot", w);
      auto rk = ranks_of(items); for (int i = 0; i < a; i++) ranks[i].push_back(rk[i]);
      auto t = table(lab.read("report/table.time." + fid(f) + ".tex"));
      MC_CHECK(int(t.size()) == a, "time table size", w);
      double before = -1; std::set<std::string> seen;
      for (auto& row : t) {
        int i = int(std::find(labels.begin(), labels.end(), row[0]) - labels.begin());
        MC_CHECK(i < a && row.size() == 7 && seen.insert(row[0]).second, "time table label", w << ": '" << row[0] << "'");
        const double e[] = { at[i].mean, at[i].sd, et[i].mean, et[i].sd, tt[i].mean, tt[i].sd };
        for (int k = 0; k < 6; k++) MC_CHECK(near(number(row[k + 1]), e[k]), "time table", w << ": " << row[0] << " column " << k << " is " << row[k + 1] << " instead of " << e[k]);
        MC_CHECK(at[i].mean >= before - 1e-9, "time table order", w); before = at[i].mean;
      }
    }
    check_ranks(lab.read("report/table.rank.tex"), labels, ranks, 1, {}, what);
    check_report(lab, { "candlesticks.gp", "scatter.gp" }, "report/content.tex", what);
  }
}

// ---------------------------------------------------------------- hnco-algorithm-parameter-stat

void parameter(int a, int r, std::size_t size, bool reverse, bool perl) {
  Lab lab; lab.renamed = reverse;
  for (auto& batch : batches(a, r, size)) {
    lab.fresh();
    Words fns, vals; for (int i = 0; i < a; i++) vals.push_back(mc::str(10 * (i + 1)));
    for (std::size_t f = 0; f < batch.size(); f++) {
      fns.push_back("{ \"id\": \"" + fid(f) + "\", \"opt\": \"-F 0\", \"reverse\": " + (reverse ? "true" : "false") + ", \"logscale\": " + (f % 3 == 1 ? "true" : "false") + " }");
      for (int i = 0; i < a; i++) for (int k = 0; k < r; k++) lab.file("results/" + fid(f) + "/pop-" + vals[i] + "/" + mc::str(k + 1) + ".out", result(VALUE[batch[f][i][k]], 10 * k + i, 100, 1, .5, false, 0));
    }
    lab.file("plan.json", "{ \"num_runs\": " + mc::str(r) + ", \"parameter\": { \"id\": \"pop\", \"labels\": { \"gnuplot\": \"Pop\", \"latex\": \"Pop\" }, " + (perl ? "\"values_perl\": \"map { 10 * $_ } (1 .. " + mc::str(a) + ")\"" : "\"values\": [ " + join(vals) + " ]") + " }, \"functions\": [ " + join(fns) + " ] }");
    std::string what = mc::str(a) + " parameter values, " + mc::str(r) + " runs" + (reverse ? ", reversed" : "");
    lab.must("hnco-algorithm-parameter-stat.pl", what);
    std::string gp = lab.read("candlesticks.gp"), mp = lab.read("mean.gp");
    std::vector<Data> ranks(a);
    for (std::size_t f = 0; f < batch.size(); f++) {
      std::string w = what + ", values " + [&] { std::string s; for (auto& c : batch[f]) s += mc::vec(c); return s; }();
      mc::state(mc::Hash().add(a).add(r).add(int(reverse)).adds(w));
      std::vector<Item> items; std::vector<Q> q;
      for (int i = 0; i < a; i++) {
        Data v; std::string scatter; for (int k = 0; k < r; k++) { v.push_back(VALUE[batch[f][i][k]]); scatter += mc::str(10 * k + i) + " " + num(v.back()) + "\n"; }
        items.push_back({ vals[i], stats(v) }); q.push_back(stats(v));
        MC_CHECK(columns(lab.read("results/" + fid(f) + "/pop-" + vals[i] + "/scatter.dat"), 2, w) == columns(scatter, 2, w), "scatter", w << ": value " << vals[i]);
      }
      check_values(lab.read("report/table.value." + fid(f) + ".tex"), items, reverse, 1, true, w);
      check_candlesticks(lab, gp, "results/" + fid(f) + "/quartiles.dat", 6, q, reverse, w);
      check_logscale(gp, "results/" + fid(f) + "/quartiles.dat", f % 3 == 1, w); check_logscale(mp, "results/" + fid(f) + "/mean.dat", f % 3 == 1, w); check_logscale(lab.read("stddev.gp"), "results/" + fid(f) + "/mean.dat", f % 3 == 1, w); check_logscale(lab.read("scatter.gp"), "results/" + fid(f) + "/pop-10/scatter.dat", f % 3 == 1, w);
      auto m = columns(lab.read("results/" + fid(f) + "/mean.dat"), 3, w), qq = columns(lab.read("results/" + fid(f) + "/quartiles.dat"), 6, w);
      MC_CHECK(int(m.size()) == a && int(qq.size()) == a, "mean file", w);
      for (int i = 0; i < a; i++) MC_CHECK(m[i][0] == 10 * (i + 1) && qq[i][0] == m[i][0] && near(m[i][1], q[i].mean) && near(m[i][2], q[i].sd), "mean file", w << ": " << mc::vec(m[i]) << " instead of " << q[i].mean << " " << q[i].sd);
      for (auto& p : plots(mp)) if (p.path == "results/" + fid(f) + "/mean.dat") MC_CHECK(column(p.spec[1], { 1, 5, 7 }, w) == (reverse ? -5 : 5), "mean plot", w);
      auto rk = ranks_of(items); for (int i = 0; i < a; i++) ranks[i].push_back(rk[i]);
    }
    check_ranks(lab.read("report/table.rank.tex"), vals, ranks, 1, {}, what);
    check_report(lab, { "candlesticks.gp", "scatter.gp", "mean.gp", "stddev.gp" }, "report/content.tex", what);
  }
}

// ---------------------------------------------------------------- hnco-algorithm-alternative-stat

void alternative(int a, int alt, int r, std::size_t size, bool reverse, int deterministic) {
  Lab lab; lab.renamed = reverse;
  for (auto& batch : batches(a * alt, r, size)) {
    lab.fresh();
    Words fns, algos, alts;
    for (int i = 0; i < a; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"\"" + (deterministic >> i & 1 ? ", \"deterministic\": true" : "") + " }");
    for (int j = 0; j < alt; j++) alts.push_back("{ \"value\": " + mc::str(j + 3) + ", \"name\": \"n" + mc::str(j) + "\" }");
    auto runs = [&](int i) { return deterministic >> i & 1 ? 1 : r; };
    for (std::size_t f = 0; f < batch.size(); f++) {
      fns.push_back("{ \"id\": \"" + fid(f) + "\", \"opt\": \"\", \"reverse\": " + (reverse ? "true" : "false") + " }");
      for (int i = 0; i < a; i++) for (int j = 0; j < alt; j++) for (int k = 0; k < runs(i); k++)
        lab.file("results/" + fid(f) + "/" + aid(i) + "/cr-" + mc::str(j + 3) + "/" + mc::str(k + 1) + ".out", result(VALUE[batch[f][i * alt + j][k]], 1, 1, 1, .5, false, 0));
    }
    lab.file("plan.json", "{ \"num_runs\": " + mc::str(r) + ", \"parameter\": { \"id\": \"cr\", \"name\": \"Crossover\", \"alternatives\": [ " + join(alts) + " ] }, \"functions\": [ " + join(fns) + " ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = mc::str(a) + " algorithms, " + mc::str(alt) + " alternatives, " + mc::str(r) + " runs" + (reverse ? ", reversed" : "");
    lab.must("hnco-algorithm-alternative-stat.pl", what);
    std::vector<Data> ranks(a * alt); Words labels; for (int i = 0; i < a; i++) for (int j = 0; j < alt; j++) labels.push_back(aid(i) + "&n" + mc::str(j));
    for (std::size_t f = 0; f < batch.size(); f++) {
      std::string w = what + ", values " + [&] { std::string s; for (auto& c : batch[f]) s += mc::vec(c); return s; }();
      mc::state(mc::Hash().add(a).add(r).add(int(reverse)).add(deterministic).adds(w));
      std::vector<Item> items;
      for (int i = 0; i < a; i++) for (int j = 0; j < alt; j++) { Data v; for (int k = 0; k < runs(i); k++) v.push_back(VALUE[batch[f][i * alt + j][k]]); items.push_back({ labels[i * alt + j], stats(v) }); }
      check_values(lab.read("report/table.value." + fid(f) + ".tex"), items, reverse, 2, false, w);
      Words h = lines(lab.read("results/" + fid(f) + "/histogram.dat"));
      MC_CHECK(int(h.size()) == a + 1, "histogram size", w);
      for (int j = 0; j < alt; j++) { Words c; std::istringstream s(h[0]); std::string x; while (s >> x) c.push_back(x); MC_CHECK(int(c.size()) == alt + 1 && c[j + 1] == "n" + mc::str(j), "histogram header", w << ": " << h[0]); }
      for (int i = 0; i < a; i++) {
        std::istringstream s(h[i + 1]); std::string id; s >> id; MC_CHECK(id == aid(i), "histogram row", w << ": " << h[i + 1]);
        for (int j = 0; j < alt; j++) { double x = NAN; s >> x; double e = items[i * alt + j].q.mean; MC_CHECK(near(x, reverse ? -e : e), "histogram", w << ": " << id << " alternative " << j << " is " << x << " instead of " << (reverse ? -e : e)); }
      }
      auto rk = ranks_of(items); for (std::size_t i = 0; i < rk.size(); i++) ranks[i].push_back(rk[i]);
    }
    check_ranks(lab.read("report/table.rank.tex"), labels, ranks, 2, {}, what);
    check_report(lab, { "histogram.gp" }, "report/content.tex", what);
  }
}

// ---------------------------------------------------------------- hnco-fixed-target-stat

void fixed_target(int a, int r, std::size_t size) {
  Lab lab; lab.renamed = true;
  // a cell is (evaluations in {1, 2, 4}, success); 0..2 of VALUE index evaluations, success by parity of a second table
  const int EVAL[] = { 1, 2, 4 };
  int masks = 1 << std::min(a * r, 6);
  auto all = batches(a, r, size);
  for (std::size_t b = 0; b < all.size(); b++) for (int mask = 0; mask < masks; mask += 1) {
    auto& batch = all[b];
    if (all.size() > 1 && int(b % 4) != mask % 4) continue;   // every mask with a quarter of the tables of the wide ones
    lab.fresh();
    Words fns, algos, labels;
    auto success = [&](std::size_t f, int i, int k) { int p = (i * r + k + int(f)) % (a * r); return p < 6 && (mask >> p & 1); };
    for (int i = 0; i < a; i++) { algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"\" }"); labels.push_back(aid(i)); }
    for (std::size_t f = 0; f < batch.size(); f++) {
      fns.push_back("{ \"id\": \"" + fid(f) + "\", \"opt\": \"\" }");
      for (int i = 0; i < a; i++) for (int k = 0; k < r; k++) lab.file("results/" + fid(f) + "/" + aid(i) + "/" + mc::str(k + 1) + ".out", result(1, EVAL[batch[f][i][k]], 100, 1, .5, success(f, i, k), 0));
    }
    lab.file("plan.json", "{ \"num_runs\": " + mc::str(r) + ", \"functions\": [ " + join(fns) + " ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = "fixed target, " + mc::str(a) + " algorithms, " + mc::str(r) + " runs, successes " + mc::str(mask);
    lab.must("hnco-fixed-target-stat.pl", what);
    std::string gp = lab.read("candlesticks.gp");
    std::vector<Data> ranks(a); Data total(a, 0);
    for (std::size_t f = 0; f < batch.size(); f++) {
      std::string w = what + ", evaluations " + [&] { std::string s; for (auto& c : batch[f]) s += mc::vec(c); return s; }();
      mc::state(mc::Hash().add(a).add(r).add(mask).adds(w));
      std::vector<Q> q; Data s(a, 0);
      for (int i = 0; i < a; i++) { Data v; for (int k = 0; k < r; k++) { v.push_back(EVAL[batch[f][i][k]]); s[i] += success(f, i, k); } q.push_back(stats(v)); total[i] += s[i] / r; }
      auto less = [&](int i, int j) { return s[i] != s[j] ? s[i] > s[j] : by(LEAST, 1, q[i], q[j]) < 0; };
      for (int i = 0; i < a; i++) { int k = 1; for (int j = 0; j < a; j++) k += less(j, i); ranks[i].push_back(k); }
      check_candlesticks(lab, gp, "results/" + fid(f) + "/statistics.dat", 6, q, false, w);
      Words l = lines(lab.read("results/" + fid(f) + "/statistics.dat"));
      for (int i = 0; i < a; i++) MC_CHECK(trim(l[i]).back() == aid(i)[0] && atoi(l[i].c_str()) == i + 1, "statistics label", w << ": '" << l[i] << "'");
      auto t = table(lab.read("report/table-" + fid(f) + ".tex"));
      MC_CHECK(int(t.size()) == a, "function table size", w);
      int previous = -1; std::set<std::string> seen;
      for (auto& row : t) {
        int i = int(std::find(labels.begin(), labels.end(), row[0]) - labels.begin());
        MC_CHECK(i < a && row.size() == 7 && seen.insert(row[0]).second, "function table label", w << ": '" << row[0] << "'");
        for (int k = 0; k < 5; k++) MC_CHECK(near(number(row[k + 1]), q[i].of(k)), "function table", w << ": " << row[0] << " statistic " << k << " is " << row[k + 1] << " instead of " << q[i].of(k));
        MC_CHECK(std::fabs(number(row[6]) - 100 * s[i] / r) < 1, "success rate", w << ": " << row[0] << " has " << row[6] << " instead of " << 100 * s[i] / r);
        MC_CHECK(previous < 0 || !less(i, previous), "function table order", w << ": " << labels[previous] << " before " << row[0]);
        previous = i;
      }
    }
    for (int i = 0; i < a; i++) total[i] /= double(batch.size());
    check_ranks(lab.read("report/table-rank.tex"), labels, ranks, 1, total, what);
    check_report(lab, { "candlesticks.gp" }, "report/content.tex", what);
  }
}

// ---------------------------------------------------------------- hnco-lookup-ratio-stat

void lookup(int a, int r, std::size_t size, int deterministic) {
  Lab lab; lab.renamed = true;
  for (auto& batch : batches(a, r, size)) {
    lab.fresh();
    Words fns, algos;
    auto runs = [&](int i) { return deterministic >> i & 1 ? 1 : r; };
    for (int i = 0; i < a; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"\"" + (deterministic >> i & 1 ? ", \"deterministic\": true" : "") + " }");
    for (std::size_t f = 0; f < batch.size(); f++) {
      fns.push_back("{ \"id\": \"" + fid(f) + "\", \"opt\": \"\" }");
      for (int i = 0; i < a; i++) for (int k = 0; k < runs(i); k++) lab.file("results/" + fid(f) + "/" + aid(i) + "/" + mc::str(k + 1) + ".out", result(1, 10 * k + i, 100, 1, .5, false, .25 * batch[f][i][k]));
    }
    lab.file("plan.json", "{ \"num_runs\": " + mc::str(r) + ", \"functions\": [ " + join(fns) + " ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = "lookup ratio, " + mc::str(a) + " algorithms, " + mc::str(r) + " runs";
    lab.must("hnco-lookup-ratio-stat.pl", what);
    std::string gp = lab.read("candlesticks.gp"), ranking = lab.read("report/ranking.tex");
    std::vector<std::vector<int>> dist(a, std::vector<int>(a, 0));
    const int PREF[] = { 2, 1, 3, 0, 4 };   // median q1 q3 min max, greater is better
    for (std::size_t f = 0; f < batch.size(); f++) {
      std::string w = what + ", ratios " + [&] { std::string s; for (auto& c : batch[f]) s += mc::vec(c); return s; }();
      mc::state(mc::Hash().add(a).add(r).add(deterministic).adds(w));
      std::vector<Q> q; std::vector<int> rank; Data best(5, -1);
      for (int i = 0; i < a; i++) {
        Data v; std::string dat; for (int k = 0; k < runs(i); k++) { v.push_back(.25 * batch[f][i][k]); dat += mc::str(10 * k + i) + " " + num(v.back()) + "\n"; }
        q.push_back(stats(v)); for (int k = 0; k < 5; k++) best[k] = std::max(best[k], q[i].of(k));
        MC_CHECK(columns(lab.read("results/" + fid(f) + "/" + aid(i) + "/" + aid(i) + ".dat"), 2, w) == columns(dat, 2, w), "ratio file", w);
      }
      for (int i = 0; i < a; i++) { int k = 1; for (int j = 0; j < a; j++) k += by(PREF, -1, q[j], q[i]) < 0; rank.push_back(k); dist[i][k - 1]++; }
      check_candlesticks(lab, gp, "results/" + fid(f) + "/" + fid(f) + ".dat", 6, q, false, w);
      Words dl = lines(lab.read("results/" + fid(f) + "/" + fid(f) + ".dat")); for (int i = 0; i < a; i++) MC_CHECK(trim(dl[i]).back() == aid(i)[0] && atoi(dl[i].c_str()) == i + 1, "data label", w << ": '" << dl[i] << "'");
      auto t = table(lab.read("report/table-value-" + fid(f) + ".tex"));
      MC_CHECK(int(t.size()) == a, "value table size", w);
      std::set<std::string> seen;
      for (auto& row : t) {
        int i = row[0][0] - 'p';
        MC_CHECK(row.size() == 7 && i >= 0 && i < a && seen.insert(row[0]).second, "value table label", w << ": '" << row[0] << "'");
        for (int k = 0; k < 5; k++) { bool mark; double v = number(row[k + 1], &mark); MC_CHECK(near(v, q[i].of(k)) && mark == (q[i].of(k) == best[k]), "value table", w << ": " << row[0] << " statistic " << k << " is " << row[k + 1] << " instead of " << q[i].of(k) << ", best " << best[k]); }
        MC_CHECK(number(row[6]) == rank[i], "rank", w << ": " << row[0] << " has rank " << row[6] << " instead of " << rank[i]);
      }
      // The ranking in words
      auto p = ranking.find("\\item[" + fid(f) + "]\n"); MC_CHECK(p != std::string::npos, "ranking", w);
      std::string l = ranking.substr(ranking.find('\n', p) + 1); l = l.substr(0, l.find('\n'));
      int place = 1, in = 0, open = 0; std::vector<int> said(a, 0);
      for (char c : l) { if (c == '(') open = 1, in = 0; else if (c == ')') { open = 0; place += in; } else if (c >= 'p' && c < 'p' + a) { said[c - 'p'] = place; if (open) in++; else place++; } }
      MC_CHECK(said == rank, "ranking", w << ": '" << l << "' instead of ranks " << mc::vec(rank));
    }
    auto t = table(lab.read("report/table-rank-distribution.tex")); std::vector<int> before; std::set<std::string> seen;
    MC_CHECK(int(t.size()) == a, "distribution size", what);
    for (auto& row : t) {
      int i = row[0][0] - 'p'; MC_CHECK(int(row.size()) == a + 1 && i >= 0 && i < a && seen.insert(row[0]).second, "distribution label", what << ": '" << row[0] << "'");
      std::vector<int> v; for (int k = 0; k < a; k++) v.push_back(int(number(row[k + 1])));
      MC_CHECK(v == dist[i], "rank distribution", what << ": " << row[0] << ": " << mc::vec(v) << " instead of " << mc::vec(dist[i]));
      MC_CHECK(before.empty() || !(before < v), "distribution order", what); before = v;
    }
    check_report(lab, { "candlesticks.gp" }, "report/content.tex", what);
  }
}

// ---------------------------------------------------------------- runtime and function parameter

void with_parameter(bool runtime, int a, int vals, int r, std::size_t size, int deterministic, bool perl) {
  Lab lab; lab.renamed = perl; std::string script = runtime ? "hnco-runtime-stat.pl" : "hnco-function-parameter-stat.pl";
  for (auto& batch : batches(a * vals, r, size)) {
    lab.fresh();
    Words fns, algos, vs; for (int j = 0; j < vals; j++) vs.push_back(mc::str(5 * (j + 1)));
    auto runs = [&](int i) { return deterministic >> i & 1 ? 1 : r; };
    for (int i = 0; i < a; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"\"" + (deterministic >> i & 1 ? ", \"deterministic\": true" : "") + " }");
    for (std::size_t f = 0; f < batch.size(); f++) {
      fns.push_back("{ \"id\": \"" + fid(f) + "\", \"opt\": \"\", \"logscale\": " + (f % 3 == 1 ? "true" : "false") + " }");
      for (int i = 0; i < a; i++) for (int j = 0; j < vals; j++) for (int k = 0; k < runs(i); k++) {
        int c = batch[f][i * vals + j][k];
        lab.file("results/" + fid(f) + "/" + aid(i) + "/bv-size-" + vs[j] + "/" + mc::str(k + 1) + ".out", runtime ? result(7, 1000, 1 + 2 * c, 1, .5, true, 0) : result(VALUE[c], 1000, 100, 1, .5, true, 0));
      }
    }
    lab.file("plan.json", "{ \"num_runs\": " + mc::str(r) + ", \"parameter\": { \"id\": \"bv-size\", " + (perl ? "\"values_perl\": \"map { 5 * $_ } (1 .. " + mc::str(vals) + ")\"" : "\"values\": [ " + join(vs) + " ]") + " }, \"graphics\": { \"candlesticks\": { \"title\": true } }, \"functions\": [ " + join(fns) + " ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = script + ", " + mc::str(a) + " algorithms, " + mc::str(vals) + " values, " + mc::str(r) + " runs";
    lab.must(script, what);
    std::string gp = lab.read("candlesticks.gp");
    for (std::size_t f = 0; f < batch.size(); f++) for (int i = 0; i < a; i++) {
      std::string w = what + ", results " + [&] { std::string s; for (auto& c : batch[f]) s += mc::vec(c); return s; }();
      mc::state(mc::Hash().add(i).adds(w));
      std::vector<Q> q; for (int j = 0; j < vals; j++) { Data v; for (int k = 0; k < runs(i); k++) { int c = batch[f][i * vals + j][k]; v.push_back(runtime ? 1 + 2 * c : VALUE[c]); } q.push_back(stats(v)); }
      std::string p = "results/" + fid(f) + "/" + aid(i) + "/";
      check_candlesticks(lab, gp, p + "quartiles.dat", 6, q, false, w);
      check_logscale(gp, p + "quartiles.dat", f % 3 == 1, w); check_logscale(lab.read("mean.gp"), p + "mean.dat", f % 3 == 1, w); check_logscale(lab.read("stddev.gp"), p + "mean.dat", f % 3 == 1, w);
      auto m = columns(lab.read(p + "mean.dat"), 3, w), x = columns(lab.read(p + "quartiles.dat"), 6, w);
      MC_CHECK(int(m.size()) == vals && int(x.size()) == vals, "mean file", w);
      for (int j = 0; j < vals; j++) MC_CHECK(m[j][0] == 5 * (j + 1) && x[j][0] == m[j][0] && near(m[j][1], q[j].mean) && near(m[j][2], q[j].sd), "mean file", w << ": " << mc::vec(m[j]) << " instead of " << q[j].mean << " " << q[j].sd);
    }
    check_report(lab, { "candlesticks.gp", "mean.gp", "stddev.gp" }, lab.has("report/content.tex") ? "report/content.tex" : "report/results.tex", what);
  }
}

void runtime2(int v1, int v2, int r, int deterministic, bool perl) {
  Lab lab; lab.renamed = perl; int done = 0;
  for (auto& batch : batches(v1 * v2, r, 1)) {
    if (++done > 81) break;
    lab.fresh();
    auto values = [&](int n, int m) { Words w; for (int i = 1; i <= n; i++) w.push_back(mc::str(m * i)); return perl ? "\"values_perl\": \"map { " + mc::str(m) + " * $_ } (1 .. " + mc::str(n) + ")\"" : "\"values\": [ " + join(w) + " ]"; };
    auto runs = [&](int i) { return deterministic >> i & 1 ? 1 : r; };
    lab.file("plan.json", "{ \"exec\": \"prog\", \"opt\": \"-x\", \"budget\": 3, \"num_runs\": " + mc::str(r) + ", \"parameter1\": { \"id\": \"a\", \"label\": \"A\", \"key\": \"ka\", " + values(v1, 2) + " }, \"parameter2\": { \"id\": \"b\", \"label\": \"B\", \"key\": \"kb\", " + values(v2, 3) + " }, \"algorithms\": [ { \"id\": \"p\", \"opt\": \"-A 1\", \"label\": \"P\" }, { \"id\": \"q\", \"opt\": \"-A 2\", \"label\": \"Q\"" + (deterministic & 2 ? ", \"deterministic\": true" : "") + " } ] }");
    std::string what = "runtime2, " + mc::str(v1) + "x" + mc::str(v2) + " values, " + mc::str(r) + " runs";
    lab.must("hnco-runtime2-skeleton.pl", what);
    auto& c = batch[0]; auto at = [&](int i, int x, int y, int k) { return 1 + 2 * c[(x * v2 + y + i) % (v1 * v2)][k] + i; };
    for (int i = 0; i < 2; i++) for (int x = 0; x < v1; x++) for (int y = 0; y < v2; y++) for (int k = 0; k < runs(i); k++) {
      std::string dir = "results/" + aid(i) + "/a-" + mc::str(2 * (x + 1)) + "/b-" + mc::str(3 * (y + 1));
      MC_CHECK(lab.has(dir), "skeleton", what << ": no " << dir);
      lab.file(dir + "/" + mc::str(k + 1) + ".out", result(7, 1000, at(i, x, y, k), 1, .5, true, 0));
    }
    lab.must("hnco-runtime2-stat.pl", what);
    const char *M[] = { "min", "q1", "median", "q3", "max", "mean", "stddev" };
    for (int i = 0; i < 2; i++) {
      std::vector<std::vector<Q>> q(v1, std::vector<Q>(v2));
      for (int x = 0; x < v1; x++) for (int y = 0; y < v2; y++) { Data v; for (int k = 0; k < runs(i); k++) v.push_back(at(i, x, y, k)); q[x][y] = stats(v); }
      for (int m = 0; m < 7; m++) {
        auto val = [&](int x, int y) { return m < 5 ? q[x][y].of(m) : m == 5 ? q[x][y].mean : q[x][y].sd; };
        std::string p = "stats/" + aid(i) + "/" + M[m];
        auto all = columns(lab.read(p + ".dat"), 3, what);
        MC_CHECK(int(all.size()) == v1 * v2, "surface size", what << ": " << p);
        for (int x = 0; x < v1; x++) for (int y = 0; y < v2; y++) MC_CHECK(all[x * v2 + y][0] == 2 * (x + 1) && all[x * v2 + y][1] == 3 * (y + 1) && near(all[x * v2 + y][2], val(x, y)), "surface", what << ": " << p << " " << mc::vec(all[x * v2 + y]) << " instead of " << val(x, y));
        for (int x = 0; x < v1; x++) { auto l = columns(lab.read(p + "-a-" + mc::str(2 * (x + 1)) + ".dat"), 2, what); MC_CHECK(int(l.size()) == v2, "line size", what); for (int y = 0; y < v2; y++) MC_CHECK(l[y][0] == 3 * (y + 1) && near(l[y][1], val(x, y)), "line", what << ": " << p << " along b"); }
        for (int y = 0; y < v2; y++) { auto l = columns(lab.read(p + "-b-" + mc::str(3 * (y + 1)) + ".dat"), 2, what); MC_CHECK(int(l.size()) == v1, "line size", what); for (int x = 0; x < v1; x++) MC_CHECK(l[x][0] == 2 * (x + 1) && near(l[x][1], val(x, y)), "line", what << ": " << p << " along a"); }
      }
    }
    mc::state(mc::Hash().adds(what).add(done));
    check_report(lab, { "graphics.gp" }, "report/results.tex", what);
  }
}

// ---------------------------------------------------------------- hnco-ecdf-stat

typedef std::vector<std::pair<int, int>> Path;   // (time, level), both increasing
std::vector<Path> trajectories() {
  std::vector<Path> r;
  for (int t = 1; t < 8; t++) for (int v = 1; v < 8; v++) if (__builtin_popcount(t) == __builtin_popcount(v)) {
    Path p; int j = 0; for (int i = 0; i < 3; i++) if (t >> i & 1) { while (!(v >> j & 1)) j++; p.push_back({ i + 1, j++ }); }
    r.push_back(p);
  }
  return r;
}
void ecdf(int a, int r, int targets, double base, double stepsize, int deterministic, std::size_t stride) {
  Lab lab; lab.renamed = true; auto tr = trajectories(); int cells = a * r; std::size_t n = 1; for (int i = 0; i < cells; i++) n *= tr.size();
  auto val = [&](int l) { return strtod(num(base + stepsize * l).c_str(), nullptr); };
  auto runs = [&](int i) { return deterministic >> i & 1 ? 1 : r; };
  for (std::size_t from = 0; from < n; from += 120 * stride) {
    lab.fresh();
    Words fns, algos; std::vector<std::vector<Path>> got;
    for (int i = 0; i < a; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"\"" + (deterministic >> i & 1 ? ", \"deterministic\": true" : "") + " }");
    for (std::size_t c = from; c < n && c < from + 120 * stride; c += stride) {
      std::vector<Path> g; for (std::size_t i = 0, x = c; int(i) < cells; i++, x /= tr.size()) g.push_back(tr[x % tr.size()]);
      std::string f = fid(got.size());
      fns.push_back("{ \"id\": \"" + f + "\", \"opt\": \"\" }");
      for (int i = 0; i < a; i++) for (int k = 0; k < runs(i); k++) { std::string s; for (auto& e : g[i * r + k]) s += mc::str(e.first) + " " + num(val(e.second)) + "\n"; lab.file("results/" + f + "/" + aid(i) + "/" + mc::str(k + 1) + ".out", s); }
      got.push_back(g);
    }
    lab.file("plan.json", "{ \"num_runs\": " + mc::str(r) + ", \"budget\": 10, \"num_targets\": " + mc::str(targets) + ", \"graphics\": { \"all\": { \"helper\": true }, \"groups\": [ { \"id\": \"g\", \"helper\": true, \"algorithms\": [ \"p\" ] } ] }, \"functions\": [ " + join(fns) + " ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = "ecdf, " + mc::str(a) + " algorithms, " + mc::str(r) + " runs, " + mc::str(targets) + " targets, values " + num(base) + " + " + num(stepsize) + " k";
    lab.must("hnco-ecdf-stat.pl", what);
    std::vector<std::vector<int>> global(a, std::vector<int>(5, 0));
    auto curve = [&](const std::string& file, const std::string& w, bool extra) {
      auto c = columns(lab.read(file), 2, w); MC_CHECK(!c.empty(), "ecdf", w << ": " << file << " is empty");
      if (extra) { MC_CHECK(c.size() >= 3, "ecdf helper", w); MC_CHECK(c[c.size() - 2][0] == 10 && c[c.size() - 1][0] == 100 && near(c[c.size() - 2][1], c[c.size() - 3][1]), "ecdf helper", w << ": " << file); }
      for (std::size_t i = 1; i + (extra ? 2 : 0) < c.size(); i++) MC_CHECK(c[i][0] > c[i - 1][0] && c[i][1] > c[i - 1][1], "ecdf not increasing", w << ": " << file);
      return c;
    };
    auto check = [&](const std::vector<Data>& c, const std::vector<int>& hits, int all, const std::string& w) {
      for (int t = 0; t <= 4; t++) { double p = 0; for (auto& x : c) if (x[0] <= t) p = x[1]; double e = double(hits[t]) / all; MC_CHECK(near(p, e), "ecdf", w << ": proportion of targets at time " << t << " is " << p << " instead of " << e); }
    };
    for (std::size_t f = 0; f < got.size(); f++) {
      std::string w = what + ", trajectories"; for (auto& p : got[f]) { w += " ["; for (auto& e : p) w += " " + mc::str(e.first) + ":" + num(val(e.second)); w += " ]"; }
      mc::state(mc::Hash().adds(w));
      int lo = 9, hi = -1; for (int i = 0; i < a; i++) for (int k = 0; k < runs(i); k++) { auto& p = got[f][i * r + k]; lo = std::min(lo, p[0].second); hi = std::max(hi, p.back().second); }
      Data last, first, helper;
      for (int i = 0; i < a; i++) {
        // level l reaches target j iff (l - lo) (targets - 1) >= j (hi - lo), in integers
        std::vector<int> hits(5, 0);
        for (int t = 0; t <= 4; t++) { for (int k = 0; k < runs(i); k++) { int l = -1; for (auto& e : got[f][i * r + k]) if (e.first <= t) l = e.second; if (l >= 0) for (int j = 0; j < targets; j++) hits[t] += (l - lo) * (targets - 1) >= j * (hi - lo); } global[i][t] += hits[t]; }
        auto c = curve("results/ecdf/" + fid(f) + "/raw/" + aid(i) + ".dat", w, false);
        check(c, hits, targets * runs(i), w + ", algorithm " + mc::str(i)); last.push_back(c.back()[1]); first.push_back(c[0][1]);
        auto d = curve("results/ecdf/" + fid(f) + "/all/" + aid(i) + ".dat", w, true);
        helper.push_back(d.back()[1]);
        d.resize(d.size() - 2); MC_CHECK(d == c, "ecdf with helpers", w);
      }
      double low = *std::min_element(first.begin(), first.end()), high = *std::max_element(last.begin(), last.end());
      for (double h : helper) MC_CHECK(h >= low - 1e-6 && h <= high + 1e-6, "ecdf helper range", w << ": " << h << " outside of " << low << " to " << high);
      auto g = curve("results/ecdf/" + fid(f) + "/groups/g/p.dat", w, true); MC_CHECK(g.back()[1] >= first[0] - 1e-6 && g.back()[1] <= last[0] + 1e-6, "ecdf helper range", w << ": group"); g.resize(g.size() - 2);
      MC_CHECK(g == columns(lab.read("results/ecdf/" + fid(f) + "/raw/p.dat"), 2, w), "ecdf of the group", w);
      // The helpers tell the curves apart, in their final order
      for (int i = 0; i < a; i++) for (int j = 0; j < a; j++) if (last[i] < last[j]) {
        double x = columns(lab.read("results/ecdf/" + fid(f) + "/all/" + aid(i) + ".dat"), 2, w).back()[1], y = columns(lab.read("results/ecdf/" + fid(f) + "/all/" + aid(j) + ".dat"), 2, w).back()[1];
        MC_CHECK(x < y, "ecdf helper order", w);
      }
    }
    for (int i = 0; i < a; i++) check(curve("results/ecdf/global/raw/" + aid(i) + ".dat", what, false), global[i], int(got.size()) * targets * runs(i), what + ", all functions, algorithm " + mc::str(i));
  }
}

// ---------------------------------------------------------------- autocorrelation and Walsh spectrum

void autocorrelation(int length, int lag, int from, int to) {
  Lab lab; lab.renamed = true; Words fns; std::vector<std::vector<int>> walks; int n = 1; for (int i = 0; i < length; i++) n *= 3;
  for (int c = from; c < std::min(to, n); c++) {
    std::vector<int> v; for (int i = 0, x = c; i < length; i++, x /= 3) v.push_back(x % 3);
    if (std::set<int>(v.begin(), v.end()).size() < 2) continue;
    std::string s; for (int x : v) s += num(VALUE[x]) + "\n";
    lab.file("results/" + fid(walks.size()) + "/1.out", s); fns.push_back("{ \"id\": \"" + fid(walks.size()) + "\", \"opt\": \"\" }"); walks.push_back(v);
  }
  lab.file("plan.json", "{ \"results\": \"results\", \"graphics\": \"graphics\", \"report\": \"report\", \"lag_max\": " + mc::str(lag) + ", \"functions\": [ " + join(fns) + " ] }");
  std::string what = "autocorrelation, length " + mc::str(length) + ", lags below " + mc::str(lag);
  lab.must("hnco-autocorrelation-stat.pl", what);
  for (std::size_t f = 0; f < walks.size(); f++) {
    std::string w = what + ", walk " + mc::vec(walks[f]); mc::state(mc::Hash().adds(w));
    double m = 0; for (int x : walks[f]) m += VALUE[x] / length;
    auto c = [&](int t) { double s = 0; for (int i = 0; i + t < length; i++) s += (VALUE[walks[f][i]] - m) * (VALUE[walks[f][i + t]] - m); return s; };
    auto got = columns(lab.read("results/" + fid(f) + "/autocorrelation.txt"), 1, w);
    MC_CHECK(int(got.size()) == lag, "lags", w << ": " << got.size());
    for (int t = 0; t < lag; t++) MC_CHECK(near(got[t][0], c(t) / c(0)), "autocorrelation", w << ": lag " << t << " is " << got[t][0] << " instead of " << c(t) / c(0));
  }
}
void walsh(int length) {
  Lab lab; lab.renamed = true; Words fns; std::vector<std::vector<int>> all; int n = 1; for (int i = 0; i < length; i++) n *= 6;
  for (int c = 0; c < n; c++) {
    std::vector<int> v; for (int i = 0, x = c; i < length; i++, x /= 6) v.push_back(x % 6);
    std::string s; for (int x : v) s += mc::str(1 + 5 * (x % 3)) + " " + (x / 3 ? "0.5" : "1") + "\n";
    lab.file("results/" + fid(all.size()) + "/1.out", s); fns.push_back("{ \"id\": \"" + fid(all.size()) + "\", \"opt\": \"\" }"); all.push_back(v);
  }
  lab.file("plan.json", "{ \"results\": \"results\", \"graphics\": \"graphics\", \"report\": \"report\", \"functions\": [ " + join(fns) + " ] }");
  std::string what = "Walsh spectrum, " + mc::str(length) + " coefficients";
  lab.must("hnco-walsh-transforms-stat.pl", what);
  for (std::size_t f = 0; f < all.size(); f++) {
    std::map<int, double> e, g; for (int x : all[f]) e[1 + 5 * (x % 3)] += x / 3 ? .25 : 1;
    std::string w = what + " " + mc::vec(all[f]); mc::state(mc::Hash().adds(w));
    auto c = columns(lab.read("results/" + fid(f) + "/spectrum.dat"), 2, w);
    for (auto& x : c) MC_CHECK(g.emplace(int(x[0]), x[1]).second, "spectrum", w << ": order " << x[0] << " twice");
    MC_CHECK(g == e, "spectrum", w << ": " << lab.read("results/" + fid(f) + "/spectrum.dat"));
  }
}

// ---------------------------------------------------------------- running the experiments

/// The options of a command, whatever their order
std::map<std::string, std::string> options(const std::string& s) {
  std::map<std::string, std::string> r; std::istringstream i(s); std::string w, last;
  while (i >> w) { if (w[0] == '-' && w.size() > 1 && !isdigit(w[1])) { MC_CHECK(!r.count(w), "repeated option", s); r[last = w] = ""; } else if (r[last].empty()) r[last] = w; else r[last] += " " + w; }
  return r;
}
struct Expected { std::string out, args; };
/// After a skeleton and a run: exactly these output files, each written by one such call
void check_runs(Lab& lab, const std::vector<Expected>& e, bool parallel, bool servers, const std::string& what) {
  std::set<std::string> outs; for (auto& p : fs::recursive_directory_iterator(lab.work + "/results")) if (p.path().extension() == ".out") outs.insert(fs::relative(p.path(), lab.work).string());
  for (auto& x : e) {
    MC_CHECK(outs.erase(x.out), "planned run missing", what << ": no " << x.out);
    std::string s = lab.read(x.out); auto p = s.find("\"args\": \""); MC_CHECK(p != std::string::npos, "output", what << ": " << x.out << ": '" << s << "'");
    std::string got = s.substr(p + 9); got = got.substr(0, got.find('"'));
    MC_CHECK(options(got) == options(x.args), "command", what << ": " << x.out << " comes from '" << got << "' instead of '" << x.args << "'");
    if (servers) for (const char *h : { "h1", "h2" }) { std::string dir = lab.d.path + "/remote/" + h + "/work/" + fs::path(x.out).parent_path().string(); MC_CHECK(fs::is_directory(dir), "remote directory", what << ": " << h << " has no " << fs::path(x.out).parent_path().string()); }
  }
  MC_CHECK(outs.empty(), "unplanned run", what << ": " << *outs.begin());
  MC_CHECK(lines(lab.read(lab.d.path + "/calls")).size() == e.size(), "number of runs", what << ": " << lines(lab.read(lab.d.path + "/calls")).size() << " instead of " << e.size());
  MC_CHECK(lines(lab.read(lab.d.path + "/parallel.calls")).size() == std::size_t(parallel), "parallel", what);
  if (servers) {
    std::string p = lab.read(lab.d.path + "/parallel.calls"), y = lab.read(lab.d.path + "/rsync.calls");
    for (const char *h : { "h1", "h2" }) MC_CHECK(p.find(h) != std::string::npos && y.find(std::string(h) + ":work/results/") != std::string::npos, "servers", what << ": " << p << y);
  }
  mc::state(mc::Hash().adds(what));
}
const char *flag(bool b) { return b ? "true" : "false"; }
std::string servers_json(bool s) { return s ? ", \"servers\": [ { \"hostname\": \"h1\" }, { \"hostname\": \"h2\" } ]" : ""; }

void run_benchmark(const std::string& script, bool parallel, bool servers) {
  Lab lab; bool full = script == "hnco-benchmark-run.pl";
  for (int save = 0; save < 2; save++) for (int only = 0; only < 4; only++) for (int skip = 0; skip < 3; skip++) for (int det = 0; det < (full ? 4 : 1); det++) for (int other = 0; other < (full ? 3 : 1); other++) for (int r = 1; r <= 2; r++) {
    if ((servers || !full) && (skip && only)) continue;
    if (servers && other) continue;
    if (!mc::thorough() && (det || other) && (only || skip || save)) continue;
    lab.fresh();
    const char *O[] = { "", ", \"only_algorithms\": [ \"p\" ]", ", \"only_algorithms\": [ \"q\", \"p\" ]", ", \"only_algorithms\": [ \"none\" ]" }, *S[] = { "", ", \"skip_algorithms\": [ \"q\" ]", ", \"skip_algorithms\": [ \"p\", \"q\" ]" };
    Words algos; for (int i = 0; i < 2; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"-A " + mc::str(i + 7) + " --x\"" + (det >> i & 1 ? ", \"deterministic\": true" : "") + (other == i + 1 ? ", \"exec\": \"prog2\"" : "") + " }");
    lab.file("plan.json", std::string("{ \"exec\": \"prog\", \"opt\": \"--print-results -s 5\", \"budget\": 30, \"num_runs\": ") + mc::str(r) + ", \"parallel\": " + flag(parallel) + servers_json(servers) + ", \"save_solution\": " + flag(save) + O[only] + S[skip] +
             ", \"functions\": [ { \"id\": \"f\", \"opt\": \"-F 3\" }, { \"id\": \"g\", \"opt\": \"-F 4 -p i/g\" } ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = script + (parallel ? ", parallel" : "") + (servers ? ", servers" : "") + (save ? ", save_solution" : "") + O[only] + S[skip] + ", deterministic " + mc::str(det) + ", exec " + mc::str(other) + ", " + mc::str(r) + " runs";
    lab.must("hnco-benchmark-skeleton.pl", what);
    lab.must(script, what);
    std::vector<Expected> e;
    for (int f = 0; f < 2; f++) for (int i = 0; i < 2; i++) {
      if ((only == 1 && i) || only == 3 || (skip == 1 && i) || skip == 2) continue;
      for (int k = 1; k <= (det >> i & 1 ? 1 : r); k++) {
        std::string p = std::string("results/") + (f ? "g/" : "f/") + aid(i) + "/" + mc::str(k);
        e.push_back({ p + ".out", (other == i + 1 ? "OTHER " : "") + std::string("--print-results -s 5 -b 30 ") + (f ? "-F 4 -p i/g" : "-F 3") + " -A " + mc::str(i + 7) + " --x" + (save ? " --save-solution --solution-path " + p + ".sol --save-description --description-path " + p + ".des" : "") });
      }
    }
    check_runs(lab, e, parallel, servers, what);
    if (e.size() == std::size_t(2 * ((det & 1 ? 1 : r) + (det & 2 ? 1 : r)))) {
      // complete experiments can be analysed
      if (full) { lab.must("hnco-benchmark-stat.pl", what); lab.must("hnco-lookup-ratio-stat.pl", what); } else lab.must("hnco-fixed-target-stat.pl", what);
    }
  }
}
void run_parameter(bool parallel, bool servers) {
  Lab lab; lab.renamed = !servers && !parallel;
  for (int perl = 0; perl < 2; perl++) for (int dep = 0; dep < 3; dep++) for (int r = 1; r <= 3; r++) for (int v = 1; v <= 3; v++) {
    lab.fresh(); Words vals; for (int j = 1; j <= v; j++) vals.push_back(mc::str(4 * j));
    const char *D[] = { "", ", \"opt_perl\": [ { \"opt\": \"--half\", \"value\": \"$value / 2\" } ]", ", \"opt_perl\": [ { \"opt\": \"--half\", \"value\": \"$value / 2\" }, { \"opt\": \"--next\", \"value\": \"$value + 1\" } ]" };
    lab.file("plan.json", std::string("{ \"exec\": \"prog\", \"opt\": \"--print-results\", \"budget\": 30, \"num_runs\": ") + mc::str(r) + ", \"parallel\": " + flag(parallel) + servers_json(servers) + D[dep] + ", \"parameter\": { \"id\": \"size\", \"labels\": { \"gnuplot\": \"S\", \"latex\": \"S\" }, " + (perl ? "\"values_perl\": \"map { 4 * $_ } (1 .. " + mc::str(v) + ")\"" : "\"values\": [ " + join(vals) + " ]") +
             " }, \"functions\": [ { \"id\": \"f\", \"opt\": \"-F 3\" }, { \"id\": \"g\", \"opt\": \"-F 4\" } ] }");
    std::string what = std::string("algorithm parameter") + (parallel ? ", parallel" : "") + (servers ? ", servers" : "") + (perl ? ", values_perl" : "") + D[dep] + ", " + mc::str(r) + " runs, " + mc::str(v) + " values";
    lab.must("hnco-algorithm-parameter-skeleton.pl", what); lab.must("hnco-algorithm-parameter-run.pl", what);
    std::vector<Expected> e;
    for (int f = 0; f < 2; f++) for (int j = 1; j <= v; j++) for (int k = 1; k <= r; k++)
      e.push_back({ std::string("results/") + (f ? "g" : "f") + "/size-" + mc::str(4 * j) + "/" + mc::str(k) + ".out", std::string("--print-results -b 30 -F ") + (f ? "4" : "3") + " --size " + mc::str(4 * j) + (dep > 0 ? " --half " + mc::str(2 * j) : "") + (dep > 1 ? " --next " + mc::str(4 * j + 1) : "") });
    check_runs(lab, e, parallel, servers, what);
    lab.must("hnco-algorithm-parameter-stat.pl", what);
  }
}
void run_alternative(bool parallel, bool servers) {
  Lab lab; lab.renamed = !servers && !parallel;
  for (int det = 0; det < 4; det++) for (int r = 1; r <= 3; r++) for (int v = 1; v <= 3; v++) {
    lab.fresh(); Words alts, algos; for (int j = 1; j <= v; j++) alts.push_back("{ \"value\": " + mc::str(j + 2) + ", \"name\": \"n" + mc::str(j) + "\" }");
    for (int i = 0; i < 2; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"-A " + mc::str(i) + "\"" + (det >> i & 1 ? ", \"deterministic\": true" : "") + " }");
    lab.file("plan.json", std::string("{ \"exec\": \"prog\", \"opt\": \"--print-results\", \"budget\": 30, \"num_runs\": ") + mc::str(r) + ", \"parallel\": " + flag(parallel) + servers_json(servers) + ", \"parameter\": { \"id\": \"cr\", \"alternatives\": [ " + join(alts) + " ] }, \"functions\": [ { \"id\": \"f\", \"opt\": \"-F 3\" }, { \"id\": \"g\", \"opt\": \"-F 4\" } ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = std::string("algorithm alternative") + (parallel ? ", parallel" : "") + (servers ? ", servers" : "") + ", deterministic " + mc::str(det) + ", " + mc::str(r) + " runs, " + mc::str(v) + " alternatives";
    lab.must("hnco-algorithm-alternative-skeleton.pl", what); lab.must("hnco-algorithm-alternative-run.pl", what);
    std::vector<Expected> e;
    for (int f = 0; f < 2; f++) for (int i = 0; i < 2; i++) for (int j = 1; j <= v; j++) for (int k = 1; k <= (det >> i & 1 ? 1 : r); k++)
      e.push_back({ std::string("results/") + (f ? "g/" : "f/") + aid(i) + "/cr-" + mc::str(j + 2) + "/" + mc::str(k) + ".out", std::string("--print-results -b 30 -F ") + (f ? "4" : "3") + " -A " + mc::str(i) + " --cr " + mc::str(j + 2) });
    check_runs(lab, e, parallel, servers, what);
    lab.must("hnco-algorithm-alternative-stat.pl", what);
  }
}
void run_runtime(bool parallel, bool servers) {
  Lab lab; lab.renamed = !servers && !parallel;
  for (int perl = 0; perl < 2; perl++) for (int det = 0; det < 4; det++) for (int dep = 0; dep < 3; dep++) for (int other = 0; other < 3; other++) for (int r = 1; r <= 2; r++) {
    if ((servers || !mc::thorough()) && ((dep && other) || (servers && dep)) && !(dep == 2 && other == 1 && !servers)) continue;
    lab.fresh(); Words algos;
    for (int i = 0; i < 2; i++) algos.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"-A " + mc::str(i) + "\"" + (det >> i & 1 ? ", \"deterministic\": true" : "") + (other == i + 1 ? ", \"exec\": \"prog2\"" : "") + (dep == i + 1 ? ", \"opt_perl\": [ { \"opt\": \"--half\", \"value\": \"$value / 2\" } ]" : "") + " }");
    lab.file("plan.json", std::string("{ \"exec\": \"prog\", \"opt\": \"--print-results\", \"budget\": 30, \"num_runs\": ") + mc::str(r) + ", \"parallel\": " + flag(parallel) + servers_json(servers) + ", \"parameter\": { \"id\": \"size\", " + (perl ? "\"values_perl\": \"(4, 8)\"" : "\"values\": [ 4, 8 ]") + " }, \"functions\": [ { \"id\": \"f\", \"opt\": \"-F 3\" }, { \"id\": \"g\", \"opt\": \"-F 4\" } ], \"algorithms\": [ " + join(algos) + " ] }");
    std::string what = std::string("runtime") + (parallel ? ", parallel" : "") + (servers ? ", servers" : "") + (perl ? ", values_perl" : "") + ", deterministic " + mc::str(det) + ", opt_perl " + mc::str(dep) + ", exec " + mc::str(other) + ", " + mc::str(r) + " runs";
    lab.must("hnco-runtime-skeleton.pl", what); lab.must("hnco-runtime-run.pl", what);
    std::vector<Expected> e;
    for (int f = 0; f < 2; f++) for (int i = 0; i < 2; i++) for (int v : { 4, 8 }) for (int k = 1; k <= (det >> i & 1 ? 1 : r); k++)
      e.push_back({ std::string("results/") + (f ? "g/" : "f/") + aid(i) + "/size-" + mc::str(v) + "/" + mc::str(k) + ".out", (other == i + 1 ? "OTHER " : "") + std::string("--print-results -b 30 -F ") + (f ? "4" : "3") + " -A " + mc::str(i) + " --size " + mc::str(v) + (dep == i + 1 ? " --half " + mc::str(v / 2) : "") });
    check_runs(lab, e, parallel, servers, what);
    lab.must("hnco-runtime-stat.pl", what); lab.must("hnco-function-parameter-stat.pl", what);
  }
}
void run_runtime2(bool parallel, bool servers) {
  Lab lab; lab.renamed = !servers && !parallel;
  for (int perl = 0; perl < 2; perl++) for (int expr = 0; expr < 2; expr++) for (int r = 1; r <= 2; r++) for (int n1 = 1; n1 <= 2; n1++) for (int n2 = 1; n2 <= 2; n2++) {
    lab.fresh();
    auto values = [&](int n, int m) { Words w; for (int i = 1; i <= n; i++) w.push_back(mc::str(m * i)); return perl ? "\"values_perl\": \"map { " + mc::str(m) + " * $_ } (1 .. " + mc::str(n) + ")\"" : "\"values\": [ " + join(w) + " ]"; };
    lab.file("plan.json", std::string("{ \"exec\": \"prog\", \"opt\": \"--print-results\", \"budget\": 30, \"num_runs\": ") + mc::str(r) + ", \"parallel\": " + flag(parallel) + servers_json(servers) + ", \"parameter1\": { \"id\": \"aa\", \"label\": \"A\", \"key\": \"ka\", " + values(n1, 2) + " }, \"parameter2\": { \"id\": \"bb\", \"label\": \"B\", \"key\": \"kb\", " + values(n2, 3) + (expr ? ", \"expression\": \"$value1 * $value2\"" : "") +
             " }, \"algorithms\": [ { \"id\": \"p\", \"label\": \"P\", \"opt\": \"-A 1\" }, { \"id\": \"q\", \"label\": \"Q\", \"opt\": \"-A 2\" } ] }");
    std::string what = std::string("runtime2") + (parallel ? ", parallel" : "") + (servers ? ", servers" : "") + (perl ? ", values_perl" : "") + (expr ? ", expression" : "") + ", " + mc::str(r) + " runs, " + mc::str(n1) + "x" + mc::str(n2);
    lab.must("hnco-runtime2-skeleton.pl", what); lab.must("hnco-runtime2-run.pl", what);
    std::vector<Expected> e;
    for (int i = 0; i < 2; i++) for (int x = 1; x <= n1; x++) for (int y = 1; y <= n2; y++) for (int k = 1; k <= r; k++)
      e.push_back({ "results/" + aid(i) + "/aa-" + mc::str(2 * x) + "/bb-" + mc::str(3 * y) + "/" + mc::str(k) + ".out", "--print-results -b 30 -A " + mc::str(i + 1) + " --aa " + mc::str(2 * x) + " --bb " + mc::str(expr ? 6 * x * y : 3 * y) });
    check_runs(lab, e, parallel, servers, what);
    lab.must("hnco-runtime2-stat.pl", what);
    Ran again = lab.perl("hnco-runtime2-skeleton.pl");
    MC_CHECK(again.status != 0, "existing experiment", what << ": the skeleton accepts existing results");
    check_runs(lab, e, parallel, servers, what + " (after a second skeleton)");
  }
}
void run_single(bool parallel, bool servers) {
  Lab lab; lab.renamed = !servers && !parallel;
  for (const char *kind : { "observable-evolution", "walsh-transforms", "autocorrelation" }) for (int nf = 1; nf <= 2; nf++) for (int na = 1; na <= 2; na++) {
    std::string k = kind; bool algos = k == "observable-evolution"; if (!algos && na > 1) continue;
    lab.fresh(); Words fns, al; for (int f = 0; f < nf; f++) fns.push_back("{ \"id\": \"" + fid(f) + "\", \"opt\": \"-F " + mc::str(f) + "\" }"); for (int i = 0; i < na; i++) al.push_back("{ \"id\": \"" + aid(i) + "\", \"opt\": \"-A " + mc::str(i) + "\" }");
    lab.file("plan.json", std::string("{ \"exec\": \"prog\", \"opt\": \"-s 5 -z\", \"parallel\": ") + flag(parallel) + servers_json(servers) + ", \"results\": \"results\", " + (algos ? "\"algorithms\": [ " + join(al) + " ], \"graphics\": { \"xcolumn\": 1, \"ycolumn\": 2, \"xlabel\": \"x\", \"ylabel\": \"y\", \"key\": \"set key\" }, " : "\"graphics\": \"graphics\", \"report\": \"report\", \"lag_max\": 3, ") + "\"functions\": [ " + join(fns) + " ] }");
    std::string what = k + (parallel ? ", parallel" : "") + (servers ? ", servers" : "") + ", " + mc::str(nf) + " functions, " + mc::str(na) + " algorithms";
    lab.must(algos ? "hnco-observable-evolution-skeleton.pl" : "hnco-walsh-transforms-skeleton.pl", what); lab.must("hnco-" + k + "-run.pl", what);
    std::vector<Expected> e;
    for (int f = 0; f < nf; f++) for (int i = 0; i < (algos ? na : 1); i++) e.push_back({ "results/" + fid(f) + "/" + (algos ? aid(i) + "/" : "") + "1.out", "-s 5 -z -F " + mc::str(f) + (algos ? " -A " + mc::str(i) : "") });
    check_runs(lab, e, parallel, servers, what);
    if (algos) {
      for (const char *s : { "hnco-observable-evolution-stat.pl", "hnco-maximum-evolution-stat.pl" }) {
        lab.must(s, what); check_report(lab, { "graphics.gp" }, "report/results.tex", what);
        std::string gp = lab.read("graphics.gp"); std::set<std::string> drawn; for (auto& p : plots(gp)) { drawn.insert(p.path); MC_CHECK(p.spec.size() == 2 && column(p.spec[0], { 1, 5 }, what) == 1 && column(p.spec[1], { 1, 5 }, what) == 5, "curve", what); }
        for (auto& x : e) MC_CHECK(drawn.count(x.out), "curve", what << ": " << s << " does not draw " << x.out);
      }
    }
  }
}

} // namespace

void mc_register() {
  bool t = mc::thorough();
  for (int reverse = 0; reverse < 2; reverse++) {
    std::string R = reverse ? "-reverse" : "";
    for (auto ar : std::vector<std::pair<int, int>>{ { 1, 1 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 3, 1 }, { 1, 4 }, { 1, 5 }, { 2, 4 } })
      mc::add("benchmark-" + mc::str(ar.first) + "-" + mc::str(ar.second) + R, [=] { benchmark(ar.first, ar.second, 120, reverse, false, 0); });
    mc::add("benchmark-2-5" + R, [=] { benchmark(2, 5, 150, reverse, false, 0); });
    mc::add("alternative-2-1-5" + R, [=] { alternative(2, 1, 5, 150, reverse, 0); });
    mc::add("benchmark-deterministic" + R, [=] { for (int d = 1; d < 4; d++) benchmark(2, 2, 90, reverse, true, d); });
    if (t) { mc::add("benchmark-3-2" + R, [=] { benchmark(3, 2, 150, reverse, true, 0); });  mc::add("benchmark-4-1" + R, [=] { benchmark(4, 1, 100, reverse, false, 0); }); }
    for (auto ar : std::vector<std::pair<int, int>>{ { 1, 3 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 3, 1 } })
      mc::add("parameter-" + mc::str(ar.first) + "-" + mc::str(ar.second) + R, [=] { parameter(ar.first, ar.second, 120, reverse, ar.second == 2); });
    if (t) { mc::add("parameter-3-2" + R, [=] { parameter(3, 2, 150, reverse, true); }); mc::add("parameter-2-4" + R, [=] { parameter(2, 4, 150, reverse, false); }); }
    mc::add("alternative-1-2-2" + R, [=] { alternative(1, 2, 2, 120, reverse, 0); });
    mc::add("alternative-2-2-1" + R, [=] { alternative(2, 2, 1, 120, reverse, 0); });
    mc::add("alternative-2-1-3" + R, [=] { alternative(2, 1, 3, 120, reverse, 0); });
    mc::add("alternative-deterministic" + R, [=] { for (int d = 1; d < 4; d++) alternative(2, 1, 2, 90, reverse, d); });
    if (t) mc::add("alternative-2-2-2" + R, [=] { alternative(2, 2, 2, 200, reverse, 0); });
  }
  mc::add("fixed-target-1-2", [=] { fixed_target(1, 2, 60); });
  mc::add("fixed-target-2-1", [=] { fixed_target(2, 1, 60); });
  mc::add("fixed-target-2-2", [=] { fixed_target(2, 2, 90); });
  mc::add("fixed-target-3-1", [=] { fixed_target(3, 1, 60); });
  if (t) { mc::add("fixed-target-2-3", [=] { fixed_target(2, 3, 100); }); mc::add("fixed-target-3-2", [=] { fixed_target(3, 2, 200); }); }
  for (int d = 0; d < 3; d++) mc::add("lookup-2-2-" + mc::str(d), [=] { lookup(2, 2, 90, d); });
  mc::add("lookup-3-1", [=] { lookup(3, 1, 90, 0); });
  mc::add("lookup-2-5", [=] { lookup(2, 5, 150, 0); });
  mc::add("lookup-2-3", [=] { lookup(2, 3, 100, 0); });
  if (t) mc::add("lookup-3-2", [=] { lookup(3, 2, 150, 0); });
  for (int rt = 0; rt < 2; rt++) {
    std::string n = rt ? "runtime" : "function-parameter";
    mc::add(n + "-1-2-2", [=] { with_parameter(rt, 1, 2, 2, 90, 0, false); });
    mc::add(n + "-2-1-3", [=] { with_parameter(rt, 2, 1, 3, 100, 0, true); });
    mc::add(n + "-2-1-5", [=] { with_parameter(rt, 2, 1, 5, 150, 0, false); });
    mc::add(n + "-2-2-1", [=] { with_parameter(rt, 2, 2, 1, 90, 0, true); });
    mc::add(n + "-deterministic", [=] { for (int d = 1; d < 4; d++) with_parameter(rt, 2, 1, 2, 90, d, false); });
    if (t) mc::add(n + "-2-2-2", [=] { with_parameter(rt, 2, 2, 2, 200, 0, false); });
  }
  for (int p = 0; p < 2; p++) { mc::add("runtime2-2-2-1-" + mc::str(p), [=] { runtime2(2, 2, 1, 0, p); }); if (t) mc::add("runtime2-1-2-2-" + mc::str(p), [=] { runtime2(1, 2, 2, 2 * p, p); }); }
  mc::add("runtime2-2-1-2", [=] { runtime2(2, 1, 2, 2, false); });
  mc::add("runtime2-1-1-3", [=] { runtime2(1, 1, 3, 0, false); });
  for (int k = 2; k <= 4; k++) {
    mc::add("ecdf-1-1-" + mc::str(k), [=] { ecdf(1, 1, k, 0, 1, 0, 1); });
    mc::add("ecdf-2-1-" + mc::str(k), [=] { ecdf(2, 1, k, -1, 2, 0, 1); });
    mc::add("ecdf-1-2-" + mc::str(k), [=] { ecdf(1, 2, k, 0, 1, 0, 1); });
    // real values: no level but the first and the last one may be a target
    if (k != 3) { mc::add("ecdf-real-" + mc::str(k), [=] { ecdf(1, 2, k, 0.1, 0.2, 0, 1); ecdf(2, 1, k, 0.2, 0.4, 0, 1); ecdf(1, 1, k, -0.7, 0.1, 0, 1); }); }
    mc::add("ecdf-deterministic-" + mc::str(k), [=] { ecdf(2, 2, k, 0, 1, 1, t ? 61 : 361 + 2); });
    if (t) mc::add("ecdf-3-1-" + mc::str(k), [=] { ecdf(3, 1, k, 0, 1, 0, 1); });
  }
  for (int l = 2; l <= (t ? 6 : 5); l++) for (int lag = 1; lag <= l; lag++) { int n = 1; for (int i = 0; i < l; i++) n *= 3; mc::add("autocorrelation-" + mc::str(l) + "-" + mc::str(lag), [=] { autocorrelation(l, lag, 0, n); }); }
  for (int l = 1; l <= (t ? 4 : 3); l++) mc::add("walsh-" + mc::str(l), [=] { walsh(l); });
  for (int p = 0; p < 2; p++) for (int s = 0; s <= p; s++) {
    std::string n = std::string(p ? "-parallel" : "-sequential") + (s ? "-servers" : "");
    mc::add("run-benchmark" + n, [=] { run_benchmark("hnco-benchmark-run.pl", p, s); });
    mc::add("run-fixed-target" + n, [=] { run_benchmark("hnco-fixed-target-run.pl", p, s); });
    mc::add("run-parameter" + n, [=] { run_parameter(p, s); });
    mc::add("run-alternative" + n, [=] { run_alternative(p, s); });
    mc::add("run-runtime" + n, [=] { run_runtime(p, s); });
    mc::add("run-runtime2" + n, [=] { run_runtime2(p, s); });
    mc::add("run-single" + n, [=] { run_single(p, s); });
  }
}
