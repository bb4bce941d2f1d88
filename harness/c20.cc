// C20: representation expressions mean what their grammar says, or are refused.
#include <fstream>
#include <iostream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <climits>
#include <complex>
#include "common.hh"
#include "hnco/functions/converter.hh"
#include "hnco/functions/multivariate-function-adapter.hh"
#include "hnco/functions/collection/parsed-multivariate-function.hh"
#include "hnco/multiobjective/functions/multivariate-function-adapter.hh"
#include "hnco/multiobjective/functions/collection/parsed-multivariate-function.hh"
#include "hnco/app/make-multivariate-function-adapter.hh"
using namespace hnco;
using namespace hnco::app;
using namespace vp;
namespace F = hnco::function;
namespace M = hnco::multiobjective::function;

namespace {

struct Opts {
  std::string expression, representations, path, reps_path;
  bool has_expression = true, has_reps = true, has_precision = false, has_size = false; double precision = 0; int size = 0;
  std::string int_rep = "int(-10, 10)", long_rep = "long(-100, 100)", double_rep = "double(0, 1, precision = 1e-3)";
  bool with_fp_expression() const { return has_expression; }
  std::string get_fp_expression() const { return expression; }
  std::string get_path() const { return path; }
  bool with_fp_representations() const { return has_reps; }
  std::string get_fp_representations() const { return representations; }
  std::string get_fp_representations_path() const { return reps_path; }
  bool with_fp_default_double_precision() const { return has_precision; }
  double get_fp_default_double_precision() const { return precision; }
  bool with_fp_default_double_size() const { return has_size; }
  int get_fp_default_double_size() const { return size; }
  std::string get_fp_default_int_rep() const { return int_rep; }
  std::string get_fp_default_long_rep() const { return long_rep; }
  std::string get_fp_default_double_rep() const { return double_rep; }
};

/// Reference: strict grammar with three verdicts
enum Verdict { accept, refuse, unspecified };
struct Rep {
  char type = 0; long a = 0, b = 0; double x = 0, y = 0, precision = 0; int size = 0; std::vector<double> values;
  int bits() const {
    if (type == 'i' || type == 'l') { int s = 0; unsigned long d = (unsigned long)b - (unsigned long)a; while (d) { d >>= 1; s++; } return std::max(1, s); }
    if (type == 's') { int s = 0; while ((size_t(1) << s) < values.size()) s++; return std::max(1, s); }
    if (size > 0) return size;
    return std::max(1, int(std::ceil(std::log((y - x) / precision) / std::log(2))));
  }
  double value(const bit_vector_t& v) const {
    uint64_t u = vp::bits(v);
    if (type == 'i' || type == 'l') return double(a + long(std::min<uint64_t>(u, uint64_t(b) - uint64_t(a))));
    if (type == 's') { auto w = values; std::sort(w.begin(), w.end()); return w[std::min<uint64_t>(u, w.size() - 1)]; }
    double r = 0, l = 0.5; for (auto c : v) { if (c) r += l; l /= 2; }
    return x + (y - x) * r;
  }
};
using Env = std::map<std::string, Rep>;

std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
std::vector<std::string> parts(const std::string& s, char c) { std::vector<std::string> r(1); for (char d : s) if (d == c) r.push_back(""); else r.back() += d; return r; }
Verdict worst(Verdict a, Verdict b) { return a == refuse || b == refuse ? refuse : a == unspecified || b == unspecified ? unspecified : accept; }

Verdict integer(const std::string& s, long lo, long hi, long& v) {
  const char *p = s.c_str(); char *e; errno = 0; v = std::strtol(p, &e, 10);
  if (e == p) return refuse;
  if (errno || v < lo || v > hi) return refuse;
  while (isspace((unsigned char)*e)) e++;
  return *e ? refuse : accept;
}
Verdict real(const std::string& s, double& v) {
  const char *p = s.c_str(); char *e; errno = 0; v = std::strtod(p, &e);
  if (e == p) return refuse;
  bool range = errno != 0; if (range && std::isinf(v)) return refuse;
  while (isspace((unsigned char)*e)) e++;
  return *e ? refuse : range || !std::isfinite(v) ? unspecified : accept;
}
Verdict one(const std::string& s, const Opts& o, Rep& r) {
  auto op = s.find('('); if (op == std::string::npos) return refuse;
  auto cl = s.find(')', op); if (cl == std::string::npos) return refuse;
  auto t = words(s.substr(0, op)); if (t.empty()) return refuse;
  if (t.size() > 1 || !words(s.substr(cl + 1)).empty()) return refuse;
  Verdict v = accept;
  auto args = parts(s.substr(op + 1, cl - op - 1), ',');
  if (t[0] == "int" || t[0] == "long") {
    r.type = t[0] == "int" ? 'i' : 'l';
    long lo = r.type == 'i' ? -2147483648l : LONG_MIN, hi = r.type == 'i' ? 2147483647l : LONG_MAX;
    if (args.size() != 2) return refuse;
    Verdict u = worst(integer(args[0], lo, hi, r.a), integer(args[1], lo, hi, r.b));
    if (u == accept && (r.a > r.b || __int128(r.b) - __int128(r.a) > __int128(hi))) return refuse;
    return worst(u, v);
  }
  if (t[0] == "double") {
    r.type = 'd';
    if (args.size() < 2 || args.size() > 3) return refuse;
    Verdict u = worst(real(args[0], r.x), real(args[1], r.y));
    if (u == accept && (!(r.x < r.y) || !std::isfinite(r.y - r.x))) return refuse;
    if (args.size() == 2) {
      if (o.has_precision) { r.precision = o.precision; if (!(r.precision > 0)) return refuse; }
      else if (o.has_size) { r.size = o.size; if (r.size <= 0) return refuse; }
      else return refuse;
      return worst(u, v);
    }
    auto kv = parts(args[2], '='); if (kv.size() != 2) return refuse;
    auto k = words(kv[0]); if (k.size() != 1) return refuse;
    Verdict q;
    if (k[0] == "precision") { q = real(kv[1], r.precision); if (q == accept && !(r.precision > 0)) return refuse; }
    else if (k[0] == "size") { long z = 0; q = integer(kv[1], INT_MIN, INT_MAX, z); r.size = int(z); if (q == accept && z <= 0) return refuse; if (z > 100000) q = worst(q, unspecified); }
    else return refuse;
    return worst(worst(u, v), q);
  }
  if (t[0] == "set") {
    r.type = 's';
    for (auto& a : args) { double x; v = worst(v, real(a, x)); r.values.push_back(x); }
    return v;
  }
  return refuse;
}
Verdict all(const std::string& s, const Opts& o, Env& env) {
  Verdict v = accept;
  for (auto& d : parts(s, ';')) {
    if (d.empty()) continue;
    if (words(d).empty()) { v = worst(v, unspecified); continue; }   // only white space: not in the grammar
    auto c = d.find(':'); if (c == std::string::npos) return refuse;
    auto n = words(d.substr(0, c)); if (n.size() != 1) return refuse;
    Rep r; v = worst(v, one(d.substr(c + 1), o, r));
    if (v == refuse) return refuse;
    if (env.count(n[0])) return refuse;   // declared twice
    env[n[0]] = r;
  }
  return v;
}

std::string quote(const std::string& s) { std::string r = "\""; for (char c : s) r += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : std::string(1, c); return r + "\""; }

/// The parsed representation behaves as the reference
void same_rep(const std::string& s, const std::string& name, param_var_t p, const Rep& r) {
  MC_CHECK(p.index() == (r.type == 'i' ? 0u : r.type == 'l' ? 1u : r.type == 'd' ? 2u : 3u), "type", quote(s) << ": " << name << " of type " << p.index());
  std::visit([&](auto&& q) {
    auto rep = q.to_rep();
    int n = r.bits();
    MC_CHECK(rep.size() == n, "size", quote(s) << ": " << name << " on " << rep.size() << " bits instead of " << n);
    for (auto& x : domain(n, 5)) {
      double got = double(rep.unpack(x, 0)), want = r.value(x);
      double tol = 1e-13 * (r.type == 'd' ? std::fabs(r.x) + std::fabs(r.y) : 0);
      MC_CHECK(got == want || std::fabs(got - want) <= tol || (r.type == 'l' && close(got, want, 1e-15)), "value", quote(s) << ": " << name << " decodes " << show(x) << " as " << got << " instead of " << want);
    }
  }, p);
}
struct Quiet { std::ostringstream s; std::streambuf *old; Quiet() { old = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(old); } };

void check(const std::string& s, const Opts& o) {
  Env want; Verdict v = all(s, o, want);
  env_t got; bool ok = false; std::string why;
  try { got = parse_representations<Opts>(s, o); ok = true; } catch (std::runtime_error& e) { why = e.what(); }
  MC_CHECK(v != refuse || !ok, "refuse", "accepted " << quote(s));
  MC_CHECK(v != accept || ok, "accept", "refused " << quote(s) << ": " << why);
  if (v == accept) {
    MC_CHECK(got.size() == want.size(), "declarations", quote(s) << ": " << got.size() << " variables");
    for (auto& p : want) { MC_CHECK(got.count(p.first), "declarations", quote(s) << ": " << p.first << " missing"); same_rep(s, p.first, got[p.first], p.second); }
  } else if (ok) for (auto& p : got) { try { std::visit([&](auto&& q) { if constexpr (std::is_same_v<std::decay_t<decltype(q)>, DoubleRepParams>) { if (q.mode == 2 && q.size > 100000) return; } auto rep = q.to_rep(); (void)rep; }, p.second); } catch (std::runtime_error&) {} }
  mc::step();
  mc::state(mc::Hash().adds(s).add(int(v)).add(o.has_size + 2 * o.has_precision));
}
std::vector<Opts> variants() {
  std::vector<Opts> r(4); r[1].has_precision = true; r[1].precision = 0.125; r[2].has_size = true; r[2].size = 3; r[3].has_size = r[3].has_precision = true; r[3].size = 4; r[3].precision = 0.25;
  return r;
}

/// All expressions put together from pieces
void grammar(size_t type) {
  const std::vector<std::string> types = { "int", "long", "double", "set", "float", "", "in t", "INT" };
  const std::vector<std::string> nums = { "0", "1", " -3", "5 ", "+2", "7", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e3", "0.5", "-0.25", "x", "", " ", "1 2", "3x", "1e400", "nan" };
  const std::vector<std::string> keys = { "precision = 0.125", "size = 3", "precision=1", "precision = 100", "size=0", "size = -1", "precision = 0", "precision = -1", "size", "size = ", "size = 2 = 3", "width = 3", "= 3", "precision = x", " size = 64" , "0.1", "size = 2.5", "precision = 1e-2 " };
  const auto os = variants();
  const std::string& t = types[type];
  const std::vector<std::pair<std::string, std::string>> wraps = { { "x:", "" }, { " y1 : ", " " }, { "x", "" }, { ":", "" }, { "a b:", "" } };
  auto run = [&](const std::string& body) {
    for (auto& w : wraps) for (size_t o = 0; o < (&w == &wraps[0] ? os.size() : 1); o++) check(w.first + body + w.second, os[o]);
  };
  for (std::string open : { "(", "" }) for (std::string close : { ")", "", ") junk" }) {
    if ((open.empty() || close != ")")) { run(t + open + "0, 1" + close); continue; }
    run(t + open + close);
    for (auto& a : nums) {
      run(t + open + a + close);
      for (auto& b : nums) {
        check("x:" + t + open + a + "," + b + close, os[0]); check("x:" + t + open + a + "," + b + close, os[1]); check("x:" + t + open + a + "," + b + close, os[2]);
        for (auto& k : keys) check("x:" + t + "(" + a + "," + b + "," + k + ")", os[0]);
      }
    }
    run(t + open + "0, 1" + close); run(t + " " + open + "0,1,size=2,size=3" + close); run(t + open + "3, 1, 2" + close);
  }
}
/// All lists of declarations
void lists(int depth) {
  const std::vector<std::string> decl = { "x: int(0, 5)", " y : long(-1,1) ", "z:double(0, 1, size = 2)", "w: set(3, 1, 2)", "", "x: double(0, 1)", "v", "u: int(1)", "\nx1:\tint(0,1)", " ", "x: int(0, 1) y: int(0, 3)" };
  std::function<void(const std::string&, int)> rec = [&](const std::string& s, int d) {
    for (auto& o : variants()) check(s, o);
    if (d) for (auto& e : decl) rec(s + ";" + e, d - 1);
  };
  for (auto& e : decl) rec(e, depth - 1);
}
/// All single character edits of the documented example
void edits(size_t part, size_t of) {
  const std::string s = "x: double(0, 1); y: double(0, 1, precision = 1e-3); z: double(0, 1, size = 8); u: int(-10, 10); v: long(-100, 100); w: set(1.1, 2.2, 3.3)";
  const std::string chars = "0129-+.,;:()=xe \nsi";
  auto os = variants();
  for (size_t i = part; i <= s.size(); i += of) for (auto& o : os) {
    check(s.substr(0, i), o); check(s.substr(i), o);
    if (i < s.size()) check(s.substr(0, i) + s.substr(i + 1), o);
    for (char c : chars) { check(s.substr(0, i) + c + s.substr(i), o); if (i < s.size()) check(s.substr(0, i) + c + s.substr(i + 1), o); }
  }
}

/// Adapters: declared, missing and mismatched variables
template<class A> void adapter(const std::string& w, const Opts& o, char type, const std::vector<std::string>& names, std::function<double(const std::vector<double>&)> f, std::function<A *(const Opts&)> make, bool mixed, bool multi) {
  Opts used = o;
  std::string text = o.has_reps ? o.representations : "";
  Env env; if (all(text, o, env) != accept) return;
  Env def; if (all("i:" + o.int_rep + ";l:" + o.long_rep + ";d:" + o.double_rep, o, def) != accept) return;
  std::vector<Rep> reps;
  for (auto& n : names) {
    if (mixed) reps.push_back(env.count(n) && env[n].type != 'i' ? env[n] : def["d"]);
    else reps.push_back(env.count(n) && env[n].type == type ? env[n] : def[std::string(1, type)]);
  }
  std::unique_ptr<A> a; { Quiet q; a.reset(make(o)); }
  int n = 0; for (auto& r : reps) n += r.bits();
  MC_CHECK(a->get_bv_size() == n, "adapter", w << " with " << quote(text) << ": size " << a->get_bv_size() << " instead of " << n);
  auto dom = domain(n, 8);
  for (auto& x : dom) {
    std::vector<double> v; int s = 0; for (auto& r : reps) { v.push_back(r.value(bit_vector_t(x.begin() + s, x.begin() + s + r.bits()))); s += r.bits(); }
    double got, want = f(v);
    if constexpr (std::is_base_of_v<F::Function, A>) got = a->evaluate(x);
    else { M::value_t out(a->get_output_size(), -77); a->evaluate(x, out); got = out[0]; MC_CHECK(out.size() == 2 && out[1] == v[0], "adapter", w << ": second objective " << out[1]); }
    MC_CHECK(close(got, want, 1e-11), "adapter", w << " with " << quote(text) << " evaluates " << show(x) << " to " << got << " instead of " << want);
    mc::state(mc::Hash().adds(w).adds(text).add(got));
  }
}
void adapters(size_t first) {
  const std::vector<std::string> X = { "", "x:int(0,3)", "x:long(-2,1)", "x:double(-1,1,size=2)", "x:set(1,2,5)", "x:double(0,8)", "y:int(5,5)" };
  const std::vector<std::string> Y = { "", "y:int(-1,1)", "y:long(5,12)", "y:double(3,4,precision=0.5)", "y:set(9)", "q:int(0,1)" };
  for (auto& b : Y) for (auto& o0 : variants()) for (int dflt = 0; dflt < 2; dflt++) {
    Opts o = o0;
    if (dflt) { o.int_rep = "int(0, 6)"; o.long_rep = "long(1,2)"; o.double_rep = "double(2, 3, size = 2)"; }
    if (first == 6 && !b.empty() && b[0] == 'y') continue;
    o.representations = X[first] + ";" + b;
    const std::vector<std::string> xy = { "x", "y" };
    auto d = [](const std::vector<double>& v) { return 3 * v[0] - v[1] * v[1]; };
    auto ad = [&](const std::vector<double>& v) { return std::fabs(d(v)); };
    o.expression = "3*x - y*y";
    using PD = F::ParsedMultivariateFunction<FunctionParser>; using MD = M::ParsedMultivariateFunction<FunctionParser>;
    using S = F::ScalarToDouble<double>; using AV = F::AbsoluteValue<double>;
    { using A = F::MultivariateFunctionAdapter<PD, DoubleRep, S>; adapter<A>("double adapter", o, 'd', xy, d, make_multivariate_function_adapter<Opts, A>, false, false); }
    { using A = F::MultivariateFunctionAdapter<PD, IntRep, S>; adapter<A>("int adapter", o, 'i', xy, d, make_multivariate_function_adapter<Opts, A>, false, false); }
    { using A = F::MixedRepresentationMultivariateFunctionAdapter<PD, rep_var_t, AV>; adapter<A>("mixed adapter", o, 0, xy, ad, make_mixed_type_multivariate_function_adapter<Opts, A>, true, false); }
    { using A = F::MultivariateFunctionAdapter<F::ParsedMultivariateFunction<FunctionParser_li>, LongRep, F::ScalarToDouble<long>>; adapter<A>("long adapter", o, 'l', xy, d, make_multivariate_function_adapter<Opts, A>, false, false); }
    // the same from files
    {
      Opts g = o; g.has_expression = g.has_reps = false; g.path = scratch() + "/c20e." + mc::str(getpid()); g.reps_path = scratch() + "/c20r." + mc::str(getpid());
      { std::ofstream e(g.path), r(g.reps_path); e << o.expression; r << o.representations; }
      Opts h = g; h.has_reps = true; h.representations = o.representations;
      using A = F::MultivariateFunctionAdapter<PD, DoubleRep, S>;
      adapter<A>("double adapter from files", h, 'd', xy, d, [&](const Opts&) { return make_multivariate_function_adapter<Opts, A>(g); }, false, false);
      unlink(g.path.c_str()); unlink(g.reps_path.c_str());
      for (int miss = 0; miss < 2; miss++) { Opts m = o; if (miss) m.has_expression = false; else m.has_reps = false; m.path = m.reps_path = g.path; bool thrown = false; Quiet q; try { std::unique_ptr<A> a(make_multivariate_function_adapter<Opts, A>(m)); } catch (std::runtime_error&) { thrown = true; } MC_CHECK(thrown, "missing", "a missing file is accepted"); }
    }
    o.expression = "3*x - y*y :: x";
    { using A = M::MultivariateFunctionAdapter<MD, DoubleRep, S>; adapter<A>("multiobjective double adapter", o, 'd', xy, d, make_multivariate_function_adapter<Opts, A>, false, true); }
    { using A = M::MultivariateFunctionAdapter<MD, IntRep, S>; adapter<A>("multiobjective int adapter", o, 'i', xy, d, make_multivariate_function_adapter<Opts, A>, false, true); }
    { using A = M::MixedRepresentationMultivariateFunctionAdapter<MD, rep_var_t, S>; adapter<A>("multiobjective mixed adapter", o, 0, xy, d, make_mixed_type_multivariate_function_adapter<Opts, A>, true, true); }
    // complex numbers
    Opts z = o; z.expression = "z*z + pi";
    for (auto& rr : { std::string(""), std::string("z_re:double(0,2,size=2)"), std::string("z_im:double(-1,1,size=3);z_re:double(0,2,size=1)"), std::string("z_re:int(0,1);z_im:set(1,2)"), std::string("z:double(0,9,size=1)") }) {
      z.representations = rr;
      using A = F::MultivariateFunctionAdapter<F::ParsedMultivariateFunction<FunctionParser_cd>, representation::ComplexRepresentation<DoubleRep>, F::SquaredMagnitude<double>>;
      adapter<A>("complex adapter", z, 'd', { "z_re", "z_im" }, [](const std::vector<double>& v) { std::complex<double> c(v[0], v[1]); return std::norm(c * c + M_PI); }, make_multivariate_function_adapter_complex<Opts, A>, false, false);
    }
  }
}

} // namespace

void mc_register() {
  bool th = mc::thorough();
  for (size_t t = 0; t < 8; t++) mc::add("grammar " + mc::str(t), [=]() { grammar(t); });
  mc::add("lists", [=]() { lists(th ? 5 : 4); });
  for (size_t p = 0; p < 8; p++) mc::add("edits " + mc::str(p), [=]() { edits(p, 8); });
  for (size_t i = 0; i < 7; i++) mc::add("adapters " + mc::str(i), [=]() { adapters(i); });
}
