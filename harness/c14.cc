// C14: estimation of distribution algorithms learn and sample the model they announce.
#include "algs.hh"
#include <map>
using namespace hnco::algorithm;
using namespace hnco::algorithm::walsh_moment;
using namespace vp;

namespace {

using Pop = std::vector<bit_vector_t>;
using V = std::vector<double>;

/// Probe which calls back after every evaluation
class Hooked: public Probe {
public:
  std::function<void(long)> hook;
  Hooked(int n, std::function<double(const bit_vector_t&)> f): Probe(n, f) {}
  double evaluate(const bit_vector_t& x) override { double v = Probe::evaluate(x); if (hook) hook(count); return v; }
};

struct Run { Hooked probe; solution_t sol; bool interrupted = false; std::vector<V> log; Run(int n, const Land& l): probe(n, l.f) {} };

void go(Alg& a, Run& r) {
  std::string text;
  {
    Capture c;
    try { a.a->maximize({ &r.probe }); }
    catch (hnco::exception::LastEvaluation&) { r.interrupted = true; }
    a.a->finalize();
    text = c.s.str();
  }
  r.sol = a.a->get_solution();
  std::istringstream s(text); std::string line;
  while (std::getline(s, line)) { std::istringstream w(line); V v; double x; while (w >> x) v.push_back(x); r.log.push_back(v); }
  mc::Hash h; for (auto& e : r.probe.trace) h.addv(e.x); mc::state(h);
}

std::string tr(const Run& r) {
  std::ostringstream s; s.precision(10);
  for (auto& e : r.probe.trace) s << show(e.x) << "=" << e.v << " ";
  s << "solution " << show(r.sol.first) << "=" << r.sol.second << " log ";
  for (auto& l : r.log) s << mc::vec(l);
  return s.str();
}

inline bit_vector_t BV(int n, uint64_t u) { return vp::bv(u, n); }

bool near_(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::max(1.0, std::fabs(b)); }

/// All multisets of k best (sign 1) or worst (sign -1) individuals
std::set<Pop> select(const std::vector<std::pair<bit_vector_t, double>>& pool, int k, int sign) {
  auto s = pool;
  std::stable_sort(s.begin(), s.end(), [&](auto& a, auto& b) { return sign * a.second > sign * b.second; });
  double cut = s[size_t(k - 1)].second;
  Pop sure, maybe;
  for (auto& q : s) if (sign * q.second > sign * cut) sure.push_back(q.first); else if (q.second == cut) maybe.push_back(q.first);
  std::vector<bool> pick(maybe.size(), false);
  std::fill(pick.begin(), pick.begin() + (k - long(sure.size())), true);
  std::set<Pop> r;
  do {
    Pop q = sure;
    for (size_t i = 0; i < maybe.size(); i++) if (pick[i]) q.push_back(maybe[i]);
    std::sort(q.begin(), q.end());
    r.insert(q);
  } while (std::prev_permutation(pick.begin(), pick.end()));
  return r;
}

V mean(const Pop& p, int n) {
  V m(size_t(n), 0.0);
  for (auto& x : p) for (int i = 0; i < n; i++) m[size_t(i)] += x[size_t(i)];
  for (auto& x : m) x /= double(p.size());
  return m;
}

void bound(V& p, int n) { for (auto& x : p) x = std::max(1.0 / n, std::min(1 - 1.0 / n, x)); }

double entropy(const V& p) { double s = 0; for (double x : p) if (x > 0 && x < 1) s -= x * std::log(x) + (1 - x) * std::log(1 - x); return s; }

enum Kind { UMDA, PBIL, NPS, MMAS, MMAS_STRICT, CGA, RAM, RAM2, KINDS };
const char *names[] = { "umda", "pbil", "nps-pbil", "mmas", "mmas-strict", "compact-ga", "ram-umda", "ram-umda2" };

struct Par { Kind k; int n, lambda, sel, iters; double rate; int entropy = 0; long limit = -1; double pc = 0.5, pl = 0.5; };

int per_iteration(const Par& p) { return p.k == MMAS || p.k == MMAS_STRICT ? 1 : p.k == CGA ? 2 : p.lambda; }

template<class T> void common(T *q, const Par& p) { q->set_num_iterations(p.iters); q->set_log_pv(true); q->set_log_entropy(p.entropy); q->set_log_num_components(p.n); }

Alg make(const Par& p) {
  Alg a;
  switch (p.k) {
  case UMDA: { auto q = a.make<Umda>(p.n, p.lambda); common(q, p); q->set_selection_size(p.sel); break; }
  case PBIL: { auto q = a.make<Pbil>(p.n, p.lambda); common(q, p); q->set_selection_size(p.sel); q->set_learning_rate(p.rate); break; }
  case NPS: { auto q = a.make<NpsPbil>(p.n, p.lambda); common(q, p); q->set_selection_size(p.sel); q->set_learning_rate(p.rate); break; }
  case MMAS: { auto q = a.make<Mmas>(p.n); common(q, p); q->set_learning_rate(p.rate); break; }
  case MMAS_STRICT: { auto q = a.make<Mmas>(p.n); common(q, p); q->set_learning_rate(p.rate); q->set_compare(std::greater<double>()); break; }
  case CGA: { auto q = a.make<CompactGa>(p.n); common(q, p); q->set_learning_rate(p.rate); break; }
  case RAM: { auto q = a.make<RamUmda>(p.n, p.lambda); common(q, p); q->set_selection_size(p.sel); q->set_ts_length(0); break; }
  case RAM2: { auto q = a.make<RamUmda2>(p.n, p.lambda); common(q, p); q->set_selection_size(p.sel); q->set_ts_length(0); q->set_crossover_probability(p.pc); q->set_latent_space_probability(p.pl); break; }
  default: break;
  }
  return a;
}

/// Follow the model along the trace; returns the models possible at the end
std::vector<V> follow(const Run& r, const Par& p) {
  auto& t = r.probe.trace;
  const int n = p.n, L = per_iteration(p);
  std::vector<V> cur;
  if (t.empty()) return cur;
  for (auto& e : t) MC_CHECK(e.kind == 'e', "kind", tr(r));
  if (!r.interrupted) MC_CHECK(long(t.size()) == 1 + long(L) * p.iters, "evaluations", "expected " << 1 + L * p.iters << ": " << tr(r));
  else MC_CHECK(long(t.size()) == p.limit, "interruption", tr(r));
  V pv(size_t(n), 0.5);
  bit_vector_t best = t[0].x; double bv = t[0].v;
  if (p.k == MMAS || p.k == MMAS_STRICT) { for (int i = 0; i < n; i++) pv[size_t(i)] += p.rate * (best[size_t(i)] - pv[size_t(i)]); bound(pv, n); }
  cur.push_back(pv);
  size_t done = (t.size() - 1) / size_t(L);
  if (!r.interrupted) MC_CHECK(r.log.size() == done, "log", "expected " << done << " lines: " << tr(r));
  done = std::min(done, r.log.size());
  for (size_t it = 0; it < done; it++) {
    std::vector<std::pair<bit_vector_t, double>> pool;
    for (int k = 0; k < L; k++) { auto& e = t[1 + it * size_t(L) + size_t(k)]; pool.push_back({ e.x, e.v }); }
    std::vector<V> next;
    auto put = [&](V v) {
      bound(v, n);
      for (auto& o : next) { double d = 0; for (int i = 0; i < n; i++) d = std::max(d, std::fabs(o[size_t(i)] - v[size_t(i)])); if (d < 1e-12) return; }
      next.push_back(v);
    };
    if (p.k == MMAS || p.k == MMAS_STRICT) {
      if (p.k == MMAS ? pool[0].second >= bv : pool[0].second > bv) { best = pool[0].first; bv = pool[0].second; }
      for (auto v : cur) { for (int i = 0; i < n; i++) v[size_t(i)] += p.rate * (best[size_t(i)] - v[size_t(i)]); put(v); }
    } else if (p.k == CGA) {
      for (auto& v0 : cur)
        for (int w = 0; w < 2; w++) {
          if (pool[size_t(w)].second < pool[size_t(1 - w)].second) continue;
          V v = v0;
          for (int i = 0; i < n; i++) { int a = pool[size_t(w)].first[size_t(i)], b = pool[size_t(1 - w)].first[size_t(i)]; v[size_t(i)] += p.rate * (a - b); }
          put(v);
        }
    } else {
      for (auto& b : select(pool, p.sel, 1)) {
        V m = mean(b, n);
        if (p.k == UMDA || p.k == RAM || p.k == RAM2) put(m);
        else if (p.k == PBIL) { for (auto v : cur) { for (int i = 0; i < n; i++) v[size_t(i)] += p.rate * (m[size_t(i)] - v[size_t(i)]); put(v); } }
        else for (auto& w : select(pool, p.sel, -1)) {
          V mw = mean(w, n);
          for (auto v : cur) { for (int i = 0; i < n; i++) v[size_t(i)] += p.rate * (m[size_t(i)] - mw[size_t(i)]); put(v); }
        }
      }
    }
    cur.clear();
    auto& l = r.log[it];
    MC_CHECK(l.size() == size_t(n + p.entropy), "log", tr(r));
    for (auto& v : next) {
      bool ok = true;
      // the latent space is the solution space up to a translation
      for (int i = 0; i < n; i++) ok &= near_(l[size_t(i + p.entropy)], v[size_t(i)]) || (p.k == RAM && near_(l[size_t(i + p.entropy)], 1 - v[size_t(i)]));
      if (p.entropy) ok &= near_(l[0], entropy(v));
      if (ok) cur.push_back(v);
    }
    MC_CHECK(!cur.empty(), "model", "the logged probability vector of iteration " << it << " is none of those allowed by the rule, for example " << mc::vec(next[0]) << ": " << tr(r));
  }
  // best so far
  double top = -INFINITY; bool known = false;
  size_t upto = r.interrupted ? 1 + ((t.size() - 1) / size_t(L)) * size_t(L) : t.size();
  for (size_t i = 0; i < t.size(); i++) { if (i < upto) top = std::max(top, t[i].v); known |= t[i].x == r.sol.first && t[i].v == r.sol.second; }
  MC_CHECK(known && r.sol.second >= top, "best", "the solution is not the best of " << upto << " evaluations: " << tr(r));
  if (p.k == MMAS || p.k == MMAS_STRICT) if (!r.interrupted) MC_CHECK(r.sol.first == best && r.sol.second == bv, "best", tr(r));
  return cur;
}

bool uses_sel(Kind k) { return k == UMDA || k == PBIL || k == NPS || k == RAM || k == RAM2; }
bool uses_rate(Kind k) { return k == PBIL || k == NPS || k == MMAS || k == MMAS_STRICT || k == CGA; }

/// Probability of a population of independent samples
double product(const V& pv, const bit_vector_t& x) { double q = 1; for (size_t i = 0; i < x.size(); i++) q *= x[i] ? pv[i] : 1 - pv[i]; return q; }

using Dist = std::map<Pop, double>;

/// Distribution of the generation that follows `gens` generations drawn from the seed
template<class F> Dist window(F make_, int n, const Land& l, long from, long to, uint64_t seed, std::vector<double> th) {
  Dist d;
  mc::Opt o; mc::cells(o, th);
  double total = 0;
  mc::explore(o, [&]() {
    Run r(n, l);
    Alg a = make_();
    r.probe.limit = to;
    auto fx = std::make_unique<mc::Fixed>(seed);
    r.probe.hook = [&](long c) { if (c == from) fx.reset(); if (c == to) throw hnco::exception::LastEvaluation(); };
    go(a, r);
    MC_CHECK(long(r.probe.trace.size()) == to, "window", tr(r));
    Pop g; for (long i = from; i < to; i++) g.push_back(r.probe.trace[size_t(i)].x);
    d[g] += mc::prob(); total += mc::prob();
  });
  // draws whose probability is unknown (raw engine outputs): nothing can be said
  if (std::fabs(total - 1) > 1e-9) d.clear();
  return d;
}

/// Compare with independent samples of one distribution q
bool matches(const Dist& d, int n, int L, const std::function<double(const bit_vector_t&)>& q, std::string& why) {
  if (d.empty()) return true;
  uint64_t N = 1ull << (n * L);
  for (uint64_t c = 0; c < N; c++) {
    Pop g; double e = 1;
    for (int k = 0; k < L; k++) { bit_vector_t x = BV(n, (c >> (n * k)) & ((1u << n) - 1)); g.push_back(x); e *= q(x); }
    auto it = d.find(g);
    double m = it == d.end() ? 0 : it->second;
    if (std::fabs(m - e) > 1e-9) {
      std::ostringstream s; s << "generation"; for (auto& x : g) s << " " << show(x);
      s << " has probability " << m << " instead of " << e; why = s.str(); return false;
    }
  }
  return true;
}

// MIMIC -------------------------------------------------------------------

struct Chain { std::vector<int> order; std::vector<std::array<double, 2>> p; };

double chain_prob(const Chain& c, const bit_vector_t& x) {
  double q = 1; int prev = 0;
  for (size_t k = 0; k < c.order.size(); k++) {
    int b = x[size_t(c.order[k])];
    double p1 = c.p[k][size_t(k ? prev : 1)];
    q *= b ? p1 : 1 - p1; prev = b;
  }
  return q;
}

void chains(const Pop& s, int n, Chain c, std::vector<Chain>& out) {
  const double S = double(s.size());
  auto bd = [&](double p) { return std::max(1.0 / n, std::min(1 - 1.0 / n, p)); };
  if (int(c.order.size()) == n) { out.push_back(c); return; }
  std::vector<double> h(size_t(n), INFINITY); std::vector<std::array<double, 2>> pr((size_t(n)));
  double best = INFINITY;
  for (int j = 0; j < n; j++) {
    if (std::find(c.order.begin(), c.order.end(), j) != c.order.end()) continue;
    if (c.order.empty()) {
      double m = 0; for (auto& x : s) m += x[size_t(j)]; m /= S;
      h[size_t(j)] = std::min(m, 1 - m); pr[size_t(j)] = { bd(m), bd(m) };
    } else {
      int f = c.order.back(); double cnt[2][2] = { { 0, 0 }, { 0, 0 } };
      for (auto& x : s) cnt[x[size_t(f)]][x[size_t(j)]]++;
      double e = 0;
      for (int a = 0; a < 2; a++) {
        double t = cnt[a][0] + cnt[a][1];
        for (int b = 0; b < 2; b++) if (cnt[a][b] > 0) e += cnt[a][b] * std::log(t / cnt[a][b]);
        pr[size_t(j)][size_t(a)] = bd(t > 0 ? cnt[a][1] / t : 0.5);
      }
      h[size_t(j)] = e;
    }
    best = std::min(best, h[size_t(j)]);
  }
  for (int j = 0; j < n; j++) if (h[size_t(j)] <= best + 1e-9) { Chain d = c; d.order.push_back(j); d.p.push_back(pr[size_t(j)]); chains(s, n, d, out); }
}

// Walsh moments -----------------------------------------------------------

/// Reference moment: m[i][i] first moments, m[i][j] second moments
struct Ref {
  int n; std::vector<V> m;
  explicit Ref(int n_): n(n_), m(size_t(n_), V(size_t(n_), 0.0)) {}
  template<class F> void each(F f) { for (size_t i = 0; i < size_t(n); i++) for (size_t j = 0; j < size_t(n); j++) f(m[i][j], i, j); }
  void add(const bit_vector_t& x) { each([&](double& v, size_t i, size_t j) { v += i == j ? (x[i] ? -1 : 1) : (x[i] == x[j] ? 1 : -1); }); }
  void scale(double c) { each([&](double& v, size_t, size_t) { v /= c; }); }
  double norm(int p) const {
    double s = 0;
    for (size_t i = 0; i < size_t(n); i++) for (size_t j = 0; j <= i; j++) { double a = std::fabs(m[i][j]); s = p == 1 ? s + a : p == 2 ? s + a * a : std::max(s, a); }
    return p == 2 ? std::sqrt(s) : s;
  }
};
Ref rmean(const Pop& p, int n) { Ref r(n); for (auto& x : p) r.add(x); r.scale(double(p.size())); return r; }
Ref comb(const Ref& a, double ca, const Ref& b, double cb) { Ref r(a.n); r.each([&](double& v, size_t i, size_t j) { v = ca * a.m[i][j] + cb * b.m[i][j]; }); return r; }

double second(const TriangularMoment& m, size_t i, size_t j) { return i > j ? m.second_moment[i][j] : m.second_moment[j][i]; }
double second(const FullMoment& m, size_t i, size_t j) { return m.second_moment[i][j]; }
void set_second(TriangularMoment& m, size_t i, size_t j, double v) { if (i > j) m.second_moment[i][j] = v; else m.second_moment[j][i] = v; }
void set_second(FullMoment& m, size_t i, size_t j, double v) { m.second_moment[i][j] = m.second_moment[j][i] = v; }

template<class M> std::string diff(const M& m, const Ref& r) {
  for (size_t i = 0; i < size_t(r.n); i++) {
    if (!(std::fabs(m.first_moment[i] - r.m[i][i]) < 1e-9)) return "first moment " + mc::str(i) + " is " + mc::str(m.first_moment[i]) + " instead of " + mc::str(r.m[i][i]);
    for (size_t j = 0; j < size_t(r.n); j++) if (i != j && !(std::fabs(second(m, i, j) - r.m[i][j]) < 1e-9)) return "second moment " + mc::str(i) + " " + mc::str(j) + " is " + mc::str(second(m, i, j)) + " instead of " + mc::str(r.m[i][j]);
  }
  return "";
}
template<class M> M from_ref(const Ref& r) {
  M m(r.n); m.init();
  for (size_t i = 0; i < size_t(r.n); i++) { m.first_moment[i] = r.m[i][i]; for (size_t j = 0; j < i; j++) set_second(m, i, j, r.m[i][j]); }
  return m;
}
/// c-th moment of a grid
Ref grid(int n, const V& values, uint64_t c) {
  Ref r(n);
  for (size_t i = 0; i < size_t(n); i++) for (size_t j = 0; j <= i; j++) { r.m[i][j] = r.m[j][i] = values[c % values.size()]; c /= values.size(); }
  return r;
}

template<class M> void moments(int n) {
  // every pair of small populations
  std::vector<Pop> pops;
  for (int k = 1; k <= 3; k++) { uint64_t N = 1ull << (n * k); for (uint64_t c = 0; c < N; c++) { Pop p; for (int i = 0; i < k; i++) p.push_back(BV(n, (c >> (n * i)) & ((1u << n) - 1))); if (std::is_sorted(p.begin(), p.end())) pops.push_back(p); } }
  std::vector<Ref> refs;
  M used(n);
  for (auto& p : pops) {
    // the object is used again for every population
    used.init();
    for (auto& x : p) used.add(x);
    if (p.size() > 1 || true) used.average(int(p.size()));
    Ref r = rmean(p, n);
    std::string d = diff(used, r);
    MC_CHECK(d.empty(), "moment", "average of " << p.size() << " vectors " << show(p[0]) << "...: " << d);
    MC_CHECK(std::fabs(used.norm_1() - r.norm(1)) < 1e-9 && std::fabs(used.norm_2() - r.norm(2)) < 1e-9 && std::fabs(used.norm_infinite() - r.norm(0)) < 1e-9, "norm",
             "norms of the moment of " << p.size() << " vectors " << show(p[0]) << "...: " << used.norm_1() << " " << used.norm_2() << " " << used.norm_infinite() << " instead of " << r.norm(1) << " " << r.norm(2) << " " << r.norm(0));
    std::ostringstream s; used.display(s);
    std::istringstream in(s.str());
    for (size_t i = 0; i < size_t(n); i++) for (size_t j = 0; j < size_t(n); j++) { double v; MC_CHECK(bool(in >> v) && near_(v, r.m[i][j]), "display", s.str()); }
    mc::Hash h; r.each([&](double& v, size_t, size_t) { h.add(v); }); mc::state(h);
    refs.push_back(r);
  }
  size_t stride = std::max<size_t>(1, refs.size() / 40);
  for (size_t a = 0; a < refs.size(); a += 1)
    for (size_t b = a % stride; b < refs.size(); b += stride)
      for (double c : { 0.0, 0.3, 1.0 }) {
        M x = from_ref<M>(refs[a]), y = from_ref<M>(refs[b]);
        MC_CHECK(std::fabs(x.distance(y) - comb(refs[a], 1, refs[b], -1).norm(2)) < 1e-9, "distance", "moments " << a << " and " << b);
        M z = x; z.update(y, c);
        std::string d = diff(z, comb(refs[a], 1 - c, refs[b], c));
        MC_CHECK(d.empty(), "update", "rate " << c << ": " << d);
        M w = from_ref<M>(refs[(a + b) % refs.size()]);
        M e = w; e.update(x, y, c * 5);
        d = diff(e, comb(refs[(a + b) % refs.size()], 1, comb(refs[a], 1, refs[b], -1), c * 5));
        MC_CHECK(d.empty(), "update", "two moments, rate " << 5 * c << ": " << d);
        M g(n); g.scaled_difference(c * 7, x, y);
        Ref gr = comb(refs[a], c * 7, refs[b], -1);
        d = diff(g, gr);
        MC_CHECK(d.empty(), "scaled difference", "factor " << 7 * c << ": " << d);
        MC_CHECK(std::fabs(g.norm_1() - gr.norm(1)) < 1e-9 && std::fabs(g.norm_2() - gr.norm(2)) < 1e-9 && std::fabs(g.norm_infinite() - gr.norm(0)) < 1e-9, "norm", "norms of a scaled difference");
        for (double margin : { 0.0, 0.25, 0.9 }) {
          M bd = z; bd.bound(margin);
          Ref r = comb(refs[a], 1 - c, refs[b], c); r.each([&](double& v, size_t, size_t) { v = std::max(margin - 1, std::min(1 - margin, v)); });
          d = diff(bd, r);
          MC_CHECK(d.empty(), "bound", "margin " << margin << ": " << d);
        }
      }
}

// Herding -----------------------------------------------------------------

/// Vectors allowed by the greedy rule
std::set<bit_vector_t> herd(const Ref& delta, bool any_order) {
  const int n = delta.n;
  std::vector<size_t> o; for (int i = 0; i < n; i++) o.push_back(size_t(i));
  std::set<bit_vector_t> r;
  do {
    std::vector<bit_vector_t> cur(1, bit_vector_t(size_t(n), 0));
    for (size_t k = 0; k < o.size(); k++) {
      std::vector<bit_vector_t> next;
      for (auto& x : cur) {
        double s = delta.m[o[k]][o[k]];
        for (size_t l = 0; l < k; l++) s += x[o[l]] ? -delta.m[o[k]][o[l]] : delta.m[o[k]][o[l]];
        if (s > -1e-9) { x[o[k]] = 0; next.push_back(x); }
        if (s < 1e-9) { x[o[k]] = 1; next.push_back(x); }
      }
      cur = next;
    }
    r.insert(cur.begin(), cur.end());
  } while (any_order && std::next_permutation(o.begin(), o.end()));
  return r;
}

template<class H> void herding(int n, const V& values, bool random, int samples, uint64_t stride, bool once = false) {
  uint64_t N = 1; for (int i = 0; i < n * (n + 1) / 2; i++) N *= values.size();
  for (uint64_t c = 0; c < N; c += stride) {
    Ref t = grid(n, values, c);
    auto target = from_ref<typename H::Moment>(t);
    mc::explore(once ? mc::bounds(0, 0, 2) : mc::bounds(random ? 4 : 1, 1), [&]() {
      H h(n); h.set_randomize_bit_order(random);
      for (int use = 0; use < 2; use++) {
        h.init();
        Ref count(n);
        for (int k = 1; k <= samples; k++) {
          bit_vector_t x(size_t(n), use ? 1 : 0);
          Ref delta = comb(t, k, count, -1);
          h.sample(target, x);
          MC_CHECK(valid(x) && herd(delta, random).count(x), "herding", "sample " << k << " of target " << c << " is " << show(x));
          auto& gd = h.get_delta();
          std::string d = diff(gd, delta);
          MC_CHECK(d.empty(), "herding delta", d);
          count.add(x);
          double e = h.error(target), er = comb(t, k, count, -1).norm(2);
          MC_CHECK(std::fabs(e - er) < 1e-9, "herding error", "after sample " << k << ": " << e << " instead of " << er);
          mc::Hash hh; count.each([&](double& v, size_t, size_t) { hh.add(v); }); mc::state(hh);
        }
      }
    });
  }
}

double logistic_(double x) { return 1 / (1 + std::exp(-x)); }
double gibbs_p(const Ref& m, const bit_vector_t& s, size_t i) {
  double d = m.m[i][i];
  for (size_t j = 0; j < s.size(); j++) if (j != i) d += s[j] ? -m.m[i][j] : m.m[i][j];
  return logistic_(-2 * d);
}

template<class G> void gibbs(int n, const V& values, uint64_t stride) {
  uint64_t N = 1; for (int i = 0; i < n * (n + 1) / 2; i++) N *= values.size();
  for (uint64_t c = 0; c < N; c += stride) {
    Ref m = grid(n, values, c);
    auto mp = from_ref<typename G::Moment>(m);
    for (int which = -1; which < n; which++) {
      std::vector<double> th = { 0.5 };
      for (uint64_t s = 0; s < 1ull << n; s++) for (int i = 0; i < n; i++) { if (which >= 0 && i != which) continue; double p = gibbs_p(m, BV(n, s), size_t(i)); th.push_back(p); th.push_back(1 - p); }
      std::sort(th.begin(), th.end()); th.erase(std::unique(th.begin(), th.end(), [](double a, double b) { return b - a < 1e-9; }), th.end());
      // the initial state first, then the draws of the update for each of them
      for (uint64_t seed = 0; seed < (n == 2 ? 6u : 5u); seed++) {
        std::map<bit_vector_t, double> after; bit_vector_t before;
        mc::Opt o; mc::cells(o, th);
        mc::explore(o, [&]() {
          G g(n, mp);
          { mc::Fixed f(seed * 7 + 1); g.init(); }
          before = g.get_state();
          MC_CHECK(int(before.size()) == n && valid(before), "gibbs init", show(before));
          if (which >= 0) g.update(which); else g.update_sync();
          after[g.get_state()] += mc::prob();
          mc::state(mc::Hash().addv(before).addv(g.get_state()).add(c).add(which));
        });
        if (mc::replaying()) continue;
        for (uint64_t s = 0; s < 1ull << n; s++) {
          bit_vector_t y = BV(n, s); double e = 1;
          for (size_t i = 0; i < size_t(n); i++) {
            if (which >= 0 && int(i) != which) { if (y[i] != before[i]) e = 0; continue; }
            double p = gibbs_p(m, before, i); e *= y[i] ? p : 1 - p;
          }
          double got = after.count(y) ? after[y] : 0;
          MC_CHECK(std::fabs(got - e) < 1e-9, "gibbs", "parameters " << c << (which >= 0 ? " component " + mc::str(which) : std::string(" synchronous")) << " from " << show(before) << " to " << show(y) << ": probability " << got << " instead of " << e);
        }
      }
    }
  }
}

template<class H> void hea_rule(const Run& r, int n, int lambda, int sel, int iters, double rate, double margin, bool bnd, int reset, bool random, int what, long limit) {
  auto& t = r.probe.trace;
  if (t.empty()) return;
  if (!r.interrupted) MC_CHECK(long(t.size()) == 1 + long(lambda) * iters, "evaluations", tr(r));
  else MC_CHECK(long(t.size()) == limit, "interruption", tr(r));
  std::vector<Ref> cur(1, Ref(n));
  Ref count(n); int time = 0;
  size_t lines = what == 0 ? size_t(n) : 1;
  for (int it = 0; it < iters; it++) {
    if (reset > 0 && it % reset == 0) { count = Ref(n); time = 0; }
    std::vector<std::pair<bit_vector_t, double>> pool;
    std::vector<Ref> ok = cur;
    Ref last(n);
    for (int k = 0; k < lambda; k++) {
      size_t idx = 1 + size_t(it * lambda + k);
      if (idx >= t.size()) return;
      time++;
      std::vector<Ref> keep;
      for (auto& c : ok) if (herd(comb(c, time, count, -1), random).count(t[idx].x)) keep.push_back(c);
      MC_CHECK(!keep.empty(), "herding", "iteration " << it << " sample " << k << " is not allowed by the herding rule: " << tr(r));
      ok = keep; cur = ok;
      last = count;
      count.add(t[idx].x);
      pool.push_back({ t[idx].x, t[idx].v });
    }
    if (r.log.size() < (size_t(it) + 1) * lines) return;
    std::vector<Ref> next;
    for (auto& c : cur) {
      if (what == 1) {
        auto& l = r.log[size_t(it)];
        MC_CHECK(l.size() == 3, "log", tr(r));
        if (!(near_(l[0], comb(c, time, count, -1).norm(2)) && near_(l[1], c.norm(2)) && near_(l[2], comb(c, time, last, -1).norm(2)))) continue;
      }
      for (auto& s : select(pool, sel, 1)) {
        Ref x = comb(c, 1 - rate, rmean(s, n), rate);
        if (bnd) x.each([&](double& v, size_t, size_t) { v = std::max(margin - 1, std::min(1 - margin, v)); });
        bool fits = true;
        if (what == 0) for (size_t i = 0; i < size_t(n); i++) { auto& l = r.log[size_t(it) * lines + i]; fits &= l.size() == size_t(n); for (size_t j = 0; fits && j < size_t(n); j++) fits &= near_(l[j], x.m[i][j]); }
        if (fits) next.push_back(x);
      }
    }
    MC_CHECK(!next.empty(), "target", "the log of iteration " << it << " fits no target allowed by the rule: " << tr(r));
    cur = next;
  }
  double top = -INFINITY; bool known = false;
  for (auto& e : t) { top = std::max(top, e.v); known |= e.x == r.sol.first && e.v == r.sol.second; }
  if (!r.interrupted) MC_CHECK(known && r.sol.second >= top, "best", tr(r));
}

/// States reachable by one call of the sampler
std::set<bit_vector_t> reach(const Ref& m, const std::set<bit_vector_t>& from, int mode, int count, double lo, double hi) {
  const size_t n = size_t(m.n);
  auto allowed = [&](const bit_vector_t& s, size_t i) { double p = gibbs_p(m, s, i); int r = 0; if (p > lo) r |= 2; if (p < hi) r |= 1; return r; };
  std::set<bit_vector_t> cur = from;
  auto one = [&](const std::set<bit_vector_t>& a, size_t i) {
    std::set<bit_vector_t> b;
    for (auto x : a) { int f = allowed(x, i); if (f & 1) { x[i] = 0; b.insert(x); } if (f & 2) { x[i] = 1; b.insert(x); } }
    return b;
  };
  for (int t = 0; t < count; t++) {
    std::set<bit_vector_t> next;
    if (mode == 0) { for (size_t i = 0; i < n; i++) for (auto& x : one(cur, i)) next.insert(x); }
    else if (mode == 1) {
      std::vector<size_t> o; for (size_t i = 0; i < n; i++) o.push_back(i);
      do { auto a = cur; for (size_t i : o) a = one(a, i); next.insert(a.begin(), a.end()); } while (std::next_permutation(o.begin(), o.end()));
    } else {
      for (auto& x : cur) {
        std::vector<bit_vector_t> ys(1, x);
        for (size_t i = 0; i < n; i++) { int f = allowed(x, i); std::vector<bit_vector_t> zs; for (auto y : ys) { if (f & 1) { y[i] = 0; zs.push_back(y); } if (f & 2) { y[i] = 1; zs.push_back(y); } } ys = zs; }
        next.insert(ys.begin(), ys.end());
      }
    }
    cur = next;
  }
  return cur;
}

struct Bm { int n, lambda, sel, iters, mode, reset, count; bool nps; double rate; long limit = -1; };

void bm_rule(const Run& r, const Bm& p) {
  auto& t = r.probe.trace;
  const int n = p.n;
  if (t.empty()) return;
  if (!r.interrupted) MC_CHECK(long(t.size()) == 1 + long(p.lambda) * p.iters, "evaluations", tr(r));
  else MC_CHECK(long(t.size()) == p.limit, "interruption", tr(r));
  std::set<bit_vector_t> all; for (uint64_t s = 0; s < 1ull << n; s++) all.insert(BV(n, s));
  std::vector<Ref> cur(1, Ref(n));
  std::set<bit_vector_t> st = all;
  for (int it = 0; it < p.iters; it++) {
    if (p.reset == 1) st = all;
    std::vector<std::pair<bit_vector_t, double>> pool; Pop everyone;
    for (int k = 0; k < p.lambda; k++) {
      size_t idx = 1 + size_t(it * p.lambda + k);
      if (idx >= t.size()) return;
      if (p.reset == 2) st = all;
      std::vector<Ref> keep;
      for (auto& c : cur) if (reach(c, st, p.mode, p.count, 0.04, 0.96).count(t[idx].x)) keep.push_back(c);
      MC_CHECK(!keep.empty(), "sampling", "iteration " << it << " individual " << k << " cannot be reached by the Gibbs sampler: " << tr(r));
      cur = keep;
      st = { t[idx].x };
      pool.push_back({ t[idx].x, t[idx].v }); everyone.push_back(t[idx].x);
    }
    if (r.log.size() <= size_t(it)) return;
    auto& l = r.log[size_t(it)];
    MC_CHECK(l.size() == 2, "log", tr(r));
    std::vector<Ref> next;
    for (auto& c : cur)
      for (auto& b : select(pool, p.sel, 1)) {
        std::vector<Ref> neg;
        if (p.nps) for (auto& w : select(pool, p.sel, -1)) neg.push_back(rmean(w, n)); else neg.push_back(rmean(everyone, n));
        for (auto& w : neg) {
          Ref x = comb(c, 1, comb(rmean(b, n), 1, w, -1), p.rate);
          if (near_(l[0], x.norm(0)) && near_(l[1], x.norm(1))) next.push_back(x);
        }
      }
    MC_CHECK(!next.empty(), "model", "the norms logged at iteration " << it << " fit no parameters allowed by the rule: " << tr(r));
    cur = next;
  }
  double top = -INFINITY; bool known = false;
  for (auto& e : t) { top = std::max(top, e.v); known |= e.x == r.sol.first && e.v == r.sol.second; }
  if (!r.interrupted) MC_CHECK(known && r.sol.second >= top, "best", tr(r));
}

/// All bijections made of at most one elementary map of n bits, as tables
std::vector<std::vector<uint64_t>> elementary(int n) {
  std::vector<std::vector<uint64_t>> r;
  for (uint64_t c = 0; c < 1ull << n; c++)
    for (int s = -1; s < n; s++)
      for (int d = 0; d < n; d++) {
        if (s == d || (s < 0 && d)) continue;
        std::vector<uint64_t> m;
        for (uint64_t x = 0; x < 1ull << n; x++) { uint64_t y = x; if (s >= 0 && (x >> s & 1)) y ^= 1ull << d; m.push_back(y ^ c); }
        r.push_back(m);
      }
  return r;
}

} // namespace

void mc_register() {
  const bool th = mc::thorough();
  // probability vectors
  mc::add("probability vectors", [=]() {
    const V g = { 0.0, 0.2, 0.5, 0.75, 1.0 };
    for (int n = 1; n <= 3; n++) {
      uint64_t N = 1; for (int i = 0; i < n; i++) N *= g.size();
      for (uint64_t a = 0; a < N; a++) {
        V p; uint64_t c = a; for (int i = 0; i < n; i++) { p.push_back(g[c % g.size()]); c /= g.size(); }
        MC_CHECK(std::fabs(pv_entropy(p) - entropy(p)) < 1e-12, "entropy", mc::vec(p));
        std::map<bit_vector_t, double> d;
        mc::Opt o; std::vector<double> t(p); for (double x : p) t.push_back(1 - x); mc::cells(o, t);
        mc::explore(o, [&]() { bit_vector_t x(size_t(n), a & 1); pv_sample(p, x); MC_CHECK(valid(x), "sample", show(x)); d[x] += mc::prob(); });
        if (!mc::replaying()) for (uint64_t s = 0; s < 1ull << n; s++) { bit_vector_t x = BV(n, s); double q = d.count(x) ? d[x] : 0; MC_CHECK(std::fabs(q - product(p, x)) < 1e-9, "sample", mc::vec(p) << " samples " << show(x) << " with probability " << q); }
        for (uint64_t b = 0; b < N; b++) {
          V y; c = b; for (int i = 0; i < n; i++) { y.push_back(g[c % g.size()]); c /= g.size(); }
          for (double rate : { 0.0, 0.25, 1.0, 3.0 }) {
            V u = p; pv_update(u, y, rate);
            for (size_t i = 0; i < p.size(); i++) MC_CHECK(std::fabs(u[i] - (p[i] + rate * (y[i] - p[i]))) < 1e-12, "update", mc::vec(p) << " " << mc::vec(y) << " " << rate);
            V z(y.rbegin(), y.rend()); u = p; pv_update(u, y, z, rate);
            for (size_t i = 0; i < p.size(); i++) MC_CHECK(std::fabs(u[i] - (p[i] + rate * (y[i] - z[i]))) < 1e-12, "update", mc::vec(p) << " " << mc::vec(y) << " " << rate);
          }
        }
        for (double lo : { 0.0, 0.3, 0.5 }) for (double hi : { 0.5, 0.6, 1.0 }) {
          V u = p; pv_bound(u, lo, hi);
          for (size_t i = 0; i < p.size(); i++) MC_CHECK(u[i] == std::max(lo, std::min(hi, p[i])), "bound", mc::vec(p) << " " << lo << " " << hi);
        }
        for (uint64_t s = 0; s < 1ull << n; s++) {
          bit_vector_t x = BV(n, s); V u = p, w = p, k = p;
          pv_add(u, x); pv_add(w, x, -2.5); pv_average(k, 4); V f = p; pv_init(f); V e = p; pv_uniform(e);
          for (size_t i = 0; i < p.size(); i++) MC_CHECK(u[i] == p[i] + x[i] && w[i] == p[i] - 2.5 * x[i] && k[i] == p[i] / 4 && f[i] == 0 && e[i] == 0.5, "add", mc::vec(p) << " " << show(x));
        }
      }
    }
  });
  for (int n : { 31, 32, 33, 64, 65, 100, 257 })
    mc::add("long probability vectors " + mc::str(n), [=]() {
      V p, y; for (int i = 0; i < n; i++) { p.push_back(double(mix64(uint64_t(i)) % 9 + 1) / 10); y.push_back(double(mix64(uint64_t(i) + 5) % 11) / 10); }
      MC_CHECK(std::fabs(pv_entropy(p) - entropy(p)) < 1e-9, "entropy", "n " << n);
      for (double rate : { 0.25, 1.0 }) {
        V u = p; pv_update(u, y, rate); V z(y.rbegin(), y.rend()), w = p; pv_update(w, y, z, rate);
        for (size_t i = 0; i < p.size(); i++) MC_CHECK(std::fabs(u[i] - (p[i] + rate * (y[i] - p[i]))) < 1e-12 && std::fabs(w[i] - (p[i] + rate * (y[i] - z[i]))) < 1e-12, "update", "n " << n << " component " << i);
      }
      V u = y; pv_bound(u, 0.25, 0.6);
      for (size_t i = 0; i < p.size(); i++) MC_CHECK(u[i] == std::max(0.25, std::min(0.6, y[i])), "bound", "n " << n << " component " << i);
      bit_vector_t x(static_cast<size_t>(n), 0); for (int i = 0; i < n; i++) x[size_t(i)] = bit_t(mix64(uint64_t(i) + 9) & 1);
      V a = p, b = p, c = p, d = p, e = p; pv_add(a, x); pv_add(b, x, -2.5); pv_average(c, 7); pv_init(d); pv_uniform(e);
      for (size_t i = 0; i < p.size(); i++) MC_CHECK(a[i] == p[i] + x[i] && b[i] == p[i] - 2.5 * x[i] && std::fabs(c[i] - p[i] / 7) < 1e-15 && d[i] == 0 && e[i] == 0.5, "add", "n " << n << " component " << i);
      // sums over many bit vectors are exact
      V s(static_cast<size_t>(n), 0.0); for (int k = 0; k < 1000; k++) pv_add(s, x); pv_average(s, 1000);
      for (size_t i = 0; i < p.size(); i++) MC_CHECK(s[i] == double(x[i]), "add", "average of 1000 equal bit vectors");
      // every component follows its own probability: with probability 0 or 1 it is fixed, and both values come otherwise
      for (int shift = 0; shift < 3; shift++) {
        V q; for (int i = 0; i < n; i++) q.push_back((i + shift) % 3 == 0 ? 0.0 : (i + shift) % 3 == 1 ? 1.0 : 0.5);
        std::vector<int> one(size_t(n), 0), zero(size_t(n), 0);
        mc::Opt o = mc::bounds(0, 1, 2); mc::cells(o, V{ 0.5 });
        mc::explore(o, [&]() { bit_vector_t z(static_cast<size_t>(n), 0); pv_sample(q, z); MC_CHECK(valid(z), "sample", show(z)); for (size_t i = 0; i < z.size(); i++) (z[i] ? one : zero)[i]++; });
        if (!mc::replaying()) for (size_t i = 0; i < size_t(n); i++) MC_CHECK((q[i] == 1 || zero[i]) && (q[i] == 0 || one[i]) && !(q[i] == 1 && zero[i]) && !(q[i] == 0 && one[i]), "sample", "component " << i << " of " << n << " with probability " << q[i] << " gave 1 " << one[i] << " times and 0 " << zero[i] << " times");
      }
    });
  // large populations along a few executions
  for (int k = 0; k < KINDS; k++) if (uses_sel(Kind(k)))
    for (auto z : { std::make_pair(40, 20), std::make_pair(70, 65), std::make_pair(130, 1), std::make_pair(129, 128) })
      mc::add(std::string("large learning ") + names[k] + " lambda" + mc::str(z.first) + " selection" + mc::str(z.second), [=]() {
        for (int n : { 3, 6 }) for (long limit : { -1L, 100L }) {
          Par p{ Kind(k), n, z.first, z.second, 3, 0.3 }; p.limit = limit; p.entropy = 1;
          mc::explore(mc::bounds(0, 0, 2), [&]() { Alg a = make(p); Run r(n, lands(n)[6]); r.probe.limit = limit; go(a, r); follow(r, p); });
        }
      });
  // learning along every trace
  for (int k = 0; k < KINDS; k++)
    for (int lambda : uses_sel(Kind(k)) ? std::vector<int>{ 2, 3, 4 } : std::vector<int>{ 1 })
      for (int sel = 1; sel <= (uses_sel(Kind(k)) ? std::min(lambda, 3) : 1); sel++)
        for (int rr = 0; rr < (uses_rate(Kind(k)) ? 3 : 1); rr++)
          mc::add(std::string("learning ") + names[k] + " lambda" + mc::str(lambda) + " selection" + mc::str(sel) + " rate" + mc::str(rr), [=]() {
            for (int n : { 2, 3, 4 }) {
              auto ls = lands(n);
              for (size_t li = 0; li < ls.size(); li++)
                for (int iters : { 1, 3 })
                  for (long limit : { -1L, 1L, 4L }) {
                    if (limit > 0 && iters == 1) continue;
                    Par p{ Kind(k), n, lambda, sel, iters, rr == 0 ? 0.3 : rr == 1 ? 0.125 : 1.0 }; p.limit = limit; p.entropy = int(li) % 2;
                    mc::explore(mc::bounds(th ? 6 : 3, 1, th ? 4 : 2), [&]() {
                      Alg a = make(p);
                      for (int use = 0; use < 2; use++) { Run r(n, ls[use ? (li + 3) % ls.size() : li]); r.probe.limit = limit; go(a, r); follow(r, p); }
                    });
                  }
            }
          });
  // sampling distribution
  for (int k = 0; k < KINDS; k++)
    for (int sel = 1; sel <= (uses_sel(Kind(k)) && k != RAM && k != RAM2 ? 2 : 1); sel++)
      mc::add(std::string("sampling ") + names[k] + " selection" + mc::str(sel), [=]() {
        for (int n : { 3, 4 }) {
          int lambda = k == RAM2 ? sel : 2;
          if ((k == RAM2 && (sel > 1 || n > 3)) || (n > 3 && !(th && sel == 1))) continue;
          if (k == RAM && n > 3) continue;
          for (int gens = 0; gens <= 2; gens++)
            for (uint64_t seed = 1; seed <= (th ? 12u : k == RAM ? 1u : 3u); seed++) {
              Par p{ Kind(k), n, lambda, sel, gens, 0.3 };
              p.pc = 0;
              const int L = per_iteration(p);
              V pv(size_t(n), 0.5);
              Land l = lands(n)[6];   // injective
              if (gens || k == MMAS || k == MMAS_STRICT) {
                // learn the model reached by the prefix
                Par q = p; if (!gens) q.iters = 0;
                Run r(n, l);
                if (gens) { mc::Fixed f(seed); Alg a = make(q); go(a, r); auto m = follow(r, q); if (m.size() != 1) continue; pv = m[0]; }
                else { mc::Fixed f(seed); Alg a = make(p); r.probe.limit = 1; go(a, r); for (int i = 0; i < n; i++) pv[size_t(i)] += 0.3 * (r.probe.trace[0].x[size_t(i)] - 0.5); bound(pv, n); }
              }
              std::vector<double> t(pv); for (double x : pv) t.push_back(1 - x);
              // the weights of the translations of random affine maps do not matter
              if (k != RAM && k != RAM2) t.push_back(0.5);
                            Par w = p; w.iters = gens + 1;
              // the random affine maps algorithms sample the first generation in init
              Dist d = window([&]() { return make(w); }, n, l, 1 + gens * L, 1 + (gens + 1) * L, seed, t);
              if (mc::replaying()) continue;
              std::string why;
              MC_CHECK(matches(d, n, L, [&](const bit_vector_t& x) { return product(pv, x); }, why), "sampling", "n " << n << " after " << gens << " generations with seed " << seed << ", model " << mc::vec(pv) << ": " << why);
            }
        }
      });
  // MIMIC
  for (int sel = 1; sel <= 2; sel++)
    for (uint64_t seed = 1; seed <= (th ? 16u : 4u); seed++)
      mc::add("mimic selection" + mc::str(sel) + " seed" + mc::str(seed), [=]() {
        const int n = 3, lambda = sel + 1;
        for (int gens = 0; gens <= 2; gens++) {
          if (sel == 2 && !th && (gens == 0 || (gens == 2) != (seed == 1))) continue;
          Land l = lands(n)[6];
          auto mk = [&](int iters) { Alg a; auto q = a.make<Mimic>(n, lambda); q->set_num_iterations(iters); q->set_selection_size(sel); return a; };
          std::vector<Chain> models;
          if (gens) {
            Run r(n, l);
            { mc::Fixed f(seed); Alg a = mk(gens); go(a, r); }
            MC_CHECK(long(r.probe.trace.size()) == 1 + gens * lambda, "evaluations", tr(r));
            std::vector<std::pair<bit_vector_t, double>> pool;
            for (int i = 0; i < lambda; i++) { auto& e = r.probe.trace[size_t(1 + (gens - 1) * lambda + i)]; pool.push_back({ e.x, e.v }); }
            auto s = select(pool, sel, 1);
            if (s.size() != 1) continue;
            chains(*s.begin(), n, Chain(), models);
          } else { Chain c; for (int i = 0; i < n; i++) { c.order.push_back(i); c.p.push_back({ 0.5, 0.5 }); } models.push_back(c); }
          // the limit comes before the shuffle which follows the window
          Dist d = window([&]() { return mk(gens + 1); }, n, l, 1 + gens * lambda, 1 + (gens + 1) * lambda, seed, gens ? V{ 1.0 / 3, 0.5, 2.0 / 3 } : V{ 0.5 });
          if (mc::replaying()) continue;
          bool ok = false; std::string why;
          for (auto& m : models) if (matches(d, n, lambda, [&](const bit_vector_t& x) { return chain_prob(m, x); }, why)) { ok = true; break; }
          MC_CHECK(ok, "mimic", "after " << gens << " generations the sampling distribution is that of no chain allowed by the rule: " << why);
        }
      });
  for (int lambda = 2; lambda <= 4; lambda++)
    mc::add("mimic solution lambda" + mc::str(lambda), [=]() {
      for (int sel = 1; sel < lambda; sel++)
        for (int n : { 1, 2, 4 })
          for (auto& l : lands(n))
            for (long limit : { -1L, 3L })
              mc::explore(mc::bounds(3, 1, 2), [&]() {
                Alg a; auto q = a.make<Mimic>(n, lambda); q->set_num_iterations(3); q->set_selection_size(sel);
                for (int use = 0; use < 2; use++) {
                  Run r(n, l); r.probe.limit = limit; go(a, r);
                  auto& t = r.probe.trace;
                  MC_CHECK(long(t.size()) == (limit >= 0 ? limit : 1 + 3 * lambda), "evaluations", tr(r));
                  size_t upto = 1 + (t.size() - 1) / size_t(lambda) * size_t(lambda);
                  double top = -INFINITY; bool known = false;
                  for (size_t i = 0; i < t.size(); i++) { if (i < upto) top = std::max(top, t[i].v); known |= t[i].x == r.sol.first && t[i].v == r.sol.second; }
                  MC_CHECK(known && r.sol.second >= top, "best", tr(r));
                }
              });
    });
  // random affine maps with one elementary map
  for (int two = 0; two < 2; two++)
    for (uint64_t seed = 1; seed <= (th ? 24u : 4u); seed++)
      mc::add(std::string("sampling ram-umda") + (two ? "2" : "") + " one map seed" + mc::str(seed), [=]() {
        const int n = 3, lambda = two ? 1 : 2, sel = 1;
        Land l = lands(n)[6];
        auto mk = [&](int iters) {
          Alg a; RamUmda *q;
          if (two) { auto z = a.make<RamUmda2>(n, lambda); z->set_crossover_probability(0); z->set_latent_space_probability(1); q = z; } else q = a.make<RamUmda>(n, lambda);
          q->set_num_iterations(iters); q->set_selection_size(sel); q->set_ts_length(1); q->set_log_pv(true); return a;
        };
        bit_vector_t best; double bvv = -INFINITY;
        Run r(n, l);
        { mc::Fixed f(seed); Alg a = mk(1); go(a, r); }
        for (int i = 1; i <= lambda; i++) if (r.probe.trace[size_t(i)].v > bvv) { best = r.probe.trace[size_t(i)].x; bvv = r.probe.trace[size_t(i)].v; }
        // draws of the map are enumerated too; its weights do not matter, only the map itself does
        // sampling a transvection may reject pairs of equal indices: executions with too many rejections are left out
        const int depth = two ? 10 : 12;
        mc::Opt o; o.depth = depth; mc::cells(o, { 1.0 / 3, 2.0 / 3 });
        // distribution by logged latent vector
        std::map<V, Dist> by; std::map<V, double> tot;
        mc::explore(o, [&]() {
          Run q(n, l); Alg a = mk(2);
          q.probe.limit = 1 + 2 * lambda;
          auto fx = std::make_unique<mc::Fixed>(seed);
          q.probe.hook = [&](long c) { if (c == 1 + lambda) fx.reset(); if (c == 1 + 2 * lambda) throw hnco::exception::LastEvaluation(); };
          go(a, q);
          Pop g; for (int i = 0; i < lambda; i++) g.push_back(q.probe.trace[size_t(1 + lambda + i)].x);
          MC_CHECK(q.log.size() >= 1 && q.log[0].size() == size_t(n), "log", tr(q));
          if (mc::points() > depth) return;
          by[two ? V() : q.log[0]][g] += mc::prob(); tot[two ? V() : q.log[0]] += mc::prob();
        });
        if (mc::replaying()) return;
        // mixture over all maps: it must be a mixture of distributions pv(M best) o M, hence
        // every generation has the probability of a convex combination: bound by min and max
        auto maps = elementary(n);
        for (auto& b : by)
          for (uint64_t c = 0; c < 1ull << (n * lambda); c++) {
            Pop g; for (int k = 0; k < lambda; k++) g.push_back(BV(n, (c >> (n * k)) & 7));
            double lo = 2, hi = -1;
            for (auto& m : maps) {
              bit_vector_t z = BV(n, m[bits(best)]);
              V pv; for (auto x : z) pv.push_back(x ? 2.0 / 3 : 1.0 / 3);
              if (!two) { bool same_ = true; for (int i = 0; i < n; i++) same_ &= near_(b.first[size_t(i)], pv[size_t(i)]); if (!same_) continue; }
              double e = 1; for (auto& x : g) e *= product(pv, BV(n, m[bits(x)]));
              lo = std::min(lo, e); hi = std::max(hi, e);
            }
            double p = b.second.count(g) ? b.second[g] / tot[b.first] : 0;
            MC_CHECK(p >= lo - 1e-9 && p <= hi + 1e-9, "sampling", "generation " << show(g[0]) << " " << show(g.back()) << " has probability " << p << " outside [" << lo << ", " << hi << "]");
          }
      });
  // lengths of the transvection sequences: the algorithm runs in every mode and stays valid
  for (int mode = 0; mode <= 5; mode++)
    mc::add("ram-umda length mode " + mc::str(mode), [=]() {
      for (int two = 0; two < 2; two++)
        for (int n : { 2, 3 })
          for (auto& l : lands(n)) {
            mc::explore(mc::bounds(3, 1, 2), [&]() {
              Alg a; RamUmda *q;
              if (two) q = a.make<RamUmda2>(n, 3); else q = a.make<RamUmda>(n, 3);
              q->set_num_iterations(3); q->set_selection_size(2); q->set_ts_length(2); q->set_ts_length_mode(mode); q->set_ts_length_lower_bound(0); q->set_ts_length_upper_bound(3);
              q->set_ts_length_increment_period(1); q->set_log_pv(true); q->set_log_num_components(n);
              Par p{ RAM2, n, 3, 2, 3, 0 };
              for (int use = 0; use < 2; use++) {
                Run r(n, l); go(a, r);
                if (two) follow(r, p);
                else {
                  auto& t = r.probe.trace;
                  MC_CHECK(t.size() == 10 && r.log.size() == 3, "evaluations", tr(r));
                  double top = -INFINITY; bool known = false;
                  for (auto& e : t) { top = std::max(top, e.v); known |= e.x == r.sol.first && e.v == r.sol.second; }
                  MC_CHECK(known && r.sol.second >= top, "best", tr(r));
                  for (auto& lg : r.log) for (double x : lg) MC_CHECK(x >= 1.0 / n - 1e-4 && x <= 1 - 1.0 / n + 1e-4, "bounds", tr(r));
                }
              }
            });
          }
    });
  // Walsh moments
  for (int n = 1; n <= 3; n++) {
    mc::add("triangular moments n" + mc::str(n), [=]() { moments<TriangularMoment>(n); });
    mc::add("full moments n" + mc::str(n), [=]() { moments<FullMoment>(n); });
  }
  for (int full = 0; full < 2; full++)
    for (int random = 0; random < 2; random++) {
      std::string s = std::string(full ? "full" : "triangular") + (random ? " random order" : "");
      mc::add("herding n2 " + s, [=]() { if (full) herding<FullMomentHerding>(2, { -1, -0.5, 0, 0.3, 1 }, random, 5, 1); else herding<TriangularMomentHerding>(2, { -1, -0.5, 0, 0.3, 1 }, random, 5, 1); });
      mc::add("long herding " + s, [=]() { if (full) herding<FullMomentHerding>(3, { -0.9, 0.05, 0.7 }, random, 300, 97, true); else herding<TriangularMomentHerding>(3, { -0.9, 0.05, 0.7 }, random, 300, 97, true); });
      mc::add("herding n3 " + s, [=]() { if (full) herding<FullMomentHerding>(3, { -0.9, 0.05, 0.7 }, random, 4, th ? 1 : 5); else herding<TriangularMomentHerding>(3, { -0.9, 0.05, 0.7 }, random, 4, th ? 1 : 5); });
    }
  for (int full = 0; full < 2; full++)
    for (int n = 1; n <= 3; n++)
      mc::add(std::string("gibbs ") + (full ? "full" : "triangular") + " n" + mc::str(n), [=]() {
        V v = n < 3 ? V{ -2, -0.5, 0, 0.7 } : V{ -0.8, 0, 0.6 };
        uint64_t st = n < 3 ? 1 : th ? 3 : 23;
        if (full) gibbs<FullMomentGibbsSampler>(n, v, st); else gibbs<TriangularMomentGibbsSampler>(n, v, st);
      });
  for (int full = 0; full < 2; full++)
    for (int random = 0; random < 2; random++)
      for (int lambda = 2; lambda <= 3; lambda++)
        for (int what = 0; what < 2; what++)
          mc::add(std::string("hea ") + (full ? "full" : "triangular") + (random ? " random" : " fixed") + " order lambda" + mc::str(lambda) + (what ? " errors" : " target"), [=]() {
            for (int n : { 2, 3 })
              for (auto& l : lands(n))
                for (int sel = 1; sel < lambda; sel++)
                  for (int reset : { 0, 1, 2 })
                    for (int v = 0; v < 2; v++) {
                      double rate = v ? 0.9 : 0.25, margin = v ? 0.4 : 1.0 / n; bool bnd = n + sel + v != 5;
                      long limit = reset == 1 && v ? 6 : -1;
                      mc::explore(mc::bounds(th ? 5 : 3, 1, 1), [&]() {
                        Alg a;
                        auto cfg = [&](auto q) { q->set_num_iterations(4); q->set_selection_size(sel); q->set_learning_rate(rate); q->set_margin(margin); q->set_bound_moment(bnd); q->set_reset_period(reset); q->set_randomize_bit_order(random);
                          if (what) { q->set_log_herding_error(true); q->set_log_target_norm(true); q->set_log_delta_norm(true); } else q->set_log_target(true); };
                        if (full) cfg(a.make<Hea<FullMomentHerding>>(n, lambda)); else cfg(a.make<Hea<TriangularMomentHerding>>(n, lambda));
                        for (int use = 0; use < 2; use++) { Run r(n, l); r.probe.limit = limit; go(a, r); hea_rule<int>(r, n, lambda, sel, 4, rate, margin, bnd, reset, random, what, limit); }
                      });
                    }
          });
  for (int full = 0; full < 2; full++)
    for (int mode = 0; mode < 3; mode++)
      for (int reset = 0; reset < 3; reset++)
        for (int nps = 0; nps < 2; nps++)
          mc::add(std::string("bm-pbil ") + (full ? "full" : "triangular") + " sampling" + mc::str(mode) + " reset" + mc::str(reset) + " negative" + mc::str(nps), [=]() {
            for (int n : { 2, 3 })
              for (auto& l : lands(n))
                for (int lambda = 2; lambda <= 3; lambda++)
                  for (int count = 1; count <= 2; count++)
                    for (double rate : { 0.4, 6.0 }) {
                      if (!th && n == 3 && (lambda == 2) != (rate == 6.0)) continue;
                      Bm p{ n, lambda, lambda - 1, 3, mode, reset, count, bool(nps), rate };
                      p.limit = count == 2 && rate < 1 ? 5 : -1;
                      auto o = mc::bounds(th ? 5 : 2, 1, 1); o.levels = { 0.95, 0.05, 0.5 };
                      mc::explore(o, [&]() {
                        Alg a;
                        auto cfg = [&](auto q) { q->set_num_iterations(3); q->set_selection_size(p.sel); q->set_learning_rate(rate); q->set_num_gs_steps(count); q->set_num_gs_cycles(count); q->set_negative_positive_selection(nps); q->set_sampling_mode(mode); q->set_reset_mode(reset); q->set_log_norm_infinite(true); q->set_log_norm_1(true); };
                        if (full) cfg(a.make<BmPbil<FullMomentGibbsSampler>>(n, lambda)); else cfg(a.make<BmPbil<TriangularMomentGibbsSampler>>(n, lambda));
                        for (int use = 0; use < 2; use++) { Run r(n, l); r.probe.limit = p.limit; go(a, r); bm_rule(r, p); }
                      });
                    }
          });
}
