// Stateless explorer: enumerates choice sequences on the real code.
#ifndef VP_MC_HH
#define VP_MC_HH
#include <cstdint>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace vp {
unsigned choose(unsigned n);
/// A choice of the scheduler: explored also inside Rerun and Fixed; the default answer is 0
unsigned choose_schedule(unsigned n);
}

namespace mc {

/// Thrown by fail(); ends the current case.
struct Violation {
  std::string key, msg;
};

/// Bounds of one exploration.
struct Opt {
  int depth = 1 << 20;      ///< choice points [0, depth) are branched exhaustively
  int dev = 0;              ///< after depth: at most dev departures from the default answer
  int policies = 1;         ///< number of default-answer policies explored
  long max_exec = 50000000; ///< safety cap (reported as not exhaustive when hit)
  int max_points = 20000;   ///< an execution with more choice points is a divergence
  std::vector<double> levels = { 0.0, 0.9999999999999999 }; ///< answers for uniform real draws
  std::vector<double> weights; ///< their probabilities (equal if empty)
};

/// Levels that separate the given thresholds, weighted by the measure of the
/// cells: events of the form u < threshold get their exact probability.
void cells(Opt& o, std::vector<double> thresholds);

bool thorough();

/// Register a case
void add(const std::string& name, std::function<void()> fn);

/// Run body once per choice sequence within the bounds.
void explore(const Opt& opt, const std::function<void()>& body);
void explore(const std::function<void()>& body);

/// Full branching of the first d points, then dev departures
inline Opt bounds(int depth, int dev = 0, int policies = 1) {
  Opt o; o.depth = depth; o.dev = dev; o.policies = policies; return o;
}

/// Report a violation of the property
[[noreturn]] void fail(const std::string& key, const std::string& msg);

/// Record an observed state (distinct hashes are counted)
void state(uint64_t h);
/// Count checked transitions
void step(uint64_t n = 1);
/// Record a sample
void sample(const std::string& s);
/// Current choices as text
std::string choices();
/// Answer for uniform real draws outside/inside explorations
void set_levels(const std::vector<double>& levels);
/// Default-answer policy used outside of explorations
void set_policy(uint64_t seed);
/// Number of random choice points met so far in this execution
int points();
/// While alive, draws are answered with the recorded answers of the draws made
/// in [from, to) of the current execution, in order.
class Rerun {
public:
  Rerun(int from, int to);
  ~Rerun();
  /// Were exactly the recorded draws consumed, each with the same range
  bool faithful() const;
};
/// While alive, draws are not explored: they are answered pseudo-randomly from
/// the seed and do not count in prob().
class Fixed {
public:
  explicit Fixed(uint64_t seed);
  ~Fixed();
};
/// Probability of the draws made so far in this execution
double prob();
/// Probability of the draws among the first Opt::depth choice points: over an
/// exploration with dev = 0 they sum to 1, whatever the later draws are
double head_prob();
/// Running sum of the logarithms of the probabilities of the weighted draws, those
/// of Rerun included: its increments compare the parameters of two runs
double log_weight();
/// Is the current execution a replay
bool replaying();

struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash& add(uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; return *this; }
  Hash& add(double x) { uint64_t u; __builtin_memcpy(&u, &x, 8); return add(u); }
  Hash& add(int x) { return add(uint64_t(x)); }
  template<class T> Hash& addv(const T& v) { add(uint64_t(v.size())); for (auto x : v) add(uint64_t(x)); return *this; }
  Hash& adds(const std::string& s) { for (char c : s) add(uint64_t((unsigned char)c)); return *this; }
  operator uint64_t() const { return h; }
};

template<class T>
std::string str(const T& v) { std::ostringstream s; s.precision(17); s << v; return s.str(); }
template<class T>
std::string vec(const T& v) {
  std::ostringstream s; s.precision(17); s << "[";
  bool first = true;
  for (const auto& x : v) { if (!first) s << " "; first = false; s << +x; }
  s << "]"; return s.str();
}

} // namespace mc

#define MC_CHECK(cond, key, msg) do { mc::step(); if (!(cond)) { std::ostringstream vp_s; vp_s.precision(17); vp_s << msg; mc::fail(key, vp_s.str()); } } while (0)

/// To be defined by every harness
void mc_register();

#endif
