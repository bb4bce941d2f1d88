// Instances of everything that can be saved and loaded, type erased; shared by C18 and C19.
#ifndef VP_INSTANCES_HH
#define VP_INSTANCES_HH
#include <map>
#include <sys/resource.h>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include "functions.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/maps/map.hh"
#include "hnco/random.hh"
namespace vp {

struct Obj {
  virtual ~Obj() {}
  virtual void save(const std::string&) const = 0;
  virtual void load(const std::string&) = 0;
  /// Everything a user can observe; also uses the object thoroughly
  virtual std::string behaviour() = 0;
};
using ObjPtr = std::unique_ptr<Obj>;

inline std::string hex(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }

template<class F> struct FnObj: Obj {
  F f;
  void save(const std::string& p) const override { f.save(p); }
  void load(const std::string& p) override { f.load(p); }
  std::string behaviour() override {
    std::ostringstream s;
    int n = f.get_bv_size();
    s << n << (f.provides_incremental_evaluation() ? "i" : "") << ":";
    if (n > 2000000) return s.str();
    for (auto& x : domain(n, 7)) {
      double v = f.evaluate(x);
      s << hex(v) << ",";
      if (f.provides_incremental_evaluation() && n) s << hex(f.evaluate_incrementally(x, v, { n / 2 })) << ",";
    }
    if (f.has_known_maximum()) s << "max " << hex(f.get_maximum());
    s << ";"; f.display(s);
    return s.str();
  }
};

template<class M> struct MapObj: Obj {
  M m;
  void save(const std::string& p) const override { m.save(p); }
  void load(const std::string& p) override { m.load(p); }
  std::string behaviour() override {
    std::ostringstream s;
    int n = m.get_input_size();
    s << n << "->" << m.get_output_size() << (m.is_surjective() ? "onto" : "") << ":";
    bit_vector_t y(m.get_output_size());
    for (auto& x : domain(n, 7)) { m.map(x, y); s << show(y) << ","; }
    return s.str();
  }
};

struct SudokuObj: Obj {
  hnco::function::Sudoku f;
  void save(const std::string& p) const override { f.save(p); }
  void load(const std::string& p) override { f.load(p); }
  std::string behaviour() override {
    std::ostringstream s;
    int n = f.get_num_variables();
    s << n << ":"; f.display(s);
    for (int k = 0; k < 12; k++) {
      std::vector<char> c;
      std::vector<hnco::function::Sudoku::domain_type> x(n);
      for (int i = 0; i < n; i++) x[i] = hnco::function::Sudoku::domain_type(k < 9 ? k : mix64(k * 100 + i) % 9);
      s << f.evaluate(x) << ","; f.describe(x, s);
    }
    return s.str();
  }
};

struct Kind {
  std::string name;
  int variants;                                ///< contents available
  std::function<ObjPtr(int)> make;             ///< object with the given content
  std::function<ObjPtr()> fresh;               ///< default constructed
};

/// Awkward but finite numbers
inline double awkward(int i) {
  static const double v[] = { 0.1, -1. / 3, 5e-324, 1.7976931348623157e308, -0.0, 123456789.12345679, 1e-300, 2.2250738585072014e-308, -9007199254740993., 0.30000000000000004, 1e16, -1e-5 };
  return v[unsigned(i) % (sizeof v / sizeof *v)];
}
inline std::function<double()> awkwards(int off) { auto c = std::make_shared<int>(off); return [c]() { return awkward((*c)++); }; }

template<class F> Kind fn_kind(const std::string& name, int variants, std::function<void(F&, int)> init) {
  return { name, variants, [init](int v) { auto o = new FnObj<F>; mc::Fixed fx(v + 1); init(o->f, v); return ObjPtr(o); }, []() { return ObjPtr(new FnObj<F>); } };
}
template<class M> Kind map_kind(const std::string& name, int variants, std::function<void(M&, int)> init) {
  return { name, variants, [init](int v) { auto o = new MapObj<M>; mc::Fixed fx(v + 1); init(o->m, v); return ObjPtr(o); }, []() { return ObjPtr(new MapObj<M>); } };
}

inline int size_of(int v) { static const int n[] = { 3, 1, 5, 2, 7, 12, 4, 33, 65 }; return n[v % 9]; }

inline std::vector<Kind> kinds() {
  using namespace hnco::function;
  using namespace hnco::map;
  std::vector<Kind> r;
  r.push_back(fn_kind<LinearFunction>("LinearFunction", 9, [](LinearFunction& f, int v) { f.generate(size_of(v), v % 2 ? gen(v) : awkwards(v)); }));
  r.push_back(fn_kind<WalshExpansion1>("WalshExpansion1", 9, [](WalshExpansion1& f, int v) { f.generate(size_of(v), v % 2 ? gen(v) : awkwards(v)); }));
  r.push_back(fn_kind<WalshExpansion2>("WalshExpansion2", 7, [](WalshExpansion2& f, int v) {
    if (v == 5) f.generate_ising1_long_range(6, 1.5); else if (v == 6) f.generate_ising1_long_range_periodic(7, 0.5);
    else f.generate(size_of(v), awkwards(v), awkwards(v + 3)); }));
  r.push_back(fn_kind<WalshExpansion>("WalshExpansion", 9, [](WalshExpansion& f, int v) {
    int n = size_of(v); std::vector<WalshTerm> t;
    for (int k = 0; k < 1 + v % 4; k++) { WalshTerm w; w.feature.resize(n); for (int i = 0; i < n; i++) w.feature[i] = (mix64(k * 131 + i + v) >> 40) & 1; w.coefficient = awkward(k + v); t.push_back(w); }
    f.set_terms(t); }));
  r.push_back(fn_kind<NkLandscape>("NkLandscape", 6, [](NkLandscape& f, int v) { int n = 3 + v; f.generate(n, 1 + v % 3, awkwards(v)); }));
  r.push_back(fn_kind<EqualProducts>("EqualProducts", 7, [](EqualProducts& f, int v) { f.generate(size_of(v), v % 2 ? gen(v) : awkwards(v)); }));
  r.push_back(fn_kind<Partition>("Partition", 7, [](Partition& f, int v) { auto c = std::make_shared<int>(v); f.generate(size_of(v), [c]() { static const int w[] = { 1, 2147483647 / 64, 17, 100000, 3 }; return w[(*c)++ % 5]; }); }));
  r.push_back(fn_kind<NearestNeighborIsingModel1>("NearestNeighborIsingModel1", 7, [](NearestNeighborIsingModel1& f, int v) { f.generate(size_of(v), awkwards(v), gen(v)); f.set_periodic_boundary_conditions(v % 2); }));
  r.push_back(fn_kind<NearestNeighborIsingModel2>("NearestNeighborIsingModel2", 7, [](NearestNeighborIsingModel2& f, int v) { f.generate(1 + v % 3, 1 + v / 2, gen(v), awkwards(v)); f.set_periodic_boundary_conditions(v % 2 == 0); }));
  r.push_back(fn_kind<MaxSat>("MaxSat", 7, [](MaxSat& f, int v) { int n = size_of(v); f.random(n, 1 + v % n, 1 + 2 * v); }));
  r.push_back({ "Sudoku", 5, [](int v) { auto o = new SudokuObj; mc::Fixed fx(v + 1); static const int c[] = { 81, 40, 1, 60, 27 }; 
                 std::string p = scratch() + "/sudoku." + mc::str(getpid());
                 { Sudoku s; s.random(c[v]); s.save(p); } o->f.load(p); unlink(p.c_str()); return ObjPtr(o); },
                []() { return ObjPtr(new SudokuObj); } });
  r.push_back(map_kind<Translation>("Translation", 9, [](Translation& m, int v) { m.random(size_of(v)); }));
  r.push_back(map_kind<Permutation>("Permutation", 9, [](Permutation& m, int v) { m.random(size_of(v)); }));
  r.push_back(map_kind<LinearMap>("LinearMap", 9, [](LinearMap& m, int v) { m.random(size_of(v), size_of(v + 1), false); }));
  r.push_back(map_kind<AffineMap>("AffineMap", 9, [](AffineMap& m, int v) { m.random(size_of(v), size_of(v + 1), false); }));
  r.push_back(map_kind<TsAffineMap>("TsAffineMap", 9, [](TsAffineMap& m, int v) { m.random(std::max(2, size_of(v)), 2 * v, TsAffineMap::SamplingMode::unconstrained); }));
  return r;
}

inline std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
inline void spill(const std::string& p, const std::string& c) { std::ofstream o(p, std::ios::binary); o << c; }
inline std::string path_of(const char *what) { return scratch() + "/" + what + "." + mc::str(getpid()); }

} // namespace vp
#endif
