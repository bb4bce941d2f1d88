// C04: iterators enumerate exactly the set they stand for, once each.
#include "common.hh"
#include <map>
#include "hnco/iterator.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
using namespace hnco;
using namespace hnco::neighborhood;
using namespace vp;

/// Full pass, calling has_next() extra times
static std::vector<bit_vector_t> pass(Iterator& it, size_t limit, int extra) {
  std::vector<bit_vector_t> r;
  while (it.has_next()) {
    for (int k = 0; k < extra; k++) MC_CHECK(it.has_next(), "has_next-idempotent", "");
    MC_CHECK(r.size() < limit, "too-many", "more than " << limit << " elements");
    r.push_back(it.next());
    MC_CHECK(valid(r.back()), "valid", show(r.back()));
  }
  MC_CHECK(!it.has_next(), "has_next-end", "");
  return r;
}

static void same_set(const std::vector<bit_vector_t>& got, std::vector<bit_vector_t> want, const std::string& k) {
  std::set<bit_vector_t> g(got.begin(), got.end()), w(want.begin(), want.end());
  MC_CHECK(g.size() == got.size(), k + "-duplicate", got.size() << " elements, " << g.size() << " distinct");
  MC_CHECK(g == w, k + "-set", got.size() << " elements instead of " << w.size());
  for (auto& x : got) mc::state(mc::Hash().adds(k).addv(x));
}

static std::vector<bit_vector_t> sphere(const bit_vector_t& o, int r) {
  std::vector<bit_vector_t> v;
  int n = int(o.size());
  if (r == 0) return v;                  // the origin is not its own neighbor
  std::vector<int> c(r);
  std::function<void(int, int)> rec = [&](int k, int from) {
    if (k == r) { auto x = o; for (int i : c) x[i] ^= 1; v.push_back(x); return; }
    for (int i = from; i <= n - (r - k); i++) { c[k] = i; rec(k + 1, i + 1); }
  };
  rec(0, 0);
  return v;
}

/// One history: passes interrupted at any point, then restarted
static void histories(Iterator& it, size_t n, const std::function<void(int)>& restart,
                      const std::function<void(const std::vector<bit_vector_t>&)>& check) {
  for (size_t stop = 0; stop <= std::min(n, size_t(40)); stop++) {
    restart(int(stop));
    for (size_t i = 0; i < stop; i++) { MC_CHECK(it.has_next(), "short", stop); it.next(); }
    restart(int(stop));
    check(pass(it, n, int(stop % 3)));
  }
}

void mc_register() {
  bool T = mc::thorough();
  for (int n = 0; n <= (T ? 16 : 14); n++)
    mc::add("hypercube-" + std::to_string(n), [=]() {
      auto all = domain(n, 16);
      if (n == 0) all.clear();
      HypercubeIterator it(n);
      same_set(pass(it, all.size(), 0), all, "hypercube-fresh");
      histories(it, all.size(), [&](int) { it.init(); }, [&](auto v) { same_set(v, all, "hypercube"); });
      auto ext = domain(n, 16);
      ExtendedHypercubeIterator e(n);
      same_set(pass(e, ext.size(), 1), ext, "extended-fresh");
      histories(e, ext.size(), [&](int) { e.init(); }, [&](auto v) { same_set(v, ext, "extended"); });
    });
  // beyond what can be enumerated: the first elements are pairwise distinct
  mc::add("hypercube-long", []() {
    for (int n : { 31, 32, 33, 63, 64, 65, 100, 130 }) {
      HypercubeIterator it(n); ExtendedHypercubeIterator e(n);
      std::set<bit_vector_t> a, b;
      for (int i = 0; i < 3000; i++) {
        MC_CHECK(it.has_next() && e.has_next(), "short-long", n);
        MC_CHECK(a.insert(it.next()).second && b.insert(e.next()).second, "duplicate-long", n);
      }
    }
  });
  for (int n = 0; n <= (T ? 10 : 8); n++)
    mc::add("single-bit-flip-" + std::to_string(n), [=]() {
      { SingleBitFlipIterator f(n); same_set(pass(f, n, 1), sphere(bit_vector_t(n), n ? 1 : 0), "single-default-origin"); }
      SingleBitFlipIterator it(n);
      for (auto& o : domain(n, 10)) {
        auto want = n ? sphere(o, 1) : std::vector<bit_vector_t>();
        { SingleBitFlipIterator f(n); f.set_origin(o); same_set(pass(f, n, 2), want, "single-fresh"); }
        histories(it, n, [&](int k) { if (k & 1) { it.init(); it.set_origin(o); } else { it.set_origin(o); it.init(); } },
                  [&](auto v) { same_set(v, want, "single"); });
      }
    });
  for (int n = 0; n <= (T ? 9 : 7); n++)
    for (int r = 0; r <= n; r++)
      mc::add("hamming-sphere-" + std::to_string(n) + "-" + std::to_string(r), [=]() {
        HammingSphereIterator it(n, r);
        { HammingSphereIterator f(n, r); auto w = sphere(bit_vector_t(n), r); same_set(pass(f, w.size(), 1), w, "sphere-default-origin"); }
        for (auto& o : domain(n, 10)) {
          auto want = sphere(o, r);
          { HammingSphereIterator f(n, r); f.set_origin(o); same_set(pass(f, want.size(), 0), want, "sphere-fresh"); }
          histories(it, want.size(), [&](int k) { if (k & 1) { it.init(); it.set_origin(o); } else { it.set_origin(o); it.init(); } },
                    [&](auto v) { same_set(v, want, "sphere"); });
        }
      });
  for (int n : { 16, 31, 32, 33, 63, 64, 65, 100, 130 })
    mc::add("long-" + std::to_string(n), [=]() {
      for (auto& o : patterns(n, 1)) {
        SingleBitFlipIterator it(n);
        for (int k = 0; k < 2; k++) { it.init(); it.set_origin(o); same_set(pass(it, n, 0), sphere(o, 1), "single-long"); }
        for (int r : { 1, 2, n - 2, n - 1, n }) {
          if (n > 70 && r == n - 2) continue;
          HammingSphereIterator s(n, r);
          auto want = sphere(o, r);
          s.init(); s.set_origin(o);
          same_set(pass(s, want.size(), 0), want, "sphere-long");
          if (n > 40) break;
        }
      }
      if (n <= 33) for (int r : { 3, 4, n - 3 }) {
        if (n > 20 && r == 4) continue;
        HammingSphereIterator s(n, r);
        auto o = patterns(n, 1)[4];
        s.set_origin(o); s.init();
        auto want = sphere(o, r);
        same_set(pass(s, want.size(), 0), want, "sphere-long");
      }
    });
}
