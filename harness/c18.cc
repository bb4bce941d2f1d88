// C18: saving and loading preserves instances; a save that fails says so.
#include "instances.hh"
using namespace vp;

namespace {

void round_trip(const Kind& k, int v) {
  std::string p = path_of("c18"), q = path_of("c18b");
  auto a = k.make(v);
  std::string before = a->behaviour();
  a->save(p);
  std::string bytes = slurp(p);
  MC_CHECK(a->behaviour() == before, "save", k.name << " " << v << ": saving changes the object");
  // an object of any previous content: fresh, of another size, already loaded
  for (int w = -1; w < k.variants; w++) {
    auto b = w < 0 ? k.fresh() : k.make(w);
    if (w >= 0) b->behaviour();
    for (int again = 0; again < 2; again++) {
      b->load(p);
      MC_CHECK(slurp(p) == bytes, "load", "loading changes the file");
      std::string after = b->behaviour();
      MC_CHECK(after == before, "round trip", k.name << " content " << v << " loaded over content " << w << ": " << after.substr(0, 300) << " instead of " << before.substr(0, 300));
      b->save(q);
      MC_CHECK(slurp(q) == bytes, "resave", k.name << " content " << v << " loaded over content " << w << " saves differently");
      mc::state(mc::Hash().adds(k.name).adds(after).add(w).add(again));
    }
  }
  // saving over a longer file
  spill(q, std::string(bytes.size() + 1000, '7'));
  a->save(q);
  MC_CHECK(slurp(q) == bytes, "overwrite", k.name << ": the saved file keeps previous content");
  unlink(p.c_str()); unlink(q.c_str());
}

/// All small instances through the random draws
template<class O> void drawn(const char *name, std::function<void(O&)> init, mc::Opt opt = mc::Opt()) {
  std::string p = path_of("c18d");
  mc::explore(opt, [&]() {
    O a, b; init(a);
    std::string before = a.behaviour();
    a.save(p); b.load(p);
    std::string after = b.behaviour();
    MC_CHECK(after == before, "round trip", name << ": " << after << " instead of " << before);
    mc::state(mc::Hash().adds(name).adds(before));
  });
  unlink(p.c_str());
}

bool throws(const std::function<void()>& f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }

/// The disk fills up after every possible number of bytes
void failures(const Kind& k, int v) {
  std::string p = path_of("c18f");
  auto a = k.make(v);
  a->save(p);
  std::string bytes = slurp(p);
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
  for (size_t room = 0; room <= bytes.size(); room += (bytes.size() > 600 && room > 20 && room + 20 < bytes.size() && !mc::thorough() ? 7 : 1)) {
    unlink(p.c_str());
    struct rlimit l = old; l.rlim_cur = room; setrlimit(RLIMIT_FSIZE, &l);
    bool failed = false, other = false; std::string what;
    try { a->save(p); } catch (std::runtime_error&) { failed = true; } catch (std::exception& e) { other = true; what = e.what(); }
    setrlimit(RLIMIT_FSIZE, &old);
    std::string got = slurp(p);
    MC_CHECK(!other, "failure", k.name << ": not a std::runtime_error but " << what << ", room for " << room << " of " << bytes.size() << " bytes");
    MC_CHECK(failed == (got != bytes), "failure", k.name << ": with room for " << room << " of " << bytes.size() << " bytes, " << got.size() << " bytes are written and save " << (failed ? "fails" : "reports success"));
    mc::state(mc::Hash().adds(k.name).add(v).add(uint64_t(room)));
  }
  unlink(p.c_str());
  MC_CHECK(throws([&]() { a->save(scratch() + "/no/such/directory/file"); }), "failure", k.name << ": saving in a missing directory reports success");
  MC_CHECK(throws([&]() { a->save(scratch()); }), "failure", k.name << ": saving over a directory reports success");
  if (access("/dev/full", W_OK) == 0) MC_CHECK(throws([&]() { a->save("/dev/full"); }), "failure", k.name << ": saving to a full device reports success");
  MC_CHECK(throws([&]() { a->load(scratch() + "/no such file"); }), "failure", k.name << ": loading a missing file reports success");
}

} // namespace

void mc_register() {
  for (auto& k : kinds()) {
    for (int v = 0; v < k.variants; v++) {
      Kind kk = k;
      mc::add(k.name + " round trip " + mc::str(v), [=]() { round_trip(kk, v); });
      if (v < 3 || mc::thorough()) mc::add(k.name + " failures " + mc::str(v), [=]() { failures(kk, v); });
    }
  }
  using namespace hnco::map; using namespace hnco::function;
  int big = mc::thorough();
  for (int n = 1; n <= 5 + big; n++) {
    mc::add("all translations " + mc::str(n), [=]() { drawn<MapObj<Translation>>("Translation", [=](MapObj<Translation>& m) { m.m.random(n); }); });
    if (n <= 4 + big) mc::add("all permutations " + mc::str(n), [=]() { drawn<MapObj<Permutation>>("Permutation", [=](MapObj<Permutation>& m) { m.m.random(n); }); });
  }
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 4; c++) if (r * c <= 8 + 2 * big) {
    mc::add("all linear maps " + mc::str(r) + "x" + mc::str(c), [=]() { drawn<MapObj<LinearMap>>("LinearMap", [=](MapObj<LinearMap>& m) { m.m.random(r, c, false); }); });
    if (r * c <= 6 + 2 * big) mc::add("all affine maps " + mc::str(r) + "x" + mc::str(c), [=]() { drawn<MapObj<AffineMap>>("AffineMap", [=](MapObj<AffineMap>& m) { m.m.random(r, c, false); }); });
  }
  for (int n = 2; n <= 3; n++) for (int t = 0; t <= 2 + big; t++)
    mc::add("all transvection maps " + mc::str(n) + " " + mc::str(t), [=]() { drawn<MapObj<TsAffineMap>>("TsAffineMap", [=](MapObj<TsAffineMap>& m) { m.m.random(n, t, TsAffineMap::SamplingMode::unconstrained); }, mc::bounds(n + 4 * t + 2, 1)); });
  for (int n = 1; n <= 3; n++) for (int k = 1; k <= n; k++) for (int c = 1; c <= 2; c++)
    mc::add("all formulas " + mc::str(n) + " " + mc::str(k) + " " + mc::str(c), [=]() { drawn<FnObj<MaxSat>>("MaxSat", [=](FnObj<MaxSat>& f) { f.f.random(n, k, c); }); });
  for (int n = 2; n <= 4; n++) for (int k = 1; k < n; k++)
    mc::add("all NK structures " + mc::str(n) + " " + mc::str(k), [=]() { drawn<FnObj<NkLandscape>>("NkLandscape", [=](FnObj<NkLandscape>& f) { f.f.generate(n, k, awkwards(n)); }); });
}
