#include "mc.hh"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {

const int MAXCH = 16384;

struct Slot {
  volatile int pid;
  volatile int case_idx;
  volatile int explore_idx;
  volatile uint64_t progress;
  volatile uint32_t nch;
  volatile uint32_t ch[MAXCH];
};

struct Shared {
  volatile int next_case;
  volatile int nviol;
};

struct CaseRec { std::string name; std::function<void()> fn; };

std::vector<CaseRec>& cases() { static std::vector<CaseRec> c; return c; }

Slot dummy_slot;
Slot *slot = &dummy_slot;
Shared *shared = nullptr;
bool g_thorough = false;

struct Point { uint32_t n, def, alt; };
std::vector<Point> path;
size_t pos = 0;
bool exploring = false;
uint64_t policy = 0;
int max_points = 20000;
std::vector<double> levels_ = { 0.0, 0.9999999999999999 };
uint64_t outside_counter = 0;
uint64_t outside_policy = 0;
uint64_t ticks = 0; // draws since the last checked step or execution start

// replay
bool is_replay = false;
int replay_explore = -1;
std::vector<uint32_t> replay_choices;
size_t fixed_prefix = 0;
std::vector<uint32_t> fixed;

// rerun of a recorded section
bool fixing = false;
uint64_t fix_seed = 0, fix_counter = 0;
double prob_ = 1, head_ = 1, log_ = 0;
int depth_ = 1 << 20;
std::vector<double> weights_;
bool rerun = false, rerun_bad = false;
size_t rerun_pos = 0, rerun_end = 0;

// stats of the current case
std::unordered_set<uint64_t> states_;
uint64_t steps_ = 0, execs = 0, points_total = 0, explores = 0;
bool capped = false;
std::vector<std::string> samples_;
int explore_counter = 0;

uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; }
    else r += c;
  }
  return r;
}

} // namespace

namespace mc {

bool thorough() { return g_thorough; }
// a single execution is replayed: what needs all executions of an exploration cannot be judged
bool replaying() { return is_replay && replay_explore >= 0; }
void add(const std::string& name, std::function<void()> fn) { cases().push_back({ name, fn }); }
void fail(const std::string& key, const std::string& msg) { throw Violation{ key, msg }; }
void state(uint64_t h) { if (states_.size() < 30000000u) states_.insert(h); }
void step(uint64_t n) { ticks = 0; steps_ += n; slot->progress = slot->progress + 1; }
void sample(const std::string& s) { if (samples_.size() < 3) samples_.push_back(s); }
void set_levels(const std::vector<double>& l) { levels_ = l; }
void set_policy(uint64_t s) { outside_policy = s; outside_counter = 0; }
int points() { return int(pos); }
Rerun::Rerun(int from, int to) { rerun = true; rerun_bad = false; rerun_pos = size_t(from); rerun_end = size_t(to); }
Rerun::~Rerun() { rerun = false; }
bool Rerun::faithful() const { return !rerun_bad && rerun_pos == rerun_end; }
Fixed::Fixed(uint64_t seed) { fixing = true; fix_seed = seed; fix_counter = 0; }
Fixed::~Fixed() { fixing = false; }
double prob() { return prob_; }
double head_prob() { return head_; }
double log_weight() { return log_; }
void cells(Opt& o, std::vector<double> t) {
  t.push_back(0); t.push_back(1);
  std::sort(t.begin(), t.end());
  o.levels.clear(); o.weights.clear();
  for (size_t i = 1; i < t.size(); i++)
    if (t[i] <= 1 && t[i - 1] >= 0 && t[i] - t[i - 1] > 1e-9) { o.levels.push_back((t[i] + t[i - 1]) / 2); o.weights.push_back(t[i] - t[i - 1]); }
}
std::string choices() {
  std::ostringstream s;
  for (size_t i = 0; i < path.size() && i < pos; i++) s << (i ? " " : "") << (path[i].def + path[i].alt) % path[i].n;
  return s.str();
}

void explore(const std::function<void()>& body) { explore(Opt(), body); }

void explore(const Opt& opt, const std::function<void()>& body) {
  int my = explore_counter++;
  explores++;
  slot->explore_idx = my;
  std::vector<double> saved = levels_;
  levels_ = opt.levels;
  weights_ = opt.weights;
  max_points = opt.max_points;
  depth_ = opt.depth;
  if (is_replay && replay_explore >= 0) {
    if (my != replay_explore) { levels_ = saved; weights_.clear(); return; }
    // run exactly one choice sequence, twice
    for (int rep = 0; rep < 2; rep++) {
      fixed = replay_choices; fixed_prefix = fixed.size();
      path.clear(); pos = 0; exploring = true; rerun = false; fixing = false; prob_ = head_ = 1; slot->nch = 0; ticks = 0;
      policy = 0;
      bool failed = false; Violation v;
      try { body(); } catch (Violation& w) { failed = true; v = w; }
      exploring = false;
      if (failed && rep == 1) { levels_ = saved; weights_.clear(); throw v; }
      if (!failed) { fixed_prefix = 0; break; }
    }
    fixed_prefix = 0;
    levels_ = saved; weights_.clear();
    return;
  }
  long count = 0;
  for (int p = 0; p < opt.policies; p++) {
    path.clear();
    policy = uint64_t(p) + 1;
    for (;;) {
      pos = 0; exploring = true; rerun = false; fixing = false; prob_ = head_ = 1; slot->nch = 0; ticks = 0;
      body();
      exploring = false;
      execs++; count++;
      points_total += pos;
      slot->progress = slot->progress + 1;
      if (pos < path.size())
        fail("nondeterminism", "an execution ended before its recorded prefix was consumed: the code behaves differently under the same random outcomes");
      // backtrack
      int i = int(path.size()) - 1;
      std::vector<int> devs;
      int d = 0;
      if (opt.dev > 0 || int(path.size()) > opt.depth) {
        devs.resize(path.size());
        for (size_t k = 0; k < path.size(); k++) {
          devs[k] = d;
          if (int(k) >= opt.depth && path[k].alt) d++;
        }
      }
      for (; i >= 0; i--) {
        if (path[i].alt + 1 >= path[i].n) continue;
        if (i < opt.depth) break;
        if (devs[i] + 1 <= opt.dev) break;
      }
      if (i < 0) break;
      path[i].alt++;
      path.resize(size_t(i) + 1);
      if (count >= opt.max_exec) { capped = true; break; }
    }
    if (capped) break;
  }
  levels_ = saved; weights_.clear();
}

} // namespace mc

namespace vp {

unsigned long long wide() {
  if (rerun) return mix(rerun_pos * 1000003ull + (rerun_pos && rerun_pos <= path.size() ? (path[rerun_pos - 1].def + path[rerun_pos - 1].alt) % path[rerun_pos - 1].n : 0));
  if (!exploring) return mix(outside_policy * 31ull + outside_counter * 7919ull + 17);
  return mix(pos * 1000003ull + (pos ? slot->ch[std::min(pos, size_t(MAXCH)) - 1] : 0));
}

void tick() {
  if (++ticks > 3000000) mc::fail("divergence", "execution does not terminate within 3000000 random draws");
}

static unsigned choose_(unsigned n, bool zero = false);

unsigned choose_schedule(unsigned n) {
  bool r = rerun, f = fixing;
  rerun = fixing = false;
  unsigned c = choose_(n, true);
  rerun = r; fixing = f;
  return c;
}

unsigned choose(unsigned n) {
  unsigned c = choose_(n);
  if (!rerun && !fixing) { prob_ /= n; if (int(pos) <= depth_) head_ /= n; }
  return c;
}

unsigned choose_weighted(unsigned n, const std::function<double(unsigned)>& w) {
  unsigned c = choose_(n);
  if (!rerun && !fixing && exploring) { double q = w(c); prob_ *= q; if (int(pos) <= depth_) head_ *= q; }
  if (!fixing && exploring) { double q = w(c); log_ += q > 0 ? std::log(q) : -1000; }
  return c;
}

static unsigned choose_(unsigned n, bool zero) {
  tick();
  if (n <= 1) return 0;
  if (fixing) return unsigned(mix(fix_seed * 1000003ull + ++fix_counter) % n);
  slot->progress = slot->progress + 1;
  if (rerun) {
    if (rerun_pos >= rerun_end || rerun_pos >= path.size()) { rerun_bad = true; rerun_pos++; return 0; }
    const Point& q = path[rerun_pos++];
    if (q.n != n) rerun_bad = true;
    return ((q.def + q.alt) % q.n) % n;
  }
  if (!exploring) return unsigned(mix(outside_policy * 1000003ull + ++outside_counter) % n);
  if (pos >= size_t(max_points))
    mc::fail("divergence", "execution does not terminate within " + std::to_string(max_points) + " random draws");
  unsigned c;
  if (fixed_prefix) {
    if (pos < fixed.size()) c = fixed[pos] % n;
    else c = zero ? 0 : unsigned(mix(policy * 7919ull + pos) % n);
    path.push_back({ n, c, 0 });
  } else if (pos < path.size()) {
    if (path[pos].n != n)
      mc::fail("nondeterminism", "a recorded prefix meets a different random draw: the code behaves differently under the same random outcomes");
    c = (path[pos].def + path[pos].alt) % n;
  } else {
    c = zero ? 0 : unsigned(mix(policy * 7919ull + pos) % n);
    path.push_back({ n, c, 0 });
  }
  if (pos < size_t(MAXCH)) { slot->ch[pos] = c; slot->nch = uint32_t(pos + 1); }
  pos++;
  return c;
}

unsigned raw() {
  static const unsigned v[] = { 0x6b8b4566u, 0x00000001u, 0xffffffffu, 0x9c3a5e12u };
  unsigned r = v[choose(4)];
  return r;
}

double real01() {
  if (fixing) { tick(); return double(mix(fix_seed * 1000003ull + ++fix_counter) >> 11) / 9007199254740992.0; }
  if (weights_.empty()) return levels_[choose(unsigned(levels_.size()))];
  return levels_[choose_weighted(unsigned(levels_.size()), [](unsigned i) { return weights_[i]; })];
}

void seeded(unsigned long long) { if (!exploring) outside_counter = 0; }

} // namespace vp

namespace {

double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

// Run one case; returns true and fills v if a violation was found.
bool run_case(int idx, mc::Violation& v) {
  states_.clear(); steps_ = execs = points_total = explores = 0; capped = false; samples_.clear();
  explore_counter = 0; exploring = false; path.clear(); pos = 0; fixed_prefix = 0;
  outside_counter = 0; outside_policy = 0;
  levels_ = { 0.0, 0.9999999999999999 }; weights_.clear(); fixing = false;
  slot->case_idx = idx; slot->explore_idx = -1; slot->nch = 0;
  try {
    cases()[idx].fn();
    return false;
  }
  catch (mc::Violation& w) { v = w; }
  catch (std::exception& e) { v.key = "exception"; v.msg = std::string("unexpected exception: ") + e.what(); }
  catch (...) { v.key = "exception"; v.msg = "unexpected exception"; }
  return true;
}

void write_viol(FILE *f, int idx, const std::string& key, const std::string& msg, int ex, const std::vector<uint32_t>& ch) {
  fprintf(f, "{\"type\":\"violation\",\"case\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"explore\":%d,\"choices\":[",
          jesc(cases()[idx].name).c_str(), jesc(key).c_str(), jesc(msg).c_str(), ex);
  for (size_t i = 0; i < ch.size(); i++) fprintf(f, "%s%u", i ? "," : "", ch[i]);
  fprintf(f, "]}\n");
  fflush(f);
}

/// Code which never stops allocating must end here, with std::bad_alloc, and not take the whole machine
void bound_memory() {
  rlim_t size = rlim_t(g_thorough ? 7 : 3) << 30;
  struct rlimit room = { size, size };
  setrlimit(RLIMIT_AS, &room);
}

void worker(const std::string& out, int w) {
  std::string p = out + "." + std::to_string(w);
  FILE *f = fopen(p.c_str(), "a");
  if (!f) _exit(3);
  bound_memory();
  int null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  dup2(null, 2);
  for (;;) {
    int i = __sync_fetch_and_add(&shared->next_case, 1);
    if (i >= int(cases().size()) || shared->nviol > 24) break;
    double t0 = now();
    mc::Violation v;
    bool bad = run_case(i, v);
    int ex = exploring ? slot->explore_idx : -1;
    if (bad) {
      std::vector<uint32_t> ch;
      if (ex >= 0) for (uint32_t k = 0; k < slot->nch; k++) ch.push_back(uint32_t(slot->ch[k]));
      exploring = false;
      __sync_fetch_and_add(&shared->nviol, 1);
      write_viol(f, i, v.key, v.msg, ex, ch);
    }
    if (getenv("VP_PEAK")) { std::ifstream st("/proc/self/status"); std::string l; while (std::getline(st, l)) if (l.compare(0, 7, "VmPeak:") == 0) { FILE *g = fopen(getenv("VP_PEAK"), "a"); fprintf(g, "%s %s\n", l.c_str() + 7, cases()[i].name.c_str()); fclose(g); } }
    fprintf(f, "{\"type\":\"case\",\"case\":\"%s\",\"states\":%zu,\"steps\":%llu,\"execs\":%llu,\"points\":%llu,\"explores\":%llu,\"capped\":%s,\"wall\":%.3f,\"violated\":%s,\"samples\":[",
            jesc(cases()[i].name).c_str(), states_.size(), (unsigned long long)steps_, (unsigned long long)execs,
            (unsigned long long)points_total, (unsigned long long)explores, capped ? "true" : "false", now() - t0, bad ? "true" : "false");
    for (size_t k = 0; k < samples_.size(); k++) fprintf(f, "%s\"%s\"", k ? "," : "", jesc(samples_[k]).c_str());
    fprintf(f, "]}\n");
    fflush(f);
  }
  fclose(f);
  _exit(0);
}

} // namespace

int main(int argc, char **argv) {
  std::string out, replay, only;
  int workers = 8;
  double hang = 180;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") g_thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--hang") hang = atof(argv[++i]);
    else if (a == "--list") { mc_register(); for (auto& c : cases()) printf("%s\n", c.name.c_str()); return 0; }
  }
  struct rlimit rl = { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);

  if (!replay.empty()) {
    // replay file: tier \n case \n explore \n choices...
    std::ifstream f(replay);
    std::string tier, name, line;
    while (std::getline(f, line) && !line.empty() && line[0] == '#') {}
    tier = line;
    std::getline(f, name);
    f >> replay_explore;
    uint32_t x;
    while (f >> x) replay_choices.push_back(x);
    g_thorough = tier == "thorough";
    is_replay = true;
    bound_memory();
    mc_register();
    for (size_t i = 0; i < cases().size(); i++)
      if (cases()[i].name == name) {
        mc::Violation v;
        if (run_case(int(i), v)) {
          fprintf(stderr, "REPLAY violated: case=%s key=%s: %s\n", name.c_str(), v.key.c_str(), v.msg.c_str());
          return 1;
        }
        fprintf(stderr, "REPLAY holds: case=%s\n", name.c_str());
        return 0;
      }
    fprintf(stderr, "REPLAY: unknown case %s\n", name.c_str());
    return 2;
  }

  mc_register();
  if (!only.empty()) {
    std::vector<CaseRec> k;
    for (auto& c : cases()) if (c.name.find(only) != std::string::npos) k.push_back(c);
    cases() = k;
  }
  if (out.empty()) {
    // interactive
    int bad = 0;
    for (size_t i = 0; i < cases().size(); i++) {
      double t0 = now();
      mc::Violation v;
      bool b = run_case(int(i), v);
      std::string c = exploring ? mc::choices() : "";
      exploring = false;
      fprintf(stderr, "%-60s states=%zu steps=%llu execs=%llu points=%llu %s %.2fs %s\n", cases()[i].name.c_str(), states_.size(),
              (unsigned long long)steps_, (unsigned long long)execs, (unsigned long long)points_total, capped ? "CAPPED" : "", now() - t0,
              b ? ("VIOLATED " + v.key + ": " + v.msg + " {" + c + "}").c_str() : "ok");
      bad += b;
    }
    return bad ? 1 : 0;
  }

  size_t bytes = sizeof(Shared) + sizeof(Slot) * size_t(workers);
  char *mem = (char *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (mem == MAP_FAILED) return 3;
  shared = (Shared *)mem;
  Slot *slots = (Slot *)(mem + sizeof(Shared));
  for (int w = 0; w < workers; w++) { std::string p = out + "." + std::to_string(w); unlink(p.c_str()); }
  FILE *pf = fopen((out + ".parent").c_str(), "w");
  if (!pf) return 3;
  std::map<pid_t, int> live;
  std::vector<uint64_t> last(workers, 0);
  std::vector<double> since(workers, now());
  std::vector<bool> hung(workers, false);
  auto spawn = [&](int w) {
    fflush(pf);
    pid_t p = fork();
    if (p == 0) { slot = &slots[w]; slot->case_idx = -1; worker(out, w); }
    live[p] = w; last[w] = slots[w].progress; since[w] = now(); hung[w] = false;
  };
  for (int w = 0; w < workers; w++) spawn(w);
  while (!live.empty()) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0 && live.count(p)) {
      int w = live[p];
      live.erase(p);
      if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        Slot& s = slots[w];
        int i = s.case_idx;
        if (i < 0) { fprintf(pf, "{\"type\":\"error\",\"msg\":\"worker died outside of a case\"}\n"); break; }
        std::vector<uint32_t> ch;
        for (uint32_t k = 0; k < s.nch && k < uint32_t(MAXCH); k++) ch.push_back(uint32_t(s.ch[k]));
        std::string key = hung[w] ? "hang" : "crash";
        std::string msg = hung[w] ? "no progress for " + std::to_string(int(hang)) + " s"
          : WIFSIGNALED(st) ? std::string("process killed by signal ") + strsignal(WTERMSIG(st))
          : "process exited with status " + std::to_string(WEXITSTATUS(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !hung[w]) {
          fprintf(pf, "{\"type\":\"error\",\"msg\":\"worker killed (out of memory?) in case %s\"}\n", jesc(cases()[i].name).c_str());
        } else {
          write_viol(pf, i, key, msg, ch.empty() ? -1 : s.explore_idx, ch);
          __sync_fetch_and_add(&shared->nviol, 1);
        }
        s.nch = 0;
        spawn(w);
      }
      continue;
    }
    usleep(20000);
    double t = now();
    for (auto& kv : live) {
      int w = kv.second;
      if (slots[w].progress != last[w]) { last[w] = slots[w].progress; since[w] = t; }
      else if (t - since[w] > hang && !hung[w]) { hung[w] = true; kill(kv.first, SIGKILL); }
    }
  }
  fprintf(pf, "{\"type\":\"end\",\"cases\":%zu,\"nviol\":%d}\n", cases().size(), int(shared->nviol));
  fclose(pf);
  return 0;
}
