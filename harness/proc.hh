// Running the command line tools, each run in an empty directory of its own.
#ifndef VP_PROC_HH
#define VP_PROC_HH
#include "common.hh"

#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <dirent.h>
#include <unistd.h>

namespace vp {

typedef std::vector<std::string> Words;

/// What a run did
struct Ran {
  int status = -1;      ///< exit status, or -signal
  bool late = false;    ///< killed because it did not end
  std::string out, err;
  bool operator==(const Ran& r) const { return status == r.status && out == r.out && err == r.err && late == r.late; }
  std::string end() const { return late ? "no end" : status < 0 ? "signal " + mc::str(-status) : "status " + mc::str(status); }
};

inline std::string tool(const char *name) {
  std::string v = "VP_APP_";
  for (const char *p = name; *p; p++) v += *p == '-' ? '_' : char(toupper(*p));
  const char *s = getenv(v.c_str());
  if (!s) { std::cerr << v << " is not set" << std::endl; exit(9); }
  return s;
}

/// A scratch directory, removed with its files
struct Dir {
  std::string path;
  Dir() { static int n = 0; path = scratch() + "/run." + mc::str(getpid()) + "." + mc::str(n++); mkdir(path.c_str(), 0700); }
  ~Dir() { clear(); rmdir(path.c_str()); }
  Dir(const Dir&) = delete;
  std::vector<std::string> files() const {
    std::vector<std::string> r;
    if (DIR *d = opendir(path.c_str())) { while (auto e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != "..") r.push_back(s); } closedir(d); }
    std::sort(r.begin(), r.end());
    return r;
  }
  void clear() { for (auto& f : files()) { unlink((path + "/" + f).c_str()); rmdir((path + "/" + f).c_str()); } }
  std::string read(const std::string& f) const { std::ifstream i(path + "/" + f, std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
  void write(const std::string& f, const std::string& c) const { std::ofstream o(path + "/" + f, std::ios::binary); o << c; }
  bool has(const std::string& f) const { return access((path + "/" + f).c_str(), F_OK) == 0; }
};

inline std::string line(const std::string& t, const Words& w) {
  std::string s = t.substr(t.rfind('/') + 1);
  for (auto& x : w) s += x.find_first_of(" ();*&|'\"") == std::string::npos && !x.empty() ? " " + x : " '" + x + "'";
  return s;
}

/// Run a tool in a directory; file_limit bounds the size of the files it writes
inline Ran run(const std::string& bin, const Words& args, const Dir& d, const std::string& input = "", long file_limit = -1, int seconds = 60) {
  Ran r;
  int o[2], e[2], in[2];
  if (pipe(o) || pipe(e) || pipe(in)) { perror("pipe"); exit(9); }
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(9); }
  if (!p) {
    dup2(in[0], 0); dup2(o[1], 1); dup2(e[1], 2);
    for (int k = 3; k < 64; k++) ::close(k);
    if (chdir(d.path.c_str())) _exit(9);
    struct rlimit none = { 0, 0 }; setrlimit(RLIMIT_CORE, &none);
    struct rlimit room = { rlim_t(3) << 30, rlim_t(3) << 30 }; setrlimit(RLIMIT_AS, &room);
    if (file_limit >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = { rlim_t(file_limit), rlim_t(file_limit) }; setrlimit(RLIMIT_FSIZE, &l); }
    std::vector<char *> a; a.push_back(const_cast<char *>(bin.c_str()));
    for (auto& x : args) a.push_back(const_cast<char *>(x.c_str()));
    a.push_back(nullptr);
    execv(bin.c_str(), a.data());
    _exit(9);
  }
  ::close(o[1]); ::close(e[1]); ::close(in[0]);
  signal(SIGPIPE, SIG_IGN);
  if (!input.empty() && write(in[1], input.data(), input.size()) < 0) {}
  ::close(in[1]);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  bool open[2] = { true, true };
  char buf[65536];
  while (open[0] || open[1]) {
    struct pollfd f[2] = { { open[0] ? o[0] : -1, POLLIN, 0 }, { open[1] ? e[0] : -1, POLLIN, 0 } };
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    long left = seconds * 1000L - (t.tv_sec - t0.tv_sec) * 1000 - (t.tv_nsec - t0.tv_nsec) / 1000000;
    if (left <= 0) { ::kill(p, SIGKILL); r.late = true; break; }
    if (poll(f, 2, int(left)) <= 0) continue;
    for (int k = 0; k < 2; k++) if (open[k] && f[k].revents) {
      ssize_t n = read(k ? e[0] : o[0], buf, sizeof buf);
      if (n <= 0) open[k] = false; else (k ? r.err : r.out).append(buf, size_t(n));
    }
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  ::close(o[0]); ::close(e[0]);
  mc::step();
  return r;
}

} // namespace vp
#endif
