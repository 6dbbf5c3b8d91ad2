// Common driver support for the bounded-exhaustive checks in /verif.
//
// A harness enumerates a finite space of *cases* (operation histories, object
// configurations, schedules ...).  Each case is executed on the real code and
// compared with a reference model.  This header provides: sharding, replay of
// a single case, counting of states / transitions / validated traces, recording
// of violations, crash attribution (the id of the case being executed lives in
// a file mapping that survives an abort), and fork isolation.
#ifndef VERIF_VF_HPP_
#define VERIF_VF_HPP_
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

struct Violation {
  std::string id, msg;
};

struct Ctx {
  bool thorough = false;
  int seed = 1;
  int shard = 0, nshards = 1;
  std::string only, out, scratch = "/tmp";
  char *cur = nullptr;  // mmap'ed: id of the case being executed
  std::string id;       // id of current case
  uint64_t case_counter = 0, cases = 0, transitions = 0, fails_in_case = 0;
  uint64_t nviol = 0;
  std::unordered_set<uint64_t> states;
  std::vector<Violation> viol;
  std::vector<std::string> samples;
  std::map<std::string, double> extra;
  std::map<std::string, std::string> notes;
  double worst = 0;
  std::string worst_id;
  bool stop_early = false;  // end at the first case after a violation
  double since = 0;         // start of the current case
};
inline double clock_s() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline int finish();
inline Ctx &ctx() {
  static Ctx c;
  return c;
}
constexpr size_t CURSZ = 8192;

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hstr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h, s.size());
}
inline uint64_t hash() { return 0x1234567; }
template <typename... R>
uint64_t hash(uint64_t a, R... r) {
  return mix(hash((uint64_t)r...), a);
}

inline void init(int argc, char **argv) {
  Ctx &c = ctx();
  std::string curfile;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--tier")
      c.thorough = val() == "thorough";
    else if (a == "--seed")
      c.seed = atoi(val().c_str());
    else if (a == "--shard") {
      std::string s = val();
      sscanf(s.c_str(), "%d/%d", &c.shard, &c.nshards);
    } else if (a == "--only")
      c.only = val();
    else if (a == "--out")
      c.out = val();
    else if (a == "--cur")
      curfile = val();
    else if (a == "--scratch")
      c.scratch = val();
    else if (a == "--stop-early")
      c.stop_early = true;
  }
  if (!curfile.empty()) {
    int fd = open(curfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, CURSZ) == 0) {
      void *p = mmap(0, CURSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) c.cur = static_cast<char *>(p);
    }
    if (fd >= 0) close(fd);
  }
}

// Announce a case.  Returns false if this process is not to execute it.
inline bool begin(const std::string &id) {
  Ctx &c = ctx();
  uint64_t n = c.case_counter++;
  if (!c.only.empty()) {
    if (c.only != id) return false;
  } else if ((int)(n % c.nshards) != c.shard) {
    return false;
  }
  if (c.stop_early && c.nviol) _exit(finish());
  const double now = clock_s();
  if (c.since) c.extra["max_case_s"] = std::max(c.extra["max_case_s"], std::round(10 * (now - c.since)) / 10);
  if (c.since && getenv("VF_TIMES"))
    if (FILE *f = fopen(getenv("VF_TIMES"), "a")) fprintf(f, "%.3f %s\n", now - c.since, c.id.c_str()), fclose(f);
  c.since = now;
  c.id = id;
  c.fails_in_case = 0;
  if (c.cur) {
    size_t l = id.size() < CURSZ - 1 ? id.size() : CURSZ - 1;
    memcpy(c.cur, id.data(), l);
    c.cur[l] = 0;
  }
  ++c.cases;
  if (c.samples.size() < 3 || (c.cases % 97 == 0 && c.samples.size() < 6))
    c.samples.push_back(id);
  return true;
}
inline void state(uint64_t h) { ctx().states.insert(h); }
inline void step(uint64_t n = 1) { ctx().transitions += n; }
inline void fail(const std::string &msg) {
  Ctx &c = ctx();
  ++c.nviol;
  if (++c.fails_in_case > 1 || c.viol.size() > 200) return;
  c.viol.push_back({c.id, msg});
}
inline bool failed() { return ctx().fails_in_case > 0; }
template <typename... A>
std::string cat(const A &...a) {
  std::ostringstream o;
  o.precision(17);
  int d[] = {0, ((void)(o << a), 0)...};
  (void)d;
  return o.str();
}
inline void check(bool ok, const std::string &msg) {
  step();
  if (!ok) fail(msg);
}
// |a-b| <= tol * (1+scale)
inline void near(double a, double b, double tol, const std::string &msg) {
  step();
  double e = std::abs(a - b);
  if (e <= tol) {
    double r = e / tol;
    if (r > ctx().worst) {
      ctx().worst = r;
      ctx().worst_id = ctx().id + " :: " + msg;
    }
    return;
  }
  fail(cat(msg, ": got ", a, " expected ", b, " tol ", tol));
}
inline void near(std::complex<double> a, std::complex<double> b, double tol,
                 const std::string &msg) {
  step();
  double e = std::abs(a - b);
  if (e <= tol) {
    double r = e / tol;
    if (r > ctx().worst) {
      ctx().worst = r;
      ctx().worst_id = ctx().id + " :: " + msg;
    }
    return;
  }
  fail(cat(msg, ": got ", a, " expected ", b, " tol ", tol));
}

inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += ch;
    }
  }
  return o;
}

// Runs f in a child process.  f reports through vf::fail as usual; returns
// true when the child ended normally.  Crashes become violations.
inline bool isolated(const std::function<void()> &f) {
  Ctx &c = ctx();
  int p[2];
  if (pipe(p)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    uint64_t t0 = c.transitions;
    std::vector<uint64_t> st;
    c.states.clear();
    c.viol.clear();
    c.nviol = 0;
    c.fails_in_case = 0;
    f();
    std::ostringstream o;
    o << (c.transitions - t0) << " " << c.nviol << " " << c.states.size();
    for (uint64_t s : c.states) o << " " << s;
    o << "\n";
    if (!c.viol.empty()) o << c.viol[0].msg;
    std::string s = o.str();
    size_t off = 0;
    while (off < s.size()) {
      ssize_t w = write(p[1], s.data() + off, s.size() - off);
      if (w <= 0) break;
      off += w;
    }
    close(p[1]);
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char buf[4096];
  ssize_t r;
  while ((r = read(p[0], buf, sizeof buf)) > 0) s.append(buf, r);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    fail(cat("execution crashed (",
             WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit",
             WIFSIGNALED(st) ? "" : cat(" ", WEXITSTATUS(st)), ")"));
    return false;
  }
  std::istringstream in(s);
  uint64_t t = 0, n = 0, ns = 0;
  in >> t >> n >> ns;
  step(t);
  for (uint64_t i = 0; i < ns; ++i) {
    uint64_t h;
    in >> h;
    state(h);
  }
  if (n) {
    std::string rest, line;
    std::getline(in, line);
    while (std::getline(in, line)) rest += line + "\n";
    fail(rest);
  }
  return true;
}

inline int finish() {
  Ctx &c = ctx();
  if (c.since) c.extra["max_case_s"] = std::max(c.extra["max_case_s"], std::round(10 * (clock_s() - c.since)) / 10);
  if (c.cur) c.cur[0] = 0;
  std::ofstream o(c.out.empty() ? "/dev/stdout" : c.out);
  o.precision(17);
  o << "{\"cases\":" << c.cases << ",\"announced\":" << c.case_counter
    << ",\"transitions\":" << c.transitions << ",\"nviol\":" << c.nviol
    << ",\"worst\":" << c.worst << ",\"worst_id\":\"" << esc(c.worst_id)
    << "\",\"samples\":[";
  for (size_t i = 0; i < c.samples.size(); ++i)
    o << (i ? "," : "") << "\"" << esc(c.samples[i]) << "\"";
  o << "],\"violations\":[";
  for (size_t i = 0; i < c.viol.size(); ++i)
    o << (i ? "," : "") << "{\"id\":\"" << esc(c.viol[i].id) << "\",\"msg\":\""
      << esc(c.viol[i].msg) << "\"}";
  o << "],\"extra\":{";
  bool first = true;
  for (auto &kv : c.extra) {
    o << (first ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second;
    first = false;
  }
  o << "},\"states\":[";
  first = true;
  for (uint64_t s : c.states) {
    o << (first ? "" : ",") << "\"" << std::hex << s << std::dec << "\"";
    first = false;
  }
  o << "]}\n";
  o.close();
  return 0;
}
inline bool thorough() { return ctx().thorough; }
}  // namespace vf
#endif
