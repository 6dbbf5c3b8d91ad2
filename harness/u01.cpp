// U01: the headers form one library: every order of the modules compiles under every language standard, and a program
// of several translation units behaves like one of a single unit. The harness runs the compiler on generated programs;
// the program explores all histories of uses of the library from two translation units.
#include <sys/wait.h>
#include <dirent.h>
#include "vf.hpp"
using vf::cat;
static std::vector<std::string> modules() {
  std::vector<std::string> m;
  DIR *d = opendir(REPO_DIR "/Bembel");
  while (dirent *e = d ? readdir(d) : nullptr)
    if (e->d_type == DT_REG && std::string(e->d_name).find('.') == std::string::npos) m.push_back(e->d_name);
  if (d) closedir(d);
  std::sort(m.begin(), m.end());
  return m;
}
static std::string dir() { return vf::ctx().scratch + "/"; }
static void write(const std::string &f, const std::string &t) { std::ofstream(dir() + f) << t; }
static std::string read(const std::string &f, size_t n = 600) {
  std::ifstream in(dir() + f);
  std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  return t.size() > n ? t.substr(0, n) : t;
}
static int sh(const std::string &c) {
  int r = system(("export LC_ALL=C; cd " + vf::ctx().scratch + " && " + c).c_str());
  return WIFEXITED(r) ? WEXITSTATUS(r) : 128;
}
static std::string firstError(const std::string &f) {
  std::istringstream in(read(f, 100000));
  for (std::string l; std::getline(in, l);)
    if (l.find("error") != std::string::npos || l.find("undefined") != std::string::npos || l.find("multiple definition") != std::string::npos) return l.substr(0, 400);
  return read(f, 300);
}
static const std::string FLAGS = " -w -fopenmp -I" REPO_DIR " -I/usr/include/eigen3 -I" HARNESS_DIR " ";
static std::string includes(const std::vector<std::string> &m) {
  std::string t;
  for (auto &x : m) t += "#include <Bembel/" + x + ">\n";
  return t;
}
static void compiles(const std::string &what, const std::vector<std::string> &m, int std) {
  std::string name = cat(what, "/std", std);
  for (auto &x : m) name += "/" + x;
  if (!vf::begin(name)) return;
  write("t.cpp", includes(m) + "int main() { return 0; }\n");
  vf::state(vf::hstr(name));
  vf::step();
  vf::check(sh(cat("g++ -std=c++", std, FLAGS, "-fsyntax-only t.cpp > err 2>&1")) == 0, "does not compile: " + firstError("err"));
}
static const char *MAIN = R"(
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cmath>
#include <vector>
typedef std::vector<double> R;
namespace TU0 { R call(int); }
namespace TU1 { R call(int); }
static const int N = 13, SET1 = N - 3, SET2 = N - 2, GET = N - 1;
static R call(int o) { return o < N ? TU0::call(o) : TU1::call(o - N); }
static bool same(const R &a, const R &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!(std::abs(a[i] - b[i]) <= 1e-10 * (1 + std::abs(a[i])))) return false;
  return true;
}
// the values of one history of operations, in a process of its own
static R fresh(const std::vector<int> &h) {
  int p[2];
  if (pipe(p)) return {};
  const pid_t pid = fork();
  if (!pid) {
    R r;
    for (int o : h) r = call(o);
    size_t n = r.size();
    if (write(p[1], &n, sizeof n) < 0 || write(p[1], r.data(), n * sizeof(double)) < 0) _exit(1);
    _exit(0);
  }
  close(p[1]);
  size_t n = 0;
  R r;
  if (read(p[0], &n, sizeof n) == sizeof n) {
    r.resize(n);
    size_t got = 0;
    while (got < n * sizeof(double)) {
      ssize_t k = read(p[0], (char *)r.data() + got, n * sizeof(double) - got);
      if (k <= 0) break;
      got += k;
    }
  } else {
    r = {NAN};
  }
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  return r;
}
int main(int argc, char **argv) {
  const int depth = argv[1][0] - '0';
  std::vector<R> ref(N);
  for (int i = 0; i < N; ++i) ref[i] = fresh({i});
  const R after[3] = {ref[GET], fresh({SET1, GET}), fresh({SET2, GET})};
  if (after[1].size() != 2 || after[1][0] != 1e-3 || after[2][0] != 1e-5) return printf("a precision that was set is not returned\n"), 1;
  if (same(after[1], after[2])) return printf("the precision does not change the operator\n"), 1;
  long states = 0, bad = 0, trans = 0;
  auto run = [&](const std::vector<int> &h) {
    ++states;
    int set = 0;
    fflush(stdout);
    const pid_t pid = fork();
    if (!pid) {
      for (int o : h) {
        const R r = call(o);
        const int k = o % N;
        if (k == SET1) set = 1;
        if (k == SET2) set = 2;
        if (!same(k == GET ? after[set] : ref[k], r)) {
          printf("history");
          for (int x : h) printf(" %d.%d", x / N, x % N);
          printf(": operation %d.%d differs from the program of one translation unit\n", o / N, k);
          fflush(stdout);
          _exit(1);
        }
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    trans += h.size();
    if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad;
    if (WIFSIGNALED(st)) {
      printf("history");
      for (int x : h) printf(" %d.%d", x / N, x % N);
      printf(": crash\n");
    }
  };
  const int worker = argv[2][0] - '0';
  for (int i = worker; i < 2 * N; i += 4) {
    run({i});
    for (int j = 0; j < 2 * N; ++j) {
      if (depth > 2 || (i / N != j / N && (depth > 1 || i % N >= SET1))) run({i, j});
      for (int k = 0; k < 2 * N; ++k)
        if (depth > 2 || (i % N >= SET1 && j % N >= SET1 && k % N == GET)) run({i, j, k});
    }
  }
  printf("STATES %ld %ld\n", states, trans);
  return bad > 0;
}
)";
// two translation units that include the modules in two orders
static void program(const std::string &what, const std::vector<std::string> &a, const std::vector<std::string> &b, int std, const std::string &opt, int depth) {
  if (!vf::begin(cat("program/", what, "/std", std, "/", opt))) return;
  int k = 0;
  for (auto m : {a, b}) {
    write(cat("tu", k, ".cpp"), cat(includes(m), "#include <unistd.h>\n#include <fstream>\n#define TU TU", k, "impl\n#include \"u01_tu.inc\"\nnamespace TU", k, " { std::vector<double> call(int i) { return TU", k, "impl::use(i); } }\n"));
    ++k;
  }
  write("m.cpp", MAIN);
  if (sh(cat("(g++ -std=c++", std, FLAGS, opt, " -c tu0.cpp -o tu0.o > err0 2>&1; echo $? > rc0) & (g++ -std=c++", std, FLAGS, opt, " -c tu1.cpp -o tu1.o > err1 2>&1; echo $? > rc1) & wait; exit $(($(cat rc0) + $(cat rc1)))"))) {
    vf::fail("does not compile: " + firstError("err0") + firstError("err1"));
    return;
  }
  if (sh(cat("g++ -std=c++", std, FLAGS, " m.cpp tu0.o tu1.o -o prog > err 2>&1"))) {
    vf::fail("cannot be linked: " + firstError("err"));
    return;
  }
  const int rc = sh(cat("export OMP_NUM_THREADS=1; for w in 0 1 2 3; do (./prog ", depth, " $w > out$w 2>&1; echo $? > rc$w) & done; wait; exit $(($(cat rc0) + $(cat rc1) + $(cat rc2) + $(cat rc3)))"));
  std::string t;
  long s = 0, n = 0;
  bool all = true;
  for (int w = 0; w < 4; ++w) {
    const std::string o = read(cat("out", w), 1000000);
    long s1 = 0, n1 = 0;
    const size_t i = o.find("STATES ");
    if (i != std::string::npos) sscanf(o.c_str() + i, "STATES %ld %ld", &s1, &n1);
    all = all && s1;
    s += s1;
    n += n1;
    const size_t h = o.find("history ");
    if (t.empty()) t = h == std::string::npos ? (s1 ? "" : o) : o.substr(h);
  }
  for (long j = 0; j < s; ++j) vf::state(vf::hash(vf::hstr(what), j));
  vf::step(n);
  vf::check(rc == 0 && all, "program of two translation units: " + t.substr(0, 500));
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  const std::vector<std::string> m = modules();
  const std::vector<std::string> r(m.rbegin(), m.rend());
  const int n = m.size();
  if (n < 10) return 3;
  program("forward+backward", m, r, 11, "-O0", 2 + th);
  program("backward+forward", r, m, 20, "-O0", 1 + th);
  if (th) program("forward+forward", m, m, 14, "-O2", 2), program("backward+backward", r, r, 17, "-O1", 2);
  for (int s : {11, 14, 17, 20})
    if (th || s == 11)
      for (auto &x : m) compiles("alone", {x}, s);
  for (int k = 0; k < n; ++k)
    for (auto *o : {&m, &r}) {
      std::vector<std::string> x(*o);
      std::rotate(x.begin(), x.begin() + k, x.end());
      for (int s : {11, 17, 20})
        if (th || (k % 6 == 0 && s == (k % 4 ? 11 : 20))) compiles("all", x, s);
    }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j && th) compiles("pair", {m[i], m[j]}, 11);
  return vf::finish();
}
