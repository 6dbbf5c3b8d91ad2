// I03: stopwatches under a controlled clock, every history of operations.
#include <Bembel/IO>
#include <time.h>
#include "vf.hpp"
// the clocks of this process: a steady one and a wall clock that may be set
static long long steady_ns = 1000000000, wall_ns = 1700000000000000000ll;
static bool controlled = false;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
  if (!controlled) {
    t->tv_sec = t->tv_nsec = 0;
    return 0;
  }
  long long v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall_ns : steady_ns;
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  return 0;
}
using vf::cat;
typedef Bembel::IO::Stopwatch SW;
enum { START, LAP, STOP, DATA, TIC, TOC, WAIT, LONG, BACK, FWD, NOPS };
static const char *NM[] = {"start", "lap", "stop", "data", "tic", "toc", "wait", "longwait", "clockback", "clockforward"};
struct Model {
  bool running = false, ticked = false, lapped = false;
  long long begin = 0, last = 0, now = 0;
  std::vector<double> laps;
};
static bool near(double a, double b) { return std::abs(a - b) <= 1e-6 + 1e-12 * std::abs(b); }
static void exec(const std::vector<int> &h) {
  steady_ns = 1000000000;
  wall_ns = 1700000000000000000ll;
  SW sw;
  Model m;
  uint64_t hs = 9;
  auto adv = [&](long long d) {
    steady_ns += d;
    wall_ns += d;
    m.now += d;
  };
  int lapno = 0;
  for (int o : h) {
    vf::step();
    switch (o) {
      case START:
        sw.start();
        m.running = true;
        m.lapped = false;
        m.begin = m.last = m.now;
        m.ticked = false;  // start and tic share the clock
        m.laps.clear();
        break;
      case LAP: {
        double r = sw.lap(), e = (m.now - m.last) * 1e-9;
        if (!near(r, e)) vf::fail(cat("lap returned ", r, " instead of ", e));
        if (!(r >= 0)) vf::fail(cat("negative lap ", r));
        m.laps.push_back(e);
        m.last = m.now;
        m.lapped = true;
        break;
      }
      case STOP: {
        double r = sw.stop(), s = 0;
        for (double x : m.laps) s += x;
        double e = m.lapped ? s : (m.now - m.begin) * 1e-9;
        // time after the last lap may be attributed to the total or not
        double e2 = (m.now - m.begin) * 1e-9;
        if (!near(r, e) && !near(r, e2)) vf::fail(cat("stop returned ", r, " instead of ", e));
        auto d = sw.get_data();
        double sd = 0;
        for (double x : d) sd += x;
        if (m.lapped && !near(sd, r)) vf::fail(cat("laps sum to ", sd, " but the total is ", r));
        m.running = false;
        break;
      }
      case DATA: break;
      case TIC:
        sw.tic();
        m.ticked = true;
        m.begin = m.last = m.now;
        break;
      case TOC: {
        double r = sw.toc(), e = (m.now - m.last) * 1e-9;
        if (!near(r, e)) vf::fail(cat("toc returned ", r, " instead of ", e));
        break;
      }
      case WAIT: adv(1000000 * (1 + lapno++)); break;
      case LONG: adv(86400000000000ll * 40 + 12345); break;
      case BACK: wall_ns -= 3600000000000ll; break;
      case FWD: wall_ns += 7200000000000ll; break;
    }
    auto d = sw.get_data();
    if (d.size() != m.laps.size()) {
      vf::fail(cat("after ", NM[o], ": ", d.size(), " laps recorded instead of ", m.laps.size()));
      return;
    }
    for (size_t i = 0; i < d.size(); ++i)
      if (!near(d[i], m.laps[i])) vf::fail(cat("after ", NM[o], ": lap ", i, " is ", d[i], " instead of ", m.laps[i]));
  }
  hs = vf::hash(hs, m.running, m.lapped, m.ticked, m.laps.size(), m.now, m.last, wall_ns - steady_ns);
  vf::state(hs);
}
// which operations are allowed when (start only stopped, lap / stop only running;
// tic / toc are a separate use of a watch that is not running)
static bool ok(const std::vector<int> &h, int o, const std::vector<int> &use) {
  bool run = false, tic = false;
  for (int x : h) {
    if (x == START) run = true, tic = false;
    if (x == STOP) run = false;
    if (x == TIC) tic = true;
  }
  switch (o) {
    case START: return !run;
    case LAP:
    case STOP: return run;
    case TIC: return !run;
    case TOC: return !run && tic;
    default: return true;
  }
}
static void explore(const std::string &tag, const std::vector<int> &use, int depth, std::vector<int> *h) {
  if (!h->empty()) {
    std::string id = tag;
    for (int k : *h) id += cat("/", NM[k]);
    if (vf::begin(id)) {
      controlled = true;
      exec(*h);
    }
  }
  if ((int)h->size() == depth) return;
  for (int o : use) {
    if (!ok(*h, o, use)) continue;
    h->push_back(o);
    explore(tag, use, depth, h);
    h->pop_back();
  }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  std::vector<int> h;
  const int T = vf::thorough() ? 2 : 0;
  explore("watch", {START, LAP, STOP, WAIT}, 10 + T, &h);
  explore("clock", {START, LAP, STOP, WAIT, LONG, BACK, FWD}, 6 + T / 2, &h);
  explore("tictoc", {START, LAP, STOP, TIC, TOC, WAIT, BACK}, 6 + T / 2, &h);
  return vf::finish();
}
