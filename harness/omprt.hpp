// Controlled OpenMP runtime: every synchronisation operation of the program is
// a scheduling point decided by an explorer.  See omprt.cpp.
#ifndef VERIF_OMPRT_HPP_
#define VERIF_OMPRT_HPP_
#include <cstdint>
#include <string>
#include <vector>
namespace omprt {
struct Point {
  int n;       // number of alternatives
  int chosen;  // alternative taken
};
struct Outcome {
  bool deadlock = false, diverged = false;
  std::string race;            // description of the first race, empty if none
  std::vector<Point> points;   // scheduling decisions in order
  uint64_t regions = 0, tasks = 0, claims = 0, criticals = 0, accesses = 0;
  uint64_t maxteam = 0;
};
// prepare a run: number of threads, the choices to replay (0 afterwards)
void begin(int nthreads, const std::vector<int> &prefix, bool detect);
Outcome end();
void yield();         // a scheduling point without synchronisation
bool instrumented();  // true if memory accesses are being observed at all
}  // namespace omprt
#endif
