// Stateless exploration of schedules: iterative depth-first enumeration of all
// choice sequences whose number of non-default choices is at most `bound`.
#ifndef VERIF_EXPLORE_HPP_
#define VERIF_EXPLORE_HPP_
#include <string>
#include <vector>
#include "omprt.hpp"
#include "vf.hpp"
namespace explore {
struct Stats {
  uint64_t schedules = 0, points = 0;
};
template <typename Run>
omprt::Outcome one(int T, const std::vector<int> &prefix, bool detect, const Run &run, std::vector<double> *res) {
  omprt::begin(T, prefix, detect);
  run(res);
  return omprt::end();
}
inline std::string show(const std::vector<int> &p) {
  std::string s;
  for (int x : p) s += (s.empty() ? "" : ",") + std::to_string(x);
  return "[" + s + "]";
}
// explore all schedules below `prefix` (whose deviations are already counted)
template <typename Run>
void subtree(int T, std::vector<int> prefix, int left, bool detect, const Run &run, const std::vector<double> &ref,
             double tol, uint64_t tag, uint64_t limit, uint64_t *count) {
  if (*count >= limit) {
    vf::ctx().extra["truncated"] = 1;
    return;
  }
  std::vector<double> res;
  omprt::Outcome o = one(T, prefix, detect, run, &res);
  ++*count;
  vf::ctx().extra["schedules"] += 1;
  vf::ctx().extra["choice_points"] += o.points.size();
  vf::ctx().extra["tasks_executed"] += o.tasks;
  vf::ctx().extra["memory_accesses_checked"] += detect ? o.accesses : 0;
  vf::ctx().extra["max_points_in_one_schedule"] =
      std::max(vf::ctx().extra["max_points_in_one_schedule"], (double)o.points.size());
  vf::step(o.points.size());
  uint64_t h = tag;
  std::vector<int> full;
  for (auto &p : o.points) {
    h = vf::mix(h, p.chosen * 64 + p.n);
    full.push_back(p.chosen);
  }
  vf::state(h);
  if (o.diverged) {
    vf::fail("the same choices did not reproduce the same execution: schedule " + show(full));
    return;
  }
  if (!o.race.empty()) vf::fail(o.race + " in schedule " + show(full));
  bool same = res.size() == ref.size();
  size_t at = 0;
  double worst = 0;
  if (same)
    for (size_t i = 0; i < ref.size(); ++i) {
      double e = std::abs(res[i] - ref[i]);
      if (!(e <= tol)) {
        same = false;
        at = i;
        worst = e;
        break;
      }
    }
  if (!same)
    vf::fail(vf::cat("result differs from sequential execution (entry ", at, ", error ", worst, ", sizes ", res.size(), "/",
                     ref.size(), ") in schedule ", show(full)));
  if (vf::failed() || left == 0) return;
  for (size_t i = prefix.size(); i < o.points.size(); ++i)
    for (int a = 1; a < o.points[i].n; ++a) {
      std::vector<int> p(full.begin(), full.begin() + i);
      p.push_back(a);
      subtree(T, p, left - 1, detect, run, ref, tol, tag, limit, count);
      if (vf::failed()) return;
    }
}
// all schedules of `run` with T threads and at most `bound` deviations, split
// into one case per first deviation
template <typename Run>
void all(const std::string &name, int T, int bound, bool detect, const Run &run, const std::vector<double> &ref,
         double tol, uint64_t limit = 1u << 30) {
  uint64_t tag = vf::hstr(name) + T;
  std::vector<double> res;
  if (vf::begin(vf::cat(name, ":T=", T, ":b=0"))) {
    uint64_t c = 0;
    subtree(T, {}, 0, detect, run, ref, tol, tag, limit, &c);
    // determinism of replay
    std::vector<double> r1, r2;
    auto o1 = one(T, {}, detect, run, &r1), o2 = one(T, {}, detect, run, &r2);
    bool eq = o1.points.size() == o2.points.size();
    for (size_t i = 0; eq && i < o1.points.size(); ++i) eq = o1.points[i].n == o2.points[i].n;
    vf::check(eq, "replaying the default schedule meets different choice points");
    vf::ctx().extra["max_team"] = std::max(vf::ctx().extra["max_team"], (double)o1.maxteam);
    vf::ctx().extra["parallel_regions"] += o1.regions;
  }
  if (bound == 0) return;
  auto base = one(T, {}, false, run, &res);
  for (size_t i = 0; i < base.points.size(); ++i)
    for (int a = 1; a < base.points[i].n; ++a) {
      if (!vf::begin(vf::cat(name, ":T=", T, ":b=", bound, ":first=", i, ":", a))) continue;
      std::vector<int> p;
      for (size_t k = 0; k < i; ++k) p.push_back(base.points[k].chosen);
      p.push_back(a);
      uint64_t c = 0;
      subtree(T, p, bound - 1, detect, run, ref, tol, tag, limit, &c);
    }
}
}  // namespace explore
#endif
