// Gauss-Legendre rules on [0,1] by Newton iteration in long double.
#ifndef VERIF_GAUSS_HPP_
#define VERIF_GAUSS_HPP_
#include <cmath>
#include <map>
#include <vector>
namespace gs {
struct Node {
  double x, w;
};
inline const std::vector<Node> &rule(int n) {  // n points, exact to degree 2n-1
  static std::map<int, std::vector<Node>> all;
  auto &r = all[n];
  if (!r.empty()) return r;
  for (int i = n; i >= 1; --i) {
    long double x = cosl(acosl(-1.L) * (i - .25L) / (n + .5L)), d = 1;
    for (int it = 0; it < 60; ++it) {
      long double p0 = 1, p1 = x;
      for (int k = 2; k <= n; ++k) {
        long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
        p0 = p1;
        p1 = p2;
      }
      if (n == 1) p1 = x, p0 = 1;
      d = n * (x * p1 - p0) / (x * x - 1);
      long double s = p1 / d;
      x -= s;
      if (fabsl(s) < 1e-20L) break;
    }
    r.push_back({(double)((1 + x) / 2), (double)(1 / ((1 - x * x) * d * d))});
  }
  return r;
}
}  // namespace gs
#endif
