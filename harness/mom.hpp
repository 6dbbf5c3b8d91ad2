// Exact moments: integrals of the local basis against Lagrange polynomials.
#ifndef VERIF_MOM_HPP_
#define VERIF_MOM_HPP_
#include "ref.hpp"
#include "vf.hpp"
using namespace Bembel;
using namespace Bembel::H2Multipole;
typedef long double ld;
typedef std::complex<double> cplx;
static ld lag(const Eigen::VectorXd &x, int j, ld t) {
  ld r = 1;
  for (int k = 0; k < x.size(); ++k)
    if (k != j) r *= (t - x(k)) / ((ld)x(j) - x(k));
  return r;
}
// Gauss-Legendre on [0,1] by Newton iteration
struct Gauss {
  std::vector<ld> x, w;
  explicit Gauss(int n) : x(n), w(n) {
    for (int i = 0; i < n; ++i) {
      ld t = cosl(3.14159265358979323846264338327950288L * (i + .75L) / (n + .5L)), d = 1;
      for (int it = 0; it < 100; ++it) {
        ld p0 = 1, p1 = t;
        for (int k = 2; k <= n; ++k) {
          ld p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k;
          p0 = p1;
          p1 = p2;
        }
        if (n == 1) { p1 = t; p0 = 1; }
        d = n * (t * p1 - p0) / (t * t - 1);
        ld s = p1 / d;
        t -= s;
        if (fabsl(s) < 1e-19L) break;
      }
      x[i] = (1 + t) / 2;
      w[i] = 1 / ((1 - t * t) * d * d);
    }
  }
};
// which derivative belongs to which block of rows of moment matrix `comp`
template <typename Op>
struct Blocks {
  static std::vector<int> get(int) { return {0}; }
};
template <>
struct Blocks<LaplaceHypersingularOperator> {
  static std::vector<int> get(int) { return {1, 2}; }
};
template <>
struct Blocks<HelmholtzHypersingularOperator> {
  static std::vector<int> get(int) { return {0, 1, 2}; }
};
template <>
struct Blocks<MaxwellSingleLayerOperator> {
  static std::vector<int> get(int c) { return {0, 1 + c}; }
};
// int over the element at (ix,iy) of 2^m x 2^m in its cluster of basis function (a,b),
// differentiated in direction der with respect to the patch, times Lagrange (i,j)
struct Exact {
  int np, P, m;
  Eigen::VectorXd x;
  // 1d tables: [ix][a][i]
  std::vector<double> val, der;
  double h;
  Exact(int np_, int P_, int m_, int level) : np(np_), P(P_), m(m_) {
    x = ChebychevRoots(np).points_;
    const int n = 1 << m;
    h = std::ldexp(1., -level);
    Gauss g((np + P) / 2 + 2);
    val.assign(n * (P + 1) * np, 0);
    der = val;
    for (int e = 0; e < n; ++e)
      for (int a = 0; a <= P; ++a)
        for (int i = 0; i < np; ++i) {
          ld v = 0, d = 0;
          for (size_t q = 0; q < g.x.size(); ++q) {
            ld L = lag(x, i, (e + g.x[q]) / n) * g.w[q];
            v += L * ref::bern(a, P, g.x[q]);
            d += L * ref::bernDer(a, P, g.x[q]);
          }
          val[(e * (P + 1) + a) * np + i] = v;
          der[(e * (P + 1) + a) * np + i] = d;
        }
  }
  double operator()(int d, int ix, int iy, int a, int b, int i, int j) const {
    double u = (d == 1 ? der : val)[(ix * (P + 1) + a) * np + i], v = (d == 2 ? der : val)[(iy * (P + 1) + b) * np + j];
    return u * v * (d ? 1. : h);
  }
};
#endif
