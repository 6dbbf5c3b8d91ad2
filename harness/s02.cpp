// S02: every rule integrates every monomial / Legendre polynomial up to its
// nominal degree, has positive weights, interior nodes and is returned for its index.
#include <Eigen/Dense>
#include <Bembel/Quadrature>
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
typedef long double ld;
static std::vector<ld> legendre(ld t, int n) {  // shifted to [0,1], P_0..P_n
  std::vector<ld> p(n + 1);
  ld x = 2 * t - 1;
  p[0] = 1;
  if (n > 0) p[1] = x;
  for (int k = 1; k < n; ++k) p[k + 1] = ((2 * k + 1) * x * p[k] - k * p[k - 1]) / (k + 1);
  return p;
}
static std::vector<ld> roots(int n) {  // Gauss nodes on [0,1] by Newton
  std::vector<ld> r;
  for (int i = n; i >= 1; --i) {
    ld x = std::cos(M_PIl * (i - .25L) / (n + .5L));
    for (int it = 0; it < 60; ++it) {
      ld p0 = 1, p1 = x;
      for (int k = 1; k < n; ++k) {
        ld p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1);
        p0 = p1;
        p1 = p2;
      }
      if (n == 0) p1 = 1;
      x -= p1 * (x * x - 1) / (n * (x * p1 - p0));
    }
    r.push_back((x + 1) / 2);
  }
  std::sort(r.begin(), r.end());
  return r;
}
static const double TOL = 4e-14;
static void rule1(const Quadrature<1> &q, int n, const std::string &w) {
  vf::check(q.w_.size() == n && q.xi_.cols() == n, cat(w, ": ", q.w_.size(), " points, expected ", n));
  if (vf::failed()) return;
  std::vector<double> x(q.xi_.data(), q.xi_.data() + n);
  std::sort(x.begin(), x.end());
  auto r = roots(n);
  for (int i = 0; i < n; ++i) {
    vf::check(x[i] > 0 && x[i] < 1, cat(w, ": node outside"));
    vf::near(x[i], (double)r[i], TOL, cat(w, ": node ", i));
    vf::check(q.w_(i) > 0, cat(w, ": weight ", i, " not positive"));
  }
  std::vector<ld> I(2 * n, 0), M(2 * n, 0);
  for (int i = 0; i < n; ++i) {
    auto p = legendre(q.xi_(0, i), 2 * n - 1);
    for (int d = 0; d < 2 * n; ++d) {
      I[d] += q.w_(i) * p[d];
      M[d] += q.w_(i) * std::pow((ld)q.xi_(0, i), d);
    }
  }
  for (int d = 0; d < 2 * n; ++d) {
    vf::near((double)I[d], d == 0, TOL, cat(w, ": Legendre polynomial ", d));
    vf::near((double)M[d], 1. / (d + 1), TOL, cat(w, ": monomial ", d));
  }
}
static void rule2(const Quadrature<2> &q, int n, const std::string &w, bool all) {
  vf::check(q.w_.size() == n * n && q.xi_.cols() == n * n, cat(w, ": number of points"));
  if (vf::failed()) return;
  for (int i = 0; i < n * n; ++i) {
    vf::check(q.xi_(0, i) > 0 && q.xi_(0, i) < 1 && q.xi_(1, i) > 0 && q.xi_(1, i) < 1, cat(w, ": node outside"));
    vf::check(q.w_(i) > 0, cat(w, ": weight not positive"));
  }
  const int D = 2 * n;
  std::vector<std::vector<ld>> px, py;
  for (int i = 0; i < n * n; ++i) {
    px.push_back(legendre(q.xi_(0, i), D - 1));
    py.push_back(legendre(q.xi_(1, i), D - 1));
  }
  for (int a = 0; a < D; ++a)
    for (int b = 0; b < D; ++b) {
      // large rules: the full frame of extreme and diagonal degrees
      if (!all && !(a < 3 || b < 3 || a > D - 3 || b > D - 3 || a == b)) continue;
      ld s = 0;
      for (int i = 0; i < n * n; ++i) s += q.w_(i) * px[i][a] * py[i][b];
      vf::near((double)s, a == 0 && b == 0, 2 * TOL, cat(w, ": product of Legendre polynomials ", a, ",", b));
    }
}
template <unsigned int O>
void family() {
  static GaussLegendre<O> GL;
  for (unsigned i = 0; i <= O; ++i) {
    if (!vf::begin(cat("gl/", O, "/", i))) continue;
    vf::state(vf::hstr(vf::ctx().id));
    rule1(GL[i], i + 1, cat("GaussLegendre<", O, ">[", i, "]"));
  }
}
template <unsigned int O>
void square(int allUpTo) {
  static GaussSquare<O> GS;
  for (unsigned i = 0; i <= O; ++i) {
    if (!vf::begin(cat("gs/", O, "/", i))) continue;
    vf::state(vf::hstr(vf::ctx().id));
    rule2(GS[i], i + 1, cat("GaussSquare<", O, ">[", i, "]"), (int)i <= allUpTo);
  }
}
template <unsigned int O>
struct Each {
  static void go() {
    Each<O - 1>::go();
    family<O>();
  }
};
template <>
struct Each<0> {
  static void go() { family<0>(); }
};
template <unsigned int O>
struct EachS {
  static void go() {
    EachS<O - 1>::go();
    square<O>(20);
  }
};
template <>
struct EachS<0> {
  static void go() { square<0>(20); }
};
template <unsigned int O>
struct Rules {
  static void go() {
    Rules<O - 1>::go();
    if (!vf::begin(cat("rule/", O))) return;
    vf::state(vf::hstr(vf::ctx().id));
    GaussLegendreRule<O> r;
    Quadrature<1> q;
    vf::check(r.xi_.size() == O && r.w_.size() == O, "sizes");
    if (vf::failed()) return;
    q.xi_ = Eigen::Map<Eigen::VectorXd>(r.xi_.data(), O);
    q.w_ = Eigen::Map<Eigen::VectorXd>(r.w_.data(), O);
    rule1(q, O, cat("GaussLegendreRule<", O, ">"));
  }
};
template <>
struct Rules<0> {
  static void go() {}
};
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  Rules<64>::go();
  Each<31>::go();
  family<50>();
  family<80>();
  EachS<9>::go();
  square<20>(20);
  square<50>(th ? 100 : 16);
  // copies of a rule are independent of the table
  for (int i = 0; i <= 20; ++i) {
    if (!vf::begin(cat("copy/", i))) continue;
    vf::state(vf::hstr(vf::ctx().id));
    Quadrature<2> c;
    Quadrature<1> d;
    {
      GaussSquare<20> GS;
      GaussLegendre<20> GL;
      c = GS[i];
      d = GL[i];
    }
    rule2(c, i + 1, "copy", true);
    rule1(d, i + 1, "copy");
  }
  return vf::finish();
}
