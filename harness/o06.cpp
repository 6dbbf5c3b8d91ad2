// O06: spherical harmonics, their derivatives and series; homogenised kernels.
#include <Bembel/HomogenisedLaplace>
#include "vf.hpp"
using namespace Bembel;
using Eigen::Vector3d;
using Eigen::VectorXd;
using vf::cat;
typedef long double L;
typedef std::complex<L> C;
static const L PI = acosl(-1.L);
static L fact(int n) {
  L r = 1;
  for (int i = 2; i <= n; ++i) r *= i;
  return r;
}
// coefficient k of the polynomial d^m/dz^m P_n homogenised: z^{n-m-2k} |x|^{2k}
static L legCoef(int n, int m, int k) {
  return (k % 2 ? -1 : 1) * powl(2, -n) * fact(2 * n - 2 * k) / (fact(k) * fact(n - k) * fact(n - 2 * k - m));
}
static L normC(int n, int m) { return sqrtl((2 * n + 1) / (4 * PI) * fact(n - m) / fact(n + m)); }
static C wpow(L x, L y, int m) {
  C w(1, 0);
  for (int i = 0; i < m; ++i) w *= C(x, y);
  return w;
}
struct Jet {
  C v, d[3];
};
// solid harmonic and its gradient at x, by explicit polynomials
static Jet solid(int n, int m, const Vector3d &p) {
  const int a = std::abs(m);
  L x = p(0), y = p(1), z = p(2), r2 = x * x + y * y + z * z, s = 0, sz = 0, sr = 0;
  for (int k = 0; 2 * k <= n - a; ++k) {
    L c = legCoef(n, a, k);
    int e = n - a - 2 * k;
    s += c * powl(z, e) * powl(r2, k);
    if (e > 0) sz += c * e * powl(z, e - 1) * powl(r2, k);
    if (k > 0) sr += c * powl(z, e) * k * powl(r2, k - 1);
  }
  C w = wpow(x, y, a), dw = a ? (L)a * wpow(x, y, a - 1) : C(0);
  L N = normC(n, a);
  Jet j;
  j.v = N * s * w;
  j.d[0] = N * (dw * s + w * (2 * x * sr));
  j.d[1] = N * (dw * C(0, 1) * s + w * (2 * y * sr));
  j.d[2] = N * (w * (sz + 2 * z * sr));
  if (m < 0) {
    j.v = std::conj(j.v);
    for (auto &e : j.d) e = std::conj(e);
  }
  return j;
}
static std::vector<Vector3d> dirs(int g) {
  std::vector<Vector3d> r;
  for (int i = -g; i <= g; ++i)
    for (int j = -g; j <= g; ++j)
      for (int k = -g; k <= g; ++k)
        if (i || j || k) r.push_back(Vector3d(i, j, k));
  r.push_back(Vector3d(1e-9, 0, 1));
  r.push_back(Vector3d(.3, -.2, 1e-8));
  r.push_back(Vector3d(1e-7, 2e-7, -1));
  return r;
}
static void harmonics(const Vector3d &d, double rad, int N) {
  if (!vf::begin(cat("full/", d(0), ",", d(1), ",", d(2), "/r", rad, "/N", N))) return;
  vf::state(vf::hstr(vf::ctx().id));
  Vector3d x = d.normalized() * rad, u = d.normalized();
  auto S = spherical_harmonics_full(x, N);
  vf::check(S.rows() == (N + 1) * (N + 1), "number of harmonics");
  Eigen::Matrix<double, 3, Eigen::Dynamic> D = Dsolid_harmonics_full(x, N, S);
  vf::check(D.cols() == (N + 1) * (N + 1), "number of derivatives");
  VectorXd Lg = legendreFull(N, u(2));
  vf::check(Lg.size() == (N + 1) * (N + 2) / 2, "number of Legendre values");
  if (vf::failed()) return;
  for (int n = 0; n <= N; ++n)
    for (int m = -n; m <= n; ++m) {
      vf::step();
      Jet s = solid(n, m, u), t = solid(n, m, x);
      int i = n * n + n + m;
      vf::near(S(i, 0), (double)s.v.real(), 1e-12, cat("real part of Y_", n, "^", m));
      vf::near(S(i, 1), (double)s.v.imag(), 1e-12, cat("imaginary part of Y_", n, "^", m));
      double sc = std::pow(rad, n - 1) * (n + 1) * (n + 1);
      for (int c = 0; c < 3; ++c) vf::near(D(c, i), (double)t.d[c].real(), 1e-11 * sc, cat("derivative ", c, " of solid harmonic ", n, ",", m));
      if (m >= 0) {
        L v = 0;
        for (int k = 0; 2 * k <= n - m; ++k) v += legCoef(n, m, k) * powl(u(2), n - m - 2 * k);
        L mx = fact(n + m) / (powl(2, m) * fact(m) * fact(n - m));
        vf::near(Lg(n * (n + 1) / 2 + m) / (double)mx, (double)(v / mx), 1e-11, cat("Legendre value ", n, ",", m));
        if (d == Vector3d(0, 0, 1)) vf::near(constant(m, n) / (double)normC(n, m), 1., 1e-12, cat("normalisation ", n, ",", m));
      }
    }
  // addition theorem
  for (int n = 0; n <= N; ++n) vf::near(S.block(n * n, 0, 2 * n + 1, 2).squaredNorm(), (2 * n + 1) / (4 * (double)PI), 1e-11 * (n + 1), cat("addition theorem, degree ", n));
}
static void series(const Vector3d &d, double rad, int deg) {
  if (!vf::begin(cat("series/", d(0), ",", d(1), ",", d(2), "/r", rad, "/deg", deg))) return;
  Vector3d u = d.normalized(), x = u * rad;
  Eigen::Matrix3d A = functionalMatrix(x), A1 = functionalMatrix(u);
  vf::near((A - (rad * rad * Eigen::Matrix3d::Identity() - x * x.transpose())).cwiseAbs().maxCoeff(), 0., 1e-13 * (1 + rad * rad), "functionalMatrix");
  const int nb = (deg + 1) * (deg + 1);
  // all unit coefficients (paired +-m) of degree <= deg, one of degree deg+1 (must not count), and a dense vector
  for (int n = 0; n <= deg + 1; ++n)
    for (int m = 0; m <= n; ++m) {
      bool dense = n == deg + 1 && m == 0;
      if (n == deg + 1 && m > 1) break;
      VectorXd cs = VectorXd::Zero(nb + 2 * deg + 3);
      if (dense) {
        for (int a = 0; a <= deg + 1; ++a)
          for (int b = 0; b <= a; ++b) cs(a * a + a + b) = cs(a * a + a - b) = std::sin(1 + 3 * a + b) / (1 + a);
      } else {
        cs(n * n + n + m) = cs(n * n + n - m) = 1;
      }
      vf::state(vf::hash(vf::hstr(vf::ctx().id), n, m));
      vf::step();
      L s = 0, t = 0, g = 0, gr[3] = {0, 0, 0}, gu[3] = {0, 0, 0};
      double sc = 1;
      for (int a = 0; a <= deg; ++a)
        for (int b = -a; b <= a; ++b) {
          double c = cs(a * a + a + b);
          if (c == 0) continue;
          Jet ju = solid(a, b, u), jx = solid(a, b, x);
          s += c * ju.v.real();
          t += c * jx.v.real();
          if (a) g += c * a * powl(rad, a - 1) * ju.v.real();
          for (int k = 0; k < 3; ++k) {
            gr[k] += c * jx.d[k].real();
            gu[k] += c * ju.d[k].real();
          }
          sc = std::max(sc, std::pow(rad, a) * (a + 1));
        }
      std::string w = dense ? std::string("dense coefficients") : cat("coefficient ", n, ",", m);
      vf::near(evaluate_sphericals(u, cs, deg), (double)s, 1e-12 * (deg + 1), "spherical series, " + w);
      vf::near(evaluate_solid_sphericals(x, cs, deg, false), (double)t, 1e-12 * sc * (deg + 1), "solid series, " + w);
      double dr = evaluate_solid_sphericals(x, cs, deg, true);
      vf::near(dr, (double)g, 1e-12 * sc * (deg + 1) * (1 + 1 / rad), "radial derivative, " + w);
      Vector3d full = u * dr + A * evaluate_dsolid_sphericals(x, cs, deg);
      // gradient of the sphere function: project the gradient of the solid one
      Vector3d tu = A1 * evaluate_dsphericals(u, cs, deg);
      L rn = gu[0] * u(0) + gu[1] * u(1) + gu[2] * u(2);
      for (int k = 0; k < 3; ++k) {
        vf::near(full(k), (double)gr[k], 1e-11 * sc * (deg + 1) * (1 + 1 / rad), cat("gradient component ", k, ", ", w));
        vf::near(tu(k), (double)(gu[k] - rn * u(k)), 1e-11 * (deg + 1) * (deg + 1), cat("surface gradient component ", k, ", ", w));
      }
      if (vf::failed()) return;
    }
}
// periodic Green's function with zero mean, by Ewald summation
static double ewald(const Vector3d &q, double a) {
  double r = -1 / (4 * a * a);
  for (int i = -5; i <= 5; ++i)
    for (int j = -5; j <= 5; ++j)
      for (int k = -5; k <= 5; ++k) {
        double d = (q - Vector3d(i, j, k)).norm(), kk = 4 * M_PI * M_PI * (i * i + j * j + k * k);
        r += std::erfc(a * d) / (4 * M_PI * d);
        if (i || j || k) r += std::exp(-kk / 4 / a / a) / kk * std::cos(2 * M_PI * (i * q(0) + j * q(1) + k * q(2)));
      }
  return r;
}
typedef HomogenisedLaplaceSingleLayerOperator Op;
typedef HomogenisedLaplaceSingleLayerPotential<Op> Pot;
static void kernel(double p) {
  if (!vf::begin(cat("kernel/", p))) return;
  Op::setPrecision(p);
  vf::check(Op::getPrecision() == p, "precision getter");
  Op op;
  Pot pot;
  const unsigned deg = getDegree(p);
  VectorXd cs = getCoefficients(p);
  vf::check(cs.size() == (deg + 1) * (deg + 1), "number of coefficients");
  if (vf::failed()) return;
  auto grad = [&](const Vector3d &q) -> Vector3d {
    return Dk_mod(q) + q / q.norm() * evaluate_solid_sphericals(q, cs, deg, true) + functionalMatrix(q) * evaluate_dsolid_sphericals(q, cs, deg);
  };
  // jumps across opposite faces
  double jump = 0;
  int cnt = 0;
  for (int f = 0; f < 3; ++f)
    for (int i = -8; i <= 8; ++i)
      for (int j = -8; j <= 8; ++j) {
        Vector3d v, e = Vector3d::Unit(f);
        v(f) = -.5, v((f + 1) % 3) = i / 16., v((f + 2) % 3) = j / 16.;
        vf::state(vf::hash(vf::hstr(vf::ctx().id), f, i + 20, j + 20));
        vf::step(2);
        jump += std::fabs(op.evaluateKernel(v, Vector3d::Zero()) - op.evaluateKernel(v + e, Vector3d::Zero()));
        jump += std::fabs(grad(v)(f) - grad(v + e)(f));
        ++cnt;
      }
  vf::near(jump / (2 * cnt), 0., p, "mean jump of value and normal derivative across opposite faces");
  vf::ctx().extra[cat("mean jump, precision ", p)] = jump / (2 * cnt);
  // the periodic Green's function itself, its dependence on the difference only, and gradient
  for (int i = -4; i <= 4; ++i)
    for (int j = -4; j <= 4; ++j)
      for (int k = -4; k <= 4; ++k) {
        if (!i && !j && !k) continue;
        Vector3d q(i / 8., j / 8., k / 8.), c(.1, -.25, .3);
        double e = ewald(q, 2.5), v = op.evaluateKernel(q, Vector3d::Zero());
        vf::state(vf::hash(vf::hstr(vf::ctx().id), i + 20, j + 20, k + 20, 1));
        if (i >= 0 && i <= j && j <= k) vf::near(ewald(q, 3.), e, 1e-13 * (1 + std::fabs(e)), "reference");
        vf::near(v, e, p, cat("kernel at ", q.transpose()));
        vf::near(pot.evaluateKernel(q, Vector3d::Zero()), v, 1e-13 * (1 + std::fabs(v)), "kernel of the potential");
        vf::near(op.evaluateKernel(q + c, c), v, 1e-12 * (1 + std::fabs(v)), "kernel depends on the difference");
        vf::near(op.evaluateKernel(c, q + c), v, 1e-11 * (1 + std::fabs(v)), "kernel is even");
        double h = 1e-4;
        Vector3d g = grad(q);
        if (q.norm() > .2)
          for (int d = 0; d < 3; ++d) {
            Vector3d u = Vector3d::Unit(d) * h;
            vf::near((op.evaluateKernel(q + u, Vector3d::Zero()) - op.evaluateKernel(q - u, Vector3d::Zero())) / (2 * h), g(d), 1e-5, cat("gradient of the kernel, ", d));
          }
        if (vf::failed()) return;
      }
}
// the pair operator integrand / potential integrand uses the kernel with exactly the surface measures
static void integrands() {
  for (int i = 0; i < 2; ++i) {
    if (!vf::begin(cat("integrand/", i))) continue;
    vf::state(i);
    Op::setPrecision(1e-5);
    Op op;
    SurfacePoint a, b;
    a << .2, .7, .3, .1, .2, .05, 1, .1, .2, -.1, 2, .3;
    b << .6, .1, 1.3, -.2, .05, .1, .4, .1, -.2, .3, 1, .8;
    if (i) std::swap(a, b);
    double ka = Vector3d(a.segment<3>(6)).cross(Vector3d(a.segment<3>(9))).norm(), kb = Vector3d(b.segment<3>(6)).cross(Vector3d(b.segment<3>(9))).norm();
    vf::near(op.evaluateFMMInterpolation_impl(a, b)(0), op.evaluateKernel(a.segment<3>(3), b.segment<3>(3)) * ka * kb, 1e-13, "far field kernel");
  }
}
// histories: the precision in force when an object is made is the one it uses
static const double PS[3] = {1e-3, 1e-5, 1e-7};
static const std::vector<Vector3d> &pts() {
  static std::vector<Vector3d> p = {{.4, .1, -.3}, {.5, .5, .5}, {.02, 0, 0}};
  return p;
}
static const std::vector<double> &table(int i) {
  static std::vector<double> t[3];
  if (t[i].empty()) {
    unsigned deg = getDegree(PS[i]);
    VectorXd cs = getCoefficients(PS[i]);
    for (auto &q : pts()) {
      L s = 0;
      for (int n = 0; n <= (int)deg; ++n)
        for (int m = -n; m <= n; ++m) s += cs(n * n + n + m) * solid(n, m, q).v.real();
      t[i].push_back(k_mod(q) + (double)s);
    }
  }
  return t[i];
}
static void history(const std::vector<int> &h) {
  std::string id = "hist/";
  for (int o : h) id += "123OPca"[o];
  if (!vf::begin(id)) return;
  Op::setPrecision(PS[0]);
  int cur = 0;
  std::vector<std::pair<std::unique_ptr<Op>, int>> ops;
  std::vector<std::pair<std::unique_ptr<Pot>, int>> pots;
  uint64_t st = vf::hash(7);
  for (int o : h) {
    vf::step();
    if (o < 3)
      Op::setPrecision(PS[cur = o]);
    else if (o == 3)
      ops.emplace_back(std::unique_ptr<Op>(new Op()), cur);
    else if (o == 4)
      pots.emplace_back(std::unique_ptr<Pot>(new Pot()), cur);
    else if (o == 5 && !ops.empty())
      ops.emplace_back(std::unique_ptr<Op>(new Op(*ops[0].first)), ops[0].second);
    else if (o == 6 && ops.size() > 1) {
      *ops[0].first = *ops.back().first;
      ops[0].second = ops.back().second;
    }
    st = vf::mix(st, cur);
    vf::near(Op::getPrecision(), PS[cur], 0., "precision getter");
    for (size_t k = 0; k < pts().size(); ++k) {
      for (auto &x : ops) vf::near(x.first->evaluateKernel(pts()[k], Vector3d::Zero()), table(x.second)[k], 1e-12 * std::fabs(table(x.second)[k]) + 1e-13, "kernel of an operator made with another precision");
      for (auto &x : pots) vf::near(x.first->evaluateKernel(pts()[k], Vector3d::Zero()), table(x.second)[k], 1e-12 * std::fabs(table(x.second)[k]) + 1e-13, "kernel of a potential made with another precision");
    }
    for (auto &x : ops) st = vf::mix(st, 10 + x.second);
    for (auto &x : pots) st = vf::mix(st, 20 + x.second);
  }
  vf::state(st);
}
static void histories(std::vector<int> *h, int depth) {
  if (!h->empty()) history(*h);
  if ((int)h->size() == depth) return;
  for (int o = 0; o < 7; ++o) {
    int nops = 0;
    for (int q : *h) nops += q == 3 || q == 5;
    if (o == 5 && !nops) continue;
    if (o == 6 && nops < 2) continue;
    if (!h->empty() && o < 3 && h->back() < 3) continue;  // overwritten at once
    h->push_back(o);
    histories(h, depth);
    h->pop_back();
  }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  for (int n = -7; n <= 7; ++n)
    for (double x : {-2., .5, 1., 3.})
      if (vf::begin(cat("pow/", x, "^", n))) vf::near(pow_int(x, n) / std::pow(x, n), 1., 1e-14, "pow_int");
  for (auto &d : dirs(th ? 3 : 2))
    for (double r : {.25, 1., 1.6}) {
      for (int N = 0; N <= (th ? 16 : 13); ++N) harmonics(d, r, N);
      for (int deg = 0; deg <= (th ? 13 : 8); ++deg) series(d, r, deg);
      if (!th) series(d, r, 12);
    }
  for (double p : {.5, 1e-2, 1.01e-4, 1e-4, 1e-5, 1.01e-6, 1e-6, 1e-7}) kernel(p);
  integrands();
  std::vector<int> h;
  histories(&h, th ? 5 : 4);
  return vf::finish();
}
