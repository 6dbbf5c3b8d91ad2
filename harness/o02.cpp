// O02: the kernel used for direct integration and the kernel tensor used for compression
// describe the same bilinear form, and it is the documented one, at all pairs of points.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/DuffyTrick>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/Laplace>
#include <Bembel/LinearOperator>
#include <Bembel/Maxwell>
#include "geo.hpp"
#include "ref.hpp"
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
typedef std::complex<double> cplx;
typedef Eigen::Vector3d V3;
static const double PI = 3.14159265358979323846;
enum Kind { SL, DL, ADL, HS, MX, HOM };
template <typename Op> struct Info;
template <> struct Info<LaplaceSingleLayerOperator> { static constexpr Kind k = SL; static constexpr bool w = false; };
template <> struct Info<LaplaceDoubleLayerOperator> { static constexpr Kind k = DL; static constexpr bool w = false; };
template <> struct Info<LaplaceAdjointDoubleLayerOperator> { static constexpr Kind k = ADL; static constexpr bool w = false; };
template <> struct Info<LaplaceHypersingularOperator> { static constexpr Kind k = HS; static constexpr bool w = false; };
template <> struct Info<HelmholtzSingleLayerOperator> { static constexpr Kind k = SL; static constexpr bool w = true; };
template <> struct Info<HelmholtzDoubleLayerOperator> { static constexpr Kind k = DL; static constexpr bool w = true; };
template <> struct Info<HelmholtzAdjointDoubleLayerOperator> { static constexpr Kind k = ADL; static constexpr bool w = true; };
template <> struct Info<HelmholtzHypersingularOperator> { static constexpr Kind k = HS; static constexpr bool w = true; };
template <> struct Info<MaxwellSingleLayerOperator> { static constexpr Kind k = MX; static constexpr bool w = true; };
template <> struct Info<HomogenisedLaplaceSingleLayerOperator> { static constexpr Kind k = HOM; static constexpr bool w = false; };
template <typename Op>
static auto wave(Op *o, cplx k) -> decltype(o->set_wavenumber(k), void()) { o->set_wavenumber(k); }
static void wave(...) {}
template <typename Op>
static auto getWave(Op *o, cplx) -> decltype(o->get_wavenumber()) { return o->get_wavenumber(); }
static cplx getWave(void *, ...) { return 0.; }
static cplx cast(const cplx &z, cplx) { return z; }
static double cast(const cplx &z, double) { return z.real(); }
// a point with the local functions there: rows value, d/dx, d/dy (with respect to the patch), columns functions
struct Pt {
  SurfacePoint sp;
  V3 x, dx, dy, n;
  Eigen::MatrixXd B;
};
// reference: what one pair of points contributes, without weights
template <typename Op>
struct Ref {
  static constexpr Kind K = Info<Op>::k;
  static constexpr bool W = Info<Op>::w;
  const Op &op;
  cplx k;
  static Eigen::MatrixXcd outer(const Pt &p, int a, const Pt &q, int b) { return (p.B.row(a).transpose() * q.B.row(b)).cast<cplx>(); }
  template <typename O>
  static auto hom(const O &o, const V3 &x, const V3 &y) -> decltype(o.getPrecision(), cplx()) { return o.evaluateKernel(x, y); }
  static cplx hom(...) { return 0; }
  // matrix and the sum of absolute values of its terms
  Eigen::MatrixXcd operator()(const Pt &p, const Pt &q, Eigen::MatrixXd *mag) const {
    const V3 c = p.x - q.x;
    const double r = c.norm(), kx = p.n.norm(), ky = q.n.norm();
    const cplx ikr = cplx(0, 1) * (W ? k : cplx(0)) * r;
    const cplx g = std::exp(-ikr) / (4 * PI * r);
    const int n = p.B.cols();
    Eigen::MatrixXcd R;
    if (K == SL || K == DL || K == ADL || K == HOM) {
      cplx f = K == SL ? g * kx * ky : 0;
      if (K == DL) f = (1. + ikr) * g / (r * r) * c.dot(q.n) * kx;
      if (K == ADL) f = -(1. + ikr) * g / (r * r) * c.dot(p.n) * ky;
      if (K == HOM) f = hom(op, p.x, q.x) * kx * ky;
      double m = std::abs(f);
      if (K == DL) m = std::abs((1. + ikr) * g / r) * kx * ky;
      if (K == ADL) m = std::abs((1. + ikr) * g / r) * kx * ky;
      R = f * outer(p, 0, q, 0);
      *mag = m * outer(p, 0, q, 0).cwiseAbs();
    } else if (K == HS) {
      // surface curls: (d/dx phi) dy - (d/dy phi) dx, the area elements cancel
      Eigen::MatrixXd cp = p.dy * p.B.row(1) - p.dx * p.B.row(2), cq = q.dy * q.B.row(1) - q.dx * q.B.row(2);
      R = g * (cp.transpose() * cq).cast<cplx>();
      Eigen::VectorXd np = (p.dy.norm() * p.B.row(1).cwiseAbs() + p.dx.norm() * p.B.row(2).cwiseAbs()).transpose();
      Eigen::VectorXd nq = (q.dy.norm() * q.B.row(1).cwiseAbs() + q.dx.norm() * q.B.row(2).cwiseAbs()).transpose();
      *mag = std::abs(g) * np * nq.transpose();
      if (W) {
        R -= k * k * g * p.n.dot(q.n) * outer(p, 0, q, 0);
        *mag += std::abs(k * k * g) * kx * ky * outer(p, 0, q, 0).cwiseAbs();
      }
    } else {
      R.resize(2 * n, 2 * n);
      mag->resize(2 * n, 2 * n);
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) {
          const V3 &t = i ? p.dy : p.dx, &u = j ? q.dy : q.dx;
          R.block(i * n, j * n, n, n) = g * (t.dot(u) * outer(p, 0, q, 0) - outer(p, 1 + i, q, 1 + j) / (k * k));
          mag->block(i * n, j * n, n, n) = std::abs(g) * (t.norm() * u.norm() * outer(p, 0, q, 0).cwiseAbs() + outer(p, 1 + i, q, 1 + j).cwiseAbs() / std::norm(k));
        }
    }
    return R;
  }
  // the far field: moments on both sides of the kernel tensor (rows of the moments as compute2DMoment orders them)
  static Eigen::MatrixXd moments(const Pt &p) {
    const int n = p.B.cols();
    if (K == HS) return W ? p.B : Eigen::MatrixXd(p.B.bottomRows(2));
    if (K != MX) return p.B.topRows(1);
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(4, 2 * n);
    m.block(0, 0, 1, n) = p.B.row(0);
    m.block(1, 0, 1, n) = p.B.row(1);
    m.block(2, n, 1, n) = p.B.row(0);
    m.block(3, n, 1, n) = p.B.row(2);
    return m;
  }
};
static void compare(const Eigen::MatrixXcd &a, const Eigen::MatrixXcd &b, const Eigen::MatrixXd &mag, double tol, const std::string &what) {
  vf::check(a.rows() == b.rows() && a.cols() == b.cols(), what + " size");
  if (vf::failed()) return;
  const double big = mag.maxCoeff();
  double w = 0;
  int wi = 0, wj = 0;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      double e = std::abs(a(i, j) - b(i, j)) / (mag(i, j) + 1e-13 * big + 1e-300);
      if (!(e <= w)) w = e, wi = i, wj = j;
    }
  vf::step(a.size() - 1);
  vf::near(w, 0, tol, cat(what, " entry ", wi, ",", wj));
}
template <typename Op>
struct World {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  typedef Eigen::Matrix<S, -1, -1> M;
  static constexpr int vd = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>();
  PatchVector pv;
  Geometry geom;
  SuperSpace<Op> ss;
  int L, P;
  std::vector<std::vector<Pt>> el;
  World(const geo::QuadMesh &m, int L, int P, const std::vector<Eigen::Vector2d> &at) : pv(geo::patches(m)), geom(pv), L(L), P(P) {
    ss.init_SuperSpace(geom, L, P);
    const ElementTree &et = ss.get_mesh().get_element_tree();
    for (auto e = et.cpbegin(); e != et.cpend(); ++e) {
      std::vector<Pt> pts;
      for (size_t i = 0; i < at.size(); ++i) {
        Pt p;
        ss.map2surface(*e, at[i], .3 + .2 * i, &p.sp);
        p.x = p.sp.segment<3>(3);
        p.dx = p.sp.segment<3>(6);
        p.dy = p.sp.segment<3>(9);
        p.n = p.dx.cross(p.dy);
        p.B.resize(3, (P + 1) * (P + 1));
        const double s = at[i](0), t = at[i](1), H = std::ldexp(1., L);
        for (int b = 0; b <= P; ++b)
          for (int a = 0; a <= P; ++a) {
            p.B(0, b * (P + 1) + a) = ref::bern(a, P, s) * ref::bern(b, P, t);
            p.B(1, b * (P + 1) + a) = H * ref::bernDer(a, P, s) * ref::bern(b, P, t);
            p.B(2, b * (P + 1) + a) = H * ref::bern(a, P, s) * ref::bernDer(b, P, t);
          }
        pts.push_back(p);
      }
      el.push_back(pts);
    }
  }
  void pair(const Op &op, cplx k, const Pt &p, const Pt &q) const {
    Eigen::MatrixXd mag;
    Eigen::MatrixXcd R = Ref<Op>{op, k}(p, q, &mag);
    const double w = p.sp(2) * q.sp(2), tol = 2e-13;
    M iv(vd * p.B.cols(), vd * p.B.cols());
    iv.setZero();
    op.evaluateIntegrand(ss, p.sp, q.sp, &iv);
    compare(iv.template cast<cplx>(), w * R, w * mag, tol, "integrand");
    // contributions add up
    M two = iv;
    op.evaluateIntegrand(ss, p.sp, q.sp, &two);
    compare(two.template cast<cplx>(), 2. * iv.template cast<cplx>(), w * mag, 1e-14, "integrand added twice");
    M F = op.evaluateFMMInterpolation(p.sp, q.sp);
    Eigen::MatrixXd mp = Ref<Op>::moments(p), mq = Ref<Op>::moments(q);
    vf::check(F.rows() == mp.rows() && F.cols() == mq.rows(), "shape of the kernel tensor");
    if (vf::failed()) return;
    Eigen::MatrixXcd A = mp.transpose().template cast<cplx>() * F.template cast<cplx>() * mq.template cast<cplx>();
    compare(A, R, mag, tol, "kernel tensor");
    compare(w * A, iv.template cast<cplx>(), w * mag, tol, "integrand and kernel tensor");
  }
};
static std::vector<Eigen::Vector2d> grid(bool fine) {
  std::vector<Eigen::Vector2d> r;
  if (fine)
    for (double s : {0., .5, 1.})
      for (double t : {0., .3, 1.}) r.push_back({s, t});
  else
    r = {{.2, .7}, {.85, .1}, {0, 0}, {.5, 1.}};
  return r;
}
template <typename Op>
static void family(const std::string &nm) {
  const bool th = vf::thorough();
  const Kind K = Info<Op>::k;
  const int P0 = K == HS || K == MX ? 1 : 0;
  std::vector<cplx> ks = {0.};
  if (Info<Op>::w) ks = {1e-4, 1., 7.5, cplx(0, -2), cplx(0, .4), cplx(1, -1), cplx(-2, .3), 40.};
  const double sc = K == HOM ? .07 : 1.;
  std::vector<std::pair<geo::QuadMesh, int>> gs = {{geo::square(), 2}, {geo::skewquad(), 2}, {geo::curved(geo::square()), 2}, {geo::cube(), 1}, {geo::curved(geo::cube()), 1},
                                                   {geo::weighted(geo::strip(3)), 1}, {geo::apart(1e-3), 1}, {geo::apart(50.), 0}, {geo::torus(3, 3), 0}, {geo::curved(geo::star(5)), 0}};
  for (auto &g : gs)
    for (int L = 0; L <= g.second + th; ++L)
      for (int P = P0; P <= (L < 2 ? P0 + 3 : P0 + 1); ++P)
        for (cplx k : ks) {
          if (K == HOM && g.first.name.substr(0, 5) == "apart" && (g.first.v.back() - g.first.v[0]).norm() > 5) continue;
          if (!vf::begin(cat(nm, "/", g.first.name, "/L", L, "P", P, "/k", k.real(), ",", k.imag()))) continue;
          geo::QuadMesh m = K == HOM ? geo::shifted(g.first, V3(-.1, -.05, -.1), sc) : g.first;
          World<Op> w(m, L, P, grid(L == 0 && g.first.npatch() < 4));
          Op op;
          wave(&op, k);
          vf::check(getWave(&op, k) == k || !Info<Op>::w, "wavenumber");
          for (size_t a = 0; a < w.el.size(); ++a)
            for (size_t b = 0; b < w.el.size(); ++b)
              for (size_t i = 0; i < w.el[a].size(); ++i)
                for (size_t j = 0; j < w.el[b].size(); ++j) {
                  const Pt &p = w.el[a][i], &q = w.el[b][j];
                  if ((p.x - q.x).norm() < 1e-6 * sc) continue;
                  if (i + j == 0) vf::state(vf::hash(vf::hstr(vf::ctx().id), a, b));
                  w.pair(op, k, p, q);
                  if (vf::failed()) goto next;
                }
        next:;
        }
}
// operators as values: setting wavenumbers, copying and assigning three of them
template <typename Op>
static void histories(const std::string &nm, int len) {
  // same modulus, same real part, same imaginary part
  const cplx ks[3] = {1., cplx(0, -1), cplx(1, -1)};
  // operations: set wavenumber of operator i to ks[j]; operator i = operator j; copy construct a temporary in place of i from j
  const int nobj = 2, nops = nobj * 3 + nobj * (nobj - 1) * 2;
  const int P = Info<Op>::k == HS || Info<Op>::k == MX ? 1 : 0;
  World<Op> w(geo::curved(geo::strip(2)), 0, P + 1, {{.2, .7}, {.9, .4}});
  std::vector<int> h;
  std::function<void()> rec = [&] {
    if ((int)h.size() == len) {
      std::string id = cat(nm, "/history/");
      for (int o : h) id += char('a' + o);
      if (!vf::begin(id)) return;
      std::vector<std::unique_ptr<Op>> op;
      std::vector<cplx> k(nobj, ks[0]);
      for (int i = 0; i < nobj; ++i) {
        op.emplace_back(new Op);
        wave(op.back().get(), ks[0]);
      }
      for (int o : h) {
        if (o < nobj * 3) {
          wave(op[o / 3].get(), ks[o % 3]);
          k[o / 3] = ks[o % 3];
        } else {
          o -= nobj * 3;
          const int i = o & 1, j = 1 - i;
          if (o < 2)
            *op[i] = *op[j];
          else
            op[i].reset(new Op(*op[j]));
          k[i] = k[j];
        }
        for (int i = 0; i < nobj; ++i) {
          vf::state(vf::hash(vf::hstr(nm), i, std::hash<double>()(k[0].real() + 3 * k[0].imag()), std::hash<double>()(k[1].real() + 3 * k[1].imag())));
          vf::check(getWave(op[i].get(), k[i]) == k[i], "wavenumber");
          w.pair(*op[i], k[i], w.el[0][0], w.el[1][1]);
          w.pair(*op[i], k[i], w.el[1][0], w.el[0][0]);
        }
      }
      return;
    }
    for (int o = 0; o < nops; ++o) {
      h.push_back(o);
      rec();
      h.pop_back();
    }
  };
  rec();
}
template <typename Op>
static void all(const std::string &nm) {
  family<Op>(nm);
  if (Info<Op>::w) histories<Op>(nm, vf::thorough() ? 4 : 3);
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-7);
  all<LaplaceSingleLayerOperator>("laplaceSL");
  all<LaplaceDoubleLayerOperator>("laplaceDL");
  all<LaplaceAdjointDoubleLayerOperator>("laplaceADL");
  all<LaplaceHypersingularOperator>("laplaceHS");
  all<HelmholtzSingleLayerOperator>("helmholtzSL");
  all<HelmholtzDoubleLayerOperator>("helmholtzDL");
  all<HelmholtzAdjointDoubleLayerOperator>("helmholtzADL");
  all<HelmholtzHypersingularOperator>("helmholtzHS");
  all<MaxwellSingleLayerOperator>("maxwell");
  all<HomogenisedLaplaceSingleLayerOperator>("homogenised");
  return vf::finish();
}
