// A04: evaluation of discrete functions.  PART 1: values per element, per patch
// and by accumulation, divergence, superspace primitives, L2 error.  PART 2:
// histories of construction, copy, assignment, move, re-initialisation and
// destruction of geometries, spaces and evaluators.
#include <Eigen/Sparse>
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/Quadrature>
#include <Bembel/src/util/surfaceL2error.hpp>
#include "asp.hpp"
#include <memory>
using namespace Bembel;
using namespace asp;
using vf::cat;
template <typename Op>
using Sc = typename LinearOperatorTraits<Op>::Scalar;
template <typename Op>
using Vec = Eigen::Matrix<Sc<Op>, -1, 1>;
template <typename S>
struct Make;
template <>
struct Make<double> {
  static double get(double a, double) { return a; }
};
template <>
struct Make<std::complex<double>> {
  static std::complex<double> get(double a, double b) { return {a, b}; }
};
template <typename Op>
Vec<Op> coeffs(int n, int seed) {
  Vec<Op> v(n);
  for (int i = 0; i < n; ++i) v(i) = Make<Sc<Op>>::get(std::sin(1.7 * i + seed) + .3 * seed, std::cos(2.3 * i - seed));
  return v;
}
template <typename Op>
struct Dim {
  static constexpr int vec = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>();
  static constexpr int out = getFunctionSpaceOutputDimension<LinearOperatorTraits<Op>::Form>();
};
// reference value of a coefficient vector (superspace coefficients c) on element (p,iy,ix)
template <typename Op>
Eigen::Matrix<std::complex<double>, 3, 1> refValue(const Elements<Op> &el, const Vec<Op> &c, const PatchVector &g, int p, int ix, int iy, double a, double b) {
  std::complex<double> comp[2] = {0, 0};
  Eigen::Vector2d x((ix + a) / el.n, (iy + b) / el.n);
  for (int k = 0; k < Dim<Op>::vec; ++k) {
    auto s = el.stencil(p, x, k, ix, iy);
    for (int i = 0; i < el.pp; ++i) comp[k] += s.w[i] * c(s.row0 + i);
    comp[k] *= el.n;
  }
  Eigen::Matrix<std::complex<double>, 3, 1> r;
  r.setZero();
  if (Dim<Op>::vec == 1) {
    r(0) = comp[0];
  } else {
    auto J = g[p].evalJacobian(x(0), x(1));
    for (int d = 0; d < 3; ++d) r(d) = J(d, 0) * comp[0] + J(d, 1) * comp[1];
  }
  return r;
}
#if PART == 1
template <typename Op, bool V>
struct Div {
  static std::complex<double> get(const FunctionEvaluator<Op> &f, const ElementTreeNode &e, const SurfacePoint &p) { return f.evaluateDiv(e, p); }
};
template <typename Op>
struct Div<Op, false> {
  static std::complex<double> get(const FunctionEvaluator<Op> &, const ElementTreeNode &, const SurfacePoint &) { return 0; }
};
template <typename Op>
void values(const geo::QuadMesh &m, const std::string &nm, int P, int M, int K) {
  if (!vf::begin(cat("val/", nm, "/", m.name, "/P", P, "M", M, "K", K))) return;
  Geometry g = geo::geometry(m);
  const PatchVector &pv = g.get_geometry();
  AnsatzSpace<Op> a(g, M, P, K);
  const auto &ss = a.get_superspace();
  Elements<Op> el(ss);
  const int nd = a.get_number_of_dofs();
  vf::check(a.get_number_of_elements() == el.nel && a.get_number_of_patches() == m.npatch() && a.get_refinement_level() == M && a.get_polynomial_degree() == P &&
                a.get_knot_repetition() == K && a.get_transformation_matrix().rows() == Dim<Op>::vec * el.nel * el.pp && a.get_transformation_matrix().cols() == nd,
            "getters of the space");
  for (int seed = 0; seed < 2; ++seed) {
    vf::state(vf::hash(vf::hstr(vf::ctx().id), seed));
    Vec<Op> v = coeffs<Op>(nd, seed), c = a.get_transformation_matrix() * v;
    FunctionEvaluator<Op> f(a, v), f2(a);
    f2.set_function(coeffs<Op>(nd, 7));
    f2.set_function(v);
    double sc = c.template lpNorm<Eigen::Infinity>() * (1 << M) * 30 + 1;
    for (int p = 0; p < m.npatch(); ++p)
      for (int iy = 0; iy < el.n; ++iy)
        for (int ix = 0; ix < el.n; ++ix)
          for (double b : {0., .31, .5, 1.})
            for (double q : {0., .31, .77, 1.}) {
              const ElementTreeNode &e = *el.node[el.at(p, iy, ix)];
              SurfacePoint sp;
              ss.map2surface(e, Eigen::Vector2d(q, b), 1., &sp);
              auto r = refValue<Op>(el, c, pv, p, ix, iy, q, b);
              auto x1 = f.evaluate(e, sp), x2 = f2.evaluate(e, sp);
              for (int d = 0; d < Dim<Op>::out; ++d) {
                vf::near(std::complex<double>(x1(d)), r(d), 1e-12 * sc, cat("value on element ", p, ",", iy, ",", ix, " at ", q, ",", b));
                vf::near(std::complex<double>(x2(d)), r(d), 1e-12 * sc, "value after setting the function twice");
              }
              if (Dim<Op>::vec == 2) {
                std::complex<double> dv = 0;
                for (int j = 0; j <= P; ++j)
                  for (int i = 0; i <= P; ++i) {
                    int k = el.id[el.at(p, iy, ix)] * el.pp + j * (P + 1) + i;
                    dv += double(ref::bernDer(i, P, q) * ref::bern(j, P, b)) * c(k) + double(ref::bern(i, P, q) * ref::bernDer(j, P, b)) * c(el.nel * el.pp + k);
                  }
                dv *= double(el.n) * el.n;
                vf::near(Div<Op, Dim<Op>::vec == 2>::get(f, e, sp), dv, 1e-11 * sc * el.n * (P + 1), "divergence");
              }
              // on the patch; on element boundaries any adjacent element of the patch may be used
              Eigen::Vector2d x((ix + q) / el.n, (iy + b) / el.n);
              auto x3 = f.evaluateOnPatch(p, x);
              double best = 1e300;
              for (int dy = -1; dy <= 1; ++dy)
                for (int dx = -1; dx <= 1; ++dx) {
                  if ((dx < 0 && q > 0) || (dx > 0 && q < 1) || (dy < 0 && b > 0) || (dy > 0 && b < 1)) continue;
                  int jx = ix + dx, jy = iy + dy;
                  if (jx < 0 || jy < 0 || jx >= el.n || jy >= el.n) continue;
                  auto rr = refValue<Op>(el, c, pv, p, jx, jy, q - dx, b - dy);
                  double er = 0;
                  for (int d = 0; d < Dim<Op>::out; ++d) er = std::max(er, std::abs(std::complex<double>(x3(d)) - rr(d)));
                  best = std::min(best, er);
                }
              vf::near(best, 0., 1e-11 * sc, cat("evaluateOnPatch(", p, ", (", x(0), ",", x(1), ")) at element ", iy, ",", ix));
              if (vf::failed()) return;
            }
  }
}
// primitives of the superspace against Bernstein polynomials; accumulation onto what is there
template <typename Op>
void primitives(const std::string &nm, int P) {
  if (!vf::begin(cat("prim/", nm, "/P", P))) return;
  typedef Sc<Op> S;
  geo::QuadMesh m = geo::curved(geo::weighted(geo::skewquad()));
  Geometry g = geo::geometry(m);
  const Patch &pa = g.get_geometry()[0];
  SuperSpace<Op> ss(g, 1, P);
  const int n = P + 1, pp = n * n;
  vf::check(ss.get_polynomial_degree() == P && ss.get_polynomial_degree_plus_one_squared() == pp && ss.get_refinement_level() == 1, "getters");
  auto B = [&](Eigen::Vector2d s) {
    Vec<Op> r(pp);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) r(j * n + i) = double(ref::bern(i, P, s(0)) * ref::bern(j, P, s(1)));
    return r;
  };
  auto Bx = [&](Eigen::Vector2d s) {
    Vec<Op> r(pp);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) r(j * n + i) = double(ref::bernDer(i, P, s(0)) * ref::bern(j, P, s(1)));
    return r;
  };
  auto By = [&](Eigen::Vector2d s) {
    Vec<Op> r(pp);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) r(j * n + i) = double(ref::bern(i, P, s(0)) * ref::bernDer(j, P, s(1)));
    return r;
  };
  typedef Eigen::Matrix<S, -1, -1> Mat;
  auto eqv = [&](const Mat &a, const Mat &b, const std::string &w) {
    vf::check(a.rows() == b.rows() && a.cols() == b.cols(), w + ": size");
    if (!vf::failed()) vf::near((a - b).cwiseAbs().maxCoeff(), 0., 1e-12 * (1 + b.cwiseAbs().maxCoeff()), w);
  };
  const S w = Make<S>::get(-1.3, .7);
  const double pts[4] = {0, .37, .5, 1};
  for (double s0 : pts) {
    vf::state(vf::hash(vf::hstr(vf::ctx().id), (uint64_t)(s0 * 100)));
    Vec<Op> b1(n), d1(n);
    for (int i = 0; i < n; ++i) {
      b1(i) = double(ref::bern(i, P, s0));
      d1(i) = double(ref::bernDer(i, P, s0));
    }
    Vec<Op> acc = coeffs<Op>(n, 3), a0 = acc;
    eqv(ss.basis1D(s0), b1, "basis1D");
    eqv(ss.basis1DDx(s0), d1, "basis1DDx");
    ss.addScaledBasis1D(&acc, w, s0);
    eqv(acc, a0 + w * b1, "addScaledBasis1D");
    acc = a0;
    ss.addScaledBasis1DDx(&acc, w, s0);
    eqv(acc, a0 + w * d1, "addScaledBasis1DDx");
    for (double s1 : pts) {
      Eigen::Vector2d s(s0, s1);
      eqv(ss.basis(s), B(s), "basis");
      eqv(ss.basisDx(s), Bx(s), "basisDx");
      eqv(ss.basisDy(s), By(s), "basisDy");
      Vec<Op> a = coeffs<Op>(pp, 5), q = a;
      ss.addScaledBasis(&q, w, s);
      eqv(q, a + w * B(s), "addScaledBasis");
      q = a;
      ss.addScaledBasisDx(&q, w, s);
      eqv(q, a + w * Bx(s), "addScaledBasisDx");
      q = a;
      ss.addScaledBasisDy(&q, w, s);
      eqv(q, a + w * By(s), "addScaledBasisDy");
      for (double t0 : {.2, 1.})
        for (double t1 : {0., .61}) {
          Eigen::Vector2d t(t0, t1);
          Mat I0 = coeffs<Op>(pp, 1) * coeffs<Op>(pp, 2).transpose(), I = I0;
          Mat J0 = coeffs<Op>(2 * pp, 1) * coeffs<Op>(2 * pp, 2).transpose(), J = J0;
          Mat bb = B(s) * B(t).transpose();
          eqv(ss.basisInteraction(s, t), bb, "basisInteraction");
          ss.addScaledBasisInteraction(&I, w, s, t);
          eqv(I, I0 + w * bb, "addScaledBasisInteraction");
          SurfacePoint p1, p2;
          pa.updateSurfacePoint(&p1, Eigen::Vector2d(.3, .2), 1., s);
          pa.updateSurfacePoint(&p2, Eigen::Vector2d(.8, .65), 1., t);
          Eigen::Vector3d xd[2] = {p1.segment<3>(6), p1.segment<3>(9)}, yd[2] = {p2.segment<3>(6), p2.segment<3>(9)};
          Mat vb(2 * pp, 2 * pp), db(2 * pp, 2 * pp);
          Vec<Op> ds[2] = {Bx(s), By(s)}, dt[2] = {Bx(t), By(t)};
          for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) {
              vb.block(i * pp, j * pp, pp, pp) = xd[i].dot(yd[j]) * bb;
              db.block(i * pp, j * pp, pp, pp) = ds[i] * dt[j].transpose();
            }
          eqv(ss.vectorBasisInteraction(s, t, xd[0], xd[1], yd[0], yd[1]), vb, "vectorBasisInteraction");
          ss.addScaledVectorBasisInteraction(&J, w, s, t, xd[0], xd[1], yd[0], yd[1]);
          eqv(J, J0 + w * vb, "addScaledVectorBasisInteraction");
          J = J0;
          eqv(ss.vectorBasisDivergenceInteraction(s, t), db, "vectorBasisDivergenceInteraction");
          ss.addScaledVectorBasisDivergenceInteraction(&J, w, s, t);
          eqv(J, J0 + w * db, "addScaledVectorBasisDivergenceInteraction");
          // surface curl: n x grad_Gamma; gradient interaction at one point: grad . grad
          auto curl = [&](const Eigen::Vector3d *d, const Vec<Op> *D) {
            double k = d[0].cross(d[1]).norm();
            Mat r(3, pp);
            for (int i = 0; i < pp; ++i) r.col(i) = (d[1] * std::real(D[0](i)) - d[0] * std::real(D[1](i))).template cast<S>() / k;
            return r;
          };
          Mat cc = curl(xd, ds).transpose() * curl(yd, dt);
          I = I0;
          ss.addScaledSurfaceCurlInteraction(&I, w, p1, p2);
          eqv(I, I0 + w * cc, "addScaledSurfaceCurlInteraction");
          // gradient: pseudo inverse of the tangents
          if (t0 == .2) {
            Eigen::Matrix<double, 3, 2> Jx;
            Jx << xd[0], xd[1];
            Eigen::Matrix<double, 3, 2> G = Jx * (Jx.transpose() * Jx).inverse();
            SurfacePoint p3 = p1;
            p3.segment<2>(0) = t;
            Mat g1(3, pp), g2(3, pp);
            for (int i = 0; i < pp; ++i) {
              g1.col(i) = (G * Eigen::Vector2d(std::real(ds[0](i)), std::real(ds[1](i)))).template cast<S>();
              g2.col(i) = (G * Eigen::Vector2d(std::real(dt[0](i)), std::real(dt[1](i)))).template cast<S>();
            }
            I = I0;
            ss.addScaledSurfaceGradientInteraction(&I, w, p1, p3);
            Mat e = g1.transpose() * g2;
            eqv(I, I0 + w * e, "addScaledSurfaceGradientInteraction");
          }
          if (vf::failed()) return;
        }
    }
  }
}
template <typename Op>
void l2error(const geo::QuadMesh &m, const std::string &nm, int P, int M, int deg) {
  if (!vf::begin(cat("l2/", nm, "/", m.name, "/P", P, "M", M, "d", deg))) return;
  vf::state(vf::hstr(vf::ctx().id));
  Geometry g = geo::geometry(m);
  const PatchVector &pv = g.get_geometry();
  AnsatzSpace<Op> a(g, M, P, 1);
  Elements<Op> el(a.get_superspace());
  Vec<Op> v = coeffs<Op>(a.get_number_of_dofs(), 1), c = a.get_transformation_matrix() * v;
  std::function<double(Eigen::Vector3d)> fun = [](Eigen::Vector3d x) { return x(0) - 2 * x(1) * x(2) + .5; };
  GaussLegendre<20> GL;
  auto Q = GL[deg];
  double s = 0;
  for (int p = 0; p < m.npatch(); ++p)
    for (int iy = 0; iy < el.n; ++iy)
      for (int ix = 0; ix < el.n; ++ix)
        for (int i = 0; i < Q.w_.size(); ++i)
          for (int j = 0; j < Q.w_.size(); ++j) {
            double q = Q.xi_(0, i), b = Q.xi_(0, j), x = (ix + q) / el.n, y = (iy + b) / el.n;
            auto J = pv[p].evalJacobian(x, y);
            double k = Eigen::Vector3d(J.col(0)).cross(Eigen::Vector3d(J.col(1))).norm();
            double d = fun(pv[p].eval(x, y)) - refValue<Op>(el, c, pv, p, ix, iy, q, b)(0).real();
            s += Q.w_(i) * Q.w_(j) * k * d * d / el.n / el.n;
          }
  vf::near(surfaceL2error(a, v, fun, deg), std::sqrt(s), 1e-11 * (1 + std::sqrt(s)), "surfaceL2error");
  if (deg == 4) vf::near(surfaceL2error(a, v, fun), std::sqrt(s), 1e-11 * (1 + std::sqrt(s)), "surfaceL2error with default degree");
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  std::vector<QuadMesh> ms = {skewquad(), curved(weighted(strip(2))), rotated(strip(3), {1, 3, 2}), star(5), curved(cube()), weighted(torus(3, 3))};
  for (auto &m : ms)
    for (int P = 0; P <= (th ? 6 : 4); ++P)
      for (int M = 0; M <= (m.npatch() < 4 ? 3 : 1) + th; ++M)
        for (int K = 1; K <= P + 1; ++K) {
          if (M == 0 && K > 1) continue;
          if (M > 2 && K > 2) continue;
          values<OpD>(m, "D", P, M, K);
          if (P > 0 && K <= P) {
            values<OpC>(m, "C", P, M, K);
            values<OpV>(m, "V", P, M, K);
            values<OpCz>(m, "Cz", P, M, K);
            values<OpVz>(m, "Vz", P, M, K);
          }
        }
  for (int P = 0; P <= 9; ++P) {
    primitives<OpC>("C", P);
    primitives<OpVz>("Vz", P);
  }
  for (auto &m : {ms[0], ms[1], ms[3]})
    for (int P = 0; P <= 3; ++P)
      for (int M = 0; M <= 2; ++M)
        for (int deg : {0, 1, 4, 9}) {
          l2error<OpD>(m, "D", P, M, deg);
          if (P > 0) l2error<OpC>(m, "C", P, M, deg);
        }
  return vf::finish();
}
#else
// ---- histories --------------------------------------------------------------
template <typename Op>
struct World {
  static const int NC = 2;  // configurations
  struct Cfg {
    geo::QuadMesh m;
    int M, P, K;
  };
  static const std::vector<Cfg> &cfgs() {
    static std::vector<Cfg> c = {{geo::rotated(geo::strip(2), {1, 3}), 1, 1, 1}, {geo::curved(geo::skewquad()), 2, 2, 2}};
    return c;
  }
  struct Table {  // values of function seed on configuration c at sample points
    std::unique_ptr<AnsatzSpace<Op>> a;
    std::unique_ptr<Elements<Op>> el;
    std::vector<std::vector<Eigen::Matrix<std::complex<double>, 3, 1>>> val;
  };
  struct Pt {
    int p, ix, iy;
    double a, b;
  };
  static std::vector<Pt> pts(int c) {
    std::vector<Pt> r;
    int n = 1 << cfgs()[c].M;
    for (int p = 0; p < cfgs()[c].m.npatch(); ++p)
      for (int iy = 0; iy < n; ++iy)
        for (int ix = 0; ix < n; ix += n > 2 ? 3 : 1) r.push_back({p, ix, iy, .3, .6});
    return r;
  }
  static Table &table(int c) {
    static Table t[NC];
    if (!t[c].a) {
      const Cfg &k = cfgs()[c];
      Geometry g = geo::geometry(k.m);
      t[c].a.reset(new AnsatzSpace<Op>(g, k.M, k.P, k.K));
      t[c].el.reset(new Elements<Op>(t[c].a->get_superspace()));
      for (int s = 0; s < 3; ++s) {
        Vec<Op> v = coeffs<Op>(t[c].a->get_number_of_dofs(), s), cc = t[c].a->get_transformation_matrix() * v;
        t[c].val.push_back({});
        for (auto &p : pts(c)) t[c].val.back().push_back(refValue<Op>(*t[c].el, cc, g.get_geometry(), p.p, p.ix, p.iy, p.a, p.b));
      }
    }
    return t[c];
  }
  // slots; model: -2 absent, -1 unspecified (default or moved from), >= 0 configuration
  std::unique_ptr<Geometry> g[2];
  std::unique_ptr<AnsatzSpace<Op>> a[2];
  std::unique_ptr<FunctionEvaluator<Op>> f[2];
  int mg[2], ma[2], mf[2], ms[2];
  World() {
    for (int i = 0; i < 2; ++i) {
      const Cfg &k = cfgs()[i];
      g[i].reset(new Geometry(geo::patches(k.m)));
      a[i].reset(new AnsatzSpace<Op>(*g[i], k.M, k.P, k.K));
      f[i].reset(new FunctionEvaluator<Op>(*a[i], coeffs<Op>(a[i]->get_number_of_dofs(), i)));
      mg[i] = ma[i] = mf[i] = i;
      ms[i] = i;
    }
  }
  static const int OPS = 38;
  // executes op; false when it is not applicable
  bool exec(int op) {
    const int i = op & 1, j = 1 - i;
    const Cfg *k;
    switch (op >> 1) {
      case 0:  // copy assign evaluator
        if (mf[i] == -2 || mf[j] == -2) return false;
        *f[i] = *f[j];
        mf[i] = mf[j], ms[i] = ms[j];
        return true;
      case 1:  // copy construct
        if (mf[j] == -2) return false;
        f[i].reset(new FunctionEvaluator<Op>(*f[j]));
        mf[i] = mf[j], ms[i] = ms[j];
        return true;
      case 2:  // move construct
        if (mf[j] == -2) return false;
        f[i].reset(new FunctionEvaluator<Op>(std::move(*f[j])));
        mf[i] = mf[j], ms[i] = ms[j];
        mf[j] = -1;
        return true;
      case 3:  // move assign
        if (mf[i] == -2 || mf[j] == -2) return false;
        *f[i] = std::move(*f[j]);
        mf[i] = mf[j], ms[i] = ms[j];
        mf[j] = -1;
        return true;
      case 4:  // new function
      case 5:
        if (mf[i] < 0) return false;
        ms[i] = (ms[i] + 1 + ((op >> 1) - 4)) % 3;
        f[i]->set_function(coeffs<Op>(table(mf[i]).a->get_number_of_dofs(), ms[i]));
        return true;
      case 6:  // re-initialise from a space, keeping nothing
        if (mf[i] == -2 || ma[i] < 0) return false;
        f[i]->init_FunctionEvaluator(*a[i]);
        mf[i] = ma[i], ms[i] = 2;
        f[i]->set_function(coeffs<Op>(a[i]->get_number_of_dofs(), 2));
        return true;
      case 7:  // re-initialise from the other space with a function
        if (mf[i] == -2 || ma[j] < 0) return false;
        mf[i] = ma[j], ms[i] = 0;
        f[i]->init_FunctionEvaluator(*a[j], coeffs<Op>(a[j]->get_number_of_dofs(), 0));
        return true;
      case 8:  // destroy evaluator
        if (mf[i] == -2) return false;
        f[i].reset();
        mf[i] = -2;
        return true;
      case 9:  // default construct
        if (mf[i] != -2) return false;
        f[i].reset(new FunctionEvaluator<Op>());
        mf[i] = -1;
        return true;
      case 10:  // self assignment
        if (mf[i] == -2 || ma[i] == -2) return false;
        *f[i] = *&*f[i];
        *a[i] = *&*a[i];
        return true;
      case 11:  // copy assign space
        if (ma[i] == -2 || ma[j] == -2) return false;
        *a[i] = *a[j];
        ma[i] = ma[j];
        return true;
      case 12:  // copy construct space from the other, destroying the old one
        if (ma[j] == -2) return false;
        a[i].reset(new AnsatzSpace<Op>(*a[j]));
        ma[i] = ma[j];
        return true;
      case 13:  // move construct space
        if (ma[j] == -2) return false;
        a[i].reset(new AnsatzSpace<Op>(std::move(*a[j])));
        ma[i] = ma[j];
        ma[j] = -1;
        return true;
      case 14:  // re-initialise the space with the geometry in slot i
        if (ma[i] == -2 || mg[i] < 0) return false;
        k = &cfgs()[mg[i]];
        a[i]->init_AnsatzSpace(*g[i], k->M, k->P, k->K);
        ma[i] = mg[i];
        return true;
      case 15:  // destroy space
        if (ma[i] == -2) return false;
        a[i].reset();
        ma[i] = -2;
        return true;
      case 16:  // geometry copy assign
        if (mg[i] == -2 || mg[j] == -2) return false;
        *g[i] = *g[j];
        mg[i] = mg[j];
        return true;
      case 17:  // geometry move construct, then the source becomes a default object
        if (mg[j] == -2) return false;
        g[i].reset(new Geometry(std::move(*g[j])));
        mg[i] = mg[j];
        g[j].reset(new Geometry());
        mg[j] = -1;
        return true;
      case 18:  // copy geometry, change the copy's origin, then drop the origin
        if (mg[i] < 0) return false;
        {
          std::unique_ptr<Geometry> c(new Geometry(*g[i]));
          PatchVector other = geo::patches(cfgs()[1 - mg[i]].m);
          *g[i] = Geometry(other);  // old origin replaced
          mg[j] = mg[i];
          mg[i] = 1 - mg[i];
          g[j] = std::move(c);
        }
        return true;
    }
    return false;
  }
  void observe() {
    for (int i = 0; i < 2; ++i) {
      if (mg[i] >= 0) {
        PatchVector e = geo::patches(cfgs()[mg[i]].m);
        const PatchVector &h = g[i]->get_geometry();
        vf::check(h.size() == e.size() && g[i]->get_number_of_patches() == (int)e.size(), cat("geometry ", i, ": number of patches"));
        if (h.size() == e.size())
          for (size_t p = 0; p < e.size(); ++p) vf::near((h[p].eval(.3, .8) - e[p].eval(.3, .8)).norm(), 0., 1e-13, cat("geometry ", i));
      }
      if (ma[i] >= 0) {
        Table &t = table(ma[i]);
        const Cfg &k = cfgs()[ma[i]];
        vf::check(a[i]->get_number_of_dofs() == t.a->get_number_of_dofs() && a[i]->get_polynomial_degree() == k.P && a[i]->get_refinement_level() == k.M &&
                      a[i]->get_knot_repetition() == k.K && a[i]->get_number_of_elements() == t.a->get_number_of_elements() && a[i]->get_number_of_patches() == k.m.npatch(),
                  cat("space ", i, ": sizes"));
        if (vf::failed()) return;
        Eigen::SparseMatrix<double> d = a[i]->get_transformation_matrix() - t.a->get_transformation_matrix();
        vf::near(d.norm(), 0., 1e-14, cat("space ", i, ": transformation"));
        // a working superspace and mesh
        FunctionEvaluator<Op> fe(*a[i], coeffs<Op>(a[i]->get_number_of_dofs(), 1));
        value(fe, ma[i], 1, cat("space ", i));
      }
      if (mf[i] >= 0) value(*f[i], mf[i], ms[i], cat("evaluator ", i));
    }
  }
  void value(const FunctionEvaluator<Op> &fe, int c, int s, const std::string &w) {
    Table &t = table(c);
    auto P = pts(c);
    for (size_t q = 0; q < P.size(); ++q) {
      auto &p = P[q];
      auto x = fe.evaluateOnPatch(p.p, Eigen::Vector2d((p.ix + p.a) / t.el->n, (p.iy + p.b) / t.el->n));
      const ElementTreeNode &e = *t.el->node[t.el->at(p.p, p.iy, p.ix)];
      SurfacePoint sp;
      t.a->get_superspace().map2surface(e, Eigen::Vector2d(p.a, p.b), 1., &sp);
      auto y = fe.evaluate(e, sp);
      for (int d = 0; d < Dim<Op>::out; ++d) {
        vf::near(std::complex<double>(x(d)), t.val[s][q](d), 1e-10, w + ": evaluateOnPatch");
        vf::near(std::complex<double>(y(d)), t.val[s][q](d), 1e-10, w + ": evaluate");
      }
      if (vf::failed()) return;
    }
  }
  static void run(const std::string &nm, int depth) {
    std::vector<int> seq;
    rec(nm, depth, &seq);
  }
  static void rec(const std::string &nm, int depth, std::vector<int> *seq) {
    std::string id = nm + "/";
    for (int o : *seq) id += char(o < 26 ? 'a' + o : 'A' + o - 26);
    if (vf::begin(id)) {
      World w;
      bool ok = true;
      for (int o : *seq) ok = ok && w.exec(o);
      if (ok) {
        vf::step(seq->size());
        vf::state(vf::hash(vf::hstr(nm), w.mg[0] + 3, w.mg[1] + 3, w.ma[0] + 3, w.ma[1] + 3, w.mf[0] + 3, w.mf[1] + 3, w.ms[0], w.ms[1]));
        w.observe();
      }
    }
    if ((int)seq->size() == depth) return;
    for (int o = 0; o < OPS; ++o) {
      // prune sequences that are not applicable, on the model
      seq->push_back(o);
      if (applicable(*seq)) rec(nm, depth, seq);
      seq->pop_back();
    }
  }
  static bool applicable(const std::vector<int> &seq) {
    int mg[2] = {0, 1}, ma[2] = {0, 1}, mf[2] = {0, 1};
    for (int op : seq) {
      const int i = op & 1, j = 1 - i;
      switch (op >> 1) {
        case 0: case 3: if (mf[i] == -2 || mf[j] == -2) return false; mf[i] = mf[j]; if (op >> 1 == 3) mf[j] = -1; break;
        case 1: case 2: if (mf[j] == -2) return false; mf[i] = mf[j]; if (op >> 1 == 2) mf[j] = -1; break;
        case 4: case 5: if (mf[i] < 0) return false; break;
        case 6: if (mf[i] == -2 || ma[i] < 0) return false; mf[i] = ma[i]; break;
        case 7: if (mf[i] == -2 || ma[j] < 0) return false; mf[i] = ma[j]; break;
        case 8: if (mf[i] == -2) return false; mf[i] = -2; break;
        case 9: if (mf[i] != -2) return false; mf[i] = -1; break;
        case 10: if (mf[i] == -2 || ma[i] == -2) return false; break;
        case 11: if (ma[i] == -2 || ma[j] == -2) return false; ma[i] = ma[j]; break;
        case 12: if (ma[j] == -2) return false; ma[i] = ma[j]; break;
        case 13: if (ma[j] == -2) return false; ma[i] = ma[j]; ma[j] = -1; break;
        case 14: if (ma[i] == -2 || mg[i] < 0) return false; ma[i] = mg[i]; break;
        case 15: if (ma[i] == -2) return false; ma[i] = -2; break;
        case 16: if (mg[i] == -2 || mg[j] == -2) return false; mg[i] = mg[j]; break;
        case 17: if (mg[j] == -2) return false; mg[i] = mg[j]; mg[j] = -1; break;
        case 18: if (mg[i] < 0) return false; mg[j] = mg[i]; mg[i] = 1 - mg[i]; break;
      }
    }
    return true;
  }
};
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  World<OpC>::run("C", th ? 4 : 3);
  World<OpVz>::run("Vz", th ? 3 : 2);
  World<OpD>::run("D", th ? 3 : 2);
  return vf::finish();
}
#endif
