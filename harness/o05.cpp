// O05: local operators are the Gram / stiffness matrices of the basis.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/Identity>
#include <Bembel/LaplaceBeltrami>
#include "asp.hpp"
#include "gauss.hpp"
using namespace Bembel;
using namespace asp;
using vf::cat;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
// user-defined local operators: a vector valued one without symmetry, and a complex one
class LocalVec;
class LocalCplx;
namespace Bembel {
template <>
struct LinearOperatorTraits<LocalVec> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 0 };
};
template <>
struct LinearOperatorTraits<LocalCplx> {
  typedef Eigen::VectorXcd EigenType;
  typedef std::complex<double> Scalar;
  enum { OperatorOrder = -2, Form = DifferentialForm::Continuous, NumberOfFMMComponents = 0 };
};
}  // namespace Bembel
static double weightFn(const Vector3d &x) { return 1 + .3 * x(0) - .2 * x(1) * x(2); }
class LocalVec : public LocalOperatorBase<LocalVec> {
 public:
  template <class T>
  void evaluateIntegrand_impl(const T &, const SurfacePoint &p1, const SurfacePoint &p2, MatrixXd *intval) const {
    // (u, A v) with a matrix A that is not symmetric, u, v the parametric components
    const int pp = (int)intval->rows() / 2, P = (int)std::lround(std::sqrt(pp)) - 1;
    double w = p1(2) * weightFn(p1.segment<3>(3));
    MatrixXd B(pp, 1);
    for (int j = 0; j <= P; ++j)
      for (int i = 0; i <= P; ++i) B(j * (P + 1) + i) = double(ref::bern(i, P, p1(0)) * ref::bern(j, P, p1(1)));
    const double A[2][2] = {{1, 2}, {-3, .5}};
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b) intval->block(a * pp, b * pp, pp, pp) += A[a][b] * w * B * B.transpose();
    (void)p2;
  }
};
class LocalCplx : public LocalOperatorBase<LocalCplx> {
 public:
  std::complex<double> f = {1, -2};
  template <class T>
  void evaluateIntegrand_impl(const T &ss, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::MatrixXcd *intval) const {
    ss.addScaledBasisInteraction(intval, std::complex<double>(p1(2) * p1.segment<3>(6).cross(p1.segment<3>(9)).norm()) * f, p1.segment<2>(0), p2.segment<2>(0));
  }
};
// ---- reference on superspace level --------------------------------------------
struct Pt {
  Vector3d x, d[2];
  double w, B, kappa;
};
template <typename Op>
struct Local;  // entry density for functions (a: bernstein values, g: their reference derivatives)
template <typename Op>
MatrixXd superMatrix(const PatchVector &pv, const Elements<Op> &el, int kind, int deg) {
  const int P = el.P, pp = el.pp, dim = kind == 2 ? 2 : 1;
  MatrixXd M = MatrixXd::Zero(dim * pp * el.nel, dim * pp * el.nel);
  auto Q = gs::rule(deg + 1);
  const double h = 1. / el.n;
  const double A[2][2] = {{1, 2}, {-3, .5}};
  for (size_t p = 0; p < pv.size(); ++p)
    for (int iy = 0; iy < el.n; ++iy)
      for (int ix = 0; ix < el.n; ++ix) {
        int e = el.id[el.at((int)p, iy, ix)];
        for (size_t b = 0; b < Q.size(); ++b)
          for (size_t a = 0; a < Q.size(); ++a) {
            double s = Q[a].x, t = Q[b].x, w = Q[a].w * Q[b].w, X = (ix + s) * h, Y = (iy + t) * h;
            auto J = pv[p].evalJacobian(X, Y);
            Vector3d dx = J.col(0), dy = J.col(1);
            double kap = dx.cross(dy).norm();
            VectorXd B(pp), Bx(pp), By(pp);
            for (int j = 0; j <= P; ++j)
              for (int i = 0; i <= P; ++i) {
                B(j * (P + 1) + i) = double(ref::bern(i, P, s) * ref::bern(j, P, t));
                Bx(j * (P + 1) + i) = double(ref::bernDer(i, P, s) * ref::bern(j, P, t));
                By(j * (P + 1) + i) = double(ref::bern(i, P, s) * ref::bernDer(j, P, t));
              }
            if (kind == 0) {  // (B/h)(B/h) kappa h^2
              M.block(e * pp, e * pp, pp, pp) += w * kap * B * B.transpose();
            } else if (kind == 1) {  // surface gradients: G^{-1} with the metric of the unit patch; (1/h)(1/h) grad
              double E = dx.dot(dx), F = dx.dot(dy), G = dy.dot(dy), D = E * G - F * F;
              M.block(e * pp, e * pp, pp, pp) += w * kap / (h * h) / D * (G * Bx * Bx.transpose() - F * (Bx * By.transpose() + By * Bx.transpose()) + E * By * By.transpose());
            } else {
              double f = weightFn(pv[p].eval(X, Y));
              for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j) M.block((i * el.nel + e) * pp, (j * el.nel + e) * pp, pp, pp) += A[i][j] * w * f * B * B.transpose();
            }
          }
      }
  return M;
}
template <typename Op>
using LMat = Eigen::SparseMatrix<typename LinearOperatorTraits<Op>::Scalar>;
template <typename Op>
void compare(const QuadMesh &m, const std::string &nm, int kind, int P, int M, int K, bool affine) {
  if (!vf::begin(cat(nm, "/", m.name, "/P", P, "M", M, "K", K))) return;
  vf::state(vf::hstr(vf::ctx().id));
  PatchVector pv = geo::patches(m);
  Geometry g(pv);
  AnsatzSpace<Op> a(g, M, P, K);
  Elements<Op> el(a.get_superspace());
  MatrixXd T = MatrixXd(a.get_transformation_matrix());
  DiscreteLocalOperator<Op> dop(a);
  dop.compute();
  MatrixXd H = MatrixXd(dop.get_discrete_operator());
  const int nd = a.get_number_of_dofs();
  vf::check(H.rows() == nd && H.cols() == nd, "shape");
  if (vf::failed()) return;
  vf::step((uint64_t)nd * nd);
  MatrixXd ref = T.transpose() * superMatrix<Op>(pv, el, kind, affine ? P + 3 : 24) * T;
  double sc = 1 + ref.cwiseAbs().maxCoeff(), tol = 1e-11 * sc;
  if (!affine) {  // as good as the documented rule (far-field degree)
    MatrixXd same = T.transpose() * superMatrix<Op>(pv, el, kind, P + 1) * T;
    tol += 2 * (same - ref).cwiseAbs().maxCoeff();
    vf::ctx().extra[cat(nm, " worst rule error")] = std::max(vf::ctx().extra[cat(nm, " worst rule error")], (same - ref).cwiseAbs().maxCoeff() / sc);
  }
  vf::near((H - ref).cwiseAbs().maxCoeff(), 0., tol, "entries");
  if (kind < 2) {
    vf::near((H - H.transpose()).cwiseAbs().maxCoeff(), 0., 1e-12 * sc, "symmetry");
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
    if (kind == 0) vf::check(es.eigenvalues()(0) > 0, "mass matrix is positive definite");
    if (kind == 1) vf::check(es.eigenvalues()(0) > -1e-10 * sc, "stiffness matrix is positive semi-definite");
    // the constant function: superspace coefficients h
    VectorXd one = VectorXd::Constant(T.rows(), 1. / (1 << M)), c = (T.transpose() * T).ldlt().solve(T.transpose() * one);
    if ((T * c - one).norm() < 1e-9) {
      if (kind == 1) vf::near((H * c).cwiseAbs().maxCoeff(), 0., 1e-9 * sc, "constants are in the kernel of the stiffness matrix");
      if (kind == 0) {
        double area = 0;
        auto Q = gs::rule(25);
        for (auto &p : pv)
          for (auto &s : Q)
            for (auto &t : Q) {
              auto J = p.evalJacobian(s.x, t.x);
              area += s.w * t.w * Vector3d(J.col(0)).cross(Vector3d(J.col(1))).norm();
            }
        vf::near(c.dot(H * c) / area, 1., affine ? 1e-9 : .05 / (1 << (2 * M)), "area");
      }
    } else {
      vf::fail("constants are not in the space");
    }
  }
  // once more, and with the format computed directly
  dop.compute();
  vf::near((MatrixXd(dop.get_discrete_operator()) - H).cwiseAbs().maxCoeff(), 0., 1e-13 * sc, "second assembly");
  LMat<Op> S(3, 5);
  DiscreteLocalOperatorComputer<Op>::compute(&S, dop.get_linear_operator(), a);
  vf::check(S.rows() == nd && S.cols() == nd, "shape of reused matrix");
  if (!vf::failed()) vf::near((MatrixXd(S) - H).cwiseAbs().maxCoeff(), 0., 1e-13 * sc, "assembly into a used matrix");
}
static void cplx(const QuadMesh &m, int P, int M) {
  if (!vf::begin(cat("complex/", m.name, "/P", P, "M", M))) return;
  vf::state(vf::hstr(vf::ctx().id));
  PatchVector pv = geo::patches(m);
  Geometry g(pv);
  AnsatzSpace<LocalCplx> a(g, M, P);
  Elements<LocalCplx> el(a.get_superspace());
  MatrixXd T = MatrixXd(a.get_transformation_matrix());
  MatrixXd ref = T.transpose() * superMatrix<LocalCplx>(pv, el, 0, P + 3) * T;
  DiscreteLocalOperator<LocalCplx> d(a);
  d.compute();
  vf::near((Eigen::MatrixXcd(d.get_discrete_operator()) - std::complex<double>(1, -2) * ref).cwiseAbs().maxCoeff(), 0., 1e-11, "complex entries");
  d.get_linear_operator().f = {0, 1};
  d.compute();
  vf::near((Eigen::MatrixXcd(d.get_discrete_operator()) - std::complex<double>(0, 1) * ref).cwiseAbs().maxCoeff(), 0., 1e-11, "complex entries after changing the operator");
}
// histories of (space, compute) on one discrete operator object
static void histories(int depth) {
  QuadMesh m0 = geo::curved(geo::strip(2)), m1 = geo::star(3);
  Geometry g0 = geo::geometry(m0), g1 = geo::geometry(m1);
  std::unique_ptr<AnsatzSpace<LaplaceBeltramiOperator>> sp[2] = {
      std::unique_ptr<AnsatzSpace<LaplaceBeltramiOperator>>(new AnsatzSpace<LaplaceBeltramiOperator>(g0, 1, 2)),
      std::unique_ptr<AnsatzSpace<LaplaceBeltramiOperator>>(new AnsatzSpace<LaplaceBeltramiOperator>(g1, 2, 1))};
  MatrixXd R[2];
  for (int i = 0; i < 2; ++i) {
    LMat<LaplaceBeltramiOperator> S;
    DiscreteLocalOperatorComputer<LaplaceBeltramiOperator>::compute(&S, LaplaceBeltramiOperator(), *sp[i]);
    R[i] = MatrixXd(S);
  }
  // ops: a/b init with space 0/1, c compute, d copy construct from itself, e init with a temporary copy that dies
  std::vector<std::string> all = {""};
  for (size_t q = 0; q < all.size(); ++q) {
    std::string h = all[q];
    if ((int)h.size() < depth)
      for (char o : std::string("abcde")) all.push_back(h + o);
    if (h.empty() || !vf::begin("hist/" + h)) continue;
    DiscreteLocalOperator<LaplaceBeltramiOperator> d;
    int cur = -1, res = -1;
    for (char o : h) {
      vf::step();
      if (o == 'a' || o == 'b') {
        d.init_DiscreteOperator(*sp[cur = o - 'a']);
      } else if (o == 'c' && cur >= 0) {
        d.compute();
        res = cur;
      } else if (o == 'd') {
        DiscreteLocalOperator<LaplaceBeltramiOperator> e(d);
        d = e;
      } else if (o == 'e') {
        AnsatzSpace<LaplaceBeltramiOperator> t(*sp[cur = 1]);
        d.init_DiscreteOperator(t);
      }
      vf::state(vf::hash(cur + 1, res + 1));
      if (res >= 0) {
        MatrixXd H = MatrixXd(d.get_discrete_operator());
        vf::check(H.rows() == R[res].rows() && (H - R[res]).cwiseAbs().maxCoeff() < 1e-12 * R[res].cwiseAbs().maxCoeff(), "result belongs to the space of the last compute");
      }
    }
  }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  QuadMesh para = square();
  para.name = "para";
  para.v = {{.1, .2, .3}, {1.1, .4, .2}, {1.4, 1.3, .4}, {.4, 1.1, .5}};
  QuadMesh two = cube();
  two.name = "corner";
  two.q = {{{0, 1, 5, 4}}, {{1, 3, 7, 5}}, {{4, 5, 7, 6}}};
  struct G {
    QuadMesh m;
    bool affine;
  };
  std::vector<G> gs = {{square(), true}, {para, true}, {rotated(two, {1, 2, 0}), true}, {cube(), true}, {rotated(cube(), {3, 1, 0, 2, 2, 1}), true},
                       {skewquad(), false}, {curved(weighted(strip(2))), false}, {rotated(strip(3), {1, 3, 2}), false}, {star(3), false}, {star(5), false}, {pillow(), false},
                       {torus(3, 3), false}, {curved(cube()), false}, {ring(2), false}};
  if (th) gs.push_back({curved(torus(3, 4)), false}), gs.push_back({twostar(3, 5), false}), gs.push_back({lshape(), false});
  for (auto &q : gs)
    for (int P = 0; P <= (th ? 6 : 4); ++P)
      for (int M = 0; M <= 3; ++M)
        for (int K = 1; K <= P + 1; ++K) {
          if ((M == 0 && K > 1) || (M > 1 && K > 2)) continue;
          long dofs = (long)q.m.npatch() * (1 << 2 * M) * (P + 1) * (P + 1);
          if (dofs > (th ? 1600 : 700)) continue;
          compare<MassMatrixScalarDisc>(q.m, "massD", 0, P, M, K, q.affine);
          if (P > 0 && K <= P) {
            compare<MassMatrixScalarCont>(q.m, "massC", 0, P, M, K, q.affine);
            compare<LaplaceBeltramiOperator>(q.m, "LB", 1, P, M, K, q.affine);
            compare<LocalVec>(q.m, "vector", 2, P, M, K, q.affine);
          }
        }
  for (int P = 1; P <= 4; ++P)
    for (int M = 0; M <= 2; ++M) {
      cplx(para, P, M);
      cplx(two, P, M);
    }
  histories(th ? 6 : 5);
  return vf::finish();
}
