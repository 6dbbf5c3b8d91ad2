// A05: L2 errors, L2 projections and Laplace-Beltrami solutions on surfaces.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/Helmholtz>
#include <Bembel/Identity>
#include <Bembel/Laplace>
#include <Bembel/LaplaceBeltrami>
#include <Bembel/LinearForm>
#include <Bembel/src/util/surfaceL2error.hpp>
#include "asp.hpp"
#include "gauss.hpp"
#include "sphere.hpp"
using namespace Bembel;
using namespace asp;
using vf::cat;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
typedef std::function<double(const Vector3d &)> Fun;
struct F {
  std::string name;
  int deg;  // -1: no polynomial
  Fun f;
};
static std::vector<F> functions() {
  return {{"0", 0, [](const Vector3d &) { return 0.; }},
          {"1", 0, [](const Vector3d &) { return 1.; }},
          {"x-2z", 1, [](const Vector3d &x) { return x(0) - 2 * x(2); }},
          {"y", 1, [](const Vector3d &x) { return x(1); }},
          {"xy-zz+3", 2, [](const Vector3d &x) { return x(0) * x(1) - x(2) * x(2) + 3; }},
          {"cubic", 3, [](const Vector3d &x) { return x(0) * x(0) * x(1) + x(2) * x(1) * x(1) - x(0); }},
          {"cos", -1, [](const Vector3d &x) { return std::cos(x(0) + 2 * x(1)) + std::sin(x(2)); }}};
}
// squared error with nq points per direction, from the superspace coefficients
template <typename Op>
static double refError2(const PatchVector &pv, const Elements<Op> &el, const VectorXd &c, const Fun &f, int nq) {
  const int P = el.P;
  const double h = 1. / el.n;
  auto Q = gs::rule(nq);
  double r = 0;
  std::vector<VectorXd> B(Q.size(), VectorXd(P + 1));
  for (size_t a = 0; a < Q.size(); ++a)
    for (int i = 0; i <= P; ++i) B[a](i) = double(ref::bern(i, P, Q[a].x));
  for (size_t p = 0; p < pv.size(); ++p)
    for (int iy = 0; iy < el.n; ++iy)
      for (int ix = 0; ix < el.n; ++ix) {
        const int e = el.id[el.at((int)p, iy, ix)];
        Eigen::Map<const MatrixXd> C(c.data() + e * el.pp, P + 1, P + 1);
        for (size_t b = 0; b < Q.size(); ++b)
          for (size_t a = 0; a < Q.size(); ++a) {
            const double X = (ix + Q[a].x) * h, Y = (iy + Q[b].x) * h;
            auto J = pv[p].evalJacobian(X, Y);
            const double kap = Vector3d(J.col(0)).cross(Vector3d(J.col(1))).norm();
            const double v = f(pv[p].eval(X, Y)) - B[a].dot(C * B[b]) / h;
            r += Q[a].w * Q[b].w * kap * h * h * v * v;
          }
      }
  return r;
}
template <typename Op>
static void errors(const QuadMesh &m, const std::string &nm, int P, int M, int K, bool affine) {
  if (!vf::begin(cat("error/", nm, "/", m.name, "/P", P, "M", M, "K", K))) return;
  PatchVector pv = geo::patches(m);
  Geometry g(pv);
  AnsatzSpace<Op> a(g, M, P, K);
  Elements<Op> el(a.get_superspace());
  MatrixXd T = MatrixXd(a.get_transformation_matrix());
  const int nd = a.get_number_of_dofs();
  VectorXd dense(nd), last = VectorXd::Unit(nd, nd - 1);
  for (int i = 0; i < nd; ++i) dense(i) = std::sin(1.3 + 2.1 * i);
  VectorXd V[3] = {VectorXd::Zero(nd), last, dense};
  for (int k = 0; k < 3; ++k)
    for (auto &f : functions()) {
      vf::state(vf::hash(vf::hstr(vf::ctx().id), k, vf::hstr(f.name)));
      const VectorXd c = T * V[k];
      const double exact = refError2(pv, el, c, f.f, affine ? 12 : 20);
      vf::near(surfaceL2error(a, V[k], f.f), surfaceL2error(a, V[k], f.f, 4), 0., "default degree");
      for (int deg : vf::thorough() ? std::vector<int>{0, 1, 2, P, P + 1, P + 2, 4, 10, 19} : std::vector<int>{0, P, P + 2, 11}) {
        vf::step();
        const double e = surfaceL2error(a, V[k], f.f, deg), q = 2 * deg + 1;
        // the product rule with deg + 1 points integrates the square exactly on affine patches when its degree is small enough
        const bool ex = affine && f.deg >= 0 && q >= 2 * std::max(P, f.deg);
        const double tol = 1e-11 * (1 + exact) + (ex ? 0. : 2 * std::abs(refError2(pv, el, c, f.f, deg + 1) - exact));
        vf::check(e >= 0, "error is not negative");
        vf::near(e * e, exact, tol, cat("error of vector ", k, " to ", f.name, ", degree ", deg));
      }
      // expressions as coefficients
      if (k == 2) {
        vf::near(surfaceL2error(a, 2 * V[k] - last, f.f, 10), surfaceL2error(a, VectorXd(2 * V[k] - last), f.f, 10), 1e-12, "expression");
      }
    }
}
template <typename Op>
static void projection(const QuadMesh &m, const std::string &nm, int P, int M, int K) {
  if (!vf::begin(cat("projection/", nm, "/", m.name, "/P", P, "M", M, "K", K))) return;
  PatchVector pv = geo::patches(m);
  Geometry g(pv);
  AnsatzSpace<Op> a(g, M, P, K);
  DiscreteLocalOperator<Op> mass(a);
  mass.compute();
  MatrixXd A = MatrixXd(mass.get_discrete_operator());
  Eigen::LLT<MatrixXd> llt(A);
  vf::check(llt.info() == Eigen::Success, "mass matrix is positive definite");
  if (vf::failed()) return;
  DiscreteLinearForm<DirichletTrace<double>, Op> lf(a);
  const int nd = a.get_number_of_dofs();
  VectorXd d(nd);
  for (int i = 0; i < nd; ++i) d(i) = std::cos(.7 * i * i + .3);
  for (auto &f : functions()) {
    if (f.deg < 0) continue;
    vf::state(vf::hash(vf::hstr(vf::ctx().id), vf::hstr(f.name)));
    lf.get_linear_form().set_function(f.f);
    lf.set_degree(P + 4);
    lf.compute();
    const VectorXd c = llt.solve(lf.get_discrete_linear_form());
    const double e = surfaceL2error(a, c, f.f, 10), s = 1 + surfaceL2error(a, VectorXd(VectorXd::Zero(nd)), f.f, 10);
    if (f.deg <= P) vf::near(e, 0., 1e-9 * s, "polynomial " + f.name + " is reproduced");
    for (double t : {1., -.5, 1e-3}) {
      vf::step();
      const double w = surfaceL2error(a, c + t * d, f.f, 10);
      vf::near(w * w, e * e + t * t * d.dot(A * d), 1e-10 * (s * s + d.dot(A * d)), "best approximation of " + f.name);
    }
    const double n = surfaceL2error(a, c, functions()[0].f, 10);
    vf::near(n * n, c.dot(A * c), 1e-10 * s * s, "norm");
    vf::near(n * n + e * e, (s - 1) * (s - 1), 1e-10 * s * s, "orthogonality for " + f.name);
  }
}
// ---- sphere: projections and solutions of -Laplace-Beltrami u = l (l + 1) u --------------------------------------
struct H {
  std::string name;
  int l;
  Fun u;
};
static std::vector<H> harmonics() {
  typedef const Vector3d &X;
  return {{"x", 1, [](X x) { return x(0); }},
          {"y", 1, [](X x) { return x(1); }},
          {"z", 1, [](X x) { return x(2); }},
          {"xy", 2, [](X x) { return x(0) * x(1); }},
          {"yz", 2, [](X x) { return x(1) * x(2); }},
          {"xz", 2, [](X x) { return x(0) * x(2); }},
          {"xx-yy", 2, [](X x) { return x(0) * x(0) - x(1) * x(1); }},
          {"2zz-xx-yy", 2, [](X x) { return 2 * x(2) * x(2) - x(0) * x(0) - x(1) * x(1); }},
          {"xyz", 3, [](X x) { return x(0) * x(1) * x(2); }},
          {"xxx-3xyy", 3, [](X x) { return x(0) * x(0) * x(0) - 3 * x(0) * x(1) * x(1); }},
          {"zxx-zyy", 3, [](X x) { return x(2) * (x(0) * x(0) - x(1) * x(1)); }}};
}
// 1.4 x the largest error * 2^((P+1) level) over harmonics and levels 0..3, by degree
static const double CP[4] = {4.5, 2.5, 2.3, 2.6}, CL[4] = {0, 4.6, 2.7, 2.9};
static void sphere(int variant, int P, int L) {
  if (!vf::begin(cat("sphere/variant", variant, "/P", P, "L", L))) return;
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  if (variant) R = (Eigen::AngleAxisd(.4, Vector3d(1, 2, -1).normalized())).toRotationMatrix();
  PatchVector pv = sph::readSphere(R, Vector3d::Zero(), variant);
  Geometry g(pv);
  for (auto &p : pv) vf::near(p.eval(.3, .6).norm(), 1., 1e-9, "unit sphere");
  const double rate = std::pow(2., -(P + 1) * L);
  double wp = 0, wl = 0, wk = 0;
  {
    AnsatzSpace<MassMatrixScalarDisc> a(g, L, P);
    DiscreteLocalOperator<MassMatrixScalarDisc> mass(a);
    mass.compute();
    Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>> s(mass.get_discrete_operator());
    DiscreteLinearForm<DirichletTrace<double>, MassMatrixScalarDisc> lf(a);
    for (auto &h : harmonics()) {
      vf::state(vf::hash(vf::hstr(vf::ctx().id), vf::hstr(h.name)));
      vf::step();
      lf.get_linear_form().set_function(h.u);
      lf.compute();
      wp = std::max(wp, surfaceL2error(a, VectorXd(s.solve(lf.get_discrete_linear_form())), h.u, P + 3));
    }
  }
  vf::near(wp, 0., CP[P] * rate, "L2 projections converge");
  if (P > 0) {
    AnsatzSpace<LaplaceBeltramiOperator> a(g, L, P);
    DiscreteLocalOperator<LaplaceBeltramiOperator> lb(a);
    lb.compute();
    DiscreteLinearForm<DirichletTrace<double>, LaplaceBeltramiOperator> one(a), lf(a);
    one.get_linear_form().set_function([](const Vector3d &) { return 1.; });
    one.compute();
    VectorXd c = one.get_discrete_linear_form();
    MatrixXd A = MatrixXd(lb.get_discrete_operator()) + c * c.transpose();
    Eigen::LLT<MatrixXd> s(A);
    vf::check(s.info() == Eigen::Success, "definite up to constants");
    for (auto &h : harmonics()) {
      vf::state(vf::hash(vf::hstr(vf::ctx().id), vf::hstr("lb" + h.name)));
      vf::step();
      lf.get_linear_form().set_function([&](const Vector3d &x) { return h.l * (h.l + 1) * h.u(x); });
      lf.compute();
      VectorXd u = s.solve(lf.get_discrete_linear_form());
      wl = std::max(wl, surfaceL2error(a, u, h.u, P + 3));
    }
    vf::near(wl, 0., CL[P] * rate, "solutions converge");
  }
  if (getenv("A05_TABLE")) fprintf(stderr, "variant %d P%d L%d projection %.3f solution %.3f\n", variant, P, L, wp / rate, wl / rate);
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  QuadMesh two = geo::cube();
  two.name = "corner";
  two.q = {{{0, 1, 5, 4}}, {{1, 3, 7, 5}}, {{4, 5, 7, 6}}};
  std::vector<std::pair<QuadMesh, bool>> gs = {{geo::square(), true}, {geo::rotated(two, {1, 2, 0}), true}, {geo::cube(), true}, {geo::skewquad(), false}, {geo::curved(geo::cube()), false}, {geo::weighted(geo::curved(geo::strip(2))), false}, {geo::rotated(geo::curved(geo::strip(3)), {3, 1, 2}), false}};
  if (th) gs.push_back({geo::curved(geo::torus(3, 3)), false}), gs.push_back({geo::permuted(geo::cube(), {3, 1, 5, 0, 2, 4}), true});
  for (auto &gm : gs)
    for (int P = 0; P <= (th ? 5 : 3); ++P)
      for (int M = 0; M <= (th ? 3 : 2); ++M)
        for (int K = 1; K <= P + 1; ++K) {
          if ((P + 1) * (P + 1) * gm.first.npatch() * (1 << (2 * M)) > (th ? 1500 : 450)) continue;
          if (M == 0 && K > 1) continue;
          errors<LaplaceSingleLayerOperator>(gm.first, "single layer", P, M, K, gm.second);
          errors<MassMatrixScalarDisc>(gm.first, "mass", P, M, K, gm.second);
          if (gm.second) projection<MassMatrixScalarDisc>(gm.first, "discontinuous", P, M, K);
          if (P && K <= P) {
            errors<LaplaceBeltramiOperator>(gm.first, "Laplace-Beltrami", P, M, K, gm.second);
            errors<LaplaceHypersingularOperator>(gm.first, "hypersingular", P, M, K, gm.second);
            if (gm.second) projection<MassMatrixScalarCont>(gm.first, "continuous", P, M, K);
          }
        }
  for (int v = 0; v < 2; ++v)
    for (int P = 0; P <= 3; ++P)
      for (int L = 0; L <= (th && P < 3 ? 4 : P > 2 ? 2 : 3); ++L) sphere(v, P, L);
  return vf::finish();
}
