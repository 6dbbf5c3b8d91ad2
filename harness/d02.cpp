// D02: local Galerkin matrices for every relative element position.
#include <Bembel/AnsatzSpace>
#include <Bembel/DuffyTrick>
#include <Bembel/Geometry>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include "asp.hpp"
using namespace Bembel;
using vf::cat;
// operator with an arbitrary kernel and a quadrature degree chosen by its order
template <int Order>
class KOp;
namespace Bembel {
template <int Order>
struct LinearOperatorTraits<KOp<Order>> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = Order, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
}  // namespace Bembel
typedef std::function<double(const SurfacePoint &, const SurfacePoint &)> Kernel;
template <int Order>
class KOp : public LinearOperatorBase<KOp<Order>> {
 public:
  Kernel k;
  template <class T>
  void evaluateIntegrand_impl(const T &ss, const SurfacePoint &p1, const SurfacePoint &p2, Eigen::MatrixXd *I) const {
    ss.addScaledBasisInteraction(I, k(p1, p2) * p1(2) * p2(2), p1.segment<2>(0), p2.segment<2>(0));
  }
};
static double kap(const SurfacePoint &p) {
  Eigen::Vector3d a = p.segment<3>(6), b = p.segment<3>(9);
  return a.cross(b).norm();
}
static Eigen::Vector3d pos(const SurfacePoint &p) { return p.segment<3>(3); }
static GaussSquare<Constants::maximum_quadrature_degree> &GS() {
  static GaussSquare<Constants::maximum_quadrature_degree> g;
  return g;
}
template <typename Op>
struct Local {
  AnsatzSpace<Op> a;
  std::vector<ElementSurfacePoints> ff;
  std::vector<const ElementTreeNode *> el;
  const Op &op;
  int pp;
  Local(const Op &o, const Geometry &g, int L, int P) : a(g, L, P, 1), op(o) {
    const auto &ss = a.get_superspace();
    ff = DuffyTrick::computeFfieldQnodes(ss, GS()[op.get_FarfieldQuadratureDegree(P)]);
    const ElementTree &et = ss.get_mesh().get_element_tree();
    for (auto it = et.cpbegin(); it != et.cpend(); ++it) el.push_back(std::addressof(*it));
    pp = (P + 1) * (P + 1);
  }
  Eigen::Matrix<typename LinearOperatorTraits<Op>::Scalar, -1, -1> get(int i, int j) const {
    Eigen::Matrix<typename LinearOperatorTraits<Op>::Scalar, -1, -1> I(pp, pp);
    I.setConstant(12345.);
    DuffyTrick::evaluateBilinearForm(op, a.get_superspace(), *el[i], *el[j], GS(), ff[el[i]->id_], ff[el[j]->id_], &I);
    vf::step();
    return I;
  }
  int kind(int i, int j) const {
    double d;
    return DuffyTrick::compareElements(*el[i], *el[j], &d)(2);
  }
};
// 1D integral of x^a B_i^P on [0,1]
static double mom(int a, int i, int P) {
  long double s = 0, c = 1;  // B(i+a+1, P-i+1) * binom
  for (int k = 1; k <= i; ++k) c = c * (P - k + 1) / k;
  s = std::tgamma((long double)(i + a + 1)) * std::tgamma((long double)(P - i + 1)) / std::tgamma((long double)(P + a + 2));
  return double(c * s);
}
static std::string rs(const std::vector<int> &r) {
  std::string s;
  for (int x : r) s += char('0' + x);
  return s;
}
// ---- 1: polynomial kernels in the coordinates of both elements ---------------
static void poly(const geo::QuadMesh &m, const std::string &id, int L, int P) {
  if (!vf::begin(cat("poly/", m.name, "/", id, "/L", L, "P", P))) return;
  vf::state(vf::hstr(vf::ctx().id));
  KOp<-8> op;
  Geometry g = geo::geometry(m);
  Local<KOp<-8>> loc(op, g, L, P);
  const int n = P + 1;
  const double h2 = std::pow(.25, L);
  struct Mono {
    int a, b, c, d;
    double w;
  };
  std::vector<std::vector<Mono>> ks = {{{0, 0, 0, 0, 1.}}, {{1, 0, 0, 0, 1.}, {0, 2, 0, 1, -.7}, {0, 0, 3, 0, .4}, {2, 1, 1, 2, 1.3}, {0, 0, 0, 2, .9}, {1, 1, 0, 3, -2.}}};
  for (auto &k : ks) {
    op.k = [&k](const SurfacePoint &p, const SurfacePoint &q) {
      double s = 0;
      for (auto &t : k) s += t.w * std::pow(p(0), t.a) * std::pow(p(1), t.b) * std::pow(q(0), t.c) * std::pow(q(1), t.d);
      return s;
    };
    for (size_t i = 0; i < loc.el.size(); ++i)
      for (size_t j = 0; j < loc.el.size(); ++j) {
        Eigen::MatrixXd I = loc.get(i, j);
        for (int r = 0; r < n * n; ++r)
          for (int c = 0; c < n * n; ++c) {
            double e = 0;
            for (auto &t : k) e += t.w * mom(t.a, r % n, P) * mom(t.b, r / n, P) * mom(t.c, c % n, P) * mom(t.d, c / n, P);
            vf::near(I(r, c), h2 * e, 1e-12 * h2, cat("elements ", i, ",", j, " of kind ", loc.kind(i, j), " entry ", r, ",", c));
          }
        if (vf::failed()) return;
      }
  }
}
// ---- 2: 1/|x-y| on flat parallelograms ---------------------------------------
// potential of constant density one on the flat quad c[0..3] at x
static double potential(const Eigen::Vector3d *c, const Eigen::Vector3d &x) {
  Eigen::Vector3d nrm = (c[1] - c[0]).cross(c[3] - c[0]).normalized();
  double d = nrm.dot(x - c[0]), ad = std::abs(d), s = 0;
  for (int k = 0; k < 4; ++k) {
    Eigen::Vector3d a = c[k], b = c[(k + 1) % 4], l = (b - a).normalized(), u = l.cross(nrm);
    double t = u.dot(a - x), sm = l.dot(a - x), sp = l.dot(b - x);
    double Rm = (a - x).norm(), Rp = (b - x).norm(), R02 = t * t + d * d;
    if (std::abs(t) > 1e-14 && R02 > 0) {
      auto plus = [R02](double R, double l0) { return l0 >= 0 ? R + l0 : R02 / (R - l0); };
      double lg = std::log(plus(Rp, sp) / plus(Rm, sm));
      s += t * lg;
      if (ad > 0) s -= ad * (std::atan2(t * sp, R02 + ad * Rp) - std::atan2(t * sm, R02 + ad * Rm));
    }
  }
  return s;
}
struct DE {
  std::vector<double> x, w;
  DE() {
    const double h = .11;
    for (int k = -33; k <= 33; ++k) {
      double t = k * h, u = M_PI / 2 * std::sinh(t);
      double xx = 1 / (1 + std::exp(-2 * u)), ww = h * M_PI / 2 * std::cosh(t) / (2 * std::cosh(u) * std::cosh(u));
      x.push_back(xx);
      w.push_back(ww);
    }
  }
};
static double refCoulomb(const Eigen::Vector3d *a, const Eigen::Vector3d *b) {
  static DE q;
  Eigen::Vector3d u = a[1] - a[0], v = a[3] - a[0];
  double J = u.cross(v).norm(), s = 0;
  for (size_t i = 0; i < q.x.size(); ++i)
    for (size_t j = 0; j < q.x.size(); ++j) s += q.w[i] * q.w[j] * potential(b, a[0] + q.x[i] * u + q.x[j] * v);
  return s * J;
}
static Kernel coulomb() {
  return [](const SurfacePoint &p, const SurfacePoint &q) { return kap(p) * kap(q) / (pos(p) - pos(q)).norm(); };
}
static void singular(const geo::QuadMesh &m0, const std::vector<int> &rot, int L, int P) {
  if (!vf::begin(cat("coulomb/", m0.name, "/", rs(rot), "/L", L, "P", P))) return;
  vf::state(vf::hstr(vf::ctx().id));
  geo::QuadMesh m = geo::rotated(m0, rot);
  KOp<-11> op;
  op.k = coulomb();
  Geometry g = geo::geometry(m);
  PatchVector pv = geo::patches(m);
  Local<KOp<-11>> loc(op, g, L, P);
  const double h = 1. / (1 << L);
  const double X[4] = {0, 1, 1, 0}, Y[4] = {0, 0, 1, 1};
  auto corners = [&](int i, Eigen::Vector3d *c) {
    for (int k = 0; k < 4; ++k) c[k] = pv[loc.el[i]->patch_].eval(loc.el[i]->llc_(0) + h * X[k], loc.el[i]->llc_(1) + h * Y[k]);
  };
  static std::map<std::string, double> cache;
  for (size_t i = 0; i < loc.el.size(); ++i)
    for (size_t j = 0; j < loc.el.size(); ++j) {
      Eigen::Vector3d a[4], b[4];
      corners(i, a);
      corners(j, b);
      Eigen::Vector3d ca = a[0] + a[2], cb = b[0] + b[2];
      std::string key = cat(m.name, L, "/", (float)ca(0), ",", (float)ca(1), ",", (float)ca(2), "/", (float)cb(0), ",", (float)cb(1), ",", (float)cb(2));
      auto it = cache.find(key);
      if (it == cache.end()) it = cache.insert({key, refCoulomb(a, b)}).first;
      const double e = it->second / (h * h);
      Eigen::MatrixXd I = loc.get(i, j);
      const double scale = 3 * h;  // size of the self interaction
      vf::near(I.sum(), e, 2e-8 * scale, cat("elements ", i, ",", j, " of kind ", loc.kind(i, j)));
      // transposed problem
      Eigen::MatrixXd It = loc.get(j, i);
      vf::near((I - It.transpose()).cwiseAbs().maxCoeff(), 0., 2e-8 * scale, cat("symmetry of elements ", i, ",", j, " of kind ", loc.kind(i, j)));
      if (vf::failed()) return;
    }
}
// ---- 3: rotating the parametrisation permutes the local basis ----------------
static int rotIndex(int idx, int P, int r) {
  if (P == 0) return 0;
  Eigen::Vector2d t = DuffyTrick::tau(double(idx % (P + 1)) / P, double(idx / (P + 1)) / P, r);
  return (int)std::lround(t(1) * P) * (P + 1) + (int)std::lround(t(0) * P);
}
static void rotation(const geo::QuadMesh &m0, const std::vector<int> &rot, int L, int P, int kern) {
  if (!vf::begin(cat("rotation/", m0.name, "/", rs(rot), "/L", L, "P", P, "k", kern))) return;
  vf::state(vf::hstr(vf::ctx().id));
  KOp<-9> op;
  if (kern == 0)
    op.k = coulomb();
  else
    op.k = [](const SurfacePoint &p, const SurfacePoint &q) {  // not symmetric, weakly singular
      Eigen::Vector3d d = pos(p) - pos(q);
      return kap(p) * kap(q) * (1 + pos(p)(0) - 2 * pos(q)(2)) / d.norm();
    };
  const int N = m0.npatch();
  std::vector<int> pl(N);
  for (int i = 0; i < N; ++i) pl[i] = N - 1 - i;
  geo::QuadMesh m = geo::permuted(geo::rotated(m0, rot), pl);
  Geometry g0 = geo::geometry(m0), g = geo::geometry(m);
  Local<KOp<-9>> A(op, g0, L, P), B(op, g, L, P);
  const double h = 1. / (1 << L);
  // element of the original mesh
  std::vector<int> map(B.el.size(), -1);
  for (size_t i = 0; i < B.el.size(); ++i) {
    int p0 = pl[B.el[i]->patch_];
    Eigen::Vector2d c = B.el[i]->llc_ + Eigen::Vector2d(h / 2, h / 2);
    Eigen::Vector2d o = DuffyTrick::tau(c(0), c(1), rot[p0]);
    for (size_t k = 0; k < A.el.size(); ++k)
      if (A.el[k]->patch_ == p0 && (A.el[k]->llc_ + Eigen::Vector2d(h / 2, h / 2) - o).norm() < 1e-9) map[i] = k;
    if (map[i] < 0) return vf::fail("harness: no matching element");
  }
  for (size_t i = 0; i < B.el.size(); ++i)
    for (size_t j = 0; j < B.el.size(); ++j) {
      Eigen::MatrixXd I = B.get(i, j), J = A.get(map[i], map[j]);
      int r1 = rot[pl[B.el[i]->patch_]], r2 = rot[pl[B.el[j]->patch_]];
      for (int a = 0; a < I.rows(); ++a)
        for (int b = 0; b < I.cols(); ++b)
          vf::near(I(a, b), J(rotIndex(a, P, r1), rotIndex(b, P, r2)), 3e-8 * h, cat("elements ", i, ",", j, " of kind ", B.kind(i, j), " entry ", a, ",", b));
      if (vf::failed()) return;
    }
}
// ---- 4: the degrees chosen for an operator are sufficient --------------------
template <typename Op>
struct Hi;
struct Acc {
  double self = 0, err[5] = {0, 0, 0, 0, 0};
};
// accuracy of the shipped policy on the geometries below (level major, degree minor)
static double accuracy(const std::string &kn, bool skew, int L, int P) {
  static const std::map<std::string, std::pair<std::vector<double>, std::vector<double>>> t = {
    {"coulomb", {{1.2e-04, 7.4e-05, 5.4e-05, 8.2e-05, 1.6e-05, 2.4e-05, 6.5e-05, 2.4e-05, 2.4e-05}, {6.2e-04, 2.8e-04, 7.2e-05, 3.6e-04, 1.5e-04, 7.6e-05, 5.1e-04, 1.6e-04, 1.6e-04}}},
    {"coulomb0", {{4.0e-03, 2.9e-03, 1.5e-03, 1.4e-03, 1.3e-03, 6.6e-04, 6.5e-05, 6.5e-05, 6.5e-05}, {7.8e-03, 5.7e-03, 1.6e-03, 4.9e-03, 3.2e-03, 1.3e-03, 5.1e-04, 1.6e-04, 1.6e-04}}},
    {"coulomb1", {{1.2e-01, 3.2e-02, 1.5e-02, 4.5e-03, 2.9e-02, 1.3e-02, 9.2e-04, 9.2e-04, 9.2e-04}, {1.4e-01, 6.7e-02, 2.4e-02, 4.9e-03, 3.8e-02, 1.3e-02, 1.4e-03, 1.6e-04, 1.6e-04}}},
    {"helmholtz", {{1.1e-03, 1.0e-03, 5.0e-04, 2.0e-04, 2.2e-04, 7.4e-05, 6.9e-05, 6.9e-05, 6.9e-05}, {5.8e-04, 2.1e-04, 8.0e-05, 3.4e-04, 2.8e-04, 1.2e-04, 5.3e-04, 1.6e-04, 1.6e-04}}}};
  auto &r = t.at(kn);
  return 3 * (skew ? r.second : r.first)[3 * L + P];
}
template <int Order>
void policy(const geo::QuadMesh &m, int L, int P, const std::string &kn, Kernel k, double bound) {
  if (!vf::begin(cat("degree/", kn, "/", m.name, "/L", L, "P", P))) return;
  vf::state(vf::hstr(vf::ctx().id));
  KOp<Order> lo;
  KOp<-10> hi;
  lo.k = hi.k = k;
  Geometry g = geo::geometry(m);
  Local<KOp<Order>> A(lo, g, L, P);
  Local<KOp<-10>> B(hi, g, L, P);
  Acc c;
  for (size_t i = 0; i < A.el.size(); ++i)
    for (size_t j = 0; j < A.el.size(); ++j) {
      Eigen::MatrixXd I = A.get(i, j), J = B.get(i, j);
      if (i == j) c.self = std::max(c.self, J.cwiseAbs().maxCoeff());
      int kd = A.kind(i, j);
      c.err[kd] = std::max(c.err[kd], (I - J).cwiseAbs().maxCoeff());
    }
  double e = 0;
  for (double x : c.err) e = std::max(e, x / c.self);
  if (getenv("D02V")) fprintf(stderr, "%s L%d P%d %s: far %.1e self %.1e edge %.1e vertex %.1e bound %.1e\n", m.name.c_str(), L, P, kn.c_str(), c.err[0] / c.self, c.err[2] / c.self, c.err[3] / c.self, c.err[4] / c.self, bound);
  vf::near(e, 0., bound, "relative quadrature error");
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  // flat configurations with two patches
  std::vector<QuadMesh> flat;
  {
    QuadMesh a;
    a.name = "coplanar";
    a.v = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {0, 1, 0}, {1, 1, 0}, {2, 1, 0}};
    a.q = {{{0, 1, 4, 3}}, {{1, 2, 5, 4}}};
    flat.push_back(a);
    QuadMesh b = a;
    b.name = "folded90";
    b.v[2] = {1, 0, 1};
    b.v[5] = {1, 1, 1};
    flat.push_back(b);
    QuadMesh c = a;
    c.name = "folded135";
    c.v[2] = {1 - .6, 0, .8};
    c.v[5] = {1 - .6, 1, .8};
    flat.push_back(c);
    QuadMesh d = a;
    d.name = "skew";
    for (auto &v : d.v) v = V3(v(0) + .4 * v(1), .9 * v(1), .2 * v(0));
    flat.push_back(d);
    QuadMesh e;
    e.name = "corner";
    e.v = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {2, 1, 0}, {2, 2, 0}, {1, 2, 0}};
    e.q = {{{0, 1, 2, 3}}, {{2, 4, 5, 6}}};
    flat.push_back(e);
    QuadMesh f = e;
    f.name = "corner3d";
    f.v[4] = {1, 2, .5};
    f.v[5] = {1.2, 2, 1.5};
    f.v[6] = {1.2, 1, 1};
    flat.push_back(f);
    flat.push_back(square());
    QuadMesh s;
    s.name = "apartflat";
    s.v = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, .4}, {1, 0, .4}, {1, 1, .4}, {0, 1, .4}};
    s.q = {{{0, 1, 2, 3}}, {{4, 5, 6, 7}}};
    flat.push_back(s);
  }
  auto rots = [&](int n) {
    std::vector<std::vector<int>> r;
    for (int k = 0; k < (1 << (2 * n)); ++k) {
      r.push_back({});
      for (int i = 0; i < n; ++i) r.back().push_back((k >> (2 * i)) & 3);
    }
    return r;
  };
  for (auto &m : flat)
    for (auto &r : rots(m.npatch())) {
      for (int P = 0; P <= (th ? 2 : 1); ++P) poly(rotated(m, r), rs(r), 0, P);
      singular(m, r, 0, 0);
      singular(m, r, 0, 1);
      if (th || m.npatch() == 1 || r == std::vector<int>{1, 3} || r == std::vector<int>{0, 2}) {
        singular(m, r, 1, 0);
        singular(m, r, 1, 1);
        poly(rotated(m, r), rs(r), 1, 2);
      }
    }
  poly(cube(), "id", 1, 1);
  poly(star(5), "id", 0, 3);
  poly(curved(strip(2)), "id", 1, 1);
  poly(strip(1), "id", 2, 1);
  singular(cube(), {0, 0, 0, 0, 0, 0}, 0, 0);
  singular(cube(), {1, 2, 3, 0, 2, 1}, 0, 0);
  singular(cube(), {3, 2, 0, 1, 1, 0}, 1, 0);
  for (const QuadMesh &m : {curved(weighted(strip(2)), .05), vertexTouch(), flat[2]})
    for (auto &r : rots(2)) {
      for (int k = 0; k < 2; ++k) {
        rotation(m, r, 0, 1, k);
        if (th) rotation(m, r, 0, 3, k);
      }
      rotation(m, r, 0, 2, 1);
      if (th || r == std::vector<int>{1, 3} || r == std::vector<int>{2, 1}) rotation(m, r, 1, 1, 1);
    }
  rotation(star(3), {1, 2, 3}, 0, 2, 1);
  rotation(star(5), {1, 2, 3, 0, 1}, 0, 1, 1);
  rotation(cube(), {1, 2, 3, 0, 2, 3}, 0, 1, 1);
  Kernel smooth = [](const SurfacePoint &p, const SurfacePoint &q) { return kap(p) * kap(q) * std::cos(2 * (pos(p) - pos(q)).norm()) / (pos(p) - pos(q)).norm(); };
  for (const QuadMesh &m : {cube(), curved(star(5)), apart(.5), weighted(skewquad())})
    for (int L = 0; L <= (m.npatch() > 2 ? 1 : 2); ++L)
      for (int P = 0; P <= 2; ++P) {
        if (m.npatch() * (1 << 2 * L) * (P + 1) > (th ? 80 : 24)) continue;
        policy<-1>(m, L, P, "coulomb", coulomb(), accuracy("coulomb", m.npatch() == 1, L, P));
        policy<0>(m, L, P, "coulomb0", coulomb(), accuracy("coulomb0", m.npatch() == 1, L, P));
        policy<1>(m, L, P, "coulomb1", coulomb(), accuracy("coulomb1", m.npatch() == 1, L, P));
        policy<-1>(m, L, P, "helmholtz", smooth, accuracy("helmholtz", m.npatch() == 1, L, P));
      }
  return vf::finish();
}
