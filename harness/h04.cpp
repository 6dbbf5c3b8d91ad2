// H04: interpolation points, Lagrange polynomials, transfer matrices, moments and the
// forward / backward transforms of the compression.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/Laplace>
#include <Bembel/Maxwell>
#include "geo.hpp"
#include <set>
#include "vf.hpp"
#include "mom.hpp"
using vf::cat;
static int indexOf(const Eigen::VectorXd &x, double t) {
  for (int i = 0; i < x.size(); ++i)
    if (std::abs(x(i) - t) < 1e-13) return i;
  return -1;
}
static double lebesgue(int np) { return 1e-14 * std::pow(2.2, np); }
template <typename Op>
static void moments(const std::string &nm, const geo::QuadMesh &m, int L, int P, int np, int r) {
  if (!vf::begin(cat("moments/", nm, "/", m.name, "/L", L, "P", P, "n", np, "r", r))) return;
  vf::state(vf::hstr(vf::ctx().id));
  AnsatzSpace<Op> as(geo::geometry(m), L, P, 1);
  const SuperSpace<Op> &ss = as.get_superspace();
  const int cl = L - r, P1 = P + 1, pp = P1 * P1, np2 = np * np;
  auto M = Moment2D<ChebychevRoots, Op>::compute2DMoment(ss, cl, r, np);
  auto T = computeTransferMatrices<ChebychevRoots>(np);
  auto X2 = interpolationPoints2D(ChebychevRoots(np).points_);
  const int vd = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>();
  vf::check((int)M.size() == vd, "number of moment matrices");
  if (vf::failed()) return;
  const ElementTree &et = ss.get_mesh().get_element_tree();
  const int nel = et.get_number_of_elements(), nr = 1 << 2 * r, ncl = nel / nr;
  std::vector<const ElementTreeNode *> el(nel);
  for (auto it = et.cpbegin(); it != et.cpend(); ++it) el[it->id_] = std::addressof(*it);
  // clusters of every level, by id
  std::vector<std::vector<const ElementTreeNode *>> cls(L + 1);
  std::function<void(const ElementTreeNode &)> walk = [&](const ElementTreeNode &n) {
    if (n.level_ >= 0 && n.level_ <= L) {
      if ((int)cls[n.level_].size() <= n.id_) cls[n.level_].resize(n.id_ + 1, nullptr);
      cls[n.level_][n.id_] = &n;
    }
    for (auto &s : n.sons_) walk(s);
  };
  walk(et.root());
  std::vector<Exact> ex;
  for (int s = 0; s <= cl; ++s) ex.emplace_back(np, P, r + s, L);
  std::vector<std::pair<int, int>> ij;
  Eigen::VectorXd x = ChebychevRoots(np).points_;
  for (int k = 0; k < np2; ++k) ij.push_back({indexOf(x, X2(k, 0)), indexOf(x, X2(k, 1))});
  const double tol = lebesgue(np) * 10;
  for (int c = 0; c < vd; ++c) {
    auto bl = Blocks<Op>::get(c);
    vf::check(M[c].rows() == np2 * (int)bl.size() && M[c].cols() == nr * pp, cat("shape of moments ", c));
    if (vf::failed()) return;
    auto position = [&](const ElementTreeNode &cluster, const ElementTreeNode &e) {
      const double n = std::ldexp(1., L);
      return Eigen::Vector2i((int)std::lround((e.llc_(0) - cluster.llc_(0)) * n), (int)std::lround((e.llc_(1) - cluster.llc_(1)) * n));
    };
    // forward transform of every unit vector, on every level
    const bool full = nel * pp <= (vf::thorough() ? 4000 : 600);
    std::vector<std::vector<Eigen::MatrixXd>> F(nel * pp);
    for (int u = 0; u < nel * pp; ++u) {
      if (!full && u % 37) continue;
      Eigen::MatrixXd R = Eigen::MatrixXd::Zero(nr * pp, ncl);
      R(u % (nr * pp), u / (nr * pp)) = 1;
      F[u] = forwardTransformation<double>(M[c], T, cl, R);
      vf::check((int)F[u].size() == cl + 1, "levels of the forward transform");
      if (vf::failed()) return;
      const ElementTreeNode &e = *el[u / pp];
      const int b = u % pp / P1, a = u % P1;
      for (int s = 0; s <= cl; ++s) {
        vf::check(F[u][s].rows() == np2 * (int)bl.size() && F[u][s].cols() == (ncl >> 2 * s), cat("shape on level ", s));
        if (vf::failed()) return;
        for (int k = 0; k < F[u][s].cols(); ++k) {
          const ElementTreeNode &cu = *cls[cl - s][k];
          Eigen::Vector2i at = position(cu, e);
          const int w = 1 << (r + s);
          const bool inside = cu.patch_ == e.patch_ && at(0) >= 0 && at(0) < w && at(1) >= 0 && at(1) < w;
          for (size_t d = 0; d < bl.size(); ++d)
            for (int q = 0; q < np2; ++q) {
              double want = inside ? ex[s](bl[d], at(0), at(1), a, b, ij[q].first, ij[q].second) : 0;
              vf::near(F[u][s](d * np2 + q, k), want, tol, cat("component ", c, " basis ", u, " level ", s, " cluster ", k, " block ", d, " point ", q));
            }
        }
        if (vf::failed()) return;
      }
    }
    // backward transform of every unit vector is the transpose
    if (!full) continue;
    std::vector<Eigen::MatrixXcd> z;
    for (int s = 0; s <= cl; ++s) z.push_back(Eigen::MatrixXcd::Zero(np2 * bl.size(), ncl >> 2 * s));
    for (int s = 0; s <= cl; ++s)
      for (int k = 0; k < z[s].cols(); ++k)
        for (int q = 0; q < z[s].rows(); ++q) {
          if (np > 3 && (q + k) % 5) continue;
          auto v = z;
          const cplx f(1, -2);
          v[s](q, k) = f;
          Eigen::VectorXcd b = backwardTransformation<cplx>(M[c], T, cl, v);
          vf::check(b.size() == nel * pp, "size of the backward transform");
          if (vf::failed()) return;
          for (int u = 0; u < nel * pp; ++u) vf::near(b(u), f * F[u][s](q, k), 5 * tol, cat("backward: component ", c, " basis ", u, " level ", s, " cluster ", k, " row ", q));
          if (vf::failed()) return;
        }
    // all levels at once, complex
    Eigen::MatrixXcd R(nr * pp, ncl);
    for (int i = 0; i < R.size(); ++i) R(i) = cplx(std::sin(1. + i), std::cos(2. * i));
    auto Fz = forwardTransformation<cplx>(M[c], T, cl, R);
    auto v = z;
    cplx lhs = 0;
    for (int s = 0; s <= cl; ++s) {
      Eigen::MatrixXcd W = Eigen::MatrixXcd::Zero(Fz[s].rows(), Fz[s].cols());
      for (int u = 0; u < nel * pp; ++u) W += R(u) * F[u][s].cast<cplx>();
      vf::near((W - Fz[s]).cwiseAbs().maxCoeff(), 0, 100 * tol, "forward transform is linear");
      for (int i = 0; i < v[s].size(); ++i) v[s](i) = cplx(std::cos(3. * i + s), std::sin(i * .7 - s));
      lhs += (v[s].array() * Fz[s].array()).sum();
    }
    auto v2 = v;
    Eigen::VectorXcd b = backwardTransformation<cplx>(M[c], T, cl, v2);
    cplx rhs = 0;
    for (int u = 0; u < nel * pp; ++u) rhs += b(u) * R(u);
    vf::near(lhs, rhs, 1e3 * tol * (1 + std::abs(lhs)), "adjoint");
  }
}
template <typename Op>
static void family(const std::string &nm, int Pmin) {
  const bool th = vf::thorough();
  for (int L = 0; L <= 3; ++L)
    for (int r = 0; r <= std::min(L, 2); ++r)
      for (int P = Pmin; P <= (th ? 4 : 3); ++P)
        for (int np = 1; np <= (th ? 12 : 9); ++np) {
          if (L == 3 && (P > 1 || np > 4) && !th) continue;
          if (np > 5 && (L > 1 && P > 1) && !th) continue;
          moments<Op>(nm, np % 2 ? geo::square() : geo::apart(3), L, P, np, r);
        }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  for (int np = 1; np <= (th ? 24 : 16); ++np) {
    if (!vf::begin(cat("points/n", np))) continue;
    vf::state(vf::hstr(vf::ctx().id));
    Eigen::VectorXd x = ChebychevRoots(np).points_;
    vf::check(x.size() == np, "number of points");
    if (vf::failed()) continue;
    std::vector<double> have(x.data(), x.data() + np), want;
    for (int i = 0; i < np; ++i) want.push_back(.5 + .5 * std::cos(M_PI * (2 * i + 1) / (2. * np)));
    std::sort(have.begin(), have.end());
    std::sort(want.begin(), want.end());
    for (int i = 0; i < np; ++i) vf::near(have[i], want[i], 1e-15, cat("root ", i));
    auto L = computeLagrangePolynomials<ChebychevRoots>(np);
    auto X2 = interpolationPoints2D(x);
    auto T = computeTransferMatrices<ChebychevRoots>(np);
    const double tol = lebesgue(np);
    vf::check(L.cols() == np && X2.rows() == np * np && X2.cols() == 2 && T.rows() == np * np && T.cols() == 4 * np * np, "shapes");
    if (vf::failed()) continue;
    for (int j = 0; j < np; ++j)
      for (int k = 0; k <= 40; ++k) vf::near(evaluatePolynomial<ChebychevRoots>(L.col(j), k / 40.), (double)lag(x, j, k / 40.L), tol, cat("polynomial ", j, " at ", k / 40.));
    std::set<std::pair<int, int>> seen;
    for (int q = 0; q < np * np; ++q) {
      int i = indexOf(x, X2(q, 0)), j = indexOf(x, X2(q, 1));
      vf::check(i >= 0 && j >= 0, "tensor points");
      seen.insert({i, j});
    }
    vf::check((int)seen.size() == np * np, "tensor points are distinct");
    if (vf::failed()) continue;
    if (np > 8 && !th) continue;
    const int SX[4] = {0, 1, 1, 0}, SY[4] = {0, 0, 1, 1};
    for (int s = 0; s < 4; ++s)
      for (int q = 0; q < np * np; ++q)
        for (int p = 0; p < np * np; ++p) {
          int i = indexOf(x, X2(q, 0)), j = indexOf(x, X2(q, 1));
          double w = (double)(lag(x, i, (X2(p, 0) + SX[s]) / 2.L) * lag(x, j, (X2(p, 1) + SY[s]) / 2.L));
          vf::near(T(q, s * np * np + p), w, tol * 4, cat("transfer to son ", s, " ", q, ",", p));
        }
  }
  family<LaplaceSingleLayerOperator>("laplaceSL", 0);
  family<LaplaceHypersingularOperator>("laplaceHS", 1);
  family<HelmholtzSingleLayerOperator>("helmholtzSL", 0);
  family<HelmholtzHypersingularOperator>("helmholtzHS", 1);
  family<MaxwellSingleLayerOperator>("maxwell", 1);
  family<HomogenisedLaplaceSingleLayerOperator>("homogenised", 0);
  return vf::finish();
}
