// A03: the projector represents exactly the tensor product B-splines.
#include "asp.hpp"
using namespace asp;
static std::vector<double> knots(int order, int n, int rep) {
  std::vector<double> U(order, 0.);
  for (int i = 1; i < n; ++i)
    for (int k = 0; k < rep; ++k) U.push_back(double(i) / n);
  U.insert(U.end(), order, 1.);
  return U;
}
// values of all B-splines of the given order on the interval k of n at local u
static std::vector<double> values(const std::vector<double> &U, int order, int n, int k, double u) {
  const int dim = (int)U.size() - order;
  int span = -1;
  for (int i = 0; i + 1 < (int)U.size(); ++i)
    if (U[i] < U[i + 1] && std::abs(U[i] - double(k) / n) < 1e-12) span = i;
  std::vector<double> v(dim, 0.);
  for (int i = std::max(0, span - order + 1); i <= std::min(span, dim - 1); ++i)
    v[i] = (double)ref::bsplinePiece(U, i, order - 1, span, (k + (long double)u) / n);
  return v;
}
template <typename Op>
static void one(const Bembel::Geometry &g, int npatch, int P, int M, int K, int form) {
  Bembel::Geometry gg = g;
  Bembel::SuperSpace<Op> ss(gg, M, P);
  Bembel::Projector<Op> proj(ss, K);
  const int n = 1 << M, pp = (P + 1) * (P + 1), nel = npatch * n * n;
  const Eigen::SparseMatrix<double> &S = proj.get_projection_matrix();
  const int comps = form == 1 ? 2 : 1;
  std::vector<double> U[2][2];
  int dx[2], dy[2], ox[2], oy[2], off[2], total = 0;
  for (int c = 0; c < comps; ++c) {
    ox[c] = form == 1 ? (c == 0 ? P + 1 : P) : P + 1;
    oy[c] = form == 1 ? (c == 0 ? P : P + 1) : P + 1;
    int kx = std::min(K, form == 1 ? P : ox[c]), ky = std::min(K, form == 1 ? P : oy[c]);
    U[c][0] = knots(ox[c], n, kx);
    U[c][1] = knots(oy[c], n, ky);
    dx[c] = (int)U[c][0].size() - ox[c];
    dy[c] = (int)U[c][1].size() - oy[c];
    off[c] = total;
    total += dx[c] * dy[c] * npatch;
  }
  vf::check(S.cols() == total && proj.get_dofs_after_projector() == total,
            vf::cat("dimension ", S.cols(), " but the patch-wise spline space has ", total));
  vf::check(proj.get_knot_repetition() == K, "knot repetition");
  vf::check(S.rows() == comps * nel * pp, "rows");
  if (vf::failed()) return;
  vf::state(vf::hstr(vf::ctx().id));
  RowMat T = RowMat(Eigen::MatrixXd(S));
  Elements<Op> el(ss);
  for (int c = 0; c < comps; ++c)
    for (int p = 0; p < npatch; ++p)
      for (int iy = 0; iy < n; ++iy)
        for (int ix = 0; ix < n; ++ix)
          for (int b = 0; b <= P; ++b)
            for (int a = 0; a <= P; ++a) {
              double u = (a + .5) / (P + 1), v = (b + .5) / (P + 1);
              std::vector<double> X = values(U[c][0], ox[c], n, ix, u), Y = values(U[c][1], oy[c], n, iy, v);
              Eigen::RowVectorXd got = apply(T, el.stencil(p, {(ix + u) / n, (iy + v) / n}, c, ix, iy));
              for (int j = 0; j < dy[c]; ++j)
                for (int i = 0; i < dx[c]; ++i) {
                  int col = off[c] + p * dx[c] * dy[c] + j * dx[c] + i;
                  got(col) -= X[i] * Y[j];
                }
              Eigen::Index w;
              double e = got.cwiseAbs().maxCoeff(&w);
              vf::near(e, 0., 1e-8, vf::cat("dof ", w, " on patch ", p, " element ", ix, ",", iy, " component ", c));
              vf::step(got.size());
            }
}
template <typename Op>
static void run(const QuadMesh &m, int P, int M, int K, int form) {
  if (!vf::begin(vf::cat(m.name, "/form", form, "P", P, "M", M, "K", K))) return;
  one<Op>(geo::geometry(m), m.npatch(), P, M, K, form);
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  using namespace geo;
  const bool th = vf::thorough();
  const int cap = th ? 40 : 24;
  for (const QuadMesh &m : {square(), strip(2), rotated(star(3), {1, 2, 3})})
    for (int P = 0; P <= (th ? 12 : 9); ++P)
      for (int M = 0; M <= (th ? 4 : 3); ++M)
        for (int K = 1; K <= P + 2; ++K) {
          if (M == 0 && K > 1) continue;
          int dim = P + 1 + std::min(K, P + 1) * ((1 << M) - 1);
          if (dim > cap || (m.npatch() > 1 && dim > cap / 2)) continue;
          run<OpD>(m, P, M, K, 2);
          if (P >= 1 && K <= P) run<OpC>(m, P, M, K, 0);
          if (P >= 1 && K <= P) run<OpV>(m, P, M, K, 1);
        }
  return vf::finish();
}
