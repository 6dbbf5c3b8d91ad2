// A02: divergence conforming spaces over all patch numberings and rotations.
#include "asp.hpp"
using namespace asp;

// outward normal component (in the reference domain) of every basis function
static Eigen::RowVectorXd flux(const RowMat &T, const Elements<OpV> &el, int p, int e, double t) {
  Eigen::Vector2d n = outward(e), x = onEdge(e, t);
  int c = n(0) != 0 ? 0 : 1;
  return n(c) * apply(T, el.stencil(p, x, c));
}
static void one(const Bembel::Geometry &g, const QuadMesh &m, int P, int M, int K, bool physical) {
  Bembel::AnsatzSpace<OpV> as(g, M, P, K);
  const auto &ss = as.get_superspace();
  Elements<OpV> el(ss);
  const int small = P + K * ((1 << M) - 1), large = small + 1;
  auto ed = edges(m);
  int shared = 0;
  for (auto &e : ed) shared += e.p2 >= 0;
  const int dim = 2 * m.npatch() * small * large - shared * small;
  RowMat T = RowMat(Eigen::MatrixXd(as.get_transformation_matrix()));
  vf::check(T.cols() == as.get_number_of_dofs(), "get_number_of_dofs");
  vf::check(T.cols() == dim, vf::cat("number of dofs ", T.cols(), " but the conforming space has dimension ", dim));
  vf::check(T.rows() == 2 * el.nel * el.pp, "number of rows");
  if (vf::failed()) return;
  vf::state(vf::hstr(vf::ctx().id));
  double largest = 0;
  for (auto &e : ed) {
    if (e.p2 < 0) continue;
    for (int k = 0; k < el.n; ++k)
      for (int i = 0; i <= P; ++i) {
        double t = (k + (i + .5) / (P + 1)) / el.n;
        Eigen::RowVectorXd a = flux(T, el, e.p1, e.e1, t), b = flux(T, el, e.p2, e.e2, 1 - t);
        largest = std::max(largest, a.cwiseAbs().maxCoeff());
        vf::near((a + b).cwiseAbs().maxCoeff(), 0., 1e-9, vf::cat("normal jump across patches ", e.p1, ",", e.p2, " t=", t));
      }
  }
  if (shared) vf::check(largest > .1, "no flux crosses any shared edge");
  for (int p = 0; p < m.npatch(); ++p)
    for (int k = 1; k < el.n; ++k)
      for (int j = 0; j < el.n; ++j)
        for (int i = 0; i <= P; ++i) {
          double t = (j + double(i) / P) / el.n, s = double(k) / el.n;
          Eigen::RowVectorXd d = apply(T, el.stencil(p, {s, t}, 0, k - 1, j)) - apply(T, el.stencil(p, {s, t}, 0, k, j));
          vf::near(d.cwiseAbs().maxCoeff(), 0., 1e-9, "normal jump inside a patch (x)");
          d = apply(T, el.stencil(p, {t, s}, 1, j, k - 1)) - apply(T, el.stencil(p, {t, s}, 1, j, k));
          vf::near(d.cwiseAbs().maxCoeff(), 0., 1e-9, "normal jump inside a patch (y)");
        }
  vf::check(rankGap(T) > 1e-9, "degrees of freedom are linearly dependent");
  if (!physical) return;
  // the field on the surface, through the evaluator: conormal components cancel
  Bembel::FunctionEvaluator<OpV> fe(as);
  Eigen::VectorXd c = Eigen::VectorXd::Zero(T.cols());
  for (int d = 0; d < T.cols(); ++d) {
    c.setZero();
    c(d) = 1;
    fe.set_function(c);
    for (auto &e : ed) {
      if (e.p2 < 0) continue;
      for (int k = 0; k < el.n; ++k)
        for (int i = 0; i <= P; ++i) {
          double t = (k + (i + .5) / (P + 1)) / el.n;
          double f[2];
          for (int s = 0; s < 2; ++s) {
            int p = s ? e.p2 : e.p1, le = s ? e.e2 : e.e1;
            Eigen::Vector2d x = onEdge(le, s ? 1 - t : t);
            int ix = std::min(el.n - 1, (int)std::floor(x(0) * el.n)), iy = std::min(el.n - 1, (int)std::floor(x(1) * el.n));
            const auto &node = *el.node[el.at(p, iy, ix)];
            SurfacePoint sp;
            ss.map2surface(node, Eigen::Vector2d(x(0) * el.n - ix, x(1) * el.n - iy), 1., &sp);
            Eigen::Vector3d dx = sp.segment<3>(6), dy = sp.segment<3>(9), nn = dx.cross(dy);
            double kappa = nn.norm();
            // direction of travel along the edge and outward conormal
            Eigen::Vector2d tr = onEdge(le, .75) - onEdge(le, .25);
            Eigen::Vector3d tan = dx * tr(0) + dy * tr(1);
            Eigen::Vector3d nu = tan.cross(nn).normalized();
            f[s] = fe.evaluate(node, sp).dot(nu) / kappa;
          }
          vf::near(f[0], -f[1], 1e-8 * (1 + std::abs(f[0])), vf::cat("conormal component of dof ", d, " across patches ", e.p1, ",", e.p2));
        }
    }
  }
}
static void run(const QuadMesh &m, const std::string &tag, int P, int M, int K, bool ph = false) {
  if (!vf::begin(vf::cat(m.name, "/", tag, "/P", P, "M", M, "K", K))) return;
  one(geo::geometry(m), m, P, M, K, ph);
}
static std::string str(const std::vector<int> &v) {
  std::string s;
  for (int x : v) s += std::to_string(x);
  return s;
}
static std::vector<std::vector<int>> rots(int n, int base) {
  std::vector<std::vector<int>> out(1);
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<int>> o;
    for (auto &w : out)
      for (int k = 0; k < base; ++k) {
        o.push_back(w);
        o.back().push_back(k * 4 / base);
      }
    out = o;
  }
  return out;
}
static void allOf(const QuadMesh &m, bool perms, int rotBase, int P, int M, int K, bool ph = false) {
  std::vector<int> pm(m.npatch());
  for (size_t i = 0; i < pm.size(); ++i) pm[i] = (int)i;
  auto rs = rots(m.npatch(), rotBase);
  do {
    QuadMesh q = geo::permuted(m, pm);
    for (auto &r : rs) run(geo::rotated(q, r), "p" + str(pm) + "r" + str(r), P, M, K, ph);
  } while (perms && std::next_permutation(pm.begin(), pm.end()));
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  for (int P = 1; P <= 3; ++P) {
    for (int n = 1; n <= 3; ++n) allOf(strip(n), true, 4, P, 0, 1, P < 3);
    allOf(star(3), true, 4, P, 0, 1);
    allOf(pillow(), true, 4, P, 0, 1, P < 3);
    allOf(lshape(), true, 4, P, 0, 1);
    allOf(ring(3), true, 4, P, 0, 1);
    allOf(vertexTouch(), true, 4, P, 0, 1);
    allOf(apart(), true, 4, P, 0, 1);
  }
  for (int P = 1; P <= 2; ++P) {
    allOf(star(4), true, 4, P, 0, 1);
    allOf(star(5), true, th ? 4 : 2, P, 0, 1);
    allOf(cube(), true, 1, P, 0, 1);
    allOf(cube(), false, 4, P, 0, 1);
    if (th) allOf(cube(), true, 2, P, 0, 1);
    allOf(torus(3, 3), false, 2, P, 0, 1);
  }
  for (int P = 1; P <= (th ? 6 : 4); ++P)
    for (int M = 0; M <= (th ? 3 : 2); ++M)
      for (int K = 1; K <= P; ++K) {
        if (M == 0 && K > 1) continue;
        if ((P + K) * (1 << M) > (th ? 28 : 14)) continue;
        allOf(strip(2), true, 4, P, M, K, (P + K) * (1 << M) <= 6);
        if ((P + K) * (1 << M) <= 10) allOf(star(3), false, th ? 4 : 2, P, M, K);
        if ((P + K) * (1 << M) <= 10) allOf(curved(weighted(strip(2))), false, 4, P, M, K, (P + K) * (1 << M) <= 6);
        if ((P + K) * (1 << M) <= 8 || th) {
          QuadMesh c = cube();
          run(c, "id", P, M, K);
          run(rotated(c, {0, 1, 2, 3, 1, 2}), "r012312", P, M, K, (P + K) * (1 << M) <= 3);
          run(permuted(c, {5, 0, 3, 1, 4, 2}), "p503142", P, M, K);
        }
      }
  for (auto &n : shipped()) {
    if (!th && (n == "tesla_9_cell" || n == "platewithholes")) continue;
    Bembel::Geometry g(std::string(REPO_DIR) + "/geo/" + n + ".dat");
    QuadMesh m = meshOf(g.get_geometry(), n);
    for (int P = 1; P <= (m.npatch() < 20 ? 2 : 1); ++P)
      for (int M = 0; M <= (m.npatch() < 10 ? 1 : 0); ++M)
        if (vf::begin(vf::cat("shipped/", n, "/P", P, "M", M))) one(g, m, P, M, 1, m.npatch() < 7 && P == 1);
  }
  return vf::finish();
}
