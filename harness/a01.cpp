// A01: continuous ansatz spaces over all patch numberings and rotations.
#include "asp.hpp"
using namespace asp;
static void one(const Bembel::Geometry &g, const QuadMesh &m, int P, int M, int K) {
  Bembel::AnsatzSpace<OpC> as(g, M, P, K);
  const auto &ss = as.get_superspace();
  Elements<OpC> el(ss);
  const int n1 = P + 1 + K * ((1 << M) - 1);
  auto ed = edges(m);
  const int F = m.npatch(), E = (int)ed.size(), V = usedVertices(m);
  const int dim = V + E * (n1 - 2) + F * (n1 - 2) * (n1 - 2);
  RowMat T = RowMat(Eigen::MatrixXd(as.get_transformation_matrix()));
  vf::check(as.get_number_of_dofs() == T.cols(), "get_number_of_dofs");
  vf::check(T.cols() == dim, vf::cat("number of dofs ", T.cols(), " but the continuous spline space has dimension ", dim));
  vf::check(T.rows() == el.nel * el.pp, "number of rows");
  if (vf::failed()) return;
  vf::state(vf::hstr(vf::ctx().id));
  // single valued across every shared edge, including its end points
  for (auto &e : ed) {
    if (e.p2 < 0) continue;
    for (int k = 0; k < el.n; ++k)
      for (int i = 0; i <= P; ++i) {
        double t = (k + double(i) / P) / el.n;
        Eigen::RowVectorXd d = apply(T, el.stencil(e.p1, onEdge(e.e1, t), 0)) - apply(T, el.stencil(e.p2, onEdge(e.e2, 1 - t), 0));
        vf::near(d.cwiseAbs().maxCoeff(), 0., 1e-9, vf::cat("jump across patches ", e.p1, ",", e.p2, " t=", t));
      }
  }
  // ... and in every corner shared by patches (also without a common edge chain)
  for (int p = 0; p < F; ++p)
    for (int q = 0; q < p; ++q)
      for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b)
          if (m.q[p][a] == m.q[q][b]) {
            Eigen::RowVectorXd d = apply(T, el.stencil(p, onEdge(a, 0), 0)) - apply(T, el.stencil(q, onEdge(b, 0), 0));
            vf::near(d.cwiseAbs().maxCoeff(), 0., 1e-9, vf::cat("jump at corner of patches ", p, ",", q));
          }
  // continuous across element edges inside the patches
  if (M > 0)
    for (int p = 0; p < F; ++p)
      for (int k = 1; k < el.n; ++k)
        for (int j = 0; j < el.n; ++j)
          for (int i = 0; i <= P; ++i) {
            double t = (j + double(i) / P) / el.n, s = double(k) / el.n;
            Eigen::RowVectorXd d = apply(T, el.stencil(p, {s, t}, 0, k - 1, j)) - apply(T, el.stencil(p, {s, t}, 0, k, j));
            vf::near(d.cwiseAbs().maxCoeff(), 0., 1e-9, "jump inside a patch (x)");
            d = apply(T, el.stencil(p, {t, s}, 0, j, k - 1)) - apply(T, el.stencil(p, {t, s}, 0, j, k));
            vf::near(d.cwiseAbs().maxCoeff(), 0., 1e-9, "jump inside a patch (y)");
          }
  // independent, and the constants are contained as the sum of all functions
  vf::check(rankGap(T) > 1e-9, "degrees of freedom are linearly dependent");
  Eigen::VectorXd one = T * Eigen::VectorXd::Ones(T.cols());
  vf::near((one.array() - 1).abs().maxCoeff(), 0., 1e-9, "basis is no partition of unity");
  vf::step(T.cols());
}
static void run(const QuadMesh &m, const std::string &tag, int P, int M, int K) {
  if (!vf::begin(vf::cat(m.name, "/", tag, "/P", P, "M", M, "K", K))) return;
  one(geo::geometry(m), m, P, M, K);
}
static std::string str(const std::vector<int> &v) {
  std::string s;
  for (int x : v) s += std::to_string(x);
  return s;
}
static std::vector<std::vector<int>> rots(int n, int base) {  // all words over 0..base-1
  std::vector<std::vector<int>> out(1);
  for (int i = 0; i < n; ++i) {
    std::vector<std::vector<int>> o;
    for (auto &w : out)
      for (int k = 0; k < base; ++k) {
        o.push_back(w);
        o.back().push_back(k * 4 / base);
      }
    out = o;
  }
  return out;
}
// all orders of the patches of a mesh without symmetry breaking start: patch 0 stays first
static void allButFirst(const QuadMesh &m, int P) {
  std::vector<int> pm(m.npatch());
  for (size_t i = 0; i < pm.size(); ++i) pm[i] = (int)i;
  do {
    run(geo::permuted(m, pm), "p" + str(pm), P, 0, 1);
  } while (std::next_permutation(pm.begin() + 1, pm.end()));
}
static void allOf(const QuadMesh &m, bool perms, int rotBase, int P, int M, int K, const std::string &tag = "") {
  std::vector<int> pm(m.npatch());
  for (size_t i = 0; i < pm.size(); ++i) pm[i] = (int)i;
  auto rs = rots(m.npatch(), rotBase);
  do {
    QuadMesh q = geo::permuted(m, pm);
    for (auto &r : rs) run(geo::rotated(q, r), tag + "p" + str(pm) + "r" + str(r), P, M, K);
  } while (perms && std::next_permutation(pm.begin(), pm.end()));
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  // every numbering and rotation, lowest degree
  for (int P = 1; P <= (th ? 3 : 2); ++P) {
    for (int n = 1; n <= 3; ++n) allOf(strip(n), true, 4, P, 0, 1);
    allOf(star(3), true, 4, P, 0, 1);
    allOf(pillow(), true, 4, P, 0, 1);
    allOf(lshape(), true, 4, P, 0, 1);
    allOf(ring(3), true, 4, P, 0, 1);
    allOf(apart(), true, 4, P, 0, 1);
  }
  allOf(star(4), true, th ? 4 : 2, 1, 0, 1);
  allOf(star(4), false, 4, 1, 0, 1);
  allOf(ring(4), true, 2, 1, 0, 1);
  allOf(star(5), true, th ? 2 : 1, 1, 0, 1);
  allOf(star(6), true, 1, 1, 0, 1);
  if (th) allOf(star(7), true, 1, 1, 0, 1);
  allOf(cube(), true, 1, 1, 0, 1);
  allOf(cube(), false, th ? 4 : 2, 1, 0, 1);
  allOf(torus(3, 3), false, 1, 1, 0, 1);
  allOf(grid(2, 2), true, 2, 2, 0, 1);
  allOf(grid(2, 3), true, 1, 1, 0, 1);
  allOf(grid(2, 3), true, 1, 2, 0, 1);
  allOf(grid(2, 4), true, 1, 1, 0, 1);
  allButFirst(torus(3, 3), 1);  // up to translation every order
  for (int c = 0; c < 4; ++c)
    allOf(rotated(twostar(5, 5), std::vector<int>(8, c)), true, 1, 1, 0, 1, vf::cat("c", c));
  if (th) allOf(torus(3, 3), false, 2, 1, 0, 1);
  // degrees, levels, repetitions
  for (int P = 1; P <= (th ? 6 : 4); ++P)
    for (int M = 0; M <= (th ? 3 : 2); ++M)
      for (int K = 1; K <= P; ++K) {
        if (M == 0 && K > 1) continue;
        if ((P + K) * (1 << M) > (th ? 40 : 22)) continue;
        allOf(strip(2), true, 4, P, M, K);
        if ((P + K) * (1 << M) <= 12) allOf(star(3), false, th ? 4 : 2, P, M, K);
        if ((P + K) * (1 << M) <= 12) allOf(curved(weighted(star(4))), false, 1, P, M, K);
        if ((P + K) * (1 << M) <= 8 || th) {
          QuadMesh c = cube();
          run(c, "id", P, M, K);
          run(rotated(c, {0, 1, 2, 3, 1, 2}), "r012312", P, M, K);
          run(permuted(c, {5, 0, 3, 1, 4, 2}), "p503142", P, M, K);
          run(torus(3, 3), "id", P, M, K);
        }
      }
  for (auto &n : shipped()) {
    if (!th && (n == "tesla_9_cell" || n == "platewithholes")) continue;
    Bembel::Geometry g(std::string(REPO_DIR) + "/geo/" + n + ".dat");
    QuadMesh m = meshOf(g.get_geometry(), n);
    for (int P = 1; P <= (m.npatch() < 20 ? 2 : 1); ++P)
      for (int M = 0; M <= (m.npatch() < 10 ? 1 : 0); ++M)
        if (vf::begin(vf::cat("shipped/", n, "/P", P, "M", M))) one(g, m, P, M, 1);
  }
  return vf::finish();
}
