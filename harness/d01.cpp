// D01: classification of element pairs and alignment rotations.
#include <Bembel/DuffyTrick>
#include <Bembel/Geometry>
#include <Bembel/AnsatzSpace>
#include <numeric>
#include <set>
#include "asp.hpp"
using namespace Bembel;
using vf::cat;
struct Pts {
  std::vector<Eigen::Vector3d> p;
  int id(const Eigen::Vector3d &x) {
    for (size_t i = 0; i < p.size(); ++i)
      if ((p[i] - x).norm() < 1e-7) return (int)i;
    p.push_back(x);
    return (int)p.size() - 1;
  }
};
static std::map<int, long> kinds;
static void run(const PatchVector &pv, const Geometry &g, int L, bool sampleDist) {
  ClusterTree ct(g, L);
  const ElementTree &et = ct.get_element_tree();
  std::vector<const ElementTreeNode *> el;
  std::vector<std::array<int, 4>> cor;
  std::vector<std::vector<Eigen::Vector3d>> smp;
  Pts pts;
  const int n = 1 << L;
  const double X[4] = {0, 1, 1, 0}, Y[4] = {0, 0, 1, 1};
  auto at = [&](const ElementTreeNode &e, double a, double b) { return pv[e.patch_].eval(e.llc_(0) + a / n, e.llc_(1) + b / n); };
  for (auto it = et.cpbegin(); it != et.cpend(); ++it) {
    el.push_back(std::addressof(*it));
    std::array<int, 4> c;
    for (int k = 0; k < 4; ++k) c[k] = pts.id(at(*it, X[k], Y[k]));
    cor.push_back(c);
    smp.push_back({});
    if (sampleDist)
      for (int i = 0; i <= 4; ++i)
        for (int j = 0; j <= 4; ++j) smp.back().push_back(at(*it, i / 4., j / 4.));
  }
  for (size_t i = 0; i < el.size(); ++i)
    for (size_t j = 0; j < el.size(); ++j) {
      vf::step();
      double d = -1;
      auto cp = DuffyTrick::compareElements(*el[i], *el[j], &d);
      std::vector<int> common;
      for (int a : cor[i])
        for (int b : cor[j])
          if (a == b) common.push_back(a);
      auto bad = [&](const std::string &s) {
        vf::fail(cat("level ", L, " elements ", i, ",", j, " (", common.size(), " common corners): reported ", cp(0), ",", cp(1), ",", cp(2), " distance ", d, ": ", s));
      };
      ++kinds[cp(2)];
      auto same = [&](Eigen::Vector2d a, Eigen::Vector2d b) { return (at(*el[i], a(0), a(1)) - at(*el[j], b(0), b(1))).norm() < 1e-8; };
      if (i == j) {
        if (cp(2) != 2 || !(d >= 0 && d < 1e-10)) bad("expected identical");
      } else if (common.size() == 2) {
        if (cp(2) != 3 || !(d >= 0 && d < 1e-10)) {
          bad("expected common edge");
          continue;
        }
        if (cp(0) < 0 || cp(0) > 3 || cp(1) < 0 || cp(1) > 3) {
          bad("rotations out of range");
          continue;
        }
        for (double t : {0., .3, .5, 1.})
          if (!same(DuffyTrick::tau(t, 0, cp(0)), DuffyTrick::tau(1 - t, 0, cp(1)))) bad(cat("edges are not aligned at ", t));
      } else if (common.size() == 1) {
        if (cp(2) != 4 || !(d >= 0 && d < 1e-10)) {
          bad("expected common vertex");
          continue;
        }
        if (cp(0) < 0 || cp(0) > 3 || cp(1) < 0 || cp(1) > 3 || !same(DuffyTrick::tau(0, 0, cp(0)), DuffyTrick::tau(0, 0, cp(1)))) bad("vertices are not aligned");
      } else if (common.empty()) {
        if (cp(2) != 0) bad("expected regular");
        if (!(d >= 0)) bad("negative distance");
        double d2 = -1;
        DuffyTrick::compareElements(*el[j], *el[i], &d2);
        if (std::abs(d - d2) > 1e-12 * (1 + d)) bad(cat("distance is not symmetric: ", d2));
        if (sampleDist) {
          double m = 1e300, diam = 0;
          for (auto &a : smp[i])
            for (auto &b : smp[j]) m = std::min(m, (a - b).norm());
          for (int k : {0, 2})
            diam = std::max({diam, (smp[i][0] - smp[i][24]).norm(), (smp[j][0] - smp[j][24]).norm(), (smp[i][4] - smp[i][20]).norm(), (smp[j][4] - smp[j][20]).norm()});
          if (d > m * (1 + 1e-9)) bad(cat("distance exceeds the real one ", m));
          if (d < m - 2 * diam) bad(cat("distance far below the real one ", m));
        }
      } else {
        bad("harness: unexpected number of common corners");
      }
      if (vf::failed()) return;
    }
  // tau is the rotation by quarter turns of the square
  for (int r = 0; r < 4; ++r)
    for (double x : {0., .2, .9})
      for (double y : {.1, 1.}) {
        Eigen::Vector2d p(x, y);
        for (int k = 0; k < r; ++k) p = Eigen::Vector2d(1 - p(1), p(0));
        if ((DuffyTrick::tau(x, y, r) - p).norm() > 1e-15) vf::fail("tau");
      }
}
static void go(const geo::QuadMesh &m, const std::string &id, int L, bool smp = true) {
  if (!vf::begin(cat(m.name, "/", id, "/L", L))) return;
  vf::state(vf::hstr(vf::ctx().id));
  Geometry g = geo::geometry(m);
  run(geo::patches(m), g, L, smp);
}
static std::string rs(const std::vector<int> &r) {
  std::string s;
  for (int x : r) s += char('0' + x);
  return s;
}
static void all(const geo::QuadMesh &m, bool perms, int base, int L) {
  const int n = m.npatch();
  std::vector<int> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  do {
    long tot = 1;
    for (int i = 0; i < n; ++i) tot *= base;
    for (long k = 0; k < tot; ++k) {
      std::vector<int> r;
      long x = k;
      for (int i = 0; i < n; ++i, x /= base) r.push_back(4 / base * (x % base));
      go(geo::rotated(geo::permuted(m, perm), r), rs(perm) + "/" + rs(r), L);
    }
  } while (perms && std::next_permutation(perm.begin(), perm.end()));
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  for (const QuadMesh &m : {square(), strip(2), strip(3), apart(), apart(.1), vertexTouch(), lshape(), star(3), ring(3)})
    for (int L = 0; L <= (m.npatch() < 3 ? 3 : th ? 2 : 1); ++L) all(m, true, 4, L);
  all(star(4), true, 4, 0);
  all(star(5), true, th ? 4 : 2, 0);
  all(cube(), th, 4, 0);
  if (th) all(cube(), false, 4, 1);
  all(cube(), false, 2, 1);
  all(grid(2, 2), true, 2, 1);
  all(ring(4), true, 2, 0);
  for (const QuadMesh &m : {skewquad(), curved(cube()), weighted(star(6)), torus(3, 4), twostar(5, 5), curved(weighted(torus(4, 4)), .05), shifted(cube(), V3(100, -30, 7), 8), shifted(curved(star(5)), V3(-.3, .1, 0), .02)})
    for (int L = 0; L <= (m.npatch() > 9 ? 1 : 2) + th; ++L) go(m, "id", L, m.npatch() << (2 * L) < 200);
  for (auto &n : shipped())
    for (int L = 0; L <= 1 + th; ++L) {
      Geometry g(cat(REPO_DIR, "/geo/", n, ".dat"));
      if (g.get_number_of_patches() << (2 * L) > (th ? 1200 : 400)) continue;
      if (!vf::begin(cat("shipped/", n, "/L", L))) continue;
      vf::state(vf::hstr(vf::ctx().id));
      run(g.get_geometry(), g, L, g.get_number_of_patches() << (2 * L) < 200);
    }
  for (auto &k : kinds) vf::ctx().extra[cat("pairs of kind ", k.first)] = k.second;
  return vf::finish();
}
