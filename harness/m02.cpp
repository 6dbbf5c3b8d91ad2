// M02: the reported patch topology is right for every numbering, rotation and
// position of the patches; derived labels agree with it.
#include <Eigen/Dense>
#include <Bembel/ClusterTree>
#include <Bembel/Geometry>
#include <map>
#include <numeric>
#include "asp.hpp"
#include "geo.hpp"
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
using asp::Edge;
typedef std::array<int, 4> A4;
static std::vector<A4> expected(const geo::QuadMesh &m) {
  std::vector<A4> r;
  for (auto &e : asp::edges(m)) {
    if (e.p2 < 0)
      r.push_back(A4{{e.p1, -1, e.e1, -1}});
    else if (e.p1 < e.p2)
      r.push_back(A4{{e.p1, e.p2, e.e1, e.e2}});
    else
      r.push_back(A4{{e.p2, e.p1, e.e2, e.e1}});
  }
  std::sort(r.begin(), r.end());
  return r;
}
static std::string str(const std::vector<A4> &v) {
  std::string s;
  for (auto &a : v) s += cat("(", a[0], ",", a[1], ",", a[2], ",", a[3], ")");
  return s;
}
static void run(const geo::QuadMesh &m, const Geometry &g, int maxLevel) {
  auto exp = expected(m);
  const int NP = m.npatch();
  // who is behind edge e of patch p (-1: nobody)
  std::vector<A4> behind(NP, A4{{-1, -1, -1, -1}});
  for (auto &e : exp)
    if (e[1] >= 0) {
      behind[e[0]][e[2]] = e[1];
      behind[e[1]][e[3]] = e[0];
    }
  for (int L = 0; L <= maxLevel; ++L) {
    ClusterTree ct(g, L);
    ct.checkOrientation();
    ElementTree &et = ct.get_element_tree();
    auto got = et.patchTopologyInfo();
    vf::step(got.size());
    std::sort(got.begin(), got.end());
    vf::check(got == exp, cat("level ", L, ": topology ", str(got), " expected ", str(exp)));
    if (vf::failed()) return;
    const int n = 1 << L, NE = NP * n * n;
    vf::check(et.get_number_of_elements() == NE, "number of elements");
    // points: V + (n-1) E + (n-1)^2 F
    const int V = asp::usedVertices(m), E = (int)exp.size();
    vf::check(et.get_number_of_points() == V + (n - 1) * E + (n - 1) * (n - 1) * NP, cat("level ", L, ": number of points ", et.get_number_of_points()));
    Eigen::VectorXi lab = et.generatePatchBoundaryLabels(), ord = et.generateElementLabels();
    std::vector<int> re = et.computeReorderingVector();
    vf::check(lab.size() == NE && (int)re.size() == NE && ord.size() == NE, "sizes of labels");
    if (vf::failed()) return;
    std::vector<Eigen::VectorXi> idp;
    for (int p = 0; p < NP; ++p) idp.push_back(et.identifyPatch(p));
    std::vector<int> seen(NE, 0);
    int pos = 0;
    for (auto it = et.pbegin(); it != et.pend(); ++it, ++pos) {
      vf::step(4);
      int ix = (int)std::lround(it->llc_(0) * n), iy = (int)std::lround(it->llc_(1) * n), p = it->patch_;
      bool on[4] = {iy == 0, ix == n - 1, iy == n - 1, ix == 0};
      int cnt = 0;
      bool free = false;
      for (int e = 0; e < 4; ++e) {
        if (on[e] && behind[p][e] < 0) free = true;
        if (on[e] && behind[p][e] >= 0) ++cnt;
        const ElementTreeNode *a = it->adjcents_[e];
        int want = on[e] ? behind[p][e] : p;
        if (want < 0 ? a != nullptr : (a == nullptr || a->patch_ != want)) vf::fail(cat("level ", L, " element ", pos, ": wrong neighbour at edge ", e));
      }
      if (lab(pos) != (free ? -1 : cnt)) vf::fail(cat("level ", L, " element ", pos, ": boundary label ", lab(pos), " expected ", free ? -1 : cnt));
      for (int q = 0; q < NP; ++q)
        if (idp[q](pos) != (q == p)) vf::fail(cat("identifyPatch(", q, ") of element ", pos, " of patch ", p));
      int tp = (p * n + iy) * n + ix;
      if (re[tp] != it->id_) vf::fail(cat("reordering vector at ", tp));
      if (it->id_ != pos) vf::fail(cat("element ", pos, " has id ", it->id_));
      ++seen[re[tp]];
      if (ord(pos) != NP * ((n * n - 1) / 3) + pos) vf::fail(cat("element label ", ord(pos)));
    }
    vf::check(pos == NE && std::count(seen.begin(), seen.end(), 1) == NE, "every element occurs once");
    if (vf::failed()) return;
  }
}
static void go(const geo::QuadMesh &m, const std::string &id, int maxLevel = 1) {
  if (!vf::begin(m.name + "/" + id)) return;
  vf::state(vf::hstr(vf::ctx().id));
  run(m, geo::geometry(m), maxLevel);
}
static std::string rs(const std::vector<int> &r) {
  std::string s;
  for (int x : r) s += char(x < 10 ? '0' + x : 'a' + x - 10);
  return s;
}
static void rotations(const geo::QuadMesh &m, bool perms, int step, int maxLevel) {
  const int n = m.npatch(), base = 4 / step;
  std::vector<int> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  do {
    geo::QuadMesh mp = geo::permuted(m, perm);
    long tot = 1;
    for (int i = 0; i < n; ++i) tot *= base;
    for (long k = 0; k < tot; ++k) {
      std::vector<int> r;
      long x = k;
      for (int i = 0; i < n; ++i, x /= base) r.push_back(step * (x % base));
      go(geo::rotated(mp, r), rs(perm) + "/" + rs(r), maxLevel);
    }
  } while (perms && std::next_permutation(perm.begin(), perm.end()));
}
static void orders(const geo::QuadMesh &m, int maxLevel) {
  std::vector<int> perm(m.npatch());
  std::iota(perm.begin(), perm.end(), 0);
  do go(geo::permuted(m, perm), rs(perm), maxLevel);
  while (std::next_permutation(perm.begin(), perm.end()));
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  // every order and rotation of small meshes
  for (const QuadMesh &m : {square(), strip(2), strip(3), apart(), vertexTouch(), lshape(), star(3), ring(3)}) rotations(m, true, 1, 2);
  rotations(star(4), true, 1, 1);
  rotations(grid(2, 2), true, th ? 1 : 2, 1);
  rotations(star(5), true, th ? 1 : 2, 1);
  rotations(cube(), th, th ? 2 : 1, 1);
  rotations(star(6), th, 2, 1);
  rotations(twostar(5, 5), false, 2, 1);
  rotations(torus(3, 3), false, 2, 0);
  if (th) rotations(twostar(4, 5), false, 1, 0);
  // every order of larger meshes
  for (const QuadMesh &m : {star(6), cube(), star(7), grid(3, 2)}) orders(m, m.npatch() > 6 ? 0 : 2);
  if (th) orders(twostar(5, 5), 0);
  // deep meshes
  for (const QuadMesh &m : {cube(), curved(star(5)), weighted(torus(3, 4)), grid(3, 3), curved(weighted(cube()))}) go(m, "deep", th ? 5 : 4);
  // every position: any corner, edge mid point or centre at the origin, far away, small, large
  for (const QuadMesh &m0 : {square(), strip(2), strip(3), lshape(), star(3), star(5), grid(2, 2), cube(), ring(3), torus(3, 3), curved(cube()), weighted(star(4))}) {
    auto at = [&](const V3 &c, const std::string &w) {
      const int n = m0.npatch();
      long tot = n <= 3 ? 1L << (2 * n) : 4;
      for (long k = 0; k < tot; ++k) {
        std::vector<int> r(n, (int)k);
        if (n <= 3)
          for (int i = 0; i < n; ++i) r[i] = (k >> (2 * i)) & 3;
        for (int rev = 0; rev < 2; ++rev) {
          std::vector<int> p(n);
          for (int i = 0; i < n; ++i) p[i] = rev ? n - 1 - i : i;
          go(rotated(permuted(shifted(m0, -c), p), r), cat("at/", w, "/", rs(p), "/", rs(r)), 0);
        }
      }
    };
    for (size_t i = 0; i < m0.v.size(); ++i) at(m0.v[i], cat("v", i));
    PatchVector pv = patches(m0);
    for (int p = 0; p < m0.npatch(); ++p) {
      for (int e = 0; e < 4; ++e) {
        auto x = asp::onEdge(e, .5);
        at(pv[p].eval(x(0), x(1)), cat("e", p, ".", e));
      }
      at(pv[p].eval(.5, .5), cat("c", p));
    }
    int k = 0;
    for (double s : {1e-3, 1e-2, 1., 50., 1e3})
      for (V3 d : {V3(0, 0, 0), V3(10, -3, 2), V3(-200, 100, 50)}) {
        QuadMesh m = shifted(m0, d, s);
        go(m, cat("scale/", s, "/", k++ % 3), 2);
      }
  }
  // shipped geometries
  for (auto &n : shipped()) {
    if (!vf::begin("shipped/" + n)) continue;
    vf::state(vf::hstr(vf::ctx().id));
    Geometry g(cat(REPO_DIR, "/geo/", n, ".dat"));
    run(meshOf(g.get_geometry(), n), g, g.get_number_of_patches() > 60 ? 0 : 2);
  }
  return vf::finish();
}
