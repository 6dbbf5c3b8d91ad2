// M01: every history of uniform / patch-wise refinements (and re-initialisation)
// yields a consistent, linked, conforming tree.
#include <Eigen/Dense>
#include <Bembel/ClusterTree>
#include <Bembel/Geometry>
#include <map>
#include <set>
#include "geo.hpp"
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
typedef const ElementTreeNode *NP;
struct Key {
  int p, l, i, j;
  bool operator<(const Key &o) const { return std::tie(p, l, i, j) < std::tie(o.p, o.l, o.i, o.j); }
  bool operator==(const Key &o) const { return std::tie(p, l, i, j) == std::tie(o.p, o.l, o.i, o.j); }
};
static Key keyOf(NP n) {
  int N = 1 << n->level_;
  return {n->patch_, n->level_, (int)std::lround(n->llc_(0) * N), (int)std::lround(n->llc_(1) * N)};
}
// children of a cell in the documented (counter clockwise) order
static const int CX[4] = {0, 1, 1, 0}, CY[4] = {0, 0, 1, 1};
static void leavesOf(Key k, int lv, std::vector<Key> *out) {
  if (k.l == lv) {
    out->push_back(k);
    return;
  }
  for (int c = 0; c < 4; ++c) leavesOf({k.p, k.l + 1, 2 * k.i + CX[c], 2 * k.j + CY[c]}, lv, out);
}
struct Model {
  std::vector<int> lv;
};
static void collect(NP n, std::vector<NP> *all, std::vector<NP> *leaves) {
  all->push_back(n);
  if (n->sons_.empty()) leaves->push_back(n);
  for (auto &s : n->sons_) collect(&s, all, leaves);
}
// geometric points are identified by coordinates
struct Points {
  std::vector<Eigen::Vector3d> p;
  int id(const Eigen::Vector3d &x) {
    for (size_t i = 0; i < p.size(); ++i)
      if ((p[i] - x).norm() < 1e-7) return (int)i;
    p.push_back(x);
    return (int)p.size() - 1;
  }
};
static Eigen::Vector3d corner(const PatchVector &g, const Key &k, int c) {
  double h = 1. / (1 << k.l);
  return g[k.p].eval(h * (k.i + CX[c]), h * (k.j + CY[c]));
}
static bool ballIn(const Eigen::Vector3d &m, double r, const Eigen::Vector3d &M, double R) {
  return (m - M).norm() + r <= R * (1 + 1e-10) + 1e-12;
}
static void validate(ElementTree &et, const geo::QuadMesh &m, const Model &mod, const std::string &h) {
  PatchVector g = geo::patches(m);
  int NPAT = m.npatch();
  // expected leaves in hierarchical order
  std::vector<Key> exp;
  int maxl = 0;
  for (int p = 0; p < NPAT; ++p) {
    leavesOf({p, 0, 0, 0}, mod.lv[p], &exp);
    maxl = std::max(maxl, mod.lv[p]);
  }
  int NE = exp.size();
  auto E = [&](bool ok, const std::string &s) { vf::check(ok, s + " after " + h); };
  E(et.get_number_of_elements() == NE, cat("number of elements ", et.get_number_of_elements(), " expected ", NE));
  E(et.get_max_level() == maxl, cat("max level ", et.get_max_level(), " expected ", maxl));
  E((int)et.root().sons_.size() == NPAT, "number of patches");
  if (vf::failed()) return;
  // global enumeration
  std::vector<NP> seq;
  for (auto it = et.pbegin(); it != et.pend(); ++it) {
    seq.push_back(&*it);
    if ((int)seq.size() > NE) break;
  }
  E((int)seq.size() == NE, cat("enumeration visits ", seq.size(), " elements, expected ", NE));
  if (vf::failed()) return;
  for (int i = 0; i < NE; ++i) {
    E(keyOf(seq[i]) == exp[i], cat("element ", i, " is not the expected cell"));
    E(seq[i]->sons_.empty(), "enumerated element has sons");
    E(seq[i]->next_ == (i + 1 < NE ? seq[i + 1] : nullptr), "next link");
    E(seq[i]->prev_ == (i ? seq[i - 1] : nullptr), cat("prev link of element ", i));
  }
  if (vf::failed()) return;
  int k = 0;
  for (auto it = et.cpbegin(); it != et.cpend(); ++it) ++k;
  E(k == NE, "const enumeration");
  // tree structure
  std::vector<NP> all, leaves;
  for (auto &s : et.root().sons_) collect(&s, &all, &leaves);
  E((int)leaves.size() == NE, "leaves of the tree");
  std::map<Key, NP> byKey;
  std::set<std::pair<int, int>> ids;
  for (NP n : all) {
    Key q = keyOf(n);
    E(byKey.emplace(q, n).second, "two nodes for the same cell");
    E(ids.insert({n->level_, n->id_}).second, "two nodes with the same level and id");
    E(std::abs(n->get_h() * (1 << n->level_) - 1) < 1e-15 && n->get_level() == n->level_, "mesh width");
    E((n->referenceMidpoint() - n->llc_ - Eigen::Vector2d::Constant(.5 * n->get_h())).norm() < 1e-14, "reference midpoint");
    E(n->sons_.empty() || n->sons_.size() == 4, "number of sons");
    for (size_t c = 0; c < n->sons_.size(); ++c) {
      Key s = keyOf(&n->sons_[c]);
      E(s == Key({q.p, q.l + 1, 2 * q.i + CX[c], 2 * q.j + CY[c]}), "son covers the wrong quarter");
      E(n->sons_[c].id_ == 4 * n->id_ + (int)c, "id of son");
    }
    // per cluster enumeration = leaves below it, in order
    std::vector<NP> a2, l2;
    collect(n, &a2, &l2);
    size_t pos = 0;
    for (auto it = n->begin(); it != n->end() && pos <= l2.size(); ++it, ++pos) E(pos < l2.size() && &*it == l2[pos], "cluster enumeration");
    E(pos == l2.size(), "cluster enumeration is incomplete");
    pos = 0;
    for (auto it = et.cluster_begin(*n); it != et.cluster_end(*n) && pos <= l2.size(); ++it) ++pos;
    E(pos == l2.size(), "cluster_begin/cluster_end");
    E(&n->front() == l2.front() && &n->back() == l2.back(), "front/back");
    // mapping to the element
    Eigen::Vector2d x = n->llc_ + n->get_h() * Eigen::Vector2d(.25, .75);
    E((n->mapToReferenceElement(x) - Eigen::Vector2d(.25, .75)).norm() < 1e-12, "mapToReferenceElement");
    if (vf::failed()) return;
  }
  for (int p = 0; p < NPAT; ++p) E(et.root().sons_[p].id_ == p && et.root().sons_[p].patch_ == p, "patch ids");
  // vertex numbers <-> points
  Points pts;
  std::map<int, int> v2p, p2v;
  std::set<int> used;
  std::map<Key, std::array<int, 4>> cp;
  for (NP n : all) {
    Key q = keyOf(n);
    E(n->vertices_.size() == 4, "four vertices");
    if (vf::failed()) return;
    for (int c = 0; c < 4; ++c) {
      int pid = pts.id(corner(g, q, c)), v = n->vertices_[c];
      cp[q][c] = pid;
      used.insert(v);
      auto a = v2p.emplace(v, pid);
      E(a.first->second == pid, cat("vertex number ", v, " denotes two different points"));
      auto b = p2v.emplace(pid, v);
      E(b.first->second == v, cat("one point carries the vertex numbers ", v, " and ", b.first->second));
    }
    if (vf::failed()) return;
  }
  E(et.get_number_of_points() == (int)pts.p.size(), cat("number of points ", et.get_number_of_points(), " expected ", pts.p.size()));
  E((int)used.size() == (int)pts.p.size() && *used.begin() == 0 && *used.rbegin() == (int)pts.p.size() - 1, "vertex numbers are not 0..n-1");
  if (vf::failed()) return;
  // neighbours: exactly the equally fine cells sharing an edge
  std::map<std::tuple<int, int, int>, std::vector<std::pair<NP, int>>> edges;
  for (NP n : all)
    for (int e = 0; e < 4; ++e) {
      int a = cp[keyOf(n)][e], b = cp[keyOf(n)][(e + 1) % 4];
      edges[std::make_tuple(n->level_, std::min(a, b), std::max(a, b))].push_back({n, e});
    }
  for (auto &x : edges) {
    auto &v = x.second;
    E(v.size() <= 2, "edge shared by more than two cells (bad test geometry)");
    for (size_t a = 0; a < v.size(); ++a) {
      NP n = v[a].first, want = v.size() == 2 ? v[1 - a].first : nullptr;
      E(n->adjcents_.size() == 4, "four neighbour slots");
      if (vf::failed()) return;
      NP got = n->adjcents_[v[a].second];
      E(got == want, cat("neighbour across edge ", v[a].second, " of cell (", n->patch_, ",", n->level_, ",", n->id_, ") is ",
                         got ? cat("(", got->patch_, ",", got->level_, ",", got->id_, ")") : "none", ", expected ",
                         want ? cat("(", want->patch_, ",", want->level_, ",", want->id_, ")") : "none"));
      if (vf::failed()) return;
    }
  }
  // generated lists
  Eigen::VectorXi cnt;
  Eigen::MatrixXd P = et.generatePointList(&cnt), P2 = et.generatePointList();
  Eigen::MatrixXi EL = et.generateElementList();
  E(P.rows() == 3 && P.cols() == (int)pts.p.size() && EL.cols() == NE && EL.rows() == 4 && cnt.size() == P.cols(), "sizes of generated lists");
  if (vf::failed()) return;
  std::vector<int> c2(P.cols(), 0);
  for (int i = 0; i < NE; ++i)
    for (int c = 0; c < 4; ++c) {
      E(EL(c, i) == seq[i]->vertices_[c], "element list");
      Eigen::Vector3d x = corner(g, exp[i], c);
      E((P.col(EL(c, i)) - x).norm() < 1e-8 && (P2.col(EL(c, i)) - x).norm() < 1e-8, cat("point list, element ", i, " corner ", c));
      ++c2[EL(c, i)];
    }
  for (int i = 0; i < P.cols(); ++i) E(cnt(i) == c2[i], "multiplicity of points");
  // labels
  Eigen::VectorXi lab = et.generateElementLabels(), bl = et.generatePatchBoundaryLabels();
  std::set<int> labs;
  for (int i = 0; i < NE; ++i) {
    E(labs.insert(lab(i)).second, "element labels are not unique");
    int expect = 0;
    bool bnd = false;
    for (int e = 0; e < 4; ++e) {
      int a = cp[exp[i]][e], b = cp[exp[i]][(e + 1) % 4];
      auto &v = edges[std::make_tuple(exp[i].l, std::min(a, b), std::max(a, b))];
      if (v.size() < 2)
        bnd = true;
      else if (v[0].first->patch_ != v[1].first->patch_)
        ++expect;
    }
    E(bl(i) == (bnd ? -1 : expect), cat("boundary label of element ", i, " is ", bl(i), " expected ", bnd ? -1 : expect));
  }
  std::set<size_t> gids;
  for (NP n : all) E(gids.insert(et.compute_global_id(*n)).second, "global ids are not unique");
  for (int p = 0; p < NPAT; ++p) {
    Eigen::VectorXi ip = et.identifyPatch(p);
    for (int i = 0; i < NE; ++i) E(ip(i) == (exp[i].p == p), "identifyPatch");
  }
  bool uniform = *std::min_element(mod.lv.begin(), mod.lv.end()) == maxl;
  if (uniform) {
    std::vector<int> ro = et.computeReorderingVector();
    int n = 1 << maxl;
    E((int)ro.size() == NE, "size of reordering vector");
    for (int i = 0; i < NE && !vf::failed(); ++i) {
      int tp = exp[i].p * n * n + exp[i].j * n + exp[i].i;
      E(ro[tp] == i && seq[i]->id_ == i, "reordering vector");
    }
  }
  // bounding balls
  Eigen::MatrixXd Q = et.computeElementEnclosings();
  E((Q - P).norm() < 1e-12, "points returned with the enclosings");
  Eigen::MatrixXd mid = et.generateMidpointList(), rad = et.generateRadiusList();
  for (int i = 0; i < NE; ++i) E((mid.col(i) - seq[i]->midpoint_).norm() == 0 && rad(i) == seq[i]->radius_, "midpoint / radius list");
  for (NP n : all) {
    if (n->sons_.empty()) {
      double diam = 0;
      for (int c = 0; c < 4; ++c) {
        E(ballIn(P.col(n->vertices_[c]), 0, n->midpoint_, n->radius_), "ball of a leaf misses a corner");
        for (int d = 0; d < c; ++d) diam = std::max(diam, (P.col(n->vertices_[c]) - P.col(n->vertices_[d])).norm());
      }
      E(n->radius_ <= 2 * diam, "ball of a leaf is far too large");
    } else {
      for (auto &s : n->sons_) E(ballIn(s.midpoint_, s.radius_, n->midpoint_, n->radius_), "ball of a cluster misses the ball of a son");
    }
  }
}
// canonical description: histories with the same refinement agree
static std::string canon(ElementTree &et) {
  std::string s;
  for (auto it = et.pbegin(); it != et.pend(); ++it) {
    s += cat(it->patch_, ".", it->level_, ".", it->id_, "|");
    for (auto *a : it->adjcents_) s += a ? cat(a->patch_, ".", a->level_, ".", a->id_, " ") : "- ";
  }
  return s + cat(et.get_number_of_points());
}
static std::map<std::string, std::string> seen;  // (mesh, levels) -> canon
struct Op {
  int kind, arg;
};  // 0 uniform, 1 patch, 2 re-init level, 3 recursion on root
static void runHistory(const geo::QuadMesh &m, const std::string &tag, int M, const std::vector<Op> &ops, int cap) {
  std::string h = cat("init(", M, ")");
  for (auto &o : ops) h += o.kind == 0 ? " U" : o.kind == 1 ? cat(" P", o.arg) : o.kind == 2 ? cat(" I", o.arg) : " R";
  // bound on the size
  Model mod;
  mod.lv.assign(m.npatch(), M);
  auto apply = [&](const Op &o) {
    for (int p = 0; p < m.npatch(); ++p) {
      if (o.kind == 0 || o.kind == 3 || (o.kind == 1 && o.arg == p)) ++mod.lv[p];
      if (o.kind == 2) mod.lv[p] = o.arg;
    }
  };
  for (auto &o : ops) {
    apply(o);
    for (int x : mod.lv)
      if (x > cap) return;
  }
  if (!vf::begin(cat(tag, ":", h))) return;
  Geometry G = geo::geometry(m);
  ElementTree et(G, M);
  for (auto &o : ops) {
    if (o.kind == 0) et.refineUniformly();
    if (o.kind == 1) et.refinePatch(o.arg);
    if (o.kind == 2) et.init_ElementTree(G, o.arg);
    if (o.kind == 3) et.refineUniformly_recursion(et.root());
    vf::step();
  }
  validate(et, m, mod, h);
  if (vf::failed()) return;
  std::string key = tag;
  for (int x : mod.lv) key += cat(".", x);
  vf::state(vf::hstr(key));
  auto r = seen.emplace(key, canon(et));
  vf::check(r.first->second == canon(et), "a history with the same refinement gave a different mesh: " + h);
  // the cluster tree built in one go agrees as well
  bool uni = true;
  for (int x : mod.lv) uni = uni && x == mod.lv[0];
  if (uni) {
    ClusterTree ct(G, mod.lv[0]);
    vf::check(canon(ct.get_element_tree()) == canon(et), "ClusterTree of the same level differs: " + h);
    vf::check(ct.get_max_level() == mod.lv[0] && ct.get_number_of_elements() == et.get_number_of_elements() &&
                  ct.get_points().cols() == et.get_number_of_points(),
              "ClusterTree accessors");
    for (NP n = &*ct.get_element_tree().pbegin(); n; n = n->next_)
      vf::check(std::isfinite(n->radius_) && n->radius_ > 0, "ClusterTree enclosing balls");
  }
}
static void histories(const geo::QuadMesh &m, const std::string &tag, int depth, int cap, bool reinit, int maxM = 1) {
  std::vector<Op> alpha = {{0, 0}};
  for (int p = 0; p < m.npatch(); ++p) alpha.push_back({1, p});
  if (reinit) alpha.insert(alpha.end(), {{2, 0}, {2, 1}, {3, 0}});
  for (int M = 0; M <= maxM; ++M) {
    std::vector<std::vector<Op>> cur = {{}};
    for (int d = 0; d <= depth; ++d) {
      std::vector<std::vector<Op>> nxt;
      for (auto &h : cur) {
        runHistory(m, tag, M, h, cap);
        if (d < depth)
          for (auto &o : alpha) {
            nxt.push_back(h);
            nxt.back().push_back(o);
          }
      }
      cur.swap(nxt);
    }
  }
}
static void rotations(const geo::QuadMesh &m, int depth, int cap, int maxM = 0) {
  int n = m.npatch(), tot = 1;
  for (int i = 0; i < n; ++i) tot *= 4;
  for (int r = 0; r < tot; ++r) {
    std::vector<int> rot(n);
    int x = r;
    std::string t = m.name + "@";
    for (int i = 0; i < n; ++i) rot[i] = x % 4, x /= 4, t += cat(rot[i]);
    histories(geo::rotated(m, rot), t, depth, cap, false, maxM);
  }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  bool th = vf::thorough();
  histories(geo::square(), "square", th ? 5 : 4, 4, true);
  histories(geo::skewquad(), "skewquad", 3, 5, false);
  histories(geo::strip(2), "strip2", th ? 5 : 4, 4, true);
  histories(geo::curved(geo::strip(3)), "strip3", th ? 5 : 4, 3, false);
  histories(geo::weighted(geo::lshape()), "lshape", th ? 5 : 4, 3, false);
  histories(geo::star(3), "star3", th ? 5 : 4, 3, false);
  histories(geo::star(5), "star5", th ? 4 : 3, 3, false);
  histories(geo::cube(), "cube", th ? 4 : 3, 3, false);
  histories(geo::pillow(), "pillow", th ? 5 : 4, 4, true);
  histories(geo::vertexTouch(), "vertexTouch", 3, 3, false);
  histories(geo::apart(), "apart", 3, 3, false);
  histories(geo::ring(3), "ring3", th ? 5 : 4, 3, false);
  histories(geo::ring(4), "ring4", 3, 3, false);
  histories(geo::torus(3, 3), "torus33", th ? 3 : 2, 2, false, 0);
  histories(geo::torus(3, 4), "torus34", 2, 2, false, 0);
  rotations(geo::strip(2), 3, 3);
  rotations(geo::pillow(), 3, 3);
  rotations(geo::star(3), th ? 3 : 2, 2);
  rotations(geo::lshape(), th ? 3 : 2, 2);
  rotations(geo::ring(3), th ? 3 : 2, 2);
  if (th) rotations(geo::strip(4), 2, 2), rotations(geo::star(4), 2, 2), rotations(geo::cube(), 1, 2, 1);
  return vf::finish();
}
