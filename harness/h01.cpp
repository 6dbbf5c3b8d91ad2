// H01: block cluster trees partition the matrix, for all parameters, and stay
// independent through every history of copies, moves and re-initialisations.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <memory>
#include "asp.hpp"
using namespace Bembel;
using vf::cat;
class Lin;
namespace Bembel {
template <>
struct LinearOperatorTraits<Lin> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = -1, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
}  // namespace Bembel
class Lin : public LinearOperatorBase<Lin> {};
typedef BlockClusterTree<double> Tree;
typedef Eigen::MatrixXd Mat;
struct Cell {
  int p, x, y, l;
  bool operator<(const Cell &o) const { return std::tie(p, x, y, l) < std::tie(o.p, o.x, o.y, o.l); }
  bool operator==(const Cell &o) const { return std::tie(p, x, y, l) == std::tie(o.p, o.x, o.y, o.l); }
};
static Cell cellOf(const ElementTreeNode &e) {
  int l = e.level_, n = l < 0 ? 0 : 1 << l;
  return {e.patch_, l < 0 ? 0 : (int)std::lround(e.llc_(0) * n), l < 0 ? 0 : (int)std::lround(e.llc_(1) * n), l};
}
static bool inside(const Cell &in, const Cell &out) {
  if (out.l < 0) return true;
  if (in.p != out.p || in.l < out.l) return false;
  return (in.x >> (in.l - out.l)) == out.x && (in.y >> (in.l - out.l)) == out.y;
}
struct Leaf {
  Cell a, b;
  int cc;
  bool operator<(const Leaf &o) const { return std::tie(a, b, cc) < std::tie(o.a, o.b, o.cc); }
  bool operator==(const Leaf &o) const { return a == o.a && b == o.b && cc == o.cc; }
};
// reference recursion
static void refTree(const ElementTreeNode &a, const ElementTreeNode &b, int max, double eta, int min, std::vector<Leaf> *r) {
  double d = std::max(0., (a.midpoint_ - b.midpoint_).norm() - a.radius_ - b.radius_);
  double R = std::max(a.radius_, b.radius_);
  bool adm = R < eta * d;
  if (adm)
    r->push_back({cellOf(a), cellOf(b), BlockClusterAdmissibility::LowRank});
  else if (max - a.level_ <= min)
    r->push_back({cellOf(a), cellOf(b), BlockClusterAdmissibility::Dense});
  else
    for (auto &x : a.sons_)
      for (auto &y : b.sons_) refTree(x, y, max, eta, min, r);
}
// all facts about one initialised tree
template <typename Op>
static void verify(Tree &t, const AnsatzSpace<Op> &as, double eta, int min, const std::string &w) {
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  const int P = as.get_polynomial_degree(), pp = (P + 1) * (P + 1), N = et.get_number_of_elements();
  std::vector<Cell> el;
  for (auto it = et.cpbegin(); it != et.cpend(); ++it) el.push_back(cellOf(*it));
  vf::check((int)el.size() == N, w + ": number of elements");
  vf::check(t.rows() == N && t.cols() == N, w + ": size of the tree");
  vf::check(t.get_parameters().eta_ == eta && t.get_parameters().min_cluster_level_ == min, w + ": admissibility parameters");
  vf::check(t.get_parameters().max_level_ == et.get_max_level() && t.get_parameters().polynomial_degree_ == P, w + ": level or degree");
  vf::check(t.get_cluster1() == std::addressof(et.root()) && t.get_cluster2() == std::addressof(et.root()), w + ": root clusters");
  if (vf::failed()) return;
  std::vector<Leaf> got, want;
  std::vector<char> cov((size_t)N * N, 0);
  for (auto it = t.lbegin(); it != t.lend(); ++it) {
    Tree &b = **it;
    Leaf l{cellOf(*b.get_cluster1()), cellOf(*b.get_cluster2()), b.get_cc()};
    got.push_back(l);
    int r0 = b.get_row_start_index(), r1 = b.get_row_end_index(), c0 = b.get_col_start_index(), c1 = b.get_col_end_index();
    if (!(r0 >= 0 && r0 < r1 && r1 <= N * pp && c0 >= 0 && c0 < c1 && c1 <= N * pp && r0 % pp == 0 && r1 % pp == 0 && c0 % pp == 0 && c1 % pp == 0))
      return vf::fail(cat(w, ": index range ", r0, "..", r1, " x ", c0, "..", c1));
    r0 /= pp, r1 /= pp, c0 /= pp, c1 /= pp;
    vf::check(b.rows() == r1 - r0 && b.cols() == c1 - c0, w + ": block size");
    vf::check(b.get_level() == l.a.l, w + ": level of the block");
    for (int i = 0; i < N; ++i) {
      if ((i >= r0 && i < r1) != inside(el[i], l.a)) return vf::fail(cat(w, ": row range disagrees with the elements of the cluster, element ", i));
      if ((i >= c0 && i < c1) != inside(el[i], l.b)) return vf::fail(cat(w, ": column range disagrees with the elements of the cluster, element ", i));
    }
    for (int i = r0; i < r1; ++i)
      for (int j = c0; j < c1; ++j) {
        vf::step();
        if (cov[(size_t)i * N + j]++) return vf::fail(cat(w, ": pair ", i, ",", j, " is covered twice"));
      }
    if (b.get_cc() == BlockClusterAdmissibility::LowRank) vf::check(l.a.l == l.b.l, w + ": levels of a low-rank block differ");
  }
  for (size_t i = 0; i < cov.size(); ++i)
    if (!cov[i]) return vf::fail(cat(w, ": pair ", i / N, ",", i % N, " is not covered"));
  refTree(et.root(), et.root(), et.get_max_level(), eta, min, &want);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  vf::check(got == want, cat(w, ": leaves differ from the admissibility criterion (", got.size(), " instead of ", want.size(), ")"));
  std::vector<Tree *> l1(t.lbegin(), t.lend()), l2(t.clbegin(), t.clend());
  vf::check(l1 == l2, w + ": constant iteration");
}
#ifndef HIST
template <typename Op>
static void balls(const AnsatzSpace<Op> &as, const PatchVector &pv) {
  const ElementTree &et = as.get_superspace().get_mesh().get_element_tree();
  std::vector<const ElementTreeNode *> st;
  for (auto &s : et.root().sons_) st.push_back(&s);
  while (!st.empty()) {
    const ElementTreeNode *e = st.back();
    st.pop_back();
    for (auto &s : e->sons_) st.push_back(&s);
    int k = 1 << (et.get_max_level() - e->level_);  // corners of the elements in this cluster
    double far = 0;
    for (int i = 0; i <= k; ++i)
      for (int j = 0; j <= k; ++j)
        far = std::max(far, (pv[e->patch_].eval(e->llc_(0) + e->get_h() * i / k, e->llc_(1) + e->get_h() * j / k) - e->midpoint_).norm());
    vf::check(far <= e->radius_ * (1 + 1e-12), cat("a corner of an element is outside the ball of its cluster: ", far, " > ", e->radius_));
    // and the ball is not arbitrarily large
    vf::check(e->radius_ <= 2 * far, cat("ball is too large: ", e->radius_, " for ", far));
  }
}
template <typename Op>
static void run(const Geometry &g, int L, int P);
template <typename Op>
static void config(const geo::QuadMesh &m, const std::string &nm, int L, int P) {
  if (!vf::begin(cat(nm, "/", m.name, "/L", L, "P", P))) return;
  run<Op>(geo::geometry(m), L, P);
}
template <typename Op>
static void run(const Geometry &g, int L, int P) {
  AnsatzSpace<Op> as(g, L, P, 1);
  Lin op;
  balls(as, g.get_geometry());
  for (double eta : {.01, .3, .8, 1.6, 2.5, 10.})
    for (int min = 0; min <= L + 2; ++min) {
      vf::state(vf::hash(vf::hstr(vf::ctx().id), (uint64_t)(eta * 100), min));
      Tree t;
      t.set_parameters(eta, min);
      t.init_BlockClusterTree(op, as);
      verify(t, as, eta, min, cat("eta ", eta, " min ", min));
      if (vf::failed()) return;
    }
  Tree d(op, as);
  verify(d, as, 1.6, 1, "default parameters");
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  using namespace geo;
  std::vector<QuadMesh> ms = {square(), strip(2), apart(.1), apart(2), rotated(strip(3), {1, 3, 2}), star(5), cube(), curved(weighted(cube())), torus(3, 3), grid(4, 1), shifted(cube(), V3(10, -3, 5), 7)};
  ms.push_back(skewquad());
  for (auto &m : ms)
    for (int L = 0; L <= (m.npatch() <= 2 ? 4 : 3) + (th && m.npatch() <= 3); ++L)
      for (int P = 0; P <= (L < 3 ? 2 : 1); ++P) {
        config<OpD>(m, "D", L, P);
        if (P > 0) {
          config<OpC>(m, "C", L, P);
          config<OpV>(m, "V", L, P);
        }
      }
  for (auto &s : geo::shipped())
    for (int L = 0; L < 2; ++L) {
      if (!vf::begin(cat("shipped/", s, "/L", L))) continue;
      Geometry g(cat(REPO_DIR, "/geo/", s, ".dat"));
      if (g.get_number_of_patches() * (1 << 2 * L) > 300) continue;
      run<OpD>(g, L, 1);
    }
  return vf::finish();
}
#else
// ---- histories --------------------------------------------------------------
struct World {
  struct Space {
    std::unique_ptr<AnsatzSpace<OpD>> a;
  };
  static AnsatzSpace<OpD> &space(int c) {
    static Geometry g0 = geo::geometry(geo::apart(.2)), g1 = geo::geometry(geo::square());
    static AnsatzSpace<OpD> a0(g0, 1, 0, 1), a1(g1, 2, 1, 1), a2(g0, 0, 1, 1);
    return c == 0 ? a0 : c == 1 ? a1 : a2;
  }
  static const int NS = 3;
  struct Model {
    int sp = -1;       // -1 uninitialised
    double eta = -1;   // -1 no parameters set
    int min = -1;
    double stamp = 0;  // contents of the leaves
    bool gone = false;  // moved from: only assign, reset or re-initialise
    bool dirty = false;  // parameters changed since the initialisation
  };
  std::unique_ptr<Tree> t[2];
  Model m[2];
  World() {
    for (int i = 0; i < 2; ++i) t[i].reset(new Tree());
  }
  static const int OPS = 26;
  void fill(Tree &t, double s) {
    int k = 0;
    for (auto it = t.lbegin(); it != t.lend(); ++it) {
      (*it)->get_leaf().set_F(Mat::Constant(1, 2, s + k));
      (*it)->get_leaf().set_L(Mat::Constant(2, 1, -s - k));
      (*it)->get_leaf().set_low_rank_flag((*it)->get_cc() == BlockClusterAdmissibility::LowRank);
      ++k;
    }
  }
  bool exec(int op) {
    const int i = op & 1, j = 1 - i;
    Model &a = m[i], &b = m[j];
    Lin lin;
    switch (op >> 1) {
      case 0:
      case 1:
      case 2: {
        if (a.gone) return false;
        t[i]->init_BlockClusterTree(lin, space(op >> 1));
        a.sp = op >> 1;
        if (a.eta < 0) a.eta = 1.6, a.min = 1;
        a.dirty = false;
        a.stamp = 10 * (op + 1);
        fill(*t[i], a.stamp);
        return true;
      }
      case 3:
      case 4:
        t[i]->set_parameters((op >> 1) == 3 ? .4 : 6., (op >> 1) == 3 ? 0 : 1);
        a.eta = (op >> 1) == 3 ? .4 : 6.;
        a.min = (op >> 1) == 3 ? 0 : 1;
        a.dirty = a.sp >= 0;
        a.gone = false;
        if (a.sp < 0) return true;
        // parameters take effect with the next initialisation
        t[i]->init_BlockClusterTree(lin, space(a.sp));
        a.dirty = false;
        a.stamp = 10 * (op + 1);
        fill(*t[i], a.stamp);
        return true;
      case 5:  // copy assign
        if (b.gone) return false;
        *t[i] = *t[j];
        a = b;
        return true;
      case 6:  // copy construct
        if (b.gone) return false;
        t[i].reset(new Tree(*t[j]));
        a = b;
        return true;
      case 7:  // move assign
        if (b.gone) return false;
        *t[i] = std::move(*t[j]);
        a = b;
        b = Model();
        b.gone = true;
        return true;
      case 8:  // move construct
        if (b.gone) return false;
        t[i].reset(new Tree(std::move(*t[j])));
        a = b;
        b = Model();
        b.gone = true;
        return true;
      case 9:  // self assignment
        if (a.gone) return false;
        *t[i] = *t[i];
        return true;
      case 10:  // assign a default constructed tree / destroy
        *t[i] = Tree();
        a = Model();
        return true;
      case 11:  // rewrite the leaves
        if (a.gone || a.sp < 0) return false;
        a.stamp += 1000;
        fill(*t[i], a.stamp);
        return true;
      case 12: {  // through a container and back, as the compressed operator does
        if (a.gone) return false;
        GenericMatrix<Tree> g;
        g.resize(1, 1);
        g(0, 0) = *t[i];
        g.resize(2, 3);
        GenericMatrix<Tree> h(g), k;
        k = h;
        t[i].reset(new Tree(k(0, 0)));
        return true;
      }
    }
    return false;
  }
  static const char *name(int k) {
    static const char *n[] = {"init0", "init1", "init2", "par0", "par1", "copyAssign", "copyCtor", "moveAssign", "moveCtor", "selfAssign", "reset", "fill", "container"};
    return n[k];
  }
  void check() {
    for (int i = 0; i < 2; ++i) {
      Model &a = m[i];
      if (a.gone || a.sp < 0) continue;
      verify(*t[i], space(a.sp), a.eta, a.min, cat("tree ", i));
      if (vf::failed()) return;
      int k = 0;
      for (auto it = t[i]->lbegin(); it != t[i]->lend(); ++it, ++k) {
        auto &l = (*it)->get_leaf();
        bool ok = l.get_F().rows() == 1 && l.get_F().cols() == 2 && l.get_F()(0, 1) == a.stamp + k && l.get_L().rows() == 2 && l.get_L()(1, 0) == -a.stamp - k &&
                  l.is_low_rank() == ((*it)->get_cc() == BlockClusterAdmissibility::LowRank);
        vf::check(ok, cat("contents of leaf ", k, " of tree ", i));
      }
    }
  }
  uint64_t abs() const {
    uint64_t h = 7;
    for (auto &a : m) h = vf::hash(h, a.sp + 2, (uint64_t)(a.eta * 10 + 50), a.min + 2, a.gone, a.stamp > 1000);
    return h;
  }
};
static void explore(std::vector<int> h, int depth) {
  // replay
  auto replay = [](const std::vector<int> &h, World *w) {
    for (size_t k = 0; k < h.size(); ++k)
      if (!w->exec(h[k])) return false;
    return true;
  };
  for (int op = 0; op < World::OPS; ++op) {
    if (h.empty() && (op & 1)) continue;  // exchanging the two trees is a symmetry
    std::vector<int> n = h;
    n.push_back(op);
    std::string id = "hist";
    for (int o : n) id += cat("/", World::name(o >> 1), o & 1);
    // applicability is decided on the model only, by a dry run of the prefix
    bool leaf = (int)n.size() == depth;
    if (leaf) {
      if (vf::begin(id)) {
        World w;
        if (replay(n, &w)) {
          vf::state(w.abs());
          w.check();
        } else {
          --vf::ctx().cases;
        }
      }
    } else {
      if (vf::begin(id)) {
        World w;
        if (replay(n, &w)) {
          vf::state(w.abs());
          w.check();
        } else {
          --vf::ctx().cases;
        }
      }
      explore(n, depth);
    }
  }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  explore({}, vf::thorough() ? 4 : 3);
  return vf::finish();
}
#endif
