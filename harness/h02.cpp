// H02: compressed operators against the dense ones, in every configuration; and against
// the exact result of tensor product interpolation of the kernel on admissible blocks.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/DuffyTrick>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/Laplace>
#include <Bembel/LinearOperator>
#include <Bembel/Maxwell>
#include <unistd.h>
#include "geo.hpp"
#include "mom.hpp"
#include "vf.hpp"
using vf::cat;
static double scale = 1.;
static bool calibrate = getenv("H02_CALIBRATE") != nullptr;
template <typename Op>
static auto wave(Op *o, cplx k) -> decltype(o->set_wavenumber(k), void()) {
  o->set_wavenumber(k);
}
static void wave(...) {}
// permitted relative error (Frobenius norm) by number of points
static double bound(int np) {
  return 3. * std::pow(.33, np);
}
template <typename Op>
struct World {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  typedef Eigen::Matrix<S, -1, -1> M;
  PatchVector pv;
  std::unique_ptr<AnsatzSpace<Op>> as;
  Op op;
  M G, D;
  int L, P, nel, pp;
  static constexpr int vd = getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>();
  static constexpr int nc = LinearOperatorTraits<Op>::NumberOfFMMComponents;
  World(const geo::QuadMesh &m, int L, int P, int K, cplx k) : pv(geo::patches(m)), L(L), P(P) {
    as.reset(new AnsatzSpace<Op>(Geometry(pv), L, P, K));
    wave(&op, k);
    const SuperSpace<Op> &ss = as->get_superspace();
    const ElementTree &et = ss.get_mesh().get_element_tree();
    nel = et.get_number_of_elements();
    pp = (P + 1) * (P + 1);
    GaussSquare<Constants::maximum_quadrature_degree> GS;
    auto q = DuffyTrick::computeFfieldQnodes(ss, GS[op.get_FarfieldQuadratureDegree(P)]);
    G.resize(vd * pp * nel, vd * pp * nel);
    for (auto a = et.cpbegin(); a != et.cpend(); ++a)
      for (auto b = et.cpbegin(); b != et.cpend(); ++b) {
        M iv(vd * pp, vd * pp);
        DuffyTrick::evaluateBilinearForm(op, ss, *a, *b, GS, q[a->id_], q[b->id_], &iv);
        for (int i = 0; i < vd; ++i)
          for (int j = 0; j < vd; ++j) G.block(pp * (i * nel + a->id_), pp * (j * nel + b->id_), pp, pp) = iv.block(i * pp, j * pp, pp, pp);
      }
    DiscreteOperatorComputer<M, Op>::compute(&D, op, *as);
    auto T = as->get_transformation_matrix();
    vf::near((M(T.transpose() * (G * T)) - D).cwiseAbs().maxCoeff(), 0, 1e-12 * (1e-10 + D.cwiseAbs().maxCoeff()), "dense operator");
  }
  SurfacePoint point(const ElementTreeNode &c, double x, double y) const {
    SurfacePoint sp;
    const double h = std::ldexp(1., -c.level_);
    pv[c.patch_].updateSurfacePoint(&sp, Eigen::Vector2d(c.llc_(0) + h * x, c.llc_(1) + h * y), 1., Eigen::Vector2d(x, y));
    return sp;
  }
  // moments of all local basis functions of a cluster, component c
  Eigen::MatrixXd mom(const ElementTreeNode &cl, int np, int c) const {
    auto bl = Blocks<Op>::get(c);
    const int m = L - cl.level_, np2 = np * np;
    static std::map<std::array<int, 4>, std::unique_ptr<Exact>> cache;
    auto &ex = cache[{np, P, m, L}];
    if (!ex) ex.reset(new Exact(np, P, m, L));
    std::vector<const ElementTreeNode *> el;
    for (auto &e : cl) el.push_back(&e);
    Eigen::MatrixXd R(np2 * bl.size(), el.size() * pp);
    const double n = std::ldexp(1., L);
    for (size_t e = 0; e < el.size(); ++e) {
      int ix = (int)std::lround((el[e]->llc_(0) - cl.llc_(0)) * n), iy = (int)std::lround((el[e]->llc_(1) - cl.llc_(1)) * n);
      for (int b = 0; b <= P; ++b)
        for (int a = 0; a <= P; ++a)
          for (size_t d = 0; d < bl.size(); ++d)
            for (int i = 0; i < np; ++i)
              for (int j = 0; j < np; ++j) R(d * np2 + i * np + j, e * pp + b * (P + 1) + a) = (*ex)(bl[d], ix, iy, a, b, i, j);
    }
    return R;
  }
  // the operator with interpolated kernels on the admissible leaves
  M interpolated(const Eigen::H2Matrix<S> &H, int np, int *lr, uint64_t *levels) const {
    M A = G;
    auto x = ChebychevRoots(np).points_;
    const int np2 = np * np;
    auto &bt = H.get_block_cluster_tree();
    for (auto it = bt(0, 0).clbegin(); it != bt(0, 0).clend(); ++it) {
      if ((*it)->get_cc() != BlockClusterAdmissibility::LowRank) continue;
      ++*lr;
      const ElementTreeNode &c1 = *(*it)->get_cluster1(), &c2 = *(*it)->get_cluster2();
      *levels |= 1ull << (8 * c1.level_ + c2.level_);
      M K(vd * nc * np2, vd * nc * np2);
      for (int p = 0; p < np2; ++p) {
        SurfacePoint a = point(c1, x(p / np), x(p % np));
        for (int q = 0; q < np2; ++q) {
          SurfacePoint b = point(c2, x(q / np), x(q % np));
          auto f = op.evaluateFMMInterpolation(a, b);
          for (int r = 0; r < vd * nc; ++r)
            for (int s = 0; s < vd * nc; ++s) K(r * np2 + p, s * np2 + q) = f(r, s);
        }
      }
      std::vector<int> r1, r2;
      for (auto &e : c1) r1.push_back(e.id_);
      for (auto &e : c2) r2.push_back(e.id_);
      for (int i = 0; i < vd; ++i)
        for (int j = 0; j < vd; ++j) {
          M B = mom(c1, np, i).transpose().template cast<S>() * K.block(i * nc * np2, j * nc * np2, nc * np2, nc * np2) * mom(c2, np, j).template cast<S>();
          for (size_t e = 0; e < r1.size(); ++e)
            for (size_t f = 0; f < r2.size(); ++f) A.block(pp * (i * nel + r1[e]), pp * (j * nel + r2[f]), pp, pp) = B.block(e * pp, f * pp, pp, pp);
        }
    }
    auto T = as->get_transformation_matrix();
    return T.transpose() * (A * T);
  }
  static M full(const Eigen::H2Matrix<S> &H) {
    M I = M::Identity(H.cols(), H.cols());
    return H * I;
  }
};
template <typename Op>
static void config(const std::string &nm, const geo::QuadMesh &m, int L, int P, int K, cplx k, const std::vector<int> &nps) {
  typedef World<Op> W;
  typedef typename W::S S;
  if (std::is_same<Op, HomogenisedLaplaceSingleLayerOperator>::value && scale == 1.) {
    scale = .07;
    config<Op>(nm, geo::shifted(m, Eigen::Vector3d(-.1, -.05, -.1), scale), L, P, K, k, nps);
    scale = 1.;
    return;
  }
  if (!vf::begin(cat(nm, "/", m.name, "/L", L, "P", P, "K", K, "/k", k.real(), ",", k.imag()))) return;
  W w(m, L, P, K, k);
  const double nD = w.D.norm(), mx = w.D.cwiseAbs().maxCoeff();
  for (int np : nps) {
    vf::state(vf::hash(vf::hstr(vf::ctx().id), np));
    Eigen::H2Matrix<S> H;
    H.init_H2Matrix(w.op, *w.as, np);
    vf::check(H.rows() == w.D.rows() && H.cols() == w.D.cols(), "size");
    if (vf::failed()) return;
    auto F = W::full(H);
    int lr = 0;
    uint64_t lv = 0;
    auto R = w.interpolated(H, np, &lr, &lv);
    for (int b = 0; b < 64; ++b)
      if (lv >> b & 1) vf::ctx().extra[cat("configs_with_blocks_level_", b / 8, "_", b % 8)]++;
    vf::near((F - R).cwiseAbs().maxCoeff() / mx, 0, 1e-13 * std::pow(1.5, np), cat("interpolated operator, ", np, " points"));
    const double err = (F - w.D).norm() / nD;
    if (lr == 0)
      vf::near((F - w.D).cwiseAbs().maxCoeff() / mx, 0, 1e-12, "without admissible blocks");
    else if (calibrate)
      std::cerr << nm << " " << m.name << " L" << L << "P" << P << " k " << k << " np " << np << " lr " << lr << " err " << err << " ratio " << err / bound(np) << "\n";
    else
      vf::near(err, 0, bound(np), cat("relative error with ", np, " points"));
  }
}
template <typename Op>
static void family(const std::string &nm, int Pmin, bool waves) {
  const bool th = vf::thorough();
  std::vector<int> some = {2, 3, 5}, many = {1, 2, 3, 4, 5, 6, 7, 8, 9};
  std::vector<cplx> ks = {1.};
  if (waves) ks = {1.5, cplx(1, -.5), cplx(2, .3), 1e-3};
  geo::QuadMesh sq = geo::curved(geo::square()), cu = geo::cube();
  for (cplx k : ks) {
    config<Op>(nm, geo::apart(1.), 1, Pmin, 1, k, {1, 2, 4, 6});
    config<Op>(nm, geo::apart(3.), 2, Pmin, 1, k, many);
    if (k == ks[0] || th) config<Op>(nm, sq, 3, Pmin, 1, k, some);
  }
  for (int L = 0; L <= 2; ++L)
    for (int P = Pmin; P <= Pmin + (World<Op>::vd == 1 || th ? 2 : 1); ++P)
      for (int K = 1; K <= P + (LinearOperatorTraits<Op>::Form == DifferentialForm::Discontinuous) && (K <= 2 || th); ++K) {
        if (L == 2 && (th ? P > Pmin + 1 : P > Pmin && K != 2)) continue;
        config<Op>(nm, geo::apart(3.), L, P, K, ks.back(), some);
        if (L < 2) config<Op>(nm, geo::curved(geo::cube()), L, P, K, ks.back(), some);
        if (th ? P <= Pmin + 1 : P <= Pmin + (L < 2)) config<Op>(nm, geo::weighted(geo::strip(3)), L, P, K, ks.back(), some);
      }
  config<Op>(nm, cu, 2, Pmin, 1, ks[0], some);
  config<Op>(nm, geo::torus(3, 3), 1, Pmin, 1, ks[0], some);
  if ((World<Op>::vd == 1 && !waves) || th) config<Op>(nm, geo::strip(2), 3, Pmin, 1, ks[0], {3, 4});
  config<Op>(nm, geo::apart(3.), 3, Pmin, 1, ks[0], {3, 4});
  if (th) {
    config<Op>(nm, geo::curved(geo::cube()), 2, Pmin + 1, 1, ks[0], many);
    config<Op>(nm, geo::square(), 4, Pmin, 1, ks[0], some);
    config<Op>(nm, geo::apart(2.), 3, Pmin + 1, 2, ks[0], some);
  }
}
// initialising the same object again and again
template <typename Op>
static void histories(const std::string &nm, int Pmin, int maxlen) {
  typedef World<Op> W;
  typedef typename W::S S;
  struct Conf {
    geo::QuadMesh m;
    int L, P, np;
    cplx k;
  };
  std::vector<Conf> cs = {{geo::apart(3.), 2, Pmin, 2, 1.}, {geo::square(), 0, Pmin, 3, 2.}, {geo::apart(2.), 2, Pmin + 1, 3, cplx(1, 1)}, {geo::strip(3), 1, Pmin, 9, .5}};
  std::vector<std::unique_ptr<AnsatzSpace<Op>>> as;
  std::vector<Op> ops(cs.size());
  std::vector<typename W::M> want(cs.size());
  for (size_t i = 0; i < cs.size(); ++i) {
    as.emplace_back(new AnsatzSpace<Op>(geo::geometry(cs[i].m), cs[i].L, cs[i].P, 1));
    wave(&ops[i], cs[i].k);
    Eigen::H2Matrix<S> H;
    H.init_H2Matrix(ops[i], *as[i], cs[i].np);
    want[i] = W::full(H);
  }
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> h) {
    if (!h.empty()) {
      std::string id = cat(nm, "/history/");
      for (int c : h) id += char('a' + c);
      if (vf::begin(id)) {
        vf::state(vf::hstr(id));
        Eigen::H2Matrix<S> H;
        for (int c : h) {
          H.init_H2Matrix(ops[c], *as[c], cs[c].np);
          vf::check(H.rows() == want[c].rows() && H.cols() == want[c].cols(), "size");
          if (vf::failed()) return;
          auto F = W::full(H);
          vf::near((F - want[c]).cwiseAbs().maxCoeff(), 0, 1e-13, "initialised again");
        }
        // the front end, twice with different wavenumbers
        const int c = h.back();
        DiscreteOperator<Eigen::H2Matrix<S>, Op> d(*as[c]);
        for (int c2 : h) {
          wave(&d.get_linear_operator(), cs[c2].k);
          d.compute();
          Op o;
          wave(&o, cs[c2].k);
          Eigen::H2Matrix<S> F;
          F.init_H2Matrix(o, *as[c]);
          vf::near((W::full(d.get_discrete_operator()) - W::full(F)).cwiseAbs().maxCoeff(), 0, 1e-13, "through DiscreteOperator");
        }
      }
    }
    if ((int)h.size() == maxlen) return;
    for (int c = 0; c < (int)cs.size(); ++c) {
      auto g = h;
      g.push_back(c);
      rec(g);
    }
  };
  rec({});
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
#if PART == 0
  family<LaplaceSingleLayerOperator>("laplaceSL", 0, false);
  family<LaplaceDoubleLayerOperator>("laplaceDL", 0, false);
  histories<LaplaceSingleLayerOperator>("laplaceSL", 0, th ? 3 : 2);
#elif PART == 1
  family<LaplaceAdjointDoubleLayerOperator>("laplaceADL", 0, false);
  family<LaplaceHypersingularOperator>("laplaceHS", 1, false);
  histories<LaplaceHypersingularOperator>("laplaceHS", 1, th ? 3 : 2);
#elif PART == 2
  family<HelmholtzSingleLayerOperator>("helmholtzSL", 0, true);
  family<HelmholtzDoubleLayerOperator>("helmholtzDL", 0, true);
#elif PART == 3
  family<HelmholtzAdjointDoubleLayerOperator>("helmholtzADL", 0, true);
  family<HelmholtzHypersingularOperator>("helmholtzHS", 1, true);
  histories<HelmholtzHypersingularOperator>("helmholtzHS", 1, th ? 3 : 2);
#elif PART == 4
  family<MaxwellSingleLayerOperator>("maxwell", 1, true);
  histories<MaxwellSingleLayerOperator>("maxwell", 1, th ? 3 : 2);
#elif PART == 5
  HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-7);
  family<HomogenisedLaplaceSingleLayerOperator>("homogenised", 0, false);
#endif
  return vf::finish();
}
