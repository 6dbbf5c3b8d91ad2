// P03: potential evaluation under every schedule.
#include <Eigen/Dense>
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/Laplace>
#include <Bembel/Maxwell>
#include <Bembel/Potential>
#include <omp.h>
#include "geo.hpp"
#include "explore.hpp"
using namespace Bembel;
using vf::cat;
#include "pcommon.hpp"
template <typename P>
struct PotSetup {
  static void op(P &) {}
};
template <typename L>
struct PotSetup<HelmholtzSingleLayerPotential<L>> {
  static void op(HelmholtzSingleLayerPotential<L> &p) { p.set_wavenumber({1.3, .4}); }
};
template <typename L>
struct PotSetup<HelmholtzDoubleLayerPotential<L>> {
  static void op(HelmholtzDoubleLayerPotential<L> &p) { p.set_wavenumber({1.3, .4}); }
};
template <typename L>
struct PotSetup<MaxwellSingleLayerPotential<L>> {
  static void op(MaxwellSingleLayerPotential<L> &p) { p.set_wavenumber({1.3, .4}); }
};
// mode 0: one evaluation; 1: evaluate twice, then each point on its own
template <typename P, typename L>
void scenario(const std::string &name, const geo::QuadMesh &m, int level, int deg, int npts, int mode, const TB &tb) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  omp_set_num_threads(1);
  AnsatzSpace<L> as(geo::geometry(m), level, deg);
  Eigen::Matrix<S, -1, 1> rho(as.get_number_of_dofs());
  for (int i = 0; i < rho.size(); ++i) rho(i) = S(1. + ((i * 5) % 7) * .4);
  Eigen::Matrix<double, -1, 3> pts(npts, 3);
  for (int i = 0; i < npts; ++i) pts.row(i) << .3 + i, -.2 * i, 2.1 + .3 * i;
  DiscretePotential<P, L> pot(as);
  PotSetup<P>::op(pot.get_potential());
  pot.set_cauchy_data(rho);
  pot.set_degree(2);
  auto run = [&](int T, std::vector<double> *res) {
    omp_set_num_threads(T);
    dump(pot.evaluate(pts), res);
    if (mode) {
      dump(pot.evaluate(pts), res);
      for (int i = 0; i < npts; ++i) dump(pot.evaluate(pts.row(i)), res);
    }
    omp_set_num_threads(1);
  };
  // sequential reference, straight from the definition
  std::vector<double> ref;
  {
    auto ss = as.get_superspace();
    const ElementTree &et = ss.get_mesh().get_element_tree();
    GaussSquare<Constants::maximum_quadrature_degree> GS;
    auto Q = GS[2];
    FunctionEvaluator<L> fe(as);
    fe.set_function(rho);
    typedef decltype(pot.evaluate(pts)) R;
    R out(npts, (int)PotentialTraits<P>::OutputSpaceDimension);
    out.setZero();
    for (auto e = et.cpbegin(); e != et.cpend(); ++e)
      for (int k = 0; k < Q.w_.size(); ++k) {
        SurfacePoint sp;
        ss.map2surface(*e, Q.xi_.col(k), e->get_h() * e->get_h() * Q.w_(k), &sp);
        for (int i = 0; i < npts; ++i) {
          typename R::RowXpr row = out.row(i);
          row += pot.get_potential().evaluateIntegrand_impl(fe, *e, pts.row(i), sp);
        }
      }
    dump(out, &ref);
    if (mode) {
      dump(out, &ref);
      for (int i = 0; i < npts; ++i) dump(R(out.row(i)), &ref);
    }
  }
  double mx = 0;
  for (double v : ref) mx = std::max(mx, std::abs(v));
  for (auto &t : tb) {
    int T = t.first;
    auto r = [&](std::vector<double> *res) { run(T, res); };
    explore::all(cat(name, ":", m.name, ":l", level, ":p", deg, ":pts", npts, ":m", mode), T, t.second, DETECT, r, ref, 1e-12 * (mx + 1));
  }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  bool th = vf::thorough();
#ifdef RACES
  TB small = th ? TB{{1, 0}, {2, 4}, {3, 3}} : TB{{1, 0}, {2, 2}, {3, 2}};
  TB wide = th ? TB{{2, 3}, {3, 2}} : TB{{2, 1}, {3, 1}};
#else
  TB small = th ? TB{{1, 0}, {2, 40}, {3, 7}, {4, 4}, {8, 2}} : TB{{1, 0}, {2, 40}, {3, 4}, {4, 3}, {8, 1}};
  TB wide = th ? TB{{2, 5}, {3, 3}, {4, 2}, {8, 1}} : TB{{2, 3}, {3, 2}, {8, 1}};
#endif
  geo::QuadMesh two = geo::strip(2), cu = geo::cube();
  typedef LaplaceSingleLayerOperator LS;
  typedef HelmholtzSingleLayerOperator HS;
  typedef MaxwellSingleLayerOperator MS;
  scenario<LaplaceSingleLayerPotential<LS>, LS>("LaplaceSL", two, 0, 0, 2, 0, small);
  scenario<LaplaceSingleLayerPotential<LS>, LS>("LaplaceSL", geo::skewquad(), 1, 1, 2, 0, small);
  scenario<LaplaceSingleLayerPotential<LS>, LS>("LaplaceSL", two, 1, 1, 2, 0, wide);
  scenario<LaplaceSingleLayerPotential<LS>, LS>("LaplaceSL", two, 0, 1, 3, 1, wide);
  scenario<LaplaceSingleLayerPotential<LS>, LS>("LaplaceSL", cu, 0, 0, 1, 0, wide);
  typedef LaplaceHypersingularOperator LH;
  typedef HelmholtzHypersingularOperator HH;
  scenario<LaplaceSingleLayerPotentialGradient<LS>, LS>("LaplaceSLGrad", two, 0, 1, 2, 1, wide);
  scenario<LaplaceDoubleLayerPotential<LH>, LH>("LaplaceDL", two, 0, 1, 2, 1, wide);
  scenario<HelmholtzSingleLayerPotential<HS>, HS>("HelmholtzSL", two, 0, 1, 2, 1, wide);
  scenario<HelmholtzDoubleLayerPotential<HH>, HH>("HelmholtzDL", two, 0, 1, 2, 0, wide);
  scenario<MaxwellSingleLayerPotential<MS>, MS>("MaxwellSL", two, 0, 1, 2, 1, wide);
  typedef HomogenisedLaplaceSingleLayerOperator HO;
#ifdef RACES
  scenario<HomogenisedLaplaceSingleLayerPotential<HO>, HO>("HomogenisedSL", two, 0, 0, 1, 0, TB{{2, 1}});
#else
  scenario<HomogenisedLaplaceSingleLayerPotential<HO>, HO>("HomogenisedSL", two, 0, 0, 1, 0, wide);
#endif
  return vf::finish();
}
