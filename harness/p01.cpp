// P01: dense Galerkin assembly under every schedule.  Built several times: with
// -DPART=n selecting the operators, instrumented (race detection) or plain.
#include <Eigen/Dense>
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/Laplace>
#include <Bembel/Maxwell>
#include "geo.hpp"
#include "explore.hpp"
using namespace Bembel;
using vf::cat;
#ifndef PART
#define PART 1
#endif
#include "pcommon.hpp"
// sequential reference: every element pair integrated on its own, in order
template <typename L>
Eigen::Matrix<typename LinearOperatorTraits<L>::Scalar, -1, -1> reference(const AnsatzSpace<L> &as, const L &op) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  GaussSquare<Constants::maximum_quadrature_degree> GS;
  const SuperSpace<L> &ss = as.get_superspace();
  const ElementTree &et = ss.get_mesh().get_element_tree();
  int N = et.get_number_of_elements(), P = ss.get_polynomial_degree(), b = (P + 1) * (P + 1);
  const int vd = getFunctionSpaceVectorDimension<LinearOperatorTraits<L>::Form>();
  auto fq = DuffyTrick::computeFfieldQnodes(ss, GS[op.get_FarfieldQuadratureDegree(P)]);
  Eigen::Matrix<S, -1, -1> big(vd * b * N, vd * b * N);
  for (auto e1 = et.cpbegin(); e1 != et.cpend(); ++e1)
    for (auto e2 = et.cpbegin(); e2 != et.cpend(); ++e2) {
      Eigen::Matrix<S, -1, -1> iv(vd * b, vd * b);
      DuffyTrick::evaluateBilinearForm(op, ss, *e1, *e2, GS, fq[e1->id_], fq[e2->id_], &iv);
      for (int i = 0; i < vd; ++i)
        for (int j = 0; j < vd; ++j)
          for (int r = 0; r < b; ++r)
            for (int c = 0; c < b; ++c) big(b * (i * N + e1->id_) + r, b * (j * N + e2->id_) + c) = iv(i * b + r, j * b + c);
    }
  Eigen::SparseMatrix<double> T = as.get_transformation_matrix();
  return T.transpose() * (big * T);
}
template <typename L>
void scenario(const std::string &name, const geo::QuadMesh &m, int level, int P, int repeats,
              const std::vector<std::pair<int, int>> &tb) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  typedef Eigen::Matrix<S, -1, -1> Mat;
  AnsatzSpace<L> as(geo::geometry(m), level, P);
  L op;
  Setup<L>::op(op);
  std::vector<double> ref;
  Mat rm = reference(as, op);
  for (int r = 0; r < repeats; ++r) dump(rm, &ref);
  double mx = 0;
  for (double x : ref) mx = std::max(mx, std::abs(x));
  auto run = [&](std::vector<double> *res) {
    DiscreteOperator<Mat, L> d(as);
    Setup<L>::op(d.get_linear_operator());
    for (int r = 0; r < repeats; ++r) {
      d.compute();
      dump(d.get_discrete_operator(), res);
    }
  };
  for (auto &x : tb)
    explore::all(cat(name, ":", m.name, ":l", level, ":p", P, ":rep", repeats), x.first, x.second, DETECT, run, ref, 1e-12 * mx);
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  bool th = vf::thorough();
  // (threads, deviations): small instances deeply, larger ones shallowly
#ifdef RACES
  TB small = th ? TB{{1, 0}, {2, 3}, {3, 2}} : TB{{1, 0}, {2, 2}, {3, 1}};
  TB wide = th ? TB{{2, 2}, {3, 1}} : TB{{2, 1}, {3, 0}};
#else
  TB small = th ? TB{{1, 0}, {2, 6}, {3, 4}, {4, 2}, {8, 1}} : TB{{1, 0}, {2, 4}, {3, 2}, {4, 1}, {8, 1}};
  TB wide = th ? TB{{2, 3}, {3, 2}, {4, 1}, {8, 1}} : TB{{2, 2}, {3, 1}, {8, 0}};
#endif
  geo::QuadMesh two = geo::apart(), one = geo::skewquad(), strip = geo::strip(2);
#if PART == 1
  scenario<LaplaceSingleLayerOperator>("LaplaceSL", two, 0, 0, 1, small);
  scenario<LaplaceSingleLayerOperator>("LaplaceSL", strip, 0, 1, 2, wide);
  scenario<LaplaceSingleLayerOperator>("LaplaceSL", one, 1, 0, 1, wide);
  scenario<LaplaceDoubleLayerOperator>("LaplaceDL", two, 0, 0, 1, wide);
  scenario<LaplaceAdjointDoubleLayerOperator>("LaplaceADL", two, 0, 0, 1, wide);
  scenario<LaplaceHypersingularOperator>("LaplaceHS", strip, 0, 1, 1, wide);
#elif PART == 2
  scenario<HelmholtzSingleLayerOperator>("HelmholtzSL", two, 0, 0, 2, wide);
  scenario<HelmholtzDoubleLayerOperator>("HelmholtzDL", two, 0, 0, 1, wide);
  scenario<HelmholtzAdjointDoubleLayerOperator>("HelmholtzADL", two, 0, 0, 1, wide);
  scenario<HelmholtzHypersingularOperator>("HelmholtzHS", strip, 0, 1, 1, wide);
#else
  scenario<MaxwellSingleLayerOperator>("MaxwellSL", two, 0, 1, 1, small);
  scenario<MaxwellSingleLayerOperator>("MaxwellSL", strip, 0, 1, 2, wide);
#ifdef RACES
  TB homog = th ? TB{{2, 1}} : TB{{2, 0}};
#else
  TB homog = wide;
#endif
  scenario<HomogenisedLaplaceSingleLayerOperator>("HomogenisedSL", two, 0, 0, 1, homog);
#endif
  return vf::finish();
}
