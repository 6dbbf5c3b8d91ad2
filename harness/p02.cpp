// P02: H2 assembly and H2 products under every schedule.
#include <Eigen/Dense>
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Helmholtz>
#include <Bembel/Laplace>
#include <Bembel/Maxwell>
#include <omp.h>
#include "geo.hpp"
#include "explore.hpp"
using namespace Bembel;
using vf::cat;
#ifndef PART
#define PART 1
#endif
#include "pcommon.hpp"
template <typename S>
Eigen::Matrix<S, -1, -1> rhsBlock(int n, int cols) {
  Eigen::Matrix<S, -1, -1> x(n, cols);
  for (int j = 0; j < cols; ++j)
    for (int i = 0; i < n; ++i) x(i, j) = S(1. + ((i * 7 + j * 3) % 5) - .3 * i);
  return x;
}
// what: bit 0 explore the assembly, bit 1 explore the product
template <typename L>
void scenario(const std::string &name, const geo::QuadMesh &m, int level, int P, int npts, int cols, int what, const TB &tb) {
  typedef typename LinearOperatorTraits<L>::Scalar S;
  typedef Eigen::Matrix<S, -1, -1> Mat;
  omp_set_num_threads(1);
  AnsatzSpace<L> as(geo::geometry(m), level, P);
  L op;
  Setup<L>::op(op);
  Mat x = rhsBlock<S>(as.get_number_of_dofs(), cols);
  Eigen::Matrix<S, -1, 1> xv = x.col(0);
  std::vector<double> ref;
  Eigen::H2Matrix<S> fixed;
  fixed.init_H2Matrix(op, as, npts);
  int leaves = 0, low = 0;
  for (auto it = fixed.get_block_cluster_tree()(0, 0).clbegin(); it != fixed.get_block_cluster_tree()(0, 0).clend(); ++it)
    ++leaves, low += (*it)->get_cc() == BlockClusterAdmissibility::LowRank;
  vf::ctx().extra["max_leaves"] = std::max(vf::ctx().extra["max_leaves"], (double)leaves);
  vf::ctx().extra["max_lowrank_leaves"] = std::max(vf::ctx().extra["max_lowrank_leaves"], (double)low);
  auto product = [&](const Eigen::H2Matrix<S> &h, std::vector<double> *res) {
    if (cols == 1) {
      Eigen::Matrix<S, -1, 1> y = h * xv;
      dump(y, res);
    } else {
      Mat y = Mat::Ones(x.rows(), x.cols());
      y.noalias() += h * x;
      dump(y, res);
    }
  };
  // the observable state of an assembled operator: every leaf and a product
  auto observe = [&](Eigen::H2Matrix<S> &h, std::vector<double> *res) {
    for (int i = 0; i < h.get_block_cluster_tree().rows(); ++i)
      for (int j = 0; j < h.get_block_cluster_tree().cols(); ++j)
        for (auto it = h.get_block_cluster_tree()(i, j).clbegin(); it != h.get_block_cluster_tree()(i, j).clend(); ++it) {
          res->push_back((*it)->get_leaf().is_low_rank());
          dump((*it)->get_leaf().get_F(), res);
        }
    product(h, res);
  };
  auto run = [&](int T, std::vector<double> *res) {
    if (what & 1) {
      omp_set_num_threads(T);
      Eigen::H2Matrix<S> h;
      h.init_H2Matrix(op, as, npts);
      if (!(what & 2)) omp_set_num_threads(1);
      observe(h, res);
    } else {
      omp_set_num_threads(T);
      product(fixed, res);
    }
    omp_set_num_threads(1);
  };
  omprt::begin(1, {}, false);
  run(1, &ref);
  omprt::end();
  double mx = 0;
  for (double v : ref) mx = std::max(mx, std::abs(v));
  for (auto &t : tb) {
    int T = t.first;
    auto r = [&](std::vector<double> *res) { run(T, res); };
    explore::all(cat(name, ":", m.name, ":l", level, ":p", P, ":n", npts, ":c", cols, ":w", what), T, t.second, DETECT, r, ref,
                 1e-11 * mx);
  }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  bool th = vf::thorough();
#ifdef RACES
  TB small = th ? TB{{1, 0}, {2, 3}, {3, 2}} : TB{{1, 0}, {2, 2}, {3, 1}};
  TB wide = th ? TB{{2, 2}, {3, 1}} : TB{{2, 1}};
#else
  TB small = th ? TB{{1, 0}, {2, 6}, {3, 4}, {4, 2}, {8, 1}} : TB{{1, 0}, {2, 4}, {3, 3}, {4, 1}, {8, 1}};
  TB wide = th ? TB{{2, 3}, {3, 2}, {4, 1}, {8, 1}} : TB{{2, 2}, {3, 1}, {8, 0}};
#endif
  geo::QuadMesh two = geo::apart(3.), three = geo::apart(3.);
  three.q.push_back({{2, 3, 0, 1}});
  for (int i = 0; i < 4; ++i) three.v.push_back(three.v[i] + geo::V3(1, 6, .4));
  three.q[2] = {{8, 9, 10, 11}};
  three.name = "apart3";
#if PART == 1
  typedef LaplaceSingleLayerOperator L;
  scenario<L>("LaplaceSL", two, 1, 0, 2, 1, 1, small);
  scenario<L>("LaplaceSL", two, 1, 0, 2, 1, 2, small);
  scenario<L>("LaplaceSL", two, 1, 1, 3, 2, 2, wide);
  scenario<L>("LaplaceSL", two, 1, 1, 2, 1, 3, wide);
  scenario<L>("LaplaceSL", three, 1, 0, 2, 1, 2, wide);
  scenario<L>("LaplaceSL", geo::strip(2), 2, 0, 2, 1, 2, TB{{2, 1}});
#elif PART == 2
  scenario<HelmholtzSingleLayerOperator>("HelmholtzSL", two, 1, 0, 2, 1, 3, wide);
  scenario<LaplaceHypersingularOperator>("LaplaceHS", two, 1, 1, 2, 1, 1, wide);
  scenario<LaplaceHypersingularOperator>("LaplaceHS", two, 1, 1, 2, 2, 2, wide);
  scenario<HelmholtzHypersingularOperator>("HelmholtzHS", two, 1, 1, 2, 1, 1, wide);
#else
  scenario<MaxwellSingleLayerOperator>("MaxwellSL", two, 1, 1, 2, 1, 1, wide);
  scenario<MaxwellSingleLayerOperator>("MaxwellSL", two, 1, 1, 2, 1, 2, wide);
  scenario<LaplaceDoubleLayerOperator>("LaplaceDL", two, 1, 0, 2, 1, 3, wide);
  scenario<LaplaceAdjointDoubleLayerOperator>("LaplaceADL", two, 1, 0, 2, 2, 3, wide);
#endif
  return vf::finish();
}
