// Ansatz spaces of the three kinds on harness geometries, with an independent
// evaluation of what a column of the transformation matrix represents.
#ifndef VERIF_ASP_HPP_
#define VERIF_ASP_HPP_
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include "geo.hpp"
#include "ref.hpp"
#include "vf.hpp"
class OpC;
class OpV;
class OpD;
class OpCz;
class OpVz;
namespace Bembel {
template <>
struct LinearOperatorTraits<OpC> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::Continuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<OpV> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 2 };
};
template <>
struct LinearOperatorTraits<OpD> {
  typedef Eigen::VectorXd EigenType;
  typedef double Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<OpCz> {
  typedef Eigen::VectorXcd EigenType;
  typedef std::complex<double> Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::Continuous, NumberOfFMMComponents = 1 };
};
template <>
struct LinearOperatorTraits<OpVz> {
  typedef Eigen::VectorXcd EigenType;
  typedef std::complex<double> Scalar;
  enum { OperatorOrder = 0, Form = DifferentialForm::DivConforming, NumberOfFMMComponents = 2 };
};
}  // namespace Bembel
namespace asp {
using geo::QuadMesh;
// an edge shared by two patches, or free (p2 < 0); e: corner e -> corner e+1
struct Edge {
  int p1, e1, p2, e2;
};
inline std::vector<Edge> edges(const QuadMesh &m) {
  std::vector<Edge> out;
  std::map<std::pair<int, int>, int> at;
  for (int p = 0; p < m.npatch(); ++p)
    for (int e = 0; e < 4; ++e) {
      int a = m.q[p][e], b = m.q[p][(e + 1) % 4];
      auto key = std::make_pair(std::min(a, b), std::max(a, b));
      auto it = at.find(key);
      if (it == at.end()) {
        at[key] = (int)out.size();
        out.push_back({p, e, -1, -1});
      } else {
        out[it->second].p2 = p;
        out[it->second].e2 = e;
      }
    }
  return out;
}
inline int usedVertices(const QuadMesh &m) {
  std::vector<int> v;
  for (auto &q : m.q) v.insert(v.end(), q.begin(), q.end());
  std::sort(v.begin(), v.end());
  return (int)(std::unique(v.begin(), v.end()) - v.begin());
}
// point on edge e at parameter t running from corner e to corner e+1
inline Eigen::Vector2d onEdge(int e, double t) {
  switch (e) {
    case 0: return {t, 0};
    case 1: return {1, t};
    case 2: return {1 - t, 1};
    default: return {0, 1 - t};
  }
}
inline Eigen::Vector2d outward(int e) {
  const double n[4][2] = {{0, -1}, {1, 0}, {0, 1}, {-1, 0}};
  return {n[e][0], n[e][1]};
}
// elements of a uniformly refined space, by patch and tensor product position
template <typename Op>
struct Elements {
  int n, P, nel, pp;
  std::vector<int> id;                                   // patch, iy, ix
  std::vector<const Bembel::ElementTreeNode *> node;     // patch, iy, ix
  Elements(const Bembel::SuperSpace<Op> &s) {
    n = 1 << s.get_refinement_level();
    P = s.get_polynomial_degree();
    pp = (P + 1) * (P + 1);
    nel = s.get_number_of_elements();
    id.assign(nel, -1);
    node.assign(nel, nullptr);
    const Bembel::ElementTree &et = s.get_mesh().get_element_tree();
    for (auto it = et.cpbegin(); it != et.cpend(); ++it) {
      int ix = (int)std::lround(it->llc_(0) * n), iy = (int)std::lround(it->llc_(1) * n);
      id[(it->patch_ * n + iy) * n + ix] = it->id_;
      node[(it->patch_ * n + iy) * n + ix] = std::addressof(*it);
    }
  }
  int at(int patch, int iy, int ix) const { return (patch * n + iy) * n + ix; }
  // rows and weights evaluating component `comp` at patch point x, seen from
  // the element containing x - eps*side (side in {-1,0,1}^2: which element)
  struct Stencil {
    int row0;
    std::vector<double> w;
  };
  Stencil stencil(int patch, const Eigen::Vector2d &x, int comp, int ix, int iy) const {
    Stencil s;
    s.row0 = comp * nel * pp + id[at(patch, iy, ix)] * pp;
    s.w.resize(pp);
    const double u = x(0) * n - ix, v = x(1) * n - iy;
    for (int b = 0; b <= P; ++b)
      for (int a = 0; a <= P; ++a) s.w[b * (P + 1) + a] = (double)(ref::bern(a, P, u) * ref::bern(b, P, v));
    return s;
  }
  Stencil stencil(int patch, const Eigen::Vector2d &x, int comp) const {
    int ix = std::min(n - 1, std::max(0, (int)std::floor(x(0) * n)));
    int iy = std::min(n - 1, std::max(0, (int)std::floor(x(1) * n)));
    return stencil(patch, x, comp, ix, iy);
  }
};
typedef Eigen::Matrix<double, -1, -1, Eigen::RowMajor> RowMat;
template <typename S>
Eigen::RowVectorXd apply(const RowMat &T, const S &s) {
  Eigen::RowVectorXd r = Eigen::RowVectorXd::Zero(T.cols());
  for (size_t i = 0; i < s.w.size(); ++i)
    if (s.w[i] != 0) r += s.w[i] * T.row(s.row0 + i);
  return r;
}
inline double rankGap(const RowMat &T) {  // smallest / largest pivot of T'T
  Eigen::MatrixXd G = T.transpose() * T;
  Eigen::LDLT<Eigen::MatrixXd> l(G);
  Eigen::VectorXd d = l.vectorD();
  return d.size() ? d.minCoeff() / d.maxCoeff() : 1;
}
}  // namespace asp
#endif
