// The shipped sphere, read by an own parser, mapped affinely, patches reordered and their parametrisations rotated.
#ifndef VERIF_SPHERE_HPP_
#define VERIF_SPHERE_HPP_
#include <Bembel/Geometry>
#include <fstream>
#include "vf.hpp"
namespace sph {
using Bembel::Patch;
using Bembel::PatchVector;
inline PatchVector readSphere(const Eigen::Matrix3d &A, const Eigen::Vector3d &b, int variant) {
  std::ifstream in(vf::cat(REPO_DIR, "/geo/sphere.dat"));
  std::string l;
  while (in.peek() == '#') std::getline(in, l);
  int dim, ld, np, x;
  in >> dim >> ld >> np >> x >> x;
  PatchVector r;
  for (int p = 0; p < np; ++p) {
    std::string w;
    int px, py, n[2];
    in >> w >> x >> px >> py >> n[0] >> n[1];
    std::vector<double> k[2];
    k[0].resize(px + 1 + n[0]);
    k[1].resize(py + 1 + n[1]);
    for (auto &v : k)
      for (auto &t : v) in >> t;
    std::vector<Eigen::MatrixXd> c(4, Eigen::MatrixXd(n[1], n[0]));
    for (auto &m : c)
      for (int i = 0; i < n[1]; ++i)
        for (int j = 0; j < n[0]; ++j) in >> m(i, j);
    std::vector<Eigen::MatrixXd> d(4, Eigen::MatrixXd(n[1], n[0]));
    for (int e = 0; e < 3; ++e) d[e] = A(e, 0) * c[0] + A(e, 1) * c[1] + A(e, 2) * c[2] + b(e) * c[3];
    d[3] = c[3];
    for (int t = 0; t < (variant ? (p + 1) % 4 : 0); ++t)
      for (auto &m : d) m = m.transpose().rowwise().reverse().eval();
    r.push_back(Patch(d, k[0], k[1]));
  }
  if (variant) std::rotate(r.begin(), r.begin() + 2, r.end()), std::swap(r[1], r[4]);
  return r;
}
}  // namespace sph
#endif
