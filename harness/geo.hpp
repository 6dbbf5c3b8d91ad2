// Geometries for the harnesses: coherently oriented quad meshes turned into
// patches (bilinear, rational or curved), with every rotation of the
// parametrisation and every patch order available.
#ifndef VERIF_GEO_HPP_
#define VERIF_GEO_HPP_
#include <Eigen/Dense>
#include <Bembel/Geometry>
#include <algorithm>
#include <array>
#include <string>
#include <vector>
namespace geo {
using Bembel::Patch;
using Bembel::PatchVector;
typedef Eigen::Vector3d V3;
struct Net {  // tensor product NURBS control net: [k](iy, ix), k = wx, wy, wz, w
  std::vector<Eigen::MatrixXd> xyzw;
  std::vector<double> kx, ky;
  Patch patch() const { return Patch(xyzw, kx, ky); }
};
struct QuadMesh {
  std::string name;
  std::vector<V3> v;
  std::vector<double> w;               // empty: all one
  std::vector<std::array<int, 4>> q;   // corners (0,0) (1,0) (1,1) (0,1)
  double bulge = 0;                    // 0: bilinear; else biquadratic
  int npatch() const { return (int)q.size(); }
};
inline QuadMesh rotated(QuadMesh m, const std::vector<int> &rot) {
  for (size_t i = 0; i < m.q.size(); ++i) {
    std::array<int, 4> c = m.q[i];
    for (int k = 0; k < 4; ++k) m.q[i][k] = c[(k + rot[i]) % 4];
  }
  return m;
}
inline QuadMesh permuted(const QuadMesh &m, const std::vector<int> &perm) {
  QuadMesh r = m;
  for (size_t i = 0; i < m.q.size(); ++i) r.q[i] = m.q[perm[i]];
  return r;
}
inline QuadMesh shifted(QuadMesh m, const V3 &d, double s = 1) {
  for (auto &p : m.v) p = s * p + d;
  m.bulge *= s;
  return m;
}
inline Net net(const QuadMesh &m, int i) {
  const auto &c = m.q[i];
  auto W = [&](int k) { return m.w.empty() ? 1. : m.w[k]; };
  Net n;
  if (m.bulge == 0) {
    n.kx = n.ky = {0, 0, 1, 1};
    n.xyzw.assign(4, Eigen::MatrixXd(2, 2));
    const int X[4] = {0, 1, 1, 0}, Y[4] = {0, 0, 1, 1};
    for (int k = 0; k < 4; ++k) {
      for (int d = 0; d < 3; ++d) n.xyzw[d](Y[k], X[k]) = m.v[c[k]](d) * W(c[k]);
      n.xyzw[3](Y[k], X[k]) = W(c[k]);
    }
  } else {
    n.kx = n.ky = {0, 0, 0, 1, 1, 1};
    n.xyzw.assign(4, Eigen::MatrixXd(3, 3));
    auto set = [&](int y, int x, const V3 &p, double w) {
      for (int d = 0; d < 3; ++d) n.xyzw[d](y, x) = p(d) * w;
      n.xyzw[3](y, x) = w;
    };
    auto mid = [&](int a, int b) {
      V3 s = .5 * (m.v[a] + m.v[b]);
      int lo = std::min(a, b), hi = std::max(a, b);
      return V3(s + m.bulge * V3(std::sin(3. * lo + hi), std::cos(2. * lo - hi), std::sin(1. + lo * hi)));
    };
    auto wmid = [&](int a, int b) { return .5 * (W(a) + W(b)) * (m.w.empty() ? 1. : .85); };
    set(0, 0, m.v[c[0]], W(c[0]));
    set(0, 2, m.v[c[1]], W(c[1]));
    set(2, 2, m.v[c[2]], W(c[2]));
    set(2, 0, m.v[c[3]], W(c[3]));
    set(0, 1, mid(c[0], c[1]), wmid(c[0], c[1]));
    set(1, 2, mid(c[1], c[2]), wmid(c[1], c[2]));
    set(2, 1, mid(c[2], c[3]), wmid(c[2], c[3]));
    set(1, 0, mid(c[3], c[0]), wmid(c[3], c[0]));
    V3 ctr = .25 * (m.v[c[0]] + m.v[c[1]] + m.v[c[2]] + m.v[c[3]]);
    V3 nn = (m.v[c[2]] - m.v[c[0]]).cross(m.v[c[3]] - m.v[c[1]]);
    set(1, 1, ctr + m.bulge * nn, 1.);
  }
  return n;
}
inline PatchVector patches(const QuadMesh &m) {
  PatchVector p;
  for (int i = 0; i < m.npatch(); ++i) p.push_back(net(m, i).patch());
  return p;
}
inline Bembel::Geometry geometry(const QuadMesh &m) { return Bembel::Geometry(patches(m)); }

// the combinatorics of given patches (corners merged up to 1e-8)
inline QuadMesh meshOf(const PatchVector &g, const std::string &name) {
  QuadMesh m;
  m.name = name;
  for (auto &p : g) {
    std::array<int, 4> c;
    const double X[4] = {0, 1, 1, 0}, Y[4] = {0, 0, 1, 1};
    for (int k = 0; k < 4; ++k) {
      V3 x = p.eval(X[k], Y[k]);
      c[k] = -1;
      for (size_t i = 0; i < m.v.size(); ++i)
        if ((m.v[i] - x).norm() < 1e-8) c[k] = (int)i;
      if (c[k] < 0) {
        c[k] = (int)m.v.size();
        m.v.push_back(x);
      }
    }
    m.q.push_back(c);
  }
  return m;
}
inline std::vector<std::string> shipped() {
  return {"cube", "cube_small", "fichera", "pillbox", "platewithholes", "sphere", "square_screen", "tesla_1_cell", "tesla_9_cell", "torus", "toy_boat"};
}

// ---- catalogue --------------------------------------------------------------
inline QuadMesh square() { return {"square", {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}, {}, {{{0, 1, 2, 3}}}, 0}; }
inline QuadMesh skewquad() {
  return {"skewquad", {{.1, .2, .3}, {1.2, .1, .5}, {1.4, 1.1, .2}, {.2, .9, .6}}, {}, {{{0, 1, 2, 3}}}, 0};
}
inline QuadMesh strip(int n) {
  QuadMesh m;
  m.name = "strip" + std::to_string(n);
  for (int i = 0; i <= n; ++i) {
    m.v.push_back({1. * i, .1 * i * i, .3});
    m.v.push_back({1. * i - .1, 1., .3 + .1 * i});
  }
  for (int i = 0; i < n; ++i) m.q.push_back({{2 * i, 2 * i + 2, 2 * i + 3, 2 * i + 1}});
  return m;
}
// n quads around one interior vertex
inline QuadMesh star(int n) {
  QuadMesh m;
  m.name = "star" + std::to_string(n);
  m.v.push_back({.1, .1, .5});
  for (int i = 0; i < n; ++i) {
    double a = 2 * M_PI * i / n, b = 2 * M_PI * (i + .5) / n;
    m.v.push_back({std::cos(a), std::sin(a), .5 + .1 * i});
    m.v.push_back({1.3 * std::cos(b), 1.3 * std::sin(b), .4});
  }
  for (int i = 0; i < n; ++i) m.q.push_back({{0, 1 + 2 * i, 2 + 2 * i, 1 + 2 * ((i + 1) % n)}});
  return m;
}
inline QuadMesh cube() {
  QuadMesh m;
  m.name = "cube";
  for (int i = 0; i < 8; ++i) m.v.push_back({1. * (i & 1), 1. * ((i >> 1) & 1), 1. * (i >> 2)});
  m.q = {{{0, 2, 3, 1}}, {{4, 5, 7, 6}}, {{0, 1, 5, 4}}, {{2, 6, 7, 3}}, {{0, 4, 6, 2}}, {{1, 3, 7, 5}}};
  return m;
}
// two quads glued along all four edges (needs bulge to enclose volume)
inline QuadMesh pillow() {
  QuadMesh m;
  m.name = "pillow";
  m.v = {{0, 0, 0}, {1, 0, 0}, {1, 1, .1}, {0, 1, 0}};
  m.q = {{{0, 1, 2, 3}}, {{0, 3, 2, 1}}};
  m.bulge = .2;
  return m;
}
// open cylinder of n patches; for n = 2 both patches share two edges
inline QuadMesh ring(int n) {
  QuadMesh m;
  m.name = "ring" + std::to_string(n);
  for (int i = 0; i < n; ++i) {
    double a = 2 * M_PI * i / n;
    m.v.push_back({2 + std::cos(a), std::sin(a), 1.});
    m.v.push_back({2 + 1.1 * std::cos(a), 1.1 * std::sin(a), 2.});
  }
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n;
    m.q.push_back({{2 * i, 2 * j, 2 * j + 1, 2 * i + 1}});
  }
  if (n == 2) m.bulge = .3;
  return m;
}
inline QuadMesh torus(int n, int k) {
  QuadMesh m;
  m.name = "torus" + std::to_string(n) + "x" + std::to_string(k);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < k; ++j) {
      double a = 2 * M_PI * i / n, b = 2 * M_PI * j / k;
      double r = 2 + .7 * std::cos(b);
      m.v.push_back({r * std::cos(a), r * std::sin(a), .7 * std::sin(b)});
    }
  auto id = [&](int i, int j) { return (i % n) * k + (j % k); };
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < k; ++j) m.q.push_back({{id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)}});
  return m;
}
inline QuadMesh apart(double gap = 2.) {  // two disjoint quads
  QuadMesh m;
  m.name = "apart";
  m.v = {{0, 0, 0}, {1, 0, 0}, {1, 1, .1}, {0, 1, 0}};
  for (int i = 0; i < 4; ++i) m.v.push_back(m.v[i] + V3(gap + 1, .2, .3));
  m.q = {{{0, 1, 2, 3}}, {{4, 5, 6, 7}}};
  return m;
}
inline QuadMesh vertexTouch() {  // two quads sharing only a corner
  QuadMesh m;
  m.name = "vertexTouch";
  m.v = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {2, 1, .2}, {2, 2, .1}, {1, 2, .1}};
  m.q = {{{0, 1, 2, 3}}, {{2, 4, 5, 6}}};
  return m;
}
inline QuadMesh lshape() {
  QuadMesh m;
  m.name = "lshape";
  m.v = {{0, 0, 1}, {1, 0, 1}, {2, 0, 1}, {0, 1, 1}, {1, 1, 1}, {2, 1, 1.2}, {0, 2, 1}, {1, 2, 1}};
  m.q = {{{0, 1, 4, 3}}, {{1, 2, 5, 4}}, {{3, 4, 7, 6}}};
  return m;
}
// a x b patches of an open surface; the interior vertices have valence 4
inline QuadMesh grid(int a, int b) {
  QuadMesh m;
  m.name = "grid" + std::to_string(a) + "x" + std::to_string(b);
  for (int j = 0; j <= b; ++j)
    for (int i = 0; i <= a; ++i) m.v.push_back({1. * i + .05 * j, 1. * j - .07 * i, .1 * i * i + .05 * i * j + .2});
  auto id = [&](int i, int j) { return j * (a + 1) + i; };
  for (int j = 0; j < b; ++j)
    for (int i = 0; i < a; ++i) m.q.push_back({{id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)}});
  return m;
}
// two adjacent interior vertices of valence a and b; a + b - 2 patches
inline QuadMesh twostar(int a, int b) {
  QuadMesh m;
  m.name = "twostar" + std::to_string(a) + "-" + std::to_string(b);
  auto add = [&](double x, double y) {
    m.v.push_back({x, y, .3 + .05 * x * x + .1 * y});
    return (int)m.v.size() - 1;
  };
  const int A = add(-.5, 0), B = add(.5, 0);
  std::vector<int> sa, sb;
  for (int k = 0; k < a - 1; ++k) {
    double w = M_PI / 2 + M_PI * k / (a - 2);
    sa.push_back(add(-.5 + std::cos(w), std::sin(w)));
  }
  for (int k = 0; k < b - 1; ++k) {
    double w = M_PI / 2 - M_PI * k / (b - 2);
    sb.push_back(add(.5 + std::cos(w), std::sin(w)));
  }
  m.q.push_back({{A, B, sb[0], sa[0]}});
  for (int k = 0; k < a - 2; ++k) {
    double w = M_PI / 2 + M_PI * (k + .5) / (a - 2);
    m.q.push_back({{A, sa[k], add(-.5 + 1.5 * std::cos(w), 1.5 * std::sin(w)), sa[k + 1]}});
  }
  m.q.push_back({{A, sa[a - 2], sb[b - 2], B}});
  for (int k = 0; k < b - 2; ++k) {
    double w = M_PI / 2 - M_PI * (k + .5) / (b - 2);
    m.q.push_back({{B, sb[k + 1], add(.5 + 1.5 * std::cos(w), 1.5 * std::sin(w)), sb[k]}});
  }
  return m;
}
// closed surface, valences 3 and 4: cube with one stacked cube (10 patches)
inline QuadMesh curved(QuadMesh m, double b = .08) {
  m.bulge = b;
  m.name += "~";
  return m;
}
inline QuadMesh weighted(QuadMesh m) {
  m.w.clear();
  for (size_t i = 0; i < m.v.size(); ++i) m.w.push_back(1. + .35 * ((i * 7) % 3) - .2 * (i % 2));
  m.name += "%";
  return m;
}
}  // namespace geo
#endif
