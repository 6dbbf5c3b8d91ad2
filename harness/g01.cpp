// G01 / G02: patches evaluate the NURBS they were built from; shredding covers
// the same surface.  PART selects the property.
#include <Eigen/Dense>
#include <Bembel/Geometry>
#include "geo.hpp"
#include "ref.hpp"
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
typedef Eigen::Vector3d V3;
struct Surf {
  geo::Net n;
  int ox, oy;  // orders
  // which span of U contains x; side -1: the one ending in x, +1: starting in x
  static int span(const std::vector<double> &U, int order, double x, int side) {
    int first = order - 1, last = (int)U.size() - order - 1, s = -1;
    for (int i = first; i <= last; ++i) {
      if (!(U[i] < U[i + 1])) continue;
      if (side > 0 ? (U[i] <= x) : (U[i] < x || s < 0)) s = i;
    }
    return s;
  }
  void eval(double x, double y, int sx, int sy, V3 *p, V3 *dx, V3 *dy) const {
    int ix = span(n.kx, ox, x, sx), iy = span(n.ky, oy, y, sy);
    ref::ld f[4] = {0}, fx[4] = {0}, fy[4] = {0};
    const int R = n.xyzw[0].rows(), C = n.xyzw[0].cols();
    for (int r = 0; r < R; ++r) {
      ref::ld by = ref::bsplinePiece(n.ky, r, oy - 1, iy, y), dby = ref::bsplineDerPiece(n.ky, r, oy - 1, iy, y);
      if (by == 0 && dby == 0) continue;
      for (int c = 0; c < C; ++c) {
        ref::ld bx = ref::bsplinePiece(n.kx, c, ox - 1, ix, x), dbx = ref::bsplineDerPiece(n.kx, c, ox - 1, ix, x);
        for (int k = 0; k < 4; ++k) {
          ref::ld q = n.xyzw[k](r, c);
          f[k] += q * bx * by;
          fx[k] += q * dbx * by;
          fy[k] += q * bx * dby;
        }
      }
    }
    for (int k = 0; k < 3; ++k) {
      (*p)(k) = (double)(f[k] / f[3]);
      (*dx)(k) = (double)((fx[k] * f[3] - f[k] * fx[3]) / (f[3] * f[3]));
      (*dy)(k) = (double)((fy[k] * f[3] - f[k] * fy[3]) / (f[3] * f[3]));
    }
  }
};
static std::vector<double> open(int order, const std::vector<double> &inner) {
  std::vector<double> U(order, 0.);
  U.insert(U.end(), inner.begin(), inner.end());
  U.insert(U.end(), order, 1.);
  return U;
}
static Surf surf(int ox, int oy, const std::vector<double> &kx, const std::vector<double> &ky, int style) {
  Surf s;
  s.ox = ox;
  s.oy = oy;
  s.n.kx = open(ox, kx);
  s.n.ky = open(oy, ky);
  const int C = (int)s.n.kx.size() - ox, R = (int)s.n.ky.size() - oy;
  s.n.xyzw.assign(4, Eigen::MatrixXd(R, C));
  for (int r = 0; r < R; ++r)
    for (int c = 0; c < C; ++c) {
      double u = C > 1 ? double(c) / (C - 1) : .5, v = R > 1 ? double(r) / (R - 1) : .5;
      double w = style == 0 ? 1. : 1 + .4 * std::sin(3. * r + 5. * c + style);
      V3 p(2 * u + .1 * std::sin(7. * r), 3 * v + .15 * std::cos(4. * c + r), std::sin(2 * u + v) + .2 * u * v + .1 * ((r * 5 + c * 3) % 4));
      if (style == 2) p = V3(-p(2), p(0), 1e3 + p(1));
      for (int k = 0; k < 3; ++k) s.n.xyzw[k](r, c) = p(k) * w;
      s.n.xyzw[3](r, c) = w;
    }
  return s;
}
static std::vector<double> points(const std::vector<double> &inner, int m) {
  std::vector<double> b = {0}, out;
  for (double k : inner)
    if (k > b.back() + 1e-3) b.push_back(k);
  b.push_back(1);
  for (size_t i = 0; i + 1 < b.size(); ++i)
    for (int k = 0; k <= m; ++k) {
      if (i && k == 0) continue;
      out.push_back(k == m ? b[i + 1] : b[i] + (b[i + 1] - b[i]) * k / m);
    }
  return out;
}
static int mult(const std::vector<double> &inner, double x) {
  int n = 0;
  for (double k : inner) n += std::abs(k - x) < 1e-9;
  return n;
}
static const std::vector<std::vector<double>> INNER = {
    {}, {.5}, {.5, .5}, {.25, .75}, {.3, .3, .6}, {.125, .25, .625}, {.2, .2, .2}, {.4, .4, .7, .7}};
static bool usable(const std::vector<double> &in, int order) {
  for (double k : in)
    if (mult(in, k) > order - 1) return false;  // continuous surfaces only
  return true;
}
static void evalCase(const Surf &s, const std::vector<double> &kx, const std::vector<double> &ky, int m) {
  Patch p = s.n.patch();
  for (double x : points(kx, m))
    for (double y : points(ky, m)) {
      V3 P, DX, DY, q;
      std::vector<V3> jx, jy;
      std::vector<std::pair<V3, V3>> jac;
      bool kinkX = mult(kx, x) >= s.ox - 1 && mult(kx, x) > 0, kinkY = mult(ky, y) >= s.oy - 1 && mult(ky, y) > 0;
      for (int sx = 1; sx >= (kinkX ? -1 : 1); sx -= 2)
        for (int sy = 1; sy >= (kinkY ? -1 : 1); sy -= 2) {
          s.eval(x, y, sx, sy, &P, &DX, &DY);
          jac.push_back({DX, DY});
        }
      vf::state(vf::hash(vf::hstr(vf::ctx().id), (uint64_t)std::lround(x * 4096), (uint64_t)std::lround(y * 4096)));
      auto where = cat(" at (", x, ",", y, ")");
      double sc = 1 + P.norm(), tol = 1e-11 * sc;
      q = p.eval(Eigen::Vector2d(x, y));
      vf::near((q - P).norm(), 0., tol, "eval" + where);
      vf::near((p.eval(x, y) - P).norm(), 0., tol, "eval(x,y)" + where);
      Eigen::Matrix<double, 3, 2> J = p.evalJacobian(Eigen::Vector2d(x, y)), J2 = p.evalJacobian(x, y);
      SurfacePoint sp;
      sp.setConstant(7);
      p.updateSurfacePoint(&sp, Eigen::Vector2d(x, y), .625, Eigen::Vector2d(.25, .875));
      // one-sided derivatives at kinks: any side, but the same data everywhere
      double best = 1e300, js = 1;
      for (auto &j : jac) {
        best = std::min(best, std::max((J.col(0) - j.first).norm(), (J.col(1) - j.second).norm()));
        js = std::max(js, std::max(j.first.norm(), j.second.norm()));
      }
      double jt = 1e-9 * js * sc;
      vf::near(best, 0., jt, "Jacobian" + where);
      vf::near((J - J2).norm(), 0., jt, "Jacobian(x,y)" + where);
      V3 N = J.col(0).cross(J.col(1));
      vf::near((p.evalNormal(Eigen::Vector2d(x, y)) - N).norm(), 0., jt * js, "normal" + where);
      vf::near((p.evalNormal(x, y) - N).norm(), 0., jt * js, "normal(x,y)" + where);
      vf::check(sp(0) == .25 && sp(1) == .875 && sp(2) == .625, "surface point reference data" + where);
      vf::near((sp.segment<3>(3) - P).norm(), 0., tol, "surface point position" + where);
      vf::near((sp.segment<3>(6) - J.col(0)).norm(), 0., jt, "surface point d/dx" + where);
      vf::near((sp.segment<3>(9) - J.col(1)).norm(), 0., jt, "surface point d/dy" + where);
    }
}
static void shredCase(const Surf &s, const std::vector<double> &kx, const std::vector<double> &ky) {
  Patch p = s.n.patch();
  std::vector<Patch> chips = PatchShredder(p);
  auto brk = [](const std::vector<double> &in) {
    std::vector<double> b = {0};
    for (double k : in)
      if (k > b.back() + 1e-3) b.push_back(k);
    b.push_back(1);
    return b;
  };
  std::vector<double> bx = brk(kx), by = brk(ky);
  int nx = (int)bx.size() - 1, ny = (int)by.size() - 1;
  vf::check((int)chips.size() == nx * ny, cat("pieces ", chips.size(), " expected ", nx * ny));
  if (vf::failed()) return;
  const double T[6] = {0, .125, .5, 2. / 3, .9, 1};
  for (int i = 0; i < nx; ++i)
    for (int j = 0; j < ny; ++j) {
      const Patch &c = chips[i * ny + j];
      vf::check(c.unique_knots_x_ == std::vector<double>({0, 1}) && c.unique_knots_y_ == std::vector<double>({0, 1}), "piece still has inner knots");
      vf::check(c.polynomial_degree_x_ == s.ox && c.polynomial_degree_y_ == s.oy, "degree of piece");
      vf::state(vf::hash(vf::hstr(vf::ctx().id), i, j));
      double hx = bx[i + 1] - bx[i], hy = by[j + 1] - by[j];
      for (double u : T)
        for (double v : T) {
          V3 P, DX, DY;
          double x = u == 1 ? bx[i + 1] : bx[i] + hx * u, y = v == 1 ? by[j + 1] : by[j] + hy * v;
          s.eval(x, y, u == 1 ? -1 : 1, v == 1 ? -1 : 1, &P, &DX, &DY);
          double sc = 1 + P.norm(), js = 1 + DX.norm() + DY.norm();
          vf::near((c.eval(u, v) - P).norm(), 0., 1e-11 * sc, cat("piece ", i, ",", j, " at ", u, ",", v));
          Eigen::Matrix<double, 3, 2> J = c.evalJacobian(u, v);
          vf::near((J.col(0) - hx * DX).norm() + (J.col(1) - hy * DY).norm(), 0., 1e-9 * sc * js, cat("tangents of piece ", i, ",", j));
        }
    }
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  const int MO = th ? 6 : 4;
  for (int ox = 2; ox <= MO; ++ox)
    for (int oy = 2; oy <= MO; ++oy)
      for (size_t a = 0; a < INNER.size(); ++a)
        for (size_t b = 0; b < INNER.size(); ++b) {
          if (!usable(INNER[a], ox) || !usable(INNER[b], oy)) continue;
          int size = (ox + (int)INNER[a].size()) * (oy + (int)INNER[b].size());
          if (size > (th ? 100 : 49)) continue;
          for (int style = 0; style < 3; ++style) {
            if (!vf::begin(cat("o", ox, "x", oy, "/k", a, "x", b, "/s", style))) continue;
            Surf s = surf(ox, oy, INNER[a], INNER[b], style);
            if (PART == 1)
              evalCase(s, INNER[a], INNER[b], th ? 6 : 4);
            else
              shredCase(s, INNER[a], INNER[b]);
          }
        }
  if (PART == 1) {
    // high degrees without inner knots
    for (int o = 2; o <= 12; ++o)
      for (int q = 2; q <= 12; q += 5)
        for (int style = 0; style < 3; ++style)
          if (vf::begin(cat("bezier o", o, "x", q, "/s", style))) {
            evalCase(surf(o, q, {}, {}, style), {}, {}, 5);
          }
  } else {
    // collections: every word of length <= 3 over four kinds of patches
    std::vector<Surf> pool = {surf(2, 2, {}, {}, 1), surf(3, 2, {.5}, {}, 1), surf(2, 3, {}, {.25, .75}, 0), surf(3, 3, {.3, .3, .6}, {.5}, 2)};
    for (int len = 0; len <= (th ? 4 : 3); ++len) {
      int total = 1;
      for (int i = 0; i < len; ++i) total *= 4;
      for (int w = 0; w < total; ++w) {
        std::string id = "list";
        std::vector<int> word;
        for (int i = 0, x = w; i < len; ++i, x /= 4) {
          word.push_back(x % 4);
          id += char('0' + x % 4);
        }
        if (!vf::begin(id)) continue;
        vf::state(vf::hstr(id));
        std::vector<Patch> in, exp;
        for (int k : word) {
          in.push_back(pool[k].n.patch());
          for (auto &c : PatchShredder(in.back())) exp.push_back(c);
        }
        std::vector<Patch> got = PatchShredder(in);
        vf::check(got.size() == exp.size(), "number of pieces of a list");
        if (vf::failed()) continue;
        for (size_t i = 0; i < got.size(); ++i)
          for (double u : {0., .3, 1.})
            for (double v : {0., .6, 1.})
              vf::near((got[i].eval(u, v) - exp[i].eval(u, v)).norm(), 0., 1e-11, cat("piece ", i, " of list"));
      }
    }
  }
  return vf::finish();
}
