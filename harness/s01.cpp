// S01: spline routines evaluate the mathematically defined basis functions.
// Bounded space: all degrees 0..20 (Bernstein, compile-time and run-time
// dispatch), all open knot vectors with inner knots from a small alphabet and
// every multiplicity, evaluation points incl. end points and knots.

#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <cassert>
#include <Bembel/Spline>
#include <utility>
#include "vf.hpp"
#include "ref.hpp"
using namespace Bembel;
using vf::cat;
static const double PTS[] = {0., 1., .5, 1. / 3., .25, .1, .77, .999, 1e-7, .62};
static const double TOL = 2e-12;

template <int P>
void bernsteinDegree() {
  if (!vf::begin(cat("bernstein:P=", P))) return;
  double co[P + 2];
  for (double x : PTS) {
    vf::state(vf::hash(1, P, vf::hstr(cat(x))));
    ref::ld val[P + 1], der[P + 1];
    for (int i = 0; i <= P; ++i) val[i] = ref::bern(i, P, x), der[i] = ref::bernDer(i, P, x);
    double scale = 1 + P * 4;
    double b[P + 2];
    for (int i = 0; i < P + 2; ++i) b[i] = 777;
    Basis::EvalBernsteinBasis<double, P>(b, x);
    for (int i = 0; i <= P; ++i) vf::near(b[i], val[i], TOL, cat("EvalBernsteinBasis i=", i, " x=", x));
    vf::check(b[P + 1] == 777, "basis wrote past the end");
    Basis::EvalBernsteinDerBasis<double, P>(b, x);
    for (int i = 0; i <= P; ++i) vf::near(b[i], der[i], TOL * scale, cat("EvalBernsteinDerBasis i=", i, " x=", x));
    vf::check(b[P + 1] == 777, "derivative basis wrote past the end");
    for (int i = 0; i <= P; ++i) b[i] = i + .25;
    Basis::EvalBernsteinBasisPEQ<double, P>(b, x);
    for (int i = 0; i <= P; ++i) vf::near(b[i], val[i] + i + .25, 1e-11, cat("EvalBernsteinBasisPEQ i=", i, " x=", x));
    for (int i = 0; i <= P; ++i) b[i] = i + .25;
    Basis::EvalBernsteinDerBasisPEQ<double, P>(b, x);
    for (int i = 0; i <= P; ++i) vf::near(b[i], der[i] + i + .25, 1e-11 * scale, cat("EvalBernsteinDerBasisPEQ i=", i, " x=", x));
    // unit coefficient vectors and one dense one
    for (int k = 0; k <= P + 1; ++k) {
      ref::ld e = 0, d = 0;
      for (int i = 0; i <= P; ++i) {
        co[i] = k <= P ? (i == k) : (1. + i * .5 - (i % 3));
        e += co[i] * val[i];
        d += co[i] * der[i];
      }
      co[P + 1] = 1e300;
      double t = TOL * 40 * scale;
      vf::near((double)(Basis::EvalBernstein<double, P>(co, x)), e, t, cat("EvalBernstein k=", k, " x=", x));
      vf::near((double)(Basis::EvalBernsteinDer<double, P>(co, x)), d, t * scale, cat("EvalBernsteinDer k=", k, " x=", x));
      std::vector<double> xs = {x, .5, x};
      std::vector<double> r = Basis::EvalBernstein<double, P>(co, xs);
      std::vector<double> rd = Basis::EvalBernsteinDer<double, P>(co, xs);
      double q[3], qd[3];
      Basis::EvalBernstein<double, P>(co, xs, q);
      Basis::EvalBernsteinDer<double, P>(co, xs, qd);
      ref::ld e5 = 0, d5 = 0;
      for (int i = 0; i <= P; ++i) e5 += co[i] * ref::bern(i, P, .5), d5 += co[i] * ref::bernDer(i, P, .5);
      vf::check(r.size() == 3 && rd.size() == 3, "list evaluation size");
      for (int m = 0; m < 3; ++m) {
        vf::near(r[m], m == 1 ? e5 : e, t, cat("list EvalBernstein m=", m));
        vf::near(rd[m], m == 1 ? d5 : d, t * scale, cat("list EvalBernsteinDer m=", m));
        vf::near(q[m], m == 1 ? e5 : e, t, cat("array EvalBernstein m=", m));
        vf::near(qd[m], m == 1 ? d5 : d, t * scale, cat("array EvalBernsteinDer m=", m));
      }
      // run-time dispatch
      vf::near(Basis::ShapeFunctionHandler::evalCoef(P, co, x), e, t, cat("evalCoef p=", P));
      vf::near(Basis::ShapeFunctionHandler::evalDerCoef(P, co, x), d, t * scale, cat("evalDerCoef p=", P));
    }
    for (int m = 0; m < 4; ++m) {
      for (int i = 0; i < P + 2; ++i) b[i] = 777;
      if (m == 0) Basis::ShapeFunctionHandler::evalBasis(P, b, x);
      if (m == 1) Basis::ShapeFunctionHandler::ptrEvalBasis(P)(b, x);
      if (m == 2) Basis::ShapeFunctionHandler::evalDerBasis(P, b, x);
      if (m == 3) Basis::ShapeFunctionHandler::ptrEvalDerBasis(P)(b, x);
      for (int i = 0; i <= P; ++i) vf::near(b[i], m < 2 ? val[i] : der[i], TOL * scale, cat("runtime basis route ", m, " i=", i, " x=", x));
      vf::check(b[P + 1] == 777, "runtime basis wrote past the end");
    }
  }
}
template <int... P>
void allDegrees(std::integer_sequence<int, P...>) {
  int d[] = {(bernsteinDegree<P>(), 0)...};
  (void)d;
}

// Basis:: routines (accumulating, tensor product) for run-time degree p
template <typename S>
void basisRoutes(int p) {
  if (!vf::begin(cat("basis:", sizeof(S) == 8 ? "real" : "complex", ":p=", p))) return;
  typedef Basis::BasisHandler<S> BH;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> V;
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
  const int I = p + 1;
  const S w = S(1.25);
  double tol = 1e-11 * (1 + p * p * 20.);
  for (double x : PTS) {
    for (int m = 0; m < 4; ++m) {
      V c(I);
      for (int i = 0; i < I; ++i) c(i) = S(i - .5);
      if (m == 0) BH::phi(p, &c, w, x);
      if (m == 1) BH::funPtrPhi(p)(&c, w, x);
      if (m == 2) BH::phiDx(p, &c, w, x);
      if (m == 3) BH::funPtrPhiDx(p)(&c, w, x);
      for (int i = 0; i < I; ++i)
        vf::near(std::complex<double>(c(i)), std::complex<double>(S(i - .5) + w * S((double)(m < 2 ? ref::bern(i, p, x) : ref::bernDer(i, p, x)))), tol, cat("phi route ", m, " i=", i, " x=", x));
    }
    for (double y : {0., .3, 1., .71}) {
      vf::state(vf::hash(2, p, vf::hstr(cat(x, ",", y))));
      Eigen::Vector2d a(x, y), bpt(y, x);
      auto B = [&](int i, double t) { return (double)ref::bern(i, p, t); };
      auto D = [&](int i, double t) { return (double)ref::bernDer(i, p, t); };
      for (int m = 0; m < 6; ++m) {
        V c(I * I);
        for (int i = 0; i < I * I; ++i) c(i) = S(.125 * i);
        if (m == 0) BH::phiPhi(p, &c, w, a);
        if (m == 1) BH::funPtrPhiPhi(p)(&c, w, a);
        if (m == 2) BH::phiPhiDx(p, &c, w, a);
        if (m == 3) BH::funPtrPhiPhiDx(p)(&c, w, a);
        if (m == 4) BH::phiPhiDy(p, &c, w, a);
        if (m == 5) BH::funPtrPhiPhiDy(p)(&c, w, a);
        for (int iy = 0; iy < I; ++iy)
          for (int ix = 0; ix < I; ++ix) {
            double e = m < 2 ? B(ix, x) * B(iy, y) : m < 4 ? D(ix, x) * B(iy, y) : B(ix, x) * D(iy, y);
            vf::near(std::complex<double>(c(iy * I + ix)), std::complex<double>(S(.125 * (iy * I + ix)) + w * S(e)), tol, cat("phiPhi route ", m, " ix=", ix, " iy=", iy, " at ", x, ",", y));
          }
      }
      if (p <= 3 || (x == PTS[3] && y == .3 && (p <= 6 || vf::thorough()))) {
        for (int m = 0; m < 2; ++m) {
          M c = M::Constant(I * I, I * I, S(.5));
          if (m == 0) BH::phiTimesPhi(p, &c, w, a, bpt); else BH::funPtrPhiTimesPhi(p)(&c, w, a, bpt);
          for (int i = 0; i < I * I; ++i)
            for (int j = 0; j < I * I; ++j) {
              double e = B(i % I, x) * B(i / I, y) * B(j % I, y) * B(j / I, x);
              vf::near(std::complex<double>(c(i, j)), std::complex<double>(S(.5) + w * S(e)), tol, cat("phiTimesPhi ", i, ",", j));
            }
          M d = M::Constant(2 * I * I, 2 * I * I, S(.5));
          if (m == 0) BH::divPhiTimesDivPhi(p, &d, w, a, bpt); else BH::funPtrDivPhiTimesDivPhi(p)(&d, w, a, bpt);
          for (int i = 0; i < 2 * I * I; ++i)
            for (int j = 0; j < 2 * I * I; ++j) {
              int ii = i % (I * I), jj = j % (I * I);
              double u = i < I * I ? D(ii % I, x) * B(ii / I, y) : B(ii % I, x) * D(ii / I, y);
              double v = j < I * I ? D(jj % I, y) * B(jj / I, x) : B(jj % I, y) * D(jj / I, x);
              vf::near(std::complex<double>(d(i, j)), std::complex<double>(S(.5) + w * S(u * v)), tol * (1 + p * p), cat("divPhiTimesDivPhi ", i, ",", j));
            }
        }
      }
    }
  }
}

// ---- knot vectors -----------------------------------------------------------
typedef std::vector<double> KV;
// all open knot vectors of degree p with inner knots from alphabet `al`, each
// with multiplicity 0..maxm
void knotVectors(int p, const std::vector<double> &al, int maxm, std::vector<KV> *out) {
  int n = al.size(), tot = 1;
  for (int i = 0; i < n; ++i) tot *= (maxm + 1);
  for (int c = 0; c < tot; ++c) {
    KV k(p + 1, 0.);
    int r = c;
    for (int i = 0; i < n; ++i, r /= (maxm + 1))
      for (int j = 0; j < r % (maxm + 1); ++j) k.push_back(al[i]);
    for (int i = 0; i <= p; ++i) k.push_back(1.);
    out->push_back(k);
  }
}
std::string str(const KV &k) {
  std::string s;
  for (double d : k) s += cat(d, ",");
  return s;
}
std::vector<double> evalPoints(const KV &k) {
  std::vector<double> p = {0., 1., .5, .25, .13, .6, .875, .99};
  for (double d : k) p.push_back(d);
  return p;
}

void deBoorCase(int p, const KV &k) {
  if (!vf::begin(cat("deboor:p=", p, ":k=", str(k)))) return;
  int n = k.size() - p - 1;
  std::vector<double> pts = evalPoints(k);
  // every unit vector as the rows of one control net (identity) + dense row
  Eigen::MatrixXd C(n + 1, n);
  C.setIdentity();
  for (int i = 0; i < n; ++i) C(n, i) = 1.5 - .37 * i + (i % 4);
  Eigen::MatrixXd V = Spl::DeBoor<double>(C, k, pts);
  vf::check(V.rows() == n + 1 && V.cols() == (int)pts.size(), "DeBoor result shape");
  std::vector<Eigen::MatrixXd> Cs = {C, 2. * C}, Vs = Spl::DeBoor<double>(Cs, k, pts);
  Eigen::MatrixXd D;
  std::vector<Eigen::MatrixXd> Ds;
  bool der = p >= 1;
  // a derivative exists classically where the spline is continuous
  for (size_t i = 1; i + p + 1 < k.size() && der; ++i)
    if (k[i] == k[i + p] && i > 0 && i < (size_t)n) der = der && !(k[i] > 0 && k[i] < 1);
  if (der) {
    D = Spl::DeBoorDer<double>(C, k, pts);
    Ds = Spl::DeBoorDer<double>(Cs, k, pts);
    std::vector<Eigen::MatrixXd> G = Spl::deBoorDerGiveData<double>(Cs, k);
    KV k1(k.begin() + 1, k.end() - 1);
    std::vector<Eigen::MatrixXd> D2 = Spl::DeBoor<double>(G, k1, pts);
    for (size_t j = 0; j < pts.size(); ++j)
      for (int i = 0; i <= n; ++i) {
        vf::near(D2[0](i, j), D(i, j), 1e-9, "deBoorDerGiveData");
        vf::near(D2[1](i, j), 2 * D(i, j), 1e-9, "deBoorDerGiveData[1]");
      }
  }
  for (size_t j = 0; j < pts.size(); ++j) {
    vf::state(vf::hash(3, p, vf::hstr(str(k)), vf::hstr(cat(pts[j]))));
    ref::ld sum = 0, dsum = 0, abssum = 0;
    for (int i = 0; i < n; ++i) {
      ref::ld e = ref::bspline(k, i, p, pts[j]);
      vf::near(V(i, j), e, 1e-12, cat("DeBoor N_", i, "(", pts[j], ")"));
      vf::near(Vs[0](i, j), e, 1e-12, cat("multi DeBoor N_", i, "(", pts[j], ")"));
      vf::near(Vs[1](i, j), 2 * e, 1e-12, "multi DeBoor second component");
      sum += C(n, i) * e;
      if (der) {
        ref::ld d = ref::bsplineDer(k, i, p, pts[j]);
        vf::near(D(i, j), d, 1e-9, cat("DeBoorDer N_", i, "(", pts[j], ")"));
        vf::near(Ds[0](i, j), d, 1e-9, "multi DeBoorDer");
        vf::near(Ds[1](i, j), 2 * d, 1e-9, "multi DeBoorDer second component");
        dsum += C(n, i) * d;
        abssum += std::abs(C(n, i) * d);
      }
    }
    vf::near(V(n, j), sum, 1e-11, "DeBoor linear combination");
    if (der) vf::near(D(n, j), dsum, 1e-9 * (1 + (double)abssum), "DeBoorDer linear combination");
  }
  // vector overload
  for (int r : {0, n / 2, n}) {
    std::vector<double> c(n);
    for (int i = 0; i < n; ++i) c[i] = C(r, i);
    std::vector<double> v = Spl::DeBoor<double>(c, k, pts);
    vf::check(v.size() == pts.size(), "vector DeBoor size");
    for (size_t j = 0; j < pts.size(); ++j) vf::near(v[j], V(r, j), 1e-12, "vector DeBoor");
  }
}

void tensorCase(int px, const KV &kx, int py, const KV &ky) {
  if (!vf::begin(cat("tp:px=", px, ":kx=", str(kx), ":py=", py, ":ky=", str(ky)))) return;
  int nx = kx.size() - px - 1, ny = ky.size() - py - 1;
  std::vector<double> ex = {0., 1., .5, .3}, ey = {1., .25, 0., .5, .8};
  Eigen::MatrixXd C(ny, nx);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) C(i, j) = std::sin(1. + 3.7 * i + 1.3 * j);
  // documented layout: rows of the control net run in y, columns in x
  for (int m = 0; m < 4; ++m) {
    bool dx = m & 1, dy = m & 2;
    if ((dx && px < 1) || (dy && py < 1)) continue;
    Eigen::MatrixXd R = m == 0 ? Spl::DeBoorTP<double>(C, kx, ky, ex, ey) : Spl::DeBoorTPDer<double>(C, kx, ky, ex, ey, dx, dy);
    std::vector<Eigen::MatrixXd> Cs = {C, -C};
    std::vector<Eigen::MatrixXd> Rs = m == 0 ? Spl::DeBoorTP<double>(Cs, kx, ky, ex, ey) : Spl::DeBoorTPDer<double>(Cs, kx, ky, ex, ey, dx, dy);
    if (R.rows() != (int)ex.size() || R.cols() != (int)ey.size()) return vf::fail("DeBoorTP shape");
    for (size_t a = 0; a < ex.size(); ++a)
      for (size_t b = 0; b < ey.size(); ++b) {
        vf::state(vf::hash(4, m, px, py, vf::hstr(str(kx) + "|" + str(ky)), a, b));
        ref::ld s = 0;
        for (int i = 0; i < ny; ++i)
          for (int j = 0; j < nx; ++j)
            s += C(i, j) * (dx ? ref::bsplineDer(kx, j, px, ex[a]) : ref::bspline(kx, j, px, ex[a])) * (dy ? ref::bsplineDer(ky, i, py, ey[b]) : ref::bspline(ky, i, py, ey[b]));
        double tol = 1e-9 * (1 + std::abs((double)s));
        vf::near(R(a, b), s, tol, cat("DeBoorTP(der) mode ", m, " at ", ex[a], ",", ey[b]));
        vf::near(Rs[0](a, b), s, tol, "multi DeBoorTP");
        vf::near(Rs[1](a, b), -s, tol, "multi DeBoorTP second component");
      }
  }
}

// Bezier extraction: for every unit control point the Bernstein pieces given by
// the projection equal the B-spline
void extractionCase(int px, const KV &kx, int py, const KV &ky) {
  if (!vf::begin(cat("extract:px=", px, ":kx=", str(kx), ":py=", py, ":ky=", str(ky)))) return;
  auto ux = Spl::ExtractUniqueKnotVector(kx), uy = Spl::ExtractUniqueKnotVector(ky);
  int ox = px + 1, oy = py + 1;
  Eigen::SparseMatrix<double> P = Spl::MakeProjection<double>(kx, ky, ux, uy, ox, oy);
  int nx = kx.size() - ox, ny = ky.size() - oy, mx = (ux.size() - 1) * ox, my = (uy.size() - 1) * oy;
  vf::check(P.rows() == mx * my && P.cols() == nx * ny, "projection shape");
  if (vf::failed()) return;
  Eigen::MatrixXd D = P;
  for (size_t ex = 0; ex + 1 < ux.size(); ++ex)
    for (size_t ey = 0; ey + 1 < uy.size(); ++ey)
      for (double s : {0.15, .5, .9})
        for (double t : {0.2, .65}) {
          double x = ux[ex] + s * (ux[ex + 1] - ux[ex]), y = uy[ey] + t * (uy[ey + 1] - uy[ey]);
          vf::state(vf::hash(5, px, py, vf::hstr(str(kx) + "|" + str(ky)), ex * 100 + ey, (int)(s * 100), (int)(t * 100)));
          for (int i = 0; i < nx; ++i)
            for (int j = 0; j < ny; ++j) {
              ref::ld v = 0, e = ref::bspline(kx, i, px, x) * ref::bspline(ky, j, py, y);
              for (int a = 0; a < ox; ++a)
                for (int b = 0; b < oy; ++b)
                  v += D((ex * ox + a) * my + ey * oy + b, i * ny + j) * ref::bern(a, px, s) * ref::bern(b, py, t);
              vf::near((double)v, (double)e, 1e-9, cat("Bezier extraction of N_", i, " x N_", j, " at ", x, ",", y));
            }
        }
}

void knotHelpers() {
  for (int p1 = 1; p1 <= 8; ++p1)
    for (int in = 0; in <= 7; ++in)
      for (int rep = 0; rep <= p1; ++rep) {
        if (!vf::begin(cat("knots:order=", p1, ":in=", in, ":rep=", rep))) continue;
        if (rep == 0 && in > 0) { vf::state(1); continue; }
        KV k = Spl::MakeUniformKnotVector(p1, in, rep), e;
        for (int i = 0; i < p1; ++i) e.push_back(0);
        for (int i = 1; i <= in; ++i)
          for (int r = 0; r < rep; ++r) e.push_back((double)i / (in + 1));
        for (int i = 0; i < p1; ++i) e.push_back(1);
        vf::state(vf::hash(6, p1, in, rep));
        vf::check(k.size() == e.size(), "uniform knot vector size");
        if (k.size() == e.size())
          for (size_t i = 0; i < e.size(); ++i) vf::near(k[i], e[i], 1e-14, "uniform knot");
        vf::check(Spl::GetPolynomialDegreeFromKnotVector(e) == p1, "degree from knot vector");
        if (rep == 1) { KV k2 = Spl::MakeUniformKnotVector(p1, in); vf::check(k2 == k, "two-argument uniform knots"); }
        if (in == 0) { KV b = Spl::MakeBezierKnotVector(p1); vf::check(b == e, "Bezier knot vector"); }
        KV u = Spl::ExtractUniqueKnotVector(e);
        vf::check((int)u.size() == in + 2, "unique knots count");
        if ((int)u.size() == in + 2)
          for (int i = 0; i < in + 2; ++i) vf::near(u[i], (double)i / (in + 1), 1e-14, "unique knot");
        // location in the unique knot vector: half-open spans, last one closed
        for (int i = 0; i <= in; ++i) {
          for (double s : {0., .25, .5, .999}) {
            double x = u[i] + s * (u[i + 1] - u[i]);
            vf::check(Spl::FindLocationInKnotVector(x, u) == i, cat("location of ", x));
          }
        }
        vf::check(Spl::FindLocationInKnotVector(1., u) == in, "location of right end");
      }
  // interpolation helpers: mask, points, inverse matrix, coefficients
  for (int p = 0; p <= 10; ++p) {
    if (!vf::begin(cat("interp:p=", p))) continue;
    auto mask = Spl::MakeInterpolationMask(p + 1);
    vf::check((int)mask.size() == p + 1, "mask size");
    for (int i = 0; i <= p; ++i) vf::near(mask[i], (i + 1.) / (p + 2.), 1e-14, "mask");
    std::vector<double> u = {0., .25, .5, 1.};
    auto pts = Spl::MakeInterpolationPoints<double>(u, mask);
    vf::check((int)pts.size() == 3 * (p + 1), "interpolation points size");
    for (int e = 0; e < 3; ++e)
      for (int i = 0; i <= p; ++i) vf::near(pts[e * (p + 1) + i], u[e] + mask[i] * (u[e + 1] - u[e]), 1e-14, "interpolation point");
    Eigen::MatrixXd M = Spl::GetInterpolationMatrix(p, mask), B(p + 1, p + 1);
    for (int i = 0; i <= p; ++i)
      for (int j = 0; j <= p; ++j) B(i, j) = ref::bern(j, p, mask[i]);
    double r = (M * B - Eigen::MatrixXd::Identity(p + 1, p + 1)).cwiseAbs().maxCoeff();
    vf::near(r, 0, 1e-7, "interpolation matrix inverse");
    for (int k = 0; k <= p; ++k) {
      vf::state(vf::hash(7, p, k));
      std::vector<double> vals;
      for (int e = 0; e < 3; ++e)
        for (int i = 0; i <= p; ++i) vals.push_back((e + 1) * ref::bern((k + e) % (p + 1), p, mask[i]));
      auto c = Spl::GetCoefficients<double>(3, mask, vals);
      vf::check((int)c.size() == 3 * (p + 1), "coefficients size");
      for (int e = 0; e < 3; ++e)
        for (int i = 0; i <= p; ++i) vf::near(c[e * (p + 1) + i], (e + 1) * ((k + e) % (p + 1) == i), 1e-6, "coefficients of interpolant");
    }
  }
  for (int r = 1; r <= 4; ++r)
    for (int c = 1; c <= 4; ++c) {
      if (!vf::begin(cat("unroll:", r, "x", c))) continue;
      Eigen::MatrixXd m(r, c);
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = 10 * i + j;
      Eigen::VectorXd v = Spl::Unroll<double>(m);
      vf::check(v.size() == r * c, "unroll size");
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) vf::near(v(j * r + i), m(i, j), 0, "unroll order");
      vf::state(vf::hash(8, r, c));
      for (double a : {0., .25}) for (double b : {1., .75}) for (double x : {a, b, .5}) vf::near(Spl::Rescale(x, a, b), (x - a) / (b - a), 1e-15, "rescale");
    }
}

int main(int argc, char **argv) {
  vf::init(argc, argv);
  bool T = vf::thorough();
  allDegrees(std::make_integer_sequence<int, 21>());
  for (int p = 0; p <= (T ? 20 : 12); ++p) basisRoutes<double>(p);
  for (int p : {16, 19, 20}) if (!T) basisRoutes<double>(p);
  for (int p = 0; p <= 4; ++p) basisRoutes<std::complex<double>>(p);
  knotHelpers();
  for (int p = 0; p <= (T ? 5 : 4); ++p) {
    std::vector<KV> ks;
    knotVectors(p, {.25, .5, .8}, p + 1, &ks);
    for (auto &k : ks) deBoorCase(p, k);
  }
  for (int p = 5; p <= 19; ++p) {
    std::vector<KV> ks;
    knotVectors(p, {.5}, p, &ks);
    for (auto &k : ks) if (ks.size() < 12 || T || (&k - &ks[0]) % 3 == 0) deBoorCase(p, k);
  }
  std::vector<std::pair<int, KV>> tk;
  for (int p = 0; p <= 3; ++p) {
    std::vector<KV> ks;
    knotVectors(p, {.5}, p + (p == 0), &ks);
    if (T || p == 2) knotVectors(p, {.25, .75}, 1, &ks);
    for (auto &k : ks) tk.push_back({p, k});
  }
  auto ok = [](int p, const KV &k) {  // continuous (so derivatives exist)
    int m = 0;
    for (double d : k) m += d == .5;
    return m <= p;
  };
  for (auto &a : tk)
    for (auto &b : tk) {
      if (ok(a.first, a.second) && ok(b.first, b.second)) tensorCase(a.first, a.second, b.first, b.second);
      extractionCase(a.first, a.second, b.first, b.second);
    }
  return vf::finish();
}
