// O01: structural identities of the boundary operators.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/DuffyTrick>
#include <Bembel/Helmholtz>
#include <Bembel/Laplace>
#include <Bembel/LinearOperator>
#include <Bembel/Maxwell>
#include <Eigen/Geometry>
#include "asp.hpp"
#include "gauss.hpp"
using namespace Bembel;
using namespace asp;
using vf::cat;
typedef std::complex<double> cd;
typedef Eigen::Vector3d V3;
typedef Eigen::MatrixXcd MC;
typedef Eigen::MatrixXd MD;
typedef Eigen::VectorXcd VC;
static bool calib = getenv("O01_CALIBRATE") != nullptr;
static void bounded(double err, double tol, const std::string &what) {
  if (calib)
    std::cerr << what << " " << vf::ctx().id << " err " << err << " tol " << tol << " ratio " << err / tol << "\n";
  else
    vf::near(err / tol, 0, 1., cat(what, " (error ", err, " allowed ", tol, ")"));
}
template <typename O> static auto wave(O *o, cd k) -> decltype(o->set_wavenumber(k), void()) { o->set_wavenumber(k); }
static void wave(...) {}
template <typename Op>
MC assemble(const AnsatzSpace<Op> &as, cd k) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  DiscreteOperator<Eigen::Matrix<S, -1, -1>, Op> d(as);
  wave(&d.get_linear_operator(), k);
  d.compute();
  return d.get_discrete_operator().template cast<cd>();
}
template <typename Op>
MC assemble(const QuadMesh &m, int L, int P, int K, cd k) {
  return assemble(AnsatzSpace<Op>(geo::geometry(m), L, P, K), k);
}
template <typename Op>
MC trans(const QuadMesh &m, int L, int P, int K) {
  AnsatzSpace<Op> as(geo::geometry(m), L, P, K);
  return MD(as.get_transformation_matrix()).cast<cd>();
}
// with respect to all piecewise polynomials (Bernstein / h on each element)
template <typename Op>
MC local(const QuadMesh &m, int L, int P, cd k) {
  MC A = assemble<Op>(m, L, P, P + 1, k), Ti = trans<Op>(m, L, P, P + 1).fullPivLu().inverse();
  return Ti.transpose() * (A * Ti);
}
// Gram matrix of the local functions, and the coefficients representing f
struct Local {
  PatchVector pv;
  AnsatzSpace<LaplaceSingleLayerOperator> as;
  Elements<LaplaceSingleLayerOperator> el;
  Local(const QuadMesh &m, int L, int P) : pv(geo::patches(m)), as(Geometry(pv), L, P, 1), el(as.get_superspace()) {}
  template <typename F>
  void each(int n, F f) const {
    const double h = 1. / el.n;
    auto &Q = gs::rule(n);
    for (size_t p = 0; p < pv.size(); ++p)
      for (int iy = 0; iy < el.n; ++iy)
        for (int ix = 0; ix < el.n; ++ix)
          for (auto &b : Q)
            for (auto &a : Q) {
              const double X = (ix + a.x) * h, Y = (iy + b.x) * h;
              auto J = pv[p].evalJacobian(X, Y);
              Eigen::VectorXd B(el.pp);
              for (int j = 0; j <= el.P; ++j)
                for (int i = 0; i <= el.P; ++i) B(j * (el.P + 1) + i) = el.n * double(ref::bern(i, el.P, a.x) * ref::bern(j, el.P, b.x));
              f(el.id[el.at((int)p, iy, ix)] * el.pp, B, pv[p].eval(X, Y), V3(J.col(0)), V3(J.col(1)), a.w * b.w * h * h);
            }
  }
  MC gram() const {
    MC G = MC::Zero(el.pp * el.nel, el.pp * el.nel);
    each(el.P + 8, [&](int r, const Eigen::VectorXd &B, const V3 &, const V3 &d, const V3 &e, double w) { G.block(r, r, el.pp, el.pp) += (d.cross(e).norm() * w * B * B.transpose()).cast<cd>(); });
    return G;
  }
  // L2 projection on every element
  template <typename F>
  VC project(F f) const {
    MC G = gram();
    VC b = VC::Zero(G.rows());
    each(el.P + 8, [&](int r, const Eigen::VectorXd &B, const V3 &x, const V3 &d, const V3 &e, double w) {
      const V3 n = d.cross(e);
      b.segment(r, el.pp) += f(x, V3(n.normalized())) * (n.norm() * w) * B.cast<cd>();
    });
    return G.ldlt().solve(b);
  }
  // sign of the normal: +1 outward (the origin of star is inside)
  double outward(const V3 &inside) const { return pv[0].evalNormal(.5, .5).dot(pv[0].eval(.5, .5) - inside) > 0 ? 1 : -1; }
};
static double mx(const MC &a) { return a.size() ? a.cwiseAbs().maxCoeff() : 0.; }
static std::string kname(cd k) { return cat("k", k.real(), ",", k.imag()); }
// geometries: all rotations from a family of them
static std::vector<QuadMesh> family(bool closedOnly) {
  std::vector<QuadMesh> r;
  auto rots = [&](const QuadMesh &m, int n) {
    for (int i = 0; i < n; ++i) {
      std::vector<int> v;
      for (int p = 0; p < m.npatch(); ++p) v.push_back((i * (p + 1) + i / 4 * p * p) % 4);
      QuadMesh q = geo::rotated(m, v);
      q.name = cat(m.name, "/r", i);
      r.push_back(q);
    }
  };
  rots(geo::cube(), 8);
  rots(geo::curved(geo::cube()), 4);
  rots(geo::torus(3, 3), 2);
  if (!closedOnly) {
    rots(geo::curved(geo::strip(2)), 16);
    rots(geo::star(3), 8);
    rots(geo::skewquad(), 4);
    rots(geo::weighted(geo::strip(3)), 4);
    rots(geo::apart(.5), 4);
  }
  return r;
}
static bool closed(const QuadMesh &m) {
  for (auto &e : edges(m))
    if (e.p2 < 0) return false;
  return true;
}
static const std::vector<cd> KS = {1., cd(2, -.5), cd(0, -1.5), cd(.5, .5), 6.};
template <typename Op>
struct Is {
  static constexpr bool helm = false;
};
template <> struct Is<HelmholtzSingleLayerOperator> { static constexpr bool helm = true; };
template <> struct Is<HelmholtzDoubleLayerOperator> { static constexpr bool helm = true; };
template <> struct Is<HelmholtzAdjointDoubleLayerOperator> { static constexpr bool helm = true; };
template <> struct Is<HelmholtzHypersingularOperator> { static constexpr bool helm = true; };
template <> struct Is<MaxwellSingleLayerOperator> { static constexpr bool helm = true; };
static QuadMesh moved(QuadMesh m, const Eigen::Matrix3d &R, const V3 &t, double s) {
  for (auto &p : m.v) p = s * (R * p) + t;
  return m;
}
// Lap: the Laplace counterpart (or void), sym: expected symmetric
template <typename Op, typename Lap>
static void basics(const std::string &nm, bool sym, double scalePower) {
  const bool th = vf::thorough();
  const bool disc = LinearOperatorTraits<Op>::Form == DifferentialForm::Discontinuous;
  const int P0 = disc ? 0 : 1;
  const bool scalarOp = LinearOperatorTraits<Op>::Form != DifferentialForm::DivConforming;
  for (auto &m : family(false))
    for (int L = 0; L <= (m.npatch() < 6 || th ? 2 : 1); ++L)
      for (int P = P0; P <= P0 + (L == 2 ? 0 : L == 1 ? 1 : 2) + (th && L < 2); ++P)
        for (int K = 1; K <= P + disc; ++K) {
          if (K > 1 && (L == 0 || (K > 2 && !th))) continue;
          if (m.npatch() > 6 && (L > 0 || P > P0) && !th) continue;
          if (!scalarOp && !th && (L > 1 || (L == 1 && P > P0) || P > P0 + 1 || (m.npatch() >= 6 && L > 0))) continue;
          const bool fine = m.npatch() < 4;
          for (cd k : Is<Op>::helm ? KS : std::vector<cd>{0.}) {
            if (Is<Op>::helm && !th && k != KS[(L + P + m.npatch()) % KS.size()] && !(fine && L == 0)) continue;
            if (!vf::begin(cat(nm, "/", m.name, "/L", L, "P", P, "K", K, "/", kname(k)))) continue;
            vf::state(vf::hstr(vf::ctx().id));
            Geometry g(geo::geometry(m));
            AnsatzSpace<Op> as(g, L, P, K);
            MC A = assemble(as, k);
            vf::check(A.rows() == as.get_number_of_dofs() && A.cols() == A.rows(), "size");
            if (vf::failed()) return;
            const double a = mx(A);
            vf::check(a > 0 && std::isfinite(a), "finite and not zero");
            if (sym) bounded(mx(A - A.transpose()), 1e-13 * a, nm + " symmetry");
            if (Is<Op>::helm) bounded(mx(assemble(as, -std::conj(k)) - A.conjugate()), 1e-13 * a, nm + " conjugate wavenumber");
            if (Is<Op>::helm && !std::is_same<Lap, void>::value) {
              typedef typename std::conditional<std::is_same<Lap, void>::value, LaplaceSingleLayerOperator, Lap>::type LL;
              MC B = assemble(AnsatzSpace<LL>(g, L, P, K), 0.), C = assemble(as, cd(1e-7, -1e-7));
              bounded(mx(B - C), 1e-6 * mx(B), nm + " vanishing wavenumber");
            }
            // rigid motions and scaling
            if (k == KS[0] || !Is<Op>::helm) {
              Eigen::Matrix3d R;
              R = Eigen::AngleAxisd(.7, V3(1, 2, -1).normalized());
              for (double s : {1., .25}) {
                QuadMesh m2 = moved(m, R, V3(.3, -2, 1), s);
                if (m.bulge != 0) {  // the bulges do not turn with the corners
                  if (s != 1.) continue;
                  m2 = geo::shifted(m, V3(.3, -2, 1), s);
                }
                MC B = assemble<Op>(m2, L, P, K, k / s);
                // (the number of quadrature points depends on distances, with thresholds)
                bounded(mx(B - std::pow(s, scalePower) * A), (s == 1. ? 1e-4 : 2e-2) * std::pow(s, scalePower) * a, nm + (s == 1. ? " rigid motion" : " scaling"));
              }
            }
            if (!Is<Op>::helm && sym) {
              Eigen::SelfAdjointEigenSolver<MD> es(MD(.5 * (A + A.transpose()).real()));
              auto ev = es.eigenvalues();
              const int n = ev.size();
              if (disc)
                vf::check(ev(0) > 1e-9 * ev(n - 1), cat("definite: smallest eigenvalue ", ev(0), " largest ", ev(n - 1)));
              else {
                vf::check(ev(0) > -1e-13 * n * ev(n - 1), cat("semidefinite: smallest eigenvalue ", ev(0), " largest ", ev(n - 1)));
                // constants: exactly the kernel on a closed connected surface
                MC T = MD(as.get_transformation_matrix()).cast<cd>();
                // constant one: all Bernstein coefficients h
                VC one = VC::Constant(T.rows(), std::ldexp(1., -L));
                VC c = T.fullPivLu().solve(one);
                if ((T * c - one).norm() < 1e-10 * one.norm()) {
                  bounded(mx(A * c), 1e-12 * a * n, nm + " constants");
                  if (closed(m) && n > 1) vf::check(ev(1) > 1e-9 * ev(n - 1), cat("only constants in the kernel: ", ev(1)));
                }
              }
            }
          }
        }
}
template <typename DL, typename ADL>
static void adjoint(const std::string &nm) {
  const bool th = vf::thorough();
  for (auto &m : family(false))
    for (int L = 0; L <= (m.npatch() < 6 || th ? 2 : 1); ++L)
      for (int P = 0; P <= (L == 2 ? 0 : L == 1 ? 1 : 2) + (th && L < 2); ++P)
        for (int K = 1; K <= P + 1; ++K) {
          if (K > 1 && (L == 0 || (K > 2 && !th))) continue;
          if (m.npatch() > 6 && (L > 0 || P > 0) && !th) continue;
          for (cd k : Is<DL>::helm ? KS : std::vector<cd>{0.}) {
            if (Is<DL>::helm && !th && k != KS[(L + P + m.npatch()) % KS.size()] && !(m.npatch() < 4 && L == 0)) continue;
            if (!vf::begin(cat(nm, "/adjoint/", m.name, "/L", L, "P", P, "K", K, "/", kname(k)))) continue;
            vf::state(vf::hstr(vf::ctx().id));
            MC A = assemble<DL>(m, L, P, K, k), B = assemble<ADL>(m, L, P, K, k);
            bounded(mx(A - B.transpose()), 1e-13 * mx(A), nm + " adjoint");
          }
        }
}
// Green's identities in weak form, for harmonic polynomials (k = 0) and plane waves
static void green() {
  const bool th = vf::thorough();
  for (auto m : family(true))
    for (int L = 0; L <= (th ? 2 : 1); ++L)
      for (int P = 0; P <= 2 + (th && L < 2); ++P) {
        if (m.npatch() > 6 && (L > 0 || P > 1) && !th) continue;
        if (L == 2 && P > 1) continue;
        for (cd k : {cd(0), cd(.5), cd(.4, -.3)}) {
          if (k != cd(0) && P < 2) continue;
          if (!vf::begin(cat("green/", m.name, "/L", L, "P", P, "/", kname(k)))) continue;
          vf::state(vf::hstr(vf::ctx().id));
          const bool flat = m.bulge == 0 && m.npatch() == 6;
          Local lo(m, L, P);
          const double o = m.npatch() == 6 ? lo.outward(V3(.5, .5, .5)) : 0;
          MC M = lo.gram();
          MC V = k == cd(0) ? local<LaplaceSingleLayerOperator>(m, L, P, k) : local<HelmholtzSingleLayerOperator>(m, L, P, k);
          MC Kd = k == cd(0) ? local<LaplaceDoubleLayerOperator>(m, L, P, k) : local<HelmholtzDoubleLayerOperator>(m, L, P, k);
          MC Ka = k == cd(0) ? local<LaplaceAdjointDoubleLayerOperator>(m, L, P, k) : local<HelmholtzAdjointDoubleLayerOperator>(m, L, P, k);
          MC W, Tc;
          if (P > 0) {
            W = k == cd(0) ? assemble<LaplaceHypersingularOperator>(m, L, P, 1, k) : assemble<HelmholtzHypersingularOperator>(m, L, P, 1, k);
            Tc = trans<LaplaceHypersingularOperator>(m, L, P, 1);
          }
          // orientation from the geometry with holes: by the volume
          double vol = 0;
          lo.each(6, [&](int, const Eigen::VectorXd &, const V3 &x, const V3 &d, const V3 &e, double w) { vol += w * d.cross(e).dot(x) / 3; });
          const double s = vol > 0 ? 1 : -1;
          if (o != 0) vf::check(s == o, "orientation");
          VC one = lo.project([](const V3 &, const V3 &) { return cd(1); });
          if (k == cd(0)) {
            // (K 1, v) = -s/2 (1, v)
            VC r = Kd * one + .5 * s * (M * one);
            bounded(mx(r) / mx(M * one), (flat ? 3e-3 : m.npatch() == 6 ? 1e-2 : .16) * std::pow(.25, L + P), "double layer of one");
          }
          // u and its outward normal derivative
          for (int f = 0; f < 3; ++f) {
            if (k != cd(0) && f > 1) continue;
            std::function<cd(const V3 &)> u;
            std::function<Eigen::Vector3cd(const V3 &)> gu;
            bool exact = true;
            if (k != cd(0)) {
              const V3 dir = f ? V3(2, -1, 2) / 3 : V3(0, 0, 1);
              u = [=](const V3 &x) { return std::exp(cd(0, 1) * k * dir.dot(x)); };
              gu = [=](const V3 &x) { return Eigen::Vector3cd(cd(0, 1) * k * std::exp(cd(0, 1) * k * dir.dot(x)) * dir.cast<cd>()); };
              exact = false;
            } else if (f == 0) {
              u = [](const V3 &x) { return x(0) - 2 * x(1) + .5 * x(2); };
              gu = [](const V3 &) { return Eigen::Vector3cd(1, -2, .5); };
              exact = flat && P >= 1;
            } else if (f == 1) {
              u = [](const V3 &x) { return x(0) * x(1) + x(2) * x(2) - x(0) * x(0); };
              gu = [](const V3 &x) { return Eigen::Vector3cd(x(1) - 2 * x(0), x(0), 2 * x(2)); };
              exact = flat && P >= 2;
            } else {
              u = [](const V3 &x) { return x(1) * x(2) - 3 * x(2) * x(0); };
              gu = [](const V3 &x) { return Eigen::Vector3cd(-3 * x(2), x(2), x(1) - 3 * x(0)); };
              exact = flat && P >= 2;
            }
            VC cu = lo.project([&](const V3 &x, const V3 &) { return u(x); });
            VC cn = lo.project([&](const V3 &x, const V3 &n) {
              auto g = gu(x);
              return s * (g(0) * n(0) + g(1) * n(1) + g(2) * n(2));
            });
            // outward normals: V un = (1/2 + K) u;  with the other orientation K changes its sign
            VC r = V * cn - .5 * (M * cu) - s * (Kd * cu);
            const double sc = mx(M * cu) + mx(M * cn);
            bounded(mx(r) / sc, (exact ? 4e-3 : .6) * std::pow(.25, L + P), cat("first identity ", exact ? "exact " : "approximate ", k == cd(0) ? "laplace" : "helmholtz"));
            if (P > 0) {
              VC c = Tc.fullPivLu().solve(cu);
              const double res = (Tc * c - cu).norm() / cu.norm();
              if (exact) vf::near(res, 0, 1e-10, "continuous representation");
              VC r2 = W * c - Tc.transpose() * (.5 * (M * cn) - s * (Ka * cn));
              bounded(mx(r2) / (mx(W * c) + sc), (exact ? 2.5e-2 : 1.) * std::pow(.25, L + P), cat("second identity ", exact ? "exact " : "approximate ", k == cd(0) ? "laplace" : "helmholtz"));
            }
          }
        }
      }
}
// on the unit cube the Maxwell operator is made of Helmholtz single layers
static void maxwell() {
  for (int rot = 0; rot < (vf::thorough() ? 64 : 16); ++rot)
    for (int L = 0; L <= 1; ++L)
      for (int P = 1; P <= 3 - L; ++P)
        for (cd k : KS) {
          if (!vf::thorough() && L == 1 && (rot > 3 || k != KS[rot])) continue;
          if (!vf::begin(cat("split/r", rot, "L", L, "P", P, "/", kname(k)))) continue;
          vf::state(vf::hstr(vf::ctx().id));
          std::vector<int> v;
          for (int p = 0; p < 6; ++p) v.push_back((rot * (p + 1) + rot / 4 * p * p) % 4);
          QuadMesh m = geo::rotated(geo::cube(), v);
          MC A = assemble<MaxwellSingleLayerOperator>(m, L, P, 1, k), T = trans<MaxwellSingleLayerOperator>(m, L, P, 1);
          MC V = local<HelmholtzSingleLayerOperator>(m, L, P, k);
          Local lo(m, L, P);
          const int pp = lo.el.pp, n = pp * lo.el.nel, n1 = P + 1;
          const double N = lo.el.n;
          // derivative of Bernstein polynomials in the same basis
          MD D = MD::Zero(n1, n1), B(n1, n1), dB(n1, n1);
          for (int i = 0; i < n1; ++i)
            for (int j = 0; j < n1; ++j) {
              const double t = (i + .5) / n1;
              B(i, j) = ref::bern(j, P, t);
              dB(i, j) = ref::bernDer(j, P, t);
            }
          D = N * B.fullPivLu().solve(dB);
          MC E[2] = {MC::Zero(n, n), MC::Zero(n, n)};
          std::vector<V3> t[2] = {std::vector<V3>(lo.el.nel), std::vector<V3>(lo.el.nel)};
          for (size_t p = 0; p < lo.pv.size(); ++p)
            for (int e = 0; e < lo.el.n * lo.el.n; ++e) {
              const int id = lo.el.id[lo.el.at((int)p, e / lo.el.n, e % lo.el.n)];
              auto J = lo.pv[p].evalJacobian(.5, .5);
              t[0][id] = J.col(0);
              t[1][id] = J.col(1);
              for (int j = 0; j < n1; ++j)
                for (int i = 0; i < n1; ++i)
                  for (int q = 0; q < n1; ++q) {
                    E[0](id * pp + j * n1 + q, id * pp + j * n1 + i) += D(q, i);
                    E[1](id * pp + q * n1 + i, id * pp + j * n1 + i) += D(q, j);
                  }
            }
          MC G(2 * n, 2 * n);
          for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 2; ++b) {
              MC X = -(E[a].transpose() * (V * E[b])) / (k * k);
              for (int e = 0; e < lo.el.nel; ++e)
                for (int f = 0; f < lo.el.nel; ++f) X.block(e * pp, f * pp, pp, pp) += t[a][e].dot(t[b][f]) * V.block(e * pp, f * pp, pp, pp);
              G.block(a * n, b * n, n, n) = X;
            }
          MC R = T.transpose() * (G * T);
          bounded(mx(R - A), 1e-11 * mx(A), "Maxwell split");
        }
}
// histories of one front end object
template <typename Op>
static void histories(const std::string &nm, int len) {
  const bool disc = LinearOperatorTraits<Op>::Form == DifferentialForm::Discontinuous;
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  typedef DiscreteOperator<Eigen::Matrix<S, -1, -1>, Op> DO;
  const int P0 = disc ? 0 : 1;
  const AnsatzSpace<Op> as[2] = {AnsatzSpace<Op>(geo::geometry(geo::skewquad()), 1, P0, 1), AnsatzSpace<Op>(geo::geometry(geo::curved(geo::strip(2))), 0, P0 + 1, 1)};
  // same modulus, same real part, same imaginary part
  const cd ks[3] = {1., cd(0, -1), cd(1, -1)};
  std::map<std::pair<int, int>, MC> memo;
  auto want = [&](int s, int k) -> const MC & {
    auto &r = memo[{s, k}];
    if (!r.size()) r = assemble(as[s], ks[k]);
    return r;
  };
  std::vector<int> h;
  const int nops = Is<Op>::helm ? 8 : 5;
  std::function<void()> rec = [&] {
    if ((int)h.size() == len) {
      std::string id = cat(nm, "/history/");
      for (int o : h) id += char('a' + o);
      if (!vf::begin(id)) return;
      std::unique_ptr<DO> d(new DO(as[0]));
      wave(&d->get_linear_operator(), ks[0]);
      int s = 0, k = 0, ds = -1, dk = -1;
      for (int o : h) {
        if (o < 2) {
          d->init_DiscreteOperator(as[o]);
          s = o;
        } else if (o == 2) {
          d->compute();
          ds = s;
          dk = k;
        } else if (o == 3) {
          d.reset(new DO(*d));
        } else if (o == 4) {
          DO e(as[1 - s]);
          wave(&e.get_linear_operator(), ks[2]);
          e.compute();
          e = *d;
          *d = e;
        } else {
          k = o - 5;
          wave(&d->get_linear_operator(), ks[k]);
        }
        vf::state(vf::hash(vf::hstr(nm), s, k, ds + 1, dk + 1));
        MC A = d->get_discrete_operator().template cast<cd>();
        if (ds < 0)
          vf::check(A.size() == 0, "not computed yet");
        else {
          const MC &B = want(ds, dk);
          vf::check(A.rows() == B.rows() && A.cols() == B.cols(), "size");
          if (vf::failed()) return;
          vf::near(mx(A - B), 0, 1e-14 * mx(B), cat("matrix after ", id));
        }
      }
      return;
    }
    for (int o = 0; o < nops; ++o) {
      h.push_back(o);
      rec();
      h.pop_back();
    }
  };
  rec();
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const int len = vf::thorough() ? 5 : 4;
  (void)len;
#if PART == 0
  basics<LaplaceSingleLayerOperator, void>("laplaceSL", true, 3);
  basics<LaplaceDoubleLayerOperator, void>("laplaceDL", false, 2);
  basics<LaplaceAdjointDoubleLayerOperator, void>("laplaceADL", false, 2);
  basics<LaplaceHypersingularOperator, void>("laplaceHS", true, 1);
  adjoint<LaplaceDoubleLayerOperator, LaplaceAdjointDoubleLayerOperator>("laplace");
  histories<LaplaceHypersingularOperator>("laplaceHS", len);
#elif PART == 1
  basics<HelmholtzSingleLayerOperator, LaplaceSingleLayerOperator>("helmholtzSL", true, 3);
  basics<HelmholtzHypersingularOperator, LaplaceHypersingularOperator>("helmholtzHS", true, 1);
  histories<HelmholtzSingleLayerOperator>("helmholtzSL", len);
  histories<HelmholtzHypersingularOperator>("helmholtzHS", len);
#elif PART == 2
  basics<HelmholtzDoubleLayerOperator, LaplaceDoubleLayerOperator>("helmholtzDL", false, 2);
  basics<HelmholtzAdjointDoubleLayerOperator, LaplaceAdjointDoubleLayerOperator>("helmholtzADL", false, 2);
  adjoint<HelmholtzDoubleLayerOperator, HelmholtzAdjointDoubleLayerOperator>("helmholtz");
  histories<HelmholtzDoubleLayerOperator>("helmholtzDL", len);
  histories<HelmholtzAdjointDoubleLayerOperator>("helmholtzADL", len);
#elif PART == 3
  basics<MaxwellSingleLayerOperator, void>("maxwell", true, 1);
  maxwell();
  histories<MaxwellSingleLayerOperator>("maxwell", len);
#elif PART == 4
  green();
#endif
  return vf::finish();
}
