// O03: potentials are the surface integrals of their kernels against the represented density.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/Laplace>
#include <Bembel/LinearOperator>
#include <Bembel/Maxwell>
#include <Bembel/Potential>
#include "asp.hpp"
#include "gauss.hpp"
using namespace Bembel;
using namespace asp;
using vf::cat;
typedef std::complex<double> cd;
typedef Eigen::Vector3d V3;
typedef Eigen::MatrixXcd MC;
typedef Eigen::VectorXcd VC;
typedef Eigen::Matrix<double, -1, 3> Pts;
static const double PI = 3.14159265358979323846;
enum Kind { SL, DL, GRAD, MX, HOM };
template <typename Pot> struct Info;
template <typename O> struct Info<LaplaceSingleLayerPotential<O>> { static constexpr Kind k = SL; static constexpr bool w = false; };
template <typename O> struct Info<LaplaceDoubleLayerPotential<O>> { static constexpr Kind k = DL; static constexpr bool w = false; };
template <typename O> struct Info<LaplaceSingleLayerPotentialGradient<O>> { static constexpr Kind k = GRAD; static constexpr bool w = false; };
template <typename O> struct Info<HelmholtzSingleLayerPotential<O>> { static constexpr Kind k = SL; static constexpr bool w = true; };
template <typename O> struct Info<HelmholtzDoubleLayerPotential<O>> { static constexpr Kind k = DL; static constexpr bool w = true; };
template <typename O> struct Info<MaxwellSingleLayerPotential<O>> { static constexpr Kind k = MX; static constexpr bool w = true; };
template <typename O> struct Info<HomogenisedLaplaceSingleLayerPotential<O>> { static constexpr Kind k = HOM; static constexpr bool w = false; };
template <typename P> static auto wave(P *o, cd k) -> decltype(o->set_wavenumber(k), void()) { o->set_wavenumber(k); }
static void wave(...) {}
template <typename P> static auto getWave(P *o, cd) -> decltype(o->get_wavenumber()) { return o->get_wavenumber(); }
static cd getWave(void *, cd k) { return k; }
template <typename P> static auto kern(P *o, const V3 &x, const V3 &y, int) -> decltype(o->evaluateKernel(x, y), cd()) { return o->evaluateKernel(x, y); }
template <typename P> static cd kern(P *, const V3 &, const V3 &, long) { return 0; }
static V3 cut(const cd &z, V3) { return V3(); }
template <typename S> S down(cd z) { return z; }
template <> double down<double>(cd z) { return z.real(); }
static double scale = 1;
// local integrals: row point * dim + component, column local function (by n-point rules on 2^s x 2^s parts of every element)
template <typename Pot, typename Op>
MC integrals(Pot &pot, cd k, const PatchVector &pv, const Elements<Op> &el, const Pts &x, int n, int s, Eigen::VectorXd *mag) {
  const Kind K = Info<Pot>::k;
  const int dim = K == GRAD || K == MX ? 3 : 1, pp = el.pp, vd = K == MX ? 2 : 1, P = el.P;
  if (!Info<Pot>::w) k = 0;
  MC R = MC::Zero(x.rows() * dim, vd * pp * el.nel);
  *mag = Eigen::VectorXd::Zero(x.rows() * dim);
  const double h = 1. / el.n, hs = std::ldexp(1., -s);
  auto &Q = gs::rule(n);
  std::vector<double> bx(P + 1), by(P + 1), cx(P + 1), cy(P + 1);
  for (size_t p = 0; p < pv.size(); ++p)
    for (int iy = 0; iy < el.n; ++iy)
      for (int ix = 0; ix < el.n; ++ix) {
        const int c0 = el.id[el.at((int)p, iy, ix)] * pp;
        for (int sy = 0; sy < (1 << s); ++sy)
          for (int sx = 0; sx < (1 << s); ++sx)
            for (auto &b : Q)
              for (auto &a : Q) {
                const double u = (sx + a.x) * hs, v = (sy + b.x) * hs;
                const double X = (ix + u) * h, Y = (iy + v) * h, w = a.w * b.w * hs * hs * h * h;
                auto J = pv[p].evalJacobian(X, Y);
                const V3 y = pv[p].eval(X, Y), d[2] = {J.col(0), J.col(1)}, nn = d[0].cross(d[1]);
                for (int i = 0; i <= P; ++i) {
                  bx[i] = ref::bern(i, P, u);
                  by[i] = ref::bern(i, P, v);
                  cx[i] = ref::bernDer(i, P, u);
                  cy[i] = ref::bernDer(i, P, v);
                }
                for (int q = 0; q < x.rows(); ++q) {
                  const V3 z = x.row(q).transpose() - y;
                  const double r = z.norm();
                  const cd ikr = cd(0, 1) * k * r, g = std::exp(-ikr) / (4 * PI * r);
                  const Eigen::Vector3cd gg = (-(1. + ikr) * g / (r * r)) * z.cast<cd>();  // gradient with respect to x
                  Eigen::Matrix<cd, 3, 2> f[2];  // per direction: factor of the function, factor of its derivative
                  int nf = 1;
                  f[0].setZero();
                  f[1].setZero();
                  if (K == SL) f[0](0, 0) = g * nn.norm();
                  if (K == HOM) f[0](0, 0) = kern(&pot, x.row(q).transpose(), y, 0) * nn.norm();
                  if (K == DL) f[0](0, 0) = -(gg(0) * nn(0) + gg(1) * nn(1) + gg(2) * nn(2));
                  if (K == GRAD) f[0].col(0) = gg * nn.norm();
                  if (K == MX)
                    for (nf = 0; nf < 2; ++nf) {
                      f[nf].col(0) = g * d[nf].cast<cd>();
                      f[nf].col(1) = gg / (k * k);
                    }
                  for (int t = 0; t < nf; ++t)
                    for (int c = 0; c < dim; ++c) {
                      (*mag)(q * dim + c) += w * (std::abs(f[t](c, 0)) + std::abs(f[t](c, 1)) / h);
                      const int col = c0 + t * pp * el.nel;
                      for (int j = 0; j <= P; ++j)
                        for (int i = 0; i <= P; ++i) {
                          cd e = f[t](c, 0) * bx[i] * by[j];
                          if (K == MX) e += f[t](c, 1) * (t ? bx[i] * cy[j] : cx[i] * by[j]) / h;
                          R(q * dim + c, col + j * (P + 1) + i) += e * (w / h);
                        }
                    }
                }
              }
      }
  return R;
}
static Pts points(const PatchVector &pv) {
  // a lattice around the geometry, without the points close to it, and one far away
  V3 lo(1e9, 1e9, 1e9), hi = -lo;
  std::vector<V3> s;
  for (auto &p : pv)
    for (int i = 0; i <= 16; ++i)
      for (int j = 0; j <= 16; ++j) {
        s.push_back(p.eval(i / 16., j / 16.));
        lo = lo.cwiseMin(s.back());
        hi = hi.cwiseMax(s.back());
      }
  const double D = (hi - lo).maxCoeff();
  const V3 c = .5 * (lo + hi);
  std::vector<V3> r;
  for (double a : {-.9, .02, 1.})
    for (double b : {-.85, .03, .9})
      for (double e : {-.8, .01, .95}) {
        V3 x = c + D * V3(a, b, e);
        double d = 1e9;
        for (auto &y : s) d = std::min(d, (x - y).norm());
        if (d > .2 * D && (scale == 1. || (r.size() < 6))) r.push_back(x);
      }
  if (r.size() > 9) {
    std::vector<V3> q;
    for (size_t i = 0; i < 9; ++i) q.push_back(r[i * r.size() / 9]);
    r = q;
  }
  if (scale == 1.) r.push_back(c + 10 * D * V3(1, -2, 3));
  Pts P(r.size(), 3);
  for (size_t i = 0; i < r.size(); ++i) P.row(i) = r[i].transpose();
  return P;
}
template <typename M> VC flat(const M &m) {
  VC r(m.size());
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) r(i * m.cols() + j) = m(i, j);
  return r;
}
template <typename S> Eigen::Matrix<S, -1, 1> dense(int n, int seed) {
  Eigen::Matrix<S, -1, 1> v(n);
  for (int i = 0; i < n; ++i) v(i) = down<S>(cd(std::sin(1. + i * 1.7 + seed), std::cos(.3 * i * i - seed)));
  return v;
}
template <typename Pot, typename Op>
struct Run {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  typedef Eigen::Matrix<S, -1, 1> Vec;
  typedef DiscretePotential<Pot, Op> DP;
  static constexpr Kind K = Info<Pot>::k;
  static constexpr int dim = K == GRAD || K == MX ? 3 : 1;
  static void config(const std::string &nm, QuadMesh m, int L, int P, int Kn, const std::vector<cd> &ks) {
    if (!vf::begin(cat(nm, "/", m.name, "/L", L, "P", P, "K", Kn))) return;
    scale = K == HOM ? .07 : 1.;
    if (K == HOM) m = geo::shifted(m, V3(-.1, -.05, -.1), scale);
    PatchVector pv = geo::patches(m);
    Geometry g(pv);
    AnsatzSpace<Op> as(g, L, P, Kn);
    Elements<Op> el(as.get_superspace());
    Eigen::SparseMatrix<double> T = as.get_transformation_matrix();
    const int nd = as.get_number_of_dofs();
    Pts x = points(pv);
    DP dp(as);
    const int nsub = L ? 1 : 2, nref = 12;
    bool first = true;
    for (cd k : ks) {
      wave(&dp.get_potential(), k);
      vf::check(getWave(&dp.get_potential(), k) == k, "wavenumber");
      Eigen::VectorXd mag, mag2;
      const double kd = std::abs(k) * (Info<Pot>::w ? 1 : 0);
      MC E = integrals(dp.get_potential(), k, pv, el, x, nref + (int)(4 * kd), nsub, &mag) * T.cast<cd>();
      const double Tm = std::max(1., 1. / el.n);
      // default degree first, then set ones
      for (int q : {-1, 1, 3, 30}) {
        if (q == 30 && !first) continue;
        vf::state(vf::hash(vf::hstr(vf::ctx().id), q + 2, std::hash<double>()(k.real()), std::hash<double>()(k.imag())));
        if (q >= 0) dp.set_degree(q);
        // how good the rule has to be
        const int n = (q < 0 ? P + 1 : q) + 1;
        MC W;
        if (q != 30) W = integrals(dp.get_potential(), k, pv, el, x, n, 0, &mag2) * T.cast<cd>();
        std::vector<int> which;
        const int step = q == 30 ? nd / 2 + 1 : first && q < 0 ? 1 : nd / 7 + 1;
        for (int i = 0; i < nd; i += step) which.push_back(i);
        for (size_t wi = 0; wi <= which.size(); ++wi) {
          Vec c = Vec::Zero(nd);
          if (wi < which.size())
            c(which[wi]) = down<S>(std::is_same<S, double>::value ? cd(1) : cd(.8, -.6));
          else
            c = dense<S>(nd, q);
          dp.set_cauchy_data(c);
          VC got = flat(dp.evaluate(x));
          VC want = E * c.template cast<cd>();
          vf::check(got.size() == want.size(), "size");
          if (vf::failed()) return;
          VC own = q == 30 ? want : VC(W * c.template cast<cd>());
          const double sc = std::max(1., wi < which.size() ? 1. : std::sqrt(nd * 1.)) * el.n * (P + 1);
          double worst = 0, allow = 0;
          int at = 0;
          for (int i = 0; i < got.size(); ++i) {
            const double e = std::abs(got(i) - want(i));
            allow = std::max(allow, 3 * std::abs(own(i) - want(i)));
            if (!(e <= worst)) worst = e, at = i;
          }
          const double base = (K == HOM ? 1e-9 : 2e-11) * mag.maxCoeff() * sc;
          vf::near(worst / (allow + base), 0, 1., cat("degree ", q, " k ", k, " density ", wi < which.size() ? which[wi] : -1, " value ", at, " (error ", worst, " allowed ", allow, " + ", base, ")"));
          if (vf::failed()) return;
          if (wi == which.size()) {
            // one point at a time, and in reverse order
            Pts y = x.colwise().reverse();
            VC rev = flat(dp.evaluate(y));
            for (int p = 0; p < x.rows(); ++p) {
              Pts one = x.row(p);
              VC o = flat(dp.evaluate(one));
              for (int d = 0; d < dim; ++d) {
                vf::near(std::abs(o(d) - got(p * dim + d)) / base, 0, 1., "one point at a time");
                vf::near(std::abs(rev((x.rows() - 1 - p) * dim + d) - got(p * dim + d)) / base, 0, 1., "points in reverse order");
              }
            }
            Pts none(0, 3);
            vf::check(dp.evaluate(none).rows() == 0, "no points");
            // linear
            Vec c2 = dense<S>(nd, 77);
            dp.set_cauchy_data(c2);
            VC g2 = flat(dp.evaluate(x));
            const cd al = std::is_same<S, double>::value ? cd(-1.5) : cd(-.5, 2);
            Vec c3 = c + down<S>(al) * c2;
            dp.set_cauchy_data(c3);
            VC g3 = flat(dp.evaluate(x));
            vf::near((g3 - got - al * g2).cwiseAbs().maxCoeff() / base, 0, 3., "linear");
          }
        }
        if (q < 0) continue;
      }
      dp.init_DiscretePotential(as);  // degree as at first
      first = false;
      (void)Tm;
    }
  }
  // histories: two spaces, two densities, two degrees, three wavenumbers, two objects
  static void histories(const std::string &nm, int len) {
    const int Pm = K == MX || LinearOperatorTraits<Op>::Form == DifferentialForm::Continuous ? 1 : 0;
    scale = K == HOM ? .07 : 1.;
    auto fit = [&](QuadMesh m) { return K == HOM ? geo::shifted(m, V3(-.1, -.05, -.1), scale) : m; };
    const QuadMesh ms[2] = {fit(geo::curved(geo::square())), fit(geo::strip(2))};
    AnsatzSpace<Op> as[2] = {AnsatzSpace<Op>(geo::geometry(ms[0]), 1, Pm), AnsatzSpace<Op>(geo::geometry(ms[1]), 0, Pm + 1)};
    Pts x[2] = {points(geo::patches(ms[0])), points(geo::patches(ms[1])).topRows(3)};
    struct St {
      int space = -1, data = -1, deg = -1, k = -1;
    };
    // same modulus, same real part, same imaginary part
    const cd ks[3] = {1., cd(0, -1), cd(1, -1)};
    const int degs[2] = {1, 4};
    std::map<std::array<int, 5>, VC> memo;
    auto want = [&](const St &s, int xi) -> const VC & {
      auto &r = memo[{s.space, s.data, s.deg, s.k, xi}];
      if (!r.size()) {
        DP d(as[s.space]);
        if (s.deg >= 0) d.set_degree(degs[s.deg]);
        if (s.k >= 0) wave(&d.get_potential(), ks[s.k]);
        d.set_cauchy_data(dense<S>(as[s.space].get_number_of_dofs(), s.data));
        r = flat(d.evaluate(x[xi]));
      }
      return r;
    };
    // 0,1 init space; 2,3 data; 4,5 degree; 6,7,12 wavenumber; 8 evaluate points 0 ; 9 copy-construct replaces; 10 assign from an object in another state; 11 evaluate other points
    std::vector<int> h;
    std::function<void(St)> rec = [&](St) {
      if (!h.empty() && (int)h.size() == len) {
        std::string id = cat(nm, "/history/");
        for (int o : h) id += char('a' + o);
        if (!vf::begin(id)) return;
        St s;
        s.space = 0;
        s.data = 0;
        s.k = 0;
        std::unique_ptr<DP> d(new DP(as[0]));
        wave(&d->get_potential(), ks[0]);
        d->set_cauchy_data(dense<S>(as[0].get_number_of_dofs(), 0));
        auto look = [&](int xi) {
          if (s.data < 0) return;
          vf::state(vf::hash(vf::hstr(nm), s.space, s.data + 1, s.deg + 1, s.k + 1, xi));
          VC a = flat(d->evaluate(x[xi]));
          const VC &b = want(s, xi);
          vf::check(a.size() == b.size(), "size");
          if (vf::failed()) return;
          vf::near((a - b).cwiseAbs().maxCoeff(), 0, 1e-13 * (1 + b.cwiseAbs().maxCoeff()), cat("after ", id, " points ", xi));
        };
        for (int o : h) {
          if (o < 2) {
            d->init_DiscretePotential(as[o]);
            s.space = o;
            s.data = -1;
            s.deg = -1;
          } else if (o < 4) {
            s.data = o - 2;
            d->set_cauchy_data(dense<S>(as[s.space].get_number_of_dofs(), s.data));
          } else if (o < 6) {
            s.deg = o - 4;
            d->set_degree(degs[s.deg]);
          } else if (o < 8 || o == 12) {
            s.k = o == 12 ? 2 : o - 6;
            wave(&d->get_potential(), ks[s.k]);
          } else if (o == 8 || o == 11) {
            look(o == 8 ? 0 : 1);
          } else if (o == 9) {
            d.reset(new DP(*d));
          } else {
            DP e(as[1]);
            e.set_degree(degs[0]);
            wave(&e.get_potential(), ks[1]);
            e.set_cauchy_data(dense<S>(as[1].get_number_of_dofs(), 1));
            e = *d;
            d.reset(new DP(as[0]));
            *d = e;
          }
        }
        look(0);
        look(1);
        return;
      }
      for (int o = 0; o < 13; ++o) {
        if (!Info<Pot>::w && (o == 6 || o == 7 || o == 12)) continue;
        h.push_back(o);
        rec(St());
        h.pop_back();
      }
    };
    rec(St());
  }
  static void all(const std::string &nm, bool histo) {
    const bool th = vf::thorough();
    const auto F = LinearOperatorTraits<Op>::Form;
    const int P0 = F == DifferentialForm::Discontinuous ? 0 : 1;
    std::vector<cd> ks = {0.};
    if (Info<Pot>::w) ks = {1., 1e-2, cd(0, -1.5), cd(2, .1)};
    std::vector<std::pair<QuadMesh, int>> gs = {{geo::skewquad(), 2}, {geo::curved(geo::square()), 1}, {geo::rotated(geo::cube(), {1, 0, 2, 3, 0, 1}), 1}, {geo::curved(geo::strip(2)), 1},
                                                {geo::weighted(geo::strip(3)), 0}, {geo::curved(geo::cube()), 0}, {geo::curved(geo::star(3)), 0}};
    for (auto &gm : gs)
      for (int L = 0; L <= (th ? gm.second + (gm.second < 2) : histo ? gm.second : std::min(gm.second, 1)); ++L)
        for (int P = P0; P <= P0 + (L < 2 ? 1 + (histo || !L) : 0) + th; ++P)
          for (int Kn = 1; Kn <= P + (F == DifferentialForm::Discontinuous); ++Kn) {
            if (L == 0 && Kn > 1) continue;
            config(nm, gm.first, L, P, Kn, th || L == 0 || ks.size() == 1 ? ks : std::vector<cd>{ks[(P + Kn) % 2 ? 0 : 2], ks[3]});
          }
    if (nm == "homogenised") HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-3);  // cheap to construct
    if (histo) histories(nm, th ? 4 : 3);
  }
};
template <template <typename> class Pot, typename Op>
static void all(const std::string &nm, bool histo = true) {
  Run<Pot<Op>, Op>::all(nm, histo);
}
// relations between the implementations themselves
template <typename Pot, typename Op>
static MC values(const AnsatzSpace<Op> &as, const VC &c, cd k, const Pts &x, int deg) {
  DiscretePotential<Pot, Op> d(as);
  d.set_degree(deg);
  wave(&d.get_potential(), k);
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  Eigen::Matrix<S, -1, 1> cc(c.size());
  for (int i = 0; i < c.size(); ++i) cc(i) = down<S>(c(i));
  d.set_cauchy_data(cc);
  return d.evaluate(x).template cast<cd>();
}
// coefficients representing f: as[K=P+1] is a basis of all piecewise polynomials
template <typename Op, typename F>
static VC represent(const AnsatzSpace<Op> &as, const PatchVector &pv, F f) {
  Elements<Op> el(as.get_superspace());
  const int P = el.P, n1 = P + 1;
  VC loc(el.pp * el.nel);
  Eigen::MatrixXd V(el.pp, el.pp);
  for (size_t p = 0; p < pv.size(); ++p)
    for (int iy = 0; iy < el.n; ++iy)
      for (int ix = 0; ix < el.n; ++ix) {
        VC b(el.pp);
        for (int j = 0; j < n1; ++j)
          for (int i = 0; i < n1; ++i) {
            const double u = P ? (i + .5) / n1 : .5, v = P ? (j + .5) / n1 : .5, X = (ix + u) / el.n, Y = (iy + v) / el.n;
            auto J = pv[p].evalJacobian(X, Y);
            b(j * n1 + i) = f(pv[p].eval(X, Y), V3(J.col(0)).cross(V3(J.col(1))).normalized());
            for (int t = 0; t < n1; ++t)
              for (int s = 0; s < n1; ++s) V(j * n1 + i, t * n1 + s) = el.n * ref::bern(s, P, u) * ref::bern(t, P, v);
          }
        loc.segment(el.pp * el.id[el.at((int)p, iy, ix)], el.pp) = V.cast<cd>().fullPivLu().solve(b);
      }
  Eigen::MatrixXcd T = Eigen::MatrixXd(as.get_transformation_matrix()).cast<cd>();
  VC c = T.fullPivLu().solve(loc);
  vf::near((T * c - loc).norm() / (1 + loc.norm()), 0, 1e-10, "representation");
  return c;
}
#if PART == 3
// Green's identities on closed surfaces for polynomials that the space contains
static void green() {
  typedef std::function<cd(const V3 &)> Fn;
  struct Har {
    int deg;
    Fn u;
    std::function<Eigen::Vector3cd(const V3 &)> g;
  };
  std::vector<Har> hs = {{0, [](const V3 &) { return 1.; }, [](const V3 &) { return Eigen::Vector3cd(0, 0, 0); }},
                         {1, [](const V3 &x) { return x(0) - 2 * x(1) + .5 * x(2); }, [](const V3 &) { return Eigen::Vector3cd(1, -2, .5); }},
                         {2, [](const V3 &x) { return x(0) * x(1) + x(2) * x(2) - x(0) * x(0); }, [](const V3 &x) { return Eigen::Vector3cd(x(1) - 2 * x(0), x(0), 2 * x(2)); }},
                         {2, [](const V3 &x) { return x(1) * x(2) - 3 * x(2) * x(0); }, [](const V3 &x) { return Eigen::Vector3cd(-3 * x(2), x(2), x(1) - 3 * x(0)); }}};
  for (int rot = 0; rot < 4; ++rot)
    for (int L = 0; L <= 2; ++L)
      for (int P = 0; P <= 2; ++P)
        for (size_t f = 0; f < hs.size(); ++f) {
          if (hs[f].deg > P) continue;
          if (!vf::begin(cat("green/cube/r", rot, "L", L, "P", P, "/", f))) continue;
          vf::state(vf::hstr(vf::ctx().id));
          std::vector<int> r;
          for (int i = 0; i < 6; ++i) r.push_back((i * rot + rot) % 4);
          QuadMesh m = geo::rotated(geo::cube(), r);
          PatchVector pv = geo::patches(m);
          AnsatzSpace<LaplaceSingleLayerOperator> a(Geometry(pv), L, P, P + 1);
          AnsatzSpace<LaplaceDoubleLayerOperator> b(Geometry(pv), L, P, P + 1);
          VC u = represent(b, pv, [&](const V3 &x, const V3 &) { return hs[f].u(x); });
          VC un = represent(a, pv, [&](const V3 &x, const V3 &n) {
            auto g = hs[f].g(x);
            return g(0) * n(0) + g(1) * n(1) + g(2) * n(2);
          });
          Pts x(7, 3);
          x << .5, .5, .5, .4, .6, .55, .6, .45, .4, .3, .5, .6, 2, .5, .3, -1, -1, -1, .5, 1.9, .5;
          MC s = values<LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>>(a, un, 0, x, 40), d = values<LaplaceDoubleLayerPotential<LaplaceDoubleLayerOperator>>(b, u, 0, x, 40);
          // which way do the normals of this cube point
          const double o = (pv[0].evalNormal(.5, .5)).dot(pv[0].eval(.5, .5) - V3(.5, .5, .5)) > 0 ? 1 : -1;
          for (int i = 0; i < x.rows(); ++i) {
            cd in = i < 4 ? hs[f].u(x.row(i).transpose()) : cd(0);
            vf::near(o * (s(i) - d(i)), in, 1e-8, cat("representation formula at point ", i));
          }
          if (f == 0)
            for (int i = 0; i < x.rows(); ++i) vf::near(d(i), i < 4 ? -o : 0., 1e-8, "double layer of one");
        }
}
// derivative relations by difference quotients of the implementation
static void derivatives() {
  for (int geom = 0; geom < 3; ++geom)
    for (int P = 1; P <= 2; ++P)
      for (int L = 0; L <= 1; ++L)
        for (cd k : {cd(1), cd(.7, -.4), cd(0, -1)}) {
          if (!vf::begin(cat("derivative/", geom, "/L", L, "P", P, "/k", k.real(), ",", k.imag()))) continue;
          vf::state(vf::hstr(vf::ctx().id));
          QuadMesh m = geom == 0 ? geo::cube() : geom == 1 ? geo::curved(geo::strip(2)) : geo::square();
          PatchVector pv = geo::patches(m);
          Geometry g(pv);
          const double h = .05;
          V3 base[2] = {{3., -.7, 2.1}, {-1.5, 2.8, -2.2}};
          Pts x(2 * 13, 3);
          for (int b = 0; b < 2; ++b)
            for (int i = 0; i < 13; ++i) {
              V3 p = base[b];
              if (i) p((i - 1) / 4) += h * std::vector<double>{-2, -1, 1, 2}[(i - 1) % 4];
              x.row(b * 13 + i) = p.transpose();
            }
          auto D1 = [&](const MC &v, int b, int d, int c) {
            int o = b * 13 + 1 + 4 * d;
            return (v(o, c) - 8. * v(o + 1, c) + 8. * v(o + 2, c) - v(o + 3, c)) / (12 * h);
          };
          auto Lap = [&](const MC &v, int b, int c) {
            cd r = 0;
            for (int d = 0; d < 3; ++d) {
              int o = b * 13 + 1 + 4 * d;
              r += (-v(o, c) + 16. * v(o + 1, c) - 30. * v(b * 13, c) + 16. * v(o + 2, c) - v(o + 3, c)) / (12 * h * h);
            }
            return r;
          };
          AnsatzSpace<LaplaceSingleLayerOperator> al(g, L, P);
          AnsatzSpace<HelmholtzSingleLayerOperator> ah(g, L, P);
          AnsatzSpace<MaxwellSingleLayerOperator> am(g, L, P);
          VC c = dense<cd>(al.get_number_of_dofs(), 5), cm = dense<cd>(am.get_number_of_dofs(), 6);
          MC s = values<LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>>(al, c, 0, x, 12);
          MC dd = values<LaplaceDoubleLayerPotential<LaplaceSingleLayerOperator>>(al, c, 0, x, 12);
          MC gr = values<LaplaceSingleLayerPotentialGradient<LaplaceSingleLayerOperator>>(al, c, 0, x, 12);
          MC hs = values<HelmholtzSingleLayerPotential<HelmholtzSingleLayerOperator>>(ah, c, k, x, 12);
          MC hd = values<HelmholtzDoubleLayerPotential<HelmholtzSingleLayerOperator>>(ah, c, k, x, 12);
          MC h0 = values<HelmholtzSingleLayerPotential<HelmholtzSingleLayerOperator>>(ah, VC(c.real().cast<cd>()), 1e-7 * k, x, 12);
          MC h1 = values<HelmholtzDoubleLayerPotential<HelmholtzSingleLayerOperator>>(ah, VC(c.real().cast<cd>()), 1e-7 * k, x, 12);
          MC e = values<MaxwellSingleLayerPotential<MaxwellSingleLayerOperator>>(am, cm, k, x, 12);
          auto rel = [&](const MC &v) { return 2e-5 * v.cwiseAbs().maxCoeff(); };
          vf::near((h0 - s).cwiseAbs().maxCoeff(), 0, 1e-6, "vanishing wavenumber, single layer");
          vf::near((h1 - dd).cwiseAbs().maxCoeff(), 0, 1e-6, "vanishing wavenumber, double layer");
          for (int b = 0; b < 2; ++b) {
            for (int d = 0; d < 3; ++d) vf::near(D1(s, b, d, 0), gr(b * 13, d), rel(s), cat("gradient component ", d));
            vf::near(Lap(s, b, 0), 0., rel(s), "harmonic single layer");
            vf::near(Lap(dd, b, 0), 0., rel(dd), "harmonic double layer");
            for (int d = 0; d < 3; ++d) vf::near(Lap(gr, b, d), 0., rel(gr), "harmonic gradient");
            vf::near(D1(gr, b, 0, 0) + D1(gr, b, 1, 1) + D1(gr, b, 2, 2), 0., rel(gr), "divergence of the gradient");
            vf::near(Lap(hs, b, 0) + k * k * hs(b * 13), 0., rel(hs), "Helmholtz equation, single layer");
            vf::near(Lap(hd, b, 0) + k * k * hd(b * 13), 0., rel(hd), "Helmholtz equation, double layer");
            for (int d = 0; d < 3; ++d) vf::near(Lap(e, b, d) + k * k * e(b * 13, d), 0., rel(e), "Maxwell: Helmholtz equation");
            // (on open surfaces the current leaves through the boundary)
            if (geom == 0) vf::near(D1(e, b, 0, 0) + D1(e, b, 1, 1) + D1(e, b, 2, 2), 0., rel(e), "Maxwell: divergence");
            if (geom == 2) {  // flat: the double layer is the derivative in the direction of the normal
              vf::near(dd(b * 13), -gr(b * 13, 2) * pv[0].evalNormal(.5, .5).normalized()(2), 1e-10, "double layer on a plane");
              vf::near(hd(b * 13), -D1(hs, b, 2, 0) * pv[0].evalNormal(.5, .5).normalized()(2), rel(hs), "Helmholtz double layer on a plane");
            }
          }
        }
}
#endif
int main(int argc, char **argv) {
  vf::init(argc, argv);
#if PART == 0
  all<LaplaceSingleLayerPotential, LaplaceSingleLayerOperator>("laplaceSL/SL");
  all<LaplaceSingleLayerPotential, LaplaceHypersingularOperator>("laplaceSL/HS", false);
  all<LaplaceDoubleLayerPotential, LaplaceHypersingularOperator>("laplaceDL/HS");
  all<LaplaceDoubleLayerPotential, LaplaceDoubleLayerOperator>("laplaceDL/DL", false);
  all<LaplaceSingleLayerPotentialGradient, LaplaceSingleLayerOperator>("laplaceGrad/SL");
#elif PART == 1
  all<HelmholtzSingleLayerPotential, HelmholtzSingleLayerOperator>("helmholtzSL/SL");
  all<HelmholtzDoubleLayerPotential, HelmholtzHypersingularOperator>("helmholtzDL/HS");
  all<HelmholtzDoubleLayerPotential, HelmholtzAdjointDoubleLayerOperator>("helmholtzDL/ADL", false);
#elif PART == 2
  all<MaxwellSingleLayerPotential, MaxwellSingleLayerOperator>("maxwell");
  HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-7);
  all<HomogenisedLaplaceSingleLayerPotential, HomogenisedLaplaceSingleLayerOperator>("homogenised");
#elif PART == 3
  green();
  derivatives();
#elif PART == 4
  all<LaplaceSingleLayerPotential, HelmholtzSingleLayerOperator>("laplaceSL/complex", false);
  all<LaplaceDoubleLayerPotential, HelmholtzHypersingularOperator>("laplaceDL/complex", false);
  all<LaplaceSingleLayerPotentialGradient, HelmholtzSingleLayerOperator>("laplaceGrad/complex", false);
  all<HelmholtzSingleLayerPotential, LaplaceSingleLayerOperator>("helmholtzSL/real", false);
  all<HelmholtzDoubleLayerPotential, LaplaceHypersingularOperator>("helmholtzDL/real", false);
#endif
  return vf::finish();
}
