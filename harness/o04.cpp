// O04: discrete linear forms are the moments of the given data.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/LinearForm>
#include "asp.hpp"
#include "gauss.hpp"
using namespace Bembel;
using namespace asp;
using vf::cat;
typedef std::complex<double> cd;
using Eigen::Vector3d;
typedef Eigen::VectorXcd VecC;
enum { DIR, NEU, TAN, ROT };
// data: polynomial of degree <= 3 by number, value in C^3 (first entry for scalar traces)
static const int NF = 8;
static Eigen::Vector3cd data(int f, const Vector3d &x, bool cplx) {
  Eigen::Vector3cd r;
  const cd I = cplx ? cd(.4, 1) : cd(1, 0);
  switch (f) {
    case 0: r << 1., 0., 0.; break;
    case 1: r << 0., 1., 0.; break;
    case 2: r << I * x(2), 0., 1.; break;
    case 3: r << x(0), I * x(1), x(2); break;
    case 4: r << x(0) * x(1), 1. - x(2) * x(2), -I * x(0); break;
    case 5: r << I * x(2) * x(2) - 3., x(1) * x(0), x(2) * x(1) - 1.; break;
    case 6: r << x(0) * x(1) * x(2), x(0) * x(0) * x(1), I * (x(1) * x(2) * x(2) - x(0)); break;
    default: r << x(1) - .5, x(2) * x(2) * x(2), I * x(0) * x(1) * x(1);
  }
  return r;
}
template <typename S>
struct Down;
template <>
struct Down<double> {
  static double s(cd a) { return a.real(); }
};
template <>
struct Down<cd> {
  static cd s(cd a) { return a; }
};
template <typename S>
constexpr bool isC() { return !std::is_same<S, double>::value; }
template <typename S>
Eigen::Matrix<S, 3, 1> dataS(int f, const Vector3d &x) {
  auto d = data(f, x, isC<S>());
  Eigen::Matrix<S, 3, 1> r;
  for (int i = 0; i < 3; ++i) r(i) = Down<S>::s(d(i));
  return r;
}
template <typename S, int K>
struct Trace;
template <typename S>
struct Trace<S, DIR> {
  typedef DirichletTrace<S> T;
  static void set(T &t, int f) {
    t.set_function([f](Vector3d x) { return dataS<S>(f, x)(0); });
  }
};
template <typename S, typename TT>
struct VTrace {
  typedef TT T;
  static void set(T &t, int f) {
    t.set_function([f](Vector3d x) { return dataS<S>(f, x); });
  }
};
template <typename S>
struct Trace<S, NEU> : VTrace<S, NeumannTrace<S>> {};
template <typename S>
struct Trace<S, TAN> : VTrace<S, TangentialTrace<S>> {};
template <typename S>
struct Trace<S, ROT> : VTrace<S, RotatedTangentialTrace<S>> {};
// superspace moments of data f by the n-point rule
template <typename Op>
VecC moments(const PatchVector &pv, const Elements<Op> &el, int kind, int f, int n, bool cplx) {
  const int P = el.P, pp = el.pp, dim = kind >= TAN ? 2 : 1;
  VecC r = VecC::Zero(dim * pp * el.nel);
  auto &Q = gs::rule(n);
  const double h = 1. / el.n;
  for (size_t p = 0; p < pv.size(); ++p)
    for (int iy = 0; iy < el.n; ++iy)
      for (int ix = 0; ix < el.n; ++ix) {
        int e = el.id[el.at((int)p, iy, ix)];
        for (auto &b : Q)
          for (auto &a : Q) {
            double X = (ix + a.x) * h, Y = (iy + b.x) * h;
            auto J = pv[p].evalJacobian(X, Y);
            Vector3d d[2] = {J.col(0), J.col(1)}, nn = d[0].cross(d[1]);
            double kap = nn.norm();
            nn /= kap;
            auto v = data(f, pv[p].eval(X, Y), cplx);
            cd vn = v(0) * nn(0) + v(1) * nn(1) + v(2) * nn(2);
            for (int k = 0; k < dim; ++k) {
              cd q;
              if (kind == DIR) q = v(0) * kap;
              if (kind == NEU) q = vn * kap;
              if (kind == TAN) {  // (v x n) . d_k
                Eigen::Vector3cd c(v(1) * nn(2) - v(2) * nn(1), v(2) * nn(0) - v(0) * nn(2), v(0) * nn(1) - v(1) * nn(0));
                q = c(0) * d[k](0) + c(1) * d[k](1) + c(2) * d[k](2);
              }
              if (kind == ROT) q = v(0) * d[k](0) + v(1) * d[k](1) + v(2) * d[k](2);
              q *= a.w * b.w * h;
              for (int j = 0; j <= P; ++j)
                for (int i = 0; i <= P; ++i) r((k * el.nel + e) * pp + j * (P + 1) + i) += q * double(ref::bern(i, P, a.x) * ref::bern(j, P, b.x));
            }
          }
      }
  return r;
}
template <typename Op, int K>
void compare(const QuadMesh &m, const std::string &nm, int P, int M, int Kn, bool affine) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  typedef Trace<S, K> T;
  if (!vf::begin(cat(nm, "/", m.name, "/P", P, "M", M, "K", Kn))) return;
  PatchVector pv = geo::patches(m);
  Geometry g(pv);
  AnsatzSpace<Op> a(g, M, P, Kn);
  Elements<Op> el(a.get_superspace());
  Eigen::SparseMatrix<double> Tt = a.get_transformation_matrix().transpose();
  DiscreteLinearForm<typename T::T, Op> lf(a);
  bool first = true;
  for (int f = 0; f < NF; ++f) {
    vf::state(vf::hash(vf::hstr(vf::ctx().id), f));
    VecC ref = Tt * moments(pv, el, K, f, affine ? P + 5 : 26, isC<S>());
    double sc = 1 + ref.cwiseAbs().maxCoeff();
    T::set(lf.get_linear_form(), f);
    for (int deg : {-1, 0, 3, 7, 20}) {
      if (deg < 0 && !first) {
        lf.init_DiscreteLinearForm(a);  // default degree again
      } else if (deg >= 0) {
        lf.set_degree(deg);
      }
      first = false;
      lf.compute();
      vf::step(ref.size());
      VecC x = lf.get_discrete_linear_form().template cast<cd>();
      vf::check(x.size() == ref.size(), "length");
      if (vf::failed()) return;
      int d = deg < 0 ? P + 1 : deg;
      VecC same = Tt * moments(pv, el, K, f, d + 1, isC<S>());
      double tol = 1e-11 * sc + 2 * (same - ref).cwiseAbs().maxCoeff();
      if (affine && 2 * d + 1 >= P + 3) vf::near((same - ref).cwiseAbs().maxCoeff(), 0., 1e-12 * sc, "reference");
      if (!affine && deg == 20) tol = std::min(tol, 1e-7 * sc);
      vf::near((x - ref).cwiseAbs().maxCoeff(), 0., tol, cat("data ", f, " degree ", deg));
    }
  }
}
// histories: data, degree and space in force at the last compute
template <typename Op, int K>
void histories(const std::string &nm, int depth) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  typedef Trace<S, K> T;
  typedef DiscreteLinearForm<typename T::T, Op> LF;
  QuadMesh ms[2] = {geo::curved(geo::strip(2)), geo::star(3)};
  Geometry g[2] = {geo::geometry(ms[0]), geo::geometry(ms[1])};
  const int P[2] = {2, 1}, M[2] = {0, 1};
  std::unique_ptr<AnsatzSpace<Op>> sp[2];
  static const int degs[3] = {-1, 2, 6};
  VecC R[2][2][3];
  for (int i = 0; i < 2; ++i) {
    sp[i].reset(new AnsatzSpace<Op>(g[i], M[i], P[i]));
    Elements<Op> el(sp[i]->get_superspace());
    for (int f = 0; f < 2; ++f)
      for (int d = 0; d < 3; ++d)
        R[i][f][d] = sp[i]->get_transformation_matrix().transpose() * moments(g[i].get_geometry(), el, K, 6 + f, (degs[d] < 0 ? P[i] + 1 : degs[d]) + 1, isC<S>());
  }
  // a b: init with space; f g: function; 1 2: degree; c: compute; k: copy to a second object and use that
  std::vector<std::string> all = {""};
  for (size_t q = 0; q < all.size(); ++q) {
    std::string h = all[q];
    if ((int)h.size() < depth)
      for (char o : std::string("abfg12ck")) {
        // each of the settings is overwritten at once by one of the same kind
        if (!h.empty() && (h.back() == o || (strchr("ab", o) && strchr("ab", h.back())) || (strchr("fg", o) && strchr("fg", h.back())) || (strchr("12", o) && strchr("12", h.back())))) continue;
        all.push_back(h + o);
      }
    if (h.empty() || h.back() != 'c' || !vf::begin(nm + "-hist/" + h)) continue;
    std::unique_ptr<LF> x(new LF(*sp[0]));
    T::set(x->get_linear_form(), 6);
    int s = 0, f = 0, d = 0;
    for (char o : h) {
      vf::step();
      switch (o) {
        case 'a': case 'b': x->init_DiscreteLinearForm(*sp[s = o - 'a']); d = 0; break;
        case 'f': case 'g': T::set(x->get_linear_form(), 6 + (f = o - 'f')); break;
        case '1': case '2': x->set_degree(degs[d = o - '0']); break;
        case 'k': x.reset(new LF(*x)); break;
        case 'c': {
          x->compute();
          VecC y = x->get_discrete_linear_form().template cast<cd>();
          VecC &r = R[s][f][d];
          vf::state(vf::hash(vf::hstr(nm), s, f, d));
          vf::check(y.size() == r.size(), "length");
          if (!vf::failed()) vf::near((y - r).cwiseAbs().maxCoeff(), 0., 1e-11 * (1 + r.cwiseAbs().maxCoeff()), cat("after ", h));
        }
      }
      if (vf::failed()) break;
    }
  }
}
template <typename Op, int K>
void all(const std::string &nm) {
  const bool th = vf::thorough();
  using namespace geo;
  QuadMesh para = square();
  para.name = "para";
  para.v = {{.1, .2, .3}, {1.1, .4, .2}, {1.4, 1.3, .4}, {.4, 1.1, .5}};
  QuadMesh two = cube();
  two.name = "corner";
  two.q = {{{0, 1, 5, 4}}, {{1, 3, 7, 5}}, {{4, 5, 7, 6}}};
  struct G {
    QuadMesh m;
    bool affine;
  };
  std::vector<G> gs = {{para, true}, {rotated(two, {1, 2, 0}), true}, {rotated(cube(), {3, 1, 0, 2, 2, 1}), true}, {curved(weighted(strip(2))), false}, {rotated(strip(3), {1, 3, 2}), false},
                       {star(5), false}, {pillow(), false}, {torus(3, 3), false}};
  if (th) gs.push_back({curved(cube()), false}), gs.push_back({curved(torus(3, 4)), false}), gs.push_back({twostar(3, 5), false});
  const bool disc = LinearOperatorTraits<Op>::Form == DifferentialForm::Discontinuous;
  for (auto &q : gs)
    for (int P = disc ? 0 : 1; P <= (th ? 6 : 4); ++P)
      for (int M = 0; M <= (th ? 3 : 2); ++M)
        for (int Kn = 1; Kn <= (disc ? P + 1 : P); ++Kn) {
          if (Kn > 1 && (M == 0 || Kn > 2)) continue;
          if ((long)q.m.npatch() * (1 << 2 * M) * (P + 1) * (P + 1) > (th ? 2500 : 700)) continue;
          compare<Op, K>(q.m, nm, P, M, Kn, q.affine);
        }
  histories<Op, K>(nm, th ? 6 : 5);
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
#if PART == 1
  all<OpD, DIR>("dirD");
  all<OpC, NEU>("neuC");
  all<OpCz, DIR>("dirCz");
  all<OpCz, NEU>("neuCz");
#else
  all<OpV, TAN>("tanV");
  all<OpV, ROT>("rotV");
  all<OpVz, TAN>("tanVz");
  all<OpVz, ROT>("rotVz");
#endif
  return vf::finish();
}
