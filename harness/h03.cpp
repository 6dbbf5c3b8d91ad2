// H03: lazy linear algebra with compressed operators, all expression shapes.
// PART 0..3: three-operand expressions by first leaf, +10 when it stands on the left of
// the bracket; 8 and 9: all ways of applying expressions, real and complex
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Helmholtz>
#include <Bembel/Laplace>
#include <Bembel/Maxwell>
#include "geo.hpp"
#include "vf.hpp"
using namespace Bembel;
using Eigen::Dynamic;
using Eigen::H2Matrix;
using Eigen::Matrix;
using vf::cat;
template <typename S>
struct Sc {
  static S make(double a, double b) { return S(a); }
};
template <>
struct Sc<std::complex<double>> {
  static std::complex<double> make(double a, double b) { return {a, b}; }
};
template <typename S>
struct World {
  typedef Matrix<S, Dynamic, Dynamic> M;
  typedef Matrix<S, Dynamic, 1> V;
  std::string name;
  std::shared_ptr<void> keep1, keep2;
  H2Matrix<S> H, K;
  M D, RH, RK, RS;
  Eigen::SparseMatrix<S> Sp;
  S b;
  V x, y;
  M X;
  int lowrank = 0;
  template <typename Op1, typename Op2>
  void make(const std::string &nm, const Op1 &o1, const Op2 &o2, const geo::QuadMesh &m, int L, int P, int np) {
    name = nm;
    Geometry g = geo::geometry(m);
    // the compressed matrices refer to the elements of their spaces
    auto a1 = std::make_shared<AnsatzSpace<Op1>>(g, L, P, 1);
    auto a2 = std::make_shared<AnsatzSpace<Op2>>(g, L, P, 1);
    keep1 = a1;
    keep2 = a2;
    H.init_H2Matrix(o1, *a1, np);
    K.init_H2Matrix(o2, *a2, np);
    const int n = H.cols();
    for (auto it = H.get_block_cluster_tree()(0, 0).clbegin(); it != H.get_block_cluster_tree()(0, 0).clend(); ++it)
      lowrank += (*it)->get_cc() == BlockClusterAdmissibility::LowRank;
    // keep magnitudes comparable
    auto val = [](int i, int s) { return std::sin(1. + 1.7 * i + .61 * s * i + s); };
    D.resize(n, n);
    Sp.resize(n, n);
    std::vector<Eigen::Triplet<S>> tr;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        D(i, j) = Sc<S>::make(val(i * n + j, 1), val(i * n + j, 2));
        if ((i * 7 + j * 3) % 11 == 0) tr.push_back({i, j, Sc<S>::make(val(i + n * j, 3), val(i + n * j, 4))});
      }
    Sp.setFromTriplets(tr.begin(), tr.end());
    b = Sc<S>::make(-1.7, .6);
    x.resize(n);
    y.resize(n);
    X.resize(n, 3);
    for (int i = 0; i < n; ++i) {
      x(i) = Sc<S>::make(val(i, 5), val(i, 6));
      y(i) = Sc<S>::make(val(i, 7), val(i, 8));
      for (int c = 0; c < 3; ++c) X(i, c) = Sc<S>::make(val(i, 9 + c), val(i, 13 + c));
    }
    RH = dense(H);
    RK = dense(K);
    RS = M(Sp);
  }
  static M dense(const H2Matrix<S> &A) {
    M r(A.rows(), A.cols());
    for (int i = 0; i < A.cols(); ++i) {
      V u = V::Zero(A.cols());
      u(i) = S(1);
      r.col(i) = A * u;
    }
    return r;
  }
};
// leaves: H, K, D, S, b*H, b*D
template <int I>
struct Leaf;
#define LEAF(I, NAME, EXPR, REF, ISH)                                      \
  template <>                                                              \
  struct Leaf<I> {                                                         \
    static constexpr bool h = ISH;                                         \
    static const char *name() { return NAME; }                             \
    template <typename S>                                                  \
    static decltype(auto) get(const World<S> &w) {                         \
      return EXPR;                                                         \
    }                                                                      \
    template <typename S>                                                  \
    static typename World<S>::M ref(const World<S> &w) {                   \
      return REF;                                                          \
    }                                                                      \
  };
LEAF(0, "H", (w.H), w.RH, true)
LEAF(1, "D", (w.D), w.D, false)
LEAF(2, "S", (w.Sp), w.RS, false)
LEAF(3, "bK", w.b *w.K, w.b *w.RK, true)
static const int NL = 4;
template <int O>
struct Bin;
template <>
struct Bin<0> {
  template <typename A, typename B>
  static auto get(const A &a, const B &b) {
    return a + b;
  }
};
template <>
struct Bin<1> {
  template <typename A, typename B>
  static auto get(const A &a, const B &b) {
    return a - b;
  }
};
static const char *sgn(int o) { return o ? "-" : "+"; }
template <typename T>
static void cmp(const T &got, const T &want, double s, const std::string &w) {
  vf::check(got.rows() == want.rows() && got.cols() == want.cols(), w + ": shape");
  if (!vf::failed()) vf::near((got - want).cwiseAbs().maxCoeff(), 0., 1e-13 * s, w);
}
// a few applications for the large family
template <typename S, typename E>
static void some(const World<S> &w, const E &e, const typename World<S>::M &r) {
  typedef typename World<S>::M M;
  typedef typename World<S>::V V;
  const double s = 10 * (1 + r.cwiseAbs().rowwise().sum().maxCoeff());
  vf::check(e.rows() == r.rows() && e.cols() == r.cols(), "size of the expression");
  V v = e * w.x;
  cmp<V>(v, r * w.x, s, "vector");
  M m = w.X;
  m -= w.b * (e * w.X);
  cmp<M>(m, w.X - w.b * (r * w.X), 2 * s, "block of vectors scaled and subtracted");
}
// all applications
template <typename S, typename E>
static void applications(const World<S> &w, const E &e, const typename World<S>::M &r) {
  typedef typename World<S>::M M;
  typedef typename World<S>::V V;
  typedef Matrix<S, Dynamic, 2> M2;
  typedef Matrix<S, Dynamic, Dynamic, Eigen::RowMajor> MR;
  const double s = 30 * (1 + r.cwiseAbs().rowwise().sum().maxCoeff());
  const int n = r.rows();
  some(w, e, r);
  V v = w.y;
  v.noalias() -= w.b * (e * w.x);
  cmp<V>(v, w.y - w.b * (r * w.x), 2 * s, "scaled and subtracted");
  M mm = w.X;
  mm += e * w.X;
  cmp<M>(mm, w.X + r * w.X, s, "block of vectors added");
  v = w.x;
  v = e * v;
  cmp<V>(v, r * w.x, s, "into its own operand");
  v = w.x;
  v += e * v;
  cmp<V>(v, w.x + r * w.x, s, "added to its own operand");
  v = w.x;
  v -= e * v;
  cmp<V>(v, w.x - r * w.x, s, "subtracted from its own operand");
  v = w.x;
  v = w.y - e * v;
  cmp<V>(v, w.y - r * w.x, s, "residual");
  v = e * (w.x + w.b * w.y);
  cmp<V>(v, r * (w.x + w.b * w.y), 3 * s, "sum of vectors");
  v = e * w.X.col(1);
  cmp<V>(v, r * w.X.col(1), s, "column");
  V z(n + 4);
  z.setOnes();
  z.segment(2, n) = w.x;
  v = e * z.segment(2, n);
  cmp<V>(v, r * w.x, s, "segment");
  z.segment(1, n) = e * w.x;
  cmp<V>(z.segment(1, n), r * w.x, s, "into a segment");
  vf::check(z(0) == S(1) && z(n + 2) == S(1) && z(n + 3) == S(1), "entries outside of the segment");
  M m = M::Ones(n, 3);
  m.col(1) = e * w.x;
  m.col(2).noalias() += e * w.y;
  cmp<M>(m.col(1), r * w.x, s, "into a column");
  cmp<M>(m.col(2), V::Ones(n) + r * w.y, s, "added to a column");
  vf::check(m.col(0) == V::Ones(n), "other column");
  m = w.b * (e * w.X);
  cmp<M>(m, w.b * (r * w.X), 3 * s, "scaled block");
  m.noalias() = e * w.X;
  cmp<M>(m, r * w.X, s, "without alias");
  m = w.X;
  m = e * m;
  cmp<M>(m, r * w.X, s, "block into its own operand");
  M2 m2 = e * M2(w.X.leftCols(2));
  cmp<M>(m2, r * w.X.leftCols(2), s, "fixed number of columns");
  MR mr = e * w.X;
  cmp<M>(mr, r * w.X, s, "into a row major matrix");
  m = w.X.transpose() * (e * w.X);
  cmp<M>(m, w.X.transpose() * (r * w.X), s * n, "congruence");
  S d = w.y.dot(e * w.x);
  vf::near(d, S(w.y.dot(r * w.x)), 1e-13 * s * n, "inner product");
  m = (e * w.x).transpose();
  cmp<M>(m, (r * w.x).transpose(), s, "transposed result");
  v = e * (e * w.x);
  cmp<V>(v, r * (r * w.x), s * s, "applied twice");
  v = w.D * (e * w.x);
  cmp<V>(v, w.D * (r * w.x), s * n, "dense matrix times result");
  v = e * (w.D * w.x);
  cmp<V>(v, r * (w.D * w.x), s * n, "applied to a dense product");
  v = w.Sp * (e * w.x);
  cmp<V>(v, w.RS * (r * w.x), s * n, "sparse matrix times result");
  v = e * (w.Sp * w.x);
  cmp<V>(v, r * (w.RS * w.x), s * n, "applied to a sparse product");
  V raw = w.x;
  Eigen::Map<V> mp(raw.data(), n);
  Eigen::Ref<const V> rf(raw);
  v = e * mp;
  v += e * rf;
  cmp<V>(v, S(2) * (r * w.x), 2 * s, "map and reference");
  mp = e * w.y;
  cmp<V>(raw, r * w.y, s, "into a map");
  v = e * V::Zero(n);
  cmp<V>(v, V::Zero(n), 1, "zero vector");
  m = e * M(n, 0);
  vf::check(m.rows() == n && m.cols() == 0, "block without columns");
}
template <typename S>
static World<S> &dummy();
#define CASE(NAME, ...)                          \
  if (vf::begin(cat(w.name, "/", NAME))) {       \
    vf::state(vf::hstr(vf::ctx().id));           \
    __VA_ARGS__;                                 \
  }
template <int O1, int O2, int I, int J, int K, bool OK>
struct Three {
  template <typename S>
  static void run(const World<S> &w) {
    typedef typename World<S>::M M;
    auto sg = [](int o, const M &a, const M &b) { return o ? M(a - b) : M(a + b); };
#if PART < 10
    CASE(cat("(", Leaf<I>::name(), sgn(O1), Leaf<J>::name(), ")", sgn(O2), Leaf<K>::name()),
         some(w, Bin<O2>::get(Bin<O1>::get(Leaf<I>::get(w), Leaf<J>::get(w)), Leaf<K>::get(w)), sg(O2, sg(O1, Leaf<I>::ref(w), Leaf<J>::ref(w)), Leaf<K>::ref(w))))
#else
    CASE(cat(Leaf<K>::name(), sgn(O2), "(", Leaf<I>::name(), sgn(O1), Leaf<J>::name(), ")"),
         some(w, Bin<O2>::get(Leaf<K>::get(w), Bin<O1>::get(Leaf<I>::get(w), Leaf<J>::get(w))), sg(O2, Leaf<K>::ref(w), sg(O1, Leaf<I>::ref(w), Leaf<J>::ref(w)))))
#endif
  }
};
template <int O1, int O2, int I, int J, int K>
struct Three<O1, O2, I, J, K, false> {
  template <typename S>
  static void run(const World<S> &) {}
};
// the inner expression must have a compressed operand, or be of one kind
template <int I, int J, int K>
struct Ok {
  static constexpr bool inner = Leaf<I>::h || Leaf<J>::h || (I == 1 && J == 1) || (I == 2 && J == 2);
  static constexpr bool v = inner && (Leaf<I>::h || Leaf<J>::h || Leaf<K>::h);
};
template <int I, int J, int K>
struct Loop {
  template <typename S>
  static void run(const World<S> &w) {
    Three<0, 0, I, J, K, Ok<I, J, K>::v>::run(w);
    Three<0, 1, I, J, K, Ok<I, J, K>::v>::run(w);
    Three<1, 0, I, J, K, Ok<I, J, K>::v>::run(w);
    Three<1, 1, I, J, K, Ok<I, J, K>::v>::run(w);
    Loop<I, J, K + 1>::run(w);
  }
};
template <int I, int J>
struct Loop<I, J, NL> {
  template <typename S>
  static void run(const World<S> &w) {
    Loop<I, J + 1, 0>::run(w);
  }
};
template <int I>
struct Loop<I, NL, 0> {
  template <typename S>
  static void run(const World<S> &) {}
};
#if PART == 8 || PART == 9
template <int I, int J, bool OK>
struct Two {
  template <typename S>
  static void run(const World<S> &w) {
    CASE(cat(Leaf<I>::name(), "+", Leaf<J>::name()), some(w, Bin<0>::get(Leaf<I>::get(w), Leaf<J>::get(w)), Leaf<I>::ref(w) + Leaf<J>::ref(w)))
    CASE(cat(Leaf<I>::name(), "-", Leaf<J>::name()), some(w, Bin<1>::get(Leaf<I>::get(w), Leaf<J>::get(w)), Leaf<I>::ref(w) - Leaf<J>::ref(w)))
  }
};
template <int I, int J>
struct Two<I, J, false> {
  template <typename S>
  static void run(const World<S> &) {}
};
template <int I, int J>
struct Loop2 {
  template <typename S>
  static void run(const World<S> &w) {
    Two<I, J, Leaf<I>::h || Leaf<J>::h>::run(w);
    Loop2<I, J + 1>::run(w);
  }
};
template <int I>
struct Loop2<I, NL> {
  template <typename S>
  static void run(const World<S> &w) {
    Loop2<I + 1, 0>::run(w);
  }
};
template <>
struct Loop2<NL, 0> {
  template <typename S>
  static void run(const World<S> &) {}
};
#endif
template <typename S>
static void family(const World<S> &w) {
  typedef typename World<S>::M M;
#if PART == 8 || PART == 9
  CASE("H", applications(w, w.H, w.RH))
  CASE("bH", applications(w, w.b * w.H, w.b * w.RH))
  Loop2<0, 0>::run(w);
  CASE("H+D", applications(w, w.H + w.D, w.RH + w.D))
  CASE("S-K", applications(w, w.Sp - w.K, w.RS - w.RK))
  CASE("b(H+D)", some(w, w.b * (w.H + w.D), w.b * (w.RH + w.D)))
  CASE("b(S-bK)", some(w, w.b * (w.Sp - w.b * w.K), w.b * (w.RS - w.b * w.RK)))
  CASE("b(bH)", some(w, w.b * (w.b * w.H), w.b * w.b * w.RH))
  CASE("(H+D)-(K-S)", some(w, (w.H + w.D) - (w.K - w.Sp), w.RH + w.D - w.RK + w.RS))
  CASE("(H-K)-(H-K)", some(w, (w.H - w.K) - (w.H - w.K), M::Zero(w.RH.rows(), w.RH.cols())))
  CASE("H-(K-(H-(D-(S-K))))", applications(w, w.H - (w.K - (w.H - (w.D - (w.Sp - w.K)))), w.RH - (w.RK - (w.RH - (w.D - (w.RS - w.RK))))))
  CASE("b*(H-b*(D-b*(K+S)))", some(w, w.b * (w.H - w.b * (w.D - w.b * (w.K + w.Sp))), w.b * (w.RH - w.b * (w.D - w.b * (w.RK + w.RS)))))
  CASE("((((H+K)-D)+S)-H)", some(w, ((((w.H + w.K) - w.D) + w.Sp) - w.H), w.RK - w.D + w.RS))
  // assembled expressions kept in variables
  CASE("named", {
    auto e1 = w.H + w.D;
    auto e2 = w.Sp - w.K;
    auto e3 = e1 - e2;
    some(w, e3, w.RH + w.D - w.RS + w.RK);
    some(w, e1, w.RH + w.D);
  })
  CASE("dense", {
    cmp<M>(w.H.get_dense(), w.RH, 10, "get_dense");
    vf::check(w.H.rows() == w.RH.rows() && w.H.cols() == w.RH.cols(), "size");
  })
#else
  Loop<PART % 10, 0, 0>::run(w);
#endif
  // operands must be as before
  CASE("operands unchanged", {
    cmp<M>(World<S>::dense(w.H), w.RH, 1, "H");
    cmp<M>(World<S>::dense(w.K), w.RK, 1, "K");
    cmp<M>(M(w.Sp), w.RS, 1, "S");
    vf::check(w.lowrank > 0, "harness: no compressed block");
  })
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  std::vector<std::unique_ptr<World<double>>> wr;
  std::vector<std::unique_ptr<World<std::complex<double>>>> wc;
#if PART == 8
  {
    wr.emplace_back(new World<double>());
    wr.back()->make("laplace", LaplaceSingleLayerOperator(), LaplaceDoubleLayerOperator(), geo::apart(3), 2, 0, 2);
    wr.emplace_back(new World<double>());
    wr.back()->make("hypersingular", LaplaceHypersingularOperator(), LaplaceHypersingularOperator(), geo::apart(3), 2, 1, 3);
  }
  for (auto &w : wr) family(*w);
#else
  {
    wc.emplace_back(new World<std::complex<double>>());
    MaxwellSingleLayerOperator m1, m2;
    m1.set_wavenumber(1.3);
    m2.set_wavenumber(std::complex<double>(.8, -.4));
    wc.back()->make("maxwell", m1, m2, geo::apart(3), 1, 1, 2);
  }
  if (PART == 9 || th) {
    wc.emplace_back(new World<std::complex<double>>());
    HelmholtzSingleLayerOperator h1;
    HelmholtzAdjointDoubleLayerOperator h2;
    h1.set_wavenumber(std::complex<double>(1., .3));
    h2.set_wavenumber(2.);
    wc.back()->make("helmholtz", h1, h2, geo::apart(3), 2, th, 2);
  }
  for (auto &w : wc) family(*w);
#endif
  return vf::finish();
}
