// H05: iterative solvers on compressed operators and lazy sums solve the system, in every history.
// PART 0: real, 1: complex
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Helmholtz>
#include <Bembel/Identity>
#include <Bembel/Laplace>
#include <Bembel/LinearOperator>
#include <Bembel/Maxwell>
#include <unsupported/Eigen/IterativeSolvers>
#include "geo.hpp"
#include "vf.hpp"
using namespace Bembel;
using Eigen::Dynamic;
using Eigen::H2Matrix;
using Eigen::IdentityPreconditioner;
using Eigen::Lower;
using Eigen::Upper;
using vf::cat;
typedef std::complex<double> cd;
template <typename O> static auto wave(O *o, cd k) -> decltype(o->set_wavenumber(k), void()) { o->set_wavenumber(k); }
static void wave(...) {}
template <typename S> static S mk(double a, double b);
template <> double mk<double>(double a, double) { return a; }
template <> cd mk<cd>(double a, double b) { return {a, b}; }
template <typename S> struct Sys {
  typedef Eigen::Matrix<S, Dynamic, Dynamic> M;
  typedef Eigen::Matrix<S, Dynamic, 1> V;
  std::vector<V> b;
  V guess;
  M B;
  void make(int n) {
    for (int k = 0; k < 3; ++k) {
      V v(n);
      for (int i = 0; i < n; ++i) v(i) = k == 0 ? S(1) : mk<S>(std::sin(1 + 1.3 * i * k + k), std::cos(.4 * i + k));
      b.push_back(v);
    }
    guess = 3 * b[2] - b[1];
    B.resize(n, 2);
    B << b[1], S(2) * b[0];
  }
};
template <typename M> static M denseOf(const std::function<typename Sys<typename M::Scalar>::V(const typename Sys<typename M::Scalar>::V &)> &f, int n) {
  M r(n, n);
  for (int i = 0; i < n; ++i) r.col(i) = f(Sys<typename M::Scalar>::V::Unit(n, i));
  return r;
}
// histories: a, b: compute with matrix 0 / 1; 0, 1: solve, m: block of right-hand sides, g: with a guess, e: with the solution as guess,
// z: zero right-hand side, t / T: loose / tight tolerance, i / I: at most three / many iterations, r: assemble operator 0 anew with other parameters and compute
template <typename Solver, typename S, typename Mat>
static void histories(const std::string &nm, const Mat &A0, const Mat &A1, const std::function<void(int)> &again, int depth, bool restart) {
  typedef typename Sys<S>::M M;
  typedef typename Sys<S>::V V;
  const int n = A0.rows();
  Sys<S> s;
  s.make(n);
  // reference matrices of both, and of the first after assembling it anew
  again(0);
  M R[3];
  auto dn = [n](const Mat &A) { return denseOf<M>([&](const V &x) { return V(A * x); }, n); };
  R[0] = dn(A0);
  R[1] = dn(A1);
  again(1);
  R[2] = dn(A0);
  again(0);
  vf::check((R[0] - R[2]).norm() > 1e-3 * R[0].norm() && (R[0] - R[1]).norm() > 1e-3 * R[0].norm(), "harness: three different matrices");
  std::vector<std::string> all;
  std::vector<std::string> cur = {"a", "b"};
  for (int d = 0; d < depth; ++d) {
    std::vector<std::string> nx;
    for (auto &h : cur)
      for (char c : std::string("ab01mgeztiIr")) nx.push_back(h + c);
    all.insert(all.end(), nx.begin(), nx.end());
    cur = nx;
  }
  for (auto &h : all) {
    if (std::string("01mge").find(h.back()) == std::string::npos && (int)h.size() <= depth) continue;  // its extensions follow
    if (!vf::begin(cat(nm, "/", h))) continue;
    bool changed = false;
    int which = 0;
    double tol = 1e-8;
    int maxit = 10 * n;
    Solver solver;
    solver.setTolerance(tol);
    solver.setMaxIterations(maxit);
    auto verify = [&](const V &x, const V &b, const char *what, double initial = 0.) {
      vf::step();
      const double res = (R[which] * x - b).norm() / std::max(std::max(b.norm(), restart ? initial : 0.), 1e-300);  // GMRES: relative to the initial residual
      if (b.norm() == 0) {
        vf::near(x.norm(), 0., 1e-6, cat(what, ": zero right-hand side"));
        return;
      }
      if (maxit > 10) {
        vf::check(solver.info() == Eigen::Success, cat(what, ": not converged, residual ", res));
      }
      if (solver.info() == Eigen::Success) vf::check(res <= 2 * tol + 1e-13, cat(what, ": residual ", res, " but tolerance ", tol));
      if (solver.info() != Eigen::Success) vf::check(maxit <= 10, cat(what, ": fails only when iterations are limited"));
      if (!restart) vf::check(solver.iterations() <= maxit, cat(what, ": too many iterations"));
    };
    for (char c : h) {
      V x;
      if (c == 'a' || c == 'b') {
        which = c == 'b' ? 1 : changed ? 2 : 0;
        solver.compute(c == 'b' ? A1 : A0);
        vf::check(solver.info() == Eigen::Success && solver.rows() == n && solver.cols() == n, "compute");
      } else if (c == '0' || c == '1') {
        const V &b = s.b[c - '0'];
        x = solver.solve(b);
        verify(x, b, "solve");
      } else if (c == 'z') {
        x = solver.solve(V::Zero(n));
        verify(x, V::Zero(n), "solve");
      } else if (c == 'm') {
        M X = solver.solve(s.B);
        for (int i = 0; i < 2; ++i)
          if (maxit > 10 && solver.info() == Eigen::Success) verify(X.col(i), s.B.col(i), "block");
        if (maxit > 10) vf::check(solver.info() == Eigen::Success, "block: not converged");
      } else if (c == 'g') {
        x = solver.solveWithGuess(s.b[1], s.guess);
        verify(x, s.b[1], "guess", (R[which] * s.guess - s.b[1]).norm());
      } else if (c == 'e') {
        V y = R[which].partialPivLu().solve(s.b[2]);
        x = solver.solveWithGuess(s.b[2], y);
        verify(x, s.b[2], "solution as guess");
        vf::near((x - y).norm(), 0., 1e-6 * y.norm(), "solution as guess is kept");
        if (!restart) vf::check(solver.iterations() <= 1, cat("solution as guess takes ", solver.iterations(), " iterations"));
      } else if (c == 't') {
        solver.setTolerance(tol = tol < 1e-5 ? 1e-3 : 1e-8);
      } else if (c == 'i' || c == 'I') {
        solver.setMaxIterations(maxit = c == 'i' ? 3 : 10 * n);
      } else if (c == 'r') {
        again(!changed);
        changed = !changed;
        which = changed ? 2 : 0;
        solver.compute(A0);
      }
      vf::state(vf::hash(vf::hstr(nm), which, changed, (uint64_t)(-std::log10(tol)), maxit));
      if (vf::failed()) break;
    }
    if (changed) again(0);
  }
}
template <typename Op0, typename Op1> struct World {
  typedef typename LinearOperatorTraits<Op0>::Scalar S;
  Geometry g;
  AnsatzSpace<Op0> a0;
  AnsatzSpace<Op1> a1;
  DiscreteOperator<H2Matrix<S>, Op0> d0;
  DiscreteOperator<H2Matrix<S>, Op1> d1;
  World(const geo::QuadMesh &m, int L, int P, cd k) : g(geo::geometry(m)), a0(g, L, P), a1(g, L, P), d0(a0), d1(a1) {
    wave(&d0.get_linear_operator(), k);
    wave(&d1.get_linear_operator(), 1.7 * k);
    d0.compute();
    d1.compute();
  }
};
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const int dep = vf::thorough() ? 4 : 3;
  using Eigen::BiCGSTAB;
  using Eigen::ConjugateGradient;
  using Eigen::GMRES;
  using Eigen::MINRES;
  geo::QuadMesh big = geo::curved(geo::apart(3));
  typedef IdentityPreconditioner ID;
#if PART == 0
  {
    typedef World<LaplaceSingleLayerOperator, LaplaceSingleLayerOperator> W;
    W w(big, 2, 0, 0.);
    auto small = geo::shifted(big, {0, 0, 0}, .8);
    W o(small, 2, 0, 0.);
    // Laplace operators have no parameters: a second geometry, and the same operator assembled on another space of the same size
    auto again = [&](int k) {
      w.d0.init_DiscreteOperator(k ? o.a0 : w.a0);
      w.d0.compute();
    };
    W w1(geo::shifted(geo::curved(geo::apart(1.5)), {1, 0, 0}, 1.1), 2, 0, 0.);
    const H2Matrix<double> &A = w.d0.get_discrete_operator(), &B = w1.d0.get_discrete_operator();
    histories<ConjugateGradient<H2Matrix<double>, Lower | Upper, ID>, double>("cg", A, B, again, dep, false);
    histories<BiCGSTAB<H2Matrix<double>, ID>, double>("bicgstab", A, B, again, dep, false);
    histories<GMRES<H2Matrix<double>, ID>, double>("gmres", A, B, again, dep, true);
    histories<MINRES<H2Matrix<double>, Lower | Upper, ID>, double>("minres", A, B, again, dep, false);
    // sums
    Eigen::SparseMatrix<double> I(A.rows(), A.cols()), J;
    I.setIdentity();
    J = 1.5 * I;
    auto s0 = .5 * I + A;
    decltype(s0) s1 = .5 * J + B;
    histories<GMRES<decltype(s0), ID>, double>("gmres(S+H)", s0, s1, again, dep - 1, true);
    histories<BiCGSTAB<decltype(s0), ID>, double>("bicgstab(S+H)", s0, s1, again, dep - 1, false);
    auto t0 = A + B;
    decltype(t0) t1 = B + B;
    histories<GMRES<decltype(t0), ID>, double>("gmres(H+H)", t0, t1, again, dep - 1, true);
  }
#else
  {
    typedef World<HelmholtzSingleLayerOperator, HelmholtzSingleLayerOperator> W;
    W w(big, 2, 0, cd(1, -.2));
    auto again = [&](int k) {
      w.d0.get_linear_operator().set_wavenumber(k ? cd(2.1, -.4) : cd(1, -.2));
      w.d0.compute();
    };
    const H2Matrix<cd> &A = w.d0.get_discrete_operator(), &B = w.d1.get_discrete_operator();
    histories<GMRES<H2Matrix<cd>, ID>, cd>("gmres", A, B, again, dep, true);
    histories<BiCGSTAB<H2Matrix<cd>, ID>, cd>("bicgstab", A, B, again, dep, false);
    Eigen::SparseMatrix<cd> I(A.rows(), A.cols()), J;
    I.setIdentity();
    J = cd(1.5, .5) * I;
    auto s0 = cd(.5, .1) * I + A;
    decltype(s0) s1 = cd(.5, .1) * J + B;
    histories<GMRES<decltype(s0), ID>, cd>("gmres(S+H)", s0, s1, again, dep - 1, true);
    auto t0 = A - cd(0, 1) * B;
    decltype(t0) t1 = B - cd(0, 1) * B;
    histories<GMRES<decltype(t0), ID>, cd>("gmres(H-bH)", t0, t1, again, dep - 1, true);
  }
  {
    typedef World<MaxwellSingleLayerOperator, MaxwellSingleLayerOperator> W;
    W w(big, 1, 1, cd(1.5, 0));
    auto again = [&](int k) {
      w.d0.get_linear_operator().set_wavenumber(k ? cd(2.1, -.4) : cd(1.5, 0));
      w.d0.compute();
    };
    const H2Matrix<cd> &A = w.d0.get_discrete_operator(), &B = w.d1.get_discrete_operator();
    histories<GMRES<H2Matrix<cd>, ID>, cd>("maxwell/gmres", A, B, again, dep - 1, true);
  }
#endif
  return vf::finish();
}
