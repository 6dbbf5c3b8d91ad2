// O07: discrete boundary integral equations recover the solutions of boundary value problems.
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Helmholtz>
#include <Bembel/Identity>
#include <Bembel/Laplace>
#include <Bembel/LinearForm>
#include <Bembel/LinearOperator>
#include <Bembel/Maxwell>
#include <Bembel/Potential>
#include <unsupported/Eigen/IterativeSolvers>
#include "geo.hpp"
#include "sphere.hpp"
#include "vf.hpp"
using namespace Bembel;
using vf::cat;
typedef std::complex<double> cd;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector3cd C3;
typedef Eigen::MatrixXcd MC;
typedef Eigen::VectorXcd VC;
static const cd I(0, 1);
// ---- surfaces: the shipped sphere, mapped affinely, patches reordered and their parametrisations rotated
struct Surf {
  std::string name;
  Geometry g;
  Eigen::Matrix3d A;
  V3 b;
};
static Surf surface(int i) {
  Surf s;
  s.A.setIdentity();
  s.b.setZero();
  if (i) {
    s.A << 1.1, .1, 0, -.1, .9, .05, .05, 0, .75;
    s.b << .1, -.05, .2;
  }
  s.name = i ? "ellipsoid" : "sphere";
  s.g = Geometry(sph::readSphere(s.A, s.b, i));
  return s;
}
static Eigen::Matrix<double, -1, 3> points(const Surf &s, bool interior) {
  Eigen::Matrix<double, -1, 3> x(27 - !interior, 3);
  int n = 0;
  for (int i = -1; i <= 1; ++i)
    for (int j = -1; j <= 1; ++j)
      for (int k = -1; k <= 1; ++k) {
        V3 y(i, j, k);
        if (!interior && y.norm() == 0) continue;
        x.row(n++) = (s.A * (interior ? V3(.25 * y) : V3(2. * y.normalized())) + s.b).transpose();
      }
  return x;
}
// ---- solutions ------------------------------------------------------------------------------------------------
struct Sol {
  std::string name;
  std::function<C3(const V3 &)> u;     // component 0 for scalar problems
  std::function<C3(const V3 &)> grad;  // scalar problems
};
static C3 sc(cd z) { return C3(z, 0, 0); }
static std::vector<Sol> laplaceInt() {
  std::vector<Sol> r;
  auto add = [&](const char *n, std::function<double(const V3 &)> u, std::function<V3(const V3 &)> g) {
    r.push_back({n, [u](const V3 &x) { return sc(u(x)); }, [g](const V3 &x) { return C3(g(x).cast<cd>()); }});
  };
  add("1", [](const V3 &) { return 1.; }, [](const V3 &) { return V3(0, 0, 0); });
  add("x", [](const V3 &x) { return x(0); }, [](const V3 &) { return V3(1, 0, 0); });
  add("y", [](const V3 &x) { return x(1); }, [](const V3 &) { return V3(0, 1, 0); });
  add("z", [](const V3 &x) { return x(2); }, [](const V3 &) { return V3(0, 0, 1); });
  add("xy", [](const V3 &x) { return x(0) * x(1); }, [](const V3 &x) { return V3(x(1), x(0), 0); });
  add("yz", [](const V3 &x) { return x(1) * x(2); }, [](const V3 &x) { return V3(0, x(2), x(1)); });
  add("zx", [](const V3 &x) { return x(0) * x(2); }, [](const V3 &x) { return V3(x(2), 0, x(0)); });
  add("xx-yy", [](const V3 &x) { return x(0) * x(0) - x(1) * x(1); }, [](const V3 &x) { return V3(2 * x(0), -2 * x(1), 0); });
  add("yy-zz", [](const V3 &x) { return x(1) * x(1) - x(2) * x(2); }, [](const V3 &x) { return V3(0, 2 * x(1), -2 * x(2)); });
  add("exp", [](const V3 &x) { return std::exp(x(0)) * std::cos(x(1)); }, [](const V3 &x) { return V3(std::exp(x(0)) * std::cos(x(1)), -std::exp(x(0)) * std::sin(x(1)), 0); });
  return r;
}
static V3 src(const Surf &s, int i) {
  const V3 c[3] = {{0, 0, 0}, {.2, .1, -.1}, {-.1, .2, .2}};
  return s.A * c[i] + s.b;
}
static cd fs(const V3 &d, cd k) { return std::exp(-I * k * d.norm()) / d.norm(); }
static C3 fsg(const V3 &d, cd k) {
  const double r = d.norm();
  return (-std::exp(-I * k * r) * (1. + I * k * r) / (r * r * r)) * d.cast<cd>();
}
static std::vector<Sol> sources(const Surf &s, cd k) {
  std::vector<Sol> r;
  for (int i = 0; i < 3; ++i) {
    V3 c = src(s, i);
    r.push_back({cat("source", i), [=](const V3 &x) { return sc(fs(x - c, k)); }, [=](const V3 &x) { return fsg(x - c, k); }});
  }
  return r;
}
static std::vector<Sol> laplaceDipoles(const Surf &s) {
  std::vector<Sol> r;
  for (int i = 0; i < 3; ++i) {
    const V3 c = src(s, i), p = V3::Unit(i) + V3(.1, .2, .3);
    r.push_back({cat("dipole", i), [=](const V3 &x) { V3 d = x - c; return sc(p.dot(d) / std::pow(d.norm(), 3)); },
                 [=](const V3 &x) { V3 d = x - c; const double q = d.norm(); return C3((p / std::pow(q, 3) - 3 * p.dot(d) / std::pow(q, 5) * d).cast<cd>()); }});
  }
  return r;
}
static V3 dir(int i) { return V3(i == 1 ? -.3 : .6, i == 2 ? -.9 : .2, .5 + i).normalized(); }
static std::vector<Sol> waves(cd k) {
  std::vector<Sol> r;
  for (int i = 0; i < 3; ++i) {
    V3 d = dir(i);
    r.push_back({cat("wave", i), [=](const V3 &x) { return sc(std::exp(-I * k * d.dot(x))); }, [=](const V3 &x) { return C3(-I * k * std::exp(-I * k * d.dot(x)) * d.cast<cd>()); }});
  }
  return r;
}
static std::vector<Sol> maxwellSol(const Surf &s, cd k, bool interior) {
  std::vector<Sol> r;
  for (int i = 0; i < 3; ++i) {
    const V3 p = V3::Unit(i) + V3(.1, .2, .3);
    if (interior) {
      const V3 d = dir(i), q = p - p.dot(d) * d;
      r.push_back({cat("wave", i), [=](const V3 &x) { return C3(std::exp(-I * k * d.dot(x)) * q.cast<cd>()); }, nullptr});
    } else {
      // k^2 G p + grad div (G p)
      const V3 c = src(s, i);
      r.push_back({cat("dipole", i), [=](const V3 &x) {
                     const V3 d = x - c;
                     const double q = d.norm();
                     const V3 n = d / q;
                     const cd e = std::exp(-I * k * q);
                     return C3(k * k * e / q * (p - n.dot(p) * n).cast<cd>() + (1. / (q * q * q) + I * k / (q * q)) * e * (3 * n.dot(p) * n - p).cast<cd>());
                   }, nullptr});
    }
  }
  return r;
}
// ---- one family of problems -----------------------------------------------------------------------------------
template <typename S> S down(cd z) { return z; }
template <> double down<double>(cd z) { return z.real(); }
template <typename O> static auto wave(O *o, cd k) -> decltype(o->set_wavenumber(k), void()) { o->set_wavenumber(k); }
static void wave(...) {}
template <typename S, typename Op> static void setFun(DiscreteLinearForm<DirichletTrace<S>, Op> *l, const Sol &s) {
  l->get_linear_form().set_function([s](V3 x) { return down<S>(s.u(x)(0)); });
}
template <typename S> static Eigen::Matrix<S, 3, 1> down3(const C3 &v) {
  Eigen::Matrix<S, 3, 1> r;
  for (int i = 0; i < 3; ++i) r(i) = down<S>(v(i));
  return r;
}
template <typename S, typename Op> static void setFun(DiscreteLinearForm<NeumannTrace<S>, Op> *l, const Sol &s) {
  l->get_linear_form().set_function([s](V3 x) { return down3<S>(s.grad(x)); });
}
template <typename S, typename Op> static void setFun(DiscreteLinearForm<RotatedTangentialTrace<S>, Op> *l, const Sol &s) {
  l->get_linear_form().set_function([s](V3 x) { return down3<S>(s.u(x)); });
}
template <typename Op> static Eigen::Matrix<typename LinearOperatorTraits<Op>::Scalar, -1, -1> mass(const Surf &s, int L, int P) {
  AnsatzSpace<MassMatrixScalarDisc> a(s.g, L, P);
  DiscreteLocalOperator<MassMatrixScalarDisc> m(a);
  m.compute();
  return Eigen::MatrixXd(m.get_discrete_operator()).cast<typename LinearOperatorTraits<Op>::Scalar>();
}
template <typename Op> struct Means {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  static Eigen::Matrix<S, -1, 1> get(const AnsatzSpace<Op> &as) {
    DiscreteLinearForm<DirichletTrace<S>, Op> l(as);
    l.get_linear_form().set_function([](V3) { return S(1); });
    l.compute();
    return l.get_discrete_linear_form();
  }
};
template <> struct Means<MaxwellSingleLayerOperator> {
  static VC get(const AnsatzSpace<MaxwellSingleLayerOperator> &) { return VC(); }
};
// constants C of the error bounds C * 2^(-rate * level), rate 2 P + 3 (single layers), 2 P + 2 (double layers), 2 P + 1 (hypersingular, Maxwell):
// generated: 2 x the largest error * 2^(rate * level) over surfaces, wavenumbers, solutions and levels <= 2
static const std::map<std::string, double> BOUNDS = {
    {"helmholtzADL/exterior/P0", 0.48},
    {"helmholtzADL/exterior/P1", 0.18},
    {"helmholtzADL/exterior/P2", 0.85},
    {"helmholtzADL/interior/P0", 1.2},
    {"helmholtzADL/interior/P1", 0.087},
    {"helmholtzADL/interior/P2", 0.058},
    {"helmholtzDL/exterior/P0", 1.7},
    {"helmholtzDL/exterior/P1", 0.75},
    {"helmholtzDL/exterior/P2", 1.4},
    {"helmholtzDL/interior/P0", 0.45},
    {"helmholtzDL/interior/P1", 0.096},
    {"helmholtzDL/interior/P2", 0.12},
    {"helmholtzHS/exterior/P1", 0.57},
    {"helmholtzHS/exterior/P2", 0.61},
    {"helmholtzHS/exterior/P3", 0.084},
    {"helmholtzHS/interior/P1", 0.81},
    {"helmholtzHS/interior/P2", 0.23},
    {"helmholtzHS/interior/P3", 0.1},
    {"helmholtzSL/exterior/P0", 0.43},
    {"helmholtzSL/exterior/P1", 0.19},
    {"helmholtzSL/exterior/P2", 1.9},
    {"helmholtzSL/interior/P0", 0.29},
    {"helmholtzSL/interior/P1", 0.053},
    {"helmholtzSL/interior/P2", 0.099},
    {"laplaceADL/exterior/P0", 0.25},
    {"laplaceADL/exterior/P1", 0.064},
    {"laplaceADL/exterior/P2", 0.26},
    {"laplaceDL/interior/P0", 2.4},
    {"laplaceDL/interior/P1", 0.62},
    {"laplaceDL/interior/P2", 1.1},
    {"laplaceHS/exterior/P1", 0.64},
    {"laplaceHS/exterior/P2", 2.1},
    {"laplaceHS/exterior/P3", 1.4},
    {"laplaceHS/interior/P1", 2},
    {"laplaceHS/interior/P2", 0.91},
    {"laplaceHS/interior/P3", 0.42},
    {"laplaceSL/exterior/P0", 0.22},
    {"laplaceSL/exterior/P1", 0.063},
    {"laplaceSL/exterior/P2", 0.56},
    {"laplaceSL/interior/P0", 2},
    {"laplaceSL/interior/P1", 0.43},
    {"laplaceSL/interior/P2", 0.47},
    {"maxwell/exterior/P1", 4.3},
    {"maxwell/exterior/P2", 15},
    {"maxwell/interior/P1", 1.3},
    {"maxwell/interior/P2", 1.1},
};
// c M + A; sign of the data; c = 0: no mass; c = NAN: rank one correction (constants in the kernel)
template <typename Op, typename Trace, typename Pot>
static void problem(const std::string &nm, const Surf &s, int L, int P, cd k, double c, double sign, bool interior, const std::vector<Sol> &sols, bool h2) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  typedef Eigen::Matrix<S, -1, -1> M;
  typedef Eigen::Matrix<S, -1, 1> V;
  const std::string key = cat(nm, interior ? "/interior" : "/exterior", "/k", k.real(), k.imag() < 0 ? "" : "+", k.imag(), "/", s.name, "/P", P, "L", L, h2 ? "/compressed" : "");
  if (!vf::begin(key)) return;
  AnsatzSpace<Op> as(s.g, L, P);
  const int n = as.get_number_of_dofs();
  auto x = points(s, interior);
  M A;
  DiscreteOperator<Eigen::H2Matrix<S>, Op> dh(as);
  wave(&dh.get_linear_operator(), k);
  if (h2) {
    dh.compute();
    A.resize(n, n);
    A = dh.get_discrete_operator() * M(M::Identity(n, n));
  } else {
    DiscreteOperator<M, Op> d(as);
    wave(&d.get_linear_operator(), k);
    d.compute();
    A = d.get_discrete_operator();
  }
  const bool kernel = std::isnan(c);
  if (!kernel && c != 0) A += S(c) * mass<Op>(s, L, P);
  V ones;
  if (kernel) {
    ones = Means<Op>::get(as);
    A += ones * ones.transpose();
  }
  Eigen::PartialPivLU<M> lu(A);
  DiscretePotential<Pot, Op> pot(as);
  wave(&pot.get_potential(), k);
  DiscreteLinearForm<Trace, Op> lf(as);
  double worst = 0;
  const std::string fam = nm.substr(nm.size() - 2);
  const double rate = 2 * P + (nm == "maxwell" || fam == "HS" ? 1 : nm.find("SL") != std::string::npos ? 3 : 2);
  auto it = BOUNDS.find(cat(nm, interior ? "/interior" : "/exterior", "/P", P));
  const double bound = (it == BOUNDS.end() ? 4 : it->second * (L > 2 ? 3 : 1)) * std::pow(2., -rate * L);
  for (auto &so : sols) {
    vf::state(vf::hash(vf::hstr(key), vf::hstr(so.name)));
    setFun(&lf, so);
    lf.compute();
    V rho = lu.solve(S(sign) * lf.get_discrete_linear_form());
    pot.set_cauchy_data(rho);
    MC u = pot.evaluate(x).template cast<cd>(), w(u.rows(), u.cols());
    for (int i = 0; i < x.rows(); ++i) w.row(i) = so.u(x.row(i).transpose()).head(u.cols()).transpose();
    if (kernel && interior) {
      const cd m = (u - w).mean();
      u.array() -= m;
    }
    const double e = (u - w).cwiseAbs().maxCoeff() / std::max(w.cwiseAbs().maxCoeff(), .05);
    worst = std::max(worst, e);
    vf::step();
    vf::check(e <= bound, cat("error ", e, " of solution ", so.name, " exceeds ", bound));
  }
  vf::near(worst, 0., bound, key + " (error against the bound)");
  if (getenv("O07_TABLE")) fprintf(stderr, "%-70s %.3e bound %.3e ratio %.2f\n", key.c_str(), worst, bound, worst / bound);
}
int main(int argc, char **argv) {
  vf::init(argc, argv);
  const bool th = vf::thorough();
  const double no = NAN;
  const std::vector<cd> ks = {1.5, cd(1, -.5), cd(0, -1)};
  for (int g = th || getenv("O07_TABLE") ? 0 : 1; g < 2; ++g) {
    const Surf s = surface(g);
    for (int h2 = 0; h2 < 2; ++h2)
      for (int P = 0; P <= 2; ++P)
        for (int L = 0; L <= (th ? 3 : 2); ++L) {
          if (h2 && (L < 2 || P > 1) && !th) continue;
          if (P > 1 && L > (PART == 2 && !th ? 1 : 2)) continue;
          if (PART == 2 && P > 0 && L > 2) continue;
#define RUN(OP, TRACE, POT, NM, P, K, C, SGN, INT, SOLS) problem<OP, TRACE, POT<OP>>(NM, s, L, P, K, C, SGN, INT, SOLS, h2)
          const cd z = 0.;
#if PART == 0
          RUN(LaplaceSingleLayerOperator, DirichletTrace<double>, LaplaceSingleLayerPotential, "laplaceSL", P, z, 0, 1, true, laplaceInt());
          RUN(LaplaceSingleLayerOperator, DirichletTrace<double>, LaplaceSingleLayerPotential, "laplaceSL", P, z, 0, 1, false, sources(s, 0.));
          RUN(LaplaceDoubleLayerOperator, DirichletTrace<double>, LaplaceDoubleLayerPotential, "laplaceDL", P, z, -.5, 1, true, laplaceInt());
          RUN(LaplaceAdjointDoubleLayerOperator, NeumannTrace<double>, LaplaceSingleLayerPotential, "laplaceADL", P, z, -.5, 1, false, sources(s, 0.));
          RUN(LaplaceHypersingularOperator, NeumannTrace<double>, LaplaceDoubleLayerPotential, "laplaceHS", P + 1, z, no, -1, true, laplaceInt());
          RUN(LaplaceHypersingularOperator, NeumannTrace<double>, LaplaceDoubleLayerPotential, "laplaceHS", P + 1, z, no, -1, false, laplaceDipoles(s));
#else
          for (cd k : ks) {
            if (h2 && k != ks[1] && !th) continue;
#if PART == 1
            for (int in = 0; in < 2; ++in) {
              auto so = in ? waves(k) : sources(s, k);
              const double c = in ? -1 : 1;
              RUN(HelmholtzSingleLayerOperator, DirichletTrace<cd>, HelmholtzSingleLayerPotential, "helmholtzSL", P, k, 0, 1, in, so);
              RUN(HelmholtzDoubleLayerOperator, DirichletTrace<cd>, HelmholtzDoubleLayerPotential, "helmholtzDL", P, k, c * .5, 1, in, so);
              RUN(HelmholtzAdjointDoubleLayerOperator, NeumannTrace<cd>, HelmholtzSingleLayerPotential, "helmholtzADL", P, k, -c * .5, 1, in, so);
            }
#elif PART == 2
            for (int in = 0; in < 2; ++in) {
              RUN(HelmholtzHypersingularOperator, NeumannTrace<cd>, HelmholtzDoubleLayerPotential, "helmholtzHS", P + 1, k, 0, -1, in, in ? waves(k) : sources(s, k));
              if (P < 2 || th) RUN(MaxwellSingleLayerOperator, RotatedTangentialTrace<cd>, MaxwellSingleLayerPotential, "maxwell", P + 1, k, 0, 1, in, maxwellSol(s, k, in));
            }
#endif
          }
#endif
        }
  }
  return vf::finish();
}
