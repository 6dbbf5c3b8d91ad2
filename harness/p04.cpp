// P04: concurrent read access to shared objects and concurrent use of separate ones. Every pair of
// programs of reading operations runs in two (or three) user threads under every schedule of the
// points between operations and of every synchronisation operation; results are those of a
// sequential run and no two threads access memory in conflict.
#include <Eigen/Dense>
#include <Bembel/AnsatzSpace>
#include <Bembel/Geometry>
#include <Bembel/H2Matrix>
#include <Bembel/Helmholtz>
#include <Bembel/HomogenisedLaplace>
#include <Bembel/IO>
#include <Bembel/Identity>
#include <Bembel/Laplace>
#include <Bembel/LaplaceBeltrami>
#include <Bembel/LinearForm>
#include <Bembel/LinearOperator>
#include <Bembel/Maxwell>
#include <Bembel/Potential>
#include <omp.h>
#include <unistd.h>
#include "geo.hpp"
#include "explore.hpp"
using namespace Bembel;
using vf::cat;
#include "pcommon.hpp"
typedef std::vector<double> R;
template <typename P>
static auto pwave(P *o) -> decltype(o->set_wavenumber(1.), void()) {
  o->set_wavenumber(std::complex<double>(1.3, .4));
}
static void pwave(...) {}
static void put(R *r, double x) { r->push_back(x); }
static void put(R *r, std::complex<double> x) {
  r->push_back(x.real());
  r->push_back(x.imag());
}
template <typename V>
static void putm(R *r, const V &v) {
  for (int j = 0; j < v.cols(); ++j)
    for (int i = 0; i < v.rows(); ++i) put(r, v(i, j));
}
// a right-hand side for every kind of space
template <typename Op, int Form>
struct Rhs {
  typedef DirichletTrace<typename LinearOperatorTraits<Op>::Scalar> T;
  static void set(DiscreteLinearForm<T, Op> *f) {
    typedef typename LinearOperatorTraits<Op>::Scalar S;
    f->get_linear_form().set_function([](Eigen::Vector3d x) { return S(x(0) + 2 * x(1) * x(2)); });
  }
};
template <typename Op>
struct Rhs<Op, DifferentialForm::DivConforming> {
  typedef RotatedTangentialTrace<std::complex<double>> T;
  static void set(DiscreteLinearForm<T, Op> *f) {
    f->get_linear_form().set_function([](Eigen::Vector3d x) { return Eigen::Vector3cd(x(1), std::complex<double>(x(2), 1), x(0)); });
  }
};
template <typename Op, typename Pot>
struct World {
  typedef LinearOperatorTraits<Op> Tr;
  typedef typename Tr::Scalar S;
  typedef Eigen::Matrix<S, -1, 1> V;
  typedef Eigen::Matrix<S, -1, -1> M;
  template <typename F>
  static void div(const F &f, const ElementTreeNode &e, const SurfacePoint &sp, R *r, std::true_type) {
    put(r, f.evaluateDiv(e, sp));
  }
  template <typename F>
  static void div(const F &, const ElementTreeNode &, const SurfacePoint &, R *, std::false_type) {}
  struct Shared {
    Geometry geo;
    AnsatzSpace<Op> as;
    FunctionEvaluator<Op> fe;
    DiscreteOperator<Eigen::H2Matrix<S>, Op> h2;
    V c;
    Shared(const geo::QuadMesh &m, int L, int P, bool compressed) : geo(geo::patches(m)), as(geo, L, P, 1), fe(as), h2(as), c(as.get_number_of_dofs()) {
      for (int i = 0; i < c.size(); ++i) c(i) = S(.5 + (i * 7 % 5) * .25);
      fe.set_function(c);
      pwave(&h2.get_linear_operator());
      if (compressed) h2.compute();
    }
  };
  typedef std::function<void(const Shared &, R *)> Fn;
  std::vector<std::pair<std::string, Fn>> ops;
  geo::QuadMesh m;
  int L, P;
  World(const geo::QuadMesh &m, int L, int P) : m(m), L(L), P(P) {
    add("patch", [](const Shared &w, R *r) {
      for (int p = 0; p < (int)w.geo.get_geometry().size(); ++p) {
        const Patch &a = w.geo.get_geometry()[p];
        putm(r, a.eval(.3, .7));
        putm(r, a.evalJacobian(.2, 1.));
        putm(r, a.evalNormal(0., .4));
        SurfacePoint sp;
        a.updateSurfacePoint(&sp, Eigen::Vector2d(.1, .6), 2., Eigen::Vector2d(.2, .3));
        putm(r, sp);
      }
    });
    add("mesh", [](const Shared &w, R *r) {
      const ElementTree &t = w.as.get_superspace().get_mesh().get_element_tree();
      for (auto e = t.cpbegin(); e != t.cpend(); ++e) {
        put(r, e->id_ + 10. * e->patch_);
        putm(r, e->midpoint_);
        putm(r, e->mapToReferenceElement(Eigen::Vector2d(.4, .3)));
        for (auto n : e->adjcents_) put(r, n ? n->id_ : -1.);
      }
      for (auto i : t.computeReorderingVector()) put(r, i);
      putm(r, t.generatePointList().template cast<double>());
      putm(r, t.generateElementList().template cast<double>());
    });
    add("basis", [](const Shared &w, R *r) {
      const auto &ss = w.as.get_superspace();
      const ElementTree &t = ss.get_mesh().get_element_tree();
      for (auto i = t.cpbegin(); i != t.cpend(); ++i) {
        const ElementTreeNode &e = *i;
        SurfacePoint sp;
        ss.map2surface(e, Eigen::Vector2d(.25, .6), 1.5, &sp);
        putm(r, sp);
        putm(r, ss.basis(Eigen::Vector2d(.25, .6)));
        putm(r, ss.basisDx(Eigen::Vector2d(.25, .6)));
      }
    });
    add("fun", [](const Shared &w, R *r) {
      for (int p = 0; p < (int)w.geo.get_geometry().size(); ++p)
        for (double x : {0., .3, 1.}) putm(r, w.fe.evaluateOnPatch(p, Eigen::Vector2d(x, .6)));
      const auto &ss = w.as.get_superspace();
      const ElementTree &t = ss.get_mesh().get_element_tree();
      for (auto i = t.cpbegin(); i != t.cpend(); ++i) {
        const ElementTreeNode &e = *i;
        SurfacePoint sp;
        ss.map2surface(e, Eigen::Vector2d(.25, .6), 1., &sp);
        putm(r, w.fe.evaluate(e, sp));
        div(w.fe, e, sp, r, std::integral_constant<bool, Tr::Form == DifferentialForm::DivConforming>());
      }
    });
    add("product", [](const Shared &w, R *r) {
      const auto &H = w.h2.get_discrete_operator();
      V y = H * w.c;
      putm(r, y);
      y = H * V(2. * w.c);
      putm(r, y);
    });
    add("copy", [](const Shared &w, R *r) {
      AnsatzSpace<Op> a(w.as);
      FunctionEvaluator<Op> f(w.fe), g;
      g = f;
      Geometry h(w.geo);
      putm(r, g.evaluateOnPatch(0, Eigen::Vector2d(.3, .2)));
      putm(r, f.evaluateOnPatch(0, Eigen::Vector2d(.8, .2)));
      put(r, a.get_number_of_dofs());
      putm(r, h.get_geometry()[0].eval(.3, .4));
    });
    add("rhs", [](const Shared &w, R *r) {
      typedef Rhs<Op, Tr::Form> H;
      DiscreteLinearForm<typename H::T, Op> f(w.as);
      H::set(&f);
      f.compute();
      putm(r, f.get_discrete_linear_form());
    });
    add("dense", [](const Shared &w, R *r) {
      DiscreteOperator<M, Op> A(w.as);
      pwave(&A.get_linear_operator());
      A.compute();
      putm(r, A.get_discrete_operator());
    });
    add("compress", [](const Shared &w, R *r) {
      DiscreteOperator<Eigen::H2Matrix<S>, Op> A(w.as);
      pwave(&A.get_linear_operator());
      A.compute();
      V y = A.get_discrete_operator() * w.c;
      putm(r, y);
    });
    add("potential", [](const Shared &w, R *r) {
      DiscretePotential<Pot, Op> A(w.as);
      pwave(&A.get_potential());
      A.set_cauchy_data(w.c);
      Eigen::MatrixXd x(2, 3);
      x << .3, .2, 2, -.4, 1, 1.5;
      putm(r, A.evaluate(x));
    });
    add("own", [this](const Shared &, R *r) {
      // everything from scratch, on another geometry
      Geometry g(geo::patches(geo::rotated(this->m, {1, 0, 3, 2, 1, 0})));
      AnsatzSpace<Op> a(g, this->L, this->P, 1);
      FunctionEvaluator<Op> f(a);
      V d(a.get_number_of_dofs());
      for (int i = 0; i < d.size(); ++i) d(i) = S(1. + i % 3);
      f.set_function(d);
      put(r, d.size());
      putm(r, f.evaluateOnPatch(0, Eigen::Vector2d(.3, .7)));
      ClusterTree t(g, 0);
      t.get_element_tree().refinePatch(0);
      putm(r, t.get_element_tree().generatePointList());
    });
    add("mass", [this](const Shared &w, R *r) {
      AnsatzSpace<MassMatrixScalarDisc> a(w.geo, this->L, this->P);
      DiscreteLocalOperator<MassMatrixScalarDisc> A(a);
      A.compute();
      putm(r, Eigen::MatrixXd(A.get_discrete_operator()));
    });
    add("export", [](const Shared &w, R *r) {
      const std::string n = cat("t", omp_get_thread_num(), r->size(), ".vtp");
      VTKSurfaceExport v(w.geo, 0);
      v.addDataSet("u", std::function<double(int, const Eigen::Vector2d &)>([](int p, const Eigen::Vector2d &x) { return p + x(0); }));
      v.writeToFile(n);
      IO::Logger<10> l(n + ".log");
      l.file("a", 1.5);
      std::ifstream in(n);
      std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      put(r, vf::hstr(t) % 1000003);
      std::remove(n.c_str());
      std::remove((n + ".log").c_str());
    });
    homogenised(0);
  }
  template <typename X>
  void homogenised(X) {
#if PART == 1
    add("homogenised", [](const Shared &, R *r) {
      HomogenisedLaplaceSingleLayerOperator o;
      put(r, o.evaluateKernel(Eigen::Vector3d(.1, .2, .3), Eigen::Vector3d(-.2, .1, .05)));
      put(r, o.evaluateKernel(Eigen::Vector3d(.4, .2, .3), Eigen::Vector3d(-.4, .1, .05)));
    });
#endif
  }
  void add(const std::string &n, const Fn &f) { ops.push_back({n, f}); }
  // thread t runs the operations prog[t]
  void run(const std::string &tag, const std::vector<std::vector<int>> &prog, int dev) {
    std::string n = tag;
    bool product = false;
    for (auto &p : prog) {
      n += "/";
      for (int o : p) {
        n += "." + ops[o].first;
        product |= ops[o].first == "product";
      }
    }
    const int T = prog.size();
    std::vector<double> ref;
    auto body = [&](bool par, std::vector<double> *res) {
      omp_set_num_threads(1);
      Shared w(m, L, P, product);
      std::vector<R> out(T);
      if (par) {
        omp_set_num_threads(T);
#pragma omp parallel num_threads(T)
        {
          const int t = omp_get_thread_num();
          R mine;
          for (size_t k = 0; k < prog[t].size(); ++k) {
            omprt::yield();
            ops[prog[t][k]].second(w, &mine);
          }
          omprt::yield();
          out[t] = mine;
        }
        omp_set_num_threads(1);
      } else {
        for (int t = 0; t < T; ++t)
          for (int o : prog[t]) ops[o].second(w, &out[t]);
      }
      for (auto &o : out) res->insert(res->end(), o.begin(), o.end());
    };
    body(false, &ref);
    double mx = 0;
    for (double v : ref) mx = std::max(mx, std::abs(v));
    explore::all(n, T, dev, DETECT, [&](std::vector<double> *res) { body(true, res); }, ref, 1e-12 * (mx + 1));
  }
  // operations that evaluate quadrature rules or kernels a lot; operations without a space of this kind
  static bool heavy(const std::string &n) { return n == "rhs" || n == "dense" || n == "compress" || n == "potential" || n == "mass" || n == "homogenised"; }
  static bool common(const std::string &n) { return n == "patch" || n == "mesh" || n == "mass" || n == "export"; }
  void all(const std::string &tag, bool th) {
    const int N = ops.size();
    auto hv = [&](int i) { return heavy(ops[i].first); };
    for (int i = 0; i < N; ++i)
      for (int j = i; j < N; ++j) {
        if (PART > 1 && common(ops[i].first) && common(ops[j].first)) continue;
        if (!th && i != j && ops[j].first == "homogenised" && ops[i].first != "own") continue;
        // operations of one kind of work share the same code: each with itself
        auto costly = [&](int k) { return hv(k) || ops[k].first == "product"; };
        if (!th && DETECT && i != j && costly(i) && costly(j)) continue;
        run(tag, {{i}, {j}}, DETECT ? th : 2 + th);
      }
    for (int i = 0; i < N; ++i)
      if (PART == 1 || !common(ops[i].first)) run(tag, {{i}, {i}, {i}}, DETECT ? th : 2 + th - (hv(i) || ops[i].first == "product" ? 1 : 0));
    // programs of two operations against one
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j)
        for (int k = 0; k < N; ++k)
          if ((th || !DETECT) && !hv(i) && !hv(j) && !hv(k) && (th || j == k) && (PART == 1 || !(common(ops[i].first) && common(ops[k].first)))) run(tag, {{i, j}, {k}}, th ? 2 : 1);
  }
};
int main(int argc, char **argv) {
  vf::init(argc, argv);
  if (chdir(vf::ctx().scratch.c_str())) return 3;
  const bool th = vf::thorough();
  HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-3);
#if PART == 1
  World<LaplaceSingleLayerOperator, LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>>(geo::strip(2), 0, 1).all("disc", th);
#elif PART == 2
  World<HelmholtzHypersingularOperator, HelmholtzDoubleLayerPotential<HelmholtzHypersingularOperator>>(geo::strip(2), 0, 1).all("cont", th);
#elif PART == 3
  World<MaxwellSingleLayerOperator, MaxwellSingleLayerPotential<MaxwellSingleLayerOperator>>(geo::strip(2), 0, 1).all("div", th);
#endif
  return vf::finish();
}
