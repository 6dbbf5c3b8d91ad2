// One translation unit of the program: uses of the library in namespace TU. The modules are included before.
#include <omp.h>
#include <cstdio>
namespace TU {
using namespace Bembel;
typedef std::vector<double> R;
static Patch patch(double dx) {
  Eigen::MatrixXd x(2, 2), y(2, 2), z(2, 2), w(2, 2);
  x << dx, dx + 1, dx, dx + 1.1;
  y << 0, 0, 1, 1.2;
  z << 0, .1, .2, 0;
  w << 1, 1, 1, 1;
  return Patch({x, y, z, w}, {0, 0, 1, 1}, {0, 0, 1, 1});
}
static PatchVector patches() {
  Eigen::MatrixXd x(2, 2), y(2, 2), z(2, 2), w(2, 2);
  x << 1, 2, 1.1, 2;
  y << 0, 0, 1.2, 1;
  z << .1, 0, 0, .3;
  w << 1, 1, 1, 1;
  return {patch(0), Patch({x, y, z, w}, {0, 0, 1, 1}, {0, 0, 1, 1})};
}
static void put(R *r, double x) { r->push_back(x); }
static void put(R *r, std::complex<double> x) {
  r->push_back(x.real());
  r->push_back(x.imag());
}
template <typename M>
static void putm(R *r, const M &m) {
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i) put(r, m(i, j));
}
// objects that exist before main
static DummyOperator dummy;
static HomogenisedLaplaceSingleLayerOperator homogenised;
static Geometry geometry(patches()), square(PatchVector{patch(0)});
static AnsatzSpace<LaplaceHypersingularOperator> space(geometry, 1, 1, 1);
static GaussSquare<10> squares;

template <typename Op, typename M>
static void matrix(R *r, int P, const Op &op) {
  AnsatzSpace<Op> a(square, 0, P, 1);
  DiscreteOperator<M, Op> d(a);
  d.get_linear_operator() = op;
  d.compute();
  Eigen::Matrix<typename LinearOperatorTraits<Op>::Scalar, -1, 1> e(a.get_number_of_dofs()), y;
  for (int i = 0; i < e.size(); ++i) {
    e.setZero();
    e(i) = 1;
    y = d.get_discrete_operator() * e;
    putm(r, y);
  }
}
static std::string file(const char *n) { return std::string(n) + std::to_string(getpid()); }
static R use(int i) {
  R r;
  switch (i) {
    case 0:
      matrix<LaplaceSingleLayerOperator, Eigen::MatrixXd>(&r, 1, LaplaceSingleLayerOperator());
      break;
    case 1: {
      HelmholtzAdjointDoubleLayerOperator o;
      o.set_wavenumber({2., 0.});
      matrix<HelmholtzAdjointDoubleLayerOperator, Eigen::H2Matrix<std::complex<double>>>(&r, 0, o);
      AnsatzSpace<MaxwellSingleLayerOperator> a(geometry, 0, 1, 1);
      DiscretePotential<MaxwellSingleLayerPotential<MaxwellSingleLayerOperator>, MaxwellSingleLayerOperator> p(a);
      p.get_potential().set_wavenumber({1., .3});
      p.set_cauchy_data(Eigen::VectorXcd::LinSpaced(a.get_number_of_dofs(), 1., 2.));
      putm(&r, p.evaluate(Eigen::MatrixXd::Constant(1, 3, 4.)));
      break;
    }
    case 2: {
      AnsatzSpace<LaplaceSingleLayerOperator> a(geometry, 0, 1, 1);
      DiscreteLinearForm<DirichletTrace<double>, LaplaceSingleLayerOperator> f(a);
      f.get_linear_form().set_function([](Eigen::Vector3d x) { return x(0) * x(1) + x(2); });
      f.compute();
      putm(&r, f.get_discrete_linear_form());
      DiscretePotential<LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>, LaplaceSingleLayerOperator> p(a);
      p.set_cauchy_data(f.get_discrete_linear_form());
      putm(&r, p.evaluate(Eigen::MatrixXd::Constant(2, 3, 4.)));
      break;
    }
    case 3:
      put(&r, homogenised.evaluateKernel(Eigen::Vector3d(.1, .2, .3), Eigen::Vector3d(-.2, .1, .05)));
      break;
    case 4: {
      AnsatzSpace<LaplaceBeltramiOperator> a(geometry, 0, 2, 1);
      DiscreteLocalOperator<LaplaceBeltramiOperator> o(a);
      o.compute();
      putm(&r, Eigen::MatrixXd(o.get_discrete_operator()));
      AnsatzSpace<MassMatrixScalarDisc> b(geometry, 0, 2, 1);
      DiscreteLocalOperator<MassMatrixScalarDisc> m(b);
      m.compute();
      putm(&r, Eigen::MatrixXd(m.get_discrete_operator()));
      break;
    }
    case 5: {
      const std::string n = file("g");
      WriteDATFile(geometry.get_geometry(), n + ".dat");
      writeIGSFile(geometry.get_geometry(), n + ".igs");
      Geometry g(n + ".dat"), h(n + ".igs");
      for (auto &p : g.get_geometry()) putm(&r, p.eval(.3, .4));
      for (auto &p : h.get_geometry()) putm(&r, p.evalNormal(.3, .4));
      std::remove((n + ".dat").c_str());
      std::remove((n + ".igs").c_str());
      break;
    }
    case 6: {
      const std::string n = file("v");
      VTKSurfaceExport v(geometry, 1);
      v.addDataSet("p", std::function<double(const Eigen::Vector3d &)>([](const Eigen::Vector3d &x) { return x(0); }));
      v.writeToFile(n);
      IO::print2bin(n + ".bin", Eigen::MatrixXd::Identity(3, 3));
      IO::Logger<12> l(n + ".log", std::fstream::trunc);
      l.file("a", 1);
      std::ifstream in(n), il(n + ".log");
      std::string s;
      while (std::getline(in, s)) put(&r, double(s.size()));
      while (std::getline(il, s)) put(&r, double(s.size()));
      std::remove(n.c_str());
      std::remove((n + ".bin").c_str());
      std::remove((n + ".log").c_str());
      break;
    }
    case 7: {
      FunctionEvaluator<LaplaceHypersingularOperator> f(space);
      f.set_function(Eigen::VectorXd::LinSpaced(space.get_number_of_dofs(), 1., 2.));
      for (int p = 0; p < 2; ++p) putm(&r, f.evaluateOnPatch(p, Eigen::Vector2d(.3, .7)));
      ClusterTree t(geometry, 1);
      t.get_element_tree().refinePatch(1);
      putm(&r, t.get_element_tree().generatePointList());
      break;
    }
    case 8: {
      SurfacePoint p;
      p.setConstant(.5);
      Eigen::Matrix<double, -1, -1> v(1, 1);
      v.setZero();
      dummy.evaluateIntegrand_impl(space.get_superspace(), p, p, &v);
      DummyOperator().evaluateIntegrand_impl(space.get_superspace(), p, p, &v);
      putm(&r, v);
      break;
    }
    case 9:
      put(&r, squares[3].w_.sum());
      putm(&r, squares[7].xi_);
      putm(&r, GaussLegendre<5>()[4].xi_);
      break;
    // the precision of the homogenised operator belongs to the program
    case 10:
      HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-3);
      break;
    case 11:
      HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-5);
      break;
    case 12: {
      put(&r, HomogenisedLaplaceSingleLayerOperator::getPrecision());
      if (HomogenisedLaplaceSingleLayerOperator::getPrecision() < 1e-4) break;
      HomogenisedLaplaceSingleLayerOperator o;
      put(&r, o.evaluateKernel(Eigen::Vector3d(.1, .2, .3), Eigen::Vector3d(-.2, .1, .05)));
      break;
    }
  }
  return r;
}
}  // namespace TU
