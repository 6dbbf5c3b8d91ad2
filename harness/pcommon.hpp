// Shared by the schedule exploration harnesses.
#ifndef VERIF_PCOMMON_HPP_
#define VERIF_PCOMMON_HPP_
#ifdef RACES
static const bool DETECT = true;
#else
static const bool DETECT = false;
#endif
typedef std::vector<std::pair<int, int>> TB;  // (threads, deviations)
template <typename S>
struct Push;
template <>
struct Push<double> {
  static void put(std::vector<double> *o, double x) { o->push_back(x); }
};
template <>
struct Push<std::complex<double>> {
  static void put(std::vector<double> *o, std::complex<double> x) {
    o->push_back(x.real());
    o->push_back(x.imag());
  }
};
template <typename M>
void dump(const M &m, std::vector<double> *o) {
  o->push_back(m.rows());
  o->push_back(m.cols());
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i) Push<typename M::Scalar>::put(o, m(i, j));
}
template <typename L>
struct Setup {
  static void op(L &) {}
};
template <>
struct Setup<HelmholtzSingleLayerOperator> {
  static void op(HelmholtzSingleLayerOperator &o) { o.set_wavenumber({1.3, .4}); }
};
template <>
struct Setup<HelmholtzDoubleLayerOperator> {
  static void op(HelmholtzDoubleLayerOperator &o) { o.set_wavenumber({1.3, .4}); }
};
template <>
struct Setup<HelmholtzAdjointDoubleLayerOperator> {
  static void op(HelmholtzAdjointDoubleLayerOperator &o) { o.set_wavenumber({1.3, .4}); }
};
template <>
struct Setup<HelmholtzHypersingularOperator> {
  static void op(HelmholtzHypersingularOperator &o) { o.set_wavenumber({1.3, .4}); }
};
template <>
struct Setup<MaxwellSingleLayerOperator> {
  static void op(MaxwellSingleLayerOperator &o) { o.set_wavenumber({1.3, .4}); }
};
#endif
