// C28: the library, called without the bindings, for a comparison with what the
// same calls give from Python.  Compiled into the extension module.
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "fes/angle/astronomic.hpp"
#include "fes/axis.hpp"
#include "fes/constituent.hpp"
#include "fes/mesh/index.hpp"
#include "fes/settings.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"

#define API extern "C" __attribute__((visibility("default")))
using fes::angle::Astronomic;
using fes::angle::Formulae;
using fes::wave::Table;
using Complex = std::complex<double>;

static std::vector<std::string> split(const char* s) {
  std::vector<std::string> r;
  std::stringstream ss(s);
  std::string x;
  while (std::getline(ss, x, ',')) r.push_back(x);
  return r;
}
static Formulae formulae(int f) { return f == 0 ? Formulae::kSchuremanOrder1 : f == 1 ? Formulae::kSchuremanOrder3 : Formulae::kMeeus; }
template <typename T>
static Eigen::Matrix<T, -1, 1> vector(int64_t n, const T* p) {
  Eigen::Matrix<T, -1, 1> v(n);
  for (int64_t i = 0; i < n; ++i) v(i) = p[i];
  return v;
}
// row after row
template <typename T>
static Eigen::Matrix<T, -1, -1> matrix(int64_t n, int64_t m, const T* p) {
  Eigen::Matrix<T, -1, -1> v(n, m);
  for (int64_t i = 0; i < n; ++i)
    for (int64_t j = 0; j < m; ++j) v(i, j) = p[i * m + j];
  return v;
}
template <typename M, typename T>
static void store(const M& m, T* out) {
  for (int64_t i = 0; i < m.rows(); ++i)
    for (int64_t j = 0; j < m.cols(); ++j) out[i * m.cols() + j] = m(i, j);
}
// what an exception becomes in Python
template <typename F>
static int guard(F f) {
  try {
    f();
    return 0;
  } catch (std::invalid_argument&) {
    return 1;
  } catch (std::out_of_range&) {
    return 2;
  } catch (std::exception&) {
    return 3;
  }
}

API int d_series(const char* names, int64_t n, const double* t, const uint16_t* leap, int64_t nw, const Complex* w, int f, double* out) {
  return guard([&] { store(Table(split(names)).tide_from_tide_series(vector(n, t), vector(n, leap), vector(nw, w), formulae(f)), out); });
}
API int d_mapping(const char* names, double t, int leap, int64_t n, int64_t m, const Complex* w, int f, double* out) {
  return guard([&] { store(Table(split(names)).tide_from_mapping(t, uint16_t(leap), matrix(n, m, w), formulae(f), 1), out); });
}
API int d_modulations(const char* names, int64_t n, const double* t, const uint16_t* leap, int f, double* a, double* vu) {
  return guard([&] {
    auto r = Table(split(names)).compute_nodal_modulations(vector(n, t), vector(n, leap), formulae(f));
    store(std::get<0>(r), a);
    store(std::get<1>(r), vu);
  });
}
API int d_analysis(int64_t nh, const double* h, int64_t rows, int64_t n, const double* f, int64_t rows2, int64_t n2, const double* vu, Complex* out) {
  return guard([&] { store(Table::harmonic_analysis(vector(nh, h), matrix(rows, n, f), matrix(rows2, n2, vu)), out); });
}
API int d_select(double duration, double f, char* out) {
  return guard([&] {
    std::string s;
    for (auto& x : Table::select_waves_for_analysis(duration, f)) s += (s.empty() ? "" : ",") + x;
    std::strcpy(out, s.c_str());
  });
}
API void d_angles(int f, double t, int leap, double* out) {
  Astronomic a(formulae(f));
  a.update(t, uint16_t(leap));
  double v[] = {a.t(), a.n(), a.h(), a.s(), a.p1(), a.p(), a.i(), a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim(), a.nusec()};
  std::copy(v, v + 13, out);
}
// a complete table, its tides and flags (1: inferred, 2: dynamic), before and after the calls in what (n: nodal, a: admittance)
API int d_table(const char* what, int f, double t, int leap, const Complex* tides, const int* flags, Complex* tide, double* out, int* ints, char* names) {
  return guard([&] {
    Table table{};
    Astronomic a(formulae(f));
    a.update(t, uint16_t(leap));
    for (size_t i = 0; i < table.size(); ++i) {
      auto& w = *table[i];
      w.tide(tides[w.ident()]);
      w.admittance(flags[w.ident()] & 1);
      w.dynamic(flags[w.ident()] & 2);
    }
    for (; *what; ++what) *what == 'n' ? table.compute_nodal_corrections(a) : table.admittance();
    std::string s;
    for (size_t i = 0; i < table.size(); ++i) {
      auto& w = *table[i];
      tide[i] = w.tide();
      double v[] = {w.freq(), w.f(), w.u(), w.vu(), w.v(), w.period()};
      std::copy(v, v + 6, out + 6 * i);
      ints[4 * i] = w.ident();
      ints[4 * i + 1] = w.type() == fes::Wave::kLongPeriod;
      ints[4 * i + 2] = w.admittance();
      ints[4 * i + 3] = w.dynamic();
      s += (i ? "," : "") + std::string(w.name()) + ":" + w.doodson_number();
    }
    std::strcpy(names, s.c_str());
  });
}
API double d_lpe(const int* flags, int f, double t, int leap, double lat) {
  Table table{};
  for (size_t i = 0; i < table.size(); ++i) {
    table[i]->admittance(flags[table[i]->ident()] & 1);
    table[i]->dynamic(flags[table[i]->ident()] & 2);
  }
  Astronomic a(formulae(f));
  a.update(t, uint16_t(leap));
  fes::wave::LongPeriodEquilibrium lpe;
  lpe.disable_dynamic_wave(table);
  return lpe.lpe_minus_n_waves(a, lat);
}

// --- axes --------------------------------------------------------------------
API void* d_axis(int64_t n, const double* x, double epsilon, int circular, int* error) {
  fes::Axis* r = nullptr;
  *error = guard([&] { r = new fes::Axis(vector(n, x), epsilon, circular); });
  return r;
}
API void d_axis_free(void* a) { delete static_cast<fes::Axis*>(a); }
API void d_axis_properties(void* p, double* out, int64_t* ints) {
  auto& a = *static_cast<fes::Axis*>(p);
  double v[] = {a.start(), a.step(), a.end(), a.min_value(), a.max_value()};
  std::copy(v, v + 5, out);
  ints[0] = a.size();
  ints[1] = a.is_ascending();
  ints[2] = a.is_circular();
}
API int d_axis_at(void* p, int64_t i, double* out) {
  return guard([&] { *out = (*static_cast<fes::Axis*>(p))(i); });
}
API void d_axis_find(void* p, double x, int64_t* out) {
  auto& a = *static_cast<fes::Axis*>(p);
  out[0] = a.find_index(x, true);
  out[1] = a.find_index(x, false);
  auto r = a.find_indices(x);
  out[2] = bool(r);
  if (r) std::tie(out[3], out[4]) = *r;
}
API int d_axis_equal(void* a, void* b) { return *static_cast<fes::Axis*>(a) == *static_cast<fes::Axis*>(b); }

// --- models --------------------------------------------------------------------
struct Model {
  std::shared_ptr<fes::AbstractTidalModel<double>> d;
  std::shared_ptr<fes::AbstractTidalModel<float>> f;
};
template <typename T>
static void give(Model& m, std::shared_ptr<T> p, std::true_type) { m.d = p; }
template <typename T>
static void give(Model& m, std::shared_ptr<T> p, std::false_type) { m.f = p; }
template <typename F>
static auto with(Model& m, F f) -> decltype(f(*m.d)) {
  return m.d ? f(*m.d) : f(*m.f);
}
static fes::TideType type(int t) { return t ? fes::TideType::kRadial : fes::TideType::kTide; }

API void* d_cartesian(int precise, void* lon, void* lat, int radial, int major) {
  auto* m = new Model;
  if (precise)
    m->d = std::make_shared<fes::tidal_model::Cartesian<double>>(*static_cast<fes::Axis*>(lon), *static_cast<fes::Axis*>(lat), type(radial), major);
  else
    m->f = std::make_shared<fes::tidal_model::Cartesian<float>>(*static_cast<fes::Axis*>(lon), *static_cast<fes::Axis*>(lat), type(radial), major);
  return m;
}
template <typename M>
static void lgp(Model& m, std::shared_ptr<fes::mesh::Index> index, int64_t n, const int* codes, int radial, double distance) {
  m.d = std::make_shared<M>(index, matrix(n, M::codes_t::ColsAtCompileTime, codes), type(radial), distance);
}
template <typename M>
static void lgpf(Model& m, std::shared_ptr<fes::mesh::Index> index, int64_t n, const int* codes, int radial, double distance) {
  m.f = std::make_shared<M>(index, matrix(n, M::codes_t::ColsAtCompileTime, codes), type(radial), distance);
}
API void* d_lgp(int precise, int order, int64_t nv, const double* lon, const double* lat, int64_t n, const int* triangles, const int* codes, int radial, double distance,
                int* error) {
  std::unique_ptr<Model> m(new Model);
  *error = guard([&] {
    auto index = std::make_shared<fes::mesh::Index>(vector(nv, lon), vector(nv, lat), matrix(n, 3, triangles));
    if (order == 1)
      precise ? lgp<fes::tidal_model::LGP1<double>>(*m, index, n, codes, radial, distance) : lgpf<fes::tidal_model::LGP1<float>>(*m, index, n, codes, radial, distance);
    else
      precise ? lgp<fes::tidal_model::LGP2<double>>(*m, index, n, codes, radial, distance) : lgpf<fes::tidal_model::LGP2<float>>(*m, index, n, codes, radial, distance);
  });
  return m.release();
}
API void d_model_free(void* m) { delete static_cast<Model*>(m); }
API int d_add(void* p, const char* name, int64_t n, const Complex* w) {
  auto& m = *static_cast<Model*>(p);
  return guard([&] {
    if (m.d) m.d->add_constituent(name, vector(n, w));
    if (m.f) m.f->add_constituent(name, vector(n, w).cast<std::complex<float>>());
  });
}
API void d_dynamic(void* p, int n, const int* idents) {
  std::vector<fes::Constituent> v;
  for (int i = 0; i < n; ++i) v.push_back(static_cast<fes::Constituent>(idents[i]));
  auto& m = *static_cast<Model*>(p);
  if (m.d) m.d->dynamic(v);
  if (m.f) m.f->dynamic(v);
}
struct Point {
  template <typename T>
  void operator()(const fes::AbstractTidalModel<T>& m) {
    std::unique_ptr<fes::Accelerator> acc(m.accelerator(Formulae::kSchuremanOrder1, 0));
    auto q = fes::Quality::kUndefined;
    for (auto& kv : m.interpolate({lon, lat}, q, acc.get())) {
      present[kv.first] = 1;
      out[kv.first] = kv.second;
    }
    *quality = q;
  }
  double lon, lat;
  int *present, *quality;
  Complex* out;
};
API void d_interpolate(void* p, double lon, double lat, int* present, Complex* out, int* quality) { with(*static_cast<Model*>(p), Point{lon, lat, present, quality, out}); }
struct Tide {
  template <typename T>
  void operator()(const fes::AbstractTidalModel<T>& m) {
    auto r = fes::evaluate_tide(&m, t, leap, lon, lat, settings, 1);
    store(std::get<0>(r), tide);
    store(std::get<1>(r), lp);
    for (int64_t i = 0; i < t.size(); ++i) quality[i] = std::get<2>(r)(i);
  }
  Eigen::VectorXd t, lon, lat;
  fes::Vector<uint16_t> leap;
  fes::Settings settings;
  double *tide, *lp;
  int* quality;
};
API int d_evaluate(void* p, int64_t n, const double* t, const uint16_t* leap, const double* lon, const double* lat, int f, double tolerance, int ne, const int* excluded,
                   double* tide, double* lp, int* quality) {
  std::vector<fes::Constituent> e;
  for (int i = 0; i < ne; ++i) e.push_back(static_cast<fes::Constituent>(excluded[i]));
  return guard([&] {
    with(*static_cast<Model*>(p), Tide{vector(n, t), vector(n, lon), vector(n, lat), vector(n, leap), fes::Settings(formulae(f), tolerance, e), tide, lp, quality});
  });
}
