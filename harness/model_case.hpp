// A generated tidal model (grid or finite elements, float or double) with its
// settings, positions and the reference prediction.
#pragma once
#include "common.hpp"

struct Wanted {
  bool mesh = true;
  bool masks = true;
  bool shuffled_mesh = true;
  size_t max_names = 12;
  double p_empty = 0.03;
  double p_large = 0;  // as large as real ones
};

struct ModelCase {
  bool mesh{false};
  bool single{false};  // float
  GridSpec grid;
  MeshSpec m;
  NodeSet nodes;
  double max_distance{0};
  fes::TideType type{fes::kTide};
  std::vector<std::string> names;      // constituents, in order of addition
  std::vector<std::vector<cd>> data;   // per constituent: grid [ilon*nlat+ilat] or node values
  std::vector<std::string> dynamic;
  std::shared_ptr<fes::AbstractTidalModel<double>> md;
  std::shared_ptr<fes::AbstractTidalModel<float>> mf;

  template <typename F>
  auto with(F f) const -> decltype(f(md)) {
    return f(md);
  }
  template <typename T>
  std::shared_ptr<fes::AbstractTidalModel<T>> build(const std::vector<std::vector<cd>>& values, const std::vector<std::string>& order,
                                                    const std::vector<std::string>& dyn) const {
    std::shared_ptr<fes::AbstractTidalModel<T>> r;
    if (mesh) {
      r = make_lgp<T>(make_index(m), nodes, type, max_distance);
    } else {
      GridSpec e = grid;
      e.names.clear();
      e.data.clear();
      e.type = type;
      r = make_grid_model<T>(e);
    }
    for (auto& n : order) {
      auto w = size_t(std::find(names.begin(), names.end(), n) - names.begin());
      auto& d = values[w];
      fes::Vector<std::complex<T>> v((Eigen::Index(d.size())));
      for (size_t k = 0; k < d.size(); ++k) {
        size_t to = k;
        if (!mesh && !grid.row_major) to = (k % size_t(grid.nlat)) * size_t(grid.nlon) + k / size_t(grid.nlat);
        v(Eigen::Index(to)) = std::complex<T>(T(d[k].real()), T(d[k].imag()));
      }
      r->add_constituent(C(n), std::move(v));
    }
    std::vector<Constituent> ids;
    for (auto& n : dyn) ids.push_back(C(n));
    r->dynamic(ids);
    return r;
  }
  void rebuild() {
    if (single)
      mf = build<float>(data, names, dynamic);
    else
      md = build<double>(data, names, dynamic);
  }
  std::string describe() const {
    std::ostringstream o;
    o << (single ? "float " : "double ") << (mesh ? (nodes.order == 1 ? "LGP1 " : "LGP2 ") + m.describe() : grid.describe())
      << (type == fes::kTide ? " tide" : " radial") << " waves=" << pbt::str(names, 80) << " dynamic=" << pbt::str(dynamic, 80)
      << " max_distance=" << max_distance;
    return o.str();
  }
};

inline ModelCase gen_model(Gen& g, const Wanted& w = Wanted()) {
  ModelCase r;
  r.mesh = w.mesh && g.boolean(0.3);
  r.single = g.boolean(0.3);
  r.type = g.boolean(0.8) ? fes::kTide : fes::kRadial;
  r.names = gen_names(g, w.max_names);
  if (r.names.empty() && !g.boolean(w.p_empty)) r.names = {"M2", "K1", "O1"};
  size_t n;
  bool large = w.p_large > 0 && g.boolean(w.p_large);
  if (large && r.names.size() > 2) r.names.resize(2);
  if (r.mesh) {
    r.m = gen_mesh(g, 4);
    if (large) r.m = gen_mesh(g, 200, {0.1, 0.05}, 130);
    Bulk b(g);
    r.nodes = make_nodes(r.m, g.boolean(0.5) ? 1 : 2, b, w.shuffled_mesh && g.boolean(0.5));
    n = r.nodes.pos.size();
    r.max_distance = g.boolean(0.3) ? r.m.d * 111000.0 * g.uniform(0, 2) : 0.0;
  } else {
    r.grid = gen_grid(g);
    if (large) enlarge(g, r.grid);
    r.grid.type = r.type;
    n = size_t(r.grid.nlon) * size_t(r.grid.nlat);
  }
  double amplitude = g.pick({100.0, 1.0, 1e-3, 1e4});
  double p_mask = w.masks && g.boolean(0.3) ? g.pick({0.1, 0.3, 0.9}) : 0.0;
  Bulk b(g);
  auto nan = std::numeric_limits<double>::quiet_NaN();
  std::vector<bool> mask(n);
  for (size_t k = 0; k < n; ++k) mask[k] = b.unit() < p_mask;
  for (size_t i = 0; i < r.names.size(); ++i) {
    std::vector<cd> d(n);
    for (size_t k = 0; k < n; ++k)
      d[k] = mask[k] ? cd(nan, nan) : cd(float(b.uniform(-amplitude, amplitude)), float(b.uniform(-amplitude, amplitude)));
    r.data.push_back(d);
  }
  // dynamic constituents, given or not by the model
  if (g.boolean(0.4)) {
    static const std::vector<std::string> pool = {"Mm", "Mf", "Mtm", "Msqm", "Ssa", "Sa", "Sa1", "Sta", "M0", "Mm1", "Mf1", "A5", "Mm2",
                                                  "Mf2", "M2", "2N2", "Mu2", "J1", "K1", "L2", "S1"};
    r.dynamic = g.subset(pool, 0.25);
    g.shuffle(r.dynamic);
  }
  r.rebuild();
  return r;
}

// position on or around the model; (lon, lat)
inline std::pair<double, double> gen_point(Gen& g, const ModelCase& r, double outside = 0.12) {
  double lon, lat;
  if (r.mesh) {
    std::tie(lon, lat) = gen_mesh_point(g, r.m, outside);
  } else {
    auto& s = r.grid;
    double x, y;
    switch (g.weighted({5, 1, 1, 8 * outside})) {
      case 0: x = g.uniform(0, s.nlon - 1), y = g.uniform(0, s.nlat - 1); break;
      case 1: x = double(g.integer(0, s.nlon - 1)), y = double(g.integer(0, s.nlat - 1)); break;
      case 2: x = double(g.integer(0, s.nlon - 1)), y = g.uniform(0, s.nlat - 1); break;
      default: x = g.uniform(-3, s.nlon + 2), y = g.uniform(-3, s.nlat + 2);
    }
    if (s.circular) x = g.uniform(0, s.nlon);
    lon = s.lon0 + x * s.dlon;
    lat = s.lat0 + y * s.dlat;
    lat = std::max(-90.0, std::min(90.0, lat));
  }
  if (r.mesh || r.grid.circular) {
    if (g.boolean(0.3)) lon += 360.0 * double(g.integer(-1, 2));
  }
  if (outside > 0 && g.boolean(0.03)) lat = g.pick({90.0, -90.0, 0.0, -0.0, 45.0, -60.0});
  return {lon, lat};
}

struct Batch {
  std::vector<double> epoch, lon, lat;
  std::vector<uint16_t> leap;
  size_t size() const { return epoch.size(); }
  void push(double e, uint16_t l, double x, double y) {
    epoch.push_back(e);
    leap.push_back(l);
    lon.push_back(x);
    lat.push_back(y);
  }
};
struct Prediction {
  std::vector<double> tide, lp;
  std::vector<int> quality;
};
inline Eigen::VectorXd to_eigen(const std::vector<double>& v) {
  Eigen::VectorXd r((Eigen::Index(v.size())));
  for (size_t i = 0; i < v.size(); ++i) r(Eigen::Index(i)) = v[i];
  return r;
}
inline fes::Vector<uint16_t> to_eigen(const std::vector<uint16_t>& v) {
  fes::Vector<uint16_t> r((Eigen::Index(v.size())));
  for (size_t i = 0; i < v.size(); ++i) r(Eigen::Index(i)) = v[i];
  return r;
}
template <typename T>
inline Prediction predict(const fes::AbstractTidalModel<T>& model, const Batch& b, const fes::Settings& s, size_t threads) {
  auto r = fes::evaluate_tide(&model, to_eigen(b.epoch), to_eigen(b.leap), to_eigen(b.lon), to_eigen(b.lat), s, threads);
  Prediction p;
  for (Eigen::Index i = 0; i < Eigen::Index(b.size()); ++i) {
    p.tide.push_back(std::get<0>(r)(i));
    p.lp.push_back(std::get<1>(r)(i));
    p.quality.push_back(int(std::get<2>(r)(i)));
  }
  return p;
}
inline Prediction predict(const ModelCase& m, const Batch& b, const fes::Settings& s, size_t threads = 1) {
  return m.single ? predict(*m.mf, b, s, threads) : predict(*m.md, b, s, threads);
}

// values of the model's constituents at a position, by a fresh accelerator
struct AtPoint {
  std::map<std::string, cd> value;
  int quality;
};
template <typename T>
inline AtPoint at_point(const fes::AbstractTidalModel<T>& model, double lon, double lat) {
  auto acc = std::unique_ptr<fes::Accelerator>(model.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0.0));
  fes::Quality q = fes::kInterpolated;
  AtPoint r;
  for (auto& kv : model.interpolate({lon, lat}, q, acc.get())) r.value[fes::constituents::name(kv.first)] = kv.second;
  r.quality = int(q);
  return r;
}
inline AtPoint at_point(const ModelCase& m, double lon, double lat) {
  return m.single ? at_point(*m.mf, lon, lat) : at_point(*m.md, lon, lat);
}

// the documented prediction
struct Expected {
  bool undefined;
  ref::ld tide, lp;
  ref::ld scale;  // sum of the moduli, for the tolerance
};
inline Expected expect(const std::map<std::string, cd>& value, int quality, const std::vector<std::string>& dynamic,
                       const std::vector<std::string>& excluded, fes::TideType type, const ref::Angles& a, double lat) {
  using ref::ld;
  std::set<std::string> ex(excluded.begin(), excluded.end()), dyn(dynamic.begin(), dynamic.end());
  for (auto& kv : value)
    if (ex.count(kv.first) == 0) dyn.insert(kv.first);
  Expected r{};
  r.lp = type == fes::kTide ? ref::equilibrium(a, lat, dyn) : 0;
  r.undefined = quality == 0;
  if (r.undefined) return r;
  ref::Tides t;
  std::map<std::string, bool> inferred;
  for (auto& row : ref::rows()) {
    t[row.name] = 0;
    inferred[row.name] = row.admittance && dyn.count(row.name) == 0;
  }
  for (auto& kv : value) t[kv.first] = {kv.second.real(), kv.second.imag()};
  ref::admittance(t, inferred);
  for (auto& row : ref::rows()) {
    if (!inferred[row.name] && dyn.count(row.name) == 0) continue;
    auto z = t[row.name];
    ld phase = ref::greenwich_v(row, a) + ref::nodal_u(row, a), f = ref::nodal_f_code(row, a);
    ld h = f * (z.real() * cosl(phase) + z.imag() * sinl(phase));
    r.scale += f * (fabsl(z.real()) + fabsl(z.imag()));
    (row.type == 'S' ? r.tide : r.lp) += h;
  }
  return r;
}

inline fes::Settings settings(ref::Formulae f, double tolerance, const std::vector<std::string>& excluded) {
  std::vector<Constituent> ids;
  for (auto& n : excluded) ids.push_back(C(n));
  return fes::Settings(to_fes(f), tolerance, ids);
}
inline ref::Angles lib_angles(ref::Formulae f, double epoch, uint16_t leap) {
  return from_fes(fes::angle::Astronomic(to_fes(f), epoch, leap));
}
