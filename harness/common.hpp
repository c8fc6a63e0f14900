// Generators and helpers shared by the harnesses.
#pragma once
#include <Eigen/Core>
#include <complex>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "fes/abstract_tidal_model.hpp"
#include "fes/angle/astronomic.hpp"
#include "fes/axis.hpp"
#include "fes/constituent.hpp"
#include "fes/eigen.hpp"
#include "fes/geometry/point.hpp"
#include "fes/geometry/triangle.hpp"
#include "fes/mesh/index.hpp"
#include "fes/settings.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"
#include "pbt.hpp"
#include "ref.hpp"

using pbt::Case;
using pbt::Gen;
using cd = std::complex<double>;
using fes::Constituent;

// A matrix seen as one of the layouts that the functions accept: by columns, by
// rows, or as a part of a larger array.
template <typename M>
struct Laid {
  using Strides = Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>;
  using View = Eigen::Map<const M, 0, Strides>;
  std::vector<typename M::Scalar> buffer;
  Eigen::Index rows, cols, inner, outer;  // strides between rows and between columns
  Laid(const M& m, uint64_t layout) : rows(m.rows()), cols(m.cols()) {
    Eigen::Index gap = layout & 2 ? 1 + Eigen::Index(layout >> 3 & 3) : 0, step = layout & 4 ? 2 : 1;
    if (layout & 1) {
      outer = step;
      inner = cols * step + gap;
    } else {
      inner = step;
      outer = rows * step + gap;
    }
    buffer.assign(size_t(rows * inner + cols * outer + 1), typename M::Scalar(-77));
    for (Eigen::Index i = 0; i < rows; ++i)
      for (Eigen::Index j = 0; j < cols; ++j) buffer[size_t(i * inner + j * outer)] = m(i, j);
  }
  View view() const { return View(buffer.data(), rows, cols, Strides(outer, inner)); }
};

inline bool same_bits(double a, double b) {
  if (std::isnan(a) && std::isnan(b)) return true;
  return a == b;
}
inline bool same_bits(cd a, cd b) { return same_bits(a.real(), b.real()) && same_bits(a.imag(), b.imag()); }

inline bool close_to(double a, double b, double abs_tol, double rel_tol = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= abs_tol + rel_tol * std::max(std::fabs(a), std::fabs(b));
}

// Every constituent, by identifier (enumerators are contiguous from 0).
inline const std::vector<std::string>& all_names() {
  static const std::vector<std::string> names = [] {
    std::vector<std::string> r;
    for (auto& row : ref::rows()) r.push_back(row.name);
    return r;
  }();
  return names;
}
inline Constituent C(const std::string& name) { return fes::constituents::parse(name); }

// --- dates ------------------------------------------------------------
inline double gen_epoch(Gen& g) {
  switch (g.weighted({2, 4, 2, 1, 1})) {
    case 0: return double(g.integer(0, 20000)) * 86400.0;               // midnights 1970-2024
    case 1: return double(g.integer(600000000, 1800000000));            // 1989-2027
    case 2: return g.uniform(-2.3e9, 4.2e9);                            // 1897-2103, fractional
    case 3: return double(g.integer(-9500000000LL, 9500000000LL));      // 1669-2271
    default: return double(g.integer(-100, 100)) * 43200.0 + double(g.integer(-2, 2));
  }
}
inline uint16_t gen_leap(Gen& g) { return g.boolean(0.7) ? uint16_t(g.integer(0, 40)) : uint16_t(g.integer(0, 65535)); }
inline fes::angle::Formulae to_fes(ref::Formulae f) {
  return f == ref::kMeeus ? fes::angle::Formulae::kMeeus
         : f == ref::kSch1 ? fes::angle::Formulae::kSchuremanOrder1
                           : fes::angle::Formulae::kSchuremanOrder3;
}
inline ref::Formulae gen_formulae(Gen& g) {
  return g.pick({ref::kSch1, ref::kSch3, ref::kMeeus});
}
inline const char* formulae_name(ref::Formulae f) {
  return f == ref::kMeeus ? "meeus" : f == ref::kSch1 ? "schureman1" : "schureman3";
}
// Angles of the library converted to a reference Angles (for tests of what
// is built on top of the angles).
inline ref::Angles from_fes(const fes::angle::Astronomic& a) {
  ref::Angles r{};
  r.T = a.t();
  r.s = a.s();
  r.h = a.h();
  r.p = a.p();
  r.N = a.n();
  r.p1 = a.p1();
  r.I = a.i();
  r.xi = a.xi();
  r.nu = a.nu();
  r.nup = a.nuprim();
  r.nus = a.nusec();
  r.x1ra = a.x1ra();
  r.R = a.r();
  r.P = r.p - r.xi;
  return r;
}

// bulk numbers from one recorded seed
struct Bulk {
  uint64_t s;
  explicit Bulk(Gen& g) : s(g.raw(UINT32_MAX) * 0x9e3779b97f4a7c15ULL + 12345) {}
  uint64_t next() { return pbt::splitmix(s); }
  double unit() { return double(next() >> 11) * 1.1102230246251565e-16; }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
};

// --- sets of constituents ---------------------------------------------------
inline std::vector<std::string> gen_names(Gen& g, size_t max = 12) {
  std::vector<std::string> r;
  if (g.boolean(0.1)) {  // many
    r = g.subset(all_names(), 0.7);
    g.shuffle(r);
    return r;
  }
  static const std::vector<std::string> majors = {"M2", "S2", "K2", "N2", "K1", "O1", "Q1", "P1", "2N2", "Mf", "Mm", "M4"};
  size_t n = g.size(0, max);
  std::set<std::string> seen;
  for (size_t i = 0; i < n; ++i) {
    auto& name = g.boolean(0.5) ? g.pick(majors) : g.pick(all_names());
    if (seen.insert(name).second) r.push_back(name);
  }
  return r;
}

// --- gridded models -------------------------------------------------------
struct GridSpec {
  double lon0{0}, dlon{1};
  int nlon{0};
  bool circular{false};
  bool flagged{false};  // declared circular, which a regional grid is not
  double lat0{0}, dlat{1};
  int nlat{0};
  bool row_major{true};
  fes::TideType type{fes::kTide};
  std::vector<std::string> names;
  std::vector<std::vector<cd>> data;  // [constituent][ilon * nlat + ilat]

  double lon(int i) const { return lon0 + i * dlon; }
  double lat(int j) const { return lat0 + j * dlat; }
  std::string describe() const {
    std::ostringstream o;
    o.precision(17);
    o << "grid lon0=" << lon0 << " dlon=" << dlon << " nlon=" << nlon << (circular ? " circular" : flagged ? " flagged" : "") << " lat0=" << lat0
      << " dlat=" << dlat << " nlat=" << nlat << (row_major ? " row-major" : " col-major")
      << (type == fes::kTide ? " tide" : " radial") << " waves=" << pbt::str(names, 80);
    return o.str();
  }
};

// steps are dyadic so that node coordinates are exact
inline GridSpec gen_grid(Gen& g, bool allow_circular = true, bool allow_descending = true) {
  GridSpec s;
  s.circular = allow_circular && g.boolean(0.4);
  s.row_major = g.boolean(0.5);
  if (s.circular) {
    s.nlon = int(g.pick({8, 12, 36, 4, 3, 72, 24}));
    s.dlon = 360.0 / s.nlon;
    s.lon0 = g.pick({0.0, -180.0, 5.0, -90.0, 180.0, 20.5, 359.0});
  } else {
    s.nlon = int(g.integer(2, 9));
    s.dlon = g.pick({1.0, 0.5, 0.25, 2.0, 0.125, 5.0});
    s.lon0 = double(g.integer(-180, 180));
  }
  s.nlat = int(g.integer(2, 9));
  s.dlat = g.pick({1.0, 0.5, 0.25, 2.0, 5.0});
  s.lat0 = double(g.integer(-60, 45));
  if (allow_descending && g.boolean(0.25)) {
    s.lat0 = s.lat(s.nlat - 1);
    s.dlat = -s.dlat;
  }
  if (allow_descending && g.boolean(0.25)) {
    s.lon0 = s.lon(s.nlon - 1);
    s.dlon = -s.dlon;
  }
  return s;
}

inline void fill_grid(Gen& g, GridSpec& s, double amplitude = 100, double p_mask = 0, bool per_wave_mask = true) {
  Bulk b(g);
  std::vector<bool> common(size_t(s.nlon) * s.nlat);
  for (size_t k = 0; k < common.size(); ++k) common[k] = b.unit() < p_mask;
  s.data.clear();
  for (size_t w = 0; w < s.names.size(); ++w) {
    std::vector<cd> d(size_t(s.nlon) * s.nlat);
    for (size_t k = 0; k < d.size(); ++k) {
      d[k] = {b.uniform(-amplitude, amplitude), b.uniform(-amplitude, amplitude)};
      bool m = per_wave_mask ? b.unit() < p_mask : bool(common[k]);
      if (m) {
        auto nan = std::numeric_limits<double>::quiet_NaN();
        auto kind = b.next() % 4;
        d[k] = kind == 0 ? cd(nan, d[k].imag()) : kind == 1 ? cd(d[k].real(), nan) : cd(nan, nan);
      }
    }
    s.data.push_back(std::move(d));
  }
}

inline fes::Axis make_axis(double start, double step, int n, bool circular) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) v(i) = start + i * step;
  return fes::Axis(v, 1e-6, circular);
}

template <typename T = double>
std::shared_ptr<fes::tidal_model::Cartesian<T>> make_grid_model(const GridSpec& s) {
  auto m = std::make_shared<fes::tidal_model::Cartesian<T>>(make_axis(s.lon0, s.dlon, s.nlon, s.circular || s.flagged),
                                                            make_axis(s.lat0, s.dlat, s.nlat, false), s.type, s.row_major);
  for (size_t w = 0; w < s.names.size(); ++w) {
    fes::Vector<std::complex<T>> v(s.nlon * s.nlat);
    for (int i = 0; i < s.nlon; ++i)
      for (int j = 0; j < s.nlat; ++j) {
        auto z = s.data[w][size_t(i) * s.nlat + j];
        v(s.row_major ? i * s.nlat + j : j * s.nlon + i) = std::complex<T>(T(z.real()), T(z.imag()));
      }
    m->add_constituent(C(s.names[w]), std::move(v));
  }
  return m;
}

// as large as real ones (more nodes than 16 bits count)
inline void enlarge(Gen& g, GridSpec& s) {
  if (s.circular) {
    s.nlon = int(g.pick({720, 1440, 360}));
    s.dlon = 360.0 / s.nlon;
    s.lon0 = g.pick({0.0, -180.0, 0.25});
  } else {
    s.nlon = int(g.pick({300, 520}));
    s.dlon = 0.125;
  }
  s.nlat = int(g.pick({361, 181, 721}));
  s.lat0 = -90;
  s.dlat = 180.0 / (s.nlat - 1);
  if (s.names.size() > 2) s.names.resize(2);
}

// --- finite element models --------------------------------------------------
struct MeshSpec {
  double lon0{0}, lat0{0}, d{1};  // south west corner, cell size (degrees)
  int nx{0}, ny{0};
  std::vector<double> ulon;  // unwrapped longitudes of the vertices (around lon0)
  std::vector<double> lon;   // longitudes given to the library
  std::vector<double> lat;
  std::vector<std::array<int, 3>> tri;
  double ref_lon() const { return lon0 + 0.5 * nx * d; }
  // unwrap a longitude around the mesh
  double unwrap(double l) const { return ref_lon() + std::remainder(l - ref_lon(), 360.0); }
  std::string describe() const {
    std::ostringstream o;
    o.precision(17);
    o << "mesh corner=(" << lon0 << ", " << lat0 << ") cell=" << d << " " << nx << "x" << ny << " vertices=" << lat.size()
      << " triangles=" << tri.size();
    if (tri.size() <= 8) {
      for (size_t i = 0; i < lon.size(); ++i) o << " v" << i << "(" << lon[i] << "," << lat[i] << ")";
      for (auto& t : tri) o << " t(" << t[0] << "," << t[1] << "," << t[2] << ")";
    }
    return o.str();
  }
};

// Longitudes for which adding 360 degrees is exact.  (Boost computes poorly the
// distance to an edge whose ends have almost the same longitude, a few
// roundings apart: the conversion must not turn meridian edges into such ones.)
inline double quantize(double l) { return std::ldexp(std::round(std::ldexp(l, 32)), -32); }

inline MeshSpec gen_mesh(Gen& g, int max_n = 5, const std::vector<double>& sizes = {1.0, 0.5, 0.25, 2.0, 0.1}, int min_n = 1) {
  MeshSpec m;
  m.nx = int(g.integer(min_n, max_n));
  m.ny = int(g.integer(min_n, max_n));
  m.d = g.pick(sizes);
  switch (g.weighted({4, 3, 2})) {
    case 0: m.lon0 = double(g.integer(-180, 179)); break;
    case 1: m.lon0 = 180.0 - m.d * m.nx * g.pick({0.5, 0.25, 0.0, 1.0, 0.7}); break;  // date line
    default: m.lon0 = -m.d * m.nx * g.pick({0.5, 0.0, 1.0, 0.3}); break;              // Greenwich
  }
  m.lat0 = double(g.integer(-65, 60));
  if (g.boolean(0.15)) m.lat0 = -m.d * m.ny * 0.5;
  double jitter = g.pick({0.0, 0.1, 0.2});
  Bulk b(g);
  int conv = int(g.raw(3));
  int nv = (m.nx + 1) * (m.ny + 1);
  std::vector<int> perm(size_t(nv), 0);
  for (int i = 0; i < nv; ++i) perm[size_t(i)] = i;
  if (g.boolean(0.5))
    for (int i = nv - 1; i > 0; --i) std::swap(perm[size_t(i)], perm[b.next() % uint64_t(i + 1)]);
  m.ulon.resize(size_t(nv));
  m.lon.resize(size_t(nv));
  m.lat.resize(size_t(nv));
  auto id = [&](int i, int j) { return perm[size_t(j * (m.nx + 1) + i)]; };
  for (int j = 0; j <= m.ny; ++j)
    for (int i = 0; i <= m.nx; ++i) {
      auto k = size_t(id(i, j));
      m.ulon[k] = m.lon0 + m.d * (i + b.uniform(-jitter, jitter));
      m.lat[k] = m.lat0 + m.d * (j + b.uniform(-jitter, jitter));
      if (conv != 0) m.ulon[k] = quantize(m.ulon[k]);
      double l = m.ulon[k];
      if (conv == 1) l = std::fmod(l + 720.0, 360.0);                                  // [0, 360)
      if (conv == 2) l = std::remainder(l, 360.0);                                     // [-180, 180]
      if (conv == 3) l += 360.0 * double(int(b.next() % 3) - 1);                       // any
      m.lon[k] = l;
    }
  double hole = g.boolean(0.2) ? 0.2 : 0.0;
  int diag = int(g.raw(1));
  for (int j = 0; j < m.ny; ++j)
    for (int i = 0; i < m.nx; ++i) {
      int a = id(i, j), bb = id(i + 1, j), c2 = id(i + 1, j + 1), d2 = id(i, j + 1);
      std::array<int, 3> t1, t2;
      if (diag == 0) {
        t1 = {a, bb, c2};
        t2 = {a, c2, d2};
      } else {
        t1 = {a, bb, d2};
        t2 = {bb, c2, d2};
      }
      for (auto t : {t1, t2}) {
        if (m.tri.size() > 0 && b.unit() < hole) continue;
        int rot = int(b.next() % 3);
        std::rotate(t.begin(), t.begin() + rot, t.end());
        m.tri.push_back(t);
      }
    }
  if (g.boolean(0.5))
    for (size_t i = m.tri.size() - 1; i > 0; --i) std::swap(m.tri[i], m.tri[b.next() % (i + 1)]);
  return m;
}

// Conforming refinements of a mesh: vertices inside triangles, splits of edges
inline void refine(MeshSpec& m, Bulk& b, int n) {
  for (int k = 0; k < n; ++k) {
    auto it = size_t(b.next() % m.tri.size());
    // sticks to the same region, as the refinement of a coast does
    if (b.unit() < 0.6) it = m.tri.size() - 1 - size_t(b.next() % std::min<size_t>(m.tri.size(), 6));
    auto t = m.tri[it];
    auto add = [&](double lo, double la) {
      m.ulon.push_back(lo);
      m.lat.push_back(la);
      m.lon.push_back(lo);
      return int(m.ulon.size()) - 1;
    };
    auto u = [&](int i) { return m.ulon[size_t(t[size_t(i)])]; };
    auto l = [&](int i) { return m.lat[size_t(t[size_t(i)])]; };
    double size = 0;
    for (int i = 0; i < 3; ++i) size = std::max(size, std::hypot((u(i) - u((i + 1) % 3)) * std::cos(l(i) * M_PI / 180), l(i) - l((i + 1) % 3)));
    if (size < 5e-3) continue;  // some hundred metres
    // no triangle so flat that its edges (geodesics) could cross
    double area2 = std::fabs((u(1) - u(0)) * (l(2) - l(0)) - (u(2) - u(0)) * (l(1) - l(0))) * std::cos(l(0) * M_PI / 180);
    if (area2 < 0.25 * size * size) continue;
    if (b.unit() < 0.4) {
      double w[3], s = 0;
      for (auto& x : w) s += x = b.uniform(0.25, 1);
      auto v = add((u(0) * w[0] + u(1) * w[1] + u(2) * w[2]) / s, (l(0) * w[0] + l(1) * w[1] + l(2) * w[2]) / s);
      m.tri[it] = {t[0], t[1], v};
      m.tri.push_back({t[1], t[2], v});
      m.tri.push_back({t[2], t[0], v});
    } else {  // the longest edge
      int e = 0;
      double best = -1;
      for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3;
        double d = std::hypot((u(i) - u(j)) * std::cos(l(i) * M_PI / 180), l(i) - l(j));
        if (d > best) {
          best = d;
          e = i;
        }
      }
      int a = t[size_t(e)], c = t[size_t((e + 1) % 3)];
      auto v = add(0.5 * (m.ulon[size_t(a)] + m.ulon[size_t(c)]), 0.5 * (m.lat[size_t(a)] + m.lat[size_t(c)]));
      auto old = m.tri;
      for (size_t i = 0; i < old.size(); ++i)
        for (size_t q = 0; q < 3; ++q) {
          int x = old[i][q], y = old[i][(q + 1) % 3], z = old[i][(q + 2) % 3];
          if ((x == a && y == c) || (x == c && y == a)) {
            m.tri[i] = {x, v, z};
            m.tri.push_back({v, y, z});
          }
        }
    }
  }
}

inline std::shared_ptr<fes::mesh::Index> make_index(const MeshSpec& m) {
  Eigen::VectorXd lon(m.lon.size()), lat(m.lat.size());
  for (size_t i = 0; i < m.lon.size(); ++i) {
    lon(Eigen::Index(i)) = m.lon[i];
    lat(Eigen::Index(i)) = m.lat[i];
  }
  Eigen::Matrix<int32_t, -1, 3> t(m.tri.size(), 3);
  for (size_t i = 0; i < m.tri.size(); ++i)
    for (int k = 0; k < 3; ++k) t(Eigen::Index(i), k) = m.tri[i][size_t(k)];
  return std::make_shared<fes::mesh::Index>(lon, lat, t);
}

// Nodes of a finite-element model: positions (unwrapped) and codes
struct NodeSet {
  int order{1};  // 1, 2
  std::vector<std::pair<double, double>> pos;
  std::vector<std::vector<int>> codes;
};
inline NodeSet make_nodes(const MeshSpec& m, int order, Bulk& b, bool shuffle) {
  NodeSet n;
  n.order = order;
  std::map<std::pair<int, int>, int> ids;  // (v, v) vertex or (lo, hi) edge
  auto node = [&](int u, int v) {
    auto key = std::make_pair(std::min(u, v), std::max(u, v));
    auto it = ids.find(key);
    if (it != ids.end()) return it->second;
    int k = int(ids.size());
    ids[key] = k;
    n.pos.emplace_back(0.5 * (m.ulon[size_t(u)] + m.ulon[size_t(v)]), 0.5 * (m.lat[size_t(u)] + m.lat[size_t(v)]));
    return k;
  };
  for (auto& t : m.tri) {
    if (order == 1)
      n.codes.push_back({node(t[0], t[0]), node(t[1], t[1]), node(t[2], t[2])});
    else
      n.codes.push_back({node(t[0], t[0]), node(t[0], t[1]), node(t[1], t[1]), node(t[1], t[2]), node(t[2], t[2]), node(t[2], t[0])});
  }
  if (shuffle) {
    std::vector<int> p(n.pos.size());
    for (size_t i = 0; i < p.size(); ++i) p[i] = int(i);
    for (size_t i = p.size() - 1; i > 0; --i) std::swap(p[i], p[b.next() % (i + 1)]);
    std::vector<std::pair<double, double>> q(n.pos.size());
    for (size_t i = 0; i < p.size(); ++i) q[size_t(p[i])] = n.pos[i];
    n.pos = q;
    for (auto& c : n.codes)
      for (auto& x : c) x = p[size_t(x)];
  }
  return n;
}

template <typename T = double>
std::shared_ptr<fes::AbstractTidalModel<T>> make_lgp(const std::shared_ptr<fes::mesh::Index>& index, const NodeSet& n,
                                                     fes::TideType type, double max_distance) {
  if (n.order == 1) {
    Eigen::Matrix<int, Eigen::Dynamic, 3> codes(n.codes.size(), 3);
    for (size_t i = 0; i < n.codes.size(); ++i)
      for (int k = 0; k < 3; ++k) codes(Eigen::Index(i), k) = n.codes[i][size_t(k)];
    return std::make_shared<fes::tidal_model::LGP1<T>>(index, codes, type, max_distance);
  }
  Eigen::Matrix<int, Eigen::Dynamic, 6> codes(n.codes.size(), 6);
  for (size_t i = 0; i < n.codes.size(); ++i)
    for (int k = 0; k < 6; ++k) codes(Eigen::Index(i), k) = n.codes[i][size_t(k)];
  return std::make_shared<fes::tidal_model::LGP2<T>>(index, codes, type, max_distance);
}

// barycentric-like coordinates on the unit sphere (edges are great circles);
// each is positive inside.  Normalised so that they sum to one.
inline std::array<double, 3> sphere_bary(const MeshSpec& m, const std::array<int, 3>& t, double lon, double lat) {
  auto vec = [](double lo, double la) {
    lo *= M_PI / 180;
    la *= M_PI / 180;
    return std::array<double, 3>{std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la)};
  };
  auto p = vec(lon, lat);
  std::array<std::array<double, 3>, 3> v;
  for (size_t k = 0; k < 3; ++k) v[k] = vec(m.lon[size_t(t[k])], m.lat[size_t(t[k])]);
  auto det = [](const std::array<double, 3>& a, const std::array<double, 3>& b, const std::array<double, 3>& c) {
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
  };
  double d = det(v[0], v[1], v[2]);
  // far side of the Earth
  if (p[0] * v[0][0] + p[1] * v[0][1] + p[2] * v[0][2] < 0.5) return {{-9, -9, -9}};
  return {{det(p, v[1], v[2]) / d, det(v[0], p, v[2]) / d, det(v[0], v[1], p) / d}};
}
inline double sphere_margin(const MeshSpec& m, const std::array<int, 3>& t, double lon, double lat) {
  auto b = sphere_bary(m, t, lon, lat);
  return std::min({b[0], b[1], b[2]});
}
// WGS84 ECEF distance
inline std::array<ref::ld, 3> ecef(ref::ld lon, ref::ld lat) {
  const ref::ld A = 6378137.0L, F = 1 / 298.257223563L, E2 = F * (2 - F);
  ref::ld lo = ref::rad(lon), la = ref::rad(lat);
  ref::ld n = A / sqrtl(1 - E2 * sinl(la) * sinl(la));
  return {{n * cosl(la) * cosl(lo), n * cosl(la) * sinl(lo), n * (1 - E2) * sinl(la)}};
}
inline double chord(double lon1, double lat1, double lon2, double lat2) {
  auto a = ecef(lon1, lat1), b = ecef(lon2, lat2);
  ref::ld s = 0;
  for (size_t k = 0; k < 3; ++k) s += (a[k] - b[k]) * (a[k] - b[k]);
  return double(sqrtl(s));
}

// distance from a position to an edge (great circle of geographic coordinates, then WGS84)
inline double edge_distance(const MeshSpec& m, int u, int v, double lon, double lat) {
  auto vec = [](double lo, double la) {
    lo *= M_PI / 180;
    la *= M_PI / 180;
    return std::array<double, 3>{{std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la)}};
  };
  auto a = vec(m.lon[size_t(u)], m.lat[size_t(u)]), b = vec(m.lon[size_t(v)], m.lat[size_t(v)]);
  auto at = [&](double x) {
    std::array<double, 3> c;
    for (size_t k = 0; k < 3; ++k) c[k] = a[k] * (1 - x) + b[k] * x;
    double n = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
    return chord(std::atan2(c[1], c[0]) * 180 / M_PI, std::asin(c[2] / n) * 180 / M_PI, lon, lat);
  };
  double best = 1e18, x0 = 0;
  for (int i = 0; i <= 32; ++i) {
    double d = at(i / 32.0);
    if (d < best) {
      best = d;
      x0 = i / 32.0;
    }
  }
  double lo = std::max(0.0, x0 - 1 / 32.0), hi = std::min(1.0, x0 + 1 / 32.0);
  for (int i = 0; i < 40; ++i) {
    double p = lo + (hi - lo) / 3, q = hi - (hi - lo) / 3;
    if (at(p) < at(q))
      hi = q;
    else
      lo = p;
  }
  return std::min(best, at(0.5 * (lo + hi)));
}
inline double triangle_distance(const MeshSpec& m, size_t i, double lon, double lat) {
  double d = 1e18;
  for (size_t k = 0; k < 3; ++k) d = std::min(d, edge_distance(m, m.tri[i][k], m.tri[i][(k + 1) % 3], lon, lat));
  return d;
}

// Are all the triangles that contain the position out of the eleven (vertex,
// triangle) entries nearest to it, or possibly so because of equal distances?
inline bool eleven_nearest(const MeshSpec& m, double lon, double lat) {
  std::vector<double> entries;
  double best = 1e18;
  for (auto& t : m.tri) {
    double r = 1e18;
    for (int v : t) {
      entries.push_back(chord(m.lon[size_t(v)], m.lat[size_t(v)], lon, lat));
      r = std::min(r, entries.back());
    }
    if (sphere_margin(m, t, lon, lat) > -2e-5) best = std::min(best, r);
  }
  size_t n = 0;
  for (double d : entries) n += d <= best * (1 + 1e-12) + 1e-6;
  return n > 11;
}

// position around/inside a mesh
inline std::pair<double, double> gen_mesh_point(Gen& g, const MeshSpec& m, double outside = 0.15) {
  double lon, lat;
  switch (g.weighted({6, 1, 1, outside * 8})) {
    case 0: {  // inside a triangle
      auto& t = m.tri[g.raw(m.tri.size() - 1)];
      double a = g.real(0, 1), b = g.real(0, 1);
      if (a + b > 1) {
        a = 1 - a;
        b = 1 - b;
      }
      auto mix = [&](const std::vector<double>& v) {
        return v[size_t(t[0])] * (1 - a - b) + v[size_t(t[1])] * a + v[size_t(t[2])] * b;
      };
      lon = mix(m.ulon);
      lat = mix(m.lat);
      break;
    }
    case 1: {  // a vertex
      auto& t = m.tri[g.raw(m.tri.size() - 1)];
      auto k = size_t(t[g.raw(2)]);
      lon = m.ulon[k];
      lat = m.lat[k];
      break;
    }
    case 2: {  // middle of an edge
      auto& t = m.tri[g.raw(m.tri.size() - 1)];
      auto e = g.raw(2);
      auto k = size_t(t[e]), l = size_t(t[(e + 1) % 3]);
      lon = 0.5 * (m.ulon[k] + m.ulon[l]);
      lat = 0.5 * (m.lat[k] + m.lat[l]);
      break;
    }
    default:
      lon = m.lon0 + m.d * g.real(-2, m.nx + 2);
      lat = m.lat0 + m.d * g.real(-2, m.ny + 2);
  }
  lat = std::max(-89.0, std::min(89.0, lat));
  return {lon, lat};
}
