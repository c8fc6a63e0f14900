// C08: bilinear interpolation of gridded models and its quality.
#include "model_case.hpp"

using ref::ld;
constexpr double kSnap = 1e-9;

struct Cell {
  int i1, i2, j1, j2;
  ld tx, ty;  // weights of i2 and j2
};
// candidates along one axis: (k1, k2, weight of k2)
static std::vector<std::tuple<int, int, ld>> along(ld pos, int n, bool circular) {
  std::vector<std::tuple<int, int, ld>> r;
  if (circular) pos -= floorl(pos / n) * n;
  auto cells = circular ? n : n - 1;
  for (int k = -1; k <= cells; ++k) {
    ld t = pos - k;
    if (t < -kSnap || t > 1 + kSnap) continue;
    int a = k, b = k + 1;
    if (circular) {
      a = (a + n) % n;
      b = (b + n) % n;
    } else if (a < 0 || b >= n)
      continue;
    if (t < kSnap) t = 0;
    if (t > 1 - kSnap) t = 1;
    r.emplace_back(a, b, t);
  }
  return r;
}

struct PointSpec {
  double lon, lat;
  bool exact;  // the computations on it are exact (no rounding)
};

static bool finite(cd z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }

template <typename T>
static void check_model(Case& c, const fes::tidal_model::Cartesian<T>& model, const GridSpec& s, const std::vector<std::vector<cd>>& data,
                        const std::vector<std::string>& names, const PointSpec& p, double amplitude, const char* what) {
  auto at = at_point<T>(model, p.lon, p.lat);
  c.check(at.value.size() == names.size(), what, ": ", at.value.size(), " values for ", names.size(), " constituents");
  c.check(at.quality >= 0 && at.quality <= 4, what, ": quality ", at.quality);
  // positions in cells
  ld x = (ld(p.lon) - ld(s.lon0)) / ld(s.dlon), y = (ld(p.lat) - ld(s.lat0)) / ld(s.dlat);
  if (!s.circular) {
    // longitudes are angles: any of the congruent positions
    ld period = 360 / fabsl(ld(s.dlon));
    for (int k = -4; k <= 4; ++k) {
      ld q = x + k * period;
      if (q >= -kSnap && q <= s.nlon - 1 + kSnap) {
        x = q;
        break;
      }
    }
  }
  auto xs = along(x, s.nlon, s.circular), ys = along(y, s.nlat, false);
  if (!s.circular) {  // both ends of a closed grid
    ld period = 360 / fabsl(ld(s.dlon));
    for (ld q : {x - period, x + period})
      if (q >= -kSnap && q <= s.nlon - 1 + kSnap)
        for (auto& k : along(q, s.nlon, false)) xs.push_back(k);
  }
  if (xs.empty() || ys.empty()) {
    c.check(at.quality == 0, what, ": outside the grid but the quality is ", at.quality);
    for (auto& kv : at.value) c.check(!finite(kv.second), what, ": outside the grid but ", kv.first, " is ", kv.second);
    c.label("outside");
    return;
  }
  // just past an end, within rounding
  bool border = !p.exact && ((!s.circular && (x < kSnap || x > s.nlon - 1 - kSnap)) || y < kSnap || y > s.nlat - 1 - kSnap);
  if (border && at.quality == 0) {
    c.label("border");
    // an end of the axis within rounding: either side
    if (at.value.empty()) return;
    bool all = true;
    for (auto& kv : at.value) all = all && !finite(kv.second);
    if (all) return;
  }
  bool ambiguous = xs.size() > 1 || ys.size() > 1;
  std::set<int> qualities;
  // the corners used are the same for all the constituents
  std::string why;
  bool any = false;
  for (auto& cx : xs)
    for (auto& cy : ys) {
      if (any) continue;
      bool ok = true;
      int quality = names.empty() ? 0 : 4;
      bool loose = false;
      for (size_t w = 0; w < names.size() && ok; ++w) {
        auto& d = data[w];
        int i[2] = {std::get<0>(cx), std::get<1>(cx)}, j[2] = {std::get<0>(cy), std::get<1>(cy)};
        ld wx[2] = {1 - std::get<2>(cx), std::get<2>(cx)}, wy[2] = {1 - std::get<2>(cy), std::get<2>(cy)};
        ref::cld sum = 0;
        ld sw = 0;
        int n = 0;
        for (int a = 0; a < 2; ++a)
          for (int b = 0; b < 2; ++b) {
            auto z = d[size_t(i[a]) * size_t(s.nlat) + size_t(j[b])];
            if (!finite(z)) continue;
            sum += ref::cld(z.real(), z.imag()) * (wx[a] * wy[b]);
            sw += wx[a] * wy[b];
            ++n;
          }
        auto got = at.value.at(names[w]);
        std::ostringstream o;
        o.precision(17);
        if (sw == 0) {
          n = 0;
          // nothing but corners the point does not depend on
          bool edge = wx[1] == 0 || wx[1] == 1 || wy[1] == 0 || wy[1] == 1;
          if (!p.exact && edge && finite(got)) {
            loose = true;
            n = 4;
          } else if (finite(got)) {
            o << names[w] << " is " << got << " where all its data are missing";
            ok = false;
          }
        } else {
          auto want = sum / sw;
          bool edge = wx[1] == 0 || wx[1] == 1 || wy[1] == 0 || wy[1] == 1;
          ld tol = amplitude * (ambiguous || edge ? (p.exact ? 1e-9 : 1e-5) : 1e-10);
          if (!finite(got) || std::abs(ref::cld(got.real(), got.imag()) - want) > tol) {
            o << names[w] << " is " << got << " expected " << cd(double(want.real()), double(want.imag())) << " (" << n << " corners)";
            ok = false;
          }
        }
        quality = std::min(quality, n);
        if (!ok) why = o.str();
      }
      if (ok && !loose && at.quality != quality) {
        std::ostringstream o;
        o << "quality " << at.quality << " expected " << quality;
        why = o.str();
        ok = false;
      }
      any = ok;
    }
  c.check(any, what, ": ", why, " at (", p.lon, ", ", p.lat, ")");
  bool all_finite = true;
  for (auto& kv : at.value) all_finite = all_finite && finite(kv.second);
  if (!names.empty()) c.check((at.quality != 0) == all_finite, what, ": quality ", at.quality, " but the values are ", all_finite ? "all finite" : "not all finite");
  static const char* labels[] = {"undefined", "1 corner", "2 corners", "3 corners", "4 corners"};
  c.label(labels[at.quality]);
}

static GridSpec reversed(GridSpec s, std::vector<std::vector<cd>>& data, bool lon, bool lat) {
  auto old = data;
  for (size_t w = 0; w < data.size(); ++w)
    for (int i = 0; i < s.nlon; ++i)
      for (int j = 0; j < s.nlat; ++j)
        data[w][size_t(i) * size_t(s.nlat) + size_t(j)] =
            old[w][size_t(lon ? s.nlon - 1 - i : i) * size_t(s.nlat) + size_t(lat ? s.nlat - 1 - j : j)];
  if (lon) {
    s.lon0 = s.lon(s.nlon - 1);
    s.dlon = -s.dlon;
  }
  if (lat) {
    s.lat0 = s.lat(s.nlat - 1);
    s.dlat = -s.dlat;
  }
  return s;
}

// More nodes than a float counts: the value of each is computed from its number
static void huge(Gen& g, Case& c) {
  GridSpec s{};
  s.circular = g.boolean(0.5);
  if (s.circular) {
    s.nlon = int(g.pick({14400, 16384}));
    s.dlon = 360.0 / s.nlon;
    s.nlat = int(g.integer(1200, 1300));
    s.dlat = 0.125;
    s.lat0 = -80;
  } else {
    bool tall = g.boolean();
    (tall ? s.nlat : s.nlon) = int(g.integer(8400000, 8900000));
    (tall ? s.nlon : s.nlat) = 2;
    (tall ? s.dlat : s.dlon) = std::ldexp(1.0, -16);
    (tall ? s.dlon : s.dlat) = 1.0;
    s.lat0 = -60;
    s.lon0 = -60;
  }
  s.row_major = g.boolean();
  auto value = [](int64_t k) {
    uint64_t h = uint64_t(k) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    return std::complex<float>(float(h % 4001) - 2000, float((h >> 20) % 4001) - 2000);
  };
  c.note("huge: ", s.describe());
  fes::tidal_model::Cartesian<float> model(make_axis(s.lon0, s.dlon, s.nlon, s.circular), make_axis(s.lat0, s.dlat, s.nlat, false), fes::kTide, s.row_major);
  {
    fes::Vector<std::complex<float>> v(Eigen::Index(s.nlon) * s.nlat);
    auto* d = v.data();
    for (int64_t k = 0, n = v.size(); k < n; ++k) d[k] = value(k);
    model.add_constituent(C("M2"), std::move(v));
  }
  auto at = [&](int i, int j) { return value(s.row_major ? int64_t(i) * s.nlat + j : int64_t(j) * s.nlon + i); };
  for (int q = 0; q < 40; ++q) {
    int i = int(g.integer(0, s.circular ? s.nlon - 1 : s.nlon - 2)), j = int(g.integer(0, s.nlat - 2));
    if (q < 4) i = (q & 1) ? 0 : s.nlon - 2, j = (q & 2) ? 0 : s.nlat - 2;
    double tx = g.uniform(0.01, 0.99), ty = g.uniform(0.01, 0.99);
    double lon = s.lon0 + (i + tx) * s.dlon, lat = s.lat0 + (j + ty) * s.dlat;
    // the weights of the rounded position
    tx = double((ld(lon) - ld(s.lon0)) / ld(s.dlon) - i);
    ty = double((ld(lat) - ld(s.lat0)) / ld(s.dlat) - j);
    int i2 = (i + 1) % s.nlon;
    cd want = cd(at(i, j)) * (1 - tx) * (1 - ty) + cd(at(i2, j)) * tx * (1 - ty) + cd(at(i, j + 1)) * (1 - tx) * ty + cd(at(i2, j + 1)) * tx * ty;
    auto got = at_point<float>(model, lon, lat);
    c.check(got.quality == 4, "the quality at (", lon, ", ", lat, ") is ", got.quality);
    c.check(std::abs(got.value.at("M2") - want) <= 1e-3, "M2 is ", got.value.at("M2"), " expected ", want, " at (", lon, ", ", lat, ")");
  }
  c.label("huge");
  c.nontrivial();
}

template <typename T>
static void run(Gen& g, Case& c) {
  if (std::is_same<T, float>::value && g.boolean(0.0002)) return huge(g, c);
  auto s = gen_grid(g, true, false);
  bool arbitrary = g.boolean(0.2);  // coordinates that are not exact in binary
  if (arbitrary) {
    if (s.circular) {
      s.nlon = int(g.pick({7, 9, 11, 13, 27, 100}));
      s.dlon = 360.0 / s.nlon;
    } else
      s.dlon = g.pick({0.1, 1.0 / 3, 0.7, 1.0 / 30});
    s.lon0 += g.pick({0.1, 1.0 / 3, 0.05});
    s.dlat = g.pick({0.1, 1.0 / 3, 0.7, 1.0 / 30});
  }
  // a grid that holds the same meridian at both ends, as 0 and 360: not a circle for the axis
  bool closed = !s.circular && !arbitrary && g.boolean(0.15);
  if (closed) {
    s.nlon = int(g.pick({9, 13, 37, 5, 25}));
    s.dlon = 360.0 / (s.nlon - 1);
    s.lon0 = g.pick({0.0, -180.0, 5.0});
  }
  s.flagged = !s.circular && g.boolean();  // declared circular, but it is not
  auto names = g.boolean(0.6) ? std::vector<std::string>{"M2"} : gen_names(g, 5);
  if (!arbitrary && !closed && g.boolean(0.002)) {
    enlarge(g, s);
    if (names.size() > 2) names.resize(2);
    c.label("large");
  }
  double amplitude = g.pick({1.0, 100.0, 1e-3, 1e5});
  double p_mask = g.pick({0.0, 0.2, 0.5, 0.8});
  bool per_wave = g.boolean(0.5);
  Bulk b(g);
  size_t n = size_t(s.nlon) * size_t(s.nlat);
  std::vector<bool> common(n);
  for (size_t k = 0; k < n; ++k) common[k] = b.unit() < p_mask;
  auto nan = std::numeric_limits<double>::quiet_NaN();
  auto inf = std::numeric_limits<double>::infinity();
  std::vector<std::vector<cd>> data;
  for (size_t w = 0; w < names.size(); ++w) {
    std::vector<cd> d(n);
    for (size_t k = 0; k < n; ++k) {
      d[k] = cd(float(b.uniform(-amplitude, amplitude)), float(b.uniform(-amplitude, amplitude)));
      bool m = per_wave ? b.unit() < p_mask : bool(common[k]);
      auto kind = b.next() % 5;
      if (m) d[k] = kind == 0 ? cd(nan, d[k].imag()) : kind == 1 ? cd(d[k].real(), nan) : kind == 2 ? cd(inf, 0) : cd(nan, nan);
    }
    if (closed)
      for (int j = 0; j < s.nlat; ++j) d[size_t(s.nlon - 1) * size_t(s.nlat) + size_t(j)] = d[size_t(j)];
    data.push_back(d);
  }
  std::vector<PointSpec> points;
  for (int q = 0; q < 6; ++q) {
    PointSpec p{};
    double x = 0, y = 0;
    auto kx = g.weighted({4, 3, 1, 1}), ky = g.weighted({4, 3, 1, 1});
    int cells = s.circular ? s.nlon : s.nlon - 1;
    int ix = int(g.integer(0, cells - 1)), iy = int(g.integer(0, s.nlat - 2));
    p.exact = !arbitrary;
    auto coordinate = [&](size_t kind, double o, double d, int k, int last, bool circular) {
      switch (kind) {
        case 0: return o + (k + g.uniform(0.001, 0.999)) * d;
        case 1: return o + d * double(g.integer(k, circular ? k : last));  // a node
        case 2: {                                                         // next to a node
          p.exact = false;
          double v = o + d * k;
          return std::nextafter(v, g.boolean() ? 1e9 : -1e9);
        }
        default: return circular ? o + (k + g.uniform(0.001, 0.999)) * d : o + d * (g.boolean() ? -g.uniform(0.001, 3) : last + g.uniform(0.001, 3));
      }
    };
    x = coordinate(kx, s.lon0, s.dlon, ix, s.nlon - 1, s.circular);
    y = coordinate(ky, s.lat0, s.dlat, iy, s.nlat - 1, false);
    if (g.boolean(0.4)) x += 360.0 * double(g.integer(-2, 2));
    if (kx == 0 || ky == 0) {
    }
    p.lon = x;
    p.lat = y;
    points.push_back(p);
  }
  c.note(s.describe(), " masked=", p_mask, per_wave ? " per wave" : "", " amplitude=", amplitude, " waves=", pbt::str(names, 80));
  for (auto& p : points) c.note("point (", p.lon, ", ", p.lat, ")");
  for (int v = 0; v < 4; ++v) {
    auto d = data;
    auto e = reversed(s, d, (v & 1) != 0, (v & 2) != 0);
    std::shared_ptr<fes::tidal_model::Cartesian<T>> models[2];
    for (int rm = 0; rm < 2; ++rm) {
      e.row_major = rm != 0;
      e.names = names;
      e.data = d;
      models[rm] = make_grid_model<T>(e);
      const char* what = v == 0 ? (rm ? "grid" : "grid, other storage order") : v == 1 ? "grid with decreasing longitudes" : v == 2 ? "grid with decreasing latitudes" : "grid with both axes decreasing";
      for (auto& p : points) check_model<T>(c, *models[rm], e, d, names, p, amplitude, what);
    }
    for (auto& p : points) {
      auto a = at_point<T>(*models[0], p.lon, p.lat), o = at_point<T>(*models[1], p.lon, p.lat);
      c.check(a.quality == o.quality, "the quality depends on the storage order");
      for (auto& kv : a.value) c.check(same_bits(kv.second, o.value.at(kv.first)), "the value depends on the storage order");
    }
  }
  c.label(s.circular ? "circular" : closed ? "closed" : "regional");
  if (arbitrary) c.label("inexact axes");
  c.nontrivial(!names.empty());
}

PBT_PROP(bilinear, 10) { run<double>(g, c); }
PBT_PROP(bilinear_float, 4) { run<float>(g, c); }

PBT_PROP(not_finite, 1) {
  auto s = gen_grid(g);
  s.names = {"M2", "K1"};
  fill_grid(g, s);
  auto m = make_grid_model<double>(s);
  auto inf = std::numeric_limits<double>::infinity();
  double bad = g.pick({std::numeric_limits<double>::quiet_NaN(), inf, -inf});
  bool in_lon = g.boolean();
  double lon = in_lon ? bad : s.lon(0), lat = in_lon && g.boolean() ? s.lat(0) : bad;
  c.note(s.describe(), " point (", lon, ", ", lat, ")");
  auto at = at_point<double>(*m, lon, lat);
  c.check(at.quality == 0, "the quality of (", lon, ", ", lat, ") is ", at.quality);
  for (auto& kv : at.value) c.check(!finite(kv.second), "the value at (", lon, ", ", lat, ") is ", kv.second);
  c.nontrivial();
}

PBT_MAIN
