// C22: points, Earth-centred coordinates and triangles.
#include "common.hpp"
#include "fes/geometry/ecef.hpp"
#include "fes/geometry/triangle.hpp"
using ref::ld;
using fes::geometry::EarthCenteredEarthFixed;
using fes::geometry::Point;
using fes::geometry::Triangle;
namespace geo = fes::detail::geometry;

static double gen_lon(Gen& g) {
  switch (g.weighted({4, 2, 1, 1})) {
    case 0: return g.uniform(-720, 720);
    case 1: return 90.0 * double(g.integer(-8, 8));
    case 2: return 90.0 * double(g.integer(-8, 8)) + g.log_real(-12, 0);
    default: return double(g.integer(-360, 360));
  }
}
static double gen_lat(Gen& g) {
  switch (g.weighted({6, 1, 1, 1})) {
    case 0: return g.uniform(-90, 90);
    case 1: return g.pick({-90.0, 0.0, 90.0, 45.0, -45.0});
    case 2: return g.boolean() ? 90 - std::fabs(g.log_real(-12, 0)) : -90 + std::fabs(g.log_real(-12, 0));
    default: return g.log_real(-12, 0);
  }
}

// Vincenty's inverse formula; negative if it does not converge (antipodes)
static ld vincenty(ld lon1, ld lat1, ld lon2, ld lat2) {
  const ld a = 6378137.0L, f = 1 / 298.257223563L, b = a * (1 - f);
  ld u1 = atan2l((1 - f) * sinl(ref::rad(lat1)), fabsl(cosl(ref::rad(lat1)))), u2 = atan2l((1 - f) * sinl(ref::rad(lat2)), fabsl(cosl(ref::rad(lat2))));
  ld L = remainderl(ref::rad(lon2 - lon1), 2 * ref::PI), lam = L;
  ld s1 = sinl(u1), c1 = cosl(u1), s2 = sinl(u2), c2 = cosl(u2);
  for (int i = 0; i < 100; ++i) {
    ld sl = sinl(lam), cl = cosl(lam);
    ld ss = hypotl(c2 * sl, c1 * s2 - s1 * c2 * cl);
    if (ss == 0) return 0;
    ld cs = s1 * s2 + c1 * c2 * cl, sig = atan2l(ss, cs), sa = c1 * c2 * sl / ss, c2a = 1 - sa * sa;
    ld c2m = c2a == 0 ? 0 : cs - 2 * s1 * s2 / c2a;
    ld C = f / 16 * c2a * (4 + f * (4 - 3 * c2a)), last = lam;
    lam = L + (1 - C) * f * sa * (sig + C * ss * (c2m + C * cs * (2 * c2m * c2m - 1)));
    if (fabsl(lam) > ref::PI) return -1;
    if (fabsl(lam - last) < 1e-15L) {
      ld uu = c2a * (a * a - b * b) / (b * b);
      ld A = 1 + uu / 16384 * (4096 + uu * (-768 + uu * (320 - 175 * uu))), B = uu / 1024 * (256 + uu * (-128 + uu * (74 - 47 * uu)));
      ld ds = B * ss * (c2m + B / 4 * (cs * (2 * c2m * c2m - 1) - B / 6 * c2m * (4 * ss * ss - 3) * (4 * c2m * c2m - 3)));
      return b * A * (sig - ds);
    }
  }
  return -1;
}

PBT_PROP(ecef_position, 4) {
  double lon = gen_lon(g), lat = gen_lat(g);
  c.note("position (", lon, ", ", lat, ")");
  auto p = Point(lon, lat);
  c.check(p.lon() == lon && p.lat() == lat && p.is_valid(), "coordinates of a point");
  auto e = static_cast<EarthCenteredEarthFixed>(p);
  auto r = ecef(lon, lat);
  double d = std::sqrt(std::pow(double(e.x() - r[0]), 2) + std::pow(double(e.y() - r[1]), 2) + std::pow(double(e.z() - r[2]), 2));
  c.check(d < 1e-4, "(", lon, ", ", lat, ") is (", e.x(), ", ", e.y(), ", ", e.z(), "), ", d, " m away from (", double(r[0]), ", ", double(r[1]), ", ", double(r[2]), ")");
  double turns = double(g.integer(-3, 3));
  auto f = static_cast<EarthCenteredEarthFixed>(Point(lon + 360 * turns, lat));
  c.check(geo::distance(e, f) < 1e-6, "with ", turns, " turns: ", geo::distance(e, f), " m");
  // another position, distances in a straight line
  double lon2 = gen_lon(g), lat2 = gen_lat(g);
  if (g.boolean(0.3)) {
    lon2 = lon + g.log_real(-9, 1);
    lat2 = std::max(-90.0, std::min(90.0, lat + g.log_real(-9, 1)));
  }
  auto h = static_cast<EarthCenteredEarthFixed>(Point(lon2, lat2));
  double got = geo::distance(e, h), back = geo::distance(h, e), expected = chord(lon, lat, lon2, lat2);
  c.check(got == back, "the distances back and forth are ", got, " and ", back);
  c.check(std::fabs(got - expected) < 1e-4, "the distance from (", lon, ", ", lat, ") to (", lon2, ", ", lat2, ") is ", got, " m instead of ", expected);
  c.check(geo::distance(e, e) == 0, "distance to itself");
  // accessors
  auto q = Point();
  q.lon(lon2);
  q.lat(lat2);
  c.check(q.lon() == lon2 && q.lat() == lat2, "setters of a point");
  c.check(!Point(std::nan(""), lat).is_valid() && !Point(lon, std::nan("")).is_valid(), "a point without coordinates is valid");
  auto w = EarthCenteredEarthFixed();
  w.x(h.z());
  w.y(h.x());
  w.z(h.y());
  c.check(w.x() == h.z() && w.y() == h.x() && w.z() == h.y(), "setters of an Earth-centred position");
  c.check(w == EarthCenteredEarthFixed(h.z(), h.x(), h.y()), "equality of Earth-centred positions");
  if (got > 1) c.check(!(e == h), "positions ", got, " m apart are equal");
  c.nontrivial(lat != 0);
}

PBT_PROP(geodesic, 3) {
  double lon = gen_lon(g), lat = gen_lat(g), lon2 = gen_lon(g), lat2 = gen_lat(g);
  if (g.boolean(0.5)) {
    double s = std::pow(10.0, g.uniform(-6, 1.5));
    lon2 = lon + s * g.uniform(-1, 1) + 360 * double(g.integer(-1, 1));
    lat2 = std::max(-90.0, std::min(90.0, lat + s * g.uniform(-1, 1)));
  }
  c.note("from (", lon, ", ", lat, ") to (", lon2, ", ", lat2, ")");
  auto a = Point(lon, lat), b = Point(lon2, lat2);
  double d = geo::distance(a, b), back = geo::distance(b, a);
  double direct = chord(lon, lat, lon2, lat2);
  ld expected = vincenty(lon, lat, lon2, lat2);
  c.check(d >= 0 && std::isfinite(d), "distance ", d, " from (", lon, ", ", lat, ") to (", lon2, ", ", lat2, ")");
  // (near the antipodes the method of Boost is not precise)
  if (direct < 1.27e7) {
    c.check(std::fabs(d - back) <= 1e-3 + 1e-8 * d, "the distances back and forth are ", d, " and ", back);
    if (expected >= 0)
      c.check(std::fabs(d - double(expected)) <= 0.3 + 1e-4 * double(expected), "distance ", d, " m instead of ", double(expected), " from (", lon, ", ", lat, ") to (", lon2,
              ", ", lat2, ")");
    c.label("precise");
  } else
    c.check(std::fabs(d - back) <= 1e5 && d > 1.8e7 && d < 2.01e7, "distances ", d, " and ", back, " between almost antipodal positions");
  c.check(geo::distance(a, a) == 0, "distance to itself ", geo::distance(a, a));
  double turned = geo::distance(Point(lon + 360, lat), b);
  c.check(direct >= 1.27e7 || std::fabs(turned - d) <= 1e-3 + 1e-8 * d, "distance ", turned, " with another convention, ", d);
  if (direct > 0.5) c.check(d > 0 && !(a == b), "distance ", d, " between positions ", direct, " m apart");
  c.nontrivial(direct > 0.1);
}

// --- triangles --------------------------------------------------------------
static MeshSpec gen_triangle(Gen& g) {
  MeshSpec m;
  for (;;) {
    m.lon0 = g.weighted({3, 2, 2}) == 0 ? g.uniform(-180, 180) : g.boolean() ? 180.0 : 0.0;
    m.d = g.pick({0.01, 0.1, 0.5, 1.0, 3.0, 8.0});
    m.lat0 = g.weighted({4, 1}) == 0 ? g.uniform(-70, 70) : 0.0;
    if (g.boolean(0.3)) m.lon0 += m.d * g.uniform(-1, 1);
    m.nx = m.ny = 1;
    m.ulon.clear();
    m.lat.clear();
    bool lattice = g.boolean(0.3);
    for (int i = 0; i < 3; ++i) {
      double x = lattice ? double(g.integer(-1, 1)) : g.uniform(-1, 1), y = lattice ? double(g.integer(-1, 1)) : g.uniform(-1, 1);
      m.ulon.push_back(quantize(m.lon0 + m.d * x));
      m.lat.push_back(m.lat0 + m.d * y);
    }
    // not flat
    double area = 0, longest = 0;
    for (size_t i = 0; i < 3; ++i) {
      size_t j = (i + 1) % 3;
      double k = std::cos(m.lat0 * M_PI / 180);
      area += (m.ulon[i] * m.lat[j] - m.ulon[j] * m.lat[i]) * k;
      longest = std::max(longest, std::hypot((m.ulon[i] - m.ulon[j]) * k, m.lat[i] - m.lat[j]));
    }
    if (std::fabs(area) > 0.1 * longest * longest && longest > 0.1 * m.d) break;
    g.raw(1);
    if (g.boolean(0.02)) Case::discard();
  }
  m.lon = m.ulon;
  for (auto& l : m.lon) l += 360.0 * double(g.integer(-1, 1));
  m.tri = {{{0, 1, 2}}};
  return m;
}
static Triangle make(const MeshSpec& m, const std::array<int, 3>& t) {
  auto p = [&](size_t i) { return Point(m.lon[size_t(t[i])], m.lat[size_t(t[i])]); };
  return Triangle(p(0), p(1), p(2));
}
static double band(const MeshSpec& m) {
  double edge = 0;
  for (size_t i = 0; i < 3; ++i) edge = std::max(edge, chord(m.lon[i], m.lat[i], m.lon[(i + 1) % 3], m.lat[(i + 1) % 3]));
  return edge > 1e6 ? 3e-2 : edge > 3e5 ? 1e-2 : 2e-3;
}
// a position in or around
static std::pair<double, double> gen_around(Gen& g, const MeshSpec& m) {
  double a = g.uniform(-0.1, 1.1), b = g.uniform(-0.1, 1.1), lon, lat;
  switch (g.weighted({4, 2, 2, 1})) {
    case 0:
      if (a + b > 1.1) {
        a = 1 - a;
        b = 1 - b;
      }
      break;
    case 1:
      a = g.uniform(-2, 2);
      b = g.uniform(-2, 2);
      break;
    case 2: {
      b = g.pick({-1e-2, 0.0, 1e-2});
      break;
    }
    default:
      a = double(g.integer(-1, 2));
      b = double(g.integer(-1, 2));
  }
  auto mix = [&](const std::vector<double>& v) { return v[0] * (1 - a - b) + v[1] * a + v[2] * b; };
  lon = quantize(mix(m.ulon));
  lat = mix(m.lat);
  return {lon + 360.0 * double(g.integer(-1, 1)), std::max(-89.0, std::min(89.0, lat))};
}

PBT_PROP(containment, 6) {
  auto m = gen_triangle(g);
  c.note(m.describe());
  std::array<std::array<int, 3>, 6> orders = {{{{0, 1, 2}}, {{1, 2, 0}}, {{2, 0, 1}}, {{0, 2, 1}}, {{2, 1, 0}}, {{1, 0, 2}}}};
  double eps = band(m);
  auto p = gen_around(g, m);
  c.note("position (", p.first, ", ", p.second, ")");
  double margin = sphere_margin(m, m.tri[0], p.first, p.second);
  int said = -1;
  for (auto& o : orders) {
    auto t = make(m, o);
    for (int k = 0; k < 3; ++k) {
      auto v = Point(m.lon[size_t(o[size_t(k)])], m.lat[size_t(o[size_t(k)])]);
      const Point& own = k == 0 ? t.v1() : k == 1 ? t.v2() : t.v3();
      c.check(own.lon() == v.lon() && own.lat() == v.lat(), "vertex ", k);
      c.check(t.covered_by(v), "the triangle ", std::string(t), " does not contain its vertex ", k);
      c.check(t.is_vertex(v) == k, "vertex ", k, " of ", std::string(t), " said to be ", t.is_vertex(v));
      auto turned = Point(v.lon() + 360.0 * double(g.integer(-1, 1)), v.lat());
      c.check(t.covered_by(turned), "the triangle ", std::string(t), " does not contain its vertex ", k, " with another longitude ", turned.lon());
      c.check(t.is_vertex(turned) == k, "vertex ", k, " of ", std::string(t), " with another longitude ", turned.lon(), " said to be ", t.is_vertex(turned));
    }
    bool in = t.covered_by(Point(p.first, p.second));
    if (margin > eps) c.check(in, "(", p.first, ", ", p.second, ") is not in ", std::string(t), " (margin ", margin, ")");
    if (margin < -eps) c.check(!in, "(", p.first, ", ", p.second, ") is in ", std::string(t), " (margin ", margin, ")");
    if (std::fabs(margin) > 1e-6 && said != -1) c.check(said == int(in), "the order of the vertices of ", std::string(t), " matters for (", p.first, ", ", p.second, ")");
    said = in;
    if (std::fabs(margin) > eps) c.check(t.is_vertex(Point(p.first, p.second)) == -1 || margin < 1e-9, "(", p.first, ", ", p.second, ") is a vertex of ", std::string(t));
    c.check(!t.is_empty(), "empty triangle");
  }
  c.label(margin > eps ? "inside" : margin < -eps ? "outside" : "edge");
  c.nontrivial(std::fabs(margin) > eps);
}

PBT_PROP(reference, 5) {
  auto m = gen_triangle(g);
  if (g.boolean(0.2)) {  // down to some meters
    double k = g.pick({1e-1, 1e-2, 1e-3}) * g.uniform(0.1, 1);
    if (m.d * k < 3e-5) k = 3e-5 / m.d;
    for (size_t i = 1; i < 3; ++i) {
      m.ulon[i] = quantize(m.ulon[0] + k * (m.ulon[i] - m.ulon[0]));
      m.lat[i] = m.lat[0] + k * (m.lat[i] - m.lat[0]);
    }
    m.lon = m.ulon;
    m.d *= k;
    c.label("small");
  }
  c.note(m.describe());
  auto t = make(m, m.tri[0]);
  double x = g.uniform(0, 1), y = g.uniform(0, 1);
  switch (g.weighted({5, 1, 1, 1, 1})) {
    case 0: break;
    case 1: x = 0; break;
    case 2: y = 0; break;
    case 3: y = 1 - x; break;
    default: x = double(g.integer(0, 1)), y = x == 0 ? double(g.integer(0, 1)) : 0;
  }
  if (x + y > 1) {
    x = 1 - x;
    y = 1 - y;
  }
  auto mix = [&](const std::vector<double>& v) { return v[0] + x * (v[1] - v[0]) + y * (v[2] - v[0]); };
  double lon = mix(m.ulon) + 360 * double(g.integer(-1, 1)), lat = mix(m.lat);
  double rx, ry;
  std::tie(rx, ry) = t.reference_right_angled(Point(lon, lat));
  // longitudes up to some 1000 degrees are rounded, the triangle has at least 1 % of its size
  double tol = 1e-11 / m.d + 1e-12;
  c.check(std::fabs(rx - x) < tol * 100 && std::fabs(ry - y) < tol * 100, "the position ", x, ", ", y, " of the unit triangle, (", lon, ", ", lat, ") in ", std::string(t), ", is back at ",
          rx, ", ", ry);
  // order of the vertices
  auto u = make(m, {{1, 2, 0}});
  double sx, sy;
  std::tie(sx, sy) = u.reference_right_angled(Point(lon, lat));
  c.check(std::fabs(sx - y) < tol * 100 && std::fabs(sy - (1 - x - y)) < tol * 100, "with another first vertex, ", sx, ", ", sy);
  c.nontrivial(x > 0 && y > 0 && x + y < 1);
}

PBT_PROP(outside, 4) {
  auto m = gen_triangle(g);
  c.note(m.describe());
  auto t = make(m, m.tri[0]);
  auto p = gen_around(g, m);
  if (std::fabs(p.second) > 80) Case::discard();
  c.note("position (", p.first, ", ", p.second, ")");
  double eps = band(m), margin = sphere_margin(m, m.tri[0], p.first, p.second);
  auto here = Point(p.first, p.second);
  auto q = t.project(here);
  double d = t.distance(here), moved = chord(q.lon(), q.lat(), p.first, p.second);
  c.check(d >= 0 && std::isfinite(d), "distance ", d);
  if (margin > eps) {
    c.check(d == 0, "distance ", d, " of (", p.first, ", ", p.second, ") in ", std::string(t));
    c.check(q.lon() == p.first && q.lat() == p.second, "(", p.first, ", ", p.second, ") in ", std::string(t), " is projected at (", q.lon(), ", ", q.lat(), ")");
    c.label("inside");
  }
  if (margin < -eps) {
    double e = triangle_distance(m, 0, p.first, p.second);
    if (e > 1e6) Case::discard();
    double tol = 0.5 + 4e-3 * e;
    c.check(std::fabs(d - e) <= tol + 2e-3 * m.d * 1e5 * m.d / 8, "distance ", d, " m of (", p.first, ", ", p.second, ") from ", std::string(t), " instead of ", e);
    c.check(moved <= e + tol + 2e-3 * m.d * 1e5 * m.d / 8, "(", p.first, ", ", p.second, ") is projected ", moved, " m away, at (", q.lon(), ", ", q.lat(), "), the triangle ", std::string(t),
            " is at ", e, " m");
    double gap = triangle_distance(m, 0, q.lon(), q.lat());
    c.check(gap <= tol + 2e-3 * m.d * 1e5 * m.d / 8, "the projection (", q.lon(), ", ", q.lat(), ") of (", p.first, ", ", p.second, ") is ", gap, " m away from ", std::string(t));
    c.label("outside");
  }
  c.nontrivial(std::fabs(margin) > eps);
}

// a triangle modified vertex by vertex is the triangle of these vertices
PBT_PROP(modified, 2) {
  auto m = gen_triangle(g), n = gen_triangle(g);
  c.note(m.describe(), " changed to ", n.describe());
  auto t = make(m, m.tri[0]), u = make(n, n.tri[0]);
  std::vector<int> ix = {0, 1, 2};
  g.shuffle(ix);
  for (int k : ix) {
    auto v = Point(n.lon[size_t(k)], n.lat[size_t(k)]);
    if (k == 0) t.v1(v);
    if (k == 1) t.v2(v);
    if (k == 2) t.v3(v);
  }
  c.check(std::string(t) == std::string(u), "the triangle modified is ", std::string(t), " instead of ", std::string(u));
  c.check(t.area() == u.area(), "area ", t.area(), " instead of ", u.area());
  // spherical excess
  ld v[3][3], mean = 0;
  for (size_t i = 0; i < 3; ++i) {
    ld lo = ref::rad(n.ulon[i]), la = ref::rad(n.lat[i]);
    v[i][0] = cosl(la) * cosl(lo), v[i][1] = cosl(la) * sinl(lo), v[i][2] = sinl(la);
    mean += la / 3;
  }
  auto dot = [&](int i, int j) { return v[i][0] * v[j][0] + v[i][1] * v[j][1] + v[i][2] * v[j][2]; };
  ld det = v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
  ld excess = 2 * atanl(fabsl(det) / (1 + dot(0, 1) + dot(1, 2) + dot(2, 0)));
  const ld F = 1 / 298.257223563L, E2 = F * (2 - F);
  ld w = 1 - E2 * sinl(mean) * sinl(mean);
  double flat = double(excess * 6378137.0L * 6378137.0L * (1 - E2) / (w * w));
  c.check(std::fabs(std::fabs(u.area()) - flat) < 0.02 * flat, "area ", u.area(), " m2 of ", std::string(u), " instead of ", flat);
  c.nontrivial(true);
}

PBT_MAIN
