// C10: mesh search.
#include "common.hpp"
#include "fes/mesh/index.hpp"

using fes::geometry::Point;
using fes::mesh::Index;
using V3 = std::array<ref::ld, 3>;

// A global band: the last column is joined to the first one
static MeshSpec gen_band(Gen& g) {
  MeshSpec m;
  m.nx = int(g.pick({12, 15, 18, 24, 36}));
  m.ny = int(g.integer(1, 4));
  m.d = 360.0 / m.nx;
  double dy = g.pick({10.0, 5.0, 15.0, 20.0});
  m.lon0 = g.pick({0.0, -180.0, -175.0, 3.3, 180.0});
  m.lat0 = -double(m.ny) * dy / 2 + g.pick({0.0, 10.0, -15.0});
  Bulk b(g);
  double jitter = g.pick({0.0, 0.1, 0.2});
  int conv = int(g.raw(2));
  for (int j = 0; j <= m.ny; ++j)
    for (int i = 0; i < m.nx; ++i) {
      double l = quantize(m.lon0 + m.d * (i + b.uniform(-jitter, jitter)));
      m.ulon.push_back(l);
      if (conv == 1) l = std::fmod(l + 720.0, 360.0);
      if (conv == 2) l = std::remainder(l, 360.0);
      m.lon.push_back(l);
      m.lat.push_back(m.lat0 + dy * (j + b.uniform(-jitter, jitter)));
    }
  auto id = [&](int i, int j) { return j * m.nx + i % m.nx; };
  for (int j = 0; j < m.ny; ++j)
    for (int i = 0; i < m.nx; ++i) {
      m.tri.push_back({{id(i, j), id(i + 1, j), id(i + 1, j + 1)}});
      m.tri.push_back({{id(i, j), id(i + 1, j + 1), id(i, j + 1)}});
    }
  return m;
}

static MeshSpec gen_any(Gen& g) {
  auto kind = g.weighted({5, 3, 1});
  if (kind == 2) return gen_band(g);
  if (g.boolean(0.0004)) return gen_mesh(g, 260, {0.1, 0.05}, 180);  // as large as real ones
  auto m = gen_mesh(g, 4);
  if (kind == 1) {
    Bulk b(g);
    refine(m, b, int(g.integer(1, 40)));
  }
  return m;
}

static std::pair<double, double> gen_position(Gen& g, const MeshSpec& m) {
  if (g.boolean(0.7)) {  // around one triangle
    auto& t = m.tri[g.raw(m.tri.size() - 1)];
    double w[3];
    double far = g.pick({0.0, 0.0, 0.0, 0.5, 3.0});
    for (auto& x : w) x = g.real(-far, 1);
    if (g.boolean(0.1)) w[0] = 0;
    if (g.boolean(0.1)) w[1] = 0;
    double s = w[0] + w[1] + w[2];
    if (std::fabs(s) < 0.3) {
      w[0] = w[1] = w[2] = 1;
      s = 3;
    }
    double lon = 0, lat = 0;
    for (size_t k = 0; k < 3; ++k) {
      auto v = size_t(t[k]);
      double u = m.ulon[v];
      u = m.ulon[size_t(t[0])] + std::remainder(u - m.ulon[size_t(t[0])], 360.0);
      lon += w[k] / s * u;
      lat += w[k] / s * m.lat[v];
    }
    return {lon, std::max(-85.0, std::min(85.0, lat))};
  }
  if (g.boolean(0.3)) return {g.uniform(-180, 360), g.uniform(-85, 85)};
  if (g.boolean(0.4)) {  // from a millimeter to some kilometers away from a vertex
    auto& t = m.tri[g.raw(m.tri.size() - 1)];
    auto v = size_t(t[g.raw(2)]);
    double far = std::pow(10.0, g.uniform(-8, -1.5)), a = g.uniform(0, 6.283);
    return {m.ulon[v] + far * std::cos(a), std::max(-85.0, std::min(85.0, m.lat[v] + far * std::sin(a)))};
  }
  return gen_mesh_point(g, m, 0.5);
}

struct Query {
  double best_inside{-9};  // margin in the most central triangle
  size_t inside{0};
  double nearest{1e18};                // distance to the nearest referenced vertex
  std::vector<double> entries;         // sorted distances of the entries
  std::vector<double> reach;           // distance of the nearest vertex of each triangle
  double eps{1e-3};
  double bend{0};  // between a geodesic and a great circle along the longest edge, in meters
};
static Query query(const MeshSpec& m, double lon, double lat) {
  Query q;
  std::vector<double> d(m.lat.size());
  auto p = ecef(lon, lat);
  for (size_t i = 0; i < d.size(); ++i) {
    auto a = ecef(m.lon[i], m.lat[i]);
    d[i] = double(std::sqrt((a[0] - p[0]) * (a[0] - p[0]) + (a[1] - p[1]) * (a[1] - p[1]) + (a[2] - p[2]) * (a[2] - p[2])));
  }
  for (size_t i = 0; i < m.tri.size(); ++i) {
    auto& t = m.tri[i];
    double mg = sphere_margin(m, t, lon, lat);
    if (mg > q.best_inside) {
      q.best_inside = mg;
      q.inside = i;
    }
    double r = 1e18;
    for (int v : t) {
      q.entries.push_back(d[size_t(v)]);
      r = std::min(r, d[size_t(v)]);
    }
    q.reach.push_back(r);
    q.nearest = std::min(q.nearest, r);
  }
  std::sort(q.entries.begin(), q.entries.end());
  double edge = 0;
  for (auto& t : m.tri)
    for (size_t k = 0; k < 3; ++k) {
      auto u = size_t(t[k]), v = size_t(t[(k + 1) % 3]);
      edge = std::max(edge, chord(m.lon[u], m.lat[u], m.lon[v], m.lat[v]));
    }
  q.bend = edge * edge / (8 * 6.371e6) * 1e-2;
  q.eps = edge > 1e6 ? 3e-2 : edge > 3e5 ? 1e-2 : 2e-3;
  return q;
}

// are the last of the 11 entries examined at the same distance as the next one?
static bool entries_tied(const Query& q) {
  return q.entries.size() > 11 && q.entries[11] - q.entries[10] <= 1e-6 + 1e-12 * q.entries[10];
}

static void check_triangle(Case& c, const MeshSpec& m, const fes::mesh::SelectedTriangle& s) {
  c.check(s.index >= 0 && size_t(s.index) < m.tri.size(), "index of the triangle: ", s.index);
  auto& t = m.tri[size_t(s.index)];
  const Point* v[3] = {&s.triangle.v1(), &s.triangle.v2(), &s.triangle.v3()};
  for (size_t k = 0; k < 3; ++k)
    c.check(std::fabs(std::remainder(v[k]->lon() - m.lon[size_t(t[k])], 360.0)) < 1e-9 && v[k]->lat() == m.lat[size_t(t[k])], "vertex ", k,
            " of the triangle found: (", v[k]->lon(), ", ", v[k]->lat(), ") instead of (", m.lon[size_t(t[k])], ", ", m.lat[size_t(t[k])], ")");
}

// The whole statement at one position; returns true if something was found
static bool check_search(Case& c, const MeshSpec& m, const Index& ix, double lon, double lat, double max_distance) {
  auto q = query(m, lon, lat);
  auto s = ix.search(Point(lon, lat), max_distance);
  std::ostringstream w;
  w.precision(17);
  w << " at (" << lon << ", " << lat << "), max_distance " << max_distance << ", nearest vertex at " << q.nearest << " m, margin " << q.best_inside
    << " in triangle " << q.inside << ", found " << s.index << (s.inside ? " inside" : " outside") << "; " << m.describe();
  auto where = w.str();
  if (s.index != -1) check_triangle(c, m, s);
  if (s.inside) {
    c.check(s.index >= 0, "inside no triangle", where);
    double mg = sphere_margin(m, m.tri[size_t(s.index)], lon, lat);
    c.check(mg > -q.eps, "the triangle found ", std::string(s.triangle), " does not contain the position (margin ", mg, ")", where);
    c.check(s.point.lon() == lon && s.point.lat() == lat, "point of a triangle that contains the position", where);
    c.label("inside");
    return true;
  }
  if (q.best_inside > q.eps) {
    // rank of the nearest vertex of the enclosing triangle among the 11 examined
    double r = q.reach[q.inside] * (1 + 1e-12) + 1e-6;
    size_t rank = size_t(std::upper_bound(q.entries.begin(), q.entries.end(), r) - q.entries.begin());
    if (rank > 11) {
      c.label("beyond-11");
      if (c.known("eleven-nearest")) return s.index != -1;
    }
    c.fail("the position is inside a triangle (its nearest vertex comes at rank ", rank, ") which is not found", where);
  }
  // outside, or near an edge
  double nearest = q.nearest;
  double band = 1e-6 + 1e-9 * nearest;
  if (std::fabs(nearest - 1e-2) < 1e-6) return s.index != -1;  // distances are exact to 1 cm
  if (nearest < 1e-2) nearest = band = 0;
  if (std::fabs(nearest - max_distance) <= band && band > 0) return s.index != -1;
  bool expected = nearest < max_distance;
  c.check((s.index != -1) == expected, expected ? "nothing found" : "a triangle found", where);
  if (!expected) {
    c.label("nothing");
    return false;
  }
  if (q.best_inside > -q.eps) {
    c.label("edge");
    return true;
  }
  if (q.nearest > 1e6 || std::fabs(lat) > 80) {  // extrapolation over a pole or to another ocean
    c.label("far");
    return true;
  }
  c.label("outside");
  // the closest point of a triangle around the nearest vertex, or closer
  double bound = 1e18;
  size_t entries_near = size_t(std::upper_bound(q.entries.begin(), q.entries.end(), q.nearest * (1 + 1e-12) + 1e-6) - q.entries.begin());
  for (size_t i = 0; i < m.tri.size(); ++i)
    if (q.reach[i] <= q.nearest * (1 + 1e-12) + 1e-6) {
      double d = triangle_distance(m, i, lon, lat);
      if (entries_near <= 11)
        bound = std::min(bound, d);
      else  // some of the triangles around this vertex are examined
        bound = bound > 1e17 ? d : std::max(bound, d);
    }
  double tol = 0.5 + 2e-3 * q.nearest + q.bend;
  double got = chord(s.point.lon(), s.point.lat(), lon, lat);
  c.check(std::isfinite(got) && got <= bound + tol, "the point given is ", got, " m away, and the triangles around the nearest vertex ", bound, " m", where);
  // which is a point of the triangle found
  double gap = triangle_distance(m, size_t(s.index), s.point.lon(), s.point.lat());
  c.check(gap <= tol + 1e-2 * q.nearest, "the point given (", s.point.lon(), ", ", s.point.lat(), ") is ", gap, " m away from the triangle found", where);
  double own = triangle_distance(m, size_t(s.index), lon, lat);
  c.check(got <= own + tol, "the point given is ", got, " m away, and the triangle found ", own, " m", where);
  return true;
}

static double gen_radius(Gen& g) { return g.pick({0.0, 1.0, 1e3, 1e4, 5e4, 1e5, 3e5, 1e6, 2e7, -1.0}); }

PBT_PROP(search, 10) {
  auto m = gen_any(g);
  Index ix = *make_index(m);
  bool found = false;
  size_t n = g.size(1, 6);
  for (size_t i = 0; i < n; ++i) {
    auto p = gen_position(g, m);
    if (g.boolean(0.3)) p.first = std::remainder(p.first, 360.0);
    double radius = gen_radius(g);
    if (g.boolean(0.3)) {  // near the distance of the nearest vertex
      radius = query(m, p.first, p.second).nearest * g.pick({0.9, 0.999, 1.001, 1.1, 2.0, 1 - 2e-8, 1 + 2e-8});
    }
    found |= check_search(c, m, ix, p.first, p.second, radius);
  }
  c.note(m.describe());
  c.nontrivial(found);
}

// longitudes that differ by 360 degrees; saved and restored index
PBT_PROP(equivalent, 5) {
  auto m = gen_any(g);
  for (auto& l : m.lon) l = quantize(l);
  auto m2 = m;
  Bulk b(g);
  for (auto& l : m2.lon) l += 360.0 * double(int(b.next() % 3) - 1);
  Index a = *make_index(m), s = *make_index(m2);
  auto state = a.getstate();
  Index r = Index::setstate(fes::string_view(state.data(), state.size()));
  c.check(r.getstate() == state, "the state of the restored index is different");
  c.check(r.n_positions() == a.n_positions() && r.n_triangles() == a.n_triangles() && r.lon() == a.lon() && r.lat() == a.lat() && r.triangles() == a.triangles(),
          "content of the restored index");
  bool found = false;
  for (int i = 0; i < 4; ++i) {
    auto p = gen_position(g, m);
    double radius = gen_radius(g);
    auto q = query(m, p.first, p.second);
    auto x = a.search(Point(p.first, p.second), radius);
    auto y = r.search(Point(p.first, p.second), radius);
    std::ostringstream w;
    w.precision(17);
    w << " at (" << p.first << ", " << p.second << "), radius " << radius << "; " << m.describe();
    c.check(x.index == y.index && x.inside == y.inside && same_bits(x.point.lon(), y.point.lon()) && same_bits(x.point.lat(), y.point.lat()),
            "the restored index finds ", y.index, " instead of ", x.index, w.str());
    found |= x.index != -1;
    // near an edge, either of the two triangles (or none, at the border of the mesh) may be found
    if (std::fabs(q.best_inside) < q.eps || std::fabs(q.nearest - radius) < 1e-3 || std::fabs(q.nearest - 1e-2) < 1e-4) continue;
    auto same = [&](const fes::mesh::SelectedTriangle& z, const char* what, double shift) {
      if (q.best_inside > 0) {
        // the entries at the same distance may be others
        double reach = q.reach[q.inside] * (1 + 1e-12) + 1e-6;
        if (size_t(std::upper_bound(q.entries.begin(), q.entries.end(), reach) - q.entries.begin()) > 11) return;
        c.check(x.inside == z.inside && x.index == z.index, "inside ", x.index, " then ", z.index, " with ", what, " ", shift, w.str());
        return;
      }
      c.check((x.index == -1) == (z.index == -1) && x.inside == z.inside, "found ", x.index, " then ", z.index, " with ", what, " ", shift, w.str());
      if (x.index == -1 || entries_tied(q) || q.nearest > 1e6 || std::fabs(p.second) > 80) return;
      double dx = chord(x.point.lon(), x.point.lat(), p.first, p.second), dz = chord(z.point.lon(), z.point.lat(), p.first, p.second);
      c.check(std::fabs(dx - dz) <= 0.5 + 1e-5 * dx, "closest point (", x.point.lon(), ", ", x.point.lat(), ") at ", dx, " m on ", std::string(x.triangle), " then (", z.point.lon(), ", ", z.point.lat(), ") at ", dz, " m on ", std::string(z.triangle), " with ", what, " ", shift, w.str());
    };
    for (double shift : {360.0, -360.0, 720.0, -720.0}) same(a.search(Point(p.first + shift, p.second), radius), "the position shifted by", shift);
    same(s.search(Point(p.first, p.second), radius), "the vertices shifted by", 360);
  }
  c.note(m.describe());
  c.nontrivial(found);
}

PBT_MAIN
