// C11: finite-element models reproduce polynomial fields on their mesh.
#include "model_case.hpp"

using ref::ld;
using lcd = std::complex<ld>;
using fes::geometry::Point;

static bool finite(cd z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }

// Field of degree 2 at most in the longitude (unwrapped around the mesh) and latitude
struct Field {
  double lon0, lat0, size;
  cd c[6];
  int degree;
  lcd at(ld ulon, ld lat) const {
    ld x = (ulon - lon0) / size, y = (lat - lat0) / size;
    ld b[6] = {1, x, y, x * x, x * y, y * y};
    lcd r = 0;
    for (int k = 0; k < (degree == 1 ? 3 : 6); ++k) r += b[k] * lcd(c[k].real(), c[k].imag());
    return r;
  }
};

struct LgpCase {
  MeshSpec m;
  NodeSet nodes;
  bool single{false};
  double max_distance{0};
  int shift{0};  // of the codes given to the library, as if the mesh were a part of a larger one
  std::vector<std::string> names;
  std::vector<std::vector<cd>> data;
  std::shared_ptr<fes::mesh::Index> index;
  std::shared_ptr<fes::AbstractTidalModel<double>> md;
  std::shared_ptr<fes::AbstractTidalModel<float>> mf;

  template <typename T>
  std::shared_ptr<fes::AbstractTidalModel<T>> build() {
    auto shifted = nodes;
    for (auto& t : shifted.codes)
      for (auto& k : t) k += shift;
    auto r = make_lgp<T>(index, shifted, fes::kTide, max_distance);
    for (size_t w = 0; w < names.size(); ++w) {
      fes::Vector<std::complex<T>> v = fes::Vector<std::complex<T>>::Zero(Eigen::Index(data[w].size()) + shift);
      for (size_t k = 0; k < data[w].size(); ++k) v(shift + Eigen::Index(k)) = std::complex<T>(T(data[w][k].real()), T(data[w][k].imag()));
      r->add_constituent(C(names[w]), std::move(v));
    }
    return r;
  }
  void rebuild() {
    index = make_index(m);
    if (single)
      mf = build<float>();
    else
      md = build<double>();
  }
  std::unique_ptr<fes::Accelerator> accelerator() const {
    return std::unique_ptr<fes::Accelerator>(single ? mf->accelerator(fes::angle::Formulae::kMeeus, 0) : md->accelerator(fes::angle::Formulae::kMeeus, 0));
  }
  AtPoint at(double lon, double lat, fes::Accelerator* acc, fes::Quality before = fes::kInterpolated) const {
    AtPoint r;
    fes::Quality q = before;
    auto& v = single ? mf->interpolate({lon, lat}, q, acc) : md->interpolate({lon, lat}, q, acc);
    for (auto& kv : v) {
      auto name = fes::constituents::name(kv.first);
      if (r.value.count(name)) throw std::logic_error(std::string("the values of ") + name + " are given twice");
      r.value[name] = kv.second;
    }
    r.quality = int(q);
    return r;
  }
  std::string describe() const {
    return (nodes.order == 1 ? "LGP1 " : "LGP2 ") + std::string(single ? "float " : "double ") + m.describe() + " radius=" + std::to_string(max_distance) + (shift != 0 ? " codes from " + std::to_string(shift) : "") +
           " waves=" + pbt::str(names);
  }
};

static LgpCase gen_case(Gen& g) {
  LgpCase r;
  // down to about one hundred meters, as along a coast
  r.m = gen_mesh(g, 4, {1.0, 0.5, 0.25, 2.0, 0.1, 0.01, 0.001});
  if (g.boolean(0.0003)) r.m = gen_mesh(g, 200, {0.1, 0.05}, 130);  // as large as real ones
  Bulk b(g);
  if (r.m.tri.size() < 1000 && g.boolean(0.3)) refine(r.m, b, int(g.integer(1, 15)));
  r.nodes = make_nodes(r.m, g.boolean(0.5) ? 1 : 2, b, g.boolean(0.5));
  r.single = g.boolean(0.3);
  if (g.boolean(0.5)) r.max_distance = r.m.d * 111000.0 * g.uniform(0, 3);
  r.names = gen_names(g, 4);
  if (r.names.empty()) r.names = {"M2"};
  if (g.boolean(0.02)) r.shift = int(g.integer(1, 70000));
  if (g.boolean(0.0001)) {  // more values than a float counts
    r.shift = (1 << 24) + int(g.integer(1, 1 << 20));
    r.names.resize(1);
  }
  return r;
}

static std::pair<double, double> gen_position(Gen& g, const LgpCase& r) {
  auto p = gen_mesh_point(g, r.m, 0.2);
  if (g.boolean(0.4)) p.first += 360.0 * double(g.integer(-1, 1));
  return p;
}

// margin of the position: positive inside a triangle, about zero on an edge
static double margin(const LgpCase& r, double lon, double lat) {
  double b = -9;
  for (auto& t : r.m.tri) b = std::max(b, sphere_margin(r.m, t, lon, lat));
  return b;
}

// A position of the mesh the search does not find among the triangles of the
// eleven nearest entries (see C10), hence undefined, or extrapolated from
// another triangle, unless it lies in the triangle of the previous position.
static bool not_found(Case& c, const LgpCase& r, const fes::mesh::SelectedTriangle& s, double lon, double lat) {
  if (s.inside || margin(r, lon, lat) < -2e-5) return false;
  if (s.index != -1 && chord(s.point.lon(), s.point.lat(), lon, lat) < 1e-3) return false;
  return eleven_nearest(r.m, lon, lat) && c.known("eleven-nearest");
}

PBT_PROP(polynomial, 10) {
  auto r = gen_case(g);
  auto amplitude = g.pick({1.0, 100.0, 1e-3});
  std::vector<Field> fields;
  Bulk b(g);
  for (size_t w = 0; w < r.names.size(); ++w) {
    Field f;
    f.degree = r.nodes.order;
    f.lon0 = r.m.ref_lon();
    f.lat0 = r.m.lat0;
    f.size = r.m.d * std::max(r.m.nx, r.m.ny);
    for (auto& z : f.c) z = {b.uniform(-amplitude, amplitude), b.uniform(-amplitude, amplitude)};
    std::vector<cd> d;
    for (auto& p : r.nodes.pos) {
      auto z = f.at(p.first, p.second);
      d.emplace_back(double(z.real()), double(z.imag()));
    }
    fields.push_back(f);
    r.data.push_back(d);
  }
  r.rebuild();
  c.note(r.describe());
  // several positions with one accelerator
  auto acc = r.accelerator();
  c.check(acc->cast<fes::tidal_model::LGPAccelerator>() == acc.get(), "the accelerator is not seen as one of a finite-element model");
  fes::Accelerator plain(fes::angle::Formulae::kMeeus, 0, 1);
  c.check(plain.cast<fes::tidal_model::LGPAccelerator>() == nullptr && plain.cast<fes::Accelerator>() == &plain, "another accelerator is seen as one of a finite-element model");
  size_t n = g.size(1, 8);
  bool some = false;
  for (size_t i = 0; i < n; ++i) {
    auto p = gen_position(g, r);
    auto before = g.pick(std::vector<fes::Quality>{fes::kUndefined, fes::kInterpolated});
    auto v = r.at(p.first, p.second, acc.get(), before);
    auto s = r.index->search(Point(p.first, p.second), r.max_distance);
    std::ostringstream o;
    o.precision(17);
    o << " at (" << p.first << ", " << p.second << ") number " << i << ", quality " << v.quality << ", margin " << margin(r, p.first, p.second) << ", triangle " << s.index << (s.inside ? " inside (" : " outside (") << s.point.lon() << ", " << s.point.lat() << ")"
      << "; " << r.describe();
    auto where = o.str();
    c.check(v.value.size() == r.names.size(), v.value.size(), " values", where);
    if (not_found(c, r, s, p.first, p.second)) continue;
    if (!s.inside && std::fabs(margin(r, p.first, p.second)) < 2e-5) continue;  // on an edge
    if (s.index == -1) {
      // a position on the border may be found by the cached triangle
      double mg = margin(r, p.first, p.second);
      if (std::fabs(mg) < 1e-2) continue;
      c.label("nothing");
      c.check(v.quality == 0, "outside but of quality ", v.quality, where);
      for (auto& kv : v.value) c.check(std::isnan(kv.second.real()) && std::isnan(kv.second.imag()), "value outside: ", kv.second, where);
      continue;
    }
    some = true;
    c.label(s.inside ? "inside" : "closest");
    c.check(v.quality >= 1 && v.quality <= 4, "undefined", where);
    if (s.inside) {
      // a position well inside a triangle is interpolated
      if (margin(r, p.first, p.second) > 1e-2) c.check(v.quality == fes::kInterpolated, "not interpolated", where);
    }
    for (size_t w = 0; w < r.names.size(); ++w) {
      auto z = v.value[r.names[w]];
      auto e = fields[w].at(r.m.unwrap(s.point.lon()), s.point.lat());
      double tol = amplitude * (r.single ? 1e-5 : 1e-9);
      auto err = std::abs(lcd(z.real(), z.imag()) - e);
      c.check(err <= tol, r.names[w], " = ", z, " instead of ", cd(double(e.real()), double(e.imag())), where);
    }
  }
  c.nontrivial(some);
}

// The vertex of a triangle which is clearly its closest point, or -1
static int clamped(const ld* x, const ld* y, ld px, ld py) {
  if (fabsl(py) > 75) return -1;
  ld shrink = cosl(py * M_PI / 180);
  for (int k = 0; k < 3; ++k) {
    ld dx = (px - x[k]) * shrink, dy = py - y[k], d = hypotl(dx, dy);
    bool beyond = d > 1e-4 && d < 3 && fabsl(y[k]) < 75;
    for (int o = 1; o < 3 && beyond; ++o) {
      int j = (k + o) % 3;
      ld ex = (x[j] - x[k]) * shrink, ey = y[j] - y[k], e = hypotl(ex, ey);
      beyond = e > 1e-3 && e < 3 && dx * ex + dy * ey < -0.1L * d * e;
    }
    if (beyond) return k;
  }
  return -1;
}

// any nodal values, some masked: Lagrange polynomials in the triangle found
PBT_PROP(nodal, 10) {
  auto r = gen_case(g);
  double amplitude = g.pick({1.0, 100.0, 1e-3});
  double p_mask = g.pick({0.0, 0.05, 0.3});
  Bulk b(g);
  auto nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  for (size_t w = 0; w < r.names.size(); ++w) {
    std::vector<cd> d;
    for (size_t k = 0; k < r.nodes.pos.size(); ++k) {
      cd z(float(b.uniform(-amplitude, amplitude)), float(b.uniform(-amplitude, amplitude)));
      if (b.unit() < p_mask) {
        auto kind = b.next() % 4;
        z = kind == 0 ? cd(nan, z.imag()) : kind == 1 ? cd(z.real(), nan) : kind == 2 ? cd(nan, nan) : cd(inf, z.imag());
      }
      d.push_back(z);
    }
    r.data.push_back(d);
  }
  r.rebuild();
  c.note(r.describe());
  auto shared = r.accelerator();
  size_t n = g.size(1, 6);
  bool some = false;
  for (size_t i = 0; i < n; ++i) {
    auto p = gen_position(g, r);
    auto v = r.at(p.first, p.second, shared.get());
    auto fresh = r.accelerator();
    auto u = r.at(p.first, p.second, fresh.get(), fes::kUndefined);
    auto s = r.index->search(Point(p.first, p.second), r.max_distance);
    double mg = margin(r, p.first, p.second);
    std::ostringstream o;
    o.precision(17);
    o << " at (" << p.first << ", " << p.second << ") number " << i << ", quality " << v.quality << ", margin " << margin(r, p.first, p.second) << ", triangle " << s.index << (s.inside ? " inside (" : " outside (") << s.point.lon() << ", " << s.point.lat() << ")"
      << "; " << r.describe();
    auto where = o.str();
    // whatever was evaluated before
    if (std::fabs(mg) > 2e-5) {
      if (!not_found(c, r, s, p.first, p.second)) {
        c.check(v.quality == u.quality, "quality ", u.quality, " with a new accelerator", where);
        for (auto& kv : u.value) {
          auto z = v.value[kv.first];
          c.check(same_bits(z.real(), kv.second.real()) && same_bits(z.imag(), kv.second.imag()), kv.first, " = ", z, " instead of ", kv.second, " with a new accelerator",
                  where);
        }
      }
    }
    // the flag
    for (auto* x : {&u, &v}) {
      bool all = true;
      for (auto& kv : x->value) all = all && finite(kv.second);
      c.check((x->quality != 0) == all, "quality ", x->quality, all ? " but all the values are finite" : " but a value is not finite", where);
      c.check(x->value.size() == r.names.size(), x->value.size(), " values", where);
    }
    if (s.index == -1) continue;
    some = true;
    // Lagrange polynomials in long double
    auto& t = r.m.tri[size_t(s.index)];
    ld x[3], y[3];
    for (size_t k = 0; k < 3; ++k) {
      x[k] = r.m.unwrap(r.m.lon[size_t(t[k])]);
      y[k] = r.m.lat[size_t(t[k])];
    }
    ld px = r.m.unwrap(s.point.lon()), py = s.point.lat();
    ld det = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
    ld l1 = ((px - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (py - y[0])) / det, l2 = ((x[1] - x[0]) * (py - y[0]) - (px - x[0]) * (y[1] - y[0])) / det;
    ld l0 = 1 - l1 - l2;
    std::vector<ld> beta;
    if (r.nodes.order == 1)
      beta = {l0, l1, l2};
    else
      beta = {l0 * (2 * l0 - 1), 4 * l0 * l1, l1 * (2 * l1 - 1), 4 * l1 * l2, l2 * (2 * l2 - 1), 4 * l2 * l0};
    int vertex = -1;
    bool near_vertex = false;
    for (int k = 0; k < 3; ++k) {
      double d = double(std::max(fabsl(px - x[k]), fabsl(py - y[k])));
      if (d < 1e-13) vertex = k;
      if (d < 1e-9) near_vertex = true;
    }
    // clearly beyond a vertex: its value, whatever the other nodes
    int beyond = s.inside ? -1 : clamped(x, y, ld(r.m.unwrap(p.first)), p.second);
    if (beyond >= 0) c.label("beyond a vertex");
    for (size_t w = 0; w < r.names.size(); ++w) {
      auto z = u.value[r.names[w]];
      auto& codes = r.nodes.codes[size_t(s.index)];
      bool defined = true;
      if (beyond >= 0) {
        auto q = r.data[w][size_t(codes[size_t(beyond * r.nodes.order)])];
        c.check(finite(q) == finite(z), r.names[w], " = ", z, " beyond the vertex ", beyond, " where it is ", q, where);
        if (finite(q)) c.check(std::abs(z - q) <= amplitude * 1e-9, r.names[w], " = ", z, " beyond the vertex ", beyond, " where it is ", q, where);
        continue;
      }
      lcd e = 0;
      for (size_t k = 0; k < beta.size(); ++k) {
        auto q = r.data[w][size_t(codes[k])];
        if (!finite(q)) defined = false;
        e += beta[k] * lcd(q.real(), q.imag());
      }
      if (vertex >= 0) {
        // the value stored for this vertex
        auto q = r.data[w][size_t(codes[size_t(vertex * r.nodes.order)])];
        if (finite(q) && finite(z)) c.check(std::abs(z - q) <= amplitude * 1e-9, r.names[w], " = ", z, " at the vertex ", vertex, " where it is ", q, where);
        if (!finite(q)) c.check(!finite(z), r.names[w], " = ", z, " at a masked vertex", where);
        if (defined) c.check(finite(z), r.names[w], " = ", z, " at the vertex ", vertex, where);
        continue;
      }
      if (near_vertex) continue;
      c.check(finite(z) == defined, r.names[w], " = ", z, defined ? "" : " from masked nodes", where);
      if (!defined) continue;
      c.label("value");
      c.check(std::abs(lcd(z.real(), z.imag()) - e) <= amplitude * 1e-8, r.names[w], " = ", z, " instead of ", cd(double(e.real()), double(e.imag())), where);
    }
    // another convention of longitude
    if (mg > 2e-5 && s.inside && !near_vertex) {
      auto shift = r.at(p.first + g.pick({360.0, -360.0, 720.0}), p.second, fresh.get());
      c.check(shift.quality == u.quality, "quality ", shift.quality, " instead of ", u.quality, " 360 degrees away", where);
      for (auto& kv : u.value)
        if (finite(kv.second)) c.check(std::abs(shift.value[kv.first] - kv.second) <= amplitude * 1e-8, kv.first, " = ", shift.value[kv.first], " 360 degrees away", where);
    }
  }
  c.nontrivial(some);
}

PBT_MAIN
