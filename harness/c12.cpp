// C12: saved and restored models, axes and mesh indexes behave identically.
#include "model_case.hpp"

static fes::string_view view(const std::string& s) { return {s.data(), s.size()}; }

template <typename T>
struct Restored {
  std::shared_ptr<fes::AbstractTidalModel<T>> model;
  std::string state;  // saved again
};

template <typename M, typename T>
static Restored<T> round_trip(const fes::AbstractTidalModel<T>& m, std::string* first) {
  auto& self = dynamic_cast<const M&>(m);
  *first = self.getstate();
  // the bytes given are copied, then released before the model is used
  auto copy = std::unique_ptr<std::string>(new std::string(*first));
  auto r = std::make_shared<M>(M::setstate(view(*copy)));
  copy.reset();
  return {r, r->getstate()};
}
template <typename T>
static Restored<T> round_trip(const ModelCase& k, const fes::AbstractTidalModel<T>& m, std::string* first) {
  if (!k.mesh) return round_trip<fes::tidal_model::Cartesian<T>>(m, first);
  if (k.nodes.order == 1) return round_trip<fes::tidal_model::LGP1<T>>(m, first);
  return round_trip<fes::tidal_model::LGP2<T>>(m, first);
}

static std::vector<std::string> names_of(const std::vector<Constituent>& v) {
  std::vector<std::string> r;
  for (auto i : v) r.push_back(fes::constituents::name(i));
  return r;
}

template <typename T>
static void same(Case& c, const fes::AbstractTidalModel<T>& a, const fes::AbstractTidalModel<T>& b, const char* when) {
  c.check(a.tide_type() == b.tide_type(), "tide type ", when);
  c.check(a.identifiers() == b.identifiers() && a.size() == b.size() && a.empty() == b.empty(), "constituents ", pbt::str(names_of(b.identifiers())), " instead of ",
          pbt::str(names_of(a.identifiers())), " ", when);
  c.check(a.dynamic() == b.dynamic(), "dynamic ", pbt::str(names_of(b.dynamic())), " instead of ", pbt::str(names_of(a.dynamic())), " ", when);
  for (auto& kv : a.data()) {
    auto& v = b.data().at(kv.first);
    c.check(v.size() == kv.second.size(), "size of the data ", when);
    for (Eigen::Index i = 0; i < v.size(); ++i)
      c.check(same_bits(v(i).real(), kv.second(i).real()) && same_bits(v(i).imag(), kv.second(i).imag()), "datum ", i, " ", when);
  }
}

// A position whose nearest vertex is about as far as the model's radius
static thread_local bool has_limit = false;
static thread_local std::pair<double, double> limit;
static void gen_limit(Gen& g, ModelCase& k) {
  has_limit = k.mesh && k.m.tri.size() < 1000 && g.boolean(0.4);
  if (!has_limit) return;
  limit = {k.m.lon0 - k.m.d * g.uniform(0.2, 1.5), std::min(89.0, k.m.lat0 + k.m.d * g.uniform(-0.5, k.m.ny + 0.5))};
  double d = 1e18;
  for (auto& t : k.m.tri)
    for (int v : t) d = std::min(d, chord(k.m.lon[size_t(v)], k.m.lat[size_t(v)], limit.first, limit.second));
  k.max_distance = std::max(0.0, d + g.pick({1e-3, -1e-3, 1e-2, -1e-2}));
  k.rebuild();
}

template <typename T>
static void predict_same(Case& c, Gen& g, const ModelCase& k, const fes::AbstractTidalModel<T>& a, const fes::AbstractTidalModel<T>& b, const char* when) {
  Batch batch;
  size_t n = g.size(1, 5);
  for (size_t i = 0; i < n; ++i) {
    auto p = gen_point(g, k, 0.3);
    batch.push(gen_epoch(g), gen_leap(g), p.first, p.second);
  }
  if (has_limit) {
    batch.push(gen_epoch(g), 37, limit.first, limit.second);
    ++n;
  }
  auto excluded = g.boolean(0.2) ? std::vector<std::string>{"M2", "Mm"} : std::vector<std::string>{};
  auto s = settings(gen_formulae(g), g.pick({0.0, 600.0}), excluded);
  auto p = predict(a, batch, s, 1), q = predict(b, batch, s, 1);
  for (size_t i = 0; i < n; ++i)
    c.check(same_bits(p.tide[i], q.tide[i]) && same_bits(p.lp[i], q.lp[i]) && p.quality[i] == q.quality[i], "prediction at (", batch.lon[i], ", ", batch.lat[i], "): ",
            q.tide[i], " ", q.lp[i], " ", q.quality[i], " instead of ", p.tide[i], " ", p.lp[i], " ", p.quality[i], " ", when);
}

template <typename T>
static void history(Case& c, Gen& g, const ModelCase& k, std::shared_ptr<fes::AbstractTidalModel<T>> a) {
  std::string first;
  auto r = round_trip<T>(k, *a, &first);
  auto b = r.model;
  c.check(r.state == first, "the state saved again differs");
  same(c, *a, *b, "after the round trip");
  predict_same(c, g, k, *a, *b, "after the round trip");
  size_t n = g.size(0, 5);
  size_t expected = k.mesh ? k.nodes.pos.size() : size_t(k.grid.nlon) * size_t(k.grid.nlat);
  for (size_t i = 0; i < n; ++i) {
    switch (g.raw(4)) {
      case 0: {  // add a constituent, maybe already there or of a wrong size
        auto name = g.pick(std::vector<std::string>{"M2", "S2", "M4", "Mf", "K1", "Q1", "S1", "Mu2"});
        size_t size = expected;
        if (g.boolean(0.25)) size = g.pick(std::vector<size_t>{expected + 1, expected - 1, 0, 1, 2 * expected});
        fes::Vector<std::complex<T>> v((Eigen::Index(size)));
        Bulk bulk(g);
        for (Eigen::Index j = 0; j < v.size(); ++j) v(j) = {T(bulk.uniform(-1, 1)), T(bulk.uniform(-1, 1))};
        int thrown[2] = {0, 0};
        for (int m = 0; m < 2; ++m) try {
            (m ? b : a)->add_constituent(C(name), v);
          } catch (const std::invalid_argument&) {
            thrown[m] = 1;
          }
        c.check(thrown[0] == thrown[1], "adding ", name, " of size ", size, thrown[1] ? " refused" : " accepted", " by the restored model and not by the original");
        c.check(thrown[0] == (size != expected), "adding ", name, " of size ", size, " instead of ", expected, thrown[0] ? " refused" : " accepted");
        c.label("add");
        break;
      }
      case 1: {
        auto d = g.subset(std::vector<std::string>{"Mm", "Mf", "M2", "Sa", "2N2", "Ssa"}, 0.4);
        std::vector<Constituent> ids;
        for (auto& x : d) ids.push_back(C(x));
        a->dynamic(ids);
        b->dynamic(ids);
        break;
      }
      case 2: {
        if (g.boolean(0.3)) {
          a->clear();
          b->clear();
        }
        break;
      }
      case 3: {  // saved and restored again
        std::string again;
        auto z = round_trip<T>(k, *b, &again);
        c.check(z.state == again, "the state saved again differs");
        b = z.model;
        break;
      }
      default: predict_same(c, g, k, *a, *b, "after other operations");
    }
    same(c, *a, *b, "after other operations");
  }
  predict_same(c, g, k, *a, *b, "at the end");
  std::string s1, s2;
  round_trip<T>(k, *a, &s1);
  round_trip<T>(k, *b, &s2);
  c.check(s1 == s2, "the states differ at the end");
}

PBT_PROP(model, 10) {
  Wanted w;
  w.p_large = 0.0005;
  w.max_names = 6;
  auto k = gen_model(g, w);
  gen_limit(g, k);
  if (has_limit) c.label("limit of the radius");
  c.note(k.describe());
  if (k.single)
    history<float>(c, g, k, k.mf);
  else
    history<double>(c, g, k, k.md);
  c.label(k.mesh ? "mesh" : "grid");
  c.nontrivial(!k.names.empty());
}

PBT_PROP(axis, 3) {
  // regular axes, of any numbers
  int n = int(g.pick({2, 3, 5, 10, 100, 361}));
  bool circular = g.boolean(0.4);
  double step = circular ? 360.0 / n : g.pick({1.0, 0.1, 1.0 / 3, 0.25, 1 / 60.0, 7.3});
  double start = g.pick({0.0, -180.0, 1.0 / 3, 359.9, -90.0, 1e-3});
  if (g.boolean(0.3)) {
    start += step * (n - 1);
    step = -step;
  }
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) v(i) = start + i * step;
  fes::Axis a(v, 1e-6, circular);
  auto s = a.getstate();
  auto b = fes::Axis::setstate(view(s));
  c.note("start ", start, " step ", step, " n ", n, circular ? " circular" : "");
  c.check(a == b && b == a, "the restored axis is not equal");
  c.check(b.getstate() == s, "the state saved again differs");
  c.check(a.size() == b.size() && same_bits(a.start(), b.start()) && same_bits(a.step(), b.step()) && same_bits(a.end(), b.end()) && a.is_circular() == b.is_circular() &&
              a.is_ascending() == b.is_ascending() && same_bits(a.min_value(), b.min_value()) && same_bits(a.max_value(), b.max_value()),
          "properties of the restored axis");
  for (int i = 0; i < 12; ++i) {
    double x = g.boolean(0.2) ? v(int(g.raw(uint64_t(n - 1)))) : g.uniform(-400, 800);
    auto p = a.find_indices(x), q = b.find_indices(x);
    c.check(bool(p) == bool(q) && (!p || *p == *q), "find_indices(", x, ")");
    c.check(a.find_index(x, false) == b.find_index(x, false) && a.find_index(x, true) == b.find_index(x, true), "find_index(", x, ")");
  }
  c.nontrivial(n > 2);
}

PBT_PROP(index, 3) {
  auto m = gen_mesh(g, 4);
  auto a = make_index(m);
  auto s = a->getstate();
  auto b = fes::mesh::Index::setstate(view(s));
  c.note(m.describe());
  c.check(b.getstate() == s, "the state saved again differs");
  c.check(a->n_positions() == b.n_positions() && a->n_triangles() == b.n_triangles() && a->lon() == b.lon() && a->lat() == b.lat() && a->triangles() == b.triangles(),
          "content of the restored index");
  bool found = false;
  for (int i = 0; i < 6; ++i) {
    auto p = gen_mesh_point(g, m, 0.5);
    double r = g.pick({0.0, 1e4, 1e5});
    auto x = a->search({p.first, p.second}, r), y = b.search({p.first, p.second}, r);
    c.check(x.index == y.index && x.inside == y.inside && same_bits(x.point.lon(), y.point.lon()) && same_bits(x.point.lat(), y.point.lat()), "search at (", p.first, ", ",
            p.second, ")");
    found |= x.index != -1;
  }
  c.nontrivial(found);
}

PBT_MAIN
