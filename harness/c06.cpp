// C06: batch prediction is pointwise, whatever the order and the threads.
#include <atomic>
#include <thread>

#include "model_case.hpp"

// fewer processors than the machine, to exercise the default thread count
static std::atomic<unsigned> g_processors{4};
unsigned int std::thread::hardware_concurrency() noexcept { return g_processors; }

struct Snapshot {
  std::map<Constituent, std::vector<cd>> data;
  std::vector<Constituent> dynamic, identifiers;
  bool operator==(const Snapshot& o) const {
    if (dynamic != o.dynamic || identifiers != o.identifiers || data.size() != o.data.size()) return false;
    for (auto& kv : data) {
      auto it = o.data.find(kv.first);
      if (it == o.data.end() || it->second.size() != kv.second.size()) return false;
      for (size_t i = 0; i < kv.second.size(); ++i)
        if (!same_bits(kv.second[i], it->second[i])) return false;
    }
    return true;
  }
};
template <typename T>
static Snapshot snapshot_of(const fes::AbstractTidalModel<T>& m) {
  Snapshot s;
  for (auto& kv : m.data()) {
    auto& v = s.data[kv.first];
    for (Eigen::Index i = 0; i < kv.second.size(); ++i) v.push_back(cd(kv.second(i)));
  }
  s.dynamic = m.dynamic();
  s.identifiers = m.identifiers();
  return s;
}
static Snapshot snapshot(const ModelCase& m) { return m.single ? snapshot_of(*m.mf) : snapshot_of(*m.md); }

// true if the position is, up to rounding, on an edge of the mesh
static bool on_edge(const ModelCase& m, double lon, double lat) {
  if (!m.mesh) return false;
  for (auto& t : m.m.tri) {
    auto b = sphere_bary(m.m, t, lon, lat);
    double lowest = std::min({b[0], b[1], b[2]});
    if (std::fabs(lowest) < 1e-9) return true;
  }
  return false;
}

static Batch gen_batch(Gen& g, const ModelCase& m, size_t max) {
  Batch b;
  size_t n = g.size(0, max);
  bool same_date = g.boolean(0.3);
  double epoch = gen_epoch(g);
  uint16_t leap = gen_leap(g);
  for (size_t i = 0; i < n; ++i) {
    if (b.size() > 0 && g.boolean(0.2)) {  // the same position or date again
      auto k = g.size(0, b.size() - 1);
      if (g.boolean())
        b.push(b.epoch[k], b.leap[k], b.lon[k], b.lat[k]);
      else
        b.push(b.epoch[k], gen_leap(g), b.lon[k], b.lat[k]);
      continue;
    }
    auto p = gen_point(g, m, 0.2);
    b.push(same_date ? epoch : gen_epoch(g), same_date ? leap : gen_leap(g), p.first, p.second);
  }
  return b;
}

struct Setup {
  ModelCase m;
  ref::Formulae f;
  std::vector<std::string> excluded;
  fes::Settings s;
  double scale;
  bool masked;
};
static Setup gen_setup(Gen& g) {
  Setup r;
  Wanted w;
  w.max_names = 6;
  w.p_large = 0.0003;
  r.m = gen_model(g, w);
  r.f = gen_formulae(g);
  r.excluded = g.subset(r.m.names, g.boolean(0.3) ? 0.3 : 0.0);
  // (a wave both excluded and dynamic is ambiguous)
  std::vector<std::string> dyn;
  for (auto& n : r.m.dynamic)
    if (std::find(r.excluded.begin(), r.excluded.end(), n) == r.excluded.end()) dyn.push_back(n);
  if (dyn != r.m.dynamic) {
    r.m.dynamic = dyn;
    r.m.rebuild();
  }
  r.s = settings(r.f, 0, r.excluded);
  r.scale = 1;
  r.masked = false;
  for (auto& d : r.m.data) {
    double x = 0;
    for (auto& z : d) {
      if (std::isnan(z.real()) || std::isnan(z.imag())) r.masked = true;
      else
        x = std::max(x, std::abs(z));
    }
    r.scale += 5 * x;
  }
  return r;
}

static void same(Case& c, const Setup& s, const Batch& b, const Prediction& p, size_t i, const Prediction& q, size_t j, const char* what) {
  if (same_bits(p.tide[i], q.tide[j]) && same_bits(p.lp[i], q.lp[j]) && p.quality[i] == q.quality[j]) return;
  // on an edge shared by two triangles either may be used
  if (on_edge(s.m, b.lon[i], b.lat[i])) {
    c.label("edge");
    if (s.masked) return;
    double tol = s.scale * 1e-6;
    if ((p.quality[i] == 0) == (q.quality[j] == 0) && close_to(p.tide[i], q.tide[j], tol) && close_to(p.lp[i], q.lp[j], tol)) return;
  }
  // found in the triangle of the previous position, but not by the search
  if (s.m.mesh && eleven_nearest(s.m.m, b.lon[i], b.lat[i]) && c.known("eleven-nearest")) return;
  c.fail(what, ": point ", i, " (", b.lon[i], ", ", b.lat[i], ") ", b.epoch[i], "+", b.leap[i], " is (", p.tide[i], ", ", p.lp[i], ", ", p.quality[i], ") and (",
         q.tide[j], ", ", q.lp[j], ", ", q.quality[j], ")");
}

PBT_PROP(pointwise, 10) {
  auto s = gen_setup(g);
  auto b = gen_batch(g, s.m, 14);
  size_t n = b.size();
  size_t threads = g.pick({1, 2, 0, 3, 4, 7, 16});
  g_processors = unsigned(g.pick({4, 1, 2, 0, 5}));
  c.note(s.m.describe(), " ", formulae_name(s.f), " excluded=", pbt::str(s.excluded), " points=", n, " threads=", threads);
  auto before = snapshot(s.m);
  auto p = predict(s.m, b, s.s, threads);
  c.check(p.tide.size() == n && p.lp.size() == n && p.quality.size() == n, "size of the result");
  for (size_t i = 0; i < n; ++i) {
    Batch one;
    one.push(b.epoch[i], b.leap[i], b.lon[i], b.lat[i]);
    same(c, s, b, p, i, predict(s.m, one, s.s, 1), 0, "batch and alone");
  }
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  g.shuffle(order);
  Batch other;
  for (auto k : order) other.push(b.epoch[k], b.leap[k], b.lon[k], b.lat[k]);
  auto q = predict(s.m, other, s.s, g.pick({1, 2, 3, 5, 0}));
  for (size_t i = 0; i < n; ++i) same(c, s, b, p, order[i], q, i, "other order");
  auto again = predict(s.m, b, s.s, g.pick({1, 2, 3, 5, 0}));
  for (size_t i = 0; i < n; ++i) same(c, s, b, p, i, again, i, "other number of threads");
  c.check(before == snapshot(s.m), "the prediction changed the model");
  c.label(s.m.mesh ? "mesh" : "grid");
  c.nontrivial(n > 1 && !s.m.names.empty());
}

// long batches, split between threads
PBT_PROP(splits, 1) {
  auto s = gen_setup(g);
  size_t n = g.size(30, 400);
  if (g.boolean(0.02)) {
    n = g.boolean() ? g.pick({size_t(1500), size_t(4097), size_t(10000)}) : g.size(1000, 20000);
    c.label("long batch");
  }
  auto pt = gen_point(g, s.m, 0.1);
  double e0 = gen_epoch(g), step = g.pick({3600.0, 60.0, 86400.0, 0.5});
  auto leap = gen_leap(g);
  Batch b;
  for (size_t i = 0; i < n; ++i) b.push(e0 + double(i) * step, leap, pt.first, pt.second);
  size_t threads = g.pick({2, 0, 3, 8, 13});
  g_processors = 6;
  c.note(s.m.describe(), " ", formulae_name(s.f), " series of ", n, " step ", step, " threads=", threads);
  auto p = predict(s.m, b, s.s, threads), q = predict(s.m, b, s.s, 1);
  for (size_t i = 0; i < n; ++i) same(c, s, b, p, i, q, i, "threads");
  for (size_t k = 0; k < 8; ++k) {
    size_t i = k == 0 ? n - 1 : k == 1 ? n - 2 : k == 2 ? 0 : size_t(g.raw(n - 1));
    Batch one;
    one.push(b.epoch[i], b.leap[i], b.lon[i], b.lat[i]);
    same(c, s, b, p, i, predict(s.m, one, s.s, 1), 0, "series and alone");
  }
  c.nontrivial(!s.m.names.empty());
}

// what was evaluated before, in the same thread, with the same model or another
// one, does not matter: neither the dates within the time tolerance of those of
// the previous call, nor its settings
PBT_PROP(calls, 3) {
  std::vector<Setup> models;
  size_t n = g.size(1, 2);
  for (size_t k = 0; k < n; ++k) models.push_back(gen_setup(g));
  struct Call {
    size_t model;
    Batch b;
    fes::Settings s;
    Prediction expected;
  };
  std::vector<Call> calls;
  size_t count = g.size(2, 4);
  double tolerance = g.pick({0.0, 600.0, 3600.0, 1e6});
  for (size_t k = 0; k < count; ++k) {
    Call x;
    x.model = size_t(g.raw(n - 1));
    auto& m = models[x.model];
    x.b = gen_batch(g, m.m, 4);
    // dates often near those of the first call
    if (k && g.boolean(0.7) && calls[0].b.size())
      for (auto& e : x.b.epoch) e = calls[0].b.epoch[0] + g.uniform(-1, 1) * std::max(tolerance, 60.0);
    x.s = settings(g.boolean(0.7) ? m.f : gen_formulae(g), g.boolean(0.8) ? tolerance : 0.0, g.boolean(0.7) ? m.excluded : std::vector<std::string>{});
    // alone: a model of its own, in a thread of its own
    std::thread([&] {
      auto fresh = m.m;
      fresh.rebuild();
      x.expected = predict(fresh, x.b, x.s, 1);
    }).join();
    calls.push_back(x);
  }
  c.note(models[0].m.describe(), n > 1 ? " and another one" : "", " calls=", count, " tolerance=", tolerance);
  size_t total = g.size(count, 2 * count);
  for (size_t k = 0; k < total; ++k) {
    auto& x = calls[k < count ? k : size_t(g.raw(count - 1))];
    auto p = predict(models[x.model].m, x.b, x.s, 1);
    for (size_t i = 0; i < x.b.size(); ++i) same(c, models[x.model], x.b, x.expected, i, p, i, "alone and after other calls");
  }
  c.label(tolerance > 0 ? "tolerance" : "no tolerance");
  c.nontrivial(true);
}

// several predictions at once with the same model
PBT_PROP(concurrent, 3) {
  auto s = gen_setup(g);
  size_t callers = g.size(2, 4);
  g_processors = 2;
  std::vector<Batch> batches;
  std::vector<fes::Settings> sets;
  std::vector<size_t> threads;
  for (size_t k = 0; k < callers; ++k) {
    batches.push_back(gen_batch(g, s.m, 10));
    threads.push_back(g.pick({1, 2, 3}));
    sets.push_back(settings(gen_formulae(g), 0, g.boolean() ? s.excluded : std::vector<std::string>{}));
  }
  c.note(s.m.describe(), " callers=", callers);
  auto before = snapshot(s.m);
  std::vector<Prediction> got(callers);
  std::vector<std::thread> pool;
  std::atomic<int> ready{0};
  for (size_t k = 0; k < callers; ++k)
    pool.emplace_back([&, k] {
      ++ready;
      while (ready < int(callers)) std::this_thread::yield();
      got[k] = predict(s.m, batches[k], sets[k], threads[k]);
    });
  for (auto& t : pool) t.join();
  for (size_t k = 0; k < callers; ++k) {
    auto want = predict(s.m, batches[k], sets[k], threads[k]);
    for (size_t i = 0; i < batches[k].size(); ++i) same(c, s, batches[k], got[k], i, want, i, "concurrent and alone");
  }
  c.check(before == snapshot(s.m), "the predictions changed the model");
  c.nontrivial(!s.m.names.empty());
}

PBT_MAIN
