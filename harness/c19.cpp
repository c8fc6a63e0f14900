// C19: constituents of the model, dynamic and excluded waves.
#include "model_case.hpp"

static double scale_of(const ModelCase& m) {
  double s = 1;
  for (auto& d : m.data) {
    double x = 0;
    for (auto& z : d)
      if (std::isfinite(z.real()) && std::isfinite(z.imag())) x = std::max(x, std::abs(z));
    s += 5 * x;
  }
  return s;
}

struct Combo {
  ModelCase m;
  std::vector<std::string> excluded;
  ref::Formulae f;
  Batch b;
};
static Combo gen_combo(Gen& g) {
  Combo r;
  Wanted w;
  w.max_names = 14;
  w.p_empty = 0.1;
  r.m = gen_model(g, w);
  static const std::vector<std::string> majors = {"Q1", "O1", "K1", "2N2", "N2", "M2", "K2", "S2"};
  // the waves admittance reads, most of the time
  if (g.boolean(0.6)) {
    auto add = g.subset(majors, 0.8);
    Bulk b(g);
    size_t n = r.m.mesh ? r.m.nodes.pos.size() : size_t(r.m.grid.nlon * r.m.grid.nlat);
    for (auto& name : add) {
      if (std::find(r.m.names.begin(), r.m.names.end(), name) != r.m.names.end()) continue;
      r.m.names.push_back(name);
      std::vector<cd> d(n);
      for (auto& z : d) z = cd(float(b.uniform(-10, 10)), float(b.uniform(-10, 10)));
      r.m.data.push_back(d);
    }
  }
  // dynamic waves: inferred ones, long period ones, any
  r.m.dynamic = g.subset(all_names(), g.pick({0.0, 0.05, 0.3}));
  g.shuffle(r.m.dynamic);
  r.excluded = g.subset(r.m.names, g.pick({0.0, 0.3, 0.6, 1.0}));
  auto more = g.subset(all_names(), g.pick({0.0, 0.0, 0.05, 0.3}));
  for (auto& x : more)
    if (std::find(r.excluded.begin(), r.excluded.end(), x) == r.excluded.end()) r.excluded.push_back(x);
  // a wave of the model that is both excluded and dynamic is ambiguous
  std::vector<std::string> dyn;
  for (auto& x : r.m.dynamic) {
    bool ex = std::find(r.excluded.begin(), r.excluded.end(), x) != r.excluded.end();
    bool provided = std::find(r.m.names.begin(), r.m.names.end(), x) != r.m.names.end();
    if (!(ex && provided)) dyn.push_back(x);
  }
  r.m.dynamic = dyn;
  r.m.rebuild();
  r.f = gen_formulae(g);
  size_t n = r.m.mesh ? 1 : g.size(1, 4);
  for (size_t i = 0; i < n; ++i) {
    auto p = gen_point(g, r.m);
    r.b.push(gen_epoch(g), gen_leap(g), p.first, p.second);
  }
  return r;
}
static void note(Case& c, const Combo& k) { c.note(k.m.describe(), " excluded=", pbt::str(k.excluded, 80), " ", formulae_name(k.f), " points ", k.b.size()); }

PBT_PROP(combinations, 8) {
  auto k = gen_combo(g);
  note(c, k);
  auto p = predict(k.m, k.b, settings(k.f, 0, k.excluded), 1);
  for (size_t i = 0; i < k.b.size(); ++i) {
    auto at = at_point(k.m, k.b.lon[i], k.b.lat[i]);
    auto e = expect(at.value, at.quality, k.m.dynamic, k.excluded, k.m.type, lib_angles(k.f, k.b.epoch[i], k.b.leap[i]), k.b.lat[i]);
    double tol = double(e.scale) * 1e-12 + 1e-9;
    c.check(p.quality[i] == at.quality, "quality ", p.quality[i], " expected ", at.quality);
    if (e.undefined)
      c.check(std::isnan(p.tide[i]), "tide of an undefined point ", p.tide[i]);
    else
      c.check(std::fabs(p.tide[i] - double(e.tide)) <= tol, "tide ", p.tide[i], " expected ", double(e.tide));
    c.check(std::fabs(p.lp[i] - double(e.lp)) <= tol, "long period ", p.lp[i], " expected ", double(e.lp));
    c.label(e.undefined ? "undefined" : "defined");
  }
  c.nontrivial(!k.excluded.empty() || !k.m.dynamic.empty());
}

// one model, whose dynamic constituents and the waves excluded change from call to call
PBT_PROP(history, 4) {
  auto k = gen_combo(g);
  note(c, k);
  size_t n = g.size(2, 5);
  bool some = false;
  for (size_t step = 0; step < n; ++step) {
    if (step) {
      // often lists of the same sizes as before
      auto other = [&](const std::vector<std::string>& before) {
        auto kind = g.raw(3);
        if (kind == 0) return before;
        if (kind == 1) return g.subset(all_names(), 0.1);
        auto r = before;
        for (auto& x : r)
          if (g.boolean()) x = g.pick(g.boolean() || k.m.names.empty() ? all_names() : k.m.names);
        return r;
      };
      auto dynamic = k.m.dynamic;
      auto how = g.raw(4);
      if (how == 0) {
        // the same waves, some of them in the other list
        auto both = dynamic;
        both.insert(both.end(), k.excluded.begin(), k.excluded.end());
        size_t cut = g.size(0, both.size());
        dynamic.assign(both.begin(), both.begin() + ptrdiff_t(cut));
        k.excluded.assign(both.begin() + ptrdiff_t(cut), both.end());
      } else if (how == 1) {
        dynamic.swap(k.excluded);
      } else {
        k.excluded = other(k.excluded);
        dynamic = other(dynamic);
      }
      k.m.dynamic.clear();
      for (auto& x : dynamic)
        if (std::find(k.excluded.begin(), k.excluded.end(), x) == k.excluded.end() || std::find(k.m.names.begin(), k.m.names.end(), x) == k.m.names.end())
          k.m.dynamic.push_back(x);
      std::vector<Constituent> ids;
      for (auto& x : k.m.dynamic) ids.push_back(fes::constituents::parse(x));
      if (k.m.md) k.m.md->dynamic(ids);
      if (k.m.mf) k.m.mf->dynamic(ids);
      c.note("then dynamic=", pbt::str(k.m.dynamic, 80), " excluded=", pbt::str(k.excluded, 80));
      some = true;
    }
    auto p = predict(k.m, k.b, settings(k.f, 0, k.excluded), 1);
    for (size_t i = 0; i < k.b.size(); ++i) {
      auto at = at_point(k.m, k.b.lon[i], k.b.lat[i]);
      auto e = expect(at.value, at.quality, k.m.dynamic, k.excluded, k.m.type, lib_angles(k.f, k.b.epoch[i], k.b.leap[i]), k.b.lat[i]);
      double tol = double(e.scale) * 1e-12 + 1e-9;
      c.check(e.undefined ? std::isnan(p.tide[i]) : std::fabs(p.tide[i] - double(e.tide)) <= tol, "call ", step, ": tide ", p.tide[i], " expected ", double(e.tide));
      c.check(std::fabs(p.lp[i] - double(e.lp)) <= tol, "call ", step, ": long period ", p.lp[i], " expected ", double(e.lp));
    }
  }
  c.nontrivial(some);
}

// excluding a wave that no minor wave is inferred from is not providing it
PBT_PROP(as_not_provided, 4) {
  auto k = gen_combo(g);
  static const std::set<std::string> used = {"Q1", "O1", "K1", "2N2", "N2", "M2", "K2", "S2"};
  std::vector<std::string> ex;
  for (auto& x : k.excluded)
    if (used.count(x) == 0) ex.push_back(x);
  auto m2 = k.m;
  m2.names.clear();
  m2.data.clear();
  for (size_t i = 0; i < k.m.names.size(); ++i)
    if (std::find(ex.begin(), ex.end(), k.m.names[i]) == ex.end()) {
      m2.names.push_back(k.m.names[i]);
      m2.data.push_back(k.m.data[i]);
    }
  m2.rebuild();
  c.note(k.m.describe(), " excluded=", pbt::str(ex, 80), " ", formulae_name(k.f));
  auto p = predict(k.m, k.b, settings(k.f, 0, ex), 1), q = predict(m2, k.b, settings(k.f, 0, {}), 1);
  double tol = scale_of(k.m) * 1e-11;
  for (size_t i = 0; i < k.b.size(); ++i) {
    if (p.quality[i] == 0 || q.quality[i] == 0) {
      // the excluded waves still count in the definition of the point
      c.check(close_to(p.lp[i], p.quality[i] == q.quality[i] ? q.lp[i] : p.lp[i], tol), "long period ", p.lp[i], " without the wave ", q.lp[i]);
      continue;
    }
    c.check(close_to(p.tide[i], q.tide[i], tol), "tide with an excluded wave ", p.tide[i], " without it ", q.tide[i]);
    c.check(close_to(p.lp[i], q.lp[i], tol), "long period with an excluded wave ", p.lp[i], " without it ", q.lp[i]);
  }
  c.nontrivial(k.m.names.size() != m2.names.size());
}

// order and repetition of the constituents, dynamic and excluded waves
PBT_PROP(order, 4) {
  auto k = gen_combo(g);
  auto m2 = k.m;
  std::vector<size_t> o(k.m.names.size());
  for (size_t i = 0; i < o.size(); ++i) o[i] = i;
  g.shuffle(o);
  m2.names.clear();
  m2.data.clear();
  for (auto i : o) {
    m2.names.push_back(k.m.names[i]);
    m2.data.push_back(k.m.data[i]);
  }
  g.shuffle(m2.dynamic);
  if (!m2.dynamic.empty() && g.boolean()) m2.dynamic.push_back(g.pick(m2.dynamic));
  // a wave provided by the model may be declared dynamic as well
  if (!m2.names.empty() && g.boolean()) {
    auto x = g.pick(m2.names);
    if (std::find(k.excluded.begin(), k.excluded.end(), x) == k.excluded.end()) m2.dynamic.push_back(x);
  }
  auto ex = k.excluded;
  g.shuffle(ex);
  if (!ex.empty() && g.boolean()) ex.push_back(g.pick(ex));
  m2.rebuild();
  note(c, k);
  auto p = predict(k.m, k.b, settings(k.f, 0, k.excluded), 1), q = predict(m2, k.b, settings(k.f, 0, ex), 1);
  double tol = scale_of(k.m) * 1e-11;
  for (size_t i = 0; i < k.b.size(); ++i) {
    c.check(p.quality[i] == q.quality[i], "quality ", p.quality[i], " in another order ", q.quality[i]);
    c.check(close_to(p.tide[i], q.tide[i], tol), "tide ", p.tide[i], " in another order ", q.tide[i]);
    c.check(close_to(p.lp[i], q.lp[i], tol), "long period ", p.lp[i], " in another order ", q.lp[i]);
  }
  c.nontrivial(k.m.names.size() > 1);
}

// Clearing a model forgets its constituents, and it may be filled again
template <typename T>
static void cleared(Gen& g, Case& c, fes::AbstractTidalModel<T>& m, const ModelCase& k) {
  auto list = [](const fes::AbstractTidalModel<T>& x) {
    std::multiset<std::string> r;
    for (auto i : x.identifiers()) r.insert(fes::constituents::name(i));
    return r;
  };
  std::multiset<std::string> names(k.names.begin(), k.names.end());
  c.check(m.size() == names.size() && m.empty() == names.empty(), "size ", m.size(), " instead of ", names.size());
  c.check(list(m) == names, "constituents ", m.identifiers().size(), " instead of ", names.size());
  auto data = m.data();
  m.clear();
  c.check(m.empty() && m.size() == 0 && m.identifiers().empty() && m.data().empty(), "the model cleared holds ", m.size(), " constituents");
  auto acc = std::unique_ptr<fes::Accelerator>(m.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
  auto p = gen_point(g, k);
  fes::Quality q = fes::kInterpolated;
  c.check(m.interpolate({p.first, p.second}, q, acc.get()).empty(), "values of a model cleared");
  // half of them added again
  std::multiset<std::string> kept;
  for (auto& kv : data)
    if (g.boolean()) {
      auto v = kv.second;
      m.add_constituent(kv.first, std::move(v));
      kept.insert(fes::constituents::name(kv.first));
    }
  c.check(list(m) == kept && m.size() == kept.size(), "constituents added after clearing: ", m.size(), " instead of ", kept.size());
  c.nontrivial(!names.empty());
}
PBT_PROP(clear, 2) {
  auto k = gen_combo(g);
  note(c, k);
  k.m.md ? cleared<double>(g, c, *k.m.md, k.m) : cleared<float>(g, c, *k.m.mf, k.m);
}

PBT_MAIN
