// C05: the predicted tide is the harmonic sum.
#include "model_case.hpp"

static void check_point(Case& c, const ModelCase& m, const Batch& b, const Prediction& p, size_t i, ref::Formulae f,
                        const std::vector<std::string>& excluded) {
  auto at = at_point(m, b.lon[i], b.lat[i]);
  c.check(at.value.size() == m.names.size(), "the model interpolates ", at.value.size(), " constituents of ", m.names.size());
  auto e = expect(at.value, at.quality, m.dynamic, excluded, m.type, lib_angles(f, b.epoch[i], b.leap[i]), b.lat[i]);
  c.check(p.quality[i] == at.quality, "quality ", p.quality[i], " but the model says ", at.quality);
  double tol = double(e.scale) * 1e-12 + 1e-10;
  if (e.undefined)
    c.check(std::isnan(p.tide[i]), "undefined by the model but the tide is ", p.tide[i]);
  else
    c.check(std::fabs(p.tide[i] - double(e.tide)) <= tol, "tide ", p.tide[i], " expected ", double(e.tide), " at (", b.lon[i], ", ", b.lat[i], ") ", b.epoch[i]);
  c.check(std::fabs(p.lp[i] - double(e.lp)) <= tol, "long period ", p.lp[i], " expected ", double(e.lp), " at (", b.lon[i], ", ", b.lat[i], ") ", b.epoch[i]);
  if (m.type == fes::kRadial && e.undefined) c.check(p.lp[i] == 0, "equilibrium tide in a radial model");
  c.label(e.undefined ? "undefined" : "defined");
}

PBT_PROP(harmonic_sum, 10) {
  Wanted w;
  w.p_large = 0.0003;
  auto m = gen_model(g, w);
  auto f = gen_formulae(g);
  Batch b;
  // On an edge shared by two triangles the one used depends on the previous
  // points (see C06): positions of meshes are evaluated one by one.
  size_t n = m.mesh ? 1 : g.size(1, 6);
  for (size_t i = 0; i < n; ++i) {
    auto pt = gen_point(g, m);
    b.push(gen_epoch(g), gen_leap(g), pt.first, pt.second);
  }
  c.note(m.describe(), " ", formulae_name(f), " points ", n);
  auto p = predict(m, b, settings(f, 0, {}), 1);
  for (size_t i = 0; i < n; ++i) check_point(c, m, b, p, i, f, {});
  c.label(m.mesh ? (m.nodes.order == 1 ? "LGP1" : "LGP2") : "grid");
  c.label(m.type == fes::kTide ? "tide" : "radial");
  c.nontrivial(!m.names.empty());
}

// a model that holds one constant wave: amplitude times cosine of argument
// minus phase lag, straight from the definition
PBT_PROP(single_wave, 4) {
  auto name = g.pick(all_names());
  double amplitude = g.uniform(0.01, 500), lag = g.uniform(-M_PI, M_PI);
  ModelCase m;
  m.grid = gen_grid(g);
  m.type = m.grid.type = g.boolean() ? fes::kTide : fes::kRadial;
  m.names = {name};
  m.data = {std::vector<cd>(size_t(m.grid.nlon * m.grid.nlat), std::polar(amplitude, lag))};
  m.rebuild();
  auto f = gen_formulae(g);
  auto pt = gen_point(g, m, 0.0);
  Batch b;
  b.push(gen_epoch(g), gen_leap(g), pt.first, pt.second);
  c.note(name, " amplitude ", amplitude, " lag ", lag, " ", m.describe(), " epoch ", b.epoch[0]);
  auto p = predict(m, b, settings(f, 0, {}), 1);
  auto a = lib_angles(f, b.epoch[0], b.leap[0]);
  auto& row = ref::row(name);
  auto contribution = [&](const char* n, ref::cld z) {
    auto& r = ref::row(n);
    return ref::nodal_f_code(r, a) * std::abs(z) * cosl(ref::greenwich_v(r, a) + ref::nodal_u(r, a) - std::arg(z));
  };
  ref::cld z = std::polar(ref::ld(amplitude), ref::ld(lag));
  ref::ld want = contribution(name.c_str(), z), lpe = 0, other = 0;
  if (m.type == fes::kTide) lpe = ref::equilibrium(a, b.lat[0], std::vector<std::string>{name});
  // what the wave alone implies by admittance
  ref::Tides t;
  std::map<std::string, bool> inferred;
  for (auto& r : ref::rows()) {
    t[r.name] = 0;
    inferred[r.name] = r.admittance && name != r.name;
  }
  t[name] = z;
  ref::admittance(t, inferred);
  for (auto& r : ref::rows())
    if (inferred[r.name]) other += contribution(r.name, t[r.name]);
  if (p.quality[0] == 0) Case::discard();
  double tol = 1e-9 + amplitude * 1e-11;
  if (row.type == 'S') {
    c.check(std::fabs(double(want + other - p.tide[0])) < tol, "tide ", p.tide[0], " expected ", double(want + other));
    c.check(std::fabs(double(lpe - p.lp[0])) < tol, "long period ", p.lp[0], " expected ", double(lpe));
  } else {
    c.check(std::fabs(double(other - p.tide[0])) < tol, "tide ", p.tide[0], " expected ", double(other));
    c.check(std::fabs(double(lpe + want - p.lp[0])) < tol, "long period ", p.lp[0], " expected ", double(lpe + want));
  }
  c.nontrivial(true);
}

PBT_MAIN
