// C21: the time tolerance bounds the staleness of the astronomic angles.
#include "model_case.hpp"

struct History {
  std::vector<double> epoch;
  std::vector<uint16_t> leap;
  double tolerance;
};
static History gen_history(Gen& g) {
  History h;
  h.tolerance = g.pick({0.0, 1.0, 60.0, 600.0, 3600.0, 86400.0, 0.5, 30 * 86400.0, 1e12});
  double unit = h.tolerance > 0 && h.tolerance < 1e11 ? h.tolerance : g.pick({1.0, 3600.0, 1e-3, 86400.0});
  double e = gen_epoch(g);
  uint16_t leap = gen_leap(g);
  size_t n = g.size(1, 12);
  int mode = int(g.raw(3));
  for (size_t i = 0; i < n; ++i) {
    h.epoch.push_back(e);
    h.leap.push_back(leap);
    double step = 0;
    switch (mode == 3 ? int(g.raw(2)) : mode) {
      case 0: step = unit * g.pick({0.1, 0.25, 0.5, 0.75, 1.0, 0.999, 1.001, 1.5}); break;
      case 1: step = -unit * g.pick({0.1, 0.25, 0.5, 0.75, 1.0, 0.999, 1.001, 1.5}); break;
      default: step = unit * g.uniform(-3, 3);
    }
    if (g.boolean(0.1)) step = 0;
    if (i > 0 && g.boolean(0.15))
      e = h.epoch[g.raw(i)] + 0.4 * step;  // back near a previous date
    else
      e += step;
    if (g.boolean(0.15)) leap = gen_leap(g);
  }
  return h;
}

static bool equal(const fes::angle::Astronomic& a, const fes::angle::Astronomic& b) {
  return same_bits(a.t(), b.t()) && same_bits(a.s(), b.s()) && same_bits(a.h(), b.h()) && same_bits(a.p(), b.p()) && same_bits(a.n(), b.n()) &&
         same_bits(a.p1(), b.p1()) && same_bits(a.i(), b.i()) && same_bits(a.xi(), b.xi()) && same_bits(a.nu(), b.nu()) && same_bits(a.x1ra(), b.x1ra()) &&
         same_bits(a.r(), b.r()) && same_bits(a.nuprim(), b.nuprim()) && same_bits(a.nusec(), b.nusec());
}

PBT_PROP(accelerator, 10) {
  auto h = gen_history(g);
  auto f = gen_formulae(g);
  c.note("tolerance ", h.tolerance, " ", formulae_name(f), " epochs ", pbt::str(h.epoch), " leap ", pbt::str(h.leap));
  fes::Accelerator acc(to_fes(f), h.tolerance, 3);
  bool reused = false, renewed = false;
  for (size_t i = 0; i < h.epoch.size(); ++i) {
    auto a = acc.calculate_angle(h.epoch[i], h.leap[i]);
    bool found = false;
    for (size_t j = 0; j <= i && !found; ++j) {
      if (h.leap[j] != h.leap[i] || !(std::fabs(h.epoch[j] - h.epoch[i]) <= h.tolerance)) continue;
      found = equal(a, fes::angle::Astronomic(to_fes(f), h.epoch[j], h.leap[j]));
      if (found && h.epoch[j] != h.epoch[i]) reused = true;
      if (found && j == i && i > 0) renewed = true;
    }
    c.check(found, "the angles given for the date ", h.epoch[i], " (number ", i, ") are not those of a requested date within ", h.tolerance, " s");
  }
  if (reused) c.label("reused");
  if (renewed) c.label("renewed");
  c.nontrivial(h.epoch.size() > 1);
}

PBT_PROP(prediction, 6) {
  auto h = gen_history(g);
  Wanted w;
  w.max_names = 4;
  w.masks = false;
  w.p_empty = 0;
  auto m = gen_model(g, w);
  auto f = gen_formulae(g);
  auto p0 = gen_point(g, m, 0.0);
  Batch b;
  for (size_t i = 0; i < h.epoch.size(); ++i) b.push(h.epoch[i], h.leap[i], p0.first, p0.second);
  size_t threads = g.pick({1, 1, 2, 3});
  c.note("tolerance ", h.tolerance, " ", formulae_name(f), " epochs ", pbt::str(h.epoch), " leap ", pbt::str(h.leap), " threads ", threads, " ", m.describe());
  auto p = predict(m, b, settings(f, h.tolerance, {}), threads);
  // the order in which the positions of a call are computed is not specified
  std::vector<std::pair<double, double>> fresh;
  for (size_t j = 0; j < b.size(); ++j) {
    Batch one;
    one.push(h.epoch[j], h.leap[j], p0.first, p0.second);
    auto q = predict(m, one, settings(f, 0, {}), 1);
    fresh.emplace_back(q.tide[0], q.lp[0]);
  }
  bool reused = false;
  for (size_t i = 0; i < b.size(); ++i) {
    bool found = false;
    for (size_t k = 0; k < b.size() && !found; ++k) {
      size_t j = (i + k) % b.size();
      if (h.leap[j] != h.leap[i] || !(std::fabs(h.epoch[j] - h.epoch[i]) <= h.tolerance)) continue;
      found = same_bits(p.tide[i], fresh[j].first) && same_bits(p.lp[i], fresh[j].second);
      if (found && h.epoch[j] != h.epoch[i]) reused = true;
    }
    c.check(found, "the tide predicted for the date ", h.epoch[i], " (number ", i, ") is not that of a requested date within ", h.tolerance, " s");
  }
  if (reused) c.label("reused");
  c.nontrivial(h.epoch.size() > 1);
}

// dates and tolerances that are not finite
PBT_PROP(not_finite, 1) {
  auto f = gen_formulae(g);
  auto inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  double tolerance = g.pick({0.0, 600.0, inf, nan});
  fes::Accelerator acc(to_fes(f), tolerance, 3);
  c.note("tolerance ", tolerance, " ", formulae_name(f));
  std::vector<double> seen;
  for (int i = 0; i < 5; ++i) {
    double e = i > 0 && g.boolean(0.4) ? nan : gen_epoch(g);
    auto a = acc.calculate_angle(e, 0);
    seen.push_back(e);
    if (std::isnan(e)) {
      c.check(std::isnan(a.s()) && std::isnan(a.h()), "angles of a date that is not a number: s = ", a.s());
      continue;
    }
    bool found = false;
    for (auto s : seen)
      if (!std::isnan(s) && (s == e || std::fabs(s - e) <= tolerance)) found = found || equal(a, fes::angle::Astronomic(to_fes(f), s, 0));
    c.check(found, "the angles of the date ", e, " are not those of a requested date");
  }
  c.nontrivial();
}

PBT_MAIN
