// C03: frequency, period, phase advance, selection of waves.
#include "common.hpp"
using ref::ld;
using fes::angle::Astronomic;
using fes::wave::Table;

// radians per hour, from the published mean motions (degrees per century)
static ld rate(const ref::Row& r) {
  const ld cent = 36525.0L * 24;  // hours
  ld deg = 15.0L * r.T + (r.s * (1336 * 360.0L + 307.892L) + r.h * (36000.0L + 0.769L) + r.p * (11 * 360.0L + 109.032L) + r.p1 * 1.719L) / cent;
  return ref::rad(deg);
}

PBT_PROP(phase_advance, 6) {
  auto& name = g.pick(all_names());
  auto& row = ref::row(name);
  auto f = gen_formulae(g);
  double epoch = g.uniform(-1.5e9, 3.5e9);
  auto w = Table::wave_factory(C(name));
  double dt;
  switch (g.raw(3)) {
    case 0: dt = g.pick({1.0, 2.0, 24.0, 0.25}); break;
    case 1: dt = g.uniform(0, 100); break;
    case 2: dt = g.uniform(0, 9000); break;
    default: dt = -g.uniform(0, 9000);
  }
  auto leap = gen_leap(g);
  c.note(name, " ", formulae_name(f), " epoch ", epoch, " hours ", dt);
  w->nodal_g(Astronomic(to_fes(f), epoch, leap));
  double v0 = w->v();
  w->nodal_g(Astronomic(to_fes(f), epoch + dt * 3600.0, leap));
  double v1 = w->v();
  // The formulae of the angles and the mean motions differ in the last
  // published digits and by their secular terms: less than 0.03 degree per
  // century for the moon, times the multipliers of the wave.
  double cent = std::fabs(dt) / (36525.0 * 24);
  int mult = std::abs(row.T) * 0 + std::abs(row.s) + std::abs(row.h) + std::abs(row.p) + std::abs(row.p1);
  double tol = 1e-8 + cent * mult * ref::rad(0.1L);
  ld d = ref::angdiff(ld(v1) - v0, ld(w->freq()) * dt);
  c.check(fabsl(d) < tol, name, ": the phase advances by ", double(ld(w->freq()) * dt + d), " rad in ", dt, " h, the frequency announces ",
          w->freq() * dt);
  c.nontrivial(dt != 0);
}

PBT_PROP(frequency_period, 2) {
  auto& name = g.pick(all_names());
  auto& row = ref::row(name);
  auto w = Table::wave_factory(C(name));
  c.note(name);
  ld r = rate(row);
  c.check(fabsl(w->freq() - r) < 1e-12, name, ": frequency ", w->freq(), " rad/h, expected ", double(r));
  if (name == "M0")
    c.check(w->freq() == 0 && std::isinf(w->period()), "M0 is not a constant");
  else
    c.check(close_to(w->period() * w->freq(), 2 * M_PI, 0, 1e-14), name, ": period ", w->period(), " is not a full turn at ", w->freq());
  // long period waves have no daily rotation
  c.check((w->type() == fes::Wave::kLongPeriod) == (row.type == 'L'), name, ": type ", int(w->type()));
  c.check((row.type == 'L') == (row.T == 0), "reference");
  auto b = Table();
  c.check(b[C(name)]->freq() == w->freq() && b[C(name)]->period() == w->period(), name, ": a table gives another frequency");
  c.nontrivial(true);
}

// the argument is the combination of the angles, whatever was computed before
PBT_PROP(argument, 4) {
  auto f = gen_formulae(g);
  auto& name = g.pick(all_names());
  auto w = Table::wave_factory(C(name));
  size_t n = g.size(1, 4);
  for (size_t i = 0; i < n; ++i) {
    double epoch = gen_epoch(g);
    c.note(name, " ", formulae_name(f), " epoch ", epoch);
    Astronomic a(to_fes(f), epoch, gen_leap(g));
    w->nodal_g(a);
    auto r = from_fes(a);
    ld want = ref::greenwich_v(ref::row(name), r);
    c.check(fabsl(ref::angdiff(w->v(), want)) < 1e-12, name, ": argument ", w->v(), " expected ", double(want));
  }
  c.nontrivial(true);
}

PBT_PROP(selection, 4) {
  double duration, f;
  switch (g.raw(2)) {
    case 0: duration = 3600.0 * (g.boolean() ? g.uniform(0.1, 24 * 40) : std::pow(10.0, g.uniform(-4, 6))); break;
    case 1: duration = 86400.0 * double(g.integer(0, 7000)); break;
    default: {  // around the threshold of a wave
      auto& name = g.pick(all_names());
      if (name == "M0") Case::discard();
      duration = double(2 * ref::PI / rate(ref::row(name))) * 3600.0 * g.pick({0.5, 1.0, 2.0, 0.25}) * g.pick({0.9999, 1.0001, 0.99, 1.01});
    }
  }
  bool deflt = g.boolean(0.3);
  f = deflt ? 2.0 : g.pick({1.0, 2.0, 0.5, 4.0, g.uniform(0, 5), std::pow(10.0, g.uniform(-4, 6))});
  if (!deflt && f > 0 && g.boolean(0.2)) duration /= f;  // the threshold of a wave, by the number of its periods
  c.note("duration ", duration, " f ", f);
  auto got = deflt ? Table::select_waves_for_analysis(duration) : Table::select_waves_for_analysis(duration, f);
  std::set<std::string> s(got.begin(), got.end());
  c.check(s.size() == got.size(), "a wave is selected twice");
  for (auto& name : all_names()) {
    ld r = rate(ref::row(name));
    if (r <= 0) {
      c.check(s.count(name) == 0, name, " never completes a period but is selected");
      continue;
    }
    ld period = 2 * ref::PI / r, limit = ld(f) * duration / 3600.0L;
    if (fabsl(period - limit) < 1e-9L * period) continue;
    c.check((s.count(name) != 0) == (period < limit), name, " has a period of ", double(period), " h; the limit is ", double(limit), " h; selected: ", s.count(name) != 0);
  }
  for (auto& name : got) c.check(std::count(all_names().begin(), all_names().end(), name) == 1, "unknown wave selected: ", name);
  auto longer = Table::select_waves_for_analysis(duration * (1 + g.unit()), f);
  std::set<std::string> l(longer.begin(), longer.end());
  for (auto& x : got) c.check(l.count(x) == 1, "a longer span loses ", x);
  c.nontrivial(!got.empty() && got.size() < all_names().size());
  // the selection builds a table of these waves
  if (!got.empty()) c.check(Table(got).size() == got.size(), "the selected names do not build a table of these waves");
}

PBT_MAIN
