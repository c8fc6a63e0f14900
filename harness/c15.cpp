// C15: long-period equilibrium tide.
#include "common.hpp"
using ref::ld;
using fes::angle::Astronomic;
using fes::wave::LongPeriodEquilibrium;
using fes::wave::Table;

static double gen_lat(Gen& g) { return g.boolean(0.1) ? g.pick({0.0, 90.0, -90.0, 45.0, -30.0}) : g.real(-90, 90); }

static void check_value(Case& c, LongPeriodEquilibrium& lpe, const Astronomic& a, double lat, const std::set<std::string>& dyn) {
  double got = lpe.lpe_minus_n_waves(a, lat);
  ld want = ref::equilibrium(from_fes(a), lat, dyn);
  c.check(fabsl(got - want) < 1e-11L, "equilibrium tide at latitude ", lat, " is ", got, " cm, expected ", double(want));
}

static std::vector<std::string> gen_dynamic(Gen& g) {
  static const std::vector<std::string> lines = {"M0", "Mm", "Mf", "Mtm", "Msqm", "Ssa", "Sa1", "Sta", "Mm1", "Mf1", "A5", "Mm2", "Mf2"};
  static const std::vector<std::string> others = {"Sa", "MSf", "M2", "K1", "O1", "S2", "2N2", "M4"};
  auto r = g.boolean(0.2) ? lines : g.subset(lines, g.pick({0.1, 0.3, 0.6}));
  for (auto& n : g.subset(others, 0.3)) r.push_back(n);
  return r;
}

PBT_PROP(complete, 3) {
  auto f = gen_formulae(g);
  double epoch = gen_epoch(g), lat = gen_lat(g);
  c.note("epoch ", epoch, " lat ", lat);
  Astronomic a(to_fes(f), epoch, gen_leap(g));
  LongPeriodEquilibrium lpe;
  check_value(c, lpe, a, lat, {});
  LongPeriodEquilibrium with((Table()));
  check_value(c, with, a, lat, {});
  c.nontrivial(lat != 0);
}

PBT_PROP(dynamic, 6) {
  auto dyn = gen_dynamic(g);
  std::set<std::string> all(dyn.begin(), dyn.end());
  c.note("dynamic ", pbt::str(dyn, 40));
  Table t;
  for (auto& n : dyn) t[C(n)]->dynamic(true);
  // the flag of admittance and the values do not matter
  if (g.boolean(0.3))
    for (auto& n : dyn) t[C(n)]->admittance(g.boolean());
  LongPeriodEquilibrium lpe(t), untouched;
  size_t steps = g.size(1, 4);
  for (size_t i = 0; i < steps; ++i) {
    Astronomic a(to_fes(gen_formulae(g)), gen_epoch(g), gen_leap(g));
    double lat = gen_lat(g);
    check_value(c, lpe, a, lat, all);
    check_value(c, untouched, a, lat, {});
    LongPeriodEquilibrium copy(lpe);
    if (g.boolean(0.3)) {  // repeated
      lpe.disable_dynamic_wave(t);
      check_value(c, lpe, a, lat, all);
    }
    check_value(c, copy, a, lat, all);
  }
  c.nontrivial(!dyn.empty());
}

// the constituents removed in several steps and orders
PBT_PROP(incremental, 3) {
  auto dyn = gen_dynamic(g);
  g.shuffle(dyn);
  c.note("dynamic one after the other ", pbt::str(dyn, 40));
  LongPeriodEquilibrium lpe;
  std::set<std::string> done;
  Astronomic a(to_fes(gen_formulae(g)), gen_epoch(g), gen_leap(g));
  double lat = gen_lat(g);
  bool fresh = g.boolean();  // tables with one wave each, or growing
  Table t;
  for (auto& n : dyn) {
    if (fresh) t = Table();
    t[C(n)]->dynamic(true);
    lpe.disable_dynamic_wave(t);
    done.insert(n);
    check_value(c, lpe, a, lat, done);
  }
  c.nontrivial(dyn.size() > 1);
}

PBT_MAIN
