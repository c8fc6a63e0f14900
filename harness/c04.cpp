// C04: nodal corrections and Greenwich argument of every constituent.
#include "common.hpp"
using ref::ld;
using fes::angle::Astronomic;
using fes::wave::Table;

static void check_wave(Case& c, const fes::Wave& w, const std::string& name, const ref::Angles& r) {
  auto& row = ref::row(name);
  ld f = ref::nodal_f(row, r), u = ref::nodal_u(row, r), v = ref::greenwich_v(row, r);
  bool f_ok = fabsl(w.f() - f) < 2e-13L * (1 + fabsl(f)) * 10;
  if (!f_ok && name == "2MK6" && fabsl(w.f() - ref::nodal_f_2mk6_code(r)) < 1e-11L && c.known("2MK6-cube")) f_ok = true;
  c.check(f_ok, name, ": node factor ", w.f(), " expected ", double(f));
  c.check(fabsl(ref::angdiff(w.u(), u)) < 1e-11L && std::fabs(w.u()) < 7, name, ": nodal phase ", w.u(), " expected ", double(u));
  c.check(fabsl(ref::angdiff(w.v(), v)) < 1e-11L, name, ": argument ", w.v(), " expected ", double(v));
  c.check(fabsl(ref::angdiff(w.vu(), v + u)) < 2e-11L && std::fabs(w.vu()) <= 2 * M_PI + 1e-12, name, ": v+u is ", w.vu(), " expected ", double(v + u));
  if (row.s == 0 && row.p == 0 && row.xi == 0 && row.nu == 0 && row.nup == 0 && row.nus == 0 && row.f == ref::F1)
    c.check(w.f() == 1 && w.u() == 0, name, ": a solar wave has a nodal correction ", w.f(), " ", w.u());
}

PBT_PROP(single_wave, 5) {
  auto& name = g.pick(all_names());
  auto f = gen_formulae(g);
  double epoch = gen_epoch(g);
  auto leap = gen_leap(g);
  c.note(name, " ", formulae_name(f), " epoch ", epoch, " leap ", leap);
  Astronomic a(to_fes(f), epoch, leap);
  auto w = Table::wave_factory(C(name));
  w->nodal_a(a);
  w->nodal_g(a);
  check_wave(c, *w, name, from_fes(a));
  c.label(name);
  c.nontrivial(true);
}

// tables, sparse or not, whatever was computed before
PBT_PROP(table, 4) {
  auto names = gen_names(g, 10);
  auto t = Table(names);
  size_t n = g.size(1, 5);
  for (size_t i = 0; i < n; ++i) {
    auto f = gen_formulae(g);
    double epoch = gen_epoch(g);
    auto leap = gen_leap(g);
    c.note(pbt::str(names, 80), " ", formulae_name(f), " epoch ", epoch, " leap ", leap);
    Astronomic a(to_fes(f), epoch, leap);
    t.compute_nodal_corrections(a);
    auto r = from_fes(a);
    size_t k = 0;
    for (const auto& w : t) {
      check_wave(c, *w, w->name(), r);
      ++k;
    }
    c.check(k == (names.empty() ? all_names().size() : names.size()), "the table has ", k, " waves");
  }
  c.nontrivial(n > 1 || !names.empty());
}

// the node factor functions against the published formulae
PBT_PROP(end_to_end, 2) {
  // independent of the angles of the library: looser, all from the date
  auto f = gen_formulae(g);
  double epoch = g.uniform(-2e9, 4e9);
  auto leap = gen_leap(g);
  auto& name = g.pick(all_names());
  c.note(name, " ", formulae_name(f), " epoch ", epoch, " leap ", leap);
  auto r = ref::angles(f, epoch, leap);
  Astronomic a(to_fes(f), epoch, leap);
  auto w = Table::wave_factory(C(name));
  w->nodal_a(a);
  w->nodal_g(a);
  auto& row = ref::row(name);
  ld fd = w->f() - ref::nodal_f(row, r);
  if (name == "2MK6" && fabsl(w->f() - ref::nodal_f_2mk6_code(r)) < 1e-8L && c.known("2MK6-cube")) fd = 0;
  c.check(fabsl(fd) < 1e-8L, name, ": node factor ", w->f(), " expected ", double(ref::nodal_f(row, r)));
  c.check(fabsl(ref::angdiff(w->vu(), ref::greenwich_v(row, r) + ref::nodal_u(row, r))) < 1e-7L, name, ": v+u is ", w->vu());
  c.nontrivial(true);
}

// A compound tide has the argument, the nodal phase and the node factor of its
// components (MSf, MP1 and 2MN2, whose documented arguments are not those of
// the interaction of their components, are left to the table).
struct Compound {
  const char* name;
  std::vector<std::pair<int, const char*>> parts;
};

static const std::vector<Compound>& compounds() {
  static const std::vector<Compound> all = {
      {"MNS2", {{1, "M2"}, {1, "N2"}, {-1, "S2"}}}, {"2MS2", {{2, "M2"}, {-1, "S2"}}},
      {"MKS2", {{1, "M2"}, {1, "K2"}, {-1, "S2"}}}, {"MSN2", {{1, "M2"}, {1, "S2"}, {-1, "N2"}}},
      {"2SM2", {{2, "S2"}, {-1, "M2"}}},            {"MO3", {{1, "M2"}, {1, "O1"}}},
      {"2MK3", {{2, "M2"}, {-1, "K1"}}},            {"MK3", {{1, "M2"}, {1, "K1"}}},
      {"N4", {{2, "N2"}}},                          {"MN4", {{1, "M2"}, {1, "N2"}}},
      {"M4", {{2, "M2"}}},                          {"SN4", {{1, "S2"}, {1, "N2"}}},
      {"MS4", {{1, "M2"}, {1, "S2"}}},              {"MK4", {{1, "M2"}, {1, "K2"}}},
      {"S4", {{2, "S2"}}},                          {"SK4", {{1, "S2"}, {1, "K2"}}},
      {"R4", {{2, "R2"}}},                          {"2MN6", {{2, "M2"}, {1, "N2"}}},
      {"M6", {{3, "M2"}}},                          {"MSN6", {{1, "M2"}, {1, "S2"}, {1, "N2"}}},
      {"2MS6", {{2, "M2"}, {1, "S2"}}},             {"2MK6", {{2, "M2"}, {1, "K2"}}},
      {"2SM6", {{2, "S2"}, {1, "M2"}}},             {"MSK6", {{1, "M2"}, {1, "S2"}, {1, "K2"}}},
      {"S6", {{3, "S2"}}},                          {"M8", {{4, "M2"}}}};
  return all;
}

PBT_PROP(compound, 2) {
  auto& k = g.pick(compounds());
  auto formulae = gen_formulae(g);
  double epoch = gen_epoch(g);
  auto leap = gen_leap(g);
  c.note(k.name, " ", formulae_name(formulae), " epoch ", epoch, " leap ", leap);
  Astronomic a(to_fes(formulae), epoch, leap);
  auto get = [&](const std::string& name) {
    auto w = Table::wave_factory(C(name));
    w->nodal_a(a);
    w->nodal_g(a);
    return w;
  };
  auto w = get(k.name);
  ld v = 0, u = 0, f = 1, freq = 0;
  for (auto& p : k.parts) {
    auto part = get(p.second);
    v += p.first * ld(part->v());
    u += p.first * ld(part->u());
    freq += p.first * ld(part->freq());
    f *= powl(part->f(), std::abs(p.first));
  }
  c.check(fabsl(ref::angdiff(w->v(), v)) < 1e-11L, k.name, ": argument ", w->v(), " and that of its components is ", double(v));
  c.check(fabsl(ref::angdiff(w->u(), u)) < 1e-11L, k.name, ": nodal phase ", w->u(), " and that of its components is ", double(u));
  c.check(fabsl(w->freq() - freq) < 1e-12L, k.name, ": frequency ", w->freq(), " and that of its components is ", double(freq));
  bool f_ok = fabsl(w->f() - f) < 1e-11L;
  if (!f_ok && std::string(k.name) == "2MK6" && fabsl(w->f() - f * ld(get("M2")->f())) < 1e-11L && c.known("2MK6-cube")) f_ok = true;
  c.check(f_ok, k.name, ": node factor ", w->f(), " and that of its components is ", double(f));
  c.label(k.name);
  c.nontrivial(true);
}

PBT_MAIN
