// C02: astronomic angles against the cited formulae in extended precision.
#include "common.hpp"
using fes::angle::Astronomic;
using ref::ld;

static void compare(Case& c, const char* what, double got, ld want, double tol, bool modulo) {
  ld d = modulo ? ref::angdiff(got, want) : ld(got) - want;
  c.check(std::isfinite(got) && fabsl(d) <= tol, what, " = ", got, " expected ", double(want), " (difference ", double(d), ")");
}

// dates where an angle is close to a singular or wrapping value, found by
// solving for it with the reference
static double gen_special_epoch(Gen& g, ref::Formulae f, int leap, Case& c) {
  double e0 = g.uniform(-4e9, 4e9);
  int which = int(g.raw(4));
  ld target = g.pick({0.0L, 0.5L, 1.0L, 1.5L}) * ref::PI;
  auto value = [&](double e) {
    auto a = ref::angles(f, e, leap);
    ld v = which == 0 ? a.N : which == 1 ? a.s : which == 2 ? a.h : which == 3 ? a.p : a.P;
    return ref::angdiff(v, target);
  };
  // periods in seconds
  double period = which == 0 ? 18.6 * 3.15576e7 : which == 1 ? 27.3 * 86400 : which == 2 ? 3.15576e7 : 8.85 * 3.15576e7;
  double a = e0, b = e0, step = period / 64;
  for (int i = 0; i < 140; ++i) {
    b = a + step;
    ld va = value(a), vb = value(b);
    if ((va <= 0) != (vb <= 0) && fabsl(va) < 1 && fabsl(vb) < 1) break;
    a = b;
  }
  for (int i = 0; i < 70; ++i) {
    double m = 0.5 * (a + b);
    if ((value(a) <= 0) != (value(m) <= 0)) b = m; else a = m;
  }
  c.label("near a special angle");
  return a + g.pick({0.0, 1e-6, -1e-6, 1.0, -1.0});
}

static void check_angles(Case& c, const Astronomic& a, ref::Formulae f, double epoch, int leap) {
  auto r = ref::angles(f, epoch, leap);
  // rounding: the longitudes are evaluated in degrees as polynomials of the
  // century; the moon turns 481267 degrees a century
  double cent = std::max(1.0, std::fabs(epoch / 86400.0 + 25567.5) / 36525.0);
  double tol = 3e-11 * cent * 1.5;
  compare(c, "T", a.t(), r.T, 1e-13 * 50, true);
  compare(c, "s", a.s(), r.s, tol, true);
  compare(c, "h", a.h(), r.h, tol, true);
  compare(c, "p", a.p(), r.p, tol, true);
  compare(c, "N", a.n(), r.N, tol, true);
  compare(c, "p1", a.p1(), r.p1, tol, true);
  compare(c, "I", a.i(), r.I, tol, false);
  compare(c, "xi", a.xi(), r.xi, 4 * tol, true);
  compare(c, "nu", a.nu(), r.nu, 4 * tol, false);
  compare(c, "1/Ra", a.x1ra(), r.x1ra, 8 * tol, false);
  compare(c, "R", a.r(), r.R, 8 * tol, false);
  compare(c, "nu'", a.nuprim(), r.nup, 8 * tol, false);
  compare(c, "nu''", a.nusec(), r.nus, 8 * tol, false);
  for (double x : {a.s(), a.h(), a.p(), a.p1(), a.n()})
    c.check(x >= 0 && x < 2 * M_PI, "an angle is not in [0, 2 pi): ", x);
  c.check(a.t() >= -M_PI && a.t() <= M_PI, "T is not in [-pi, pi]: ", a.t());
  c.check(std::fabs(a.xi()) < 0.3, "xi is not a small angle: ", a.xi());
}

static bool identical(const Astronomic& a, const Astronomic& b) {
  return a.t() == b.t() && a.s() == b.s() && a.h() == b.h() && a.p() == b.p() && a.n() == b.n() && a.p1() == b.p1() && a.i() == b.i() &&
         a.xi() == b.xi() && a.nu() == b.nu() && a.x1ra() == b.x1ra() && a.r() == b.r() && a.nuprim() == b.nuprim() && a.nusec() == b.nusec();
}

PBT_PROP(formulae, 5) {
  auto f = gen_formulae(g);
  int leap = gen_leap(g);
  double epoch = gen_epoch(g);
  c.note(formulae_name(f), " epoch ", epoch, " leap ", leap);
  Astronomic a(to_fes(f), epoch, uint16_t(leap));
  check_angles(c, a, f, epoch, leap);
  c.label(formulae_name(f));
  c.nontrivial(epoch != 0);
}

PBT_PROP(special_dates, 1) {
  auto f = gen_formulae(g);
  int leap = gen_leap(g);
  double epoch = gen_special_epoch(g, f, leap, c);
  c.note(formulae_name(f), " epoch ", epoch, " leap ", leap);
  Astronomic a(to_fes(f));
  a.update(epoch, uint16_t(leap));
  check_angles(c, a, f, epoch, leap);
  c.nontrivial(true);
}

// whatever was computed before, and in copies
PBT_PROP(history, 3) {
  auto f = gen_formulae(g);
  Astronomic a(to_fes(f));
  Astronomic other(to_fes(gen_formulae(g)));
  size_t n = g.size(1, 12);
  double epoch = gen_epoch(g);
  for (size_t i = 0; i < n; ++i) {
    switch (g.raw(3)) {
      case 0: epoch = gen_epoch(g); break;
      case 1: epoch += g.pick({0.0, 1.0, 3600.0, -3600.0, 86400.0, -86400.0, 1e-3}); break;
      case 2: epoch += g.uniform(-1e5, 1e5); break;
      default: break;
    }
    auto leap = gen_leap(g);
    other.update(gen_epoch(g), leap);
    a.update(epoch, leap);
    c.note(formulae_name(f), " epoch ", epoch, " leap ", leap);
    c.check(identical(a, Astronomic(to_fes(f), epoch, leap)), "the angles depend on what was computed before with the object");
    Astronomic copy(a);
    copy.update(gen_epoch(g), leap);
    copy.update(epoch, leap);
    c.check(identical(a, copy), "a copy gives other angles");
    if (f != ref::kMeeus)  // Schureman's formulae use the civil date
      c.check(identical(a, Astronomic(to_fes(f), epoch, 0)), "leap seconds change the angles of Schureman");
    check_angles(c, a, f, epoch, leap);
  }
  c.nontrivial(n > 1);
}

// Meeus' date is the UTC date plus the leap seconds: n leap seconds
// are worth n seconds of date for all angles but T.
PBT_PROP(leap_seconds_shift, 1) {
  double epoch = gen_epoch(g);
  auto leap = gen_leap(g);
  c.note("epoch ", epoch, " leap ", leap);
  Astronomic a(fes::angle::Formulae::kMeeus, epoch, leap), b(fes::angle::Formulae::kMeeus, epoch + leap, 0);
  for (auto v : {std::make_pair(a.s(), b.s()), std::make_pair(a.h(), b.h()), std::make_pair(a.n(), b.n()), std::make_pair(a.p(), b.p()), std::make_pair(a.p1(), b.p1())})
    c.check(std::fabs(double(ref::angdiff(v.first, v.second))) < 1e-9, "leap seconds are not seconds of date");
  c.nontrivial(leap != 0);
}

PBT_MAIN
