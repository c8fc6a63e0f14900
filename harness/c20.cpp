// C20: angle and interpolation helpers.
#include "common.hpp"
#include "fes/detail/grid.hpp"
#include "fes/detail/math.hpp"
using ref::ld;
namespace math = fes::detail::math;

static const double kEps = std::numeric_limits<double>::epsilon();

static double next(double x, int n) {
  for (; n > 0; --n) x = std::nextafter(x, std::numeric_limits<double>::infinity());
  for (; n < 0; ++n) x = std::nextafter(x, -std::numeric_limits<double>::infinity());
  return x;
}

// an angle, often around the bounds of a circle
static double gen_angle(Gen& g, double min, double circle) {
  switch (g.weighted({3, 3, 2, 2, 2, 1})) {
    case 0: return next(min + circle * double(g.integer(-4, 4)), int(g.integer(-3, 3)));
    case 1: return min + circle * double(g.integer(-4, 4)) + g.log_real(-25, 0);
    case 2: return g.uniform(-1000, 1000);
    case 3: return g.log_real(-300, 300);
    case 4: return double(g.integer(-100000, 100000));
    default: return min + circle / 2 * double(g.integer(-9, 9)) + (g.boolean() ? g.log_real(-20, 0) : 0.0);
  }
}
static double gen_min(Gen& g) {
  switch (g.weighted({3, 2, 2, 1, 1})) {
    case 0: return g.pick({-180.0, 0.0, 180.0, -360.0, 360.0});
    case 1: return double(g.integer(-720, 720));
    case 2: return g.uniform(-720, 720);
    case 3: return -M_PI;
    default: return g.log_real(-10, 10);
  }
}
static double gen_circle(Gen& g) {
  switch (g.weighted({4, 1, 1, 1})) {
    case 0: return 360.0;
    case 1: return 2 * M_PI;
    case 2: return double(g.integer(1, 400));
    default: return std::pow(10.0, g.uniform(-6, 6));
  }
}

// distance between two angles on the circle
static ld apart(ld a, ld b, ld circle) {
  ld d = fabsl(fmodl(a, circle) - fmodl(b, circle));
  d = fmodl(d, circle);
  return std::min(d, circle - d);
}

PBT_PROP(normalize, 8) {
  double min = gen_min(g), circle = gen_circle(g), x = gen_angle(g, min, circle);
  c.note("normalize_angle(", x, ", ", min, ", ", circle, ")");
  if (std::fabs(min) > 1e6 * circle) Case::discard();
  double r = math::normalize_angle(x, min, circle);
  double end = min + circle;
  c.check(r >= min && r < end, "normalize_angle(", x, ", ", min, ", ", circle, ") is ", r, ", out of [", min, ", ", end, "[");
  // the subtraction of the bound is rounded
  ld tol = 4 * ld(kEps) * (std::fabs(x) < 1e12 * circle ? std::fabs(x) + std::fabs(min) + circle : circle + std::fabs(min) + std::fabs(x));
  if (tol < circle / 4) {
    c.check(apart(r, x, circle) <= tol, "normalize_angle(", x, ", ", min, ", ", circle, ") is ", r, ", not congruent to it");
    c.label("congruent");
  }
  double again = math::normalize_angle(r, min, circle);
  c.check(apart(again, r, circle) <= 4 * kEps * (std::fabs(r) + std::fabs(min) + circle), "normalized again ", r, " gives ", again);
  c.nontrivial(x < min || x >= end);
}

PBT_PROP(remainder_real, 4) {
  double y = gen_circle(g) * (g.boolean(0.3) ? -1 : 1), x = gen_angle(g, 0, y);
  c.note("remainder(", x, ", ", y, ")");
  double r = math::remainder(x, y);
  c.check(y > 0 ? r >= 0 && r < y : r <= 0 && r > y, "remainder(", x, ", ", y, ") is ", r);
  ld e = fmodl(x, y);  // exact
  if (e != 0 && (e < 0) != (y < 0)) e += y;
  c.check(apart(r, e, std::fabs(y)) <= 4 * kEps * std::fabs(y), "remainder(", x, ", ", y, ") is ", r, " expected ", double(e));
  c.nontrivial(x < 0 || x >= std::fabs(y));
}

PBT_PROP(remainder_integer, 2) {
  auto gen = [&] { return g.boolean() ? g.integer(-50, 50) : int64_t(g.raw(UINT64_MAX) >> g.raw(60)) * (g.boolean() ? 1 : -1); };
  int64_t x = gen(), y = gen();
  if (y == 0 || (x == INT64_MIN && y == -1)) Case::discard();
  c.note("remainder(", x, ", ", y, ")");
  int64_t r = math::remainder(x, y);
  __int128 q = __int128(x) / y, e = __int128(x) - q * y;
  if (e != 0 && (e < 0) != (y < 0)) e += y;
  c.check(r == int64_t(e), "remainder(", x, ", ", y, ") is ", r, " expected ", int64_t(e));
  int32_t x3 = int32_t(x % 100000), y3 = int32_t(y % 1000);
  if (y3 != 0) {
    int32_t e3 = x3 % y3;
    if (e3 != 0 && (e3 < 0) != (y3 < 0)) e3 += y3;
    c.check(math::remainder(x3, y3) == e3, "remainder(", x3, ", ", y3, ") is ", math::remainder(x3, y3));
  }
  c.nontrivial(x < 0 || y < 0);
}

template <unsigned N>
static void check_pow(Case& c, double x) {
  ld e = 1;
  for (unsigned i = 0; i < N; ++i) e *= x;
  double r = math::pow<N>(x);
  c.check(close_to(r, double(e), 1e-300, (N + 1) * kEps) || fabsl(e) > 1e300L, "pow<", N, ">(", x, ") is ", r, " expected ", double(e));
}
PBT_PROP(powers, 2) {
  double x = g.boolean() ? g.log_real(-30, 30) : g.uniform(-3, 3);
  c.note("pow<0..8>(", x, ")");
  check_pow<0>(c, x);
  check_pow<1>(c, x);
  check_pow<2>(c, x);
  check_pow<3>(c, x);
  check_pow<4>(c, x);
  check_pow<5>(c, x);
  check_pow<6>(c, x);
  check_pow<7>(c, x);
  check_pow<8>(c, x);
  int k = int(g.integer(-40, 40));
  c.check(math::pow<5>(k) == k * k * k * k * k && math::pow<0>(k) == 1, "integer powers of ", k);
  double a[5];
  for (auto& v : a) v = g.boolean(0.2) ? 0 : g.uniform(-10, 10);
  double t = g.uniform(-5, 5);
  auto poly = [&](int n) {
    ld s = 0, m = 0, p = 1;
    for (int i = 0; i < n; ++i, p *= t) {
      s += a[i] * p;
      m += fabsl(a[i] * p);
    }
    return std::make_pair(s, m);
  };
  auto near = [&](double got, int n) {
    auto e = poly(n);
    c.check(fabsl(got - e.first) <= 10 * kEps * e.second + 1e-300L, "horner of degree ", n - 1, " at ", t, " is ", got, " expected ", double(e.first));
  };
  near(math::horner(t, a[0]), 1);
  near(math::horner(t, a[0], a[1]), 2);
  near(math::horner(t, a[0], a[1], a[2]), 3);
  near(math::horner(t, a[0], a[1], a[2], a[3]), 4);
  near(math::horner(t, a[0], a[1], a[2], a[3], a[4]), 5);
  c.nontrivial(x != 0);
}

PBT_PROP(units, 4) {
  double x;
  switch (g.weighted({3, 2, 2, 1, 1})) {
    case 0: x = next(15.0 * double(g.integer(-2000, 2000)), int(g.integer(-2, 2))); break;
    case 1: x = g.uniform(-720, 720); break;
    case 2: x = 45.0 * double(g.integer(-64, 64)) + g.log_real(-15, 1); break;
    case 3: x = g.log_real(-300, 15); break;
    default: x = g.log_real(-30, 300);
  }
  c.note("angle ", x);
  if (std::fabs(x) < 1e300) {
    c.check(close_to(math::radians(x), double(ld(x) * ref::PI / 180), 1e-307, 4 * kEps), "radians(", x, ") is ", math::radians(x));
    c.check(close_to(math::degrees(x), double(ld(x) * 180 / ref::PI), 1e-307, 4 * kEps), "degrees(", x, ") is ", math::degrees(x));
    c.check(close_to(math::degrees(math::radians(x)), x, 1e-300, 8 * kEps), "there and back ", x, " is ", math::degrees(math::radians(x)));
  }
  ld r = fmodl(x, 360.0L);  // exact
  // around the zeros the definition must keep its relative precision
  ld q = nearbyintl(r / 90), d = r - 90 * q;
  ld s = sinl(ref::rad(d)), k = cosl(ref::rad(d));
  ld es, ec;
  switch (int(q) & 3) {
    case 0: es = s, ec = k; break;
    case 1: es = k, ec = -s; break;
    case 2: es = -s, ec = -k; break;
    default: es = -k, ec = s;
  }
  double gs = math::sind(x), gc = math::cosd(x), ts, tc;
  std::tie(ts, tc) = math::sincosd(x);
  c.check(close_to(gs, double(es), 1e-307, 8 * kEps), "sind(", x, ") is ", gs, " expected ", double(es));
  c.check(close_to(gc, double(ec), 1e-307, 8 * kEps), "cosd(", x, ") is ", gc, " expected ", double(ec));
  c.check(close_to(ts, double(es), 1e-307, 8 * kEps), "sincosd(", x, ") gives the sine ", ts, " expected ", double(es));
  c.check(close_to(tc, double(ec), 1e-307, 8 * kEps), "sincosd(", x, ") gives the cosine ", tc, " expected ", double(ec));
  if (d == 0) c.check(std::fabs(gs) == std::fabs(double(es)) && std::fabs(gc) == std::fabs(double(ec)), "a multiple of a right angle is not exact: ", x);
  int deg = int(g.integer(-400, 400));
  double m = g.uniform(0, 60), sec = g.uniform(0, 60);
  c.check(close_to(math::dms_to_degrees<double>(deg, m, sec), double(deg + ld(m) / 60 + ld(sec) / 3600), 1e-13), "dms_to_degrees(", deg, ", ", m, ", ", sec, ")");
  c.check(math::pi<double>() == M_PI && math::two_pi<double>() == 2 * M_PI && math::pi_2<double>() == M_PI / 2, "pi");
  c.nontrivial(x != 0);
}

PBT_PROP(closeness, 2) {
  double a = g.boolean(0.2) ? 0 : g.log_real(-10, 10), eps = g.pick({kEps, 1e-12, 1e-6, 1e-3});
  double b;
  switch (g.raw(3)) {
    case 0: b = next(a, int(g.integer(-3, 3))); break;
    case 1: b = a + eps * g.uniform(-3, 3); break;
    case 2: b = a * (1 + eps * g.uniform(-3, 3)); break;
    default: b = g.log_real(-10, 10);
  }
  c.note("is_same(", a, ", ", b, ", ", eps, ")");
  ld d = fabsl(ld(a) - b), m = std::max(fabsl(a), fabsl(b));
  bool surely = d <= eps * (1 - 1e-9L) || d < m * eps * (1 - 1e-9L) || d == 0, never = d > eps * (1 + 1e-9L) + 1e-300L && d > m * eps * (1 + 1e-9L);
  // differences of a few roundings are rounded themselves
  if (eps < 1e-14 && d != 0) surely = never = false;
  bool r = math::is_same(a, b, eps);
  if (surely) c.check(r, "is_same(", a, ", ", b, ", ", eps, ") is false");
  if (never) c.check(!r, "is_same(", a, ", ", b, ", ", eps, ") is true");
  c.check(math::is_same(b, a, eps) == r, "is_same is not symmetric: ", a, ", ", b, ", ", eps);
  double z = g.boolean() ? 0 : eps * g.uniform(-3, 3);
  c.check(math::is_almost_zero(z, eps) == (std::fabs(z) < eps), "is_almost_zero(", z, ", ", eps, ")");
  c.nontrivial(a != b);
}

PBT_PROP(weights, 4) {
  auto cell = [&](double& x1, double& x2, double& x) {
    double start = g.boolean() ? double(g.integer(-360, 360)) : g.uniform(-720, 720);
    double step = g.pick({1.0, 0.25, 1.0 / 16, 5.0}) * (g.boolean(0.3) ? -1 : 1);
    if (g.boolean(0.3)) step = g.uniform(0.001, 20) * (g.boolean() ? 1 : -1);
    x1 = start;
    x2 = start + step;
    switch (g.raw(3)) {
      case 0: x = x1; break;
      case 1: x = x2; break;
      default: x = x1 + (x2 - x1) * g.unit();
    }
  };
  double x1, x2, x, y1, y2, y;
  cell(x1, x2, x);
  cell(y1, y2, y);
  c.note("cell (", x1, ", ", y1, ") to (", x2, ", ", y2, "), at (", x, ", ", y, ")");
  double a, b, d, e;
  std::tie(a, b, d, e) = math::bilinear_weights(x, y, x1, y1, x2, y2);
  auto expected = [](double v, double v1, double v2) { return double((ld(v2) - v) / (ld(v2) - v1)); };
  auto expected2 = [](double v, double v1, double v2) { return double((ld(v) - v1) / (ld(v2) - v1)); };
  double tol = 1e-12 / std::min(1.0, std::min(std::fabs(x2 - x1), std::fabs(y2 - y1)));
  c.check(close_to(a, expected(x, x1, x2), tol) && close_to(b, expected2(x, x1, x2), tol) && close_to(d, expected(y, y1, y2), tol) && close_to(e, expected2(y, y1, y2), tol),
          "weights ", a, ", ", b, ", ", d, ", ", e, " expected ", expected(x, x1, x2), ", ", expected2(x, x1, x2), ", ", expected(y, y1, y2), ", ", expected2(y, y1, y2));
  c.check(a >= 0 && b >= 0 && d >= 0 && e >= 0, "negative weight in ", a, ", ", b, ", ", d, ", ", e);
  c.check(close_to(a + b, 1, 1e-15 * 8 + tol * 1e-3) && close_to(d + e, 1, 1e-15 * 8 + tol * 1e-3), "the weights do not sum to one: ", a + b, ", ", d + e);
  // weighted mean, missing samples left out
  double z[4];
  double p = g.pick({0.0, 0.2, 0.7});
  for (auto& v : z) v = g.boolean(p) ? (g.boolean(0.8) ? std::nan("") : std::numeric_limits<double>::infinity()) : g.uniform(-10, 10);
  double w[4] = {a * d, a * e, b * d, b * e};
  ld s = 0, sw = 0;
  int n = 0;
  double lo = 1e9, hi = -1e9;
  for (int i = 0; i < 4; ++i)
    if (std::isfinite(z[i])) {
      s += ld(w[i]) * z[i];
      sw += w[i];
      ++n;
      lo = std::min(lo, z[i]);
      hi = std::max(hi, z[i]);
    }
  int64_t got = -1;
  double r = math::bilinear_interpolation(a, b, d, e, z[0], z[1], z[2], z[3], got);
  if (sw > 0) {
    c.check(got == n, "mean of ", got, " samples, ", n, " are defined");
    c.check(r >= lo - 1e-13 && r <= hi + 1e-13, "mean ", r, " out of the samples [", lo, ", ", hi, "]");
    if (sw > 1e-9L) c.check(close_to(r, double(s / sw), 1e-12), "mean ", r, " expected ", double(s / sw), " of ", z[0], ", ", z[1], ", ", z[2], ", ", z[3]);
  } else
    c.check(std::isnan(r) && got == 0, "mean ", r, " of ", got, " samples without any defined sample of some weight");
  // complex samples: both parts
  cd zc[4];
  for (int i = 0; i < 4; ++i) zc[i] = std::isfinite(z[i]) ? cd(z[i], -2 * z[i]) : g.boolean() ? cd(z[i], 1) : cd(1, z[i]);
  int64_t gotc = -1;
  cd rc = math::bilinear_interpolation(cd(a), cd(b), cd(d), cd(e), zc[0], zc[1], zc[2], zc[3], gotc);
  if (sw > 0) {
    c.check(gotc == n && close_to(rc.real(), r, 1e-12) && close_to(rc.imag(), -2 * r, 1e-12), "complex mean ", rc, " of ", gotc, " samples expected ", cd(r, -2 * r));
  } else
    c.check((std::isnan(rc.real()) || std::isnan(rc.imag())) && gotc == 0, "complex mean ", rc, " without any defined sample of some weight");
  c.nontrivial(p > 0 || (a > 0 && b > 0));
}

PBT_PROP(grid, 2) {
  size_t nx = g.size(1, 9), ny = g.size(1, 9);
  bool row_major = g.boolean();
  std::unique_ptr<int[]> data(new int[nx * ny]);
  for (size_t i = 0; i < nx; ++i)
    for (size_t j = 0; j < ny; ++j) data[row_major ? i * ny + j : j * nx + i] = int(i * 100 + j);
  auto grid = fes::detail::Grid<int>(data.get(), nx, ny, row_major);
  c.note("grid ", nx, "x", ny, row_major ? " row major" : " column major");
  for (size_t i = 0; i < nx; ++i)
    for (size_t j = 0; j < ny; ++j)
      c.check(grid(Eigen::Index(i), Eigen::Index(j)) == int(i * 100 + j), "value (", i, ", ", j, ") is ", grid(Eigen::Index(i), Eigen::Index(j)));
  c.check(grid.nx() == nx && grid.ny() == ny && grid.size() == nx * ny, "size of the grid");
  c.nontrivial(nx != ny);
}

PBT_MAIN
