// C09: axis lookup.
#include "common.hpp"

struct AxisCase {
  std::vector<double> points;    // given to the constructor
  std::vector<double> unwrapped; // regular progression
  double step;
  bool flag;      // circular requested
  bool circular;  // covers the circle (and requested)
  bool exact;     // dyadic values: no rounding
  size_t n() const { return points.size(); }
  double lo() const { return std::min(unwrapped.front(), unwrapped.back()); }
  double hi() const { return std::max(unwrapped.front(), unwrapped.back()); }
  std::string describe() const {
    std::ostringstream o;
    o.precision(17);
    o << "axis n=" << n() << " first=" << points.front() << " last=" << points.back() << " step=" << step << " flag=" << flag
      << " circular=" << circular << " points=" << pbt::str(points, 12);
    return o.str();
  }
};

static AxisCase gen_axis(Gen& g) {
  AxisCase a;
  auto kind = g.weighted({3, 3, 3, 2});
  a.flag = kind >= 2 || g.boolean(0.2);
  a.circular = false;
  size_t n;
  double start, step;
  if (kind == 0) {  // dyadic regional
    n = g.size(2, 40);
    step = g.pick({1.0, 0.5, 0.25, 0.125, 2.0, 3.0, 0.0625});
    start = double(g.integer(-180, 360)) + 0.25 * double(g.integer(0, 3));
    a.exact = true;
  } else if (kind == 1) {  // any regional
    n = g.size(2, 300);
    step = g.boolean() ? g.pick({0.1, 1.0 / 3, 0.3, 0.7, 1.0 / 30, 0.05, 1e-3, 12.34}) : g.uniform(1e-3, 5);
    start = g.boolean() ? double(g.integer(-180, 180)) : g.uniform(-360, 360);
    a.exact = false;
  } else if (kind == 2) {  // the circle
    n = g.boolean() ? g.pick({4, 8, 12, 36, 72, 360, 3, 24, 1440}) : g.size(3, 720);
    step = 360.0 / double(n);
    start = g.boolean(0.6) ? g.pick({0.0, -180.0, 180.0, 0.5 * step - 180, -90.0, 0.5 * step, 5.0}) : g.uniform(-360, 360);
    a.exact = step * 1024 == std::floor(step * 1024) && start * 1024 == std::floor(start * 1024);
    a.circular = true;
  } else {  // nearly the circle, or regional given as circular
    n = g.size(3, 60);
    step = g.boolean() ? 360.0 / double(n) * (1 + g.pick({1e-3, -1e-3, 0.01, -0.3})) : 1.0;
    if (std::fabs(step) * double(n) > 400) step = 1.0;
    start = double(g.integer(-180, 180));
    a.exact = step == 1.0;
    if (step == 1.0 && n == 360) a.circular = true;
  }
  // several cells around the circle would not be an axis of longitudes
  if (a.flag && (double(n) - 1) * step > 360.5) n = size_t(360 / step) < 2 ? 2 : size_t(360 / step);
  if (kind == 1 && a.flag && std::fabs(step * double(n) - 360) < 1e-3) Case::discard();
  if (kind == 0 && a.flag && step * double(n) == 360) a.circular = true;
  if (kind == 3 && !a.circular && std::fabs(step * double(n) - 360) < 1e-3) Case::discard();
  for (size_t i = 0; i < n; ++i) a.unwrapped.push_back(double(ref::ld(start) + ref::ld(i) * ref::ld(step)));
  if (g.boolean(0.35)) {
    std::reverse(a.unwrapped.begin(), a.unwrapped.end());
    step = -step;
  }
  a.step = step;
  a.points = a.unwrapped;
  if (a.flag && n > 2 && step * double(n) <= 360.0 + 1e-6 && g.boolean(0.4)) {  // a conventional range of longitudes, crossed once
    double m = g.pick({-180.0, 0.0});
    for (auto& x : a.points) {
      while (x >= m + 360) x -= 360;
      while (x < m) x += 360;
    }
    if (g.boolean(0.3) && m == -180.0)
      for (auto& x : a.points)
        if (x == -180.0) x = 180.0;
  }
  return a;
}
static fes::Axis from_state(const std::string& s) { return fes::Axis::setstate(fes::string_view(s.data(), s.size())); }
static fes::Axis build(const AxisCase& a) {
  Eigen::VectorXd v(Eigen::Index(a.n()));
  for (size_t i = 0; i < a.n(); ++i) v(Eigen::Index(i)) = a.points[i];
  return fes::Axis(v, 1e-6, a.flag);
}
static double congruent_distance(double a, double b, bool modulo) {
  return modulo ? std::fabs(std::remainder(a - b, 360.0)) : std::fabs(a - b);
}

static void check_lookup(Case& c, const AxisCase& a, const fes::Axis& axis, double x, const char* what) {
  double eps = 1e-9 * std::fabs(a.step) + 1e-12 + 4e-16 * std::fabs(x);
  int64_t n = int64_t(a.n());
  auto r = axis.find_indices(x);
  double first = axis(0);
  // position along the axis, in steps (long double, from the declared progression)
  ref::ld pos = (ref::ld(x) - ref::ld(first)) / ref::ld(a.step);
  ref::ld span = a.circular ? ref::ld(n) : 0;
  if (a.circular) pos = pos - floorl(pos / span) * span;
  double e = eps / std::fabs(a.step);
  bool inside = a.circular || (pos >= -e && pos <= n - 1 + e);
  bool surely_inside = a.circular || (pos >= e && pos <= n - 1 - e);
  bool end_point = !a.circular && (x == a.unwrapped.front() || x == a.unwrapped.back());
  if (!inside) {
    c.check(!r, what, " ", x, " is outside the axis but lies between ", std::get<0>(*r), " and ", std::get<1>(*r));
    c.label("outside");
  }
  if (surely_inside || end_point) c.check(bool(r), what, " ", x, " is on the axis (position ", double(pos), " of ", n, ") but was not found");
  if (r) {
    int64_t i, j;
    std::tie(i, j) = *r;
    c.check(i >= 0 && i < n && j >= 0 && j < n, what, " indexes out of range ", i, " ", j);
    int64_t d = std::llabs(i - j);
    bool wrap = a.circular && d == n - 1;
    c.check(d == 1 || wrap, what, " ", x, ": the points ", i, " and ", j, " are not consecutive");
    // brackets: the distances to the two points add up to the step
    auto away = [&](int64_t k) {
      ref::ld t = fabsl(pos - ref::ld(k));
      if (a.circular) t = std::min(t, span - t);
      return t;
    };
    ref::ld s = away(i) + away(j);
    c.check(s <= 1 + 2 * e, what, " ", x, " at position ", double(pos), " is not between the points ", i, " (", axis(i), ") and ", j, " (", axis(j), ")");
    if (wrap) c.label("wrap cell");
  }
  // nearest index
  auto k = axis.find_index(x, false), kb = axis.find_index(x, true);
  c.check(kb >= 0 && kb < n, "bounded index out of range: ", kb);
  c.check(k >= -1 && k < n, "index out of range: ", k);
  if (k != -1) {
    c.check(k == kb, "bounded and unbounded indexes differ: ", k, " ", kb);
    ref::ld t = fabsl(pos - ref::ld(k));
    if (a.circular) t = std::min(t, span - t);
    c.check(t <= 0.5L + e, what, " ", x, ": the nearest point is not ", k, " (position ", double(pos), ")");
  } else {
    // past an end of the axis
    c.check(a.circular ? (pos > n - 1 - e || pos < e) : (pos <= -0.5L + e || pos >= n - 0.5L - e), what, " ", x, " position ", double(pos), " has no nearest point");
    if (!a.circular) {
      c.check(kb == (pos < 0 ? 0 : n - 1), "bounded index of a coordinate out of the axis: ", kb);
    } else
      c.check(kb == 0 || kb == n - 1, "bounded index of a coordinate between the last and first points: ", kb);
  }
}

PBT_PROP(lookup, 10) {
  auto a = gen_axis(g);
  c.note(a.describe());
  auto axis = build(a);
  int64_t n = int64_t(a.n());
  double scale = std::fabs(a.step) * double(n) + std::fabs(a.points[0]) + 1;
  c.check(axis.size() == n, "size ", axis.size());
  c.check(axis.is_circular() == a.circular, "circular: ", axis.is_circular());
  c.check(axis.is_ascending() == (a.step > 0), "ascending: ", axis.is_ascending());
  c.check(std::fabs(axis.step() - a.step) < 1e-12 * scale, "step ", axis.step(), " expected ", a.step);
  c.check(axis.start() == axis(0) && axis.end() == axis(n - 1), "start/end");
  c.check(axis.min_value() == std::min(axis(0), axis(n - 1)) && axis.max_value() == std::max(axis(0), axis(n - 1)), "min/max");
  c.check(axis.start() == a.points[0], "start ", axis.start(), " expected ", a.points[0]);
  for (int64_t i = 0; i < n; ++i) {
    c.check(congruent_distance(axis(i), a.points[size_t(i)], a.flag) < 1e-12 * scale, "point ", i, " is ", axis(i), " not ", a.points[size_t(i)]);
    if (a.exact) c.check(axis(i) - axis(0) == a.unwrapped[size_t(i)] - a.unwrapped[0], "point ", i, " is ", axis(i));
    c.check(axis.find_index(axis(i), false) == i && axis.find_index(axis(i), true) == i, "find_index of point ", i, " is ", axis.find_index(axis(i), false));
  }
  for (int64_t bad : {int64_t(-1), n, n + 5, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()}) {
    bool thrown = false;
    try {
      (void)axis(bad);
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    c.check(thrown, "index ", bad, " accepted");
  }
  double shift = axis.start() - a.unwrapped[0];  // the wrapped axis may start elsewhere
  auto b = a;
  for (auto& x : b.unwrapped) x += shift;
  // end points and some nodes, as given
  if (shift == 0 && a.points == a.unwrapped) {
    check_lookup(c, b, axis, b.unwrapped.front(), "first point");
    check_lookup(c, b, axis, b.unwrapped.back(), "last point");
  }
  check_lookup(c, b, axis, axis(0), "first node");
  check_lookup(c, b, axis, axis(n - 1), "last node");
  auto restored = from_state(axis.getstate());
  c.check(restored == axis && restored.getstate() == axis.getstate(), "the restored axis differs");
  // equal to the axes of the same points only
  auto differs = [&](double start, double step, int64_t size, bool flag, const char* what) {
    if (size < 2) return;
    Eigen::VectorXd v(size);
    for (int64_t i = 0; i < size; ++i) v(i) = start + double(i) * step;
    fes::Axis o(v, 1e-6, flag);
    c.check(!(o == axis) && !(axis == o), "equal to an axis of another ", what);
  };
  bool flag = a.circular;
  differs(axis.start() + 0.25 * axis.step(), axis.step(), n, flag, "start");
  differs(axis.start(), axis.step(), n - 1, false, "size");
  differs(axis.start(), 0.75 * axis.step(), n, false, "step");
  differs(axis.end(), -axis.step(), n, flag, "direction");
  if (a.circular) differs(axis.start(), axis.step(), n, false, "topology");
  for (int q = 0; q < 10; ++q) {
    double x;
    switch (g.weighted({4, 2, 2, 1, 1})) {
      case 0: x = g.real(b.lo(), b.hi()); break;
      case 1: {
        x = axis(g.integer(0, n - 1));
        if (g.boolean()) x = std::nextafter(x, g.boolean() ? 1e9 : -1e9);
        break;
      }
      case 2: x = g.uniform(b.lo() - 3 * std::fabs(a.step), b.hi() + 3 * std::fabs(a.step)); break;
      case 3: x = axis(g.integer(0, n - 1)) + 0.5 * a.step; break;
      default: x = g.uniform(-720, 720);
    }
    if (a.circular && g.boolean(0.4)) x += 360.0 * double(g.integer(-3, 3));
    check_lookup(c, b, axis, x, "coordinate");
    auto r = axis.find_indices(x), s = restored.find_indices(x);
    c.check(r == s, "the restored axis answers otherwise");
    c.check(restored.find_index(x) == axis.find_index(x), "the restored axis finds another index");
    if (a.circular) {
      double y = x + 360.0 * double(g.integer(-3, 3));
      auto t = axis.find_indices(y);
      c.check(bool(t), "not found 360 degrees apart");
      ref::ld pos = (ref::ld(x) - ref::ld(axis(0))) / ref::ld(a.step);
      if ((a.exact && y - x == std::round((y - x) / 360) * 360) || fabsl(pos - roundl(pos)) > 1e-9L) {
        // rounding may fall on either side of the half cell, giving the pair in the other order
        auto p = std::minmax(std::get<0>(*r), std::get<1>(*r)), q2 = std::minmax(std::get<0>(*t), std::get<1>(*t));
        auto exact_node = fabsl(pos - roundl(pos)) <= 1e-9L;
        if (!exact_node || x == std::round(x * 1024) / 1024)
          c.check(p == q2, x, " and ", y, " are found in different cells: (", p.first, ", ", p.second, ") (", q2.first, ", ", q2.second, ")");
      }
    }
  }
  c.label(a.circular ? "circular" : a.flag ? "regional given as circular" : "not circular");
  if (a.points != a.unwrapped) c.label("wrapped longitudes");
  c.nontrivial(n > 2);
}

// the tolerance on the length of the circle
PBT_PROP(tolerance, 1) {
  double tolerance = g.pick({1e-3, 1e-5, 1e-6, 1e-8, 1e-10}), ratio = g.pick({0.0, 0.1, -0.1, 0.4, -0.4, 1000.0, -1000.0, 5000.0, -5000.0});
  size_t n = g.size(3, 400);
  double gap = ratio * tolerance, step = (360 + gap) / double(n), start = g.pick({0.0, -180.0, g.uniform(-360, 360)});
  if (std::fabs(gap) > 60) Case::discard();
  if (g.boolean(0.3)) {
    start += step * double(n - 1);
    step = -step;
  }
  Eigen::VectorXd v(Eigen::Index{int64_t(n)});
  for (size_t i = 0; i < n; ++i) v(Eigen::Index(i)) = double(ref::ld(start) + ref::ld(i) * ref::ld(step));
  bool circular = std::fabs(ratio) < 1;
  c.note(n, " points from ", start, " by ", step, ", tolerance ", tolerance, ", ", gap, " from the circle");
  fes::Axis axis(v, tolerance, true);
  c.check(axis.is_circular() == circular, n, " points from ", start, " by ", step, ", ", gap, " away from the circle, with the tolerance ", tolerance, circular ? ", are not" : ", are", " a circle");
  c.check(!fes::Axis(v, tolerance, false).is_circular(), "a circle nobody asked for");
  // the last cell
  double x = v(Eigen::Index(n - 1)) + 0.5 * step;
  c.check(bool(axis.find_indices(x)) == circular, "after the last point, ", x, " is ", circular ? "not found" : "found");
  c.nontrivial(ratio != 0);
}

PBT_PROP(not_finite, 1) {
  auto a = gen_axis(g);
  auto axis = build(a);
  auto inf = std::numeric_limits<double>::infinity();
  double x = g.pick({std::numeric_limits<double>::quiet_NaN(), inf, -inf, 1e300, -1e300, 1e19, -1e19});
  c.note(a.describe(), " coordinate ", x);
  auto r = axis.find_indices(x);
  if (!std::isfinite(x) || !a.circular)
    c.check(!r, "the coordinate ", x, " was found at ", std::get<0>(*r), " ", std::get<1>(*r));
  else
    c.check(bool(r) && std::get<0>(*r) >= 0 && std::get<0>(*r) < axis.size() && std::get<1>(*r) >= 0 && std::get<1>(*r) < axis.size(), "not found on the circle");
  auto k = axis.find_index(x, false), kb = axis.find_index(x, true);
  c.check(k >= -1 && k < axis.size() && kb >= 0 && kb < axis.size(), "index out of range ", k, " ", kb);
  if (!std::isfinite(x) || !a.circular) c.check(k == -1, "nearest index of ", x, " is ", k);
  if (!a.circular && !std::isnan(x)) {
    bool low = (x < 0) == (a.step > 0);
    c.check(kb == (low ? 0 : axis.size() - 1), "bounded index of ", x, " is ", kb);
  }
  c.nontrivial();
}

PBT_PROP(rejected, 2) {
  auto a = gen_axis(g);
  auto kind = g.raw(4);
  auto v = a.points;
  if (kind == 0) {
    v.resize(g.size(0, 1));
  } else if (kind == 1) {  // one point displaced
    if (v.size() < 3) Case::discard();
    auto k = g.size(1, v.size() - 2);
    double by = std::fabs(a.step) * g.pick({0.1, -0.1, 0.45, -0.45, 0.02, 1e-3, -1e-4, 1e-4, -2e-5});
    v[k] += std::copysign(std::max(std::fabs(by), 1e-5), by);  // the tolerance is 1e-6
    if (std::fabs(a.step) < 1e-2) Case::discard();
  } else if (kind == 2) {
    auto inf = std::numeric_limits<double>::infinity();
    v[g.size(0, v.size() - 1)] = g.pick({inf, -inf, std::numeric_limits<double>::quiet_NaN()});
  } else if (kind == 3) {  // constant, or two equal points
    if (g.boolean() || v.size() < 3)
      for (auto& x : v) x = v[0];
    else {
      auto k = g.size(1, v.size() - 1);
      v[k] = v[k - 1];
    }
    if (std::fabs(a.step) < 1e-2) Case::discard();
  } else {  // two points swapped
    if (v.size() < 4) Case::discard();
    auto k = g.size(1, v.size() - 3);
    std::swap(v[k], v[k + 1]);
    if (std::fabs(a.step) < 1e-2) Case::discard();
  }
  c.note("kind ", kind, " flag ", a.flag, " ", pbt::str(v, 20));
  Eigen::VectorXd e(Eigen::Index(v.size()));
  for (size_t i = 0; i < v.size(); ++i) e(Eigen::Index(i)) = v[i];
  bool thrown = false;
  try {
    fes::Axis axis(e, 1e-6, a.flag);
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  c.check(thrown, "an irregular axis was accepted");
  c.nontrivial(kind > 0);
}

PBT_MAIN
