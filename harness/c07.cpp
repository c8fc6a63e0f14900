// C07: linearity in the model's complex amplitudes.
#include "model_case.hpp"

// integers over 64, exact in float as are their sums and simple multiples
static std::vector<std::vector<cd>> gen_values(Gen& g, const ModelCase& m) {
  Bulk b(g);
  auto z = m.data;
  for (auto& d : z)
    for (auto& v : d)
      if (std::isfinite(v.real()) && std::isfinite(v.imag())) v = {double(int(b.next() % 8193) - 4096) / 64, double(int(b.next() % 8193) - 4096) / 64};
  return z;
}
static std::vector<std::vector<cd>> combine(const std::vector<std::vector<cd>>& x, double a, const std::vector<std::vector<cd>>& y, double b) {
  auto r = x;
  for (size_t w = 0; w < x.size(); ++w)
    for (size_t k = 0; k < x[w].size(); ++k)
      if (std::isfinite(x[w][k].real()) && std::isfinite(x[w][k].imag())) r[w][k] = x[w][k] * a + y[w][k] * b;
  return r;
}

PBT_PROP(linear, 10) {
  Wanted w;
  w.max_names = 8;
  auto m = gen_model(g, w);
  auto f = gen_formulae(g);
  auto excluded = g.subset(m.names, g.boolean(0.3) ? 0.4 : 0.0);
  double tolerance = g.pick({0.0, 0.0, 600.0});
  Batch b;
  size_t n = m.mesh ? 1 : g.size(1, 5);
  for (size_t i = 0; i < n; ++i) {
    auto p = gen_point(g, m);
    b.push(gen_epoch(g), gen_leap(g), p.first, p.second);
  }
  auto x = gen_values(g, m), y = gen_values(g, m);
  double a1 = g.pick({2.0, 3.0, -1.0, 0.5, -7.0, 100.0, 0.0}), a2 = g.pick({1.0, -2.0, 0.0, 5.0, 0.25});
  c.note(m.describe(), " ", formulae_name(f), " factors ", a1, " ", a2, " excluded=", pbt::str(excluded), " points ", n);
  auto s = settings(f, tolerance, excluded);
  auto run = [&](const std::vector<std::vector<cd>>& d) {
    auto r = m;
    r.data = d;
    r.rebuild();
    return predict(r, b, s, 1);
  };
  auto zero = combine(x, 0, x, 0);
  auto p0 = run(zero), px = run(x), py = run(y), pc = run(combine(x, a1, y, a2)), ps = run(combine(x, a1, x, 0));
  for (size_t i = 0; i < n; ++i) {
    c.check(px.quality[i] == p0.quality[i] && py.quality[i] == p0.quality[i] && pc.quality[i] == p0.quality[i] && ps.quality[i] == p0.quality[i],
            "the quality depends on the values");
    // the equilibrium part
    c.check(std::isfinite(p0.lp[i]), "long period tide ", p0.lp[i]);
    if (m.type == fes::kRadial) c.check(p0.lp[i] == 0, "radial tide of null amplitudes: ", p0.lp[i]);
    if (p0.quality[i] == 0) {
      c.check(px.lp[i] == p0.lp[i] && py.lp[i] == p0.lp[i] && pc.lp[i] == p0.lp[i], "the equilibrium tide of an undefined point depends on the amplitudes");
      c.check(std::isnan(px.tide[i]) && std::isnan(pc.tide[i]) && std::isnan(p0.tide[i]), "tide of an undefined point");
      c.label("undefined");
      continue;
    }
    c.check(p0.tide[i] == 0, "tide of null amplitudes: ", p0.tide[i]);
    double scale = 64.0 * double(m.names.size() + 1) * 20 * (std::fabs(a1) + std::fabs(a2) + 1) + std::fabs(p0.lp[i]);
    double tol = 1e-11 * scale;
    auto lin = [&](double z, double u, double v) { return a1 * (u - z) + a2 * (v - z) + z; };
    c.check(std::fabs(ps.tide[i] - a1 * px.tide[i]) <= tol, "tide of ", a1, " times the amplitudes: ", ps.tide[i], " instead of ", a1 * px.tide[i]);
    c.check(std::fabs(ps.lp[i] - p0.lp[i] - a1 * (px.lp[i] - p0.lp[i])) <= tol, "long period of ", a1, " times the amplitudes: ", ps.lp[i] - p0.lp[i], " instead of ", a1 * (px.lp[i] - p0.lp[i]));
    c.check(std::fabs(pc.tide[i] - lin(0, px.tide[i], py.tide[i])) <= tol, "tide of the combination: ", pc.tide[i], " instead of ", lin(0, px.tide[i], py.tide[i]));
    c.check(std::fabs(pc.lp[i] - lin(p0.lp[i], px.lp[i], py.lp[i])) <= tol, "long period of the combination: ", pc.lp[i], " instead of ", lin(p0.lp[i], px.lp[i], py.lp[i]));
    c.label("defined");
  }
  // The contribution of a constituent does not depend on the others when no
  // minor wave is inferred from it: the sum over the constituents, each alone
  // with null values for the others, is the whole.
  std::vector<double> tide(n, 0), lp(n, 0);
  for (size_t k = 0; k < m.names.size() && m.names.size() <= 8; ++k) {
    auto d = zero;
    d[k] = x[k];
    auto p = run(d);
    for (size_t i = 0; i < n; ++i) {
      tide[i] += p.tide[i];
      lp[i] += p.lp[i] - p0.lp[i];
    }
  }
  if (m.names.size() <= 8)
    for (size_t i = 0; i < n; ++i) {
      if (p0.quality[i] == 0) continue;
      double tol = 1e-10 * (64.0 * double(m.names.size() + 1) * 20 + std::fabs(p0.lp[i]));
      c.check(std::fabs(tide[i] - px.tide[i]) <= tol, "sum of the tides of each constituent ", tide[i], " all at once ", px.tide[i]);
      c.check(std::fabs(lp[i] - (px.lp[i] - p0.lp[i])) <= tol, "sum of the long period tides of each constituent ", lp[i], " all at once ", px.lp[i] - p0.lp[i]);
    }
  c.label(m.mesh ? "mesh" : "grid");
  c.nontrivial(!m.names.empty());
}

// Amplitudes of any magnitude, multiplied by a power of two: nothing is rounded
PBT_PROP(magnitude, 4) {
  Wanted w;
  w.max_names = 6;
  auto m = gen_model(g, w);
  auto f = gen_formulae(g);
  double tolerance = g.pick({0.0, 0.0, 600.0});
  Batch b;
  size_t n = m.mesh ? 1 : g.size(1, 4);
  for (size_t i = 0; i < n; ++i) {
    auto p = gen_point(g, m);
    b.push(gen_epoch(g), gen_leap(g), p.first, p.second);
  }
  auto x = gen_values(g, m);
  int e = int(g.integer(-60, 20));
  double k = std::ldexp(1.0, e);
  c.note(m.describe(), " ", formulae_name(f), " factor 2^", e, " points ", n);
  auto s = settings(f, tolerance, {});
  auto run = [&](double a) {
    auto r = m;
    r.data = combine(x, a, x, 0);
    r.rebuild();
    return predict(r, b, s, 1);
  };
  auto p0 = run(0), px = run(1), pk = run(k);
  for (size_t i = 0; i < n; ++i) {
    c.check(px.quality[i] == p0.quality[i] && pk.quality[i] == p0.quality[i], "the quality depends on the values");
    if (p0.quality[i] == 0) continue;
    double scale = 64.0 * double(m.names.size() + 1) * 20;
    c.check(std::fabs(pk.tide[i] - k * px.tide[i]) <= 1e-12 * scale * k, "tide of 2^", e, " times the amplitudes: ", pk.tide[i], " instead of ", k * px.tide[i]);
    c.check(std::fabs(pk.lp[i] - p0.lp[i] - k * (px.lp[i] - p0.lp[i])) <= 1e-12 * scale * k + 1e-14 * (1 + k) * std::fabs(p0.lp[i]), "long period of 2^", e,
            " times the amplitudes: ", pk.lp[i] - p0.lp[i], " instead of ", k * (px.lp[i] - p0.lp[i]));
    c.label(e < -20 ? "tiny" : "ordinary");
    c.nontrivial(px.tide[i] != 0);
  }
}

PBT_MAIN
