// C16: harmonic analysis.
#include <Eigen/Dense>

#include "common.hpp"
using ref::ld;
using fes::wave::Table;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using CVec = Eigen::VectorXcd;
using MatL = Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic>;
using VecL = Eigen::Matrix<ld, Eigen::Dynamic, 1>;

struct Problem {
  Mat f, vu;
  std::string what;
  MatL H;  // 2n x nt
  double cond{0};
  void finish() {
    auto n = f.rows(), nt = f.cols();
    H.resize(2 * n, nt);
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < nt; ++j) {
        H(i, j) = f(i, j) * cosl(vu(i, j));
        H(n + i, j) = f(i, j) * sinl(vu(i, j));
      }
    Eigen::JacobiSVD<Mat> svd(H.cast<double>());
    auto sv = svd.singularValues();
    cond = nt < 2 * n || sv(sv.size() - 1) == 0 ? std::numeric_limits<double>::infinity() : sv(0) / sv(sv.size() - 1);
  }
  Vec signal(const CVec& x) const {
    Vec h(H.cols());
    auto n = f.rows();
    for (Eigen::Index j = 0; j < H.cols(); ++j) {
      ld s = 0;
      for (Eigen::Index i = 0; i < n; ++i) s += x(i).real() * H(i, j) + x(i).imag() * H(n + i, j);
      h(j) = double(s);
    }
    return h;
  }
};

static CVec gen_constants(Bulk& b, Eigen::Index n, double scale) {
  CVec x(n);
  for (Eigen::Index i = 0; i < n; ++i) x(i) = b.unit() < 0.1 ? cd(0) : cd(b.uniform(-scale, scale), b.uniform(-scale, scale));
  return x;
}

static std::vector<double> gen_times(Gen& g, size_t nt, double hours) {
  std::vector<double> t;
  Bulk b(g);
  double t0 = double(g.integer(-500000000, 1700000000));
  switch (g.raw(2)) {
    case 0:
      for (size_t j = 0; j < nt; ++j) t.push_back(t0 + std::floor(double(j) * hours * 3600 / double(nt)));
      break;
    case 1:  // irregular
      for (size_t j = 0; j < nt; ++j) t.push_back(t0 + b.uniform(0, hours * 3600));
      break;
    default: {  // with a gap
      double a = b.uniform(0.2, 0.5);
      for (size_t j = 0; j < nt; ++j) {
        double u = double(j) / double(nt);
        t.push_back(t0 + std::floor((u < 0.5 ? u * 2 * a : 1 - a * 2 * (1 - u)) * hours * 3600));
      }
    }
  }
  return t;
}

struct Waves {
  std::vector<std::string> names;  // in the order of the table
  Vec epoch;
  fes::Vector<uint16_t> leap;
  ref::Formulae formulae;
};

static Waves gen_waves(Gen& g, double& hours) {
  Waves w;
  hours = g.pick({40.0, 400.0, 3000.0, 9000.0, 30000.0});
  // waves separated by one turn at least over the period
  auto all = Table::select_waves_for_analysis(hours * 3600, g.pick({1.0, 2.0}));
  size_t n = g.size(1, 8);
  std::vector<std::string> names;
  for (size_t k = 0; k < 4 * n && names.size() < n && !all.empty(); ++k) {
    auto& name = g.pick(all);
    double f = Table::wave_factory(C(name))->freq();
    if (f == 0) continue;
    bool ok = true;
    for (auto& o : names) ok &= std::fabs(f - Table::wave_factory(C(o))->freq()) * hours > 2 * M_PI;
    if (ok) names.push_back(name);
  }
  if (names.empty()) names.push_back("M2");
  auto t = Table(names);
  w.names = t.constituents();
  size_t nt = 2 * names.size() + g.size(g.boolean(0.1) ? 0 : 6, 150);
  if (g.boolean(0.003)) nt = g.pick({size_t(1500), size_t(5000), size_t(9000)});
  auto times = gen_times(g, nt, hours);
  w.epoch = Eigen::Map<Vec>(times.data(), Eigen::Index(nt));
  w.leap = fes::Vector<uint16_t>::Constant(Eigen::Index(nt), uint16_t(g.integer(0, 37)));
  w.formulae = gen_formulae(g);
  return w;
}

static Problem gen_problem(Gen& g) {
  Problem p;
  if (g.boolean(0.5)) {
    double hours;
    auto w = gen_waves(g, hours);
    auto t = Table(w.names);
    std::tie(p.f, p.vu) = t.compute_nodal_modulations(w.epoch, w.leap, to_fes(w.formulae));
    p.what = pbt::str(w.names, 100) + " over " + std::to_string(hours) + " h, " + std::to_string(w.epoch.size()) + " samples";
  } else {
    auto n = Eigen::Index(g.size(1, 10));
    auto nt = 2 * n + Eigen::Index(g.size(0, 60));
    Bulk b(g);
    p.f.resize(n, nt);
    p.vu.resize(n, nt);
    double spread = g.pick({0.0, 0.3});
    double shift = g.pick({0.0, M_PI, 100.0});
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < nt; ++j) {
        p.f(i, j) = 1 + spread * b.uniform(-1, 1);
        p.vu(i, j) = b.uniform(-M_PI, M_PI) + shift;
      }
    p.what = std::to_string(n) + " waves, " + std::to_string(nt) + " random samples";
  }
  p.finish();
  return p;
}

// The two matrices are given in all the layouts accepted, according to the data.
static CVec analyse(const Vec& h, const Mat& f, const Mat& vu) {
  uint64_t k = 0;
  if (h.size() && f.size()) {
    double x = h(0) + f(0, 0);
    std::memcpy(&k, &x, sizeof(k));
    k = pbt::splitmix(k) >> 8;
  }
  if (k % 3 == 0) return Table::harmonic_analysis(h, f, vu);
  Laid<Mat> a(f, k), b(vu, k / 32);
  return Table::harmonic_analysis(h, a.view(), b.view());
}

static double max_diff(const CVec& a, const CVec& b) {
  double r = 0;
  for (Eigen::Index i = 0; i < a.size(); ++i) {
    double d = std::abs(a(i) - b(i));
    r = d <= r ? r : d;  // NaN stays
  }
  return r;
}

static double tolerance(const Problem& p, double scale) { return 1e-14 * double(p.H.cols() + 10) * p.cond * p.cond * scale; }

PBT_PROP(recovers, 6) {
  auto p = gen_problem(g);
  if (!(p.cond < 1e4)) Case::discard();
  Bulk b(g);
  double scale = std::pow(10.0, g.uniform(-4, 4));
  auto x = gen_constants(b, p.f.rows(), scale);
  c.note(p.what, ", condition ", p.cond, ", constants of ", scale);
  auto r = analyse(p.signal(x), p.f, p.vu);
  c.check(r.size() == x.size(), "constants ", r.size(), " for ", x.size(), " waves");
  for (Eigen::Index i = 0; i < x.size(); ++i)
    c.check(std::abs(r(i) - x(i)) <= tolerance(p, scale), "wave ", i, " is analysed as ", r(i), " expected ", x(i));
  c.nontrivial(x.size() > 1);
}

// whatever the signal, the constants are those of least squares
PBT_PROP(least_squares, 4) {
  auto p = gen_problem(g);
  if (!(p.cond < 1e4)) Case::discard();
  Bulk b(g);
  double scale = std::pow(10.0, g.uniform(-4, 4)), noise = scale * g.pick({0.01, 1.0, 10.0});
  auto x = gen_constants(b, p.f.rows(), scale);
  Vec h = p.signal(x);
  for (Eigen::Index j = 0; j < h.size(); ++j) h(j) += b.uniform(-noise, noise);
  c.note(p.what, ", condition ", p.cond, ", noise ", noise);
  auto r = analyse(h, p.f, p.vu);
  auto n = p.f.rows();
  VecL y(2 * n);
  for (Eigen::Index i = 0; i < n; ++i) {
    y(i) = r(i).real();
    y(n + i) = r(i).imag();
  }
  VecL residual = h.cast<ld>() - p.H.transpose() * y;
  VecL g2 = p.H * residual;
  ld hh = p.H.cwiseAbs().maxCoeff();
  for (Eigen::Index i = 0; i < 2 * n; ++i)
    c.check(fabsl(g2(i)) <= 1e-13L * ld(p.H.cols() + 10) * hh * hh * p.cond * p.cond * (scale + noise) * ld(n), "the residual is not orthogonal to the ",
            i < n ? "cosine" : "sine", " of wave ", i % n, ": ", double(g2(i)));
  // linearity
  auto x2 = gen_constants(b, n, scale);
  Vec h2 = p.signal(x2);
  double ka = g.uniform(-3, 3), kb = g.uniform(-3, 3);
  auto lhs = analyse(ka * h + kb * h2, p.f, p.vu);
  auto r2 = analyse(h2, p.f, p.vu);
  CVec rhs = ka * r + kb * r2;
  c.check(max_diff(lhs, rhs) <= 10 * tolerance(p, scale + noise), "the analysis of a combination differs from that of its terms by ", max_diff(lhs, rhs));
  // repeated
  c.check(max_diff(analyse(h, p.f, p.vu), r) == 0, "another analysis of the same signal differs");
  c.nontrivial(n > 1);
}

// prediction, then analysis, with the functions of a table
PBT_PROP(prediction, 3) {
  double hours;
  auto w = gen_waves(g, hours);
  auto t = Table(w.names);
  Problem p;
  std::tie(p.f, p.vu) = t.compute_nodal_modulations(w.epoch, w.leap, to_fes(w.formulae));
  p.finish();
  if (!(p.cond < 1e4)) Case::discard();
  Bulk b(g);
  double scale = std::pow(10.0, g.uniform(-3, 3));
  auto x = gen_constants(b, p.f.rows(), scale);
  c.note(pbt::str(w.names, 100), " over ", hours, " h, ", w.epoch.size(), " samples, ", formulae_name(w.formulae));
  Vec h = t.tide_from_tide_series(w.epoch, w.leap, x, to_fes(w.formulae));
  auto r = analyse(h, p.f, p.vu);
  for (Eigen::Index i = 0; i < x.size(); ++i)
    c.check(std::abs(r(i) - x(i)) <= 10 * tolerance(p, scale), "wave ", w.names[size_t(i)], " is analysed as ", r(i), " expected ", x(i));
  c.nontrivial(x.size() > 1);
}

// undefined data and inconsistent dimensions
PBT_PROP(defects, 3) {
  auto p = gen_problem(g);
  auto n = p.f.rows(), nt = p.f.cols();
  Bulk b(g);
  Vec h = p.signal(gen_constants(b, n, 1));
  if (g.boolean()) {
    size_t k = g.size(1, 3);
    bool inf = g.boolean(0.2);
    for (size_t i = 0; i < k; ++i) h(Eigen::Index(g.size(0, size_t(nt - 1)))) = inf ? std::numeric_limits<double>::infinity() : std::nan("");
    c.note(p.what, inf ? " infinite" : " undefined", " data");
    auto r = analyse(h, p.f, p.vu);
    c.check(r.size() == n, "constants ", r.size());
    for (Eigen::Index i = 0; i < n; ++i) {
      if (inf)
        c.check(!std::isfinite(r(i).real()) && !std::isfinite(r(i).imag()), "wave ", i, " is finite with infinite data: ", r(i));
      else
        c.check(std::isnan(r(i).real()) && std::isnan(r(i).imag()), "wave ", i, " is defined with undefined data: ", r(i));
    }
    c.label(inf ? "infinite" : "undefined");
  } else {
    // sizes off by one or more
    auto size = [&](Eigen::Index k) {
      if (g.boolean(0.5)) return k;
      auto d = Eigen::Index(g.size(1, 4));
      return g.boolean() ? k + d : std::max<Eigen::Index>(0, k - d);
    };
    Vec h1 = Vec::Constant(size(nt), 1);
    Mat f1 = Mat::Constant(size(n), size(nt), 1), vu1 = Mat::Constant(size(n), size(nt), 1);
    bool valid = f1.rows() == vu1.rows() && f1.cols() == vu1.cols() && f1.cols() == h1.size();
    c.note("h ", h1.size(), ", f ", f1.rows(), "x", f1.cols(), ", vu ", vu1.rows(), "x", vu1.cols());
    bool rejected = false;
    try {
      auto r = analyse(h1, f1, vu1);
      c.check(r.size() == f1.rows(), "constants ", r.size(), " for ", f1.rows(), " waves");
    } catch (const std::invalid_argument&) {
      rejected = true;
    }
    c.check(rejected == !valid, rejected ? "consistent dimensions are rejected" : "inconsistent dimensions are accepted");
    c.label(valid ? "valid sizes" : "invalid sizes");
  }
  c.nontrivial();
}

PBT_MAIN
