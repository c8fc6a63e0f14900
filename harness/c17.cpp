// C17: tide synthesis and nodal modulations of a table.
#include <atomic>
#include <thread>

#include "common.hpp"
using ref::ld;
using fes::angle::Astronomic;
using fes::wave::Table;

static std::atomic<unsigned> g_processors{4};
unsigned int std::thread::hardware_concurrency() noexcept { return g_processors; }

struct Setup {
  std::vector<std::string> asked, names;  // names in the order of the table
  std::vector<double> epoch;
  std::vector<uint16_t> leap;
  ref::Formulae formulae;
  Eigen::MatrixXcd mapping;  // waves x points
  double scale;
};

static Setup gen_setup(Gen& g, size_t max_dates) {
  Setup s;
  s.asked = gen_names(g, 8);
  if (g.boolean(0.03)) s.asked = all_names();
  s.names = Table(s.asked).constituents();
  s.formulae = gen_formulae(g);
  size_t nt = g.size(0, max_dates);
  for (size_t i = 0; i < nt; ++i) {
    if (i && g.boolean(0.25)) {  // the same date, with the same leap seconds or not
      auto k = g.size(0, i - 1);
      s.epoch.push_back(s.epoch[k] + (g.boolean(0.3) ? 1 : 0));
      s.leap.push_back(g.boolean() ? s.leap[k] : gen_leap(g));
      continue;
    }
    s.epoch.push_back(gen_epoch(g));
    s.leap.push_back(gen_leap(g));
  }
  if (max_dates > 4 && g.boolean(0.002)) {  // long
    double e0 = gen_epoch(g), step = g.pick({3600.0, 600.0, 86400.0, -3600.0});
    auto leap = gen_leap(g);
    for (int i = g.pick({1025, 3000, 300}); i > 0; --i) {
      s.epoch.push_back(e0 + step * i);
      s.leap.push_back(leap);
    }
  }
  size_t np = g.size(0, g.boolean(0.1) ? 40 : 6);
  if (g.boolean(0.002)) np = g.pick({size_t(1025), size_t(5000), size_t(300)});
  s.mapping.resize(Eigen::Index(s.names.size()), Eigen::Index(np));
  Bulk b(g);
  s.scale = std::pow(10.0, g.uniform(-3, 3));
  double zero = g.pick({0.0, 0.2, 0.9});
  for (Eigen::Index i = 0; i < s.mapping.rows(); ++i)
    for (Eigen::Index j = 0; j < s.mapping.cols(); ++j) {
      cd z(b.uniform(-s.scale, s.scale), b.uniform(-s.scale, s.scale));
      if (b.unit() < zero) z = 0;
      if (b.unit() < 0.01) {  // missing: either part, or both
        auto kind = b.next() % 3;
        z = {kind == 1 ? z.real() : std::nan(""), kind == 0 ? 0.0 : std::nan("")};
      }
      s.mapping(i, j) = z;
    }
  return s;
}
static std::string describe(const Setup& s) {
  return "table of " + std::to_string(s.names.size()) + " waves, " + std::to_string(s.epoch.size()) + " dates, " + std::to_string(s.mapping.cols()) + " points, " +
         formulae_name(s.formulae);
}
static Eigen::VectorXd epochs(const Setup& s) { return Eigen::Map<const Eigen::VectorXd>(s.epoch.data(), Eigen::Index(s.epoch.size())); }
static fes::Vector<uint16_t> leaps(const Setup& s) {
  return Eigen::Map<const fes::Vector<uint16_t>>(s.leap.data(), Eigen::Index(s.leap.size()));
}

// the corrections of every wave of the setup, in extended precision
struct Corrections {
  std::vector<ld> f, vu;
};
static Corrections corrections(const Setup& s, double epoch, uint16_t leap) {
  auto a = from_fes(Astronomic(to_fes(s.formulae), epoch, leap));
  Corrections r;
  for (auto& n : s.names) {
    auto& row = ref::row(n);
    r.f.push_back(ref::nodal_f_code(row, a));
    r.vu.push_back(ref::greenwich_v(row, a) + ref::nodal_u(row, a));
  }
  return r;
}
template <typename Col>
static ld harmonic_sum(const Corrections& k, const Col& x) {
  ld t = 0;
  for (size_t i = 0; i < k.f.size(); ++i) {
    cd z = x(Eigen::Index(i));
    t += k.f[i] * (z.real() * cosl(k.vu[i]) + z.imag() * sinl(k.vu[i]));
  }
  return t;
}
static bool near(double got, ld expected, const Setup& s) {
  return close_to(got, double(expected), s.scale * double(s.names.size() + 1) * 1e-10);
}

struct Memory {
  std::vector<const fes::Wave*> waves;
  std::vector<double> values;
  explicit Memory(const Table& t) {
    for (const auto& w : t) {
      waves.push_back(w.get());
      for (double x : {w->f(), w->u(), w->v(), w->tide().real(), w->tide().imag(), double(w->admittance()), double(w->dynamic()), w->freq()}) values.push_back(x);
    }
  }
  bool operator==(const Memory& o) const {
    if (waves != o.waves || values.size() != o.values.size()) return false;
    for (size_t i = 0; i < values.size(); ++i)
      if (!same_bits(values[i], o.values[i])) return false;
    return true;
  }
};

static void prepare(Gen& g, Table& t) {
  Bulk b(g);
  if (g.boolean(0.7)) t.compute_nodal_corrections(Astronomic(to_fes(gen_formulae(g)), gen_epoch(g), gen_leap(g)));
  if (g.boolean(0.7))
    for (const auto& w : t) w->tide({b.uniform(-1, 1), b.uniform(-1, 1)});
}

static Eigen::VectorXd row_sums(const Eigen::MatrixXd& m) {
  Eigen::VectorXd r(m.rows());
  for (Eigen::Index i = 0; i < m.rows(); ++i) {
    double t = 0;
    for (Eigen::Index j = 0; j < m.cols(); ++j) t += m(i, j);
    r(i) = t;
  }
  return r;
}

// one call and what it gives
struct Call {
  int kind;  // 0: modulations, 1: series, 2: mapping
  Setup s;
  size_t threads;
  Eigen::MatrixXd a, b;
  uint64_t layout{0};
};
static void run(Call& k, const Table& t) {
  switch (k.kind) {
    case 0: std::tie(k.a, k.b) = t.compute_nodal_modulations(epochs(k.s), leaps(k.s), to_fes(k.s.formulae)); break;
    case 1: {
      Eigen::VectorXcd x = k.s.mapping.cols() ? Eigen::VectorXcd(k.s.mapping.col(0)) : Eigen::VectorXcd::Constant(k.s.mapping.rows(), cd(0.5, -1));
      k.a = t.tide_from_tide_series(epochs(k.s), leaps(k.s), x, to_fes(k.s.formulae));
      break;
    }
    default: {
      double epoch = k.s.epoch.empty() ? 0 : k.s.epoch[0];
      uint16_t leap = k.s.leap.empty() ? 10 : k.s.leap[0];
      Laid<Eigen::MatrixXcd> m(k.s.mapping, k.layout);
      k.a = k.layout ? t.tide_from_mapping(epoch, leap, m.view(), to_fes(k.s.formulae), k.threads)
                     : t.tide_from_mapping(epoch, leap, k.s.mapping, to_fes(k.s.formulae), k.threads);
    }
  }
}
static void verify(Case& c, const Call& k) {
  auto& s = k.s;
  switch (k.kind) {
    case 0: {
      auto n = Eigen::Index(s.names.size()), nt = Eigen::Index(s.epoch.size());
      c.check(k.a.rows() == n && k.b.rows() == n && k.a.cols() == nt && k.b.cols() == nt, "modulations of ", k.a.rows(), "x", k.a.cols(), " for ", n, " waves, ", nt, " dates");
      for (Eigen::Index j = 0; j < nt; ++j) {
        auto e = corrections(s, s.epoch[size_t(j)], s.leap[size_t(j)]);
        for (Eigen::Index i = 0; i < n; ++i) {
          c.check(fabsl(k.a(i, j) - e.f[size_t(i)]) < 1e-10L, s.names[size_t(i)], " at ", s.epoch[size_t(j)], "+", s.leap[size_t(j)], ": node factor ", k.a(i, j), " expected ",
                  double(e.f[size_t(i)]));
          c.check(fabsl(ref::angdiff(k.b(i, j), e.vu[size_t(i)])) < 1e-10L, s.names[size_t(i)], " at ", s.epoch[size_t(j)], "+", s.leap[size_t(j)], ": v+u ", k.b(i, j),
                  " expected ", double(e.vu[size_t(i)]));
        }
      }
      break;
    }
    case 1: {
      c.check(size_t(k.a.rows()) == s.epoch.size() && k.a.cols() == 1, "tides ", k.a.rows(), "x", k.a.cols(), " for ", s.epoch.size(), " dates");
      Eigen::VectorXcd x = s.mapping.cols() ? Eigen::VectorXcd(s.mapping.col(0)) : Eigen::VectorXcd::Constant(s.mapping.rows(), cd(0.5, -1));
      for (size_t j = 0; j < s.epoch.size(); ++j) {
        ld e = harmonic_sum(corrections(s, s.epoch[j], s.leap[j]), x);
        c.check(near(k.a(Eigen::Index(j)), e, s) || (s.mapping.cols() == 0 && close_to(k.a(Eigen::Index(j)), double(e), 1e-8)), "date ", j, " ", s.epoch[j], "+", s.leap[j],
                ": tide ", k.a(Eigen::Index(j)), " expected ", double(e), ", waves ", pbt::str(s.names, 80));
      }
      break;
    }
    default: {
      double epoch = s.epoch.empty() ? 0 : s.epoch[0];
      uint16_t leap = s.leap.empty() ? 10 : s.leap[0];
      c.check(k.a.rows() == s.mapping.cols() && k.a.cols() == 1, "tides of ", k.a.rows(), " points for a mapping of ", s.mapping.cols());
      auto r = row_sums(k.a);
      auto e = corrections(s, epoch, leap);
      for (Eigen::Index p = 0; p < s.mapping.cols(); ++p) {
        ld t = harmonic_sum(e, s.mapping.col(p));
        c.check(near(r(p), t, s), "point ", p, " of ", s.mapping.cols(), ", date ", epoch, "+", leap, ", ", k.threads, " threads: tide ", r(p), " expected ", double(t),
                ", waves ", pbt::str(s.names, 80));
      }
    }
  }
}
static bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!same_bits(a.data()[i], b.data()[i])) return false;
  return true;
}
static Call gen_call(Gen& g, const Setup& s) {
  Call k;
  k.kind = int(g.raw(2));
  k.layout = g.boolean() ? g.raw(31) : 0;
  k.s = s;
  k.threads = g.size(0, 5);
  return k;
}
static Setup with_table(Gen& g, const Setup& first, size_t dates) {
  // other dates and constants for the same table
  auto s = gen_setup(g, dates);
  s.asked = first.asked;
  s.names = first.names;
  Bulk b(g);
  s.mapping.resize(Eigen::Index(s.names.size()), s.mapping.cols());
  for (Eigen::Index i = 0; i < s.mapping.size(); ++i) s.mapping.data()[i] = {b.uniform(-s.scale, s.scale), b.uniform(-s.scale, s.scale)};
  return s;
}

// calls one after the other with one table
PBT_PROP(sequence, 6) {
  g_processors = unsigned(g.integer(1, 6));
  auto s = gen_setup(g, 6);
  auto t = Table(s.asked);
  prepare(g, t);
  Memory before(t);
  const Table& ct = t;
  size_t n = g.size(1, 4);
  std::vector<Call> calls;
  for (size_t i = 0; i < n; ++i) {
    auto k = gen_call(g, i ? with_table(g, s, 6) : s);
    c.note("call ", k.kind, ": ", describe(k.s), ", ", k.threads, " threads");
    run(k, ct);
    verify(c, k);
    c.check(Memory(t) == before, "the call ", k.kind, " changes the table of the caller");
    calls.push_back(k);
  }
  // again, other numbers of threads, a new table
  auto k = calls[g.size(0, calls.size() - 1)];
  auto again = k;
  again.threads = g.size(0, 8);
  auto fresh = Table(s.asked);
  run(again, g.boolean() ? ct : fresh);
  c.check(same(k.a, again.a) && same(k.b, again.b), "the call ", k.kind, " gives other results the second time, ", k.threads, " and ", again.threads, " threads");
  c.nontrivial(!s.names.empty() && (!s.epoch.empty() || s.mapping.cols()));
}

// corrections computed before in the table do not matter, nor do its waves share anything with another table
PBT_PROP(two_tables, 2) {
  auto s = gen_setup(g, 4);
  auto t = Table(s.asked), o = Table(s.asked);
  prepare(g, t);
  prepare(g, o);
  Memory before_t(t), before_o(o);
  auto k = gen_call(g, s);
  c.note("call ", k.kind, ": ", describe(k.s));
  run(k, t);
  auto r = k;
  run(r, o);
  c.check(same(k.a, r.a) && same(k.b, r.b), "tables with other previous corrections give other results, call ", k.kind);
  c.check(Memory(t) == before_t && Memory(o) == before_o, "the call changes a table");
  c.nontrivial(!s.epoch.empty());
}

// several callers at the same time
PBT_PROP(concurrent, 3) {
  g_processors = unsigned(g.integer(1, 6));
  auto s = gen_setup(g, 12);
  auto t = Table(s.asked);
  prepare(g, t);
  Memory before(t);
  const Table& ct = t;
  size_t n = g.size(2, 4);
  std::vector<Call> calls;
  for (size_t i = 0; i < n; ++i) {
    calls.push_back(gen_call(g, i ? with_table(g, s, 12) : s));
    c.note("call ", calls.back().kind, ": ", describe(calls.back().s), ", ", calls.back().threads, " threads");
  }
  std::atomic<size_t> ready{0};
  std::vector<std::thread> callers;
  std::vector<std::string> errors(n);
  for (size_t i = 0; i < n; ++i)
    callers.emplace_back([&, i] {
      ++ready;
      while (ready < n) std::this_thread::yield();
      try {
        run(calls[i], ct);
      } catch (const std::exception& e) {
        errors[i] = e.what();
      }
    });
  for (auto& x : callers) x.join();
  for (auto& e : errors) c.check(e.empty(), "concurrent call: ", e);
  for (auto& k : calls) verify(c, k);
  c.check(Memory(t) == before, "concurrent calls change the table of the caller");
  c.nontrivial(!s.names.empty());
}

PBT_MAIN
