// C23: inconsistent arguments are rejected, valid ones are accepted.
#include <cctype>

#include "fes/string_view.hpp"
#include "fes/wave/table.hpp"
#include "model_case.hpp"
using fes::wave::Table;

// outcome of a call: "" if accepted, otherwise what was thrown
template <typename F>
static std::string outcome(F f) {
  try {
    f();
  } catch (const std::invalid_argument& e) {
    return std::string("invalid_argument: ") + e.what();
  } catch (const std::out_of_range& e) {
    return std::string("out_of_range: ") + e.what();
  }
  return "";
}

static Eigen::VectorXd gen_vector(Gen& g, size_t n, double lo, double hi) {
  Eigen::VectorXd r((Eigen::Index(n)));
  for (size_t i = 0; i < n; ++i) r(Eigen::Index(i)) = g.uniform(lo, hi);
  return r;
}
static fes::Vector<uint16_t> gen_leaps(Gen& g, size_t n) {
  fes::Vector<uint16_t> r((Eigen::Index(n)));
  for (size_t i = 0; i < n; ++i) r(Eigen::Index(i)) = uint16_t(g.integer(0, 40));
  return r;
}
// a size, often the same
static size_t other_size(Gen& g, size_t n) {
  switch (g.weighted({6, 1, 1, 1})) {
    case 0: return n;
    case 1: return g.size(0, 6);
    case 2: return n + 1;
    default: return n ? n - 1 : 1;
  }
}
static std::string gen_unknown_name(Gen& g) {
  std::string n;
  auto& known = all_names();
  switch (g.weighted({3, 2, 2, 1})) {
    case 0: n = g.pick(known) + g.pick({std::string("x"), std::string(" "), std::string("1"), std::string("_"), std::string(1, '\0')}); break;
    case 1:
      n = g.pick(known);
      n.erase(g.raw(n.size() - 1), 1);
      break;
    case 2:
      n = g.pick(known);
      n[g.raw(n.size() - 1)] = char(g.integer(32, 126));
      break;
    default:
      for (size_t k = g.size(0, 5); k > 0; --k) n += char(g.integer(1, 255));
  }
  auto fold = [](std::string s) {
    for (auto& ch : s) ch = char(std::tolower(static_cast<unsigned char>(ch)));
    return s;
  };
  for (auto& k : known)
    if (fold(k) == fold(n)) return "M2X";
  return n;
}
static std::string any_case(Gen& g, std::string s) {
  for (auto& ch : s)
    if (g.boolean(0.3)) ch = char(std::isupper(static_cast<unsigned char>(ch)) ? std::tolower(ch) : std::toupper(ch));
  return s;
}

template <typename T>
static std::string state_of(const fes::AbstractTidalModel<T>* m) {
  if (auto p = dynamic_cast<const fes::tidal_model::Cartesian<T>*>(m)) return p->getstate();
  if (auto p = dynamic_cast<const fes::tidal_model::LGP1<T>*>(m)) return p->getstate();
  if (auto p = dynamic_cast<const fes::tidal_model::LGP2<T>*>(m)) return p->getstate();
  return "?";
}
static std::string state_of(const ModelCase& m) { return m.single ? state_of(m.mf.get()) : state_of(m.md.get()); }

// --- evaluation of the tide -------------------------------------------------
PBT_PROP(evaluate, 6) {
  Wanted w;
  w.max_names = 4;
  auto m = gen_model(g, w);
  auto before = state_of(m);
  auto settings = fes::Settings(fes::angle::Formulae::kMeeus, 0.0, {});
  bool rejected = false, accepted = false;
  size_t calls = g.size(1, 4);
  for (size_t k = 0; k < calls; ++k) {
    size_t n = g.size(0, 4);
    size_t s[4] = {n, other_size(g, n), other_size(g, n), other_size(g, n)};
    if (g.boolean(0.4)) s[1] = s[2] = s[3] = n;
    auto epoch = gen_vector(g, s[0], 0, 2e9), lon = gen_vector(g, s[2], -180, 180), lat = gen_vector(g, s[3], -90, 90);
    auto leap = gen_leaps(g, s[1]);
    size_t threads = g.size(0, 3);
    c.note("sizes ", s[0], ", ", s[1], ", ", s[2], ", ", s[3], ", ", threads, " threads");
    std::tuple<Eigen::VectorXd, Eigen::VectorXd, fes::Vector<fes::Quality>> r;
    auto said = outcome([&] {
      r = m.single ? fes::evaluate_tide(m.mf.get(), epoch, leap, lon, lat, settings, threads) : fes::evaluate_tide(m.md.get(), epoch, leap, lon, lat, settings, threads);
    });
    bool agree = s[1] == n && s[2] == n && s[3] == n;
    c.check(agree == said.empty(), "sizes ", s[0], ", ", s[1], ", ", s[2], ", ", s[3], agree ? " are rejected: " : " are accepted", said);
    if (agree) {
      c.check(size_t(std::get<0>(r).size()) == n && size_t(std::get<1>(r).size()) == n && size_t(std::get<2>(r).size()) == n, "sizes of the results for ", n, " dates");
      // each as if it was asked alone
      for (size_t i = 0; i < n; ++i) {
        Batch b;
        auto e = Eigen::Index(i);
        b.push(epoch(e), leap(e), lon(e), lat(e));
        auto p = predict(m, b, settings);
        c.check(same_bits(p.tide[0], std::get<0>(r)(e)) && same_bits(p.lp[0], std::get<1>(r)(e)) && p.quality[0] == int(std::get<2>(r)(e)), "result ", i, " is ", std::get<0>(r)(e),
                ", alone ", p.tide[0]);
      }
      accepted = true;
    } else
      rejected = true;
  }
  // no model
  if (g.boolean(0.2)) {
    auto n = g.size(0, 3);
    auto v = gen_vector(g, n, 0, 50);
    auto leap = gen_leaps(g, n);
    size_t threads = g.size(0, 2);
    auto said = outcome([&] {
      if (m.single)
        fes::evaluate_tide(static_cast<const fes::AbstractTidalModel<float>*>(nullptr), v, leap, v, v, settings, threads);
      else
        fes::evaluate_tide(static_cast<const fes::AbstractTidalModel<double>*>(nullptr), v, leap, v, v, settings, threads);
    });
    c.check(!said.empty(), "the tide of no model at ", n, " dates is accepted");
    c.label("no model");
  }
  c.check(state_of(m) == before, "the calls change the model");
  if (rejected) c.label("rejected");
  if (accepted) c.label("accepted");
  c.nontrivial(rejected);
}

// --- constituents of a model ------------------------------------------------
template <typename T>
static void add(Case& c, Gen& g, ModelCase& m, fes::AbstractTidalModel<T>& model) {
  size_t n = m.mesh ? m.nodes.pos.size() : size_t(m.grid.nlon) * size_t(m.grid.nlat);
  size_t expected = n;
  if (m.mesh) {  // up to the last node in use
    int last = -1;
    for (auto& k : m.nodes.codes)
      for (int x : k) last = std::max(last, x);
    expected = size_t(last + 1);
  }
  bool rejected = false;
  size_t calls = g.size(1, 4);
  for (size_t k = 0; k < calls; ++k) {
    auto before = state_of(&model);
    size_t size = g.weighted({2, 1, 1, 1, 1}) == 0 ? expected : g.pick({size_t(0), size_t(1), expected - 1, expected + 1, expected * 2});
    bool known = g.boolean(0.6), by_name = !known || g.boolean();
    auto name = g.pick(all_names());
    auto asked = known ? any_case(g, name) : gen_unknown_name(g);
    fes::Vector<std::complex<T>> v((Eigen::Index(size)));
    for (size_t i = 0; i < size; ++i) v(Eigen::Index(i)) = std::complex<T>(T(i), T(1));
    auto copy = v;
    bool present = model.data().count(C(name)) != 0;
    auto said = outcome([&] {
      if (by_name)
        model.add_constituent(asked, std::move(v));
      else
        model.add_constituent(C(name), std::move(v));
    });
    bool valid = known && size == expected;
    c.note(by_name ? asked : name, " with ", size, " values of ", expected, said.empty() ? ": accepted" : ": rejected");
    c.check(valid == said.empty(), by_name ? asked : name, " with ", size, " values of ", expected, valid ? " is rejected: " : " is accepted", said);
    if (!valid) {
      rejected = true;
      c.check(state_of(&model) == before, "the rejected constituent ", asked, " changes the model");
    } else {
      c.check(model.data().count(C(name)) == 1, name, " is not in the model");
      if (!present) {
        auto& d = model.data().at(C(name));
        c.check(size_t(d.size()) == expected, "values of ", name);
        for (Eigen::Index i = 0; i < d.size(); ++i) c.check(d(i) == copy(i), "value ", i, " of ", name);
      }
    }
  }
  c.nontrivial(rejected);
}
PBT_PROP(constituents, 4) {
  Wanted w;
  w.max_names = 3;
  auto m = gen_model(g, w);
  c.note(m.describe());
  if (m.single)
    add(c, g, m, *m.mf);
  else
    add(c, g, m, *m.md);
  Batch b;
  auto p = gen_point(g, m);
  b.push(1e9, 30, p.first, p.second);
  predict(m, b, fes::Settings(fes::angle::Formulae::kMeeus, 0.0, {}));
}

PBT_PROP(names, 3) {
  auto n = gen_unknown_name(g);
  c.note("name '", n, "'");
  c.check(!outcome([&] { fes::constituents::parse(n); }).empty(), "the name '", n, "' is accepted");
  auto k = g.pick(all_names());
  auto v = any_case(g, k);
  Constituent id{};
  auto said = outcome([&] { id = fes::constituents::parse(v); });
  c.check(said.empty() && fes::constituents::name(id) == k, "the name '", v, "' of ", k, " is rejected ", said);
  int last = int(all_names().size());
  int number = int(g.integer(-1, 255));
  auto s2 = outcome([&] { fes::constituents::name(static_cast<Constituent>(number)); });
  c.check(s2.empty() == (number >= 0 && number < last), "constituent number ", number, s2.empty() ? " is accepted" : " is rejected: ", s2);
  auto s3 = outcome([&] { Table::wave_factory(static_cast<Constituent>(number)); });
  c.check(s3.empty() == (number >= 0 && number < last), "wave number ", number, s3.empty() ? " is accepted" : " is rejected: ", s3);
  c.nontrivial(true);
}

// --- wave tables ------------------------------------------------------------
static std::vector<cd> content(const Table& t) {
  std::vector<cd> r;
  for (size_t i = 0; i < t.size(); ++i) {
    r.push_back(t[i]->tide());
    r.push_back(cd(t[i]->f(), t[i]->vu()));
    r.push_back(cd(t[i]->admittance(), t[i]->dynamic()));
  }
  return r;
}

PBT_PROP(tables, 5) {
  // names
  std::vector<std::string> wanted = g.subset(all_names(), g.pick({0.02, 0.1, 0.5}));
  g.shuffle(wanted);
  std::vector<std::string> asked;
  for (auto& n : wanted) asked.push_back(g.boolean(0.3) ? any_case(g, n) : n);
  if (!asked.empty() && g.boolean(0.2)) asked.push_back(g.pick(asked));
  bool unknown = g.boolean(0.3);
  if (unknown) asked.insert(asked.begin() + long(g.raw(asked.size())), gen_unknown_name(g));
  c.note("waves ", pbt::str(asked, 80));
  std::unique_ptr<Table> made;
  auto said = outcome([&] { made.reset(new Table(asked)); });
  c.check(unknown != said.empty(), "waves ", pbt::str(asked, 80), unknown ? " are accepted" : " are rejected: ", said);
  if (!made) {
    c.nontrivial(true);
    return;
  }
  auto& t = *made;
  std::set<std::string> set(wanted.begin(), wanted.end());
  if (asked.empty()) set.insert(all_names().begin(), all_names().end());
  c.check(t.size() == set.size() && t.constituents().size() == set.size(), "table of ", t.size(), " waves for ", pbt::str(asked, 80));
  for (auto& n : t.constituents()) c.check(set.count(n) == 1, "wave ", n, " in the table of ", pbt::str(asked, 80));
  // access
  auto n = t.size();
  t.compute_nodal_corrections(fes::angle::Astronomic(fes::angle::Formulae::kMeeus, g.uniform(0, 2e9), 30));
  const auto before = content(t);
  for (int k = 0; k < 3; ++k) {
    size_t i = g.pick({n, n + 1, size_t(99), size_t(-1), size_t(1) << 32, size_t(256), n + 256});
    auto s = outcome([&] { t[i]; });
    c.check(s.empty() == (i < n), "wave number ", i, " of ", n, s.empty() ? " is accepted" : " is rejected: ", s);
  }
  auto name = g.pick(all_names());
  auto bad = gen_unknown_name(g);
  c.check(!outcome([&] { t.find(bad); }).empty(), "the wave '", bad, "' is found");
  auto f = t.find(any_case(g, name));
  c.check((f != nullptr) == (set.count(name) == 1) && (!f || name == f->name()), "search of ", name);
  auto s = outcome([&] { static_cast<const Table&>(t)[C(name)]; });
  c.check(s.empty() == (set.count(name) == 1), name, s.empty() ? " is accepted" : " is rejected: ", s);
  // sizes
  size_t dates = g.size(0, 5);
  bool rejected = false;
  size_t calls = g.size(1, 4);
  for (size_t k = 0; k < calls; ++k) {
    size_t leaps = other_size(g, dates), rows = other_size(g, n), samples = other_size(g, dates), cols = g.boolean(0.2) ? other_size(g, dates) : dates;
    auto epoch = gen_vector(g, dates, 0, 2e9);
    auto leap = gen_leaps(g, leaps);
    auto formulae = g.pick({fes::angle::Formulae::kMeeus, fes::angle::Formulae::kSchuremanOrder1, fes::angle::Formulae::kSchuremanOrder3});
    switch (g.raw(3)) {
      case 0: {
        std::tuple<Eigen::MatrixXd, Eigen::MatrixXd> r;
        auto w = outcome([&] { r = t.compute_nodal_modulations(epoch, leap, formulae); });
        c.note("modulations of ", dates, " dates and ", leaps, " leap seconds");
        c.check(w.empty() == (dates == leaps), "modulations of ", dates, " dates and ", leaps, " leap seconds ", w.empty() ? "are accepted" : w);
        rejected |= dates != leaps;
        if (w.empty())
          c.check(size_t(std::get<0>(r).rows()) == n && size_t(std::get<0>(r).cols()) == dates && size_t(std::get<1>(r).rows()) == n && size_t(std::get<1>(r).cols()) == dates,
                  "size of the modulations of ", n, " waves and ", dates, " dates");
        break;
      }
      case 1: {
        Eigen::VectorXcd wave = Eigen::VectorXcd::Constant(Eigen::Index(rows), cd(1, -1));
        Eigen::VectorXd r;
        auto w = outcome([&] { r = t.tide_from_tide_series(epoch, leap, wave, formulae); });
        bool ok = dates == leaps && rows == n;
        c.note("series of ", dates, " dates, ", leaps, " leap seconds, ", rows, " waves of ", n);
        c.check(w.empty() == ok, "series of ", dates, " dates, ", leaps, " leap seconds, ", rows, " waves of ", n, w.empty() ? " is accepted " : w);
        rejected |= !ok;
        if (ok) c.check(size_t(r.size()) == dates, "size of the series");
        break;
      }
      case 2: {
        Eigen::MatrixXcd wave = Eigen::MatrixXcd::Constant(Eigen::Index(rows), Eigen::Index(cols), cd(1, -1));
        Eigen::MatrixXd r;
        auto w = outcome([&] { r = t.tide_from_mapping(1e9, 30, wave, formulae, g.size(0, 3)); });
        bool ok = rows == n;
        c.note("mapping of ", cols, " points, ", rows, " waves of ", n);
        c.check(w.empty() == ok, "mapping of ", cols, " points, ", rows, " waves of ", n, w.empty() ? " is accepted " : w);
        rejected |= !ok;
        if (ok) c.check(size_t(r.size()) == cols, "size of the mapping");
        break;
      }
      default: {
        size_t rows2 = g.boolean(0.7) ? rows : other_size(g, rows), cols2 = g.boolean(0.7) ? cols : other_size(g, cols);
        Eigen::VectorXd h = gen_vector(g, samples, -1, 1);
        Eigen::MatrixXd a = Eigen::MatrixXd::Ones(Eigen::Index(rows), Eigen::Index(cols)), b = Eigen::MatrixXd::Ones(Eigen::Index(rows2), Eigen::Index(cols2));
        Eigen::VectorXcd r;
        auto w = outcome([&] { r = Table::harmonic_analysis(h, a, b); });
        bool ok = rows == rows2 && cols == cols2 && cols == samples;
        c.note("analysis of ", samples, " samples with ", rows, "x", cols, " and ", rows2, "x", cols2);
        c.check(w.empty() == ok, "analysis of ", samples, " samples with ", rows, "x", cols, " and ", rows2, "x", cols2, w.empty() ? " is accepted" : w);
        rejected |= !ok;
        if (ok) c.check(size_t(r.size()) == rows, "size of the analysis");
      }
    }
  }
  auto after = content(t);
  bool same = after.size() == before.size();
  for (size_t i = 0; same && i < after.size(); ++i) same = same_bits(after[i].real(), before[i].real()) && same_bits(after[i].imag(), before[i].imag());
  c.check(same, "the calls change the table");
  c.nontrivial(rejected);
}

// --- axes -------------------------------------------------------------------
PBT_PROP(axes, 3) {
  size_t n = g.size(0, 7);
  bool circular = g.boolean(0.4);
  double start = double(g.integer(-180, 180)), step = double(g.pick({1, 5, 10, -1, -5}));
  Eigen::VectorXd v((Eigen::Index(n)));
  for (size_t i = 0; i < n; ++i) v(Eigen::Index(i)) = start + double(i) * step;
  bool even = true;
  if (n > 2 && g.boolean(0.4)) {
    auto k = Eigen::Index(g.size(0, n - 1));
    switch (g.raw(3)) {
      case 0: v(k) += step * g.pick({0.5, -0.5, 0.01}); break;
      case 1: v(k) = std::nan(""); break;
      case 2: v(k) = std::numeric_limits<double>::infinity(); break;
      default: v(k) = v(k == 0 ? 1 : k - 1);
    }
    even = false;
  } else if (n == 2 && g.boolean(0.3)) {
    v(1) = g.boolean() ? v(0) : std::nan("");
    even = false;
  }
  std::unique_ptr<fes::Axis> axis;
  auto said = outcome([&] { axis.reset(new fes::Axis(v, 1e-6, circular)); });
  bool valid = n >= 2 && even;
  std::ostringstream values;
  values << v.transpose();
  c.note("axis ", values.str(), circular ? " circular" : "");
  c.check(valid == said.empty(), "the axis ", values.str(), valid ? " is rejected: " : " is accepted", said);
  if (axis) {
    c.check(size_t(axis->size()) == n, "size of the axis");
    for (int64_t i : {int64_t(-1), int64_t(n), int64_t(n) + 1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), int64_t(1) << 32}) {
      auto s = outcome([&] { (*axis)(i); });
      c.check(!s.empty(), "the axis of ", n, " values has a value ", i);
    }
    for (int64_t i = 0; i < int64_t(n); ++i) c.check(outcome([&] { (*axis)(i); }).empty(), "the value ", i, " is rejected");
  }
  c.nontrivial(!valid);
}

// --- meshes -----------------------------------------------------------------
PBT_PROP(meshes, 4) {
  auto m = gen_mesh(g, 3);
  int fault = int(g.weighted({2, 1, 1, 1, 1, 1}));
  Eigen::VectorXd lon = to_eigen(m.lon), lat = to_eigen(m.lat);
  Eigen::Matrix<int32_t, Eigen::Dynamic, 3> tri(Eigen::Index(m.tri.size()), 3);
  for (size_t i = 0; i < m.tri.size(); ++i)
    for (int k = 0; k < 3; ++k) tri(Eigen::Index(i), k) = m.tri[i][size_t(k)];
  std::vector<bool> used(m.lon.size());
  for (auto& t : m.tri)
    for (int v : t) used[size_t(v)] = true;
  auto i = Eigen::Index(g.raw(uint64_t(tri.rows() - 1)));
  auto k = Eigen::Index(g.raw(2));
  bool valid = fault == 0;
  switch (fault) {
    case 0: break;
    case 1: {
      auto n = Eigen::Index(other_size(g, size_t(lat.size())));
      valid = n == lat.size();
      Eigen::VectorXd o = Eigen::VectorXd::Zero(n);
      o.head(std::min(n, lat.size())) = lat.head(std::min(n, lat.size()));
      lat = o;
      break;
    }
    case 2: tri(i, k) = g.pick({int32_t(-1), std::numeric_limits<int32_t>::min()}); break;
    case 3: tri(i, k) = g.pick({int32_t(lon.size()), int32_t(lon.size() + 1), std::numeric_limits<int32_t>::max()}); break;
    case 4: tri.resize(0, 3); break;
    default: {  // fewer vertices than those used
      auto n = Eigen::Index(g.raw(uint64_t(lon.size() - 1)));
      int last = 0;
      for (size_t v = 0; v < used.size(); ++v)
        if (used[v]) last = int(v);
      valid = n > last;
      lon.conservativeResize(n);
      lat.conservativeResize(n);
    }
  }
  c.note("fault ", fault, ": ", lon.size(), " longitudes, ", lat.size(), " latitudes, ", tri.rows(), " triangles");
  std::shared_ptr<fes::mesh::Index> index;
  auto said = outcome([&] { index = std::make_shared<fes::mesh::Index>(lon, lat, tri); });
  c.check(valid == said.empty(), lon.size(), " longitudes, ", lat.size(), " latitudes, ", tri.rows(), " triangles (fault ", fault, ")", valid ? " are rejected: " : " are accepted", said);
  if (index) {
    // codes of the nodes
    Bulk b(g);
    auto nodes = make_nodes(m, g.boolean() ? 1 : 2, b, g.boolean());
    int wrong = int(g.weighted({1, 1, 1, 1}));
    auto& row = nodes.codes[g.raw(nodes.codes.size() - 1)];
    auto& code = row[g.raw(row.size() - 1)];
    switch (wrong) {
      case 0: break;
      case 1: nodes.codes.push_back(nodes.codes.back()); break;
      case 2: nodes.codes.pop_back(); break;
      default: code = g.pick({-1, -1000000, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()});
    }
    auto s0 = outcome([&] { make_lgp<double>(nullptr, nodes, fes::kTide, 0); });
    c.check(!s0.empty(), "a model without mesh is accepted");
    auto s = outcome([&] { make_lgp<double>(index, nodes, fes::kTide, 0); });
    c.note("codes ", wrong, ", order ", nodes.order);
    c.check(s.empty() == (wrong == 0), "codes (fault ", wrong, ") of order ", nodes.order, s.empty() ? " are accepted" : " are rejected: ", s);
    // and the index is as before
    auto p = gen_mesh_point(g, m);
    index->search(fes::geometry::Point(p.first, p.second), 1e5);
    c.nontrivial(wrong != 0);
  } else
    c.nontrivial(true);
}

PBT_PROP(views, 1) {
  std::string text;
  for (size_t k = g.size(0, 8); k > 0; --k) text += char(g.integer(0, 255));
  auto v = fes::string_view(text.data(), text.size());
  c.note("text of ", text.size());
  c.check(v.size() == text.size() && v.empty() == text.empty(), "size of the view");
  for (size_t i : {size_t(0), text.size() / 2, text.size(), text.size() + 1, size_t(-1)}) {
    char got = 0;
    auto s = outcome([&] { got = v[i]; });
    c.check(s.empty() == (i < text.size()) && (!s.empty() || got == text[i]), "character ", i, " of ", text.size(), s.empty() ? " is accepted" : " is rejected");
  }
  c.nontrivial(!text.empty());
}

PBT_MAIN
