// C14: admittance.
#include "common.hpp"
using fes::wave::Table;

static const std::vector<std::string>& inferred_names() {
  static const std::vector<std::string> n = [] {
    std::vector<std::string> r;
    for (auto& row : ref::rows())
      if (row.admittance) r.push_back(row.name);
    return r;
  }();
  return n;
}
static const std::vector<std::string> majors = {"Q1", "O1", "K1", "N2", "M2", "K2"};

static cd gen_value(Gen& g, double scale) {
  auto part = [&] { return g.boolean(0.1) ? 0.0 : g.boolean(0.2) ? double(g.integer(-3, 3)) : g.uniform(-1, 1) * scale; };
  double re = part();
  return {re, part()};
}

struct Setup {
  std::vector<std::string> names;  // of the table, empty: all
  std::map<std::string, cd> value;
  std::map<std::string, bool> flag;
  bool defaults;
};

static Setup gen_setup(Gen& g, bool complete) {
  Setup s;
  if (complete) {
    if (g.boolean(0.4)) {
      s.names = all_names();
      g.shuffle(s.names);
    }
  }
  Bulk b(g);
  double scale = std::pow(10.0, g.uniform(-4, 4));
  for (auto& n : all_names()) {
    s.value[n] = {b.uniform(-scale, scale), b.uniform(-scale, scale)};
    if (b.unit() < 0.05) s.value[n] = 0;
  }
  for (auto& n : majors) s.value[n] = gen_value(g, scale);
  if (complete && g.boolean(0.1)) s.value[majors[g.raw(majors.size() - 1)]] = {std::nan(""), std::nan("")};  // undefined
  s.value["2N2"] = gen_value(g, scale);
  s.defaults = g.boolean(0.3);
  double p = g.pick({0.1, 0.5, 0.9});
  for (auto& n : all_names()) {
    bool def = std::find(inferred_names().begin(), inferred_names().end(), n) != inferred_names().end();
    // other waves than the documented ones may be flagged: they have no combination
    s.flag[n] = s.defaults ? def : def ? b.unit() < p : b.unit() < 0.1;
  }
  if (!s.defaults) s.flag["2N2"] = g.boolean();
  return s;
}

static void apply(Table& t, const Setup& s) {
  for (const auto& w : t) {
    w->tide(s.value.at(w->name()));
    if (!s.defaults) w->admittance(s.flag.at(w->name()));
  }
}

static std::map<std::string, cd> values(const Table& t) {
  std::map<std::string, cd> r;
  for (const auto& w : t) r[w->name()] = w->tide();
  return r;
}

static void check_values(Case& c, const std::map<std::string, cd>& got, const Setup& s, bool partial) {
  ref::Tides expected;
  double scale = 0;
  for (auto& n : majors) scale = std::max(scale, std::abs(s.value.at(n)));
  scale = std::max(scale, std::abs(s.value.at("2N2")));
  for (auto& kv : s.value) expected[kv.first] = ref::cld(kv.second.real(), kv.second.imag());
  std::map<std::string, bool> flags;
  for (auto& n : inferred_names()) flags[n] = s.flag.at(n);
  ref::admittance(expected, flags);
  for (auto& kv : got) {
    bool inferred = flags.count(kv.first) && flags[kv.first];
    if (!inferred) {
      c.check(same_bits(kv.second, s.value.at(kv.first)), kv.first, " is not inferred and goes from ", s.value.at(kv.first), " to ", kv.second);
      continue;
    }
    if (partial && same_bits(kv.second, s.value.at(kv.first))) continue;
    auto e = expected[kv.first];
    if (std::isnan(double(e.real()))) {
      c.check(std::isnan(kv.second.real()) && std::isnan(kv.second.imag()), kv.first, " is inferred as ", kv.second, " from an undefined wave");
      continue;
    }
    c.check(std::fabs(kv.second.real() - double(e.real())) <= 1e-14 * scale && std::fabs(kv.second.imag() - double(e.imag())) <= 1e-14 * scale, kv.first,
            " is inferred as ", kv.second, " expected ", cd(e), " from Q1 ", s.value.at("Q1"), " O1 ", s.value.at("O1"), " K1 ", s.value.at("K1"), " N2 ",
            s.value.at("N2"), " M2 ", s.value.at("M2"), " K2 ", s.value.at("K2"), " 2N2 ", cd(expected["2N2"]));
  }
}

PBT_PROP(complete_table, 6) {
  auto s = gen_setup(g, true);
  auto t = Table(s.names);
  apply(t, s);
  int changed = 0;
  for (auto& n : inferred_names()) changed += s.flag[n];
  c.note(s.names.empty() ? "default table" : "table of all the names", s.defaults ? ", default flags" : ", other flags", ", inferred: ", changed);
  if (s.defaults)
    for (const auto& w : t) {
      bool e = std::find(inferred_names().begin(), inferred_names().end(), w->name()) != inferred_names().end();
      c.check(w->admittance() == e, w->name(), e ? " is not flagged as inferred" : " is flagged as inferred");
    }
  t.admittance();
  auto once = values(t);
  c.check(once.size() == all_names().size(), "waves of the table ", once.size());
  check_values(c, once, s, false);
  size_t n = g.size(1, 3);
  for (size_t i = 0; i < n; ++i) {
    t.admittance();
    auto again = values(t);
    for (auto& kv : once) c.check(same_bits(kv.second, again[kv.first]), kv.first, " is ", kv.second, " then ", again[kv.first], " when it is repeated");
  }
  c.nontrivial(changed > 0);
}

// other values in the same table: nothing is left from the previous ones
PBT_PROP(history, 3) {
  auto t = Table();
  size_t n = g.size(1, 4);
  bool some = false;
  for (size_t i = 0; i < n; ++i) {
    auto s = gen_setup(g, true);
    if (s.defaults && i) {
      s.defaults = false;
    }
    apply(t, s);
    c.note("step ", i, s.defaults ? " default flags" : " flags");
    t.admittance();
    check_values(c, values(t), s, false);
    for (auto& m : inferred_names()) some |= s.flag[m];
  }
  c.nontrivial(some && n > 1);
}

// tables that lack one of the waves
PBT_PROP(sparse_table, 3) {
  auto s = gen_setup(g, false);
  std::vector<std::string> needed = inferred_names();
  needed.insert(needed.end(), majors.begin(), majors.end());
  std::set<std::string> names;
  bool complete = g.boolean(0.3);
  auto extra = g.subset(all_names(), g.pick({0.1, 0.5, 0.95}));
  names.insert(extra.begin(), extra.end());
  if (g.boolean(0.7) || complete) names.insert(needed.begin(), needed.end());
  std::string lacking;
  if (!complete) {
    lacking = g.pick(needed);
    names.erase(lacking);
  }
  if (names.empty()) Case::discard();
  if (names.size() == all_names().size()) names.erase("M8");
  std::vector<std::string> list(names.begin(), names.end());
  g.shuffle(list);
  auto t = Table(list);
  apply(t, s);
  c.note("table of ", list.size(), " waves", lacking.empty() ? "" : " without ", lacking);
  c.check(t.size() == list.size(), "the table has ", t.size(), " waves");
  bool refused = false;
  try {
    t.admittance();
  } catch (const std::out_of_range&) {
    refused = true;
  }
  c.check(refused == !complete, complete ? "refused though the table has every wave it involves" : "not refused: the table lacks " + lacking);
  check_values(c, values(t), s, refused);
  c.check(values(t).size() == list.size(), "the table has other waves after the call");
  c.nontrivial(true);
}

PBT_MAIN
