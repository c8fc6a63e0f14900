// C01: names, identifiers, tables.
#include "common.hpp"
using fes::wave::Table;

static std::string random_case(Gen& g, const std::string& s) {
  std::string r = s;
  for (auto& ch : r)
    if (isalpha(static_cast<unsigned char>(ch))) ch = g.boolean(0.5) ? char(toupper(ch)) : char(tolower(ch));
  return r;
}

// identifiers as published in the header: enumerators by name
static const std::map<std::string, Constituent>& by_name() {
#define E(n) {#n, fes::k##n}
  static const std::map<std::string, Constituent> m = {
      E(Mm), E(Mf), E(Mtm), E(Msqm), E(2Q1), E(Sigma1), E(Q1), E(Rho1), E(O1), E(MP1), E(M11), E(M12), E(M13), E(Chi1), E(Pi1),
      E(P1), E(S1), E(K1), E(Psi1), E(Phi1), E(Theta1), E(J1), E(OO1), E(MNS2), E(Eps2), E(2N2), E(Mu2), E(2MS2), E(N2), E(Nu2),
      E(M2), E(MKS2), E(Lambda2), E(L2), E(2MN2), E(T2), E(S2), E(R2), E(K2), E(MSN2), E(Eta2), E(2SM2), E(MO3), E(2MK3), E(M3),
      E(MK3), E(N4), E(MN4), E(M4), E(SN4), E(MS4), E(MK4), E(S4), E(SK4), E(R4), E(2MN6), E(M6), E(MSN6), E(2MS6), E(2MK6),
      E(2SM6), E(MSK6), E(S6), E(M8), E(MSf), E(Ssa), E(Sa), E(Sa1), E(Sta), E(Mm1), E(Mf1), E(A5), E(M0), E(Mm2), E(Mf2)};
#undef E
  return m;
}

static void check_table(Case& c, const Table& t, const std::set<std::string>& expect, bool full, Gen& g) {
  c.check(t.size() == expect.size(), "table size ", t.size(), " expected ", expect.size());
  // iteration: each constituent exactly once, coherent with its ident
  std::set<std::string> seen;
  std::vector<Constituent> order;
  size_t n = 0;
  for (const auto& w : t) {
    c.check(w != nullptr, "iteration yields a null wave");
    std::string name = w->name();
    c.check(by_name().count(name) == 1 && by_name().at(name) == w->ident(), "iterated wave ", name, " has identifier ", int(w->ident()));
    c.check(seen.insert(name).second, "wave ", name, " iterated twice");
    order.push_back(w->ident());
    ++n;
  }
  c.check(seen == expect, "iteration does not visit exactly the requested constituents");
  auto list = t.constituents();
  c.check(std::set<std::string>(list.begin(), list.end()) == expect && list.size() == expect.size(), "constituents() differs from the table");
  for (size_t i = 0; i < t.size(); ++i) {
    c.check(t[i] != nullptr, "position ", i, " is null");
    c.check(t[i]->ident() == order[i], "position ", i, " is ", t[i]->name(), ", iteration order says ", fes::constituents::name(order[i]));
    c.check(list[i] == t[i]->name(), "constituents()[", i, "] is ", list[i], " but the wave there is ", t[i]->name());
  }
  bool thrown = false;
  try {
    (void)t[t.size() + g.raw(300)];
  } catch (const std::out_of_range&) {
    thrown = true;
  }
  c.check(thrown, "access past the last wave is not refused");
  for (auto& kv : by_name()) {
    bool present = expect.count(kv.first) != 0;
    auto f = t.find(random_case(g, kv.first));
    if (present) {
      c.check(f != nullptr, "find does not see ", kv.first);
      c.check(f->ident() == kv.second && kv.first == f->name(), "find(", kv.first, ") gives ", f->name());
      c.check(t[kv.second] == f, "table[", kv.first, "] is ", t[kv.second] ? t[kv.second]->name() : "null");
    } else {
      c.check(f == nullptr, "find(", kv.first, ") in a table without it gives ", f ? f->name() : "");
      bool refused = false;
      try {
        refused = t[kv.second] == nullptr;
      } catch (const std::out_of_range&) {
        refused = true;
      }
      c.check(refused && !full, "table without ", kv.first, " gives a wave for it");
    }
  }
}

PBT_PROP(names, 2) {
  auto it = by_name().begin();
  std::advance(it, long(g.raw(by_name().size() - 1)));
  auto text = random_case(g, it->first);
  c.note("parse ", text);
  c.check(fes::constituents::parse(text) == it->second, "parse(", text, ") gives ", fes::constituents::name(fes::constituents::parse(text)));
  c.check(it->first == fes::constituents::name(it->second), "name of ", it->first, " is ", fes::constituents::name(it->second));
  auto w = Table::wave_factory(it->second);
  c.check(w != nullptr && w->ident() == it->second && it->first == w->name(), "factory builds ", w ? w->name() : "null", " for ", it->first);
  // the list of known names holds each name once
  auto known = fes::constituents::known();
  std::set<std::string> s(known.begin(), known.end());
  c.check(known.size() == by_name().size() && s.size() == known.size(), "known() has ", known.size(), " names");
  for (auto& k : known) c.check(by_name().count(k) == 1, "known() lists ", k);
  c.nontrivial(text != it->first);
}

PBT_PROP(unknown_names, 2) {
  std::string s;
  if (g.boolean(0.6)) {  // near miss
    s = g.pick(all_names());
    switch (g.raw(4)) {
      case 0: s += g.pick({"x", "0", " ", "1", "2"}); break;
      case 1: s = s.substr(0, s.size() - 1); break;
      case 2: s = std::string(g.pick({" ", "x", "2", "M"})) + s; break;
      case 3: s[g.raw(s.size() - 1)] = char(g.integer(33, 126)); break;
      default: s = s + s;
    }
  } else {
    size_t n = g.size(0, 8);
    for (size_t i = 0; i < n; ++i) s += char(g.integer(-128, 127));
  }
  c.note("parse '", s, "'");
  std::string low = s;
  for (auto& ch : low) ch = char(tolower(static_cast<unsigned char>(ch)));
  const std::string* match = nullptr;
  for (auto& kv : by_name()) {
    std::string k = kv.first;
    for (auto& ch : k) ch = char(tolower(ch));
    if (k == low) match = &kv.first;
  }
  bool refused = false;
  Constituent got{};
  try {
    got = fes::constituents::parse(s);
  } catch (const std::invalid_argument&) {
    refused = true;
  }
  if (match)
    c.check(!refused && got == by_name().at(*match), "'", s, "' should be ", *match);
  else
    c.check(refused, "'", s, "' is accepted as ", fes::constituents::name(got));
  c.nontrivial(!match);
  // tables agree
  Table t;
  bool trefused = false;
  try {
    auto w = t.find(s);
    (void)w;
  } catch (const std::invalid_argument&) {
    trefused = true;
  }
  c.check(trefused == refused, "find and parse disagree on '", s, "'");
}

PBT_PROP(sparse_tables, 6) {
  std::vector<std::string> names;
  bool full = false;
  switch (g.weighted({1, 5, 2, 1})) {
    case 0: break;                                       // default: all
    case 1: names = gen_names(g, 10); break;
    case 2: names = g.subset(all_names(), 0.5); g.shuffle(names); break;
    default: names = all_names(); g.shuffle(names);
  }
  full = names.empty() || names.size() == all_names().size();
  bool ids = g.boolean(0.5);
  c.note(ids ? "by id " : "by name ", pbt::str(names, 100));
  std::set<std::string> expect(names.begin(), names.end());
  if (names.empty()) expect.insert(all_names().begin(), all_names().end());
  std::vector<Constituent> v;
  for (auto& n : names) v.push_back(by_name().at(n));
  // repeated names name the same constituent
  if (!names.empty() && g.boolean(0.2)) {
    auto k = g.raw(names.size() - 1);
    names.push_back(names[k]);
    v.push_back(v[k]);
  }
  Table t = ids ? Table(v) : Table(names);
  check_table(c, t, expect, full, g);
  // a mutable reference designates the same waves
  for (auto& n : expect) c.check(t[by_name().at(n)]->ident() == by_name().at(n), "mutable access to ", n);
  c.label(full ? "complete" : "sparse");
  c.nontrivial(!full);
}

PBT_MAIN
