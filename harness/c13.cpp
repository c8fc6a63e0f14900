// C13: corrupt saved states are rejected or safely usable.
#include <new>

#include "state_use.hpp"

// memory that cannot be had is an exception, as without the sanitizer
void* operator new(size_t n) {
  void* p = n > (size_t(2000) << 20) ? nullptr : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Valid {
  int kind;
  std::string state;
  std::vector<std::pair<double, double>> points;
  std::string what;
};

template <typename M, typename T>
static std::string state_of(const std::shared_ptr<fes::AbstractTidalModel<T>>& m) {
  return dynamic_cast<const M&>(*m).getstate();
}

static Valid gen_valid(Gen& g) {
  Valid v;
  v.kind = int(g.weighted({2, 2, 3, 1, 2, 1, 2, 1}));
  if (v.kind == kAxis) {
    int n = int(g.integer(2, 12));
    bool circular = g.boolean();
    auto a = make_axis(double(g.integer(-180, 180)), (circular ? 360.0 / n : 1.0) * (g.boolean(0.3) ? -1 : 1), n, circular);
    v.state = a.getstate();
    v.what = "axis";
    return v;
  }
  if (v.kind == kIndex) {
    auto m = gen_mesh(g, 2);
    v.state = make_index(m)->getstate();
    v.what = "index " + m.describe();
    return v;
  }
  Wanted w;
  w.max_names = 3;
  w.p_empty = 0.3;
  ModelCase k;
  bool mesh = v.kind >= kLgp1D;
  for (int i = 0;; ++i) {
    k = gen_model(g, w);
    if (k.mesh == mesh) break;
    if (i > 20) Case::discard();
  }
  k.single = v.kind == kCartesianF || v.kind == kLgp1F || v.kind == kLgp2F;
  if (mesh) {
    int order = v.kind >= kLgp2D ? 2 : 1;
    if (k.nodes.order != order) {
      Bulk b(g);
      k.nodes = make_nodes(k.m, order, b, false);
      for (auto& d : k.data) d.assign(k.nodes.pos.size(), {1, 2});
    }
  }
  k.rebuild();
  switch (v.kind) {
    case kCartesianD: v.state = state_of<fes::tidal_model::Cartesian<double>>(k.md); break;
    case kCartesianF: v.state = state_of<fes::tidal_model::Cartesian<float>>(k.mf); break;
    case kLgp1D: v.state = state_of<fes::tidal_model::LGP1<double>>(k.md); break;
    case kLgp1F: v.state = state_of<fes::tidal_model::LGP1<float>>(k.mf); break;
    case kLgp2D: v.state = state_of<fes::tidal_model::LGP2<double>>(k.md); break;
    default: v.state = state_of<fes::tidal_model::LGP2<float>>(k.mf);
  }
  for (int i = 0; i < 4; ++i) v.points.push_back(gen_point(g, k, 0.1));
  v.what = k.describe();
  return v;
}

static uint64_t word(double x) {
  uint64_t r;
  std::memcpy(&r, &x, 8);
  return r;
}

// an alteration of a state
static std::string mutate(Gen& g, std::string s, const std::string& other) {
  auto at = [&](size_t slack) {
    size_t hi = s.size() > slack ? s.size() - slack : 0;
    // the beginning and the sizes are the most interesting
    if (g.boolean(0.4)) hi = std::min<size_t>(hi, 96);
    if (g.boolean(0.15) && s.size() > 40) return s.size() - slack - std::min<size_t>(s.size() - slack, g.size(0, 40));
    return g.size(0, hi);
  };
  if (g.boolean(0.25)) {  // the integers of a matrix: vertices of the triangles, codes
    std::vector<std::pair<size_t, size_t>> found;  // first value, number of values
    for (size_t o = 0; o + 16 < s.size(); ++o) {
      uint64_t r, k;
      std::memcpy(&r, &s[o], 8);
      std::memcpy(&k, &s[o + 8], 8);
      if ((k == 3 || k == 6) && r > 0 && r < 10000 && r * k * 4 <= s.size() - o - 16) found.emplace_back(o + 16, r * k);
    }
    if (!found.empty()) {
      auto f = g.pick(found);
      auto i = g.size(0, f.second - 1), n = g.boolean(0.5) ? size_t(1) : std::min(f.second - i, g.size(1, 12));
      auto v = int32_t(g.pick({-1, -2, -3, -16, 64, 1000, std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max(), std::numeric_limits<int32_t>::max() - 1}));
      bool add = g.boolean(0.3);
      auto d = int32_t(g.integer(-3, 30));
      for (; n > 0; --n, ++i) {
        uint32_t x;
        std::memcpy(&x, &s[f.first + 4 * i], 4);
        x = add ? x + uint32_t(d) : uint32_t(v);
        std::memcpy(&s[f.first + 4 * i], &x, 4);
      }
      return s;
    }
  }
  switch (g.weighted({3, 8, 2, 2, 2, 2, 1, 2})) {
    case 0:
      if (!s.empty()) s[at(1)] = char(g.raw(255));
      break;
    case 1: {  // a word: size, number of rows, real number
      if (s.size() < 8) break;
      auto o = at(8);
      auto values = std::vector<uint64_t>{0,
                                          1,
                                          2,
                                          3,
                                          6,
                                          ~uint64_t(0),
                                          uint64_t(1) << 31,
                                          (uint64_t(1) << 31) - 1,
                                          uint64_t(1) << 32,
                                          uint64_t(1) << 61,
                                          uint64_t(1) << 62,
                                          uint64_t(1) << 63,
                                          (uint64_t(1) << 63) - 1,
                                          uint64_t(-8),
                                          uint64_t(1) << 40,
                                          word(1e300),
                                          word(1e-300),
                                          word(std::numeric_limits<double>::infinity()),
                                          word(std::nan("")),
                                          word(-1),
                                          word(1e19),
                                          word(90.5),
                                          1000,
                                          100000000};
      uint64_t w;
      auto kind = g.raw(2);
      if (kind == 0) {
        std::memcpy(&w, &s[o], 8);
        w += uint64_t(g.integer(-9, 9));
      } else
        w = g.pick(values);
      if (g.boolean(0.15)) {
        uint32_t h = uint32_t(w);
        std::memcpy(&s[o], &h, 4);
      } else
        std::memcpy(&s[o], &w, 8);
      break;
    }
    case 2: s.resize(g.size(0, s.size())); break;
    case 3: {
      auto o = at(0);
      s.erase(o, g.size(1, 24));
      break;
    }
    case 4: {
      auto o = at(0);
      std::string x;
      for (size_t n = g.size(1, 24); n > 0; --n) x += char(g.boolean() ? 0 : g.raw(255));
      s.insert(o, x);
      break;
    }
    case 5: {
      if (s.empty()) break;
      auto o = at(1), n = std::min(s.size() - o, g.size(1, 40));
      s.insert(at(0), s.substr(o, n));
      break;
    }
    case 6: {
      if (s.empty()) break;
      s[at(1)] ^= char(1 << g.raw(7));
      break;
    }
    default:
      if (other.empty()) break;
      s = s.substr(0, at(0)) + other.substr(std::min(other.size(), at(0)));
  }
  return s;
}

static bool try_restore(Case& c, int kind, const std::string& state, const std::vector<std::pair<double, double>>& points) {
  Bytes b(state);
  std::string again;
  try {
    again = restore_and_use(kind, b, points);
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception& e) {
    c.label("rejected");
    return false;
  }
  c.label("accepted");
  return true;
}

static void hex(Case& c, const std::string& s) {
  std::string h;
  char t[4];
  for (size_t i = 0; i < s.size() && i < 160; ++i) {
    std::snprintf(t, sizeof t, "%02x", (unsigned char)s[i]);
    h += t;
    if (i % 8 == 7) h += ' ';
  }
  c.note("state of ", s.size(), " bytes: ", h);
}

PBT_PROP(altered, 20) {
  auto v = gen_valid(g);
  c.note("kind ", v.kind, " ", v.what);
  std::string other;
  if (g.boolean(0.15)) other = gen_valid(g).state;
  auto s = v.state;
  size_t n = g.size(1, 4);
  for (size_t i = 0; i < n; ++i) s = mutate(g, s, other);
  hex(c, s);
  try_restore(c, v.kind, s, v.points);
  c.nontrivial(s != v.state);
}

// truncated states are rejected
PBT_PROP(prefix, 4) {
  auto v = gen_valid(g);
  c.note("kind ", v.kind, " ", v.what);
  for (int i = 0; i < 12; ++i) {
    size_t n = i == 0 ? v.state.size() - 1 : g.boolean(0.3) ? v.state.size() - std::min(v.state.size(), g.size(1, 24)) : g.size(0, v.state.size() - 1);
    bool accepted = true;
    Bytes b(v.state.substr(0, n));
    try {
      restore_and_use(v.kind, b, v.points);
    } catch (const std::exception&) {
      accepted = false;
    }
    c.check(!accepted, "the first ", n, " bytes of a state of ", v.state.size(), " are accepted; kind ", v.kind, " ", v.what);
  }
  c.check(try_restore(c, v.kind, v.state, v.points), "a valid state is rejected; kind ", v.kind, " ", v.what);
  c.nontrivial();
}

// any bytes, and the state of another kind of object
PBT_PROP(bytes, 3) {
  int kind = int(g.raw(kKinds - 1));
  std::string s;
  if (g.boolean(0.5)) {
    auto v = gen_valid(g);
    s = v.state;
    c.note("state of kind ", v.kind, " ", v.what);
  } else {
    size_t n = g.size(0, 200);
    double zero = g.pick({0.1, 0.5, 0.9});
    for (size_t i = 0; i < n; ++i) s += g.boolean(zero) ? char(0) : char(g.raw(255));
  }
  c.note("kind ", kind);
  hex(c, s);
  try_restore(c, kind, s, {});
  c.nontrivial(!s.empty());
}

// the stream the states are read from, against an offset in the bytes
PBT_PROP(stream, 2) {
  std::string s;
  size_t n = g.size(0, 40);
  for (size_t i = 0; i < n; ++i) s += char(g.raw(255));
  Bytes b(s);
  fes::detail::isviewstream ss(b.view());
  c.note("stream of ", n, " bytes");
  std::streamoff at = 0, size = std::streamoff(n);
  for (size_t k = g.size(1, 12); k > 0; --k) {
    std::streamoff left = size - at;
    c.check(ss.available() == left, "available ", ss.available(), " instead of ", left);
    auto kind = g.raw(5);
    if (kind == 0) {
      auto dir = g.raw(2);
      at = std::streamoff(g.raw(uint64_t(size)));
      auto from = std::streamoff(ss.tellg());
      dir == 0 ? ss.seekg(at, std::ios::beg) : dir == 1 ? ss.seekg(at - size, std::ios::end) : ss.seekg(at - from, std::ios::cur);
      c.check(ss.good() && ss.tellg() == std::streampos(at), "position ", std::streamoff(ss.tellg()), " instead of ", at);
    } else if (kind == 1) {
      at = std::streamoff(g.raw(uint64_t(size)));
      ss.seekg(std::streampos(at));
      c.check(ss.good() && ss.tellg() == std::streampos(at), "position ", std::streamoff(ss.tellg()), " instead of ", at);
    } else if (kind == 2 || kind == 3) {
      auto count = std::streamoff(g.raw(uint64_t(size))) - (g.boolean(0.1) ? size : 0);
      if (g.boolean(0.8)) count = std::min(count, left);
      bool whole = count >= 0 && count <= left;
      auto v = ss.readview(count);
      auto got = std::max<std::streamoff>(0, std::min(count, left));
      c.check(std::string(v.data(), v.size()) == s.substr(size_t(at), size_t(got)), "view of ", count, " bytes at ", at, " is not those of the stream");
      c.check(ss.good() == whole && ss.fail() != whole, whole ? "a view of the stream is refused" : "a view beyond the end is accepted");
      if (!whole) return;
      at += count;
    } else {
      size_t count = size_t(g.raw(uint64_t(size)));
      if (g.boolean(0.8)) count = std::min(count, size_t(left));
      std::string r(count, 'x');
      ss.read(&r[0], std::streamsize(count));
      bool whole = std::streamoff(count) <= left;
      c.check(ss.fail() != whole && size_t(ss.gcount()) == std::min(count, size_t(left)), "read of ", count, " bytes at ", at);
      r.resize(size_t(ss.gcount()));
      c.check(r == s.substr(size_t(at), r.size()), "the bytes read at ", at, " are not those of the stream");
      if (!whole) return;
      at += std::streamoff(count);
    }
  }
  c.nontrivial(n > 0);
}

PBT_MAIN
