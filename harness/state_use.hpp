// Restoring objects from bytes and using whatever was accepted (C13).
#pragma once
#include "model_case.hpp"

// exact-size heap copy: any read past the state is seen by AddressSanitizer
struct Bytes {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Bytes(const std::string& s) : p(new char[s.size()]), n(s.size()) {
    if (n) std::memcpy(p.get(), s.data(), n);
  }
  fes::string_view view() const { return {p.get(), n}; }
};

enum Kind { kAxis, kIndex, kCartesianD, kCartesianF, kLgp1D, kLgp1F, kLgp2D, kLgp2F, kKinds };

static volatile double g_sink;

inline void use_axis(const fes::Axis& a) {
  double inf = std::numeric_limits<double>::infinity();
  double s = double(a.size()) + a.start() + a.step() + double(a.is_circular()) + double(a.is_ascending());
  for (int64_t i : {int64_t(0), int64_t(1), a.size() - 1, a.size(), int64_t(-1)}) try {
      s += a(i);
    } catch (const std::exception&) {
    }
  try {
    s += a.end() + a.min_value() + a.max_value();
  } catch (const std::exception&) {
  }
  for (double x : {0.0, a.start(), a.start() + a.step() / 3, -1.5, 359.0, 12.25, 1e300, inf, -inf, std::nan("")}) {
    try {
      auto r = a.find_indices(x);
      if (r) s += a(std::get<0>(*r)) + a(std::get<1>(*r));
      auto k = a.find_index(x, true);
      if (k >= 0) s += a(k);
      k = a.find_index(x, false);
      if (k >= 0) s += a(k);
    } catch (const std::exception&) {
    }
  }
  g_sink = s + double(a == a);
}

inline std::vector<std::pair<double, double>> some_points() {
  double inf = std::numeric_limits<double>::infinity();
  return {{0, 0}, {0.3, 0.2}, {1.5, 1.25}, {-1, 60}, {359.9, -45.3}, {180, 89.99}, {-180, -90}, {12.5, 33.3}, {720.5, 10}, {inf, 0}, {0, std::nan("")}};
}

inline void use_index(const fes::mesh::Index& i) {
  double s = double(i.n_positions() + i.n_triangles());
  auto points = some_points();
  for (Eigen::Index k = 0; k < std::min<Eigen::Index>(i.lon().size(), 4); ++k) points.emplace_back(i.lon()(k), i.lat()(k));
  for (auto& p : points)
    for (double d : {0.0, 1e5, 1e9, std::numeric_limits<double>::infinity()}) {
      auto r = i.search({p.first, p.second}, d);
      if (r.index != -1) {
        if (r.index < 0 || size_t(r.index) >= i.n_triangles()) throw pbt::Failure{"index of triangle out of range"};
        s += r.point.lon() + r.triangle.v2().lat();
      }
    }
  g_sink = s;
}

template <typename M>
inline void use_model(M& m, const std::vector<std::pair<double, double>>& more) {
  auto points = some_points();
  points.insert(points.end(), more.begin(), more.end());
  double s = double(m.size()) + double(m.identifiers().size()) + double(m.dynamic().size()) + double(m.tide_type());
  auto acc = std::unique_ptr<fes::Accelerator>(m.accelerator(fes::angle::Formulae::kSchuremanOrder3, 0.0));
  for (auto& p : points) {
    fes::Quality q = fes::kUndefined;
    try {
      for (auto& kv : m.interpolate({p.first, p.second}, q, acc.get())) s += kv.second.real();
    } catch (const std::exception&) {
    }
    s += int(q);
  }
  Batch b;
  for (auto& p : points) b.push(1e9, 34, p.first, p.second);
  try {
    auto r = predict(m, b, settings(ref::Formulae::kSch1, 0, {}), 1);
    s += r.tide[0];
  } catch (const std::exception&) {
  }
  g_sink = s;
}

template <typename M>
inline std::string restore_and_use(const Bytes& b, const std::vector<std::pair<double, double>>& more) {
  auto m = std::make_shared<M>(M::setstate(b.view()));
  use_model(*m, more);
  auto s = m->getstate();
  for (auto n : {size_t(0), size_t(1), size_t(4), m->data().empty() ? size_t(9) : size_t(m->data().begin()->second.size())}) try {
      using vec = typename std::decay<decltype(m->data().begin()->second)>::type;
      m->add_constituent(fes::kM2, vec::Constant(Eigen::Index(n), 1));
      m->add_constituent(fes::kMsqm, vec::Constant(Eigen::Index(n), 1));
      use_model(*m, more);
    } catch (const std::exception&) {
    }
  Bytes again(s);
  auto z = std::make_shared<M>(M::setstate(again.view()));  // what was saved can be restored
  use_model(*z, more);
  return s;
}

// Throws what the restoration throws; otherwise uses the object
inline std::string restore_and_use(int kind, const Bytes& b, const std::vector<std::pair<double, double>>& more) {
  switch (kind) {
    case kAxis: {
      auto a = fes::Axis::setstate(b.view());
      use_axis(a);
      auto s = a.getstate();
      Bytes again(s);
      use_axis(fes::Axis::setstate(again.view()));
      return s;
    }
    case kIndex: {
      auto i = fes::mesh::Index::setstate(b.view());
      use_index(i);
      auto s = i.getstate();
      Bytes again(s);
      use_index(fes::mesh::Index::setstate(again.view()));
      return s;
    }
    case kCartesianD: return restore_and_use<fes::tidal_model::Cartesian<double>>(b, more);
    case kCartesianF: return restore_and_use<fes::tidal_model::Cartesian<float>>(b, more);
    case kLgp1D: return restore_and_use<fes::tidal_model::LGP1<double>>(b, more);
    case kLgp1F: return restore_and_use<fes::tidal_model::LGP1<float>>(b, more);
    case kLgp2D: return restore_and_use<fes::tidal_model::LGP2<double>>(b, more);
    default: return restore_and_use<fes::tidal_model::LGP2<float>>(b, more);
  }
}
