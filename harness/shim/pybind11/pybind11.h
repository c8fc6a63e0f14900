// A stand-in for the part of pybind11 that src/python/core uses, on the API of
// CPython, so that the bindings can be compiled and run without pybind11.
#pragma once
#include <Python.h>

#include <Eigen/Core>
#include <algorithm>
#include <boost/optional.hpp>
#include <complex>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <set>
#include <array>
#include <vector>

namespace pybind11 {
using ssize_t = Py_ssize_t;

struct error_already_set : std::runtime_error {
  error_already_set() : std::runtime_error("Python error") {}
};
#define SHIM_ERROR(NAME) \
  struct NAME : std::runtime_error { \
    using std::runtime_error::runtime_error; \
    NAME() : NAME("") {} \
  };
SHIM_ERROR(value_error)
SHIM_ERROR(type_error)
SHIM_ERROR(index_error)
SHIM_ERROR(key_error)
SHIM_ERROR(attribute_error)
SHIM_ERROR(import_error)
SHIM_ERROR(stop_iteration)
SHIM_ERROR(buffer_error)
SHIM_ERROR(cast_error)
#undef SHIM_ERROR
// the arguments do not have the types of the overload
struct next_overload {};

// Python objects may only be used with the GIL
inline bool& without_gil() {
  static bool misused = false;
  return misused;
}
inline void require_gil() {
  if (!PyGILState_Check()) without_gil() = true;
}
struct Gil {
  PyGILState_STATE s{PyGILState_Ensure()};
  ~Gil() { PyGILState_Release(s); }
};

class object;
class handle {
 public:
  handle() = default;
  handle(PyObject* p) : p_(p) {}
  PyObject* ptr() const { return p_; }
  handle get_type() const { return handle(reinterpret_cast<PyObject*>(Py_TYPE(p_))); }
  PyObject*& ptr() { return p_; }
  inline object attr(const char* name) const;
  inline object operator[](const char* key) const;
  inline object operator[](handle key) const;
  inline object operator[](Py_ssize_t key) const;
  template <typename T>
  T cast() const;
  template <typename... A>
  object operator()(A&&... a) const;
  const handle& inc_ref() const {
    require_gil();
    Py_XINCREF(p_);
    return *this;
  }
  const handle& dec_ref() const {
    require_gil();
    Py_XDECREF(p_);
    return *this;
  }
  bool is_none() const { return p_ == Py_None; }
  bool is(handle o) const { return p_ == o.p_; }
  template <typename T>
  bool contains(const T& v) const;
  explicit operator bool() const { return p_ != nullptr; }

 protected:
  PyObject* p_{nullptr};
};
class object : public handle {
 public:
  object() = default;
  object(const object& o) : handle(o.p_) {
    if (p_) require_gil();
    Py_XINCREF(p_);
  }
  object(object&& o) noexcept : handle(o.p_) { o.p_ = nullptr; }
  object& operator=(object o) {
    std::swap(p_, o.p_);
    return *this;
  }
  ~object() {
    if (p_) require_gil();
    Py_XDECREF(p_);
  }
  static object steal(PyObject* p) {
    if (!p) throw error_already_set();
    require_gil();
    object o;
    o.p_ = p;
    return o;
  }
  static object borrow(PyObject* p) {
    Py_XINCREF(p);
    return steal(p);
  }
  PyObject* release() {
    auto* p = p_;
    p_ = nullptr;
    return p;
  }
};
inline object handle::attr(const char* name) const {
  if (!PyGILState_Check()) {
    without_gil() = true;
    throw std::runtime_error("a Python object is used without the GIL");
  }
  return object::steal(PyObject_GetAttrString(p_, name));
}

inline object handle::operator[](const char* key) const { return object::steal(PyObject_GetItem(p_, object::steal(PyUnicode_FromString(key)).ptr())); }
inline object handle::operator[](handle key) const { return object::steal(PyObject_GetItem(p_, key.ptr())); }
inline object handle::operator[](Py_ssize_t key) const { return object::steal(PySequence_GetItem(p_, key)); }
template <typename T>
T reinterpret_borrow(handle h) {
  return T(object::borrow(h.ptr()));
}
template <typename T>
T reinterpret_steal(handle h) {
  return T(object::steal(h.ptr()));
}

class str : public object {
 public:
  explicit str(handle h) : object(object::steal(PyObject_Str(h.ptr()))) {}
  str(const char* s) : object(object::steal(PyUnicode_FromString(s))) {}
  str(const std::string& s) : object(object::steal(PyUnicode_FromStringAndSize(s.data(), ssize_t(s.size())))) {}
  operator std::string() const {
    auto* c = PyUnicode_AsUTF8(p_);
    if (!c) throw error_already_set();
    return c;
  }
};
class bytes : public object {
 public:
  bytes(const std::string& s) : object(object::steal(PyBytes_FromStringAndSize(s.data(), ssize_t(s.size())))) {}
  bytes(const char* s, size_t n) : object(object::steal(PyBytes_FromStringAndSize(s, ssize_t(n)))) {}
  explicit bytes(object o) : object(std::move(o)) {}
  operator std::string() const { return {PyBytes_AsString(p_), size_t(PyBytes_Size(p_))}; }
};
class none : public object {
 public:
  none() : object(object::borrow(Py_None)) {}
};
class int_ : public object {
 public:
  explicit int_(object o) : object(object::steal(PyNumber_Long(o.ptr()))) {}
  template <typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
  int_(T v) : object(object::steal(PyLong_FromLongLong(static_cast<long long>(v)))) {}
  operator long long() const { return PyLong_AsLongLong(p_); }
};
class float_ : public object {
 public:
  explicit float_(object o) : object(object::steal(PyNumber_Float(o.ptr()))) {}
  float_(double v) : object(object::steal(PyFloat_FromDouble(v))) {}
  operator double() const { return PyFloat_AsDouble(p_); }
};
class bool_ : public object {
 public:
  explicit bool_(object o) : object(object::borrow(PyObject_IsTrue(o.ptr()) ? Py_True : Py_False)) {}
  bool_(bool v) : object(object::borrow(v ? Py_True : Py_False)) {}
  operator bool() const { return p_ == Py_True; }
};
// iteration over a sequence
class object_iterator {
 public:
  object_iterator(PyObject* o, Py_ssize_t i) : o_(o), i_(i) {}
  object operator*() const { return object::steal(PySequence_GetItem(o_, i_)); }
  object_iterator& operator++() {
    ++i_;
    return *this;
  }
  bool operator!=(const object_iterator& r) const { return i_ != r.i_; }

 private:
  PyObject* o_;
  Py_ssize_t i_;
};
class list : public object {
 public:
  explicit list(size_t n = 0) : object(object::steal(PyList_New(0))) {
    while (n-- > 0) PyList_Append(p_, Py_None);
  }
  explicit list(object o) : object(object::steal(PySequence_List(o.ptr()))) {}
  template <typename T>
  void append(const T& v) const;
  size_t size() const { return size_t(PyList_Size(p_)); }
  bool empty() const { return size() == 0; }
  object_iterator begin() const { return {p_, 0}; }
  object_iterator end() const { return {p_, PyList_Size(p_)}; }
};
class tuple : public object {
 public:
  tuple() : object(object::steal(PyTuple_New(0))) {}
  explicit tuple(object o) : object(object::steal(PySequence_Tuple(o.ptr()))) {}
  size_t size() const { return size_t(PyTuple_Size(p_)); }
  bool empty() const { return size() == 0; }
  object_iterator begin() const { return {p_, 0}; }
  object_iterator end() const { return {p_, PyTuple_Size(p_)}; }
};
class dict : public object {
 public:
  // an item that may be assigned
  class Item {
   public:
    Item(PyObject* d, object k) : d_(d), k_(std::move(k)) {}
    template <typename T>
    Item& operator=(const T& v);
    operator object() const { return object::steal(PyObject_GetItem(d_, k_.ptr())); }
    template <typename T>
    T cast() const {
      return object(*this).cast<T>();
    }

   private:
    PyObject* d_;
    object k_;
  };
  dict() : object(object::steal(PyDict_New())) {}
  explicit dict(object o) : object(object::steal(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject*>(&PyDict_Type), o.ptr(), nullptr))) {}
  size_t size() const { return size_t(PyDict_Size(p_)); }
  bool empty() const { return size() == 0; }
  Item operator[](const char* k) const { return {p_, object::steal(PyUnicode_FromString(k))}; }
  Item operator[](const std::string& k) const { return (*this)[k.c_str()]; }
  Item operator[](handle k) const { return {p_, object::borrow(k.ptr())}; }
};
class iterator : public object {
 public:
  explicit iterator(object o) : object(std::move(o)) {}
};

using EigenDStride = Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>;
template <typename M>
using EigenDRef = Eigen::Ref<M, 0, EigenDStride>;
template <typename M>
using EigenDMap = Eigen::Map<M, 0, EigenDStride>;

class gil_scoped_release {
 public:
  gil_scoped_release() : s_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s_); }

 private:
  PyThreadState* s_;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : s_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s_); }

 private:
  PyGILState_STATE s_;
};
template <typename... T>
struct call_guard {};
struct is_operator {};
struct is_final {};
struct arithmetic {};
struct prepend {};
struct dynamic_attr {};
struct kw_only {};
struct pos_only {};
struct doc {
  explicit doc(const char*) {}
};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <size_t, size_t>
struct keep_alive {};

namespace detail {
inline object evaluate(const char* code, const char* name) {
  auto globals = object::steal(PyDict_New());
  PyDict_SetItemString(globals.ptr(), "__builtins__", PyEval_GetBuiltins());
  object::steal(PyRun_String(code, Py_file_input, globals.ptr(), globals.ptr()));
  auto* p = PyDict_GetItemString(globals.ptr(), name);
  return object::borrow(p);
}
inline PyObject* numpy(const char* name) {
  static PyObject* module = PyImport_ImportModule("numpy");
  if (!module) throw error_already_set();
  return object::steal(PyObject_GetAttrString(module, name)).release();
}

// --- registered classes ------------------------------------------------------
struct Type {
  PyTypeObject* type;
  std::vector<std::pair<std::type_index, void* (*)(void*)>> bases;
};
inline std::unordered_map<std::type_index, Type>& types() {
  static std::unordered_map<std::type_index, Type> t;
  return t;
}
struct Instance {
  PyObject_HEAD std::shared_ptr<void>* value;
  std::type_index* index;
};
// instances that hold an object
inline std::map<std::pair<void*, std::type_index>, Instance*>& instances() {
  static std::map<std::pair<void*, std::type_index>, Instance*> m;
  return m;
}
inline void forget(Instance* i) {
  if (!i->value) return;
  auto it = instances().find({i->value->get(), *i->index});
  if (it != instances().end() && it->second == i) instances().erase(it);
  delete i->value;
  delete i->index;
  i->value = nullptr;
  i->index = nullptr;
}
inline void hold(Instance* i, std::shared_ptr<void> value, std::type_index index) {
  forget(i);
  instances()[{value.get(), index}] = i;
  i->value = new std::shared_ptr<void>(std::move(value));
  i->index = new std::type_index(index);
}
inline void* upcast(void* p, std::type_index from, std::type_index to) {
  if (from == to) return p;
  for (auto& b : types().at(from).bases)
    if (auto* r = upcast(b.second(p), b.first, to)) return r;
  return nullptr;
}
inline Instance* instance_of(PyObject* o) {
  for (auto* t = Py_TYPE(o); t; t = t->tp_base)
    for (auto& kv : types())
      if (kv.second.type == t) return reinterpret_cast<Instance*>(o);
  return nullptr;
}
template <typename T>
T* registered(PyObject* o, std::shared_ptr<void>** holder = nullptr) {
  auto* i = instance_of(o);
  if (!i || !i->value) return nullptr;
  auto* p = upcast(i->value->get(), *i->index, typeid(T));
  if (p && holder) *holder = i->value;
  return static_cast<T*>(p);
}
template <typename T>
PyObject* wrap(std::shared_ptr<T> p) {
  if (!p) Py_RETURN_NONE;
  using U = std::remove_const_t<T>;
  auto v = std::const_pointer_cast<U>(p);
  auto it = instances().find({v.get(), typeid(U)});
  if (it != instances().end()) {
    Py_INCREF(it->second);
    return reinterpret_cast<PyObject*>(it->second);
  }
  auto t = types().find(typeid(U));
  if (t == types().end()) {
    PyErr_SetString(PyExc_TypeError, "type not registered");
    throw error_already_set();
  }
  auto* o = t->second.type->tp_alloc(t->second.type, 0);
  if (!o) throw error_already_set();
  hold(reinterpret_cast<Instance*>(o), v, typeid(U));
  return o;
}

// --- enumerations ------------------------------------------------------------
inline std::unordered_map<std::type_index, PyObject*>& enums() {
  static std::unordered_map<std::type_index, PyObject*> t;
  return t;
}

// --- arrays --------------------------------------------------------------
template <typename T>
struct Format;
#define SHIM_FORMAT(T, NAME) \
  template <>                \
  struct Format<T> {         \
    static const char* name() { return NAME; } \
  };
SHIM_FORMAT(double, "float64")
SHIM_FORMAT(float, "float32")
SHIM_FORMAT(int8_t, "int8")
SHIM_FORMAT(bool, "bool")
SHIM_FORMAT(uint8_t, "uint8")
SHIM_FORMAT(uint32_t, "uint32")
SHIM_FORMAT(uint64_t, "uint64")
SHIM_FORMAT(int16_t, "int16")
SHIM_FORMAT(uint16_t, "uint16")
SHIM_FORMAT(int32_t, "int32")
SHIM_FORMAT(int64_t, "int64")
SHIM_FORMAT(std::complex<double>, "complex128")
SHIM_FORMAT(std::complex<float>, "complex64")
#undef SHIM_FORMAT
template <typename T, bool = std::is_enum<T>::value>
struct Scalar {
  using type = T;
};
template <typename T>
struct Scalar<T, true> {
  using type = std::conditional_t<sizeof(T) == 1, int8_t, std::conditional_t<sizeof(T) == 4, int32_t, int64_t>>;
};

// an array of another type or order is converted, as pybind11 does
template <typename M>
bool load_matrix(PyObject* o, M& m) {
  using T = typename M::Scalar;
  if (o == Py_None || PyUnicode_Check(o)) return false;
  auto f = object::steal(numpy("array"));
  auto args = object::steal(PyTuple_Pack(1, o));
  auto kw = object::steal(Py_BuildValue("{s:s,s:s}", "dtype", Format<T>::name(), "order", M::IsRowMajor ? "C" : "F"));
  auto* r = PyObject_Call(f.ptr(), args.ptr(), kw.ptr());
  if (!r) {
    PyErr_Clear();
    return false;
  }
  auto a = object::steal(r);
  Py_buffer b;
  if (PyObject_GetBuffer(a.ptr(), &b, PyBUF_STRIDES) != 0) {
    PyErr_Clear();
    return false;
  }
  bool good = b.itemsize == ssize_t(sizeof(T)) && (b.ndim == 1 || b.ndim == 2);
  Eigen::Index rows = 0, cols = 0;
  if (good) {
    rows = b.shape[0];
    cols = b.ndim == 2 ? b.shape[1] : 1;
    if (M::ColsAtCompileTime == 1 && b.ndim == 2 && rows == 1) std::swap(rows, cols);
    good = (M::RowsAtCompileTime == Eigen::Dynamic || M::RowsAtCompileTime == rows) && (M::ColsAtCompileTime == Eigen::Dynamic || M::ColsAtCompileTime == cols);
  }
  if (good) {
    m.resize(rows, cols);
    if (m.size()) std::memcpy(static_cast<void*>(m.data()), b.buf, size_t(m.size()) * sizeof(T));
  }
  PyBuffer_Release(&b);
  return good;
}
template <typename M>
PyObject* give_matrix(const M& given) {
  using T = typename Scalar<typename M::Scalar>::type;
  Eigen::Matrix<typename M::Scalar, -1, -1> m = given;
  static_assert(sizeof(T) == sizeof(typename M::Scalar), "");
  auto data = object::steal(PyBytes_FromStringAndSize(reinterpret_cast<const char*>(m.data()), ssize_t(size_t(m.size()) * sizeof(T))));
  auto flat = object::steal(PyObject_CallFunction(object::steal(numpy("frombuffer")).ptr(), "Os", data.ptr(), Format<T>::name()));
  object r;
  if (M::IsVectorAtCompileTime)
    r = object::steal(PyObject_CallMethod(flat.ptr(), "copy", nullptr));
  else {
    auto shape = object::steal(Py_BuildValue("(nn)", ssize_t(m.cols()), ssize_t(m.rows())));
    auto square = object::steal(PyObject_CallMethod(flat.ptr(), "reshape", "O", shape.ptr()));
    auto turned = object::steal(PyObject_GetAttrString(square.ptr(), "T"));
    r = object::steal(PyObject_CallMethod(turned.ptr(), "copy", nullptr));
  }
  return r.release();
}

// --- to Python -----------------------------------------------------------
template <typename T, typename = void>
struct Give {  // registered class: a copy
  static PyObject* give(const T& v) { return wrap(std::make_shared<T>(v)); }
};
template <typename T>
PyObject* give(const T& v) {
  return Give<T>::give(v);
}
template <typename T>
struct Give<T, std::enable_if_t<std::is_enum<T>::value>> {
  static PyObject* give(T v) {
    auto it = enums().find(typeid(T));
    if (it == enums().end()) {
      PyErr_SetString(PyExc_TypeError, "enumeration not registered");
      throw error_already_set();
    }
    return object::steal(PyObject_CallFunction(it->second, "L", static_cast<long long>(v))).release();
  }
};
template <typename T>
struct Give<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static PyObject* give(T v) { return std::is_signed<T>::value ? PyLong_FromLongLong(static_cast<long long>(v)) : PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(v)); }
};
template <>
struct Give<bool> {
  static PyObject* give(bool v) { return PyBool_FromLong(v); }
};
template <typename T>
struct Give<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static PyObject* give(T v) { return PyFloat_FromDouble(double(v)); }
};
template <typename T>
struct Give<std::complex<T>> {
  static PyObject* give(const std::complex<T>& v) { return PyComplex_FromDoubles(v.real(), v.imag()); }
};
template <>
struct Give<std::string> {
  static PyObject* give(const std::string& v) { return object::steal(PyUnicode_FromStringAndSize(v.data(), ssize_t(v.size()))).release(); }
};
template <>
struct Give<const char*> {
  static PyObject* give(const char* v) { return object::steal(PyUnicode_FromString(v)).release(); }
};
template <typename T>
struct Give<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
  static PyObject* give(const T& v) {
    Py_INCREF(v.ptr());
    return v.ptr();
  }
};
template <typename T>
struct Give<std::vector<T>> {
  static PyObject* give(const std::vector<T>& v) {
    auto l = object::steal(PyList_New(0));
    for (const auto& x : v)
      if (PyList_Append(l.ptr(), object::steal(detail::give(T(x))).ptr())) throw error_already_set();
    return l.release();
  }
};
template <typename T>
struct Give<std::set<T>> {
  static PyObject* give(const std::set<T>& v) {
    return object::steal(PySet_New(object::steal(detail::give(std::vector<T>(v.begin(), v.end()))).ptr())).release();
  }
};
template <typename T, size_t N>
struct Give<std::array<T, N>> {
  static PyObject* give(const std::array<T, N>& v) { return detail::give(std::vector<T>(v.begin(), v.end())); }
};
template <typename K, typename V>
struct Give<std::unordered_map<K, V>> {
  static PyObject* give(const std::unordered_map<K, V>& v) { return detail::give(std::map<K, V>(v.begin(), v.end())); }
};
template <typename K, typename V>
struct Give<std::map<K, V>> {
  static PyObject* give(const std::map<K, V>& v) {
    auto d = object::steal(PyDict_New());
    for (const auto& x : v)
      if (PyDict_SetItem(d.ptr(), object::steal(detail::give(x.first)).ptr(), object::steal(detail::give(x.second)).ptr())) throw error_already_set();
    return d.release();
  }
};
template <typename... T>
struct Give<std::tuple<T...>> {
  template <size_t... I>
  static PyObject* all(const std::tuple<T...>& v, std::index_sequence<I...>) {
    object items[] = {object::steal(detail::give(std::get<I>(v)))...};
    auto t = object::steal(PyTuple_New(sizeof...(T)));
    for (size_t i = 0; i < sizeof...(T); ++i) PyTuple_SET_ITEM(t.ptr(), ssize_t(i), items[i].release());
    return t.release();
  }
  static PyObject* give(const std::tuple<T...>& v) { return all(v, std::index_sequence_for<T...>()); }
};
template <typename A, typename B>
struct Give<std::pair<A, B>> {
  static PyObject* give(const std::pair<A, B>& v) { return detail::give(std::tuple<A, B>(v)); }
};
template <typename T>
struct Give<std::shared_ptr<T>> {
  static PyObject* give(const std::shared_ptr<T>& v) { return wrap(v); }
};
template <typename T>
struct Give<T*, std::enable_if_t<std::is_class<T>::value>> {
  static PyObject* give(T* v) { return wrap(std::shared_ptr<T>(v)); }
};
template <typename T>
struct Give<boost::optional<T>> {
  static PyObject* give(const boost::optional<T>& v) {
    if (!v) Py_RETURN_NONE;
    return detail::give(*v);
  }
};
template <>
struct Give<boost::none_t> {
  static PyObject* give(const boost::none_t&) { Py_RETURN_NONE; }
};
template <typename T, int R, int C, int O, int MR, int MC>
struct Give<Eigen::Matrix<T, R, C, O, MR, MC>> {
  static PyObject* give(const Eigen::Matrix<T, R, C, O, MR, MC>& v) { return give_matrix(v); }
};

// --- from Python ---------------------------------------------------------
// Load<T>: T without const and reference
template <typename T, typename = void>
struct Load {  // registered class
  T* p{nullptr};
  bool load(PyObject* o) { return (p = registered<T>(o)) != nullptr; }
  T& get() { return *p; }
};
template <typename T>
struct Load<T*, std::enable_if_t<std::is_class<T>::value>> {
  std::remove_const_t<T>* p{nullptr};
  bool load(PyObject* o) { return o == Py_None || (p = registered<std::remove_const_t<T>>(o)) != nullptr; }
  T* get() { return p; }
};
template <typename T>
struct Load<std::shared_ptr<T>> {
  std::shared_ptr<T> p;
  bool load(PyObject* o) {
    if (o == Py_None) return true;
    std::shared_ptr<void>* h = nullptr;
    auto* v = registered<T>(o, &h);
    if (v) p = std::shared_ptr<T>(*h, v);
    return v != nullptr;
  }
  std::shared_ptr<T>& get() { return p; }
};
template <typename T>
struct Value {
  T v{};
  T& get() { return v; }
};
template <typename T>
struct Load<T, std::enable_if_t<std::is_enum<T>::value>> : Value<T> {
  bool load(PyObject* o) {
    auto it = enums().find(typeid(T));
    if (it == enums().end() || PyObject_IsInstance(o, it->second) != 1) return false;
    auto i = object::steal(PyNumber_Long(o));
    this->v = static_cast<T>(PyLong_AsLongLong(i.ptr()));
    return true;
  }
};
template <typename T>
struct Load<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> : Value<T> {
  bool load(PyObject* o) {
    if (PyFloat_Check(o)) return false;
    auto* i = PyNumber_Index(o);
    if (!i) {
      PyErr_Clear();
      return false;
    }
    auto k = object::steal(i);
    if (std::is_signed<T>::value) {
      auto x = PyLong_AsLongLong(k.ptr());
      this->v = static_cast<T>(x);
      if (static_cast<long long>(this->v) != x) return false;
    } else {
      auto x = PyLong_AsUnsignedLongLong(k.ptr());
      this->v = static_cast<T>(x);
      if (static_cast<unsigned long long>(this->v) != x) return false;
    }
    if (PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    return true;
  }
};
template <>
struct Load<bool> : Value<bool> {
  bool load(PyObject* o) {
    if (o != Py_True && o != Py_False) {
      if (std::strncmp(Py_TYPE(o)->tp_name, "numpy.bool", 10)) return false;
      v = PyObject_IsTrue(o) == 1;
      return true;
    }
    v = o == Py_True;
    return true;
  }
};
template <typename T>
struct Load<T, std::enable_if_t<std::is_floating_point<T>::value>> : Value<T> {
  bool load(PyObject* o) {
    if (PyUnicode_Check(o)) return false;
    this->v = static_cast<T>(PyFloat_AsDouble(o));
    if (PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    return true;
  }
};
template <typename T>
struct Load<std::complex<T>> : Value<std::complex<T>> {
  bool load(PyObject* o) {
    auto c = PyComplex_AsCComplex(o);
    if (PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    this->v = {T(c.real), T(c.imag)};
    return true;
  }
};
template <>
struct Load<std::string> : Value<std::string> {
  bool load(PyObject* o) {
    if (!PyUnicode_Check(o)) return false;
    ssize_t n;
    auto* c = PyUnicode_AsUTF8AndSize(o, &n);
    if (!c) {
      PyErr_Clear();
      return false;
    }
    v.assign(c, size_t(n));
    return true;
  }
};
template <typename T>
struct Load<std::vector<T>> : Value<std::vector<T>> {
  bool load(PyObject* o) {
    if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
    auto n = PySequence_Size(o);
    for (ssize_t i = 0; i < n; ++i) {
      auto x = object::steal(PySequence_GetItem(o, i));
      Load<T> l;
      if (!l.load(x.ptr())) return false;
      this->v.push_back(l.get());
    }
    return true;
  }
};
template <typename A, typename B>
struct Load<std::pair<A, B>> : Value<std::pair<A, B>> {
  bool load(PyObject* o) {
    if (!PySequence_Check(o) || PySequence_Size(o) != 2) return false;
    auto x = object::steal(PySequence_GetItem(o, 0)), y = object::steal(PySequence_GetItem(o, 1));
    Load<A> a;
    Load<B> b;
    if (!a.load(x.ptr()) || !b.load(y.ptr())) return false;
    this->v = {a.get(), b.get()};
    return true;
  }
};
template <typename T>
struct Load<std::set<T>> : Value<std::set<T>> {
  bool load(PyObject* o) {
    if (!PyAnySet_Check(o)) return false;
    Load<std::vector<T>> l;
    if (!l.load(object::steal(PySequence_List(o)).ptr())) return false;
    this->v.insert(l.get().begin(), l.get().end());
    return true;
  }
};
template <typename K, typename V>
struct Load<std::map<K, V>> : Value<std::map<K, V>> {
  bool load(PyObject* o) {
    if (!PyDict_Check(o)) return false;
    PyObject *k, *x;
    ssize_t i = 0;
    while (PyDict_Next(o, &i, &k, &x)) {
      Load<K> a;
      Load<V> b;
      if (!a.load(k) || !b.load(x)) return false;
      this->v.emplace(a.get(), b.get());
    }
    return true;
  }
};
template <typename T>
struct Load<boost::optional<T>> : Value<boost::optional<T>> {
  bool load(PyObject* o) {
    if (o == Py_None) return true;
    Load<T> l;
    if (!l.load(o)) return false;
    this->v = l.get();
    return true;
  }
};
template <>
struct Load<handle> : Value<handle> {
  bool load(PyObject* o) {
    v = handle(o);
    return true;
  }
};
template <>
struct Load<object> : Value<object> {
  bool load(PyObject* o) {
    v = object::borrow(o);
    return true;
  }
};
#define SHIM_LOAD(T, CHECK)               \
  template <>                             \
  struct Load<T> : Value<T> {             \
    bool load(PyObject* o) {              \
      if (!CHECK(o)) return false;        \
      v = T(object::borrow(o));           \
      return true;                        \
    }                                     \
  };
SHIM_LOAD(list, PyList_Check)
SHIM_LOAD(tuple, PyTuple_Check)
SHIM_LOAD(dict, PyDict_Check)
#undef SHIM_LOAD
template <>
struct Load<str> {
  std::unique_ptr<str> s;
  bool load(PyObject* o) {
    if (!PyUnicode_Check(o)) return false;
    s.reset(new str(handle(o)));
    return true;
  }
  str& get() { return *s; }
};
template <>
struct Load<bytes> {
  object o;
  boost::optional<bytes> b;
  bool load(PyObject* p) {
    if (!PyBytes_Check(p)) return false;
    b = bytes(object::borrow(p));
    return true;
  }
  bytes& get() { return *b; }
};
template <typename T, int R, int C, int O, int MR, int MC>
struct Load<Eigen::Matrix<T, R, C, O, MR, MC>> : Value<Eigen::Matrix<T, R, C, O, MR, MC>> {
  bool load(PyObject* o) { return load_matrix(o, this->v); }
};
template <typename M, int O, typename S>
struct Load<Eigen::Ref<const M, O, S>> {
  using Strides = Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>;
  M m;
  std::vector<typename M::Scalar> view;
  std::unique_ptr<Eigen::Ref<const M, O, S>> r;
  void refer(std::false_type) { r.reset(new Eigen::Ref<const M, O, S>(m)); }
  // any strides are accepted: those of a view of a larger array, row after row
  void refer(std::true_type) {
    auto width = m.cols() + 1;
    view.assign(static_cast<size_t>(m.rows() * width + 1), typename M::Scalar(-77));
    for (Eigen::Index i = 0; i < m.rows(); ++i)
      for (Eigen::Index j = 0; j < m.cols(); ++j) view[static_cast<size_t>(i * width + j)] = m(i, j);
    r.reset(new Eigen::Ref<const M, O, S>(Eigen::Map<const M, 0, Strides>(view.data(), m.rows(), m.cols(), Strides(1, width))));
  }
  bool load(PyObject* o) {
    if (!load_matrix(o, m)) return false;
    refer(std::is_same<S, Strides>());
    return true;
  }
  Eigen::Ref<const M, O, S>& get() { return *r; }
};

// --- functions -----------------------------------------------------------
struct Argument {
  std::string name;
  object value;
};
struct Overload {
  std::function<PyObject*(std::vector<PyObject*>&)> call;
  std::vector<Argument> arguments;  // without self
  size_t count;                     // with self
  bool init{false};
};
struct Function {
  std::string name;
  std::vector<Overload> overloads;
  PyMethodDef def;
};
inline void translate() {
  try {
    throw;
  } catch (error_already_set&) {
    if (!PyErr_Occurred()) PyErr_SetString(PyExc_RuntimeError, "unknown error");
  } catch (value_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (type_error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (index_error& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (key_error& e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (attribute_error& e) {
    PyErr_SetString(PyExc_AttributeError, e.what());
  } catch (import_error& e) {
    PyErr_SetString(PyExc_ImportError, e.what());
  } catch (stop_iteration& e) {
    PyErr_SetString(PyExc_StopIteration, e.what());
  } catch (buffer_error& e) {
    PyErr_SetString(PyExc_BufferError, e.what());
  } catch (std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "unknown exception");
  }
}
inline PyObject* dispatch(PyObject* self, PyObject* args, PyObject* kwargs) {
  auto* f = static_cast<Function*>(PyCapsule_GetPointer(self, nullptr));
  auto given = size_t(PyTuple_GET_SIZE(args));
  for (auto& o : f->overloads) {
    std::vector<PyObject*> a;
    for (size_t i = 0; i < given; ++i) a.push_back(PyTuple_GET_ITEM(args, ssize_t(i)));
    if (a.size() > o.count) continue;
    size_t first = o.count - o.arguments.size(), used = 0;
    bool good = true;
    while (good && a.size() < o.count) {
      if (a.size() < first) {
        good = false;
        break;
      }
      auto& arg = o.arguments[a.size() - first];
      auto* v = kwargs && !arg.name.empty() ? PyDict_GetItemString(kwargs, arg.name.c_str()) : nullptr;
      if (v)
        ++used;
      else
        v = arg.value.ptr();
      good = v != nullptr;
      a.push_back(v);
    }
    if (!good || (kwargs && used != size_t(PyDict_GET_SIZE(kwargs)))) continue;
    try {
      without_gil() = false;
      auto* result = o.call(a);
      if (without_gil()) {
        without_gil() = false;
        Py_XDECREF(result);
        PyErr_SetString(PyExc_SystemError, "a Python object is used without the GIL");
        return nullptr;
      }
      return result;
    } catch (next_overload&) {
      continue;
    } catch (...) {
      translate();
      return nullptr;
    }
  }
  PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name.c_str());
  return nullptr;
}

template <typename T>
using Bare = std::remove_cv_t<std::remove_reference_t<T>>;

template <typename R>
struct Result {
  template <typename F, typename... L>
  static PyObject* of(F& f, L&&... l) {
    return detail::give(static_cast<Bare<R>>(f(std::forward<L>(l)...)));
  }
  template <typename G, typename F, typename... L>
  static PyObject* guarded(F& f, L&&... l) {
    auto r = [&]() -> R {
      G guard;
      return f(std::forward<L>(l)...);
    };
    return detail::give(static_cast<Bare<R>>(r()));
  }
};
template <>
struct Result<void> {
  template <typename F, typename... L>
  static PyObject* of(F& f, L&&... l) {
    f(std::forward<L>(l)...);
    Py_RETURN_NONE;
  }
  template <typename G, typename F, typename... L>
  static PyObject* guarded(F& f, L&&... l) {
    {
      G guard;
      f(std::forward<L>(l)...);
    }
    Py_RETURN_NONE;
  }
};
struct NoGuard {
  NoGuard() {}
};

template <typename A>
A pass(Load<Bare<A>>& l) {
  return static_cast<A>(l.get());
}

template <typename G, typename F, typename R, typename... A, size_t... I>
std::function<PyObject*(std::vector<PyObject*>&)> adapt(F f, R (*)(A...), std::index_sequence<I...>) {
  return [f](std::vector<PyObject*>& a) mutable -> PyObject* {
    std::tuple<Load<Bare<A>>...> l;
    bool good[] = {true, std::get<I>(l).load(a[I])...};
    for (bool b : good)
      if (!b) throw next_overload();
    return Result<R>::template guarded<G>(f, pass<A>(std::get<I>(l))...);
  };
}

// signature of anything callable
template <typename T>
struct Signature : Signature<decltype(&T::operator())> {};
template <typename R, typename C, typename... A>
struct Signature<R (C::*)(A...)> {
  using type = R (*)(A...);
  static constexpr size_t count = sizeof...(A);
  using indices = std::index_sequence_for<A...>;
};
template <typename R, typename C, typename... A>
struct Signature<R (C::*)(A...) const> : Signature<R (C::*)(A...)> {};
template <typename R, typename... A>
struct Signature<R (*)(A...)> {
  using type = R (*)(A...);
  static constexpr size_t count = sizeof...(A);
  using indices = std::index_sequence_for<A...>;
};

struct Options {
  std::vector<Argument> arguments;
  bool guard{false};
};
}  // namespace detail

struct arg_v {
  detail::Argument a;
};
struct arg {
  explicit arg(const char* n) : name(n) {}
  arg& noconvert(bool = true) { return *this; }
  arg& none(bool = true) { return *this; }
  template <typename T>
  arg_v operator=(const T& v) const {
    return arg_v{detail::Argument{name, object::steal(detail::give<T>(v))}};
  }
  const char* name;
};

namespace detail {
inline void option(Options& o, const arg& a) { o.arguments.push_back({a.name, object()}); }
inline void option(Options& o, const arg_v& a) { o.arguments.push_back(a.a); }
inline void option(Options& o, const call_guard<gil_scoped_release>&) { o.guard = true; }
inline void option(Options&, const char*) {}
inline void option(Options&, const std::string&) {}
inline void option(Options&, const doc&) {}
inline void option(Options&, const is_operator&) {}
inline void option(Options&, const prepend&) {}
inline void option(Options&, const kw_only&) {}
inline void option(Options&, const pos_only&) {}
inline void option(Options&, const return_value_policy&) {}
inline void option(Options&, const call_guard<>&) {}
template <size_t A, size_t B>
void option(Options&, const keep_alive<A, B>&) {}

template <typename F, typename... X>
Overload overload(F f, const X&... extra) {
  using S = Signature<F>;
  Options o;
  int dummy[] = {0, (option(o, extra), 0)...};
  (void)dummy;
  Overload r;
  r.call = o.guard ? adapt<gil_scoped_release>(f, typename S::type(nullptr), typename S::indices())
                   : adapt<NoGuard>(f, typename S::type(nullptr), typename S::indices());
  r.arguments = o.arguments;
  r.count = S::count;
  return r;
}
inline object make_function(const std::string& name, Overload o, Function** out = nullptr) {
  auto* f = new Function;
  f->name = name;
  f->overloads.push_back(std::move(o));
  f->def = {f->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr};
  if (out) *out = f;
  auto capsule = object::steal(PyCapsule_New(f, nullptr, nullptr));
  return object::steal(PyCFunction_New(&f->def, capsule.ptr()));
}
// functions by owner and name: overloads are added to the first one
inline std::map<std::pair<PyObject*, std::string>, Function*>& functions() {
  static std::map<std::pair<PyObject*, std::string>, Function*> m;
  return m;
}
inline void set(PyObject* o, const char* name, const object& v) {
  if (PyObject_SetAttrString(o, name, v.ptr())) throw error_already_set();
}
inline void add(PyObject* owner, const char* name, Overload o, bool method) {
  auto key = std::make_pair(owner, std::string(name));
  auto it = functions().find(key);
  if (it != functions().end()) {
    it->second->overloads.push_back(std::move(o));
    return;
  }
  Function* f;
  auto function = make_function(name, std::move(o), &f);
  functions()[key] = f;
  set(owner, name, method ? object::steal(PyInstanceMethod_New(function.ptr())) : function);
}
}  // namespace detail

inline namespace literals {
inline arg operator"" _a(const char* n, size_t) { return arg(n); }
}  // namespace literals

// --- conversions -------------------------------------------------------------
template <typename T>
object cast(const T& v, return_value_policy = return_value_policy::automatic) {
  return object::steal(detail::give(v));
}
template <typename T>
T handle::cast() const {
  detail::Load<detail::Bare<T>> l;
  if (!l.load(p_)) throw cast_error("Unable to cast Python instance to C++ type");
  return static_cast<T>(l.get());
}
template <typename T>
T cast(handle h) {
  return h.cast<T>();
}
template <typename... A>
tuple make_tuple(A&&... a) {
  return tuple(object::steal(detail::give(std::tuple<std::decay_t<A>...>(std::forward<A>(a)...))));
}
template <typename... A>
object handle::operator()(A&&... a) const {
  return object::steal(PyObject_CallObject(p_, pybind11::make_tuple(std::forward<A>(a)...).ptr()));
}
template <typename T>
bool handle::contains(const T& v) const {
  return PySequence_Contains(p_, pybind11::cast(v).ptr()) == 1;
}
template <typename T>
void list::append(const T& v) const {
  if (PyList_Append(p_, pybind11::cast(v).ptr())) throw error_already_set();
}
template <typename T>
dict::Item& dict::Item::operator=(const T& v) {
  if (PyObject_SetItem(d_, k_.ptr(), pybind11::cast(v).ptr())) throw error_already_set();
  return *this;
}
template <typename T>
bool isinstance(handle h) {
  detail::Load<T> l;
  return l.load(h.ptr());
}
inline bool hasattr(handle h, const char* name) { return PyObject_HasAttrString(h.ptr(), name) == 1; }
inline object getattr(handle h, const char* name) { return h.attr(name); }
inline void setattr(handle h, const char* name, handle v) {
  if (PyObject_SetAttrString(h.ptr(), name, v.ptr())) throw error_already_set();
}
inline size_t len(handle h) { return size_t(PyObject_Length(h.ptr())); }
template <typename... A>
struct overload_cast_impl {
  template <typename R>
  constexpr auto operator()(R (*f)(A...)) const {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const {
    return f;
  }
};
static constexpr auto const_ = std::true_type{};

class module_ : public object {
 public:
  explicit module_(object o) : object(std::move(o)) {}
  static module_ import(const char* name) { return module_(object::steal(PyImport_ImportModule(name))); }
  template <typename T>
  void add_object(const char* name, const T& v) {
    detail::set(p_, name, pybind11::cast(v));
  }
  template <typename F, typename... X>
  module_& def(const char* name, F f, const X&... extra) {
    detail::add(p_, name, detail::overload(f, extra...), false);
    return *this;
  }
  module_ def_submodule(const char* name, const char* = nullptr) {
    std::string full = str(attr("__name__"));
    full += std::string(".") + name;
    auto m = object::borrow(PyImport_AddModule(full.c_str()));
    detail::set(p_, name, m);
    return module_(m);
  }
};
using module = module_;

namespace detail {
inline PyObject* new_instance(PyTypeObject* t, PyObject*, PyObject*) { return t->tp_alloc(t, 0); }
inline void dealloc(PyObject* o) {
  auto* t = Py_TYPE(o);
  forget(reinterpret_cast<Instance*>(o));
  t->tp_free(o);
  Py_DECREF(t);
}
inline int no_init(PyObject* o, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(o)->tp_name);
  return -1;
}
template <typename T, typename B>
void* to_base(void* p) {
  return static_cast<B*>(static_cast<T*>(p));
}
template <typename T>
struct IsHolder : std::false_type {};
template <typename T>
struct IsHolder<std::shared_ptr<T>> : std::true_type {};
template <typename T, typename O, bool = std::is_base_of<O, T>::value && !std::is_same<O, T>::value>
struct Base {
  static void add(Type&) {}
};
template <typename T, typename O>
struct Base<T, O, true> {
  static void add(Type& t) { t.bases.emplace_back(typeid(O), &to_base<T, O>); }
};
template <typename... A>
struct Init {};
template <typename F>
struct InitWith {
  F f;
};
template <typename G, typename S>
struct Pickle {
  G g;
  S s;
};
}  // namespace detail
template <typename... A>
detail::Init<A...> init() {
  return {};
}
template <typename F>
detail::InitWith<F> init(F f) {
  return {f};
}
template <typename G, typename S>
detail::Pickle<G, S> pickle(G g, S s) {
  return {g, s};
}

template <typename T, typename... O>
class class_ : public object {
 public:
  template <typename... X>
  class_(handle scope, const char* name, const X&...) {
    detail::Type t;
    int dummy[] = {0, (detail::Base<T, O>::add(t), 0)...};
    (void)dummy;
    auto m = scope.attr(PyModule_Check(scope.ptr()) ? "__name__" : "__module__");
    auto* full = new std::string(std::string(str(m)) + "." + name);
    PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void*>(&detail::new_instance)},
                           {Py_tp_dealloc, reinterpret_cast<void*>(&detail::dealloc)},
                           {Py_tp_init, reinterpret_cast<void*>(&detail::no_init)},
                           {0, nullptr}};
    PyType_Spec spec = {full->c_str(), int(sizeof(detail::Instance)), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HEAPTYPE, slots};
    object bases;
    if (!t.bases.empty()) bases = object::steal(PyTuple_Pack(1, reinterpret_cast<PyObject*>(detail::types().at(t.bases[0].first).type)));
    auto o = object::steal(PyType_FromSpecWithBases(&spec, bases.ptr()));
    t.type = reinterpret_cast<PyTypeObject*>(o.ptr());
    detail::types()[typeid(T)] = t;
    detail::set(scope.ptr(), name, o);
    detail::set(o.ptr(), "__module__", m);
    p_ = o.release();
  }
  template <typename F, typename... X>
  class_& def(const char* name, F f, const X&... extra) {
    detail::add(p_, name, detail::overload(method(f), extra...), true);
    return *this;
  }
  template <typename... A, typename... X>
  class_& def(const detail::Init<A...>&, const X&... extra) {
    auto make = [](handle self, A... a) { keep(self, std::make_shared<T>(std::forward<A>(a)...)); };
    detail::add(p_, "__init__", detail::overload(make, extra...), true);
    return *this;
  }
  template <typename F, typename... X>
  class_& def(const detail::InitWith<F>& i, const X&... extra) {
    return with(i.f, typename detail::Signature<F>::type(nullptr), extra...);
  }
  template <typename G, typename S>
  class_& def(const detail::Pickle<G, S>& p) {
    def("__getstate__", p.g);
    auto s = p.s;
    auto set = [s](handle self, const bytes& state) {
      auto v = s(state);
      keep(self, std::make_shared<T>(std::move(v)));
    };
    detail::add(p_, "__setstate__", detail::overload(set), true);
    return *this;
  }
  template <typename F, typename... X>
  class_& def_static(const char* name, F f, const X&... extra) {
    auto function = detail::make_function(name, detail::overload(f, extra...));
    detail::set(p_, name, object::steal(PyStaticMethod_New(function.ptr())));
    return *this;
  }
  template <typename F, typename... X>
  class_& def_property_readonly(const char* name, F f, const X&...) {
    auto get = detail::make_function(name, detail::overload(method(f)));
    detail::set(p_, name, object::steal(PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyProperty_Type), "O", get.ptr())));
    return *this;
  }
  template <typename M, typename B, typename... X>
  class_& def_readonly(const char* name, M B::*m, const X&...) {
    return def_property_readonly(name, [m](const T& self) -> M { return self.*m; });
  }
  template <typename M, typename B, typename... X>
  class_& def_readwrite(const char* name, M B::*m, const X&...) {
    return def_property(name, [m](const T& self) -> M { return self.*m; }, [m](T& self, const M& v) { self.*m = v; });
  }
  template <typename F, typename S, typename... X>
  class_& def_property(const char* name, F f, S s, const X&...) {
    auto get = detail::make_function(name, detail::overload(method(f)));
    auto put = detail::make_function(name, detail::overload(method(s)));
    detail::set(p_, name, object::steal(PyObject_CallFunction(reinterpret_cast<PyObject*>(&PyProperty_Type), "OO", get.ptr(), put.ptr())));
    return *this;
  }

 private:
  static void keep(handle self, std::shared_ptr<T> v) {
    detail::hold(reinterpret_cast<detail::Instance*>(self.ptr()), std::const_pointer_cast<std::remove_const_t<T>>(v), typeid(T));
  }
  template <typename F, typename R, typename... A, typename... X>
  class_& with(F f, R (*)(A...), const X&... extra) {
    auto make = [f](handle self, A... a) { keep(self, std::make_shared<T>(f(std::forward<A>(a)...))); };
    detail::add(p_, "__init__", detail::overload(make, extra...), true);
    return *this;
  }
  template <typename F>
  static F method(F f) {
    return f;
  }
  template <typename R, typename C, typename... A>
  static auto method(R (C::*f)(A...)) {
    return [f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
  }
  template <typename R, typename C, typename... A>
  static auto method(R (C::*f)(A...) const) {
    return [f](const T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
  }
};

template <typename T>
class enum_ : public object {
 public:
  template <typename... X>
  enum_(handle scope, const char* name, const X&...) : scope_(scope) {
    auto make = detail::evaluate(R"(
def make(name, module):
    class Enumeration:
        def __new__(cls, value):
            return cls._values[int(value)]
        def __int__(self):
            return self.value
        def __index__(self):
            return self.value
        def __hash__(self):
            return hash(self.value)
        def __eq__(self, other):
            return type(self) is type(other) and self.value == other.value
        def __repr__(self):
            return '<%s.%s: %d>' % (type(self).__name__, self.name, self.value)
    def add(cls, name, value):
        self = object.__new__(cls)
        self.name, self.value = name, value
        cls._values.setdefault(value, self)
        cls.__members__[name] = self
        setattr(cls, name, self)
        return self
    Enumeration._values, Enumeration.__members__ = {}, {}
    Enumeration.__name__ = Enumeration.__qualname__ = name
    Enumeration.__module__ = module
    Enumeration._add = classmethod(add)
    return Enumeration
)",
                                 "make");
    auto m = scope.attr(PyModule_Check(scope.ptr()) ? "__name__" : "__module__");
    p_ = object::steal(PyObject_CallFunction(make.ptr(), "sO", name, m.ptr())).release();
    Py_INCREF(p_);
    detail::enums()[typeid(T)] = p_;
    detail::set(scope.ptr(), name, *this);
  }
  template <typename... X>
  enum_& value(const char* name, T v, const X&...) {
    object::steal(PyObject_CallMethod(p_, "_add", "sL", name, static_cast<long long>(v)));
    return *this;
  }
  enum_& export_values() {
    auto members = attr("__members__");
    PyObject *k, *v;
    ssize_t i = 0;
    while (PyDict_Next(members.ptr(), &i, &k, &v))
      if (PyObject_SetAttr(scope_.ptr(), k, v)) throw error_already_set();
    return *this;
  }

 private:
  handle scope_;
};

// --- arrays ------------------------------------------------------------------
class dtype : public object {
 public:
  explicit dtype(object o) : object(std::move(o)) {}
};
namespace detail {
struct DescriptorProxy {
  int type_num;
};
inline DescriptorProxy* array_descriptor_proxy(PyObject* o) {
  static thread_local DescriptorProxy p;
  p.type_num = int(PyLong_AsLong(handle(o).attr("num").ptr()));
  return &p;
}
}  // namespace detail
class array : public object {
 public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  array() = default;
  explicit array(object o) : object(std::move(o)) {}
  pybind11::dtype dtype() const { return pybind11::dtype(attr("dtype")); }
  // (reading the description of an array needs no GIL)
  ssize_t size() const { return number("size"); }
  template <typename T>
  struct View {
    const char* first;
    ssize_t n, stride;
    ssize_t size() const { return n; }
    ssize_t shape(ssize_t) const { return n; }
    const T* data(ssize_t i) const { return &(*this)(i); }
    const T& operator[](ssize_t i) const { return (*this)(i); }
    const T& operator()(ssize_t i) const { return *reinterpret_cast<const T*>(first + i * stride); }
  };
  ssize_t ndim() const { return number("ndim"); }
  ssize_t itemsize() const { return number("itemsize"); }
  ssize_t nbytes() const { return number("nbytes"); }
  ssize_t number(const char* name) const {
    Gil gil;
    return PyLong_AsSsize_t(attr(name).ptr());
  }
  ssize_t shape(ssize_t i) const {
    Gil gil;
    return PyLong_AsSsize_t(attr("shape")[i].ptr());
  }
  ssize_t strides(ssize_t i) const {
    Gil gil;
    return PyLong_AsSsize_t(attr("strides")[i].ptr());
  }
  template <typename... I>
  const void* data(I... i) const {
    Gil gil;
    ssize_t index[] = {ssize_t(i)..., 0};
    auto interface = attr("__array_interface__");
    auto* p = static_cast<const char*>(PyLong_AsVoidPtr(interface["data"][ssize_t(0)].ptr()));
    for (size_t k = 0; k < sizeof...(I); ++k) p += index[k] * strides(ssize_t(k));
    return p;
  }
  template <typename... I>
  void* mutable_data(I... i) {
    return const_cast<void*>(data(i...));
  }
  template <typename T, int N = 1>
  View<T> unchecked() const {
    static_assert(N == 1, "");
    Gil gil;
    if (PyLong_AsLong(attr("ndim").ptr()) != 1) throw std::domain_error("array has incorrect number of dimensions");
    auto ctypes = object::steal(PyDict_GetItemString(attr("__array_interface__").ptr(), "data") ? PyObject_GetAttrString(p_, "__array_interface__") : nullptr);
    auto* d = PyDict_GetItemString(ctypes.ptr(), "data");
    auto* address = PyLong_AsVoidPtr(PyTuple_GetItem(d, 0));
    auto strides = attr("strides");
    return {static_cast<const char*>(address), size(), PyLong_AsSsize_t(PyTuple_GetItem(strides.ptr(), 0))};
  }
};
namespace detail {
template <>
struct Load<array> : Value<array> {
  bool load(PyObject* o) {
    auto* r = PyObject_CallFunction(object::steal(numpy("asarray")).ptr(), "O", o);
    if (!r) {
      PyErr_Clear();
      return false;
    }
    v = array(object::steal(r));
    return true;
  }
};
}  // namespace detail
template <typename T, int = 0>
class array_t : public array {
 public:
  struct MutableView : array::View<T> {
    explicit MutableView(array::View<T> v) : array::View<T>(v) {}
    T& operator()(ssize_t i) const { return const_cast<T&>(array::View<T>::operator()(i)); }
    T& operator[](ssize_t i) const { return (*this)(i); }
  };
  array_t() : array_t(ssize_t(0)) {}
  explicit array_t(object o) : array(std::move(o)) {}
  explicit array_t(ssize_t n)
      : array(object::steal(PyObject_CallFunction(object::steal(detail::numpy("zeros")).ptr(), "ns", n, detail::Format<T>::name()))) {}
  array_t(ssize_t n, const T* v) : array_t(n) {
    if (n > 0) std::memcpy(mutable_data(), v, size_t(n) * sizeof(T));
  }
  template <typename... I>
  const T* data(I... i) const {
    return static_cast<const T*>(array::data(i...));
  }
  template <typename... I>
  T* mutable_data(I... i) {
    return static_cast<T*>(array::mutable_data(i...));
  }
  const T& at(ssize_t i) const {
    if (i < 0 || i >= size()) throw index_error("index out of bounds");
    return *data(i);
  }
  template <int N = 1>
  array::View<T> unchecked() const {
    return array::unchecked<T, N>();
  }
  template <int N = 1>
  MutableView mutable_unchecked() {
    return MutableView(array::unchecked<T, N>());
  }
};
namespace detail {
template <typename T, int F>
struct Load<array_t<T, F>> : Value<array_t<T, F>> {
  bool load(PyObject* o) {
    auto* r = PyObject_CallFunction(object::steal(numpy("asarray")).ptr(), "Os", o, Format<T>::name());
    if (!r) {
      PyErr_Clear();
      return false;
    }
    this->v = array_t<T, F>(object::steal(r));
    return true;
  }
};
template <typename T, typename = void>
struct type_caster {};
template <typename T>
struct optional_caster {};
template <typename T>
struct void_caster {};
}  // namespace detail

template <typename I>
iterator make_iterator(I begin, I end) {
  auto l = object::steal(PyList_New(0));
  for (; begin != end; ++begin) {
    auto x = object::steal(detail::give(detail::Bare<decltype(*begin)>(*begin)));
    if (PyList_Append(l.ptr(), x.ptr())) throw error_already_set();
  }
  return iterator(object::steal(PyObject_GetIter(l.ptr())));
}
}  // namespace pybind11

#define PYBIND11_OVERRIDE(R, C, NAME, ...) return C::NAME(__VA_ARGS__)
#define PYBIND11_OVERLOAD PYBIND11_OVERRIDE
#define PYBIND11_OVERLOAD_PURE(R, C, NAME, ...) throw std::runtime_error("pure virtual function")
#define PYBIND11_OVERRIDE_PURE PYBIND11_OVERLOAD_PURE
#define PYBIND11_MODULE(NAME, VAR)                                                        \
  static void shim_init_##NAME(pybind11::module_&);                                       \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##NAME() {            \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
    try {                                                                                 \
      pybind11::module_ m(pybind11::object::steal(PyModule_Create(&def)));                \
      shim_init_##NAME(m);                                                                \
      return m.release();                                                                 \
    } catch (...) {                                                                       \
      pybind11::detail::translate();                                                      \
      return nullptr;                                                                     \
    }                                                                                     \
  }                                                                                       \
  void shim_init_##NAME(pybind11::module_& VAR)
