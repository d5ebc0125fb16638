// Stand-in for the few parts of pybind11 that the Python module uses, with its conversions and its translation of exceptions:
// integers are not made of floats, numbers out of range are a TypeError, text is UTF-8.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace pybind11 {

struct arg {
  const char* name;
  explicit arg(const char* n) : name(n) {}
  template <class T> arg& operator=(const T&) { return *this; }
};
namespace literals {
inline arg operator""_a(const char* n, size_t) { return arg(n); }
}
struct error_already_set : std::exception {};
struct call_guard_tag {};
template <class...> struct call_guard {};
struct gil_scoped_release { PyThreadState* s = PyEval_SaveThread(); ~gil_scoped_release() { PyEval_RestoreThread(s); } };

namespace detail {

template <class T, class = void> struct caster;

template <class T>
struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static bool load(PyObject* o, T& v) {
    if (PyFloat_Check(o)) return false;
    PyObject* i = PyNumber_Index(o);
    if (!i) { PyErr_Clear(); return false; }
    bool ok = true;
    if (std::is_unsigned<T>::value) {
      unsigned long long x = PyLong_AsUnsignedLongLong(i);
      if (PyErr_Occurred()) { PyErr_Clear(); ok = false; }
      else { v = (T)x; ok = (unsigned long long)v == x; }
    } else {
      long long x = PyLong_AsLongLong(i);
      if (PyErr_Occurred()) { PyErr_Clear(); ok = false; }
      else { v = (T)x; ok = (long long)v == x; }
    }
    Py_DECREF(i);
    return ok;
  }
  static PyObject* give(T v) { return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong((unsigned long long)v) : PyLong_FromLongLong((long long)v); }
};
template <>
struct caster<bool> {
  static bool load(PyObject* o, bool& v) { if (!PyBool_Check(o)) return false; v = o == Py_True; return true; }
  static PyObject* give(bool v) { return PyBool_FromLong(v); }
};
template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static bool load(PyObject* o, T& v) {
    double x = PyFloat_AsDouble(o);
    if (x == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
    v = (T)x;
    return true;
  }
  static PyObject* give(T v) { return PyFloat_FromDouble(v); }
};
template <>
struct caster<std::string> {
  static bool load(PyObject* o, std::string& v) {
    if (PyUnicode_Check(o)) {
      Py_ssize_t n;
      const char* s = PyUnicode_AsUTF8AndSize(o, &n);
      if (!s) { PyErr_Clear(); return false; }
      v.assign(s, (size_t)n);
      return true;
    }
    if (PyBytes_Check(o)) { v.assign(PyBytes_AS_STRING(o), (size_t)PyBytes_GET_SIZE(o)); return true; }
    return false;
  }
  static PyObject* give(const std::string& v) { return PyUnicode_DecodeUTF8(v.data(), (Py_ssize_t)v.size(), nullptr); }
};
template <class T, class A>
struct caster<std::vector<T, A>> {
  static bool load(PyObject* o, std::vector<T, A>& v) {
    if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false;
    Py_ssize_t n = PySequence_Size(o);
    if (n < 0) { PyErr_Clear(); return false; }
    v.clear();
    for (Py_ssize_t i = 0; i < n; i++) {
      PyObject* x = PySequence_GetItem(o, i);
      T y{};
      bool ok = x && caster<T>::load(x, y);
      Py_XDECREF(x);
      if (!ok) { PyErr_Clear(); return false; }
      v.push_back(std::move(y));
    }
    return true;
  }
  static PyObject* give(const std::vector<T, A>& v) {
    PyObject* l = PyList_New((Py_ssize_t)v.size());
    for (size_t i = 0; l && i < v.size(); i++) {
      PyObject* x = caster<T>::give(v[i]);
      if (!x) { Py_DECREF(l); return nullptr; }
      PyList_SET_ITEM(l, (Py_ssize_t)i, x);
    }
    return l;
  }
};
template <class K, class T, class C, class A>
struct caster<std::map<K, T, C, A>> {
  static bool load(PyObject* o, std::map<K, T, C, A>& v) {
    if (!PyDict_Check(o)) return false;
    v.clear();
    PyObject *k, *x;
    Py_ssize_t at = 0;
    while (PyDict_Next(o, &at, &k, &x)) {
      K a{};
      T b{};
      if (!caster<K>::load(k, a) || !caster<T>::load(x, b)) return false;
      v.emplace(std::move(a), std::move(b));
    }
    return true;
  }
  static PyObject* give(const std::map<K, T, C, A>& v) {
    PyObject* d = PyDict_New();
    for (auto& e : v) {
      PyObject *k = caster<K>::give(e.first), *x = caster<T>::give(e.second);
      int bad = !k || !x || PyDict_SetItem(d, k, x);
      Py_XDECREF(k);
      Py_XDECREF(x);
      if (bad) { Py_DECREF(d); return nullptr; }
    }
    return d;
  }
};

inline void translate() {
  try { throw; }
  catch (const error_already_set&) {}
  catch (const std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
  catch (const std::domain_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::length_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
  catch (const std::range_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
  catch (const std::overflow_error& e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
  catch (const std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
  catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}

struct function_base {
  std::string name, doc;
  std::vector<std::string> names;
  PyMethodDef def{};
  virtual ~function_base() {}
  virtual PyObject* call(PyObject* const* args) = 0;
  virtual size_t arity() const = 0;

  static PyObject* enter(PyObject* self, PyObject* args, PyObject* kw) {
    auto* f = (function_base*)PyCapsule_GetPointer(self, nullptr);
    size_t n = (size_t)PyTuple_GET_SIZE(args), want = f->arity();
    std::vector<PyObject*> a(want, nullptr);
    bool ok = n <= want;
    for (size_t i = 0; ok && i < n; i++) a[i] = PyTuple_GET_ITEM(args, (Py_ssize_t)i);
    if (ok && kw) {
      PyObject *k, *v;
      Py_ssize_t at = 0;
      while (ok && PyDict_Next(kw, &at, &k, &v)) {
        bool found = false;
        for (size_t i = n; i < want && i < f->names.size(); i++)
          if (PyUnicode_CompareWithASCIIString(k, f->names[i].c_str()) == 0) { a[i] = v; found = true; }
        ok = found;
      }
    }
    for (auto* x : a) ok = ok && x;
    PyObject* r = nullptr;
    if (ok) {
      try {
        r = f->call(a.data());
        if (!r && !PyErr_Occurred()) ok = false;
      } catch (...) { translate(); return nullptr; }
    }
    if (!ok) PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", f->name.c_str());
    return r;
  }
};

template <class F, class R, class... A>
struct function : function_base {
  F f;
  explicit function(F g) : f(std::move(g)) {}
  size_t arity() const override { return sizeof...(A); }
  template <size_t... I>
  PyObject* go(PyObject* const* args, std::index_sequence<I...>) {
    std::tuple<std::decay_t<A>...> v;
    bool ok = true;
    (void)std::initializer_list<int>{(ok = ok && caster<std::decay_t<A>>::load(args[I], std::get<I>(v)), 0)...};
    if (!ok) return nullptr;
    if constexpr (std::is_void<R>::value) {
      f(std::get<I>(v)...);
      Py_RETURN_NONE;
    } else {
      return caster<std::decay_t<R>>::give(f(std::get<I>(v)...));
    }
  }
  PyObject* call(PyObject* const* args) override { return go(args, std::index_sequence_for<A...>()); }
};
template <class R, class... A>
std::unique_ptr<function_base> wrap(R (*f)(A...)) { return std::unique_ptr<function_base>(new function<R (*)(A...), R, A...>(f)); }
template <class F, class R, class... A>
std::unique_ptr<function_base> wrapLambda(F f, R (F::*)(A...) const) { return std::unique_ptr<function_base>(new function<F, R, A...>(std::move(f))); }
template <class F, class = decltype(&F::operator())>
std::unique_ptr<function_base> wrap(F f) { return wrapLambda(std::move(f), &F::operator()); }

inline void extra(function_base& f, const char* doc) { f.doc = doc; }
inline void extra(function_base& f, const arg& a) { f.names.push_back(a.name); }
template <class... G> void extra(function_base&, const call_guard<G...>&) {}

}  // namespace detail

class module_ {
  PyObject* m;
  struct text {
    PyObject* m;
    text& operator=(const char* s) { PyModule_SetDocString(m, s); return *this; }
    text& operator=(const std::string& s) { return *this = s.c_str(); }
  };

 public:
  explicit module_(PyObject* o) : m(o) {}
  text doc() { return {m}; }
  text attr(const char*) { return {m}; }
  template <class F, class... E>
  module_& def(const char* name, F&& f, const E&... e) {
    detail::function_base* x = detail::wrap(std::forward<F>(f)).release();  // lives as long as the module
    x->name = name;
    (void)std::initializer_list<int>{(detail::extra(*x, e), 0)...};
    x->def.ml_name = x->name.c_str();
    x->def.ml_meth = (PyCFunction)(void*)(PyCFunctionWithKeywords)detail::function_base::enter;
    x->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    x->def.ml_doc = x->doc.c_str();
    PyObject* self = PyCapsule_New(x, nullptr, nullptr);
    PyObject* fn = PyCFunction_New(&x->def, self);
    Py_DECREF(self);
    PyModule_AddObject(m, name, fn);
    return *this;
  }
};
using module = module_;

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                                                   \
  static void pybind11_init_##name(::pybind11::module_&);                                                                 \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() {                                           \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};    \
    PyObject* m = PyModule_Create(&def);                                                                                  \
    if (!m) return nullptr;                                                                                               \
    try { ::pybind11::module_ x(m); pybind11_init_##name(x); } catch (...) { ::pybind11::detail::translate(); return nullptr; } \
    return m;                                                                                                             \
  }                                                                                                                       \
  static void pybind11_init_##name(::pybind11::module_& variable)
