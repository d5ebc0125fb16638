// Stand-in for the parts of emscripten's binding interface that the wasm module uses: the registered functions become functions
// of a native addon of node (napi.cpp). Numbers, text and arrays are converted as there; an exception becomes an Error.
#pragma once
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace emscripten {

struct BadArgument : std::runtime_error { using std::runtime_error::runtime_error; };

// a value of the scripting side
class val {
 public:
  struct Data;
  std::shared_ptr<Data> d;
  static val number(double v);
  static val text(const std::string& s);
  static val boolean(bool b);
  static val nothing();
  static val list(const std::vector<val>& v);
  double asNumber() const;
  std::string asText() const;
  bool asBoolean() const;
  std::vector<val> asList() const;
  template <class T, class A> static val array(const std::vector<T, A>& v);
};

namespace internal {
typedef const void* TYPEID;
template <class T> struct Canonicalized { typedef std::remove_cv_t<std::remove_reference_t<T>> type; };
template <class T, class = void> struct TypeID { static constexpr TYPEID get() { return nullptr; } };

template <class T, class = void> struct BindingType;
template <> struct BindingType<val> {
  typedef val WireType;
  static val toWireType(const val& v) { return v; }
  static val fromWireType(const val& v) { return v; }
};
template <class T> struct BindingType<T, std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>> {
  typedef val WireType;
  static val toWireType(T v) { return val::number((double)v); }
  static T fromWireType(const val& v) {
    double x = v.asNumber();
    if (std::is_integral<T>::value) {
      // as in a build with assertions
      if (!(x == (double)(long long)x) || (std::is_unsigned<T>::value && x < 0)) throw BadArgument("a number cannot be converted to an integer");
      if (sizeof(T) <= 4 && (x > 4294967295.0 || x < -2147483648.0)) throw BadArgument("a number is out of range");
    }
    return (T)x;
  }
};
template <> struct BindingType<bool> {
  typedef val WireType;
  static val toWireType(bool v) { return val::boolean(v); }
  static bool fromWireType(const val& v) { return v.asBoolean(); }
};
template <> struct BindingType<std::string> {
  typedef val WireType;
  static val toWireType(const std::string& v) { return val::text(v); }
  static std::string fromWireType(const val& v) { return v.asText(); }
};

typedef std::function<val(const std::vector<val>&)> Callable;
struct Entry { std::string name; size_t arity; Callable call; };
std::vector<Entry>& registry();

template <class R, class... A, size_t... I>
Callable wrap(R (*f)(A...), std::index_sequence<I...>) {
  return [f](const std::vector<val>& a) -> val {
    if constexpr (std::is_void<R>::value) {
      f(BindingType<std::decay_t<A>>::fromWireType(a[I])...);
      return val::nothing();
    } else {
      return BindingType<std::decay_t<R>>::toWireType(f(BindingType<std::decay_t<A>>::fromWireType(a[I])...));
    }
  };
}
}  // namespace internal

template <class T, class A>
val val::array(const std::vector<T, A>& v) {
  std::vector<val> l;
  for (const auto& x : v) l.push_back(internal::BindingType<T>::toWireType(x));
  return list(l);
}
template <class T>
std::vector<T> vecFromJSArray(const val& v) {
  std::vector<T> r;
  for (auto& x : v.asList()) r.push_back(internal::BindingType<T>::fromWireType(x));
  return r;
}

template <class R, class... A, class... P>
void function(const char* name, R (*f)(A...), P...) {
  internal::registry().push_back({name, sizeof...(A), internal::wrap(f, std::index_sequence_for<A...>())});
}
template <class C> struct value_object {
  explicit value_object(const char*) {}
  template <class M> value_object& field(const char*, M C::*) { return *this; }
};

struct Registration { explicit Registration(void (*f)()) { f(); } };

}  // namespace emscripten

#define EMSCRIPTEN_BINDINGS(name)                                          \
  static void embind_init_##name();                                        \
  static emscripten::Registration embind_register_##name(embind_init_##name); \
  static void embind_init_##name()
