#include <emscripten/bind.h>
#include <node_api.h>

extern "C" const char* twin_call(const char* text);

namespace emscripten {

struct val::Data {
  int kind = 0;  // 0 nothing, 1 number, 2 text, 3 boolean, 4 list
  double n = 0;
  std::string s;
  std::vector<val> l;
};
static val fresh(int kind) { val v; v.d = std::make_shared<val::Data>(); v.d->kind = kind; return v; }
val val::number(double x) { val v = fresh(1); v.d->n = x; return v; }
val val::text(const std::string& s) { val v = fresh(2); v.d->s = s; return v; }
val val::boolean(bool b) { val v = fresh(3); v.d->n = b; return v; }
val val::nothing() { return fresh(0); }
val val::list(const std::vector<val>& l) { val v = fresh(4); v.d->l = l; return v; }
double val::asNumber() const {
  if (d->kind == 3 || d->kind == 1) return d->n;
  throw BadArgument("not a number");
}
std::string val::asText() const { if (d->kind != 2) throw BadArgument("not a text"); return d->s; }
bool val::asBoolean() const { return d->kind == 3 || d->kind == 1 ? d->n != 0 : d->kind != 0; }
std::vector<val> val::asList() const { if (d->kind != 4) throw BadArgument("not an array"); return d->l; }

namespace internal {
std::vector<Entry>& registry() { static auto* r = new std::vector<Entry>; return *r; }
}

static val fromJs(napi_env e, napi_value v) {
  napi_valuetype t;
  napi_typeof(e, v, &t);
  if (t == napi_number) { double x; napi_get_value_double(e, v, &x); return val::number(x); }
  if (t == napi_boolean) { bool b; napi_get_value_bool(e, v, &b); return val::boolean(b); }
  if (t == napi_bigint) { uint64_t x; bool l; napi_get_value_bigint_uint64(e, v, &x, &l); return val::number((double)x); }
  if (t == napi_string) {
    size_t n;
    napi_get_value_string_utf8(e, v, nullptr, 0, &n);
    std::string s(n + 1, 0);
    napi_get_value_string_utf8(e, v, &s[0], n + 1, &n);
    s.resize(n);
    return val::text(s);
  }
  bool list = false;
  if (t == napi_object) napi_is_array(e, v, &list);
  if (list) {
    uint32_t n;
    napi_get_array_length(e, v, &n);
    std::vector<val> l;
    for (uint32_t i = 0; i < n; i++) { napi_value x; napi_get_element(e, v, i, &x); l.push_back(fromJs(e, x)); }
    return val::list(l);
  }
  return val::nothing();
}
static napi_value toJs(napi_env e, const val& v) {
  napi_value r;
  switch (v.d->kind) {
    case 1: napi_create_double(e, v.d->n, &r); return r;
    case 2: napi_create_string_utf8(e, v.d->s.data(), v.d->s.size(), &r); return r;
    case 3: napi_get_boolean(e, v.d->n != 0, &r); return r;
    case 4:
      napi_create_array(e, &r);
      for (size_t i = 0; i < v.d->l.size(); i++) napi_set_element(e, r, (uint32_t)i, toJs(e, v.d->l[i]));
      return r;
    default: napi_get_undefined(e, &r); return r;
  }
}
static napi_value enter(napi_env e, napi_callback_info info) {
  size_t n = 16;
  napi_value a[16];
  void* data;
  napi_get_cb_info(e, info, &n, a, nullptr, &data);
  auto* f = (internal::Entry*)data;
  try {
    std::vector<val> v;
    for (size_t i = 0; i < n; i++) v.push_back(fromJs(e, a[i]));
    if (n != f->arity) throw BadArgument(f->name + " called with " + std::to_string(n) + " arguments");
    return toJs(e, f->call(v));
  } catch (const std::exception& x) {
    napi_throw_error(e, nullptr, x.what());
    return nullptr;
  }
}
}  // namespace emscripten

static napi_value twin(napi_env e, napi_callback_info info) {
  size_t n = 1;
  napi_value a[1];
  napi_get_cb_info(e, info, &n, a, nullptr, nullptr);
  napi_value r;
  std::string s = twin_call(emscripten::fromJs(e, a[0]).asText().c_str());
  napi_create_string_utf8(e, s.data(), s.size(), &r);
  return r;
}

extern "C" __attribute__((visibility("default"))) napi_value napi_register_module_v1(napi_env e, napi_value exports) {
  for (auto& f : emscripten::internal::registry()) {
    napi_value v;
    napi_create_function(e, f.name.c_str(), f.name.size(), emscripten::enter, &f, &v);
    napi_set_named_property(e, exports, f.name.c_str(), v);
  }
  napi_value v;
  napi_create_function(e, "twin", 4, twin, nullptr, &v);
  napi_set_named_property(e, exports, "twin", v);
  return exports;
}
