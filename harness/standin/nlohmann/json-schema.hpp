// Stands in for pboettch/json-schema-validator, which is not installed here: the part of JSON schema draft 7 that needs no
// references. A keyword it does not know makes it refuse the schema, so that nothing is silently accepted.
#pragma once
#include <cmath>
#include <functional>
#include <nlohmann/json.hpp>
#include <regex>
#include <set>
#include <stdexcept>
#include <string>

namespace nlohmann {
namespace json_schema {

inline void default_string_format_check(const std::string& format, const std::string& value) {
  if (format != "date") throw std::logic_error("unknown format " + format);
  static const std::regex re("([0-9]{4})-([0-9]{2})-([0-9]{2})");
  std::smatch m;
  if (!std::regex_match(value, m, re)) throw std::invalid_argument(value + " is not a date string");
  int y = std::stoi(m[1]), mo = std::stoi(m[2]), d = std::stoi(m[3]);
  static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  if (mo < 1 || mo > 12 || d < 1 || d > days[mo - 1] + (mo == 2 && leap)) throw std::invalid_argument(value + " is not a date string");
}

class json_validator {
  nlohmann::json root;
  std::function<void(const std::string&, const std::string&)> format;

  static bool is(const nlohmann::json& v, const std::string& t) {
    if (t == "string") return v.is_string();
    if (t == "object") return v.is_object();
    if (t == "array") return v.is_array();
    if (t == "boolean") return v.is_boolean();
    if (t == "null") return v.is_null();
    if (t == "number") return v.is_number();
    if (t == "integer") return v.is_number_integer() || (v.is_number_float() && v.get<double>() == std::trunc(v.get<double>()));
    throw std::invalid_argument("unknown type in the schema: " + t);
  }
  [[noreturn]] static void no(const std::string& at, const std::string& why) { throw std::invalid_argument("At " + at + ": " + why); }

  void check(const nlohmann::json& s, const nlohmann::json& v, const std::string& at) const {
    if (s.is_boolean()) {
      if (!s.get<bool>()) no(at, "nothing is allowed here");
      return;
    }
    for (auto it = s.begin(); it != s.end(); ++it) {
      const std::string& k = it.key();
      const auto& x = it.value();
      if (k == "type") {
        bool ok = false;
        if (x.is_array()) for (auto& t : x) ok = ok || is(v, t.get<std::string>());
        else ok = is(v, x.get<std::string>());
        if (!ok) no(at, "unexpected instance type");
      } else if (k == "enum") {
        bool ok = false;
        for (auto& e : x) ok = ok || e == v;
        if (!ok) no(at, "instance not found in required enum");
      } else if (k == "const") { if (x != v) no(at, "instance not const");
      } else if (k == "required") {
        if (v.is_object()) for (auto& r : x) if (!v.contains(r.get<std::string>())) no(at, "required property '" + r.get<std::string>() + "' not found in object");
      } else if (k == "properties") {
        if (v.is_object()) for (auto p = x.begin(); p != x.end(); ++p) if (v.contains(p.key())) check(p.value(), v.at(p.key()), at + "/" + p.key());
      } else if (k == "patternProperties") {
        if (v.is_object()) for (auto p = x.begin(); p != x.end(); ++p) {
          std::regex re(p.key(), std::regex::ECMAScript);
          for (auto f = v.begin(); f != v.end(); ++f) if (std::regex_search(f.key(), re)) check(p.value(), f.value(), at + "/" + f.key());
        }
      } else if (k == "additionalProperties") {
        if (!v.is_object()) continue;
        for (auto f = v.begin(); f != v.end(); ++f) {
          if (s.contains("properties") && s["properties"].contains(f.key())) continue;
          bool matched = false;
          if (s.contains("patternProperties"))
            for (auto p = s["patternProperties"].begin(); p != s["patternProperties"].end(); ++p) matched = matched || std::regex_search(f.key(), std::regex(p.key()));
          if (!matched) check(x, f.value(), at + "/" + f.key());
        }
      } else if (k == "items") {
        if (!v.is_array()) continue;
        if (x.is_array()) { for (size_t i = 0; i < x.size() && i < v.size(); i++) check(x[i], v[i], at + "/" + std::to_string(i)); }
        else for (size_t i = 0; i < v.size(); i++) check(x, v[i], at + "/" + std::to_string(i));
      } else if (k == "minItems") { if (v.is_array() && v.size() < x.get<size_t>()) no(at, "array has too few items");
      } else if (k == "maxItems") { if (v.is_array() && v.size() > x.get<size_t>()) no(at, "array has too many items");
      } else if (k == "minLength") { if (v.is_string() && v.get<std::string>().size() < x.get<size_t>()) no(at, "instance is too short");
      } else if (k == "maxLength") { if (v.is_string() && v.get<std::string>().size() > x.get<size_t>()) no(at, "instance is too long");
      } else if (k == "pattern") { if (v.is_string() && !std::regex_search(v.get<std::string>(), std::regex(x.get<std::string>()))) no(at, "instance does not match regex pattern");
      } else if (k == "uniqueItems") { if (v.is_array() && x.get<bool>()) for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (v[i] == v[j]) no(at, "items have to be unique");
      } else if (k == "minimum") { if (v.is_number() && v.get<double>() < x.get<double>()) no(at, "instance is below minimum");
      } else if (k == "maximum") { if (v.is_number() && v.get<double>() > x.get<double>()) no(at, "instance exceeds maximum");
      } else if (k == "exclusiveMinimum") { if (v.is_number() && v.get<double>() <= x.get<double>()) no(at, "instance is below or equals minimum");
      } else if (k == "exclusiveMaximum") { if (v.is_number() && v.get<double>() >= x.get<double>()) no(at, "instance exceeds or equals maximum");
      } else if (k == "multipleOf") { if (v.is_number() && std::fmod(v.get<double>(), x.get<double>()) != 0) no(at, "instance is not a multiple");
      } else if (k == "format") { if (v.is_string() && format) format(x.get<std::string>(), v.get<std::string>());
      } else if (k == "oneOf" || k == "anyOf" || k == "allOf") {
        size_t n = 0;
        std::string last;
        for (auto& o : x) {
          try { check(o, v, at); n++; } catch (const std::invalid_argument& e) { last = e.what(); }
        }
        if (k == "oneOf" && n != 1) no(at, n ? "more than one subschema has succeeded" : "no subschema has succeeded: " + last);
        if (k == "anyOf" && n == 0) no(at, "no subschema has succeeded");
        if (k == "allOf" && n != x.size()) no(at, "at least one subschema has failed: " + last);
      } else if (k == "not") {
        bool ok = true;
        try { check(x, v, at); } catch (const std::invalid_argument&) { ok = false; }
        if (ok) no(at, "the subschema has succeeded, but it is required to not validate");
      } else if (k == "$schema" || k == "$id" || k == "$comment" || k == "title" || k == "description" || k == "default" || k == "examples") {
      } else
        throw std::logic_error("keyword " + k + " is beyond this stand-in");
    }
  }

 public:
  explicit json_validator(std::nullptr_t = nullptr, std::function<void(const std::string&, const std::string&)> f = nullptr) : format(f) {}
  void set_root_schema(const nlohmann::json& s) { root = s; }
  nlohmann::json validate(const nlohmann::json& v) const {
    check(root, v, "root");
    return nlohmann::json();
  }
};

}  // namespace json_schema
}  // namespace nlohmann
