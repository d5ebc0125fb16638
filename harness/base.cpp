#include "base.h"

namespace mon {

u64 hashOf(const string& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

string num(double v) {
  if (v == 0 && std::signbit(v)) return "-0.0";  // -0 would be read as an integer
  char b[40];
  for (int p = 1; p <= 17; p++) {
    snprintf(b, sizeof b, "%.*g", p, v);
    if (strtod(b, nullptr) == v) break;
  }
  return b;
}

string quote(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') r += '\\', r += c;
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

string show(const Msg& m) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", m.v);
  return to_string(m.t) + ":" + b;
}
string show(const PortMsgs& m) {
  string r = "{";
  for (auto& [p, v] : m) {
    r += p + ":[";
    for (auto& x : v) r += show(x) + " ";
    r += "] ";
  }
  return r + "}";
}
string show(const Out& o, size_t limit) {
  string r = "{";
  for (auto& [op, pm] : o) r += op + show(pm) + " ";
  r += "}";
  if (r.size() > limit) r = r.substr(0, limit) + "...";
  return r;
}

bool samePorts(const PortMsgs& a, const PortMsgs& b, string* where) {
  auto tell = [&](const string& s) { if (where) *where = s; return false; };
  for (auto& [p, v] : a) if (!b.count(p)) return tell("port " + p + " only in the first");
  for (auto& [p, v] : b) {
    auto it = a.find(p);
    if (it == a.end()) return tell("port " + p + " only in the second");
    if (it->second.size() != v.size()) return tell("port " + p + " has " + to_string(it->second.size()) + " / " + to_string(v.size()) + " messages");
    for (size_t i = 0; i < v.size(); i++)
      if (!sameMsg(it->second[i], v[i])) return tell("port " + p + " message " + to_string(i) + ": " + show(it->second[i]) + " / " + show(v[i]));
  }
  return true;
}
bool sameOut(const Out& a, const Out& b, string* where) {
  for (auto& [o, v] : a) if (!b.count(o)) { if (where) *where = "operator " + o + " only in the first: " + show(v); return false; }
  for (auto& [o, v] : b) {
    auto it = a.find(o);
    if (it == a.end()) { if (where) *where = "operator " + o + " only in the second: " + show(v); return false; }
    if (!samePorts(it->second, v, where)) { if (where) *where = "operator " + o + " " + *where; return false; }
  }
  return true;
}
void append(Out& to, const Out& from) {
  for (auto& [o, pm] : from)
    for (auto& [p, v] : pm) {
      auto& d = to[o][p];
      d.insert(d.end(), v.begin(), v.end());
    }
}

}  // namespace mon
