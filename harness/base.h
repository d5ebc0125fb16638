// Common vocabulary of the monitors: messages, random choices and the report of a run.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace mon {

using std::map;
using std::pair;
using std::set;
using std::string;
using std::to_string;
using std::vector;
using u64 = uint64_t;
using i64 = int64_t;

struct Msg {
  u64 t = 0;
  double v = 0;
};
using PortMsgs = map<string, vector<Msg>>;
using Out = map<string, PortMsgs>;  // operator -> port -> messages

inline bool sameBits(double a, double b) {
  // NaNs are one value here: their payload and sign are not part of any guarantee
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b && std::signbit(a) == std::signbit(b);
}
inline bool sameMsg(const Msg& a, const Msg& b) { return a.t == b.t && sameBits(a.v, b.v); }
bool sameOut(const Out& a, const Out& b, string* where = nullptr);
bool samePorts(const PortMsgs& a, const PortMsgs& b, string* where = nullptr);
void append(Out& to, const Out& from);
string show(const Msg& m);
string show(const PortMsgs& m);
string show(const Out& o, size_t limit = 1500);
string num(double v);    // shortest text that reads back as v
string quote(const string& s);  // JSON string

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) { for (int i = 0; i < 4; i++) next(); }
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a) + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double gauss() {
    double a = unit() + 1e-300, b = unit();
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  bool chance(double p) { return unit() < p; }
  template <class C>
  auto& pick(C& c) { return c[below(c.size())]; }
  template <class C>
  const auto& pick(const C& c) { return c[below(c.size())]; }
  template <class C>
  void shuffle(C& c) {
    for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[below(i)]);
  }
};

u64 hashOf(const string& s);
inline u64 mix(u64 a, u64 b) { return (a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdull; }

// A violation ends the case it is found in.
struct Violated {
  string key, detail;
};

struct Ctx {
  Rng rng;
  u64 caseNo = 0;
  bool thorough = false;
  u64 seed = 1;
  string about;                // description of the case, printed with a violation
  map<string, u64> counters;   // what the monitors observed
  set<u64> distinct;           // signatures of the non-trivial cases
  vector<string> samples;
  vector<string> log;          // history of the current case, for a witness

  std::function<void()> alive = [] {};  // to be called now and then by cases that take more than ten seconds
  void count(const string& name, u64 n = 1) { counters[name] += n; }
  void nontrivial(u64 signature) { distinct.insert(signature); }
  void sample(const string& s) {
    if (samples.size() < 2) samples.push_back(s.substr(0, 1500));
  }
  [[noreturn]] void fail(const string& key, const string& detail) { throw Violated{key, detail}; }
  void check(bool ok, const string& key, const std::function<string()>& detail) {
    if (!ok) fail(key, detail());
  }
};

struct Prop {
  string id;
  u64 quick, thorough;  // number of cases
  string rule;
  std::function<void(Ctx&)> run;
  int shards = 8;
};
Prop property();  // defined by the module of each property

}  // namespace mon
