// P17: descriptions. Monitor: what the engine writes for an operator it read is compared with the parameters it was given, read
// and written once more, and both operators run side by side.
#include <algorithm>
#include <nlohmann/json.hpp>

#include "rtbot/FactoryOp.h"
#include "watch.h"

namespace mon {

using J = nlohmann::json;

// the written description has the parameters of the explicit one
static string missing(const J& want, const J& got, const string& path = "") {
  if (want.is_object()) {
    if (!got.is_object()) return path + " is no object";
    for (auto& [k, v] : want.items()) {
      if (!got.contains(k)) return path + "." + k + " is missing";
      if (k == "points") {
        // a set of points
        vector<pair<double, double>> a, b;
        for (auto& x : v) a.push_back({x.at(0).get<double>(), x.at(1).get<double>()});
        if (!got[k].is_array()) return path + ".points is no list";
        for (auto& x : got[k]) b.push_back({x.at(0).get<double>(), x.at(1).get<double>()});
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        if (a != b) return path + ".points differ";
        continue;
      }
      string d = missing(v, got[k], path + "." + k);
      if (!d.empty()) return d;
    }
    return "";
  }
  if (want.is_array()) {
    if (!got.is_array() || got.size() != want.size()) return path + " is another list";
    for (size_t i = 0; i < want.size(); i++) {
      string d = missing(want[i], got[i], path + "[" + to_string(i) + "]");
      if (!d.empty()) return d;
    }
    return "";
  }
  if (want.is_number()) {
    if (!got.is_number()) return path + " is no number";
    if (want.is_number_integer() && got.is_number_integer()) return want.get<i64>() == got.get<i64>() ? "" : path + " is " + got.dump() + " instead of " + want.dump();
    double a = want.get<double>(), b = got.get<double>();
    // minus zero is another parameter, except where the description has an integer
    bool sign = std::signbit(a) != std::signbit(b) && want.is_number_float();
    return a == b && !sign ? "" : path + " is " + got.dump() + " instead of " + want.dump();
  }
  return want == got ? "" : path + " is " + got.dump() + " instead of " + want.dump();
}

static double anyDouble(Rng& r) {
  switch (r.below(8)) {
    case 0: return r.gauss();
    case 1: return r.gauss() * std::pow(10, (double)r.range(-30, 30));
    case 2: return 1.0 / (double)r.range(1, 1000);
    case 3: return (double)r.range(-1000000000000ll, 1000000000000ll);
    case 4: { static const double s[] = {0.1, 0.2, 0.30000000000000004, 1e-320, 1.7976931348623157e308, -2.2250738585072014e-308, 9007199254740993.0, 0, -0.0, 123456.789012345678}; return s[r.below(10)]; }
    case 5: return std::nextafter((double)r.range(-5, 5), 100.0);
    case 6: return (double)r.range(-9, 9);
    default: return r.unit() - 0.5;
  }
}

static void perturb(Rng& r, Op& o) {
  // parameters with all their digits
  if (o.type == "Add" || o.type == "Scale" || o.type == "Power" || o.type == "Constant" || o.type == "GreaterThan" || o.type == "LessThan" || o.type == "EqualTo" ||
      (o.type == "Variable" && !o.omit.count("value")))
    o.value = anyDouble(r);
  for (auto& x : o.coeff) x = anyDouble(r);
  if (o.type == "Function" && r.chance(0.7)) {
    set<double> xs;
    while (xs.size() < o.points.size()) xs.insert(r.gauss() * std::pow(10, (double)r.range(-3, 3)));
    size_t i = 0;
    for (double x : xs) o.points[i++] = {x, anyDouble(r)};
    r.shuffle(o.points);
  }
  if ((o.type == "CosineResampler" || o.type == "HermiteResampler" || o.type == "ConstantResampler") && r.chance(0.3)) o.dt = 1 + r.below(1ull << 50);
  if (o.n && r.chance(0.2)) o.n = o.n * 50;
  if (o.n && r.chance(0.03)) o.n = (1ull << r.range(16, 40)) + r.below(100);
  // intervals and shifts of every size that a description can tell
  if ((o.type == "CosineResampler" || o.type == "HermiteResampler" || o.type == "ConstantResampler") && r.chance(0.05)) o.dt = (1ull << r.range(50, 61)) + r.below(1ull << 50);
  if (o.type == "TimeShift" && r.chance(0.2)) {
    if (!o.omit.count("dt")) o.shift = (i64)((1ull << r.range(20, 61)) + r.below(1ull << 20)) * (r.chance(0.5) ? 1 : -1);
    if (!o.omit.count("times") && r.chance(0.3)) o.times = (int)r.range(-2000000000, 2000000000);
  }
}

static Op explicitly(const Op& o) {
  Op e = o;
  e.omit.clear();
  if (e.prog) {
    e.prog = std::make_shared<Prog>(*e.prog);
    for (auto& x : e.prog->ops) x = explicitly(x);
  }
  return e;
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  g.negativeShift = true;
  g.exactish = r.chance(0.3);
  const auto& types = allTypes();
  string t = types[c.caseNo % types.size()];
  Op o;
  if (t == "Pipeline") {
    GenOpts h = g;
    h.maxOps = 4;
    h.demux = h.demuxFed = true;
    Prog q;
    do q = randomProg(r, h);
    while (!std::any_of(q.ops.begin(), q.ops.end(), [](const Op& x) { return x.type == "Pipeline"; }));
    for (auto& x : q.ops) if (x.type == "Pipeline") o = x;
    for (auto& x : o.prog->ops) if (r.chance(0.5) && x.type != "Pipeline") perturb(r, x);
  } else {
    o = randomOp(r, t, r.chance(0.5) ? "x" : "\xC3\xA9 \"q\"\\ 1", g);
    perturb(r, o);
  }
  string text = opJson(o, Style{r.chance(0.5) ? &r : nullptr});
  c.about = text;
  c.sample(text);
  string once, twice;
  try {
    once = rewrite(text);
    twice = rewrite(once);
  } catch (const Refused& x) {
    c.fail("refused", string("reading, writing or reading again is refused: ") + x.what() + " after " + once);
  }
  if (twice != once) c.fail("not stable", "written first as " + once + " and then as " + twice);
  J want, got;
  try {
    // integers stay integers, everything the description means is spelled out
    want = J::parse(opJson(o.type == "Pipeline" ? o : explicitly(o)));
    got = J::parse(once);
  } catch (const std::exception& x) {
    c.fail("no JSON", once);
  }
  if (o.type == "TimeShift") {
    if (got.contains("dt") && got["dt"].is_number_integer()) got["dt"] = got["dt"].get<i64>();
  }
  string d = missing(want, got);
  if (!d.empty()) c.fail("parameters", d + ": written as " + once);
  c.count("rewritten_" + t);

  // side by side
  Op viaText = o;
  Prog p = around(o, false);
  vector<string> ports = o.ins();
  for (auto& q : o.ctls()) ports.push_back(q);
  string program = json(p);
  string rewritten = program;
  size_t at = rewritten.find(opJson(o));
  if (at == string::npos) throw std::logic_error("monitor: operator not found in its program");
  rewritten.replace(at, opJson(o).size(), once);
  Engine e;
  e.create("a", program);
  try {
    e.create("b", rewritten);
  } catch (const Refused& x) {
    c.fail("refused", "the rewritten operator is refused in a program: " + once);
  }
  StreamOpts s;
  s.length = 30 + r.below(40) + (o.n < 1000 ? o.n : 0);
  s.start = r.chance(0.5) ? 1 : 1700000000000ull;
  s.spacing = o.dt > 1 ? std::max<u64>(1, o.dt / 3) : 10;
  if (o.dt > 1000000) s.timeMode = 0;
  s.valueMode = (int)r.below(ports.size() > 1 && r.chance(0.5) ? MIXED_SCALE : VALUE_MODES);
  vector<string> eports;
  for (size_t i = 1; i <= ports.size(); i++) eports.push_back("i" + to_string(i));
  auto a = randomArrivals(r, eports, s);
  u64 n = 0;
  string entry = p.entry;
  for (size_t i = 0; i < a.size(); i++) {
    Out x, y;
    bool xr = false, yr = false;
    try { x = e.sendDebug("a", a[i].port, a[i].m); } catch (const Refused&) { xr = true; }
    try { y = e.sendDebug("b", a[i].port, a[i].m); } catch (const Refused&) { yr = true; }
    string where;
    if (xr != yr || !sameOut(x, y, &where)) c.fail("behaviour", "as read / rewritten as " + once + " differ at message " + to_string(i) + " " + show(a[i].m) + ": " + where);
    if (xr) break;
    for (auto& [id, pm] : x) if (id != entry) for (auto& [q, v] : pm) n += v.size();
  }
  c.count("messages_compared", n);

  // a whole program writes the list of its operators, before and after it ran
  if (r.chance(0.2)) {
    try {
      rtbot::Program pr = rtbot::FactoryOp::createProgram(program);
      string before = pr.getProgram();
      rtbot::OperatorMessage<uint64_t, double> m;
      m["i1"].push_back(rtbot::Message<uint64_t, double>(5, 1));
      try { pr.receive(m); } catch (const std::exception&) {}
      string after = pr.getProgram();
      if (before != after) c.fail("program", "a program that received a message writes its operators differently: " + before + " and " + after);
      J l = J::parse(before);
      if (l.size() != p.ops.size()) c.fail("program", "a program of " + to_string(p.ops.size()) + " operators writes " + before);
      bool found = false;
      for (auto& x : l) if (x.at("id") == o.id) { found = true; if (x != J::parse(once)) c.fail("program", "in a program the operator is written as " + x.dump() + ", alone as " + once); }
      if (!found) c.fail("program", "the operator is missing in " + before);
      c.count("programs_written");
    } catch (const nlohmann::json::exception& x) {
      c.fail("program", string("the list of operators is no JSON: ") + x.what());
    }
  }
  if (n > 0) c.nontrivial(hashOf(once));
}

Prop property() {
  return {"P17", 12000, 200000,
          "every operator type in turn with random parameters of all magnitudes and with optional ones left out: the written form is compared with the parameters given, "
          "must be stable when read and written again, and operator and rewritten operator run side by side bit by bit. Non-trivial: the operator emitted something; "
          "distinct by written form.",
          run};
}

}  // namespace mon
