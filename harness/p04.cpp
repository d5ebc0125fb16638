// P04: operators over the whole history. Monitor: the sum, count or recursion over everything received so far.
#include "watch.h"
#include "native.h"

namespace mon {

// the operator itself over more messages than a 24-bit counter or the digits of a float can tell apart
static void endless(Ctx& c, const string& type, u64 n) {
  Rng& r = c.rng;
  Op o;
  o.type = type;
  o.id = "x";
  if (type == "AutoRegressive") o.coeff = {0.5, -0.25};
  auto op = construct(o);
  u64 t = r.chance(0.5) ? 1700000000000ull : 0, step = 1 + r.below(3);
  c.about = type + " alone over " + to_string(n) + " messages from time " + to_string(t) + " on";
  long double sum = 0;
  double y1 = 0, y2 = 0;
  for (u64 i = 1; i <= n; i++, t += step) {
    if (i % (1 << 20) == 0) c.alive();
    // integers, whose sums are exact
    double v = (double)(i64)(r.next() >> 54) - 255, want;
    if (type == "Count") want = (double)i;
    else if (type == "CumulativeSum") want = (double)(sum += v);
    else {
      want = v + 0.5 * y1 - 0.25 * y2;
      y2 = y1;
      y1 = want;
    }
    op->receiveData(NMsg(t, v), "");
    auto got = op->executeData();
    bool one = got.size() == 1 && got.begin()->second.size() == 1 && got.begin()->second.begin()->second.size() == 1;
    if (one) {
      auto& m = got.begin()->second.begin()->second[0];
      one = m.time == t && std::fabs(m.value - want) <= 1e-9 * (std::fabs(want) + 1000);
    }
    if (!one) c.fail("endless", "message " + to_string(i) + " (" + num(v) + "@" + to_string(t) + ") is answered by " + show(seen(got)) + " instead of " + num(want));
  }
  c.count("messages_compared", n);
  c.count("messages_of_endless_streams", n);
  c.nontrivial(hashOf("endless" + type));
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  static const vector<string> types{"Count", "CumulativeSum", "AutoRegressive"};
  string type = types[c.caseNo % 3];
  if (c.caseNo < 3) return endless(c, type, (1u << 24) + 100000 + (c.thorough ? 1u << 25 : 0));
  GenOpts g;
  g.exactish = r.chance(0.5);
  g.isLarge = r.chance(0.05);
  Op o = randomOp(r, type, "x", g);
  bool lng = c.caseNo % 300 >= 297;
  if (type == "AutoRegressive" && r.chance(0.3)) {
    o.coeff.clear();
    size_t k = 1 + r.below(24);
    for (size_t i = 0; i < k; i++) o.coeff.push_back(r.chance(0.2) ? 0 : r.range(-8, 8) / (16.0 * k));
    if (r.chance(0.3)) o.coeff.back() = 0.5;
  }
  Prog p = around(o, r.chance(0.3));
  // more than 2^16 messages now and then
  size_t n = lng ? (c.thorough ? 300000 : 70000) : 5 + r.below(400);
  static const u64 starts[] = {0, 1, 1700000000000ull, 4294967290ull, 1700000000000000000ull, 9223372036854775700ull};
  vector<u64> t = randomTimes(r, n, starts[r.below(6)], 1 + r.below(1000));
  leap(r, t);
  double state = 0;
  int mode = lng ? (int)r.below(BINARY) : (int)r.below(VALUE_MODES);
  vector<Arrival> a;
  for (size_t i = 0; i < n; i++) {
    double v = randomValue(r, mode, state);
    if (type == "AutoRegressive" && !std::isfinite(v)) v = 1;
    if (mode == SPECIAL && type == "CumulativeSum" && i < n / 2 && !std::isfinite(v)) v = 1;
    a.push_back({"i1", {t[i], v}});
  }
  Watched w = watch(c, p, a);
  if (w.compared > 0) c.nontrivial(mix(mix(shapeOf(p), mode), n));
  if (lng) c.count("streams_longer_than_65536");
  c.sample(json(p) + " fed with " + show(a, 10));
}

Prop property() {
  return {"P04", 4000, 120000,
          "counter, cumulative sum and auto-regression (up to 24 coefficients) in turn over streams of up to 70000 (quick) or 300000 (thorough) messages, and each alone over 2^24 (thorough: 3*2^24) messages; every "
          "report compared with the value over the whole history. Non-trivial: messages were compared; distinct by operator, parameters, kind and length of stream.",
          run};
}

}  // namespace mon
