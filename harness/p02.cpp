// P02: operators without memory. Monitors: the model for each single message, and a second instance that has seen another
// history and has to give bit-identical answers to the same messages.
#include "watch.h"

namespace mon {

static double hostileNumber(Rng& r) {
  static const double s[] = {0.0, -0.0, 1, -1, 0.1, 1e-300, 5e-324, 1e308, -1e308, 1e15, 9007199254740993.0, 3, 0.5, 2.5, 1.0 / 3, -7.25};
  switch (r.below(5)) {
    case 0: return s[r.below(16)];
    case 1: return (double)r.range(-20, 20);
    case 2: return r.gauss() * std::pow(10, (double)r.range(-20, 20));
    case 3: return r.range(-64, 64) / 8.0;
    default: return r.gauss() * 100;
  }
}

static Op operatorOf(Rng& r, const string& type) {
  GenOpts g;
  g.exactish = r.chance(0.5);
  static const u64 sp[] = {1, 10, 1000, 86400000};
  g.spacing = sp[r.below(4)];
  g.negativeShift = true;
  g.isLarge = r.chance(0.05);
  Op o = randomOp(r, type, "x", g);
  if (r.chance(0.5)) {
    if (type == "Add" || type == "Scale" || type == "Constant" || type == "GreaterThan" || type == "LessThan" || type == "EqualTo") o.value = hostileNumber(r);
    if (type == "Power") { static const double ps[] = {0, 1, 2, 3, 4, 7, -1, -2, -3, 0.5, 1.0 / 3, -0.5, 2.5, 10, 0.1, 1e-9, 30}; o.value = ps[r.below(17)]; }
    if (type == "TimeShift") {
      static const u64 d[] = {1, 3, 1000, 86400000, 4294967296ull, 5000000000ull, 1000000000000ull};
      o.omit.clear();
      o.shift = (i64)d[r.below(7)];
      o.times = (int)r.range(-6, 6);
    }
    if (type == "Function") {
      o.points.clear();
      set<double> xs;
      int mode = r.chance(0.1) ? 3 : (int)r.below(3);  // 3: knots close to each other, far from 0
      size_t k = r.chance(0.2) ? 2 : 3 + r.below(40);
      while (xs.size() < k) xs.insert(mode == 0 ? (double)r.range(-100, 100) : mode == 1 ? r.range(-4000, 4000) / 16.0 : mode == 3 ? 1073741824.0 + r.range(-400, 400) / 8.0 : r.gauss() * 1000);
      for (double x : xs) o.points.push_back({x, r.chance(0.5) ? (double)r.range(-50, 50) : r.gauss() * std::pow(10, (double)r.range(-3, 3))});
      if (r.chance(0.7)) r.shuffle(o.points);
      o.omit.clear();
      o.interp = r.chance(0.5) ? "hermite" : "linear";
    }
  }
  return o;
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  static const vector<string> types{"Add", "Scale", "Power", "Constant", "Identity", "TimeShift", "Function", "Function", "GreaterThan", "LessThan", "EqualTo"};
  string type = types[c.caseNo % types.size()];
  Op o = operatorOf(r, type);
  bool asEntry = r.chance(0.5);
  Prog p = around(o, asEntry);
  size_t n = r.chance(0.03) ? 4000 : 10 + r.below(150);
  static const u64 starts[] = {0, 1, 100, 1700000000000ull, 4294967290ull, 9007199254740990ull, 1700000000000000000ull, 9223372036854775700ull};
  vector<u64> t = randomTimes(r, n, starts[r.below(8)], 1 + r.below(2000));
  leap(r, t);
  if (asEntry && r.chance(0.4)) for (auto& x : t) if (r.chance(0.2)) x = r.pick(t);  // an operator that is the entry sees any times
  vector<Arrival> a;
  double state = 0;
  int mode = (int)r.below(VALUE_MODES + 2);
  for (size_t i = 0; i < n; i++) {
    double v;
    if (type == "Function" && r.chance(0.4)) {
      auto& k = r.pick(o.points);  // on and beside the knots, and beyond the table
      v = r.chance(0.4) ? k.first : r.chance(0.5) ? std::nextafter(k.first, r.chance(0.5) ? -1e9 : 1e9) : k.first + r.gauss();
    } else if ((type == "GreaterThan" || type == "LessThan" || type == "EqualTo") && r.chance(0.3))
      v = r.chance(0.5) ? o.value : std::nextafter(o.value, r.chance(0.5) ? -INFINITY : INFINITY);
    else
      v = mode < VALUE_MODES ? randomValue(r, mode, state) : hostileNumber(r);
    if (type == "Function" && (!std::isfinite(v) || std::fabs(v) > 1e12)) v = r.gauss() * 1e4;
    a.push_back({"i1", {t[i], v}});
  }
  Watched w = watch(c, p, a);
  if (w.compared > 0) c.nontrivial(shapeOf(p));
  c.sample(json(p) + " fed with " + show(a, 8));

  // the same messages after another history, in another order if the operator is the entry
  Engine one, two;
  string text = json(p);
  one.create("p", text);
  two.create("p", text);
  map<size_t, Out> answer;
  for (size_t i = 0; i < n; i++) answer[i] = one.sendDebug("p", "i1", a[i].m);
  vector<size_t> order;
  for (size_t i = 0; i < n; i++) if (r.chance(0.6)) order.push_back(i);
  if (asEntry) r.shuffle(order);
  for (size_t i : order) {
    if (asEntry && r.chance(0.2)) two.sendDebug("p", "i1", {t[i], hostileNumber(r)});
    Out x = two.sendDebug("p", "i1", a[i].m);
    string where;
    if (!sameOut(answer[i], x, &where)) c.fail("history", "the answer to " + show(a[i].m) + " depends on the messages before it: " + where);
    c.count("answers_compared_across_histories");
  }
}

Prop property() {
  return {"P02", 14000, 400000,
          "each memoryless operator in turn, with random and extreme parameters, as the entry itself (any times) or behind an input, fed with random, extreme and "
          "borderline values; every answer compared with the documented function and with the answer of an instance that has another history. Non-trivial: "
          "at least one answer was compared; distinct by operator and parameters.",
          run};
}

}  // namespace mon
