// P03: sliding windows. Monitor: the formula over the last n messages, recomputed from scratch at every message.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  static const vector<string> types{"MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "Difference", "PeakDetector", "RelativeStrengthIndex"};
  string type = types[c.caseNo % types.size()];
  GenOpts g;
  bool big = c.caseNo % 40 >= 36;  // large windows
  bool lng = c.caseNo % 400 >= 394;  // long streams
  g.maxWindow = big ? 300 : r.chance(0.5) ? 8 : 40;
  g.exactish = r.chance(0.6);
  Op o = randomOp(r, type, "x", g);
  if (big && r.chance(0.5)) {
    u64 n = 100 + r.below(200);
    if (o.n) o.n = n;
    if (!o.coeff.empty()) while (o.coeff.size() < n) o.coeff.push_back(r.range(-8, 8) / 4.0);
  }
  bool huge = c.caseNo % 400 >= 380 && c.caseNo % 400 < 383;
  if (huge) {
    u64 w = 1000 + r.below(2500);
    if (o.n) o.n = w;
    if (!o.coeff.empty()) while (o.coeff.size() < w) o.coeff.push_back(r.range(-8, 8) / 4.0);
  }
  Prog p = around(o, r.chance(0.3));
  size_t n = huge ? 4000 + r.below(2000) : lng ? (c.thorough ? 200000 : 30000) : 20 + r.below(big ? 900 : 300);
  if (lng && (big || g.maxWindow > 100)) n /= 5;
  static const u64 starts[] = {0, 1, 1700000000000ull, 4294967290ull, 1700000000000000000ull};
  vector<u64> t = randomTimes(r, n, starts[r.below(5)], 1 + r.below(1000));
  leap(r, t);
  vector<Arrival> a;
  double state = 0;
  int mode = (int)r.below(12);
  if (big && r.chance(0.3)) mode = 8;
  double base = r.gauss() * 1e9;
  double special[] = {NAN, INFINITY, -INFINITY, 1e300, 1e17};
  size_t flat = 0;
  // outliers so rare that some windows are free of them again
  double rate = std::min(0.02, r.unit() / (1 + std::max<size_t>(o.n, o.coeff.size())));
  for (size_t i = 0; i < n; i++) {
    double v;
    switch (mode) {
      case 7: v = base + r.range(-100, 100) / 64.0; break;                                  // a small signal on a large offset
      case 8: v = r.chance(rate) ? special[r.below(5)] : randomValue(r, DYADIC, state); break;  // an outlier passes through the window
      case 9: v = i % (o.n + 2) == 0 ? 5.0 : 1.0; break;                                    // a peak per window
      case 10: if (flat == 0) { flat = r.below(2 * o.n + 3); state = (double)r.range(-3, 3); } else flat--; v = state; break;  // plateaus
      case 11: v = randomValue(r, SCALED, state); break;
      default: v = randomValue(r, mode, state);
    }
    if (type == "RelativeStrengthIndex" && !std::isfinite(v)) v = 0;
    a.push_back({"i1", {t[i], v}});
  }
  Watched w = watch(c, p, a);
  if (w.compared > 0) c.nontrivial(mix(shapeOf(p), mode));
  if (huge) c.count("windows_larger_than_1000");
  if (lng) c.count("streams_longer_than_1000");
  if (o.n > 50 || o.coeff.size() > 50) c.count("windows_larger_than_50");
  c.sample(json(p) + " fed with " + show(a, 10));
}

Prop property() {
  return {"P03", 6400, 120000,
          "each window operator in turn with windows up to 300 (now and then 3500), streams up to 30000 messages (quick) or 200000 (thorough): offsets a million times the signal, "
          "outliers, infinities and NaN passing through the window, plateaus and ties; every report compared with the formula over exactly the last n messages. "
          "Non-trivial: messages were compared; distinct by operator, parameters and kind of stream.",
          run};
}

}  // namespace mon
