// P08: the variable. Monitor: for each query the definition in force, in the call in which it is settled.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  Op o;
  o.type = "Variable";
  o.id = "x";
  o.value = r.chance(0.5) ? r.range(-10, 10) / 4.0 : r.gauss() * 1000;
  if (r.chance(0.2)) { o.value = 0; o.omit.insert("value"); }
  Prog p = around(o, false);
  static const u64 sps[] = {1, 2, 10, 1000};
  u64 sp = sps[r.below(4)];
  static const u64 starts[] = {0, 1, 1700000000000ull, 4294967290ull, 9007199254740990ull, 1700000000000000000ull, 9223372036854775700ull};
  u64 start = starts[r.below(7)];
  bool behind = c.caseNo % 2000 == 1199;  // thousands of definitions wait for the first queries
  size_t n = behind ? 9000 : c.caseNo % 200 == 199 ? 3000 : 3 + r.below(80);
  vector<u64> clock = randomTimes(r, n, start, sp);
  leap(r, clock);
  map<string, vector<Msg>> q;
  double kd = 0.2 + 0.8 * r.unit(), kq = 0.2 + 0.8 * r.unit();
  double state = 0;
  int mode = (int)r.below(VALUE_MODES);
  bool quietStart = r.chance(0.3);  // queries before the first definition
  for (size_t i = 0; i < n; i++) {
    if (!(quietStart && i < n / 4) && r.chance(kd)) q["i1"].push_back({clock[i], randomValue(r, mode, state)});
    if (!(behind && i < n * 2 / 3) && r.chance(kq)) q["i2"].push_back({clock[i], (double)r.below(3)});
  }
  // the answers must not depend on the value of the query
  int style = (int)(n > 1000 && r.chance(0.5) ? 2 + r.below(2) : r.below(5));
  vector<Arrival> a;
  size_t d = 0, e = 0;
  auto& D = q["i1"];
  auto& Q = q["i2"];
  if (behind) { style = 2; kd = 1; }
  u64 lead = behind ? 1ull << 40 : r.below(20) * sp * (n > 1000 && r.chance(0.7) ? 1000 : 1);
  while (d < D.size() || e < Q.size()) {
    bool def;
    if (d == D.size()) def = false;
    else if (e == Q.size()) def = true;
    else if (style == 0) def = D[d].t <= Q[e].t;             // in time, definition first
    else if (style == 1) def = D[d].t < Q[e].t;              // in time, query first
    else if (style == 2) def = D[d].t <= Q[e].t + lead;      // definitions ahead
    else if (style == 3) def = D[d].t + lead < Q[e].t;       // queries ahead
    else def = r.chance(0.5);
    if (def) a.push_back({"i1", D[d++]});
    else a.push_back({"i2", Q[e++]});
  }
  if (a.empty()) return;
  Watched w = watch(c, p, a);
  u64 answers = w.total.count("x") ? w.total["x"]["o1"].size() : 0;
  c.count("answers", answers);
  if (answers > 0) {
    string sig;
    for (auto& x : a) sig += x.port + to_string(x.m.t - start);
    c.nontrivial(hashOf(sig));
  }
  c.sample(json(p) + " fed with " + show(a, 14));
}

Prop property() {
  return {"P08", 20000, 300000,
          "a variable fed with definitions and queries in five kinds of interleaving (in time with either first, definitions ahead, queries ahead, random), queries "
          "before the first definition and replaced queries; every report compared with the value in force. Non-trivial: at least one answer; distinct by "
          "interleaved history.",
          run};
}

}  // namespace mon
