// P07: the demultiplexer. Monitors: the routing table over whole streams (each data message in the call in which it and all its
// controls are there), equality under other interleavings, and the report of every control that cannot be followed.
#include "watch.h"

namespace mon {

static vector<Arrival> interleave(Rng& r, const vector<string>& ports, map<string, vector<Msg>> q, int style, u64 spacing) {
  vector<Arrival> b;
  map<string, size_t> at;
  size_t total = 0;
  for (auto& [p, v] : q) total += v.size();
  vector<string> prio = ports;
  r.shuffle(prio);
  while (b.size() < total) {
    vector<string> open;
    for (auto& x : prio) if (at[x] < q[x].size()) open.push_back(x);
    string x = open[0];
    if (style == 1) x = r.pick(open);
    if (style >= 2)
      for (auto& y : open) {
        u64 tx = q[x][at[x]].t, ty = q[y][at[y]].t;
        if (style == 2 ? ty < tx : ty < tx + r.below(3 * spacing + 1)) x = y;
      }
    size_t burst = style == 3 && r.chance(0.3) ? 1 + r.below(8) : 1;
    for (; burst > 0 && at[x] < q[x].size(); burst--) b.push_back({x, q[x][at[x]++]});
  }
  return b;
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  Op o;
  o.type = "Demultiplexer";
  o.id = "x";
  o.ports = r.chance(0.02) ? 12 + r.below(20) : r.chance(0.1) ? 6 + r.below(7) : 1 + r.below(5);
  if (o.ports == 1 && r.chance(0.5)) o.omit.insert("numPorts");
  Prog p = around(o, false);
  auto ports = p.op(p.entry).ins();  // i1 is the data, the others the controls in order
  static const u64 sps[] = {1, 2, 10, 1000, 3000000000ull};
  u64 sp = sps[r.below(5)];
  static const u64 starts[] = {0, 1, 1700000000000ull, 4294967290ull, 9007199254740990ull, 1700000000000000000ull, 9223372036854775700ull};
  size_t n = c.caseNo % 200 == 199 ? 2000 : 3 + r.below(60);
  vector<u64> t = randomTimes(r, n, starts[r.below(7)], sp);
  leap(r, t);
  double keepData = r.chance(0.4) ? 1 : 0.3 + 0.7 * r.unit();
  double open = r.unit();
  bool faulty = r.chance(0.3);
  map<string, vector<Msg>> q;
  double state = 0;
  int mode = (int)r.below(VALUE_MODES);
  for (u64 x : t) if (r.chance(keepData)) q["i1"].push_back({x, randomValue(r, mode, state)});
  for (u64 k = 0; k < o.ports; k++) {
    auto& v = q[ports[k + 1]];
    for (u64 x : t) v.push_back({x, r.chance(open) ? 1.0 : 0.0});
    // controls beyond the data, and between its times
    u64 last = t.back();
    for (size_t e = r.below(4); e > 0; e--) v.push_back({last += 1 + r.below(sp), (double)r.below(2)});
  }
  string what;
  if (faulty) {
    auto& v = q[ports[1 + r.below(o.ports)]];
    size_t at = r.below(v.size());
    static const double wrong[] = {0.5, 2, -1, 1.0000000000000002, 1e-300, NAN, INFINITY, -0.5, 10};
    if (r.chance(0.5)) v[at].v = wrong[r.below(9)];
    else v.erase(v.begin() + at);
  }
  vector<Arrival> a = interleave(r, ports, q, (int)r.below(4), sp);
  Watched w = watch(c, p, a);
  if (w.endedBy < 0) {
    // without an error the result is that of any other interleaving
    for (int k = 0; k < 3; k++) {
      vector<Arrival> b = interleave(r, ports, q, k, sp);
      Watched v = watch(c, p, b);
      c.count("interleavings");
      if (v.endedBy >= 0) c.fail("order", "another interleaving of the same streams ends with an error");
      string where;
      if (!sameOut(w.total, v.total, &where)) c.fail("order", "another interleaving of the same streams gives another result: " + where);
    }
  } else
    c.count("errors_reported");
  u64 routed = 0;
  for (auto& [id, pm] : w.total) if (id == "x") for (auto& [port, v] : pm) routed += v.size();
  c.count("routed_messages", routed);
  if (routed > 0 || w.endedBy >= 0) {
    string sig;
    for (auto& x : a) sig += x.port + to_string(x.m.t - t[0]) + (x.port == "i1" ? "" : num(x.m.v));
    c.nontrivial(mix(hashOf(sig), o.ports));
  }
  c.sample(json(p) + " fed with " + show(a, 14));
}

Prop property() {
  return {"P07", 4000, 150000,
          "demultiplexers with up to 31 outputs; data and control streams in four kinds of interleaving (controls far ahead, data far ahead, by time, random), "
          "controls without data, wrong control values and missing controls; every report compared with the routing table, runs without error with three other "
          "interleavings. Non-trivial: something was routed or an error was due; distinct by interleaved history.",
          run};
}

}  // namespace mon
