// P06: synchronisation. Monitors: the model (each common timestamp in the call that completes it), and equality of everything
// emitted under several interleavings of the same streams.
#include "watch.h"

#include <algorithm>

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  static const vector<string> types{"Join", "Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream", "Linear", "Join", "Linear"};
  string type = types[c.caseNo % types.size()];
  GenOpts g;
  g.exactish = r.chance(0.7);
  g.isLarge = r.chance(0.05);
  Op o = randomOp(r, type, "x", g);
  if (type == "Join" && r.chance(0.4)) { o.omit.clear(); o.ports = 2 + r.below(13); }
  if (type == "Linear" && r.chance(0.4)) { o.coeff.clear(); for (size_t k = 2 + r.below(13); k > 0; k--) o.coeff.push_back(r.range(-40, 40) / 4.0); }
  Prog p = around(o, r.chance(0.4));
  auto ports = p.op(p.entry).ins();
  StreamOpts s;
  bool lng = c.caseNo % 200 == 199;
  s.length = lng ? 3000 : 5 + r.below(80);
  static const u64 sps[] = {1, 2, 10, 1000, 3000000000ull};
  s.spacing = sps[r.below(5)];
  static const u64 starts[] = {0, 1, 1700000000000ull, 4294967290ull, 9007199254740990ull, 1700000000000000000ull, 9223372036854775700ull};
  s.start = starts[r.below(7)];
  static const int modes[] = {SMALL_INT, DYADIC, GAUSS, WALK, TIES, BINARY, SPECIAL, MIXED_SCALE, TIES};
  s.valueMode = modes[r.below(9)];
  // one base case, then the same streams in other interleavings
  vector<Arrival> a = randomArrivals(r, ports, s);
  if (!a.empty() && r.chance(0.05)) {  // a leap that only 64 bits can tell
    u64 from = a[r.below(a.size())].m.t, far = 1ull << (30 + r.below(33)), last = 0;
    for (auto& x : a) last = std::max(last, x.m.t);
    if (~0ull - last >= far) for (auto& x : a) if (x.m.t >= from) x.m.t += far;
  }
  Watched w = watch(c, p, a);
  set<u64> orders{0};
  int more = lng ? 1 : 4;
  for (int k = 0; k < more; k++) {
    map<string, vector<Msg>> q;
    for (auto& x : a) q[x.port].push_back(x.m);
    vector<Arrival> b;
    map<string, size_t> at;
    u64 sig = 1;
    size_t style = r.below(4);
    vector<string> prio = ports;
    r.shuffle(prio);
    while (b.size() < a.size()) {
      vector<string> open;
      for (auto& x : prio) if (at[x] < q[x].size()) open.push_back(x);
      string x;
      if (style == 0) x = open[0];                            // one port completely ahead of the next
      else if (style == 1) x = r.pick(open);
      else {                                                   // by time, ties and near ties shuffled, or the latest port lagging
        x = open[0];
        for (auto& y : open) {
          u64 tx = q[x][at[x]].t, ty = q[y][at[y]].t;
          if (style == 2 ? ty < tx : ty < tx + r.below(3 * s.spacing + 1)) x = y;
        }
      }
      b.push_back({x, q[x][at[x]++]});
      sig = mix(sig, hashOf(x));
    }
    orders.insert(sig);
    string before = c.about;
    Watched v = watch(c, p, b);
    string where;
    if (!sameOut(w.total, v.total, &where)) c.fail("order", "another interleaving of the same streams gives another result: " + where + " (first order: " + before.substr(0, 1500) + ")");
  }
  c.count("interleavings", orders.size());
  u64 emitted = 0;
  for (auto& [id, pm] : w.total) if (id == "x") for (auto& [q, v] : pm) emitted += v.size();
  c.count("synchronised_messages", emitted);
  if (emitted > 2) c.nontrivial(mix(mix(shapeOf(p), s.valueMode), a.size()));
  c.sample(json(p) + " fed with " + show(a, 10));
}

Prop property() {
  return {"P06", 9000, 120000,
          "every synchronising operator in turn (joins and linear combinations up to 14 ports), random streams sharing part of their times, in five interleavings each "
          "(one port far ahead, by time, random); every report compared with the model, all interleavings with each other. Non-trivial: more than two synchronised "
          "messages; distinct by operator, parameters, kind and number of messages.",
          run};
}

}  // namespace mon
