// P10: time. Monitor: per port the times strictly increase over the whole run, and none exceeds the latest input; it needs no model.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 60000, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = r.chance(0.3) ? 40 : 14;
  g.demux = r.chance(0.4);
  g.variable = r.chance(0.5);
  bool shifts = r.chance(0.5);
  g.timeShift = shifts;
  g.negativeShift = r.chance(0.5);
  g.maxEntryPorts = r.chance(0.1) ? 12 : 4;
  Prog p = randomProg(r, g);
  std::function<bool(const Prog&)> ahead = [&](const Prog& q) {
    for (auto& o : q.ops) {
      if (o.type == "TimeShift" && o.shift * o.times > 0) return true;
      if (o.prog && ahead(*o.prog)) return true;
    }
    return false;
  };
  bool mayBeAhead = ahead(p);
  StreamOpts s;
  s.length = r.chance(0.1) ? 500 : 20 + r.below(120);
  s.spacing = g.spacing;
  // far enough from 0 that no shift is clamped
  static const u64 starts[] = {100000000, 1700000000000ull, 5000000000ull, 9007199254740992ull, 1700000000000000000ull};
  s.start = starts[g.spacing > 100000 ? 3 + r.below(2) : r.below(5)];
  if (r.chance(0.5)) s.valueMode = (int)r.below(VALUE_MODES);
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.5);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  string text = json(p);
  c.about = text + " fed with " + show(a, 400);
  c.sample(text + " fed with " + show(a, 10));
  Engine e;
  e.create("p", text);
  map<string, map<string, u64>> last;
  u64 latest = 0, seen = 0;
  set<string> portsSeen;
  size_t i = 0;
  while (i < a.size()) {
    PortMsgs batch;
    size_t k = r.chance(0.5) ? 1 : 1 + r.below(6);
    string port = a[i].port;
    for (; k > 0 && i < a.size() && a[i].port == port; k--, i++) {
      batch[port].push_back(a[i].m);
      latest = std::max(latest, a[i].m.t);
    }
    Out o;
    try {
      o = e.sendDebug("p", batch);
    } catch (const Refused&) {
      c.count("runs_ended_by_a_demultiplexer");
      break;
    }
    for (auto& [op, pm] : o)
      for (auto& [q, v] : pm)
        for (auto& m : v) {
          seen++;
          auto& l = last[op];
          auto it = l.find(q);
          if (it != l.end() && m.t <= it->second) c.fail("monotony", op + ":" + q + " emits time " + to_string(m.t) + " after " + to_string(it->second));
          l[q] = m.t;
          if (!mayBeAhead && m.t > latest) c.fail("future", op + ":" + q + " emits time " + to_string(m.t) + " while the latest input is " + to_string(latest));
          portsSeen.insert(op + ":" + q);
        }
  }
  c.count("times_checked_for_order", seen);
  if (!mayBeAhead) c.count("times_checked_against_the_future", seen);
  c.count("ports_observed", portsSeen.size());
  if (portsSeen.size() >= 4) c.nontrivial(shapeOf(p));
}

Prop property() {
  return {"P10", 8000, 250000,
          "random programs over all operators and random streams (also late and repeated input), batches of one port; the times of everything emitted on each port are "
          "checked for strict increase and, without a positive time shift in the program, against the latest input. Times are kept where no shift reaches below 0. "
          "Non-trivial: at least four ports emitted; distinct by types, parameters and wiring.",
          run};
}

}  // namespace mon
