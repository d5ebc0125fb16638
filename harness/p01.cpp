// P01: a program computes the composition of its operators.
// Monitor: every message reported for every port after every input message is compared with the reference model.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 10, 7, 1000, 60000, 3000000000ull};
  g.spacing = spacings[r.below(7)];
  g.maxOps = r.chance(0.2) ? 30 : 14;
  g.maxWindow = r.chance(0.1) ? 60 : 10;
  g.exactish = r.chance(0.8);
  g.demux = r.chance(0.4);
  g.variable = r.chance(0.3);
  g.maxEntryPorts = r.chance(0.1) ? 12 : 4;
  Prog p = randomProg(r, g);
  StreamOpts s;
  s.length = r.chance(0.1) ? 400 : 20 + r.below(c.thorough ? 200 : 90);
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1000, 1700000000000ull, 5000000000ull, 9007199254740992ull, 1700000000000000000ull, 9223372036854775700ull};
  s.start = starts[r.below(8)];
  if (r.chance(0.5)) s.valueMode = (int)r.below(c.thorough ? VALUE_MODES : MIXED_SCALE + 2);
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.5);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  if (c.caseNo % 400 == 200) {
    // one message that makes a resampler report thousands
    Op o = randomOp(r, r.chance(0.4) ? "ConstantResampler" : r.chance(0.5) ? "HermiteResampler" : "CosineResampler", "x", g);
    p = around(o, true);
    a.clear();
    u64 t = s.start;
    double state = 0;
    for (int i = 0; i < 12; i++, t += i == 6 ? o.dt * (2000 + r.below(3000)) : 1 + r.below(2 * o.dt)) a.push_back({"i1", {t, randomValue(r, GAUSS, state)}});
    c.count("thousands_at_once");
  }
  Watched w = watch(c, p, a);
  if (w.compared > a.size() && w.active.size() >= 3) c.nontrivial(shapeOf(p));
  c.sample(json(p) + " fed with " + show(a, 12));
}

Prop property() {
  return {"P01", 8000, 150000,
          "random acyclic programs over all operator types (nested pipelines, fan-out, joins of common ancestors, unconnected ports) fed with random multi-port "
          "streams, one message per call; each report compared with a declarative stream model. Non-trivial: at least three operator types produced output and "
          "more messages were compared than sent; distinct by types, parameters and wiring.",
          run};
}

}  // namespace mon
