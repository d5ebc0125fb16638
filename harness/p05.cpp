// P05: resamplers. Monitor: the set of grid points covered so far, each with the interpolated value, in the call that covers it.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  static const vector<string> types{"ConstantResampler", "CosineResampler", "HermiteResampler"};
  Op o;
  o.type = types[c.caseNo % 3];
  o.id = "x";
  static const u64 spacings[] = {1, 2, 7, 10, 10, 60, 1000, 60000, 3000000000ull};
  u64 sp = spacings[r.below(9)];
  switch (r.below(6)) {
    case 0: o.dt = sp; break;
    case 1: o.dt = 1; if (sp > 1000) o.dt = sp / 100; break;
    case 2: o.dt = sp * (1 + r.below(5)); break;
    case 3: o.dt = 1 + r.below(2 * sp); break;
    case 4: o.dt = std::max<u64>(1, sp / (1 + r.below(6))); break;
    default: o.dt = sp * 10 + r.below(sp * 20 + 1); break;
  }
  if (sp / o.dt > 200) o.dt = sp / 100;
  // the same in finer units: clocks of microseconds or nanoseconds
  if (r.chance(0.3)) {
    static const u64 units[] = {1000, 65536, 1000000};
    u64 u = units[r.below(3)];
    sp *= u;
    o.dt *= u;
    if (r.chance(0.5)) o.dt += r.below(u);
    c.count("streams_in_finer_units");
    if (o.dt >> 32) c.count("intervals_above_2_to_the_32");
  }
  Prog p = around(o, r.chance(0.3));
  static const u64 starts[] = {0, 1, 5, 1000, 1700000000000ull, 4294967290ull, 9007199254740992ull, 1700000000000000000ull};
  size_t n = r.chance(0.1) ? 1 + r.below(6) : 8 + r.below(150);
  if (c.caseNo % 100 == 99) n = 5000;
  vector<u64> t = randomTimes(r, n, starts[r.below(8)], sp);
  // now and then a gap of thousands of grid points
  if (r.chance(0.05)) for (size_t i = 1 + r.below(n); i < n; i++) t[i] += 5000 * o.dt;
  double state = 0;
  int mode = (int)r.below(r.chance(0.1) ? VALUE_MODES : SPECIAL);
  vector<Arrival> a;
  for (size_t i = 0; i < n; i++) a.push_back({"i1", {t[i], randomValue(r, mode, state)}});
  Watched w = watch(c, p, a);
  if (w.compared > n) c.nontrivial(mix(mix(shapeOf(p), mode), t.back() - t[0]));
  c.sample(json(p) + " fed with " + show(a, 10));
  u64 on = 0;
  for (size_t i = 1; i < n; i++) on += (t[i] - t[0]) % o.dt == 0;
  c.count("inputs_on_the_grid", on);
  c.count("inputs_between_grid_times", n - 1 - on);
}

Prop property() {
  return {"P05", 6000, 250000,
          "the three resamplers in turn; intervals from far below to far above the input spacing, regular, jittered, bursty and gapped input (gaps of 5000 grid "
          "points), units up to a million times finer, epoch and >2^53 times; every report compared with the grid points covered so far and the documented interpolation. Non-trivial: more messages "
          "compared than sent; distinct by operator, interval, kind and extent of the stream.",
          run};
}

}  // namespace mon
