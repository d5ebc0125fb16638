// P09: the entry. Monitor: per port, a message is forwarded in the same call iff it is later than everything forwarded before.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  Prog p;
  Op in;
  in.type = "Input";
  in.id = r.chance(0.5) ? "in" : "i1";
  in.ports = r.chance(0.3) ? 1 : r.chance(0.6) ? 2 + r.below(3) : 9 + r.below(6);
  if (in.ports == 1 && r.chance(0.5)) in.omit.insert("numPorts");
  p.ops.push_back(in);
  p.entry = in.id;
  // with consumers, so that effects of dropped messages would show
  for (auto& q : in.outs()) {
    if (r.chance(0.4)) continue;
    Op k;
    k.type = r.chance(0.5) ? "Count" : "CumulativeSum";
    k.id = "k" + q;
    p.ops.push_back(k);
    p.conns.push_back({in.id, k.id, q, "i1"});
  }
  if (r.chance(0.3)) {  // an input further inside filters in the same way
    Op k;
    k.type = "Input";
    k.id = "inner";
    k.ports = 1;
    p.ops.push_back(k);
    p.conns.push_back({in.id, k.id, "o1", "i1"});
  }
  auto ports = in.ins();
  size_t n = c.caseNo % 200 == 199 ? 4000 : 5 + r.below(120);
  static const u64 starts[] = {0, 0, 1, 1000, 1700000000000ull, 4294967290ull, 9007199254740992ull, 18446744073709551000ull, 1700000000000000000ull, 9223372036854775700ull};
  u64 base = starts[r.below(10)];
  map<string, u64> now;
  vector<Arrival> a;
  double state = 0;
  int mode = (int)r.below(VALUE_MODES);
  int style = (int)r.below(r.chance(0.1) ? 5 : 4);
  for (size_t i = 0; i < n; i++) {
    const string& q = r.pick(ports);
    u64 t;
    if (!now.count(q)) t = base;
    else
      switch (style) {
        case 0: t = base + r.below(n); break;                         // any times
        case 1: t = now[q] + r.below(3); break;                       // repeated times
        case 2: t = r.chance(0.7) ? now[q] + 1 + r.below(20) : now[q] - std::min<u64>(now[q], r.below(40)); break;  // late ones
        case 3: t = base + r.below(8); break;                         // few times
        default: t = now[q] + (r.next() >> (1 + r.below(63))); if (t < now[q]) t = now[q]; break;  // leaps of every size
      }
    if (t < base && base > 1ull << 63) t = base;  // wrapped around
    now[q] = t;
    a.push_back({q, {t, randomValue(r, mode, state)}});
  }
  Watched w = watch(c, p, a);
  u64 sent = 0;
  for (auto& [q, v] : w.total[in.id]) sent += v.size();
  c.count("forwarded", sent);
  c.count("dropped", n - sent);
  if (sent > 0 && sent < n) {
    string sig;
    for (auto& x : a) sig += x.port + to_string(x.m.t - base);
    c.nontrivial(hashOf(sig));
  }
  c.sample(json(p) + " fed with " + show(a, 14));
}

Prop property() {
  return {"P09", 20000, 300000,
          "entries with up to 14 ports, with counting and summing consumers, fed with repeated, late and unordered times from 0 to nearly 2^64; every report compared "
          "with the strictly increasing sub-stream. Non-trivial: some messages were forwarded and some dropped; distinct by history.",
          run};
}

}  // namespace mon
