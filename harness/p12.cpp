// P12: snapshots. Monitor: the original and every restored copy report bit-identically from the snapshot on, a copy's snapshot
// equals the one it came from, and taking snapshots leaves the original where it was.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = r.chance(0.15) ? 25 : 10;
  g.exactish = r.chance(0.5);
  g.demux = r.chance(0.5);
  g.variable = r.chance(0.5);
  g.maxEntryPorts = r.chance(0.1) ? 12 : 4;
  g.output = r.chance(0.2);
  Prog p;
  if (c.caseNo % 200 == 150) {
    // a window beyond 16 bits, of which a snapshot must not lose a digit
    Op o = randomOp(r, r.chance(0.5) ? "MovingAverage" : "StandardDeviation", "x", g);
    o.n = 65537 + r.below(20);
    p = around(o, r.chance(0.5));
    c.count("windows_above_65536");
  } else if (r.chance(0.35)) {
    // one operator in focus
    const auto& types = allTypes();
    string t = types[c.caseNo % types.size()];
    if (t == "Pipeline") { g.minOps = 2; p = randomProg(r, g); }
    else p = around(randomOp(r, t, "x", g), t != "Demultiplexer" && t != "Variable" && r.chance(0.3));
  } else
    p = randomProg(r, g);
  u64 backlog = c.caseNo % 200 == 50 ? c.thorough ? 70000 : 5000 : 0;
  if (backlog > 0) {
    // far more messages wait at one port than a snapshot usually holds
    static const char* t[] = {"Join", "Minus", "Variable", "Demultiplexer", "LessThanStream"};
    p = around(randomOp(r, t[r.below(5)], "x", g), false);
    c.count("backlogs_of_thousands");
  }
  bool longest = c.caseNo % 500 == 260;
  if (longest) {
    // a history whose length does not fit in 16 bits
    static const char* t[] = {"Count", "Count", "CumulativeSum", "AutoRegressive", "RelativeStrengthIndex", "ConstantResampler", "Variable"};
    p = around(randomOp(r, t[c.caseNo / 500 % 7], "x", g), false);
    c.count("histories_above_65536");
  }
  StreamOpts s;
  s.length = r.chance(0.1) ? 300 : 10 + r.below(70);
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1700000000000ull, 5000000000ull, 1700000000000000000ull, 9223372036854775700ull};
  s.start = starts[r.below(6)];
  s.valueMode = (int)r.below(VALUE_MODES);
  if (p.op(p.entry).ins().size() > 1 && r.chance(0.5)) s.valueMode = BINARY;
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.4);
  s.repeats = p.op(p.entry).type != "Input" && r.chance(0.4);
  if (longest) { s.length = 65600 + r.below(1000); s.hostile = false; s.start = r.below(2) * 1700000000000ull; }
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  if (backlog > 0) {
    a.clear();
    auto ports = p.op(p.entry).ins();
    size_t ahead = r.below(ports.size());
    double state = 0;
    for (u64 i = 0; i < backlog; i++) a.push_back({ports[ahead], {s.start + i, s.valueMode == BINARY ? (double)r.below(2) : randomValue(r, s.valueMode, state)}});
    for (size_t k = 0; k < ports.size(); k++)
      for (u64 i = 0; k != ahead && i < 30; i++) a.push_back({ports[k], {s.start + i * (backlog / 40), (double)r.below(2)}});
  }
  string text = json(p, Style{r.chance(0.3) ? &r : nullptr});
  if (r.chance(0.01)) {  // a description longer than 16 bits can tell
    text = "{" + string(65000 + r.below(2000), ' ') + text.substr(1);
    c.count("descriptions_of_64k");
  }
  c.about = json(p) + " fed with " + show(a, 400);
  c.sample(json(p) + " fed with " + show(a, 10));

  struct Copy { string id; size_t from; };
  Engine e, other;  // copies in the same engine and in a fresh one
  Engine undisturbed;
  e.create("p", text);
  undisturbed.create("p", text);
  vector<Copy> copies;
  int snapshots = 0;
  u64 compared = 0;
  size_t late = a.size() - std::min<size_t>(a.size(), 40);
  double often = r.chance(0.5) && backlog == 0 ? 0.05 : 3.0 / (a.size() + 1);
  for (size_t i = 0; i <= a.size(); i++) {
    if (longest ? i == late : i == 0 ? r.chance(0.3) : (backlog > 0 && i == backlog) || r.chance(often)) {
      Blob b = e.snapshot("p");
      if (e.snapshot("p") != b) c.fail("unstable", "two snapshots in a row differ");
      snapshots++;
      bool fresh = r.chance(0.5);
      Engine& target = fresh ? other : e;
      string id = string(fresh ? "f" : "e") + to_string(i);
      try {
        target.restore(id, b);
      } catch (const Refused& x) {
        c.fail("restore", string("a snapshot is refused: ") + x.what());
      }
      if (target.snapshot(id) != b) c.fail("again", "the snapshot of the restored program differs from the one it was restored from, after " + to_string(i) + " messages");
      // a copy of the copy
      if (r.chance(0.3)) {
        Blob again = target.snapshot(id);
        other.restore(id + "c", again);
        copies.push_back({id + "c", i});
      }
      if (target.entry(id) != e.entry("p")) c.fail("entry", "the restored program has the entry " + target.entry(id));
      if (target.ports(id) != e.ports("p")) c.fail("entry", "the restored program has other entry ports");
      if (target.outputs(id) != e.outputs("p")) c.fail("outputs", "the restored program has other outputs");
      copies.push_back({id, i});
      while (copies.size() > 6) {
        Copy x = copies[r.below(3)];
        for (size_t k = 0; k < copies.size(); k++) if (copies[k].id == x.id) { copies.erase(copies.begin() + k); break; }
        (x.id[0] == 'f' || x.id.back() == 'c' ? other : e).remove(x.id);
      }
    }
    if (i == a.size()) break;
    Out o, u;
    bool er = false, ur = false;
    bool debug = !r.chance(0.1);
    try { o = debug ? e.sendDebug("p", a[i].port, a[i].m) : e.send("p", a[i].port, a[i].m); } catch (const Refused&) { er = true; }
    try { u = debug ? undisturbed.sendDebug("p", a[i].port, a[i].m) : undisturbed.send("p", a[i].port, a[i].m); } catch (const Refused&) { ur = true; }
    string where;
    if (er != ur || !sameOut(u, o, &where)) c.fail("disturbed", "taking snapshots changed the original at message " + to_string(i) + ": " + where);
    for (auto& k : copies) {
      Engine& target = k.id[0] == 'f' || k.id.back() == 'c' ? other : e;
      Out q;
      bool qr = false;
      try { q = debug ? target.sendDebug(k.id, a[i].port, a[i].m) : target.send(k.id, a[i].port, a[i].m); } catch (const Refused&) { qr = true; }
      if (er != qr) c.fail("error", "message " + to_string(i) + " is refused by only one of the original and its copy made after " + to_string(k.from) + " messages");
      if (!sameOut(o, q, &where)) c.fail("differs", "original / copy made after " + to_string(k.from) + " messages differ at message " + to_string(i) + ": " + where);
      for (auto& [id, pm] : q) for (auto& [port, v] : pm) compared += v.size();
    }
    if (er) { c.count("runs_with_a_demultiplexer_error"); break; }
  }
  c.count("snapshots", snapshots);
  c.count("messages_compared_after_restoring", compared);
  if (snapshots > 0 && compared > 5) {
    c.nontrivial(mix(shapeOf(p), snapshots));
    set<string> types;
    std::function<void(const Prog&)> walk = [&](const Prog& q) { for (auto& o : q.ops) { types.insert(o.type); if (o.prog) walk(*o.prog); } };
    walk(p);
    for (auto& t : types) c.count("restored_programs_with_" + t);
  }
}

Prop property() {
  return {"P12", 2600, 50000,
          "random programs over all operators (and each operator alone) with snapshots before and between any messages, restored in the same and in a fresh engine, "
          "copies of copies, now and then with thousands of messages waiting at a port or tens of thousands behind the snapshot; original, copies and an undisturbed twin are fed on in lockstep and compared bit by bit. Non-trivial: at least one snapshot and more "
          "than five messages compared after it; distinct by types, parameters, wiring and number of snapshots.",
          run};
}

}  // namespace mon
