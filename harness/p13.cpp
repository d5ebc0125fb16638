// P13: nesting. Monitor: a program with sub-programs and the same program with their operators wired in directly run in lockstep;
// every report is translated and compared bit by bit.
#include "native.h"
#include "watch.h"

namespace mon {

struct Flat {
  Prog p;
  // port of a pipeline of the outer program -> inner operator and port
  map<string, map<string, pair<string, string>>> outOf, intoOf;
};

// every operator of the sub-programs becomes an operator of the enclosing one
static Flat flatten(const Prog& p, u64& unique) {
  Flat f;
  f.p.entry = p.entry;
  vector<Op> inner;
  vector<Conn> innerConns;
  for (auto& o : p.ops) {
    if (o.type != "Pipeline") { f.p.ops.push_back(o); continue; }
    Flat q = flatten(*o.prog, unique);
    string prefix = "#" + to_string(unique++) + "/";
    for (auto x : q.p.ops) { x.id = prefix + x.id; f.p.ops.push_back(x); }
    for (auto c : q.p.conns) { c.from = prefix + c.from; c.to = prefix + c.to; f.p.conns.push_back(c); }
    auto resolve = [&](const pair<string, string>& e, map<string, map<string, pair<string, string>>>& of) {
      auto it = of.find(e.first);
      pair<string, string> x = it == of.end() ? e : it->second.at(e.second);
      return pair<string, string>{prefix + x.first, x.second};
    };
    auto ins = pipelineIns(*o.prog), outs = pipelineOuts(*o.prog);
    f.outOf[o.id];
    f.intoOf[o.id];
    for (size_t i = 0; i < ins.size(); i++) f.intoOf[o.id]["i" + to_string(i + 1)] = resolve(ins[i], q.intoOf);
    for (size_t i = 0; i < outs.size(); i++) f.outOf[o.id]["o" + to_string(i + 1)] = resolve(outs[i], q.outOf);
  }
  for (auto c : p.conns) {
    if (f.outOf.count(c.from)) { auto x = f.outOf[c.from].at(c.fromPort); c.from = x.first; c.fromPort = x.second; c.omitFrom = false; }
    if (f.intoOf.count(c.to)) { auto x = f.intoOf[c.to].at(c.toPort); c.to = x.first; c.toPort = x.second; c.omitTo = false; }
    f.p.conns.push_back(c);
  }
  return f;
}

// sub-programs around an operator with control ports: its controls are connected inside, its data port may be left for the outside
static Prog controlled(Rng& r, const GenOpts& g) {
  auto inner = std::make_shared<Prog>();
  vector<string> ids = {"a", "b", "d", "m", "x", "z", "k1", "k10", "data"};
  r.shuffle(ids);
  auto next = [&] { string id = ids.back(); ids.pop_back(); return id; };
  auto passing = [&](bool binary) {
    static const char* any[] = {"Identity", "Add", "Scale", "Identity"};
    Op o = randomOp(r, binary ? "Identity" : any[r.below(4)], next(), g);
    inner->ops.push_back(o);
    return o.id;
  };
  bool demux = r.chance(0.5);
  Op v = randomOp(r, demux ? "Demultiplexer" : "Variable", next(), g);
  if (demux) { v.ports = 1 + r.below(3); v.omit.clear(); }
  inner->ops.push_back(v);
  for (auto& q : v.ctls()) inner->conns.push_back({passing(demux), v.id, "o1", q});
  if (r.chance(0.3)) inner->conns.push_back({passing(false), v.id, "o1", "i1"});
  if (r.chance(0.4)) inner->conns.push_back({v.id, passing(false), "o" + to_string(1 + r.below(v.outs().size())), "i1"});
  r.shuffle(inner->ops);
  r.shuffle(inner->conns);
  Prog p;
  Op in, o;
  in.type = "Input";
  in.id = "in";
  o.type = "Pipeline";
  o.id = r.chance(0.5) ? "pipe" : "a";
  o.prog = inner;
  if (r.chance(0.3)) {  // one level deeper
    Op w;
    w.type = "Pipeline";
    w.id = "outer";
    w.prog = std::make_shared<Prog>();
    w.prog->ops.push_back(o);
    o = w;
  }
  auto ports = o.ins();
  in.ports = ports.size();
  p.ops = {in, o};
  for (size_t i = 0; i < ports.size(); i++) p.conns.push_back({"in", o.id, "o" + to_string(i + 1), ports[i]});
  for (auto& q : o.outs()) {
    Op s = randomOp(r, "Scale", "after" + q, g);
    p.ops.push_back(s);
    p.conns.push_back({o.id, s.id, q, "i1"});
  }
  p.entry = "in";
  r.shuffle(p.conns);
  return p;
}

static void pipelines(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = r.chance(0.2) ? 20 : 9;
  g.demux = r.chance(0.3);
  g.demuxFed = true;
  g.exactish = r.chance(0.6);
  g.maxEntryPorts = r.chance(0.1) ? 12 : 4;
  Prog p;
  auto pipes = [&] { int n = 0; for (auto& o : p.ops) n += o.type == "Pipeline"; return n; };
  bool control = r.chance(0.15), asEntry = !control && r.chance(0.15);
  if (control) p = controlled(r, g);
  while (!control) {
    p = randomProg(r, g);
    if (!pipes()) continue;
    if (!asEntry) break;
    // a pipeline as the entry of the program: it and all that follows from it
    Op o;
    for (auto& x : p.ops) if (x.type == "Pipeline") { o = x; break; }
    Prog q;
    q.ops.push_back(o);
    q.entry = o.id;
    for (size_t k = 0; k < o.outs().size() && k < 3; k++) {
      Op s = randomOp(r, r.chance(0.5) ? "Add" : "MovingAverage", "after" + to_string(k), g);
      q.conns.push_back({o.id, s.id, "o" + to_string(k + 1), "i1"});
      q.ops.push_back(s);
    }
    p = q;
    break;
  }
  u64 unique = 0;
  Flat f = flatten(p, unique);
  map<string, pair<string, string>> entryMap;
  if (asEntry) {
    Op in;
    in.type = "Input";
    in.id = "#entry";
    auto ports = p.op(p.entry).ins();
    in.ports = ports.size();
    f.p.ops.push_back(in);
    for (size_t i = 0; i < ports.size(); i++) {
      auto x = f.intoOf[p.entry].at(ports[i]);
      f.p.conns.push_back({in.id, x.first, "o" + to_string(i + 1), x.second});
    }
    f.p.entry = in.id;
  }
  // wiring order is the order of delivery inside a call; it must not matter here
  StreamOpts s;
  s.length = 20 + r.below(60);
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1700000000000ull, 5000000000ull, 1700000000000000000ull};
  s.start = starts[r.below(5)];
  if (r.chance(0.5)) s.valueMode = (int)r.below(VALUE_MODES);
  if (control && r.chance(0.8)) s.valueMode = BINARY;
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.4);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  string nested = json(p), flat = json(f.p);
  c.about = nested + " versus " + flat + " fed with " + show(a, 400);
  c.sample(nested + " fed with " + show(a, 8));
  Engine e;
  e.create("nested", nested);
  e.create("flat", flat);
  u64 crossed = 0, n = 0;
  set<string> used;
  for (size_t i = 0; i < a.size(); i++) {
    Out x, y;
    string refused;
    try { x = e.sendDebug("nested", a[i].port, a[i].m); } catch (const Refused& z) { refused = string("nested: ") + z.what(); }
    try { y = e.sendDebug("flat", a[i].port, a[i].m); } catch (const Refused& z) { refused += string(" flat: ") + z.what(); }
    // a demultiplexer whose controls are late or other than 0 and 1 refuses the message in both
    if (control && refused.find("nested: ") == 0 && refused.find(" flat: ") != string::npos) { c.count("messages_refused_by_both"); break; }
    if (!refused.empty()) c.fail("error", "message " + to_string(i) + ": " + refused);
    // what the flat program says, as the nested one has to say it
    Out want;
    for (auto& o : p.ops) {
      if (o.type != "Pipeline") { if (y.count(o.id)) want[o.id] = y[o.id]; continue; }
      for (auto& [port, at] : f.outOf[o.id])
        if (y.count(at.first) && y[at.first].count(at.second)) {
          want[o.id][port] = y[at.first][at.second];
          crossed += want[o.id][port].size();
          used.insert(o.id);
        }
    }
    string where;
    if (!sameOut(x, want, &where))
      c.fail("differs", "after message " + to_string(i) + " nested / wired directly differ: " + where + "; nested reports " + show(x) + " wired directly it would be " + show(want));
    for (auto& [id, pm] : x) for (auto& [q, v] : pm) n += v.size();
  }
  c.count("messages_compared", n);
  c.count("messages_leaving_a_pipeline", crossed);
  c.count("pipelines_with_output", used.size());
  if (asEntry) c.count("pipelines_as_entry");
  if (control) c.count("pipelines_around_controls");
  if (crossed > 3) c.nontrivial(shapeOf(p));
}

// ---- composites ----
using Comp = rtbot::Composite<uint64_t, double>;

static void createIn(Comp& k, const Op& o) {
  const string &t = o.type, &id = o.id;
  if (t == "Input") o.omit.count("numPorts") ? k.createInput(id) : k.createInput(id, o.ports);
  else if (t == "Output") o.omit.count("numPorts") ? k.createOutput(id) : k.createOutput(id, o.ports);
  else if (t == "Add") k.createAdd(id, o.value);
  else if (t == "Scale") k.createScale(id, o.value);
  else if (t == "Power") k.createPower(id, o.value);
  else if (t == "Constant") k.createConstant(id, o.value);
  else if (t == "Identity") k.createIdentity(id);
  else if (t == "GreaterThan") k.createGreaterThan(id, o.value);
  else if (t == "LessThan") k.createLessThan(id, o.value);
  else if (t == "EqualTo") k.createEqualTo(id, o.value);
  else if (t == "TimeShift") o.omit.count("times") ? o.omit.count("dt") ? k.createTimeShift(id) : k.createTimeShift(id, o.shift) : k.createTimeShift(id, o.shift, o.times);
  else if (t == "MovingAverage") k.createMovingAverage(id, o.n);
  else if (t == "StandardDeviation") k.createStandardDeviation(id, o.n);
  else if (t == "PeakDetector") k.createPeakDetector(id, o.n);
  else if (t == "FiniteImpulseResponse") k.createFiniteImpulseResponse(id, o.coeff);
  else if (t == "AutoRegressive") k.createAutoregressive(id, o.coeff);
  else if (t == "Linear") k.createLinear(id, o.coeff);
  else if (t == "Difference") k.createDifference(id);
  else if (t == "Count") k.createCount(id);
  else if (t == "CumulativeSum") k.createCumulativeSum(id);
  else if (t == "CosineResampler") k.createCosineResampler(id, o.dt);
  else if (t == "HermiteResampler") k.createHermiteResampler(id, o.dt);
  else if (t == "Join") k.createJoin(id, o.ports);
  else if (t == "Minus") k.createMinus(id);
  else if (t == "Division") k.createDivision(id);
  else if (t == "Variable") o.omit.count("value") ? k.createVariable(id) : k.createVariable(id, o.value);
  else if (t == "Demultiplexer") k.createDemultiplexer(id, o.ports);
  else throw std::logic_error("monitor: no composite " + t);
}

static void composites(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = 9;
  g.demux = r.chance(0.4);
  g.variable = r.chance(0.4);
  g.exactish = r.chance(0.6);
  g.unconnected = false;
  g.only = {"Add", "Scale", "Power", "Constant", "Identity", "GreaterThan", "LessThan", "EqualTo", "TimeShift", "MovingAverage", "StandardDeviation",
            "PeakDetector", "FiniteImpulseResponse", "AutoRegressive", "Linear", "Difference", "Count", "CumulativeSum", "CosineResampler",
            "HermiteResampler", "Join", "Minus", "Division", "Variable", "Demultiplexer"};
  Prog p;
  for (;;) {
    p = randomProg(r, g);
    bool fine = p.op(p.entry).type == "Input";
    for (auto& o : p.ops) fine = fine && o.type != "And" && o.type != "Or";
    for (auto& o : p.ops) fine = fine && (o.id == p.entry || o.type != "Input");
    if (fine) break;
  }
  for (auto& o : p.ops) if (o.type == "Join" || o.type == "Demultiplexer" || o.type == "Variable") o.omit.clear();
  // the output of the composite collects some ports
  Op out;
  out.type = "Output";
  out.id = "OUT";
  out.ports = 1 + r.below(3);
  for (u64 i = 1; i <= out.ports; i++) {
    const Op& src = p.ops[r.below(p.ops.size())];
    auto os = src.outs();
    p.conns.push_back({src.id, out.id, os[r.below(os.size())], "i" + to_string(i)});
  }
  p.ops.push_back(out);
  // what follows the composite
  Prog whole = p;
  vector<Op> behind;
  vector<Conn> outer;
  for (u64 i = 1; i <= out.ports; i++) {
    if (r.chance(0.3)) continue;
    Op o = randomOp(r, r.chance(0.5) ? "Scale" : r.chance(0.5) ? "Count" : "MovingAverage", "B" + to_string(i), g);
    behind.push_back(o);
    whole.ops.push_back(o);
    outer.push_back({out.id, o.id, "o" + to_string(i), "i1", out.ports == 1 && r.chance(0.5), r.chance(0.5)});
    whole.conns.push_back(outer.back());
  }
  StreamOpts s;
  s.length = 20 + r.below(60);
  s.spacing = g.spacing;
  s.start = r.chance(0.5) ? 1 : 1700000000000ull;
  s.hostile = r.chance(0.4);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  string text = json(whole);
  c.about = "composite of " + json(p) + " in " + text + " fed with " + show(a, 400);

  auto build = [&](Comp& k, vector<std::unique_ptr<NOp>>& after, bool noisy) {
    vector<Op> order = p.ops;
    r.shuffle(order);
    for (auto& o : order) createIn(k, o);
    auto wrong = [&](const string& what, std::function<void()> f) {
      bool refused = false;
      try { f(); } catch (const std::exception&) { refused = true; }
      if (!refused) c.fail("accepted", "the composite accepts " + what);
      c.count("refusals_of_a_composite");
    };
    for (auto& x : p.conns) {
      if (noisy && r.chance(0.1)) wrong("a connection from an unknown operator", [&] { k.createInternalConnection("nobody", x.to, "o1", x.toPort); });
      if (noisy && r.chance(0.1)) wrong("a connection to an unknown operator", [&] { k.createInternalConnection(x.from, "nobody", x.fromPort, "i1"); });
      if (noisy && r.chance(0.1)) wrong("a connection to an unknown port", [&] { k.createInternalConnection(x.from, x.to, x.fromPort, "i99"); });
      if (noisy && r.chance(0.1)) wrong("a connection from an unknown port", [&] { k.createInternalConnection(x.from, x.to, "o99", x.toPort); });
      if (noisy && r.chance(0.1)) wrong("a second operator of the same id", [&] { Op o = randomOp(r, "Add", x.to, g); createIn(k, o); });
      if (noisy && r.chance(0.1)) wrong("a second input", [&] { k.createInput("another"); });
      if (noisy && r.chance(0.1)) wrong("a second output", [&] { k.createOutput("another"); });
      k.createInternalConnection(x.from, x.to, x.omitFrom ? "" : x.fromPort, x.omitTo ? "" : x.toPort);
    }
    for (auto& o : behind) after.push_back(construct(o));
    for (auto& x : outer)
      for (auto& o : after)
        if (o->id == x.to) {
          bool byRef = r.chance(0.5);
          string op = x.omitFrom ? "" : x.fromPort, ip = x.omitTo ? "" : x.toPort;
          if ((byRef ? k.connect(*o, op, ip) : k.connect(o.get(), op, ip)) == nullptr) c.fail("connect", "the composite cannot be connected");
        }
  };
  Comp one("comp"), two("comp");
  vector<std::unique_ptr<NOp>> afterOne, afterTwo;
  build(one, afterOne, true);
  build(two, afterTwo, false);
  Engine e;
  e.create("flat", text);
  u64 n = 0;
  size_t copyAt = r.chance(0.5) ? r.below(a.size() + 1) : a.size() + 1;
  bool copied = false;
  for (size_t i = 0; i < a.size(); i++) {
    if (i == copyAt) {
      rtbot::Bytes b = one.collect();
      rtbot::Bytes::const_iterator it = b.begin();
      two.restore(it);
      if (it != b.end()) c.fail("restore", "restoring a composite does not consume its state");
      for (size_t k = 0; k < afterOne.size(); k++) {
        rtbot::Bytes q = afterOne[k]->collect();
        rtbot::Bytes::const_iterator jt = q.begin();
        afterTwo[k]->restore(jt);
      }
      copied = true;
      c.count("composites_restored");
    }
    Out x, y, z;
    bool xr = false, yr = false, zr = false;
    auto through = [&](Comp& k, Out& o, bool& refused) {
      try {
        k.receiveData(NMsg(a[i].m.t, a[i].m.v), a[i].port);
        o = seen(k.executeData());
      } catch (const std::exception&) { refused = true; }
    };
    through(one, x, xr);
    try { y = e.sendDebug("flat", a[i].port, a[i].m); } catch (const Refused&) { yr = true; }
    if (copied) through(two, z, zr);
    if (xr != yr) c.fail("error", "message " + to_string(i) + " is refused by only one of composite and program");
    if (copied && zr != yr) c.fail("error", "message " + to_string(i) + " is refused by only one of restored composite and program");
    string where;
    if (!sameOut(x, y, &where)) c.fail("composite", "after message " + to_string(i) + " composite / program differ: " + where);
    if (copied && !sameOut(z, y, &where)) c.fail("restored", "after message " + to_string(i) + " restored composite / program differ: " + where);
    if (xr) { c.count("runs_with_a_demultiplexer_error"); break; }
    for (auto& [id, pm] : x) for (auto& [q, v] : pm) n += v.size();
  }
  c.count("messages_of_composites_compared", n);
  if (n > a.size()) c.nontrivial(mix(shapeOf(whole), 99));
}

static void run(Ctx& c) {
  if (c.rng.chance(0.3)) composites(c);
  else pipelines(c);
}

Prop property() {
  return {"P13", 7000, 120000,
          "random programs with pipelines (nested up to four deep, as entry, with up to many ports) against the same operators wired directly, reports translated port "
          "by port and compared bit by bit; and composites built through the C++ interface (with refused wiring in between, and restored in mid-run) against the flat "
          "program. Non-trivial: more than three messages left a pipeline, or a composite reported more messages than it got; distinct by types, parameters and wiring.",
          run};
}

}  // namespace mon
