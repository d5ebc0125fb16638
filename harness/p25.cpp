// P25: operators wired through the C++ interface. Oracle: the same graph created from its description, fed with the same messages;
// what a port resolves to is written down here from the number of ports; sinks have to hold the last messages of their port.
#include "native.h"

namespace mon {

struct Graph {
  map<string, std::unique_ptr<NOp>> ops;
  struct Sink { string op, port; size_t n; std::unique_ptr<NOp> c; std::deque<Msg> want; };
  vector<Sink> sinks;
};

static set<string> setOf(const vector<string>& v) { return set<string>(v.begin(), v.end()); }

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  for (auto& t : allTypes()) if (t != "Pipeline") g.only.push_back(t);
  g.pipelines = false;
  g.maxOps = 10;
  g.demux = r.chance(0.4);
  g.demuxFed = r.chance(0.7);
  g.variable = r.chance(0.4);
  g.exactish = r.chance(0.5);
  g.maxEntryPorts = r.chance(0.15) ? 12 : 4;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  Prog p = randomProg(r, g);
  string text = json(p);
  StreamOpts s;
  s.length = 15 + r.below(70);
  s.spacing = g.spacing;
  s.start = r.chance(0.5) ? 1 : 1700000000000ull;
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.4);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  c.about = text + " fed with " + show(a, 300);
  c.sample(text + " fed with " + show(a, 8));

  Graph q;
  vector<Op> order = p.ops;
  r.shuffle(order);
  for (auto& o : order) {
    auto x = construct(o);
    if (!x) throw std::logic_error("monitor: no constructor of " + o.type);
    if (setOf(x->getDataInputs()) != setOf(o.ins()) || setOf(x->getControlInputs()) != setOf(o.ctls()) || setOf(x->getOutputs()) != setOf(o.outs()))
      c.fail("ports", "the ports of " + o.type + " " + o.id + " differ from those of its description");
    if (x->getNumDataInputs() != o.ins().size() || x->getNumControlInputs() != o.ctls().size() || x->getNumOutputPorts() != o.outs().size() ||
        x->hasControlInputs() != !o.ctls().empty())
      c.fail("ports", "the number of ports of " + o.type + " " + o.id);
    for (auto& i : o.ins()) if (!x->isDataInput(i) || x->isControlInput(i)) c.fail("ports", i + " of " + o.type + " is no data input");
    for (auto& i : o.ctls()) if (x->isDataInput(i) || !x->isControlInput(i)) c.fail("ports", i + " of " + o.type + " is no control input");
    q.ops[o.id] = std::move(x);
  }
  // -1 refused, 0 not connected, 1 connected
  auto join = [&](NOp* from, NOp* to, const string& fp, const string& tp) {
    try {
      NOp* x = r.chance(0.5) ? from->connect(to, fp, tp) : from->connect(*to, fp, tp);
      if (x && x != to) c.fail("connect", "connecting " + from->id + " to " + to->id + " returns another operator");
      return x ? 1 : 0;
    } catch (const std::runtime_error&) { return -1; }
  };
  auto attempt = [&] {  // something that cannot be connected
    const Op &f = p.ops[r.below(p.ops.size())], &t = p.ops[r.below(p.ops.size())];
    static const char* unknown[] = {"x1", "i99", "o99", "c99", "1", "I1", "i", "o", "i1 "};
    string fp = r.pick(f.outs());
    auto ins = t.ins();
    for (auto& k : t.ctls()) ins.push_back(k);
    string tp = r.pick(ins);
    string what;
    switch (r.below(4)) {
      case 0: fp = unknown[r.below(9)]; what = "from an unknown port"; break;
      case 1: tp = unknown[r.below(9)]; what = "to an unknown port"; break;
      case 2:
        if (f.outs().size() == 1) return;
        fp = "";
        what = "from one of several ports";
        break;
      default:
        if (t.ins().size() == 1 && t.ctls().empty()) return;
        tp = "";
        what = "to one of several ports";
        break;
    }
    if (join(q.ops[f.id].get(), q.ops[t.id].get(), fp, tp) == 1)
      c.fail("accepted", "a connection " + what + " is accepted: " + f.id + ":" + fp + " to " + t.id + ":" + tp);
    c.count("refused_connections");
  };
  auto sink = [&] {
    const Op& f = p.ops[r.below(p.ops.size())];
    Graph::Sink k;
    k.op = f.id;
    k.port = r.pick(f.outs());
    k.n = 1 + r.below(4);
    k.c.reset(k.n == 1 && r.chance(0.5) ? new rtbot::Collector<uint64_t, double>("sink") : new rtbot::Collector<uint64_t, double>("sink", k.n));
    bool omit = f.outs().size() == 1 && r.chance(0.5);
    if (join(q.ops[f.id].get(), k.c.get(), omit ? "" : k.port, r.chance(0.5) ? "" : "i1") != 1) c.fail("refused", "a collector behind " + f.id + ":" + k.port + " is refused");
    q.sinks.push_back(std::move(k));
  };
  for (auto& x : p.conns) {
    while (r.chance(0.3)) attempt();
    if (r.chance(0.15)) sink();
    const Op &f = p.op(x.from), &t = p.op(x.to);
    bool omitFrom = f.outs().size() == 1 && r.chance(0.5), omitTo = t.ins().size() == 1 && t.ctls().empty() && r.chance(0.5);
    if (join(q.ops[x.from].get(), q.ops[x.to].get(), omitFrom ? "" : x.fromPort, omitTo ? "" : x.toPort) != 1)
      c.fail("refused", "the connection of " + x.from + ":" + x.fromPort + " and " + x.to + ":" + x.toPort + " is refused");
    c.count("connections");
  }
  for (int i = r.below(3); i > 0; i--) sink();
  while (r.chance(0.4)) attempt();

  Engine e;
  e.create("p", text);
  NOp* entry = q.ops[p.entry].get();
  u64 n = 0;
  for (size_t i = 0; i < a.size(); i++) {
    if (r.chance(0.05)) {
      bool refused = false;
      try { entry->receiveData(NMsg(1, 1), "i99"); } catch (const std::runtime_error&) { refused = true; }
      if (!refused) c.fail("accepted", "a message for an unknown port is accepted");
    }
    if (r.chance(0.03)) attempt();
    Out have, want;
    bool hr = false, wr = false;
    try {
      bool omit = p.op(p.entry).ins().size() == 1 && r.chance(0.5);
      if (omit) entry->receiveData(NMsg(a[i].m.t, a[i].m.v));
      else entry->receiveData(NMsg(a[i].m.t, a[i].m.v), a[i].port);
      have = seen(entry->executeData());
    } catch (const std::exception&) { hr = true; }
    try { want = e.sendDebug("p", a[i].port, a[i].m); } catch (const Refused&) { wr = true; }
    if (hr != wr) c.fail("error", "message " + to_string(i) + " is refused by only one of graph and program");
    if (hr) { c.count("runs_with_a_demultiplexer_error"); break; }
    string where;
    if (!sameOut(have, want, &where)) c.fail("differs", "after message " + to_string(i) + " graph / program differ: " + where);
    for (auto& [id, pm] : want) for (auto& [port, v] : pm) n += v.size();
    for (auto& k : q.sinks) {
      auto it = want.find(k.op);
      if (it != want.end() && it->second.count(k.port))
        for (auto& m : it->second[k.port]) {
          k.want.push_back(m);
          if (k.want.size() > k.n) k.want.pop_front();
        }
      if (k.c->getDataInputSize("i1") != k.want.size())
        c.fail("collector", "after message " + to_string(i) + " the collector behind " + k.op + ":" + k.port + " holds " + to_string(k.c->getDataInputSize("i1")) + " messages instead of " + to_string(k.want.size()));
      for (size_t j = 0; j < k.want.size(); j++) {
        auto m = k.c->getDataInputMessage("i1", j);
        if (!sameMsg(Msg{m.time, m.value}, k.want[j]))
          c.fail("collector", "after message " + to_string(i) + " the collector behind " + k.op + ":" + k.port + " holds " + show(Msg{m.time, m.value}) + " instead of " + show(k.want[j]));
        c.count("collected_messages_compared");
      }
    }
  }
  c.count("messages_compared", n);
  if (n > a.size()) c.nontrivial(shapeOf(p));
}

Prop property() {
  return {"P25", 12000, 300000,
          "random graphs over all operators wired by connect() with ports given or left out, refused attempts in between and collectors attached, against the program "
          "created from the description, bit by bit after every message. Non-trivial: more messages reported than fed; distinct by types, parameters and wiring.",
          run};
}

}  // namespace mon
