// P14: output selection. Monitor: the program that declares outputs, its twin without a declaration and its twin read by debug calls
// only run in lockstep; the regular report must be the selected part of the twin's report.
#include "watch.h"

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = r.chance(0.2) ? 25 : 10;
  g.demux = r.chance(0.4);
  g.variable = r.chance(0.4);
  g.maxEntryPorts = r.chance(0.1) ? 12 : 4;
  g.large = 0.08;
  Prog plain = randomProg(r, g);
  // a declaration that names at least one operator with at least one port
  Prog p = plain;
  p.hasOutput = true;
  double many = r.chance(0.3) ? 1.0 : r.unit(), ports = r.chance(0.3) ? 1.0 : 0.7;
  while (p.output.empty())
    for (auto& o : p.ops)
      if (r.chance(many)) {
        auto outs = o.outs();
        r.shuffle(outs);
        vector<string> v;
        for (auto& q : outs) if (r.chance(ports)) v.push_back(q);
        if (v.empty() && !outs.empty()) v.push_back(outs[0]);
        if (!v.empty() && r.chance(0.08)) v.insert(v.begin() + r.below(v.size() + 1), v[r.below(v.size())]);  // named twice
        if (!v.empty()) p.output[o.id] = v;
        if (o.id == p.entry) c.count("declarations_with_the_entry");
      }
  // names that select nothing: operators the program has not, ports the operator has not, operators without ports
  if (r.chance(0.3)) {
    c.count("declarations_with_unknown_names");
    if (r.chance(0.4)) p.output[r.chance(0.5) ? p.entry + "x" : "nobody"] = {"o1"};
    for (auto& o : p.ops) {
      if (r.chance(0.1)) p.output.emplace(o.id, vector<string>{});
      if (r.chance(0.2)) {
        static const char* ports[] = {"i1", "o", "o11", "o01", "c1", "", "O1"};
        auto it = p.output.find(o.id);
        string q = ports[r.below(7)];
        bool known = false;
        for (auto& x : o.outs()) known = known || x == q;
        if (!known && it == p.output.end()) p.output[o.id] = {q};
        else if (!known) it->second.insert(it->second.begin() + r.below(it->second.size() + 1), q);
      }
    }
  }
  StreamOpts s;
  s.length = 10 + r.below(60);
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1700000000000ull, 5000000000ull, 1700000000000000000ull};
  s.start = starts[r.below(5)];
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.4);
  s.repeats = p.op(p.entry).type != "Input" && r.chance(0.4);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  string text = json(p, Style{r.chance(0.3) ? &r : nullptr}), bare = json(plain);
  c.about = text + " fed with " + show(a, 400);
  c.sample(text + " fed with " + show(a, 8));

  Engine e;
  e.create("declared", text);
  e.create("debugged", text);
  e.create("mixed", text);
  e.create("bare", bare);
  if (!e.outputs("bare").empty()) c.fail("declaration", "a program without a declaration lists outputs");
  auto listed = e.outputs("declared");
  map<string, set<string>> want, have;
  for (auto& [id, v] : p.output) want[id].insert(v.begin(), v.end());
  for (auto& [id, v] : listed) have[id].insert(v.begin(), v.end());
  if (want != have) c.fail("declaration", "the outputs listed are not those declared");

  bool buffered = r.chance(0.3);
  u64 selected = 0, hidden = 0, silent = 0;
  for (size_t i = 0; i < a.size();) {
    size_t k = r.chance(0.6) ? 1 : r.chance(0.03) ? a.size() : 1 + r.below(8);
    PortMsgs batch;
    for (string port = a[i].port; k > 0 && i < a.size() && a[i].port == port; k--, i++) batch[port].push_back(a[i].m);
    auto feed = [&](const string& id, bool debug, bool& refused) {
      Out o;
      try {
        if (buffered) {
          for (auto& [q, v] : batch) for (auto& m : v) e.buffer(id, q, m);
          o = debug ? e.flushDebug(id) : e.flush(id);
        } else o = debug ? e.sendDebug(id, batch) : e.send(id, batch);
      } catch (const Refused&) { refused = true; }
      return o;
    };
    bool r1 = false, r2 = false, r3 = false, r4 = false, r5 = false;
    Out whole = feed("bare", false, r1), sel = feed("declared", false, r2), dbg = feed("debugged", true, r3);
    bool md = r.chance(0.5);
    Out mix = feed("mixed", md, r4);
    (void)r5;
    if (r1 != r2 || r1 != r3 || r1 != r4) c.fail("error", "with and without a declaration a different call is refused");
    if (r1) { c.count("runs_with_a_demultiplexer_error"); break; }
    Out part;
    for (auto& [id, pm] : whole)
      for (auto& [q, v] : pm) {
        auto it = p.output.find(id);
        bool in = false;
        if (it != p.output.end()) for (auto& x : it->second) in = in || x == q;
        if (in && !v.empty()) { part[id][q] = v; selected += v.size(); }
        else hidden += v.size();
      }
    if (part.empty()) silent++;
    string where;
    if (!sameOut(dbg, whole, &where)) c.fail("debug", "the debug report with a declaration / the report without one differ: " + where);
    if (!sameOut(sel, part, &where)) c.fail("selection", "reported / selected part differ at message " + to_string(i) + ": " + where + "; reported " + show(sel) + " of " + show(whole));
    if (!sameOut(mix, md ? whole : part, &where)) c.fail("mixed", "alternating regular and debug calls: " + where);
    for (auto& [id, pm] : sel) {
      if (pm.empty()) c.fail("empty", "the operator " + id + " is reported without ports");
      for (auto& [q, v] : pm) if (v.empty()) c.fail("empty", "the port " + id + ":" + q + " is reported without messages");
    }
  }
  c.count("messages_selected", selected);
  c.count("messages_hidden", hidden);
  c.count("calls_selecting_nothing", silent);
  if (selected > 3 && hidden > 3) {
    u64 h = shapeOf(p);
    for (auto& [id, v] : p.output) for (auto& q : v) h = mix(h, hashOf(id + q));
    c.nontrivial(h);
  }
}

Prop property() {
  return {"P14", 8000, 150000,
          "random programs with random declarations of outputs (any operators including the entry, ports in any order, ports named twice, unknown operators and ports, operators without ports) beside twins without a "
          "declaration, through map and buffer calls, regular, debug and alternating. Non-trivial: more than three messages selected and more than three hidden; "
          "distinct by program and declaration.",
          run};
}

}  // namespace mon
