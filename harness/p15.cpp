// P15: the way a program is written down. Monitor: the original and rewritten descriptions of the same program run in lockstep and
// must report bit-identically (after renaming).
#include "watch.h"

#include <algorithm>

namespace mon {

// new names, in the same lexical order as the old ones where the order of the names has a meaning (ports of a pipeline)
static map<string, string> rename(Rng& r, const Prog& p, bool keepOrder) {
  vector<string> ids;
  for (auto& o : p.ops) ids.push_back(o.id);
  map<string, string> m;
  if (!keepOrder) {
    vector<int> k(ids.size());
    for (size_t i = 0; i < k.size(); i++) k[i] = (int)i;
    r.shuffle(k);
    if (r.chance(0.3)) {
      set<string> used;
      bool unary = r.chance(0.4);
      for (size_t i = 0; i < ids.size(); i++) {
        string id = unary ? string(k[i] + 1, '1') : piecedId(r);
        while (!used.insert(id).second) id += piecedId(r);
        m[ids[i]] = id;
      }
      return m;
    }
    static const char* stems[] = {"op", "Z", "", "x y", "i", "o", "\xC3\xBC", "a:"};
    string stem = stems[r.below(8)];
    for (size_t i = 0; i < ids.size(); i++) m[ids[i]] = stem + to_string(k[i] * 7);
    return m;
  }
  // the ports are ordered by "id:port"
  std::sort(ids.begin(), ids.end(), [](const string& a, const string& b) { return a + ":" < b + ":"; });
  for (size_t i = 0; i < ids.size(); i++) {
    char b[20];
    snprintf(b, sizeof b, "%04d", (int)(i * 3 + r.below(3)));
    m[ids[i]] = string(b) + (r.chance(0.5) ? "n" : "k");
  }
  return m;
}

static Prog apply(Rng& r, const Prog& p, bool top, map<string, string>& names) {
  Prog q = p;
  names = rename(r, p, !top);
  for (auto& o : q.ops) {
    o.id = names.at(o.id);
    if (o.prog) {
      map<string, string> inner;
      o.prog = std::make_shared<Prog>(apply(r, *o.prog, false, inner));
    }
  }
  for (auto& c : q.conns) { c.from = names.at(c.from); c.to = names.at(c.to); }
  if (!q.entry.empty()) q.entry = names.at(q.entry);
  map<string, vector<string>> out;
  for (auto& [id, v] : q.output) out[names.at(id)] = v;
  q.output = out;
  return q;
}

static void explicitly(Prog& p) {
  for (auto& o : p.ops) {
    o.omit.clear();
    if (o.prog) { o.prog = std::make_shared<Prog>(*o.prog); explicitly(*o.prog); }
  }
  for (auto& c : p.conns) c.omitFrom = c.omitTo = false;
}

// leave out whatever may be left out
static void tersely(Prog& p) {
  for (auto& o : p.ops) {
    if ((o.type == "Input" || o.type == "Output" || o.type == "Demultiplexer") && o.ports == 1) o.omit.insert("numPorts");
    if (o.type == "Join" && o.ports == 2) o.omit.insert("numPorts");
    if (o.type == "TimeShift" && o.shift == 1) o.omit.insert("dt");
    if (o.type == "TimeShift" && o.times == 1) o.omit.insert("times");
    if (o.type == "Function" && o.interp == "linear") o.omit.insert("interpolationType");
    if (o.type == "Variable" && o.value == 0) o.omit.insert("value");
    if (o.prog) { o.prog = std::make_shared<Prog>(*o.prog); tersely(*o.prog); }
  }
  for (auto& c : p.conns) {
    if (p.op(c.from).outs().size() == 1) c.omitFrom = true;
    if (p.op(c.to).ins().size() == 1 && p.op(c.to).ctls().empty()) c.omitTo = true;
  }
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = r.chance(0.2) ? 25 : 10;
  // what arrives first inside one call may depend on the order of connections; a demultiplexer that has its controls does not care
  g.demux = r.chance(0.4);
  g.demuxFed = true;
  g.exactish = r.chance(0.5);
  g.output = r.chance(0.3);
  g.maxEntryPorts = r.chance(0.1) ? 12 : 4;
  Prog p = randomProg(r, g);
  StreamOpts s;
  s.length = 10 + r.below(60);
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1700000000000ull, 5000000000ull, 1700000000000000000ull};
  s.start = starts[r.below(5)];
  if (r.chance(0.5)) s.valueMode = (int)r.below(VALUE_MODES);
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.4);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);

  struct Variant { string id, what; map<string, string> back; };
  vector<Variant> v;
  Engine e, fresh;
  string text = json(p);
  e.create("original", text);
  auto add = [&](const string& what, const Prog& q, const Style& st, const map<string, string>& names) {
    string t = json(q, st), id = "v" + to_string(v.size());
    c.about = text + " rewritten (" + what + ") as " + t + " fed with " + show(a, 400);
    Variant x{id, what + ": " + t, {}};
    for (auto& [o, n] : names) x.back[n] = o;
    try {
      (v.size() % 2 ? fresh : e).create(id, t);
    } catch (const Refused& z) {
      c.fail("refused", what + " is refused: " + z.what());
    }
    if ((v.size() % 2 ? fresh : e).ports(id) != e.ports("original")) c.fail("ports", what + " has other entry ports");
    v.push_back(x);
    c.count("rewritten: " + what);
  };
  add("another instance", p, {}, {});
  { Prog q = p; r.shuffle(q.ops); add("operators permuted", q, {}, {}); }
  { Prog q = p; r.shuffle(q.conns); add("connections permuted", q, {}, {}); }
  { Prog q = p; std::reverse(q.ops.begin(), q.ops.end()); std::reverse(q.conns.begin(), q.conns.end()); add("both reversed", q, {}, {}); }
  add("keys permuted, nested lists too", p, Style{&r, true, true}, {});
  { Prog q = p; explicitly(q); add("defaults written out", q, {}, {}); }
  { Prog q = p; tersely(q); add("defaults left out", q, {}, {}); }
  { map<string, string> names; Prog q = apply(r, p, true, names); add("renamed", q, {}, names); }
  { map<string, string> names; Prog q = apply(r, p, true, names); tersely(q); add("everything at once", q, Style{&r, true, true}, names); }
  c.about = text + " fed with " + show(a, 400);
  c.sample(v.back().what);

  u64 n = 0;
  for (size_t i = 0; i < a.size(); i++) {
    bool regular = p.hasOutput && r.chance(0.3);
    Out x;
    try {
      x = regular ? e.send("original", a[i].port, a[i].m) : e.sendDebug("original", a[i].port, a[i].m);
    } catch (const Refused& z) {
      c.fail("error", "message " + to_string(i) + " is refused: " + z.what());
    }
    for (auto& [id, pm] : x) for (auto& [q, m] : pm) n += m.size();
    for (size_t k = 0; k < v.size(); k++) {
      Engine& en = k % 2 ? fresh : e;
      Out y, z;
      try {
        y = regular ? en.send(v[k].id, a[i].port, a[i].m) : en.sendDebug(v[k].id, a[i].port, a[i].m);
      } catch (const Refused& q) {
        c.fail("error", "message " + to_string(i) + " is refused: " + q.what() + " by " + v[k].what);
      }
      for (auto& [id, pm] : y) z[v[k].back.count(id) ? v[k].back[id] : id] = pm;
      string where;
      if (!sameOut(x, z, &where)) c.fail("differs", "original / rewritten differ at message " + to_string(i) + ": " + where + "; rewritten: " + v[k].what);
    }
  }
  c.count("messages_compared", n * v.size());
  if (n > a.size() && p.ops.size() > 2) c.nontrivial(shapeOf(p));
}

Prop property() {
  return {"P15", 2600, 60000,
          "random programs against nine rewritten descriptions of each (operators, connections, keys permuted; renamed; defaults and ports written out or left out; "
          "another instance; everything at once), in the same and in another engine, compared bit by bit after every message. Non-trivial: more messages reported "
          "than sent by more than two operators; distinct by types, parameters and wiring.",
          run};
}

}  // namespace mon
