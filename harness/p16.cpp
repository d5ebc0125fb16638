// P16: isolation and lifecycle. Monitor: every program of a shared engine has a twin alone in an engine of its own; after every
// operation of a random history the two must have answered alike, and operations on ids without a program must be refused.
#include "watch.h"

namespace mon {

struct Life {
  Prog p;
  string text;
  std::unique_ptr<Engine> alone;
  vector<Arrival> feed;
  size_t next = 0;
  bool pending = false; // messages wait in the buffer
  bool broken = false;  // an error was reported: what the program does now is not specified
};

static Prog someProg(Rng& r, u64 spacing) {
  GenOpts g;
  g.spacing = spacing;
  g.minOps = 1;
  g.maxOps = 7;
  g.demux = r.chance(0.3);
  g.variable = r.chance(0.3);
  g.output = r.chance(0.3);
  g.exactish = r.chance(0.5);
  return randomProg(r, g);
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  const u64 spacing = r.chance(0.5) ? 1 : 10;
  vector<string> ids = {"p", "p1", "P", "", "a b", "another program"};
  r.shuffle(ids);
  ids.resize(2 + r.below(4));
  if (r.chance(0.3)) {
    // long ids, one beginning like the other
    string base(4 + r.below(40), 'x');
    for (string s : {"", "y", "yz", "y1"}) ids.push_back(base + s);
    c.count("histories_with_ids_beginning_alike");
  }
  bool many = r.chance(0.1);
  if (many) {
    for (u64 k = 10 + r.below(30); k > 0; k--) ids.push_back("program " + to_string(k));
    c.count("histories_of_dozens_of_programs");
  }
  vector<Engine> shared(1 + r.below(2));
  vector<map<string, Life>> lives(shared.size());
  vector<Prog> pool;
  for (int i = 0; i < 4; i++) pool.push_back(someProg(r, spacing));
  vector<pair<Blob, Prog>> snapshots;  // with the program they belong to
  vector<pair<Blob, std::shared_ptr<Life>>> none;
  size_t steps = 40 + r.below(c.thorough ? 300 : 100) + (many ? 200 : 0);
  string history;
  auto note = [&](const string& s) {
    history += s + "; ";
    if (history.size() > 5000) history.erase(0, history.size() - 5000);
    c.about = "history: " + history;
  };
  struct Saved { Blob blob; Prog p; string text; vector<Arrival> feed; size_t next; };
  vector<Saved> saved;
  auto refused = [&](std::function<void()> f) {
    try { f(); } catch (const Refused&) { return true; }
    return false;
  };
  u64 compared = 0, refusals = 0, created = 0, deleted = 0, restored = 0, recreated = 0;
  set<string> usedBefore;
  for (size_t step = 0; step < steps; step++) {
    size_t which = r.below(shared.size());
    Engine& e = shared[which];
    auto& alive = lives[which];
    string id = r.pick(ids);
    string name = (which ? "B:" : "A:") + id;
    auto it = alive.find(id);
    int what = (int)r.below(100);
    if (it == alive.end()) {
      if (what < 50) {
        Life l;
        l.p = r.pick(pool);
        l.text = json(l.p);
        StreamOpts s;
        s.length = 80;
        s.spacing = spacing;
        s.hostile = l.p.op(l.p.entry).type == "Input" && r.chance(0.3);
        l.feed = randomArrivals(r, l.p.op(l.p.entry).ins(), s);
        l.alone.reset(new Engine);
        note("create " + name);
        l.alone->create("p", l.text);
        if (refused([&] { e.create(id, l.text); })) c.fail("create", "creating " + name + " is refused: " + l.text);
        if (usedBefore.count(name)) recreated++;
        usedBefore.insert(name);
        alive.emplace(id, std::move(l));
        created++;
      } else if (what < 65 && !saved.empty()) {
        Saved& s = r.pick(saved);
        Life l;
        l.p = s.p;
        l.text = s.text;
        l.feed = s.feed;
        l.next = s.next;
        l.alone.reset(new Engine);
        note("restore " + name);
        l.alone->restore("p", s.blob);
        if (refused([&] { e.restore(id, s.blob); })) c.fail("restore", "restoring as " + name + " is refused");
        if (usedBefore.count(name)) recreated++;
        usedBefore.insert(name);
        alive.emplace(id, std::move(l));
        restored++;
      } else {
        // there is no such program
        note("operate on missing " + name);
        refusals++;
        bool sound = true;
        string op;
        Out o;
        switch (r.below(10)) {
          case 0: op = "snapshot"; sound = refused([&] { e.snapshot(id); }); break;
          case 1: op = "buffer"; sound = refused([&] { e.buffer(id, "i1", {1, 1}); }); break;
          case 2: op = "flush"; sound = refused([&] { e.flush(id); }); break;
          case 3: op = "flushDebug"; sound = refused([&] { e.flushDebug(id); }); break;
          case 4: op = "entry"; sound = refused([&] { e.entry(id); }); break;
          case 5: op = "ports"; sound = refused([&] { e.ports(id); }); break;
          case 6: op = "outputs"; sound = refused([&] { e.outputs(id); }); break;
          case 7: op = "delete"; { bool gone = false; sound = refused([&] { gone = e.remove(id); }) || !gone; } break;
          // the native calls answer with nothing
          case 8: op = "send"; sound = refused([&] { o = e.send(id, "i1", {1, 1}); }) || o.empty(); break;
          default: op = "sendDebug"; sound = refused([&] { o = e.sendDebug(id, "i1", {1, 1}); }) || o.empty(); break;
        }
        if (!sound) c.fail("unknown program", op + " on the unknown program " + name + " is accepted");
      }
      continue;
    }
    Life& l = it->second;
    if (what < 5) {
      note("create again " + name);
      string other = json(r.pick(pool));
      if (!refused([&] { e.create(id, other); })) c.fail("id used twice", "creating " + name + " a second time is accepted");
      refusals++;
    } else if (what < 8 && !saved.empty()) {
      note("restore over " + name);
      if (!refused([&] { e.restore(id, r.pick(saved).blob); })) c.fail("id used twice", "restoring over " + name + " is accepted");
      refusals++;
    } else if (what < 14) {
      note("delete " + name);
      bool gone = false;
      if (refused([&] { gone = e.remove(id); }) || !gone) c.fail("delete", "deleting " + name + " is refused");
      alive.erase(it);
      deleted++;
    } else if (what < 17) {
      note("create ill-formed beside " + name);
      // refused, and nothing registered
      string bad = l.text;
      switch (r.below(3)) {
        case 0: bad = bad.substr(0, bad.size() / 2); break;
        case 1: bad = "{\"operators\":[{\"type\":\"Nonsense\",\"id\":\"x\"}],\"connections\":[],\"entryOperator\":\"x\"}"; break;
        default: bad = "{\"operators\":[],\"connections\":[],\"entryOperator\":\"x\"}"; break;
      }
      string fresh = "fresh";
      if (!refused([&] { e.create(fresh, bad); })) c.fail("ill-formed", "an ill-formed program is accepted: " + bad);
      if (!refused([&] { e.entry(fresh); })) c.fail("ill-formed", "a refused program is registered: " + bad);
      refusals++;
    } else if (l.broken) {
      continue;
    } else if (what < 27) {
      note("snapshot " + name);
      Blob x = e.snapshot(id);
      // the twin is not always asked for one, it would be disturbed likewise
      if (r.chance(0.5) && x != l.alone->snapshot("p")) c.fail("snapshot", "the snapshot of " + name + " differs from that of the same program alone");
      if (saved.size() < 12) saved.push_back({x, l.p, l.text, l.feed, l.next});
      else r.pick(saved) = {x, l.p, l.text, l.feed, l.next};
      compared++;
    } else if (what < 32) {
      if (e.entry(id) != l.alone->entry("p") || e.ports(id) != l.alone->ports("p") || e.outputs(id) != l.alone->outputs("p"))
        c.fail("description", "entry, ports or outputs of " + name + " are not its own");
      compared++;
    } else {
      bool buffer = what < 55 || l.pending, debug = r.chance(0.5), flush = what >= 48;  // times stay in order
      l.pending = buffer && !flush;
      PortMsgs m;
      size_t k = 1 + r.below(5);
      for (string port = l.next < l.feed.size() ? l.feed[l.next].port : ""; k > 0 && l.next < l.feed.size() && l.feed[l.next].port == port; k--) {
        m[port].push_back(l.feed[l.next].m);
        l.next++;
      }
      note(string(buffer ? flush ? "buffer and flush " : "buffer for " : "feed ") + name);
      Out x, y;
      bool xr = false, yr = false;
      auto act = [&](Engine& en, const string& p, Out& o) {
        if (!buffer) { o = debug ? en.sendDebug(p, m) : en.send(p, m); return; }
        for (auto& [q, v] : m) for (auto& z : v) en.buffer(p, q, z);
        if (flush) o = debug ? en.flushDebug(p) : en.flush(p);
      };
      xr = refused([&] { act(e, id, x); });
      yr = refused([&] { act(*l.alone, "p", y); });
      if (xr != yr) c.fail("error", name + " and the same program alone do not refuse the same messages");
      string where;
      if (!sameOut(x, y, &where)) c.fail("differs", name + " / the same program alone differ: " + where + "; program: " + l.text);
      for (auto& [o, pm] : x) for (auto& [q, v] : pm) compared += v.size();
      if (xr) { l.broken = true; c.count("programs_with_a_demultiplexer_error"); }
    }
  }
  c.count("operations", steps);
  c.count("answers_compared", compared);
  c.count("refusals", refusals);
  c.count("programs_created", created);
  c.count("programs_restored", restored);
  c.count("programs_deleted", deleted);
  c.count("ids_used_again", recreated);
  if (created + restored >= 2 && deleted >= 1 && compared > 20) c.nontrivial(hashOf(history));
  c.sample(history.substr(0, 800));
}

Prop property() {
  return {"P16", 2400, 60000,
          "random histories of creating, feeding, buffering, flushing, snapshotting, restoring and deleting programs under few ids in one or two engines, each program "
          "compared with a twin alone in its own engine; operations on missing ids, used ids and ill-formed descriptions in between. Non-trivial: at least two programs, "
          "one deletion and twenty answers compared; distinct by history.",
          run};
}

}  // namespace mon
