// P20: threads. Oracle: ThreadSanitizer watches threads that work on programs of their own; every thread's answers are compared
// with a sequential run of the same script. The threads share no synchronisation that could hide a race: they start on a relaxed
// flag and note the order of their operations with a relaxed counter.
#include <atomic>
#include <thread>

#include "watch.h"

namespace mon {

struct Script {
  vector<Prog> progs;
  vector<string> texts;
  vector<vector<Arrival>> feeds;
  u64 choices;
  size_t steps;
};

static std::atomic<u64> ticket;

// everything a thread does, and all the answers it got
static string play(const Script& s, Engine& e, vector<u64>* order, bool pauses) {
  Rng r(s.choices);
  string answers;
  struct Live { size_t prog, next; };
  map<string, Live> live;
  vector<pair<Blob, Live>> saved;
  auto attempt = [&](const string& what, std::function<string()> f) {
    if (order) order->push_back(ticket.fetch_add(1, std::memory_order_relaxed));
    try { answers += what + ":" + f() + "\n"; } catch (const Refused& x) { answers += what + " refused\n"; }
  };
  for (size_t i = 0; i < s.steps; i++) {
    if (pauses && i % 7 == 0) std::this_thread::yield();
    string id = "p" + to_string(r.below(3));  // every thread uses the same ids
    u64 what = r.below(20), k = r.below(s.progs.size());
    auto it = live.find(id);
    if (it == live.end()) {
      if (what < 5 && !saved.empty()) {
        auto& x = saved[r.below(saved.size())];
        attempt("restore", [&] { e.restore(id, x.first); return string(); });
        live[id] = x.second;
      } else {
        attempt("create", [&] { e.create(id, s.texts[k]); return string(); });
        live[id] = {k, 0};
      }
      continue;
    }
    Live& l = it->second;
    if (what == 0) { attempt("delete", [&] { return to_string(e.remove(id)); }); live.erase(it); continue; }
    if (what == 1) attempt("snapshot", [&] { Blob b = e.snapshot(id); if (saved.size() < 4) saved.push_back({b, l}); return to_string(hashOf(string(b.begin(), b.end()))); });
    else if (what == 2) attempt("ill-formed", [&] { e.create("bad", "{\"operators\":[{\"type\":\"Nope\",\"id\":\"x\"}]}"); return string(); });
    else if (what == 3) attempt("write", [&] { return rewrite(opJson(s.progs[l.prog].ops[r.below(s.progs[l.prog].ops.size())])); });
    else if (what == 4) attempt("describe", [&] { string q = e.entry(id); for (auto& x : e.ports(id)) q += x; return q; });
    else {
      auto& f = s.feeds[l.prog];
      size_t n = 1 + r.below(6);
      for (; n > 0 && l.next < f.size(); n--, l.next++) {
        const Arrival& x = f[l.next];
        if (what < 8) attempt("buffer", [&] { e.buffer(id, x.port, x.m); return show(what == 5 ? e.flush(id) : e.flushDebug(id), 1u << 20); });
        else if (what < 10) attempt("send", [&] { return show(e.send(id, x.port, x.m), 1u << 20); });
        else attempt("sendDebug", [&] { return show(e.sendDebug(id, x.port, x.m), 1u << 20); });
      }
    }
  }
  return answers;
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  size_t threads = 2 + r.below(5);
  vector<Script> scripts(threads);
  bool same = r.chance(0.3);  // all of them do the same
  for (size_t t = 0; t < threads; t++) {
    Script& s = scripts[t];
    if (same && t > 0) { s = scripts[0]; continue; }
    GenOpts g;
    g.maxOps = 10;
    g.demux = r.chance(0.5);
    g.variable = r.chance(0.5);
    g.output = r.chance(0.3);
    g.maxEntryPorts = r.chance(0.1) ? 12 : 3;
    const auto& types = allTypes();
    for (int k = 0; k < 3; k++) {
      Prog p;
      string type = types[(c.caseNo * 3 + k) % types.size()];
      if (k < 2 && type != "Pipeline") p = around(randomOp(r, type, "x", g), false);
      else p = randomProg(r, g);
      StreamOpts so;
      so.length = 40;
      so.hostile = p.op(p.entry).type == "Input" && r.chance(0.5);
      s.progs.push_back(p);
      s.texts.push_back(json(p));
      s.feeds.push_back(randomArrivals(r, p.op(p.entry).ins(), so));
    }
    s.choices = r.next();
    s.steps = 40 + r.below(60);
  }
  c.about = to_string(threads) + " threads, " + scripts[0].texts[0];
  vector<string> expected(threads), answers(threads);
  for (size_t t = 0; t < threads; t++) {
    Engine alone;
    expected[t] = play(scripts[t], alone, nullptr, false);
  }
  // the library is initialised: the engines exist before the threads
  vector<Engine> engines(threads);
  vector<vector<u64>> order(threads);
  ticket.store(0, std::memory_order_relaxed);
  std::atomic<int> waiting{0};
  std::atomic<bool> go{false};
  vector<std::thread> v;
  for (size_t t = 0; t < threads; t++)
    v.emplace_back([&, t] {
      waiting.fetch_add(1, std::memory_order_relaxed);
      while (!go.load(std::memory_order_relaxed)) {}
      answers[t] = play(scripts[t], engines[t], &order[t], true);
    });
  while (waiting.load(std::memory_order_relaxed) < (int)threads) std::this_thread::yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& t : v) t.join();
  u64 lines = 0;
  for (size_t t = 0; t < threads; t++) {
    if (answers[t] != expected[t]) {
      size_t k = 0;
      while (k < answers[t].size() && k < expected[t].size() && answers[t][k] == expected[t][k]) k++;
      size_t b = answers[t].rfind('\n', k);
      b = b == string::npos ? 0 : b;
      c.fail("differs", "thread " + to_string(t) + " got " + answers[t].substr(b, 300) + " instead of " + expected[t].substr(b, 300));
    }
    for (char ch : answers[t]) lines += ch == '\n';
  }
  // how the threads really interleaved
  map<u64, size_t> by;
  for (size_t t = 0; t < threads; t++) for (u64 k : order[t]) by[k] = t;
  u64 h = threads, switches = 0;
  size_t last = threads;
  for (auto& [k, t] : by) {
    h = mix(h, t);
    if (t != last) switches++;
    last = t;
  }
  c.count("operations_in_threads", lines);
  c.count("switches_between_threads", switches);
  c.count("threads_started", threads);
  if (switches >= 2 * threads) c.nontrivial(h);
  c.sample(to_string(threads) + " threads, " + to_string(lines) + " operations, " + to_string(switches) + " switches between them");
}

Prop property() {
  return {"P20", 360, 12000,
          "two to six threads with engines of their own play random scripts of every call over the same ids, under ThreadSanitizer; answers compared with a sequential "
          "run. Non-trivial: the operations of the threads interleaved (at least twice as many switches as threads); distinct by the interleaving that took place.",
          run};
}

}  // namespace mon
