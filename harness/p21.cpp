// P21: bounded memory. The allocator of this process is replaced by one that counts the bytes the engine holds (whatever was
// allocated during one of its calls and is not freed yet). Oracle: at many points of long runs they are at most those of the fresh
// program plus its windows plus the messages that, by the reference model, may still be needed for synchronisation; the size of a
// snapshot, which has no allocator overhead, is bounded in the same way and more tightly.
#include <cstdlib>
#include <new>

#include "watch.h"

static bool inEngine = false;
static uint64_t held = 0, calls = 0;
struct Head { uint64_t size; uint64_t mine; };

void* operator new(size_t n) {
  Head* h = (Head*)malloc(n + sizeof(Head));
  if (!h) throw std::bad_alloc();
  h->size = n;
  h->mine = inEngine;
  if (inEngine) { held += n; calls++; }
  return h + 1;
}
void operator delete(void* p) noexcept {
  if (!p) return;
  Head* h = (Head*)p - 1;
  if (h->mine) held -= h->size;
  free(h);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace mon {

struct Inside {
  Inside() { inEngine = true; }
  ~Inside() { inEngine = false; }
};

struct Sizes { u64 bytes = 0, snapshot = 0, ports = 0, ops = 0; };
// what the windows may take
static void windows(const Prog& p, Sizes& s) {
  for (auto& o : p.ops) {
    s.ops++;
    if (o.type == "Pipeline") windows(*o.prog, s);
    u64 ports = o.ins().size() + o.ctls().size();
    s.ports += ports;
    u64 w = std::max<u64>(o.n, o.coeff.size()) + 2;
    if (o.type == "HermiteResampler") w = 8;
    w = std::max<u64>(w, 3) * (o.type == "Pipeline" ? 0 : 1);
    // one deque holds at most its messages and two more blocks of them
    s.bytes += w * 16 * 2 + ports * 1100 + 300;
    s.snapshot += (w + 2) * 16 + 80 * ports;
  }
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  g.spacing = r.chance(0.5) ? 10 : 3;
  g.demux = g.demuxFed = true;
  g.variable = true;
  g.maxResamplers = 1;
  g.maxOps = 9;
  g.maxEntryPorts = 3;
  g.maxWindow = r.chance(0.2) ? 60 : 10;
  g.exactish = true;
  Prog p;
  bool alone = r.chance(0.55);
  string t;
  if (alone) {
    const auto& types = allTypes();
    t = types[c.caseNo % types.size()];
    if (t == "Pipeline") { g.minOps = 1; g.maxOps = 4; p = randomProg(r, g); }
    else p = around(randomOp(r, t, "x", g), t != "Demultiplexer" && t != "Variable" && r.chance(0.5));
  } else
    p = randomProg(r, g);
  StreamOpts s;
  s.length = alone ? 4000 : 1200;
  if (c.thorough) s.length *= 8;
  s.spacing = g.spacing;
  s.valueMode = r.chance(0.5) ? SMALL_INT : r.chance(0.5) ? DYADIC : BINARY;
  s.timeMode = (int)r.below(4);
  const Op& entry = p.op(p.entry);
  s.hostile = entry.type == "Input" && r.chance(0.5);
  auto a = randomArrivals(r, entry.ins(), s);
  // now and then one port stands still for a while, so that the others wait for it
  if (r.chance(0.3) && entry.ins().size() > 1) {
    string still = r.pick(entry.ins());
    size_t from = r.below(a.size()), to = std::min(a.size(), from + a.size() / 4);
    vector<Arrival> b, late;
    for (size_t i = 0; i < a.size(); i++) {
      if (i == to) { b.insert(b.end(), late.begin(), late.end()); late.clear(); }
      if (i >= from && i < to && a[i].port == still) late.push_back(a[i]);
      else b.push_back(a[i]);
    }
    b.insert(b.end(), late.begin(), late.end());
    a = b;
  }
  if (p.has("x") && t == "Demultiplexer")  // controls it can follow
    for (auto& x : a) if (x.port != "i1") x.m.v = r.below(2);
  string text = json(p);
  c.about = text + " fed with " + show(a, 60);
  c.sample(text + " fed with " + show(a, 8));
  Sizes w;
  windows(p, w);
  Engine e;
  u64 start;
  size_t first;
  {
    Inside in;
    e.create("p", text);
  }
  start = held;
  {
    Inside in;
    Blob b = e.snapshot("p");
    first = b.size();
  }
  size_t checks = 3 + r.below(3), next = a.size() / checks;
  u64 reported = 0, maxHeld = start, maxWait = 0;
  bool filtered = entry.type == "Input";
  PortMsgs batch;
  size_t waiting = 0;
  int how = (int)r.below(4);
  for (size_t i = 0; i < a.size(); i++) {
    try {
      Inside in;
      if (how == 0 && filtered) {
        e.buffer("p", a[i].port, a[i].m);
        if (++waiting == 7 || i + 1 >= next) {
          auto o = e.flush("p");
          for (auto& [k, v] : o) reported += v.size();
          waiting = 0;
        }
      } else {
        Out o = how == 1 ? e.send("p", a[i].port, a[i].m) : e.sendDebug("p", a[i].port, a[i].m);
        for (auto& [k, v] : o) reported += v.size();
      }
    } catch (const Refused& x) {
      c.count("runs_ended_by_an_error");
      return;
    }
    if (i + 1 < next) continue;
    next = std::min(a.size(), i + 1 + a.size() / checks);
    vector<Arrival> prefix(a.begin(), a.begin() + i + 1);
    Model m = evaluate(p, prefix);
    bool unsure = false;
    for (auto& [op, ports] : m.out) for (auto& [q, st] : ports) unsure = unsure || st.unsure != INT_MAX;
    if (unsure || m.errorFrom != INT_MAX) { c.count("runs_cut_where_the_model_is_unsure"); return; }
    u64 limit = start + w.bytes + 40 * m.awaiting;
    if (held > limit)
      c.fail("held", "after " + to_string(i + 1) + " messages the program holds " + to_string(held) + " bytes, " + to_string(start) + " when fresh; its windows take at most " +
             to_string(w.bytes) + " more and " + to_string(m.awaiting) + " messages await others");
    size_t size;
    {
      Inside in;
      Blob b = e.snapshot("p");
      size = b.size();
    }
    size_t most = first + w.snapshot + 24 * m.awaiting;
    if (size > most)
      c.fail("snapshot", "after " + to_string(i + 1) + " messages a snapshot takes " + to_string(size) + " bytes, " + to_string(first) + " when fresh; its windows take at most " +
             to_string(w.snapshot) + " more and " + to_string(m.awaiting) + " messages await others");
    maxHeld = std::max(maxHeld, held);
    maxWait = std::max(maxWait, m.awaiting);
    c.count("measurements");
  }
  {
    Inside in;
    e.remove("p");
  }
  c.count("input_messages", a.size());
  c.count("calls_that_reported_something", reported);
  c.counters["max_bytes_held"] = std::max(c.counters["max_bytes_held"], maxHeld);
  c.counters["max_messages_awaiting"] = std::max(c.counters["max_messages_awaiting"], maxWait);
  if (reported > 20) c.nontrivial(mix(shapeOf(p), s.valueMode));
}

Prop property() {
  return {"P21", 2400, 4000,
          "runs of thousands of messages through every operator alone and through random programs, with windows, ports that lag behind, demultiplexers and variables; bytes "
          "held and snapshot sizes measured three to five times per run. Non-trivial: more than twenty calls reported something; distinct by types, parameters, wiring and "
          "kind of values.",
          run};
}

}  // namespace mon
