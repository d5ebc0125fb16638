// P11: batching. Monitor: instances of one program that receive the same messages in different portions and through different
// calls report bit-identical totals per operator port.
#include "watch.h"

#include <algorithm>

namespace mon {

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = r.chance(0.2) ? 30 : 12;
  g.exactish = r.chance(0.6);
  bool ordered = r.chance(0.5);  // with operators for which the order across ports matters: batches of one port only
  g.demux = ordered && r.chance(0.7);
  g.variable = ordered && r.chance(0.7);
  g.maxEntryPorts = r.chance(0.1) ? 12 : 4;
  bool huge = c.caseNo % 100 == 50;  // batches of thousands
  if (huge) g.maxOps = 5, g.maxEntryPorts = 2, g.large = 0;
  Prog p = randomProg(r, g);
  StreamOpts s;
  s.length = huge ? (r.chance(0.4) ? 25000 : 5000) : r.chance(0.1) ? 400 : 20 + r.below(80);
  if (huge) c.count("streams_of_thousands_of_messages");
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1700000000000ull, 5000000000ull, 1700000000000000000ull, 9223372036854775700ull};
  s.start = starts[r.below(6)];
  if (r.chance(0.5)) s.valueMode = (int)r.below(VALUE_MODES);
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.5);
  s.repeats = p.op(p.entry).type != "Input" && r.chance(0.4);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  string text = json(p);
  c.about = text + " fed with " + show(a, 400);
  c.sample(text + " fed with " + show(a, 10));

  Engine e;
  e.create("one", text);
  Out total;
  bool refused = false;
  for (auto& x : a) {
    try {
      append(total, e.sendDebug("one", x.port, x.m));
    } catch (const Refused&) {
      refused = true;
      break;
    }
  }
  if (refused) {
    c.count("runs_with_a_demultiplexer_error");
    return;
  }
  u64 messages = 0;
  for (auto& [id, pm] : total) for (auto& [q, v] : pm) messages += v.size();
  // ways of delivery
  static const char* ways[] = {"batches", "all at once", "buffer", "buffer, one flush", "mixed"};
  for (int way = 0; way < 5; way++) {
    string id = string("way") + to_string(way);
    e.create(id, text);
    Out sum;
    size_t i = 0;
    int calls = 0;
    try {
      while (i < a.size()) {
        size_t k = way == 1 || way == 3 ? a.size() : 1 + r.below(r.chance(0.2) ? 40 : 6);
        PortMsgs batch;
        bool buffered = way == 2 || way == 3 || (way == 4 && r.chance(0.5));
        string port = a[i].port;
        for (; k > 0 && i < a.size() && (!ordered || a[i].port == port); k--, i++) {
          if (buffered) e.buffer(id, a[i].port, a[i].m);
          else batch[a[i].port].push_back(a[i].m);
        }
        append(sum, buffered ? e.flushDebug(id) : e.sendDebug(id, batch));
        calls++;
        if (buffered && r.chance(0.2)) {  // the buffer is empty now
          Out nothing = e.flushDebug(id);
          if (!nothing.empty()) c.fail("flushed twice", string("an empty buffer reports ") + show(nothing));
        }
      }
    } catch (const Refused& x) {
      c.fail("error", string("delivered as ") + ways[way] + " a message is refused: " + x.what());
    }
    string where;
    if (!sameOut(total, sum, &where)) c.fail("differs", string("one by one / ") + ways[way] + ": " + where);
    c.count("deliveries_compared");
    c.count("calls", calls);
  }
  // the regular calls report the part of the same run that is selected: without a declaration everything
  e.create("regular", text);
  Out sum;
  size_t i = 0;
  while (i < a.size()) {
    size_t k = 1 + r.below(8);
    bool buffered = r.chance(0.5);
    PortMsgs batch;
    string port = a[i].port;
    for (; k > 0 && i < a.size() && (!ordered || a[i].port == port); k--, i++) {
      if (buffered) e.buffer("regular", a[i].port, a[i].m);
      else batch[a[i].port].push_back(a[i].m);
    }
    append(sum, buffered ? e.flush("regular") : e.send("regular", batch));
  }
  string where;
  if (!sameOut(total, sum, &where)) c.fail("regular", "debug / regular calls: " + where);
  c.count("messages_compared", messages * 6);
  if (messages > a.size()) c.nontrivial(shapeOf(p));
}

Prop property() {
  return {"P11", 1600, 80000,
          "random programs and streams, delivered one by one, in random batches, at once, through the buffer (several flushes, one flush) and mixed, and through the "
          "regular calls; totals per operator port must be bit-identical. Programs with demultiplexers or variables get batches of one port. Non-trivial: more "
          "messages reported than sent; distinct by types, parameters and wiring.",
          run};
}

}  // namespace mon
