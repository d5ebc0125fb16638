#include "watch.h"

namespace mon {

Watched watch(Ctx& c, const Prog& p, const vector<Arrival>& a) {
  Watched w;
  string text = json(p);
  c.about = text + " fed with " + show(a, 400);
  Model m = evaluate(p, a);
  Follower f(m);
  Engine e;
  try {
    e.create("p", text);
  } catch (const Refused& x) {
    c.fail("refused", string("a valid program is refused: ") + x.what());
  }
  for (size_t i = 0; i < a.size(); i++) {
    Out o;
    try {
      o = e.sendDebug("p", a[i].port, a[i].m);
    } catch (const Refused& x) {
      if ((int)i >= m.errorFrom) {
        w.endedBy = (int)i;
        c.count("runs_ended_by_a_legitimate_error");
        break;
      }
      c.fail("error", "message " + to_string(i) + " (" + a[i].port + " " + show(a[i].m) + ") is refused: " + x.what());
    }
    if ((int)i == m.mustError)
      c.fail("unreported", "message " + to_string(i) + " (" + a[i].port + " " + show(a[i].m) + ") gives a demultiplexer a control it cannot follow, yet no error is reported");
    string d = f.follow((int)i, o);
    if (!d.empty()) c.fail("differs", "after message " + to_string(i) + " (" + a[i].port + " " + show(a[i].m) + "): " + d + "; reported: " + show(o));
    for (auto& [op, pm] : o)
      for (auto& [q, v] : pm) w.reported += v.size();
    append(w.total, o);
  }
  w.compared = f.compared;
  w.skipped = f.skipped;
  for (auto& [op, pm] : w.total) w.active.insert(p.op(op).type);
  c.count("input_messages", a.size());
  c.count("reported_messages", w.reported);
  c.count("messages_compared", w.compared);
  c.count("messages_too_close_to_call", w.skipped);
  for (auto& t : w.active) c.count("programs_with_output_of_" + t);
  return w;
}

Prog around(const Op& o, bool asEntry) {
  Prog p;
  if (asEntry) {
    p.ops.push_back(o);
    p.entry = o.id;
    return p;
  }
  auto ports = o.ins();
  for (auto& q : o.ctls()) ports.push_back(q);
  Op e;
  e.type = "Input";
  e.id = o.id == "in" ? "entry" : "in";
  e.ports = ports.size();
  p.ops.push_back(e);
  p.ops.push_back(o);
  for (size_t i = 0; i < ports.size(); i++) p.conns.push_back({e.id, o.id, "o" + to_string(i + 1), ports[i]});
  p.entry = e.id;
  return p;
}

}  // namespace mon
