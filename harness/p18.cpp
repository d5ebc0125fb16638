// P18: ill-formed input. Monitor: descriptions broken in a known way must be refused without registering anything, messages for
// unknown ports and programs must be refused, and the healthy programs around must go on as their twins that never saw any of it.
// Descriptions changed at random must at least neither crash nor hang. Runs under AddressSanitizer and UBSan.
#include <nlohmann/json.hpp>

#include "watch.h"

namespace mon {

using J = nlohmann::json;

struct Bad {
  string what, text;
};

static J* someOp(Rng& r, J& j, std::function<bool(const J&)> f) {
  vector<J*> v;
  for (auto& o : j["operators"]) if (f(o)) v.push_back(&o);
  return v.empty() ? nullptr : r.pick(v);
}

// breaks a valid description in one known way; empty if this program has no place for it
static Bad breakIt(Rng& r, const Prog& p, int how) {
  string text = json(p);
  J j = J::parse(text);
  Bad b;
  auto done = [&](const string& what) { b.what = what; b.text = j.dump(); return b; };
  switch (how) {
    case 0: {  // no JSON
      string t = text;
      switch (r.below(6)) {
        case 0: t = t.substr(0, r.below(t.size())); break;
        case 1: t.erase(r.below(t.size()), 1); break;
        case 2: t.insert(r.below(t.size()), 1, "{}[],:\"\\x"[r.below(9)]); break;
        case 3: t += r.chance(0.5) ? "}" : "x"; break;
        case 4: t[r.below(t.size())] = (char)r.below(256); break;
        default: { t.clear(); for (u64 k = r.below(40); k > 0; k--) t += (char)r.below(256); }
      }
      if (J::accept(t)) return {};
      return {"no JSON", t};
    }
    case 1: {
      static const char* parts[] = {"operators", "connections", "entryOperator"};
      string k = parts[r.below(3)];
      j.erase(k);
      return done("without " + k);
    }
    case 2: {
      string k = r.chance(0.5) ? "id" : "type";
      J* o = someOp(r, j, [](const J&) { return true; });
      o->erase(k);
      return done("an operator without " + k);
    }
    case 3: {
      static const char* names[] = {"Nonsense", "", "add", "ADD", "Input ", "Composite", "Collector", "Operator", "Program"};
      J* o = someOp(r, j, [](const J&) { return true; });
      string n = names[r.below(9)];
      (*o)["type"] = n;
      return done("an operator of the unknown type " + n);
    }
    case 4: {
      if (j["connections"].empty()) return {};
      J& c = r.pick(j["connections"].get_ref<J::array_t&>());
      string k = r.chance(0.5) ? "from" : "to";
      if (r.chance(0.3)) { c.erase(k); return done("a connection without " + k); }
      c[k] = r.chance(0.2) ? string("") : "nobody" + to_string(r.below(9));
      return done("a connection " + k + " an unknown operator");
    }
    case 5: {
      if (j["connections"].empty()) return {};
      J& c = r.pick(j["connections"].get_ref<J::array_t&>());
      string k = r.chance(0.5) ? "fromPort" : "toPort";
      if (r.chance(0.2)) {
        static const char* both[] = {"x", "1", "p99", "i99", "o99"};
        c["fromPort"] = c["toPort"] = both[r.below(5)];
        return done("a connection with the unknown ports " + c["toPort"].get<string>());
      }
      static const char* q[] = {"o99", "i99", "c99", "x", "i0", "o0", "o1 ", "I1", "1"};
      c[k] = q[r.below(9)];
      return done("a connection with the unknown " + k + " " + c[k].get<string>());
    }
    case 6: {  // a port that cannot be deduced
      vector<pair<size_t, string>> v;
      for (size_t i = 0; i < p.conns.size(); i++) {
        if (p.op(p.conns[i].from).outs().size() != 1) v.push_back({i, "fromPort"});
        const Op& to = p.op(p.conns[i].to);
        if (to.ins().size() + to.ctls().size() != 1) v.push_back({i, "toPort"});
      }
      if (v.empty()) return {};
      auto x = r.pick(v);
      j["connections"][x.first].erase(x.second);
      return done("a connection without the " + x.second + " that is needed");
    }
    case 7:
      j["entryOperator"] = r.chance(0.3) ? string("") : "nobody";
      return done("an unknown entry");
    case 8: {
      J* o = someOp(r, j, [](const J& x) { return x["type"] == "Demultiplexer" || x["type"] == "Variable"; });
      if (!o) return {};
      j["entryOperator"] = (*o)["id"];
      return done("an entry with control ports");
    }
    case 9: {  // a required parameter is missing
      static const map<string, vector<string>> required = {
          {"Add", {"value"}}, {"Scale", {"value"}}, {"Power", {"value"}}, {"Constant", {"value"}}, {"GreaterThan", {"value"}}, {"LessThan", {"value"}}, {"EqualTo", {"value"}},
          {"MovingAverage", {"n"}}, {"StandardDeviation", {"n"}}, {"PeakDetector", {"n"}}, {"RelativeStrengthIndex", {"n"}}, {"FiniteImpulseResponse", {"coeff"}},
          {"AutoRegressive", {"coeff"}}, {"Linear", {"coeff"}}, {"CosineResampler", {"dt"}}, {"HermiteResampler", {"dt"}}, {"ConstantResampler", {"interval"}},
          {"Function", {"points"}}, {"Pipeline", {"prog"}}};
      J* o = someOp(r, j, [&](const J& x) { return required.count(x["type"].get<string>()) > 0; });
      if (!o) return {};
      string k = required.at((*o)["type"])[0], t = (*o)["type"];
      if (r.chance(0.4)) {
        // of the wrong kind
        bool number = k != "coeff" && k != "points" && k != "prog";
        if (number) (*o)[k] = r.chance(0.3) ? J("7") : r.chance(0.5) ? J(nullptr) : r.chance(0.5) ? J::array({1}) : J::object();
        else (*o)[k] = r.chance(0.3) ? J("7") : r.chance(0.5) ? J(nullptr) : J(5);
        return done(t + " with " + k + " " + (*o)[k].dump());
      }
      o->erase(k);
      return done(t + " without " + k);
    }
    case 10: {  // out of range
      J* o = someOp(r, j, [&](const J& x) {
        static const set<string> s{"Input", "Output", "Join", "Demultiplexer", "MovingAverage", "StandardDeviation", "PeakDetector", "RelativeStrengthIndex",
                                   "FiniteImpulseResponse", "AutoRegressive", "Linear", "CosineResampler", "HermiteResampler", "ConstantResampler", "Function"};
        return s.count(x["type"].get<string>()) > 0;
      });
      if (!o) return {};
      string t = (*o)["type"];
      J bad = r.chance(0.5) ? J(0) : r.chance(0.3) ? J(-(i64)(1ull << r.range(5, 62))) : J(-r.range(1, 20));
      if (r.chance(0.2)) bad = r.chance(0.3) ? J(1e30) : r.chance(0.3) ? J(-1e30) : r.chance(0.5) ? J(-2.5) : J(18446744073709551615ull);
      if (t == "Input" || t == "Output" || t == "Demultiplexer") (*o)["numPorts"] = bad;
      else if (t == "Join") (*o)["numPorts"] = r.chance(0.3) ? J(1) : bad;
      else if (t == "FiniteImpulseResponse" || t == "AutoRegressive") (*o)["coeff"] = J::array();
      else if (t == "Linear") (*o)["coeff"] = r.chance(0.5) ? J::array() : J::array({1.5});
      else if (t == "CosineResampler" || t == "HermiteResampler") (*o)["dt"] = bad;
      else if (t == "ConstantResampler") (*o)["interval"] = bad;
      else if (t == "Function") {
        if (r.chance(0.5)) (*o)["points"] = r.chance(0.5) ? J::array() : J::array({J::array({1, 2})});
        else (*o)["interpolationType"] = r.chance(0.5) ? "cubic" : "Linear";
      } else (*o)["n"] = bad;
      return done("an invalid " + o->dump());
    }
    case 11: {  // the description of a sub-program is ill-formed
      for (auto& o : p.ops)
        if (o.type == "Pipeline") {
          Bad in = breakIt(r, *o.prog, (int)r.range(2, 10));
          if (in.text.empty() || in.what.find("entry") != string::npos) return {};
          for (auto& x : j["operators"]) if (x["id"] == o.id) x["prog"] = J::parse(in.text);
          return done("a pipeline with " + in.what);
        }
      return {};
    }
    case 12: {
      J* o = someOp(r, j, [](const J&) { return true; });
      (*o)["id"] = r.chance(0.5) ? J(7) : r.chance(0.5) ? J(nullptr) : J::array();
      return done("an operator with the id " + (*o)["id"].dump());
    }
    case 13: {
      static const char* parts[] = {"operators", "connections", "entryOperator"};
      string k = parts[r.below(3)];
      j[k] = r.chance(0.5) ? J(7) : k == "entryOperator" ? J::array({"x"}) : J("x");
      return done(k + " is " + j[k].dump());
    }
    default: {
      static const char* whole[] = {"[]", "7", "\"x\"", "null", "true", "{}", "[{}]"};
      return {"something else", whole[r.below(7)]};
    }
  }
}

// any change of any value, of unknown consequence
static void mutate(Rng& r, J& j, int depth = 0) {
  auto leaf = [&]() -> J {
    switch (r.below(12)) {
      case 0: return J(nullptr);
      case 1: return J(r.chance(0.5));
      case 2: return J((i64)r.range(-5, 30));
      case 3: return J(r.gauss() * 10);
      case 4: return J("");
      case 5: return J("i1");
      case 6: return J("o2");
      case 7: return J::array();
      case 8: return J::object();
      case 9: { const auto& t = allTypes(); return J(t[r.below(t.size())]); }
      case 10: return J::array({1, 2.5, -3});
      default: return J("x");
    }
  };
  if (j.is_object() && !j.empty()) {
    auto it = j.begin();
    std::advance(it, r.below(j.size()));
    if (depth > 1 && r.chance(0.15)) { j.erase(it.key()); return; }
    if (depth > 1 && r.chance(0.15)) { j[it.key()] = leaf(); return; }
    if (r.chance(0.05)) { static const char* k[] = {"n", "value", "coeff", "numPorts", "dt", "times", "output", "prog", "extra"}; j[k[r.below(9)]] = leaf(); return; }
    mutate(r, *it, depth + 1);
  } else if (j.is_array() && !j.empty()) {
    size_t k = r.below(j.size());
    if (r.chance(0.1)) { j.erase(k); return; }
    if (r.chance(0.1)) { J copy = j[k]; j.insert(j.begin() + r.below(j.size() + 1), copy); return; }
    if (r.chance(0.05)) { j[k] = leaf(); return; }
    mutate(r, j[k], depth + 1);
  } else
    j = leaf();
}

// connections that go round in circles, or mix two streams at one port, are not a program
static bool improper(const J& j) {
  map<string, set<string>> next;
  try {
    for (auto& o : j.at("operators")) if (o.at("type") == "Pipeline" && improper(o.at("prog"))) return true;
    map<string, set<string>> ports;
    for (auto& c : j.at("connections")) {
      string to = c.at("to").get<string>(), port = c.value("toPort", "");
      next[c.at("from").get<string>()].insert(to);
      auto& q = ports[to];
      if (q.count(port) || q.count("") || (port.empty() && !q.empty())) return true;
      q.insert(port);
    }
  } catch (const J::exception&) {
    return true;
  }
  map<string, int> state;
  std::function<bool(const string&)> visit = [&](const string& s) {
    int& st = state[s];
    if (st == 1) return true;
    if (st == 2) return false;
    st = 1;
    for (auto& x : next[s]) if (visit(x)) return true;
    state[s] = 2;
    return false;
  };
  for (auto& [k, v] : next) if (visit(k)) return true;
  return false;
}

static void run(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g;
  g.maxOps = 8;
  g.demux = g.demuxFed = r.chance(0.5);
  g.variable = r.chance(0.5);
  g.output = r.chance(0.2);
  Prog healthy = randomProg(r, g), victim = randomProg(r, g);
  string htext = json(healthy);
  StreamOpts s;
  s.length = 50;
  s.hostile = healthy.op(healthy.entry).type == "Input" && r.chance(0.3);
  auto a = randomArrivals(r, healthy.op(healthy.entry).ins(), s);
  Engine e, alone;
  e.create("healthy", htext);
  alone.create("healthy", htext);
  u64 refusals = 0, compared = 0, accepted = 0;
  string history;
  auto refused = [&](std::function<void()> f) {
    try { f(); } catch (const Refused&) { return true; }
    return false;
  };
  auto unregistered = [&](const string& id) {
    if (!refused([&] { e.entry(id); })) c.fail("registered", "the program " + id + " is there although it was refused");
    if (e.remove(id)) c.fail("registered", "the refused program " + id + " can be deleted");
  };
  size_t fed = 0;
  auto feedOn = [&](size_t k) {
    for (; k > 0 && fed < a.size(); k--, fed++) {
      Out x, y;
      bool xr = refused([&] { x = e.sendDebug("healthy", a[fed].port, a[fed].m); }), yr = refused([&] { y = alone.sendDebug("healthy", a[fed].port, a[fed].m); });
      string where;
      if (xr != yr || !sameOut(x, y, &where)) c.fail("disturbed", "after a refusal the healthy program goes on differently at message " + to_string(fed) + ": " + where);
      if (xr) { fed = a.size(); return; }
      for (auto& [id, pm] : x) for (auto& [q, v] : pm) compared += v.size();
    }
  };
  u64 signature = 0;
  for (int round = 0; round < 12; round++) {
    int what = (int)r.below(10);
    if (what < 5) {
      Bad b = breakIt(r, victim, (int)r.below(15));
      if (b.text.empty()) continue;
      if (r.chance(0.01)) {
        // far longer than the others
        b.text = r.chance(0.5) ? b.text + string(66000 + r.below(70000), ' ') : string(66000 + r.below(70000), '\n') + b.text;
        c.count("descriptions_beyond_64k");
      }
      c.about = b.what + ": " + b.text;
      string id = r.chance(0.5) ? "victim" : "v" + to_string(round);
      if (!refused([&] { e.create(id, b.text); })) c.fail("accepted", "a description is accepted, with " + b.what);
      unregistered(id);
      if (r.chance(0.3)) {
        // the id can still be used
        if (refused([&] { e.create(id, json(victim)); })) c.fail("id lost", "after a refusal a valid program of the same id is refused");
        e.remove(id);
      }
      refusals++;
      signature = mix(signature, hashOf(b.what));
      c.count("refused: " + b.what.substr(0, b.what.find(" {")).substr(0, 24));
      c.sample(b.what + ": " + b.text);
    } else if (what < 7) {
      // a message for a port that does not exist
      static const char* q[] = {"i99", "o1", "c1", "i0", "I1", "1", "i1 ", "i-1"};
      string port = q[r.below(8)];
      Msg m{r.chance(0.5) ? 1 : 1ull << 60, 1};
      int way = (int)r.below(4);
      c.about = htext + " gets a message at " + port;
      bool ok = way == 0   ? refused([&] { e.send("healthy", port, m); })
                : way == 1 ? refused([&] { e.sendDebug("healthy", port, m); })
                           : refused([&] {
                               e.buffer("healthy", port, m);
                               if (way == 2) e.flush("healthy");
                               else e.flushDebug("healthy");
                             });
      if (!ok) c.fail("unknown port", "a message for the unknown port " + port + " is accepted");
      // nothing is left behind in the buffer
      if (way >= 2) { Out o = e.flushDebug("healthy"); if (!o.empty()) c.fail("unknown port", "a refused message is still reported"); }
      refusals++;
      c.count("messages_for_unknown_ports");
    } else if (what < 8) {
      Out o;
      string id = r.chance(0.5) ? "nobody" : "";
      bool ok = refused([&] { o = r.chance(0.5) ? e.send(id, "i1", {1, 1}) : e.sendDebug(id, "i1", {1, 1}); }) || o.empty();
      ok = ok && refused([&] { e.buffer(id, "i1", {1, 1}); }) && refused([&] { e.flush(id); }) && refused([&] { e.snapshot(id); });
      if (!ok) c.fail("unknown program", "an operation on an unknown program is accepted");
      unregistered(id);
      refusals++;
      c.count("operations_on_unknown_programs");
    } else if (r.chance(0.03)) {
      // nested far deeper than any description is: refused or not, the process survives it
      static const u64 depths[] = {20, 300, 900, 5000, 40000, 200000};
      bool pipelines = r.chance(0.2);
      u64 depth = pipelines ? 5 + r.below(80) : depths[r.below(6)];
      string t = nested(r, json(victim), depth, pipelines);
      c.about = to_string(depth) + (pipelines ? " sub-programs in one another" : " levels deep: ") + t.substr(0, 300);
      if (refused([&] { e.create("deep", t); })) {
        unregistered("deep");
        c.count("deep_descriptions_refused");
        refusals++;
      } else {
        if (pipelines) {
          Out o = e.sendDebug("deep", "i1", {5, 2});
          if (o["p"]["o1"].size() != 1 || !sameMsg(o["p"]["o1"][0], Msg{5, 3})) c.fail("deep", "an addition inside " + to_string(depth) + " sub-programs answers otherwise than the addition");
        }
        if (!e.remove("deep")) c.fail("deep", "a created program cannot be deleted");
        c.count("deep_descriptions_accepted");
      }
    } else {
      J j = J::parse(json(victim));
      for (u64 k = 1 + r.below(4); k > 0; k--) mutate(r, j);
      string t = j.dump(-1, ' ', false, J::error_handler_t::replace);
      c.about = "mutated description " + t;
      if (refused([&] { e.create("mutant", t); })) {
        unregistered("mutant");
        c.count("mutants_refused");
        refusals++;
      } else {
        accepted++;
        c.count("mutants_accepted");
        if (!improper(j)) {
          u64 t0 = 100;
          vector<string> ports;
          refused([&] { ports = e.ports("mutant"); });
          for (int k = 0; k < 25 && !ports.empty(); k++) {
            t0 += 1 + r.below(12);
            for (auto& q : ports) refused([&] { e.sendDebug("mutant", q, {t0, (double)r.range(-4, 9)}); });
          }
          refused([&] { e.snapshot("mutant"); });
        }
        if (!e.remove("mutant")) c.fail("mutant", "an accepted program cannot be deleted");
      }
    }
    feedOn(r.below(6));
  }
  feedOn(a.size());
  c.count("refusals", refusals);
  c.count("messages_of_healthy_programs_compared", compared);
  if (refusals >= 2 && compared > 5) c.nontrivial(mix(signature, shapeOf(victim)));
}

Prop property() {
  return {"P18", 3600, 100000,
          "descriptions broken in fifteen known ways (no JSON, missing or misspelt parts, unknown types, operators, ports, undeducible ports, missing, misplaced and out of "
          "range parameters, the same inside pipelines), messages for unknown ports and programs, and descriptions changed at random, beside a healthy program that is "
          "compared with an undisturbed twin. Non-trivial: at least two refusals and more than five messages compared; distinct by kinds of refusal and program.",
          run};
}

}  // namespace mon
