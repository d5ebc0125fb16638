// P22: the text interface. Oracle: a second engine used through the native interface receives the same calls; every text
// answered is parsed and has to hold exactly the native messages, bit for bit (numbers that JSON cannot express as null). What the
// published schema allows is written down here a second time, in valid() and breakOp(), independently of the schema's text.
#include <nlohmann/json.hpp>

#include "engine.h"
#include "desc.h"
#include "rtbot/bindings.h"

namespace mon {

using J = nlohmann::json;

static Out parsed(Ctx& c, const string& text, const string& call) {
  Out r;
  J j;
  try {
    j = J::parse(text);
    if (!j.is_object()) throw std::runtime_error("not an object");
    for (auto o = j.begin(); o != j.end(); ++o) {
      auto& ports = r[o.key()];
      for (auto p = o.value().begin(); p != o.value().end(); ++p) {
        auto& v = ports[p.key()];
        for (auto& m : p.value()) {
          if (m.size() != 2 || !m.at("time").is_number_unsigned()) throw std::runtime_error("a message is not a time and a value");
          Msg x;
          x.t = m.at("time").get<u64>();
          x.v = m.at("value").is_null() ? NAN : m.at("value").get<double>();
          v.push_back(x);
        }
      }
    }
  } catch (const std::exception& e) {
    c.fail("unreadable", call + " answers " + text.substr(0, 600) + ": " + e.what());
  }
  return r;
}
// JSON has no infinities
static Out expressible(Out o) {
  for (auto& [id, pm] : o) for (auto& [q, v] : pm) for (auto& m : v) if (!std::isfinite(m.v)) m.v = NAN;
  return o;
}
static rtbot::OperatorMessage<uint64_t, double> native(const PortMsgs& m) {
  rtbot::OperatorMessage<uint64_t, double> r;
  for (auto& [p, v] : m) for (auto& x : v) r[p].push_back(rtbot::Message<uint64_t, double>(x.t, x.v));
  return r;
}

// the answer of a call, or that it reported an error
struct Answer { bool refused = false; string text; };
static Answer attempt(std::function<string()> f) {
  Answer a;
  try { a.text = f(); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { a.refused = true; a.text = e.what(); }
  return a;
}

static void makeAllowed(Rng& r, Prog& p) {
  for (auto& o : p.ops) {
    if (o.type == "LessThan") o.value = std::round(o.value);
    if (o.type == "TimeShift" && o.shift < 1) o.shift = 1;
  }
  (void)r;
}
static GenOpts allowed(Rng& r) {
  GenOpts g;
  for (auto& t : allTypes()) if (t != "Pipeline" && t != "RelativeStrengthIndex") g.only.push_back(t);
  g.pipelines = false;
  g.maxOps = 9;
  g.demux = g.demuxFed = true;
  g.variable = r.chance(0.5);
  g.exactish = r.chance(0.4);
  g.output = r.chance(0.6);
  g.maxEntryPorts = r.chance(0.02) ? 150 : r.chance(0.15) ? 12 : 4;
  g.spacing = r.chance(0.5) ? 10 : 1;
  return g;
}

// what is wrong with it when a call does not refuse; nothing must be left behind
static void mustRefuse(Ctx& c, const string& text, bool bySchema, const string& what, const string& good) {
  c.about = what + ": " + text;
  c.count("refusals");
  if (bySchema) {
    Answer v = attempt([&] { return validate(text); });
    bool ok = false;
    try {
      J j = J::parse(v.text);
      ok = !v.refused && j.at("valid") == false && j.at("error").is_string() && !j.at("error").get<string>().empty();
    } catch (const std::exception&) {}
    if (!ok) c.fail("allowed", "validate answers " + v.text + " although the schema rules it out");
  }
  // an id never used, or the id of the program created and deleted before
  string id = c.rng.chance(0.5) ? "v" + to_string(c.caseNo) : "w" + to_string(c.caseNo);
  Answer a = attempt([&] { return createProgram(id, text); });
  if (!a.refused && a.text.empty()) { deleteProgram(id); c.fail("created", "the program is created"); }
  if (bySchema) {
    try {
      J j = J::parse(a.text);
      if (j.at("valid") != false || !j.at("error").is_string()) throw std::runtime_error("");
    } catch (const std::exception&) { c.fail("answer", "createProgram answers " + a.text + " instead of the result of the validation"); }
  }
  Answer d = attempt([&] { return deleteProgram(id); });
  if (d.refused || d.text != "0") c.fail("registered", "a refused program is registered: deleteProgram answers " + d.text);
  if (!c.rng.chance(0.3)) return;
  // the refusal does not stand in the way of a proper program of that id
  c.count("ids_created_after_a_refusal");
  a = attempt([&] { return createProgram(id, good); });
  if (a.refused || !a.text.empty()) c.fail("not created", "after a refusal createProgram answers " + a.text + " to " + good);
  d = attempt([&] { return deleteProgram(id); });
  if (d.refused || d.text != "1") c.fail("delete", "deleteProgram answers " + d.text);
}

static J& pickOp(Rng& r, J& j) { return j["operators"][r.below(j["operators"].size())]; }

// one thing the schema does not allow; empty if nothing of the sort applies
static string breakOp(Rng& r, J& o) {
  string t = o["type"];
  vector<std::pair<string, std::function<void()>>> w;
  auto add = [&](string s, std::function<void()> f) { w.push_back({s, f}); };
  static const J notNumber[] = {"1", true, nullptr, J::array(), J::object()};
  J bad = notNumber[r.below(5)];
  add("an operator without id", [&] { o.erase("id"); });
  add("an id that is no text", [&] { o["id"] = 7; });
  add("an operator without type", [&] { o.erase("type"); });
  add("a type in other letters", [&] { for (auto& ch : t) ch = (char)tolower(ch); o["type"] = t; });
  add("an unknown type", [&] { o["type"] = t + "X"; });
  add("a type that is no text", [&] { o["type"] = 3; });
  auto number = [&](string k, bool required) {
    if (required) add(t + " without " + k, [&, k] { o.erase(k); });
    add(t + " with a " + k + " that is no number", [&, k] { o[k] = bad; });
  };
  auto integer = [&](string k, bool required, i64 least) {
    number(k, required);
    add(t + " with a broken " + k, [&, k] { o[k] = 2.5; });
    if (least > -1000) add(t + " with a " + k + " below the least", [&, k, least] { o[k] = least - 1 - (i64)r.below(3); });
  };
  if (t == "Add" || t == "Scale" || t == "Power" || t == "Constant" || t == "GreaterThan" || t == "LessThan" || t == "EqualTo") number("value", true);
  if (t == "Variable") number("value", false);
  if (t == "MovingAverage" || t == "PeakDetector") integer("n", true, -1000);
  if (t == "StandardDeviation") number("n", true);
  if (t == "CosineResampler" || t == "HermiteResampler") integer("dt", true, -1000);
  if (t == "ConstantResampler") integer("interval", true, 1);
  if (t == "TimeShift") { integer("dt", false, 1); integer("times", false, -1000); }
  if (t == "Input" || t == "Output" || t == "Demultiplexer") integer("numPorts", false, 1);
  if (t == "Join") integer("numPorts", false, 2);
  if (t == "AutoRegressive" || t == "FiniteImpulseResponse" || t == "Linear") {
    if (t != "Linear") add(t + " without coeff", [&] { o.erase("coeff"); });
    add("a coeff that is no list", [&] { o["coeff"] = r.chance(0.5) ? J(1.5) : J("1,2"); });
    add("a coefficient that is no number", [&] { o["coeff"].push_back(bad); });
    if (t == "AutoRegressive") add("no coefficients", [&] { o["coeff"] = J::array(); });
    if (t == "Linear") add("one coefficient", [&] { o["coeff"] = {1.0}; });
  }
  if (t == "Function") {
    add("no points", [&] { o.erase("points"); });
    add("a single point", [&] { o["points"] = J::array({J::array({1, 2})}); });
    add("a point of three numbers", [&] { o["points"][0].push_back(3); });
    add("a point of one number", [&] { o["points"][0].erase(1); });
    add("a point that is no list", [&] { o["points"][1] = 4; });
    add("a coordinate that is no number", [&] { o["points"][1][1] = "4"; });
    add("an unknown interpolation", [&] { o["interpolationType"] = r.chance(0.5) ? "cubic" : "Linear"; });
  }
  auto& x = w[r.below(w.size())];
  x.second();
  return x.first;
}
// no JSON any more: cut off or with bytes that no JSON may hold, often in the middle of a character
static void mangle(Rng& r, string& text) {
  string whole = text;
  switch (r.below(7)) {
    case 0: text.resize(r.below(text.size())); break;
    case 1: text += "}"; break;
    case 2: text = ""; break;
    case 3: text[r.below(text.size())] = (char)(128 + r.below(128)); break;
    case 4: text.insert(r.below(text.size() + 1), 1, (char)(128 + r.below(128))); break;
    case 5: { size_t at = text.find('"', r.below(text.size())); text.insert(at == string::npos ? 0 : at + 1, r.chance(0.5) ? "\xc3" : "\xff\xfe"); break; }
    default: text.insert(text.size() / 2, "\x01"); break;
  }
  if (J::accept(text)) text = whole.substr(1);
}

static string breakProgram(Rng& r, J& j, string& text) {
  text.clear();
  auto conn = [&]() -> J& {
    if (j["connections"].empty()) j["connections"].push_back({{"from", j["entryOperator"]}, {"to", j["entryOperator"]}});
    return j["connections"][r.below(j["connections"].size())];
  };
  switch (r.below(19)) {
    case 0: j.erase("operators"); return "no operators";
    case 1: j.erase("connections"); return "no connections";
    case 2: j.erase("entryOperator"); return "no entry operator";
    case 3: conn().erase("from"); return "a connection without from";
    case 4: conn().erase("to"); return "a connection without to";
    case 5: conn()["fromPort"] = 1; return "a port that is no text";
    case 6: conn()["port"] = "o1"; return "a connection with an unknown key";
    case 7: j["operators"] = J::object(); return "operators that are no list";
    case 8: j["connections"] = "none"; return "connections that are no list";
    case 9: j["entryOperator"] = r.chance(0.5) ? J(1) : J(nullptr); return "an entry that is no text";
    case 10: j["date"] = r.chance(0.3) ? "2023-02-29" : r.chance(0.5) ? "now" : "2023-13-01"; return "an impossible date";
    case 11: j["apiVersion"] = r.chance(0.5) ? J("v2") : J(1); return "an unknown version";
    case 12: j["title"] = 5; return "a title that is no text";
    case 13: j["output"] = {{"ab", "o1"}}; return "an output that is no list";
    case 14: j["output"] = {{"ab", {1, 2}}}; return "ports of an output that are no text";
    case 15: j["output"] = J::array(); return "outputs that are no object";
    case 16: j["operators"].push_back("Input"); return "an operator that is no object";
    case 17: text = r.chance(0.5) ? "[" + j.dump() + "]" : r.chance(0.5) ? "null" : "\"" "text\""; return "no object at all";
    default: {
      text = j.dump();
      mangle(r, text);
      return "no JSON";
    }
  }
}

static void schemaCase(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g = allowed(r);
  Prog p = randomProg(r, g);
  makeAllowed(r, p);
  J j = J::parse(json(p));
  c.about = j.dump();
  // what the schema leaves open
  if (r.chance(0.5)) j["title"] = "a title";
  if (r.chance(0.3)) j["date"] = "2024-02-29";
  if (r.chance(0.3)) j["apiVersion"] = "v1";
  if (r.chance(0.3)) j["author"] = "Someone <a@b.c>";
  if (r.chance(0.3)) j["license"] = "MIT";
  if (r.chance(0.3)) j["description"] = "\xc3\xa4 \"quoted\" text";
  if (r.chance(0.012)) j["description"] = string((60000 + r.below(20000)) << r.below(5), 'x'), c.count("descriptions_beyond_60k");
  if (r.chance(0.2)) j["somethingElse"] = {1, 2, 3};
  if (r.chance(0.2)) pickOp(r, j)["policies"] = {{"i1", {{"eager", false}}}};
  string text = j.dump(r.chance(0.5) ? -1 : 2);
  c.about = text;
  Answer v = attempt([&] { return validate(text); });
  if (v.refused || J::parse(v.text) != J({{"valid", true}})) c.fail("not allowed", "validate answers " + v.text + " to a description the schema allows");
  for (auto& o : j["operators"]) {
    Answer q = attempt([&] { return validateOperator(o["type"].get<string>(), o.dump()); });
    if (q.refused || J::parse(q.text) != J({{"valid", true}})) c.fail("not allowed", "validateOperator answers " + q.text + " to " + o.dump());
    c.count("operators_validated");
  }
  string id = "v" + to_string(c.caseNo);
  Answer a = attempt([&] { return createProgram(id, text); });
  if (a.refused || !a.text.empty()) c.fail("not created", "createProgram answers " + a.text);
  Answer again = attempt([&] { return createProgram(id, text); });
  if (!again.refused && again.text.empty()) c.fail("created twice", "a used id is created again");
  Answer d = attempt([&] { return deleteProgram(id); });
  if (d.refused || d.text != "1") c.fail("delete", "deleteProgram answers " + d.text);
  d = attempt([&] { return deleteProgram(id); });
  if (d.refused || d.text != "0") c.fail("delete", "a second deleteProgram answers " + d.text);

  for (int k = 0; k < 6; k++) {
    J q = j;
    string what, broken;
    if (r.chance(0.6)) {
      J& o = pickOp(r, q);
      string type = o["type"];
      what = breakOp(r, o);
      bool typed = o.contains("type") && o["type"] == type;
      if (typed || (o.contains("type") && o["type"].is_string())) {
        string t = o["type"];
        Answer x = attempt([&] { return validateOperator(t, o.dump()); });
        bool ok = false;
        try { J y = J::parse(x.text); ok = !x.refused && y.at("valid") == false && !y.at("error").get<string>().empty(); } catch (const std::exception&) {}
        c.about = what + ": " + o.dump();
        if (!ok) c.fail("operator allowed", "validateOperator answers " + x.text);
      }
      broken = q.dump();
    } else {
      what = breakProgram(r, q, broken);
      if (broken.empty() && what != "no JSON") broken = q.dump();
    }
    mustRefuse(c, broken, true, what, text);
    c.nontrivial(mix(hashOf(what), 3));
  }
  if (r.chance(0.04)) {
    // nested far deeper than any description is: answered without a crash, and by validate as by createProgram
    static const u64 depths[] = {20, 300, 900, 5000, 40000, 200000};
    bool broken = r.chance(0.3);
    string deep = broken ? nested(r, R"({"operators":7,"connections":[]})", depths[r.below(6)], false) : nested(r, text, depths[r.below(6)], false);
    c.about = deep.substr(0, 300);
    Answer v = attempt([&] { return validate(deep); });
    bool valid = !v.refused && J::parse(v.text).at("valid") == true;
    Answer x = attempt([&] { return createProgram(id, deep); });
    bool created = !x.refused && x.text.empty();
    if (created != valid || (broken && created)) c.fail("deep", "validate answers " + v.text.substr(0, 200) + ", createProgram " + x.text.substr(0, 200));
    d = attempt([&] { return deleteProgram(id); });
    if (d.refused || d.text != (created ? "1" : "0")) c.fail("deep", "deleteProgram answers " + d.text);
    J o = pickOp(r, j);
    string t = nested(r, o.dump(), depths[r.below(6)], false);
    v = attempt([&] { return validateOperator(o["type"].get<string>(), t); });
    if (v.refused || !J::parse(v.text).at("valid").is_boolean()) c.fail("deep", "validateOperator answers " + v.text.substr(0, 200));
    c.count("deep_descriptions");
  }
  // allowed by the schema, refused by the engine
  J q = j;
  if (q["connections"].empty()) return;
  J& k = q["connections"][r.below(q["connections"].size())];
  string what;
  switch (r.below(4)) {
    case 0: k["to"] = "nobody"; what = "a connection to nobody"; break;
    case 1: k["fromPort"] = "o999"; what = "a connection from an unknown port"; break;
    case 2: q["entryOperator"] = "nobody"; what = "an unknown entry"; break;
    default: k["toPort"] = "z1"; what = "a connection to an unknown port"; break;
  }
  mustRefuse(c, q.dump(), false, what, text);
  for (int k = 0; k < 4; k++) {
    J& o = pickOp(r, j);
    string t = o["type"], text = o.dump();
    if (k < 3) mangle(r, text); else t += r.chance(0.5) ? "\xff" : "\xc3";
    c.about = "type " + t + ", text " + text;
    Answer x = attempt([&] { return validateOperator(t, text); });
    bool ok = false;
    try { J y = J::parse(x.text); ok = !x.refused && y.at("valid") == false && !y.at("error").get<string>().empty(); } catch (const std::exception&) {}
    if (!ok) c.fail("operator allowed", "validateOperator answers " + x.text);
    c.count("refusals");
  }
  // types outside the published schema
  for (const char* t : {"Pipeline", "RelativeStrengthIndex", "Composite", "Collector", ""}) {
    Answer x = attempt([&] { return validateOperator(t, J({{"type", t}, {"id", "x"}, {"n", 3}}).dump()); });
    if (x.refused || J::parse(x.text).at("valid") != false) c.fail("operator allowed", string("validateOperator answers ") + x.text + " for the type " + t);
  }
}

static void resultCase(Ctx& c) {
  Rng& r = c.rng;
  GenOpts g = allowed(r);
  bool huge = c.caseNo % 150 == 75;  // batches of thousands
  if (huge) g.maxOps = 5, g.large = 0;
  Prog p = randomProg(r, g);
  makeAllowed(r, p);
  if (p.hasOutput && !p.output.empty() && r.chance(0.1)) { auto& v = p.output.begin()->second; if (!v.empty()) v.push_back(r.pick(v)); }
  string text = json(p);
  StreamOpts s;
  s.length = huge ? 6000 : 20 + r.below(50);
  if (huge) c.count("streams_of_6000_messages");
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1700000000000ull, 4294967290ull, 1ull << 53, (1ull << 62) + 12345, 9223372036854775700ull};
  s.start = starts[r.below(7)];
  s.valueMode = r.chance(0.3) ? (int)SPECIAL : r.chance(0.5) ? (int)GAUSS : (int)r.below(VALUE_MODES);
  bool filtered = p.op(p.entry).type == "Input";
  bool resampled = false;
  for (auto& o : p.ops) resampled = resampled || o.type.find("Resampler") != string::npos;
  s.hostile = (filtered || !resampled) && r.chance(0.4);
  if (s.hostile && !filtered) c.count("late_messages_for_other_entries");
  s.repeats = p.op(p.entry).type != "Input" && r.chance(0.4);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  c.about = text + " fed with " + show(a, 200);
  c.sample(text + " fed with " + show(a, 6));
  string id = r.chance(0.2) ? "caf\xc3\xa9 \"" + to_string(c.caseNo) : "p" + to_string(c.caseNo);
  Engine twin;
  twin.create("p", text);
  struct Gone { string id; ~Gone() { try { deleteProgram(id); } catch (...) {} } } gone{id};
  Answer made = attempt([&] { return createProgram(id, text); });
  if (made.refused || !made.text.empty()) c.fail("not created", "createProgram answers " + made.text);
  u64 reported = 0;
  auto agree = [&](const string& call, Answer got, std::function<Out()> f) {
    Out want;
    bool refused = false;
    try { want = expressible(f()); } catch (const Refused&) { refused = true; }
    c.count("calls_compared");
    if (got.refused != refused) c.fail("differs", call + (refused ? " answers " + got.text + " where the engine reports an error" : " reports the error " + got.text));
    if (refused) return false;
    Out have = parsed(c, got.text, call);
    string where;
    if (!sameOut(want, have, &where)) c.fail("differs", call + " at " + where + ": the text says " + got.text.substr(0, 900) + ", the engine " + show(want));
    for (auto& [o, pm] : want) for (auto& [q, v] : pm) reported += v.size();
    return true;
  };
  auto about = [&] {
    if (getProgramEntryOperatorId(id) != p.entry) c.fail("entry", "the entry operator is reported as " + getProgramEntryOperatorId(id));
    if (J::parse(getProgramEntryPorts(id)) != J(p.op(p.entry).ins())) c.fail("ports", "the entry ports are reported as " + getProgramEntryPorts(id));
    J o = J::parse(getProgramOutputFilter(id));
    J want = J::object();
    if (p.hasOutput) for (auto& [k, v] : p.output) want[k] = v;
    if (o != want) c.fail("output", "the outputs are reported as " + o.dump() + " instead of " + want.dump());
    c.count("reports_of_the_declaration");
  };
  about();
  for (size_t i = 0; i < a.size();) {
    size_t n = std::min<size_t>(a.size() - i, huge ? 1500 + r.below(4000) : r.chance(0.02) ? a.size() : 1 + r.below(6));
    vector<Arrival> now(a.begin() + i, a.begin() + i + n);
    i += n;
    PortMsgs m;
    for (auto& x : now) m[x.port].push_back(x.m);
    vector<uint64_t> times;
    vector<double> values;
    vector<string> ports;
    for (auto& x : now) { times.push_back(x.m.t); values.push_back(x.m.v); ports.push_back(x.port); }
    auto fill = [&] { for (auto& x : now) twin.buffer("p", x.port, x.m); };
    bool fine = true;
    string what = to_string(n) + " messages";
    switch (r.below(10)) {
      case 0: fine = agree("processMessageMap of " + what, attempt([&] { return processMessageMap(id, native(m)); }), [&] { return twin.send("p", m); }); break;
      case 1: fine = agree("processMessageMapDebug of " + what, attempt([&] { return processMessageMapDebug(id, native(m)); }), [&] { return twin.sendDebug("p", m); }); break;
      case 2: fine = agree("processBatch of " + what, attempt([&] { return processBatch(id, times, values, ports); }), [&] { fill(); return twin.flush("p"); }); break;
      case 3: fine = agree("processBatchDebug of " + what, attempt([&] { return processBatchDebug(id, times, values, ports); }), [&] { fill(); return twin.flushDebug("p"); }); break;
      case 4:
      case 5:
      case 6: {
        bool debug = r.chance(0.5);
        for (auto& x : now) {
          Answer y = attempt([&] { return addToMessageBuffer(id, x.port, x.m.t, x.m.v); });
          if (y.refused || y.text != "1") c.fail("buffer", "addToMessageBuffer answers " + y.text);
        }
        // a batch without rows sends what waits in the buffer
        bool empty = r.chance(0.15);
        fine = agree(string(empty ? "an empty processBatch" : "processMessageBuffer") + (debug ? "Debug" : "") + " after " + what,
                     attempt([&] { return empty ? debug ? processBatchDebug(id, {}, {}, {}) : processBatch(id, {}, {}, {}) : debug ? processMessageBufferDebug(id) : processMessageBuffer(id); }),
                     [&] { fill(); return debug ? twin.flushDebug("p") : twin.flush("p"); });
        // nothing is left in the buffer
        if (fine && r.chance(0.3)) agree("an empty buffer", attempt([&] { return debug ? processMessageBufferDebug(id) : processMessageBuffer(id); }), [&] { return debug ? twin.flushDebug("p") : twin.flush("p"); });
        break;
      }
      case 7: {
        // columns of different lengths are refused and leave nothing behind
        auto t2 = times;
        auto v2 = values;
        auto p2 = ports;
        switch (r.below(3)) { case 0: t2.push_back(7); break; case 1: v2.pop_back(); break; default: p2.push_back("i1"); }
        Answer y = attempt([&] { return r.chance(0.5) ? processBatch(id, t2, v2, p2) : processBatchDebug(id, t2, v2, p2); });
        if (!y.refused) c.fail("columns", "columns of different lengths are accepted: " + y.text);
        fine = agree("processBatch of " + what, attempt([&] { return processBatch(id, times, values, ports); }), [&] { fill(); return twin.flush("p"); });
        break;
      }
      case 8: {
        bool ended = false;
        try {
          auto x = processMessageMapNative(id, native(m));
          Out have;
          for (auto& [o, pm] : x) for (auto& [q, v] : pm) { auto& d = have[o][q]; for (auto& y : v) d.push_back({y.time, y.value}); }
          Out want = twin.send("p", m);
          string where;
          if (!sameOut(want, have, &where)) c.fail("differs", "processMessageMapNative at " + where);
          c.count("calls_compared");
        } catch (const Violated&) { throw;
        } catch (const Refused& e) { c.fail("differs", string("processMessageMapNative answers where the engine reports ") + e.what());
        } catch (const std::exception&) {
          try { twin.send("p", m); } catch (const Refused&) { ended = true; }
          if (!ended) c.fail("differs", "processMessageMapNative reports an error");
        }
        fine = !ended;
        break;
      }
      default: {
        // a copy through the bytes gives the same answers
        string copy = id + "'";
        Gone g2{copy};
        rtbot::Bytes b = serializeProgram(id);
        createProgram(copy, b);
        twin.restore("copy", twin.snapshot("p"));
        agree("a restored copy", attempt([&] { return processMessageMapDebug(copy, native(m)); }), [&] { return twin.sendDebug("copy", m); });
        twin.remove("copy");
        fine = agree("processMessageMapDebug of " + what, attempt([&] { return processMessageMapDebug(id, native(m)); }), [&] { return twin.sendDebug("p", m); });
      }
    }
    if (!fine) { c.count("runs_ended_by_an_error"); break; }
    if (r.chance(0.05)) about();
    if (r.chance(0.05)) {
      Answer y = attempt([&] { return processMessageMap(id, native({{"i999", {{1, 2}}}})); });
      if (!y.refused) c.fail("unknown port", "a message for an unknown port is answered with " + y.text);
      string none = "none" + id;
      for (int k = 0; k < 5; k++) {
        y = attempt([&]() -> string {
          switch (k) {
            case 0: return processMessageBuffer(none);
            case 1: return processMessageBufferDebug(none);
            case 2: return addToMessageBuffer(none, "i1", 1, 2);
            case 3: return getProgramEntryOperatorId(none);
            default: return processBatch(none, {1}, {2}, {"i1"});
          }
        });
        if (!y.refused) c.fail("unknown program", "call " + to_string(k) + " of an unknown program is answered with " + y.text);
      }
    }
  }
  string end = deleteProgram(id);
  if (end != "1") c.fail("delete", "deleteProgram answers " + end);
  c.count("messages_compared", reported);
  if (reported > 5) c.nontrivial(mix(shapeOf(p), s.valueMode));
}

static void run(Ctx& c) {
  if (c.rng.chance(0.25)) schemaCase(c);
  else resultCase(c);
}

Prop property() {
  return {"P22", 6000, 120000,
          "random programs over all published operators, fed through every text call and, in the same way, natively; descriptions that the schema allows, each with six "
          "mutations it rules out and one that only the engine can refuse. Non-trivial: more than five messages compared, or a refused mutation; distinct by types, "
          "parameters, wiring and kind of values, or by kind of mutation.",
          run};
}

}  // namespace mon
