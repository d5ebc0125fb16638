// The native engine and the generators of the monitors, for workloads written in other languages:
//   twin_call("COMMAND ARGUMENTS\nREST") answers with JSON text, numbers with all their digits, times as text.
#include "desc.h"
#include "engine.h"

namespace mon {

static void makeAllowed(Prog& p) {
  for (auto& o : p.ops) {
    if (o.type == "LessThan") o.value = std::round(o.value);
    if (o.type == "TimeShift" && o.shift < 1) o.shift = 1;
  }
}
static GenOpts allowed(Rng& r) {
  GenOpts g;
  for (auto& t : allTypes()) if (t != "Pipeline" && t != "RelativeStrengthIndex") g.only.push_back(t);
  g.pipelines = false;
  g.maxOps = 9;
  g.demux = true;
  g.demuxFed = r.chance(0.8);
  g.variable = r.chance(0.5);
  g.exactish = r.chance(0.4);
  g.maxEntryPorts = r.chance(0.2) ? 12 : 3;
  g.spacing = r.chance(0.5) ? 10 : 1;
  return g;
}
static string value(double v) { return std::isfinite(v) ? num(v) : "null"; }
static string list(const Out& o) {
  string r = "{";
  for (auto& [id, pm] : o) {
    r += (r.size() > 1 ? "," : "") + quote(id) + ":{";
    bool first = true;
    for (auto& [p, v] : pm) {
      r += (first ? "" : ",") + quote(p) + ":[";
      first = false;
      for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + string("[\"") + to_string(v[i].t) + "\"," + value(v[i].v) + "]";
      r += "]";
    }
    r += "}";
  }
  return r + "}";
}

static string answer(const string& head, const string& rest) {
  static Engine engine;
  size_t sp = head.find(' ');
  string cmd = head.substr(0, sp), arg = sp == string::npos ? "" : head.substr(sp + 1);
  if (cmd == "op") {  // op SEED: a random operator
    Rng r(strtoull(arg.c_str(), 0, 10));
    GenOpts g = allowed(r);
    Prog p;
    p.ops.push_back(randomOp(r, r.pick(g.only), "x", g));
    makeAllowed(p);
    return opJson(p.ops[0]);
  }
  if (cmd == "program") {  // program SEED OUTPUT: a program, its entry ports in order and a stream, one row per time
    Rng r(strtoull(arg.c_str(), 0, 10));
    GenOpts g = allowed(r);
    g.output = arg.find("output") != string::npos;
    Prog p = randomProg(r, g);
    makeAllowed(p);
    const Op& e = p.op(p.entry);
    auto ports = e.ins();
    static const u64 starts[] = {0, 1, 1700000000000ull, 4294967290ull, (1ull << 53) - 100000, (1ull << 62) + 12345, 9223372036854775700ull};
    bool wide = arg.find("wide") != string::npos;
    auto times = randomTimes(r, 10 + r.below(40), starts[r.below(wide ? 7 : 5)], g.spacing);
    int mode = r.chance(0.3) ? (int)SPECIAL : (int)r.below(VALUE_MODES);
    bool hostile = e.type == "Input" && r.chance(0.3);
    vector<double> state(ports.size(), 0);
    string s = "{\"program\":" + json(p) + ",\"ports\":[";
    for (size_t i = 0; i < ports.size(); i++) s += (i ? "," : "") + quote(ports[i]);
    s += "],\"rows\":[";
    for (size_t i = 0; i < times.size(); i++) {
      u64 t = hostile && r.chance(0.2) ? times[r.below(i + 1)] : times[i];
      s += (i ? ",[\"" : "[\"") + to_string(t) + "\"";
      for (size_t k = 0; k < ports.size(); k++) {
        double v = randomValue(r, mode, state[k]);
        if (!std::isfinite(v)) v = k;
        s += "," + num(v);
      }
      s += "]";
    }
    return s + "]}";
  }
  if (cmd == "create") { engine.create(arg, rest); return "{}"; }
  if (cmd == "remove") { return engine.remove(arg) ? "1" : "0"; }
  if (cmd == "entry") return quote(engine.entry(arg));
  if (cmd == "ports") {
    string s = "[";
    for (auto& p : engine.ports(arg)) s += (s.size() > 1 ? "," : "") + quote(p);
    return s + "]";
  }
  if (cmd == "buffer" || cmd == "debug" || cmd == "regular") {  // lines PORT TIME VALUE
    size_t at = 0;
    while (at < rest.size()) {
      size_t end = rest.find('\n', at);
      if (end == string::npos) end = rest.size();
      string line = rest.substr(at, end - at);
      at = end + 1;
      size_t a = line.find(' '), b = line.find(' ', a + 1);
      if (b == string::npos) continue;
      engine.buffer(arg, line.substr(0, a), Msg{strtoull(line.c_str() + a + 1, 0, 10), strtod(line.c_str() + b + 1, 0)});
    }
    return cmd == "buffer" ? "{}" : list(cmd == "debug" ? engine.flushDebug(arg) : engine.flush(arg));
  }
  throw std::logic_error("monitor: unknown command " + cmd);
}

}  // namespace mon

extern "C" __attribute__((visibility("default"))) const char* twin_call(const char* text) {
  static std::string result;
  std::string s = text, head = s.substr(0, s.find('\n')), rest = head.size() < s.size() ? s.substr(head.size() + 1) : "";
  try {
    result = mon::answer(head, rest);
  } catch (const mon::Refused& e) {
    result = "{\"refused\":" + mon::quote(e.what()) + "}";
  } catch (const std::exception& e) {
    result = "{\"broken\":" + mon::quote(e.what()) + "}";
  }
  return result.c_str();
}
