#include "desc.h"

#include <algorithm>

namespace mon {

static vector<string> numbered(const char* prefix, u64 n) {
  vector<string> r;
  for (u64 i = 1; i <= n; i++) r.push_back(prefix + to_string(i));
  return r;
}
static bool isBinary(const string& t) {
  static const set<string> b{"Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream"};
  return b.count(t);
}

vector<string> Op::ins() const {
  if (type == "Input" || type == "Output" || type == "Join") return numbered("i", ports);
  if (type == "Linear") return numbered("i", coeff.size());
  if (isBinary(type)) return numbered("i", 2);
  if (type == "Pipeline") return numbered("i", pipelineIns(*prog).size());
  return {"i1"};
}
vector<string> Op::ctls() const {
  if (type == "Demultiplexer") return numbered("c", ports);
  if (type == "Variable") return {"c1"};
  return {};
}
vector<string> Op::outs() const {
  if (type == "Input" || type == "Output" || type == "Join" || type == "Demultiplexer") return numbered("o", ports);
  if (type == "Pipeline") return numbered("o", pipelineOuts(*prog).size());
  return {"o1"};
}
const Op& Prog::op(const string& id) const {
  for (auto& o : ops) if (o.id == id) return o;
  throw std::logic_error("monitor: no operator " + id);
}
bool Prog::has(const string& id) const {
  for (auto& o : ops) if (o.id == id) return true;
  return false;
}

static vector<pair<string, string>> freePorts(const Prog& p, bool in) {
  set<string> used;
  for (auto& c : p.conns) used.insert(in ? c.to + ":" + c.toPort : c.from + ":" + c.fromPort);
  map<string, pair<string, string>> r;
  for (auto& o : p.ops)
    for (auto& q : in ? o.ins() : o.outs())
      if (!used.count(o.id + ":" + q)) r[o.id + ":" + q] = {o.id, q};
  vector<pair<string, string>> v;
  for (auto& [k, x] : r) v.push_back(x);
  return v;
}
vector<pair<string, string>> pipelineIns(const Prog& p) { return freePorts(p, true); }
vector<pair<string, string>> pipelineOuts(const Prog& p) { return freePorts(p, false); }

// ---- writing ----
struct Obj {
  vector<pair<string, string>> f;
  void add(const string& k, const string& v) { f.push_back({k, v}); }
  string str(const Style& st) {
    if (st.rng) st.rng->shuffle(f);
    string r = "{";
    for (size_t i = 0; i < f.size(); i++) {
      if (i) r += ",";
      if (st.rng && st.rng->chance(0.2)) r += st.rng->chance(0.5) ? " " : "\n\t";
      r += quote(f[i].first) + ":" + f[i].second;
    }
    return r + "}";
  }
};
static string list(const vector<double>& v) {
  string r = "[";
  for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + num(v[i]);
  return r + "]";
}

string opJson(const Op& o, const Style& st) {
  Obj b;
  b.add("type", quote(o.type));
  b.add("id", quote(o.id));
  const string& t = o.type;
  auto opt = [&](const string& k, const string& v) { if (!o.omit.count(k)) b.add(k, v); };
  if (t == "Input" || t == "Output" || t == "Join" || t == "Demultiplexer") opt("numPorts", to_string(o.ports));
  if (t == "Add" || t == "Scale" || t == "Power" || t == "Constant" || t == "GreaterThan" || t == "LessThan" || t == "EqualTo") b.add("value", num(o.value));
  if (t == "Variable") opt("value", num(o.value));
  if (t == "FiniteImpulseResponse" || t == "AutoRegressive" || t == "Linear") b.add("coeff", list(o.coeff));
  if (t == "MovingAverage" || t == "StandardDeviation" || t == "PeakDetector" || t == "RelativeStrengthIndex") b.add("n", to_string(o.n));
  if (t == "CosineResampler" || t == "HermiteResampler") b.add("dt", to_string(o.dt));
  if (t == "ConstantResampler") b.add("interval", to_string(o.dt));
  if (t == "TimeShift") {
    opt("dt", to_string(o.shift));
    opt("times", to_string(o.times));
  }
  if (t == "Function") {
    string s = "[";
    for (size_t i = 0; i < o.points.size(); i++) s += string(i ? "," : "") + "[" + num(o.points[i].first) + "," + num(o.points[i].second) + "]";
    b.add("points", s + "]");
    opt("interpolationType", quote(o.interp));
  }
  if (t == "Pipeline") b.add("prog", json(*o.prog, st));
  return b.str(st);
}

string json(const Prog& p, const Style& st) {
  vector<string> ops, conns;
  for (auto& o : p.ops) ops.push_back(opJson(o, st));
  for (auto& c : p.conns) {
    Obj b;
    b.add("from", quote(c.from));
    b.add("to", quote(c.to));
    if (!c.omitFrom) b.add("fromPort", quote(c.fromPort));
    if (!c.omitTo) b.add("toPort", quote(c.toPort));
    conns.push_back(b.str(st));
  }
  if (st.rng && st.shuffleOps) st.rng->shuffle(ops);
  if (st.rng && st.shuffleConns) st.rng->shuffle(conns);
  auto join = [](const vector<string>& v) {
    string r = "[";
    for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i];
    return r + "]";
  };
  Obj b;
  b.add("operators", join(ops));
  b.add("connections", join(conns));
  if (!p.entry.empty()) b.add("entryOperator", quote(p.entry));
  if (p.hasOutput) {
    Obj u;
    for (auto& [id, ports] : p.output) {
      vector<string> q;
      for (auto& x : ports) q.push_back(quote(x));
      u.add(id, join(q));
    }
    b.add("output", u.str(st));
  }
  return b.str(st);
}

u64 shapeOf(const Prog& p) {
  map<string, size_t> index;
  u64 h = 7;
  for (auto& o : p.ops) {
    index.emplace(o.id, index.size());
    Op c = o;
    c.id = "x";
    if (o.prog) { h = mix(h, shapeOf(*o.prog)); h = mix(h, hashOf("Pipeline")); }
    else h = mix(h, hashOf(opJson(c)));
  }
  for (auto& c : p.conns) h = mix(h, mix(index[c.from] * 131 + index[c.to], hashOf(c.fromPort + ">" + c.toPort)));
  return h;
}

// ---- generation ----
const vector<string>& allTypes() {
  static const vector<string> t{
      "Add", "Scale", "Power", "Constant", "Identity", "TimeShift", "Function", "GreaterThan", "LessThan", "EqualTo",
      "MovingAverage", "StandardDeviation", "FiniteImpulseResponse", "Difference", "PeakDetector", "RelativeStrengthIndex",
      "Count", "CumulativeSum", "AutoRegressive",
      "ConstantResampler", "CosineResampler", "HermiteResampler",
      "Join", "Plus", "Minus", "Multiplication", "Division", "And", "Or", "GreaterThanStream", "LessThanStream", "Linear",
      "Output", "Input", "Demultiplexer", "Variable", "Pipeline"};
  return t;
}

static double parameter(Rng& r, bool exactish) {
  if (exactish) {
    double v = r.range(-12, 12) / (r.chance(0.5) ? 1.0 : 4.0);
    return v;
  }
  switch (r.below(4)) {
    case 0: return r.gauss() * 10;
    case 1: return r.range(-1000000, 1000000) / 1000.0;
    case 2: return r.gauss() * std::pow(10, (double)r.range(-6, 6));
    default: return (double)r.range(-3, 3);
  }
}

Op randomOp(Rng& r, const string& type, const string& id, const GenOpts& g) {
  Op o;
  o.type = type;
  o.id = id;
  bool ex = g.exactish ? r.chance(0.85) : false;
  u64 sp = g.spacing ? g.spacing : 1;
  auto window = [&](u64 lo) -> u64 {
    u64 hi = std::max<u64>(lo, g.maxWindow);
    return r.chance(0.3) ? (u64)r.range(lo, std::min<u64>(hi, lo + 3)) : (u64)r.range(lo, hi);
  };
  if (type == "Input") o.ports = 1 + r.below(3);
  if (type == "Output") o.ports = 1 + r.below(3);
  if (type == "Join") o.ports = r.chance(0.7) ? 2 + r.below(2) : 2 + r.below(4);
  if (type == "Demultiplexer") o.ports = 1 + r.below(3);
  if (type == "Scale") { o.value = parameter(r, ex); if (std::fabs(o.value) > 4 && r.chance(0.8)) o.value /= 8; }
  if (type == "Add" || type == "Constant" || type == "Variable") o.value = parameter(r, ex);
  if (type == "GreaterThan" || type == "LessThan") o.value = r.chance(0.5) ? 0 : (double)r.range(-4, 6);
  if (type == "EqualTo") o.value = (double)r.range(-1, 3);
  if (type == "Power") { static const double ps[] = {2, 1, 0, 3, 0.5, -1, 2, 1.5}; o.value = r.chance(0.7) ? ps[r.below(8)] : r.chance(0.5) ? (double)r.range(-6, 9) : r.range(-12, 12) / 4.0; }
  if (type == "FiniteImpulseResponse") for (u64 k = window(1); k > 0; k--) o.coeff.push_back(parameter(r, ex));
  if (type == "AutoRegressive") {
    u64 k = 1 + r.below(5);
    for (u64 i = 0; i < k; i++) o.coeff.push_back(ex ? r.range(-4, 4) / 16.0 : r.gauss() * 0.4 / k);
  }
  if (type == "Linear") for (u64 k = r.chance(0.8) ? 2 + r.below(3) : 2 + r.below(11); k > 0; k--) o.coeff.push_back(parameter(r, ex));
  if (type == "MovingAverage") o.n = window(1);
  if (type == "StandardDeviation") o.n = window(2);
  if (type == "PeakDetector") o.n = r.chance(0.6) ? 3 : window(1);
  if (type == "RelativeStrengthIndex") o.n = window(1);
  if (type == "CosineResampler" || type == "HermiteResampler" || type == "ConstantResampler") {
    u64 lo = std::max<u64>(1, sp / 3), hi = sp * 4;
    o.dt = r.chance(0.3) ? sp : lo + r.below(hi - lo + 1);
  }
  if (type == "TimeShift") {
    o.shift = r.chance(0.4) ? (i64)sp : r.range(1, 3 * sp);
    o.times = (int)r.range(0, 3);
    if (g.negativeShift && r.chance(0.4)) o.times = -o.times;
    if (r.chance(0.15)) { o.shift = 1; o.omit.insert("dt"); }
    if (r.chance(0.15)) { o.times = 1; o.omit.insert("times"); }
  }
  if (type == "Function") {
    set<double> xs;
    u64 k = r.chance(0.3) ? 2 : 2 + r.below(6);
    while (xs.size() < k) xs.insert(ex ? r.range(-20, 20) / 2.0 : std::round(r.gauss() * 1000) / 100);
    for (double x : xs) o.points.push_back({x, parameter(r, ex)});
    r.shuffle(o.points);
    if (r.chance(0.5)) o.interp = "hermite";
    else if (r.chance(0.4)) o.omit.insert("interpolationType");
  }
  if (g.isLarge && r.chance(0.4)) {
    if (type == "Input" || type == "Output" || type == "Join" || type == "Demultiplexer") o.ports = 8 + r.below(13);
    size_t k = type == "Linear" ? 8 + r.below(13) : type == "AutoRegressive" ? 10 + r.below(30) : type == "FiniteImpulseResponse" ? 30 + r.below(300) : 0;
    if (k) o.coeff.clear();
    for (size_t i = 0; i < k; i++) o.coeff.push_back(type == "AutoRegressive" ? r.range(-8, 8) / (16.0 * k) : r.range(-16, 16) / 8.0);
    if (o.n) o.n = 50 + r.below(300);
    if (type == "Function") {
      set<double> xs;
      for (size_t m = 16 + r.below(60); xs.size() < m;) xs.insert(r.range(-200, 200) / 8.0);
      o.points.clear();
      for (double x : xs) o.points.push_back({x, r.range(-40, 40) / 4.0});
      r.shuffle(o.points);
    }
  }
  if (type == "Variable" && r.chance(0.2)) { o.value = 0; o.omit.insert("value"); }
  if ((type == "Input" || type == "Output" || type == "Demultiplexer") && o.ports == 1 && r.chance(0.5)) o.omit.insert("numPorts");
  if (type == "Join" && o.ports == 2 && r.chance(0.3)) o.omit.insert("numPorts");
  return o;
}

// ids that written one after the other can be read in several ways
string piecedId(Rng& r) {
  static const char* pieces[] = {"a", "1", "o1", "i1", "b", ":", "-", "_", ".", "/", "->", "c1", " "};
  string id;
  for (u64 k = 1 + r.below(4), few = r.chance(0.6) ? 2 : 13; k > 0; k--) id += pieces[r.below(few)];
  return id;
}

static string freshId(Rng& r, const string& type, const Prog& p, const GenOpts& g) {
  bool random = g.randomIds;
  for (;;) {
    string id;
    if (random && g.isLarge && r.chance(0.3)) {  // longer than a byte can count, some the beginning of others
      static const size_t lengths[] = {255, 256, 257, 300, 1000};
      id = string(lengths[r.below(5)], r.chance(0.5) ? 'l' : 'n');
      if (r.chance(0.5)) id += to_string(r.below(50));
      if (!p.has(id)) return id;
      continue;
    }
    switch (random ? r.below(6) : 0) {
      case 1: id = type.substr(0, 2) + to_string(r.below(40)); break;
      case 2: { static const char* a = "abcdefgXYZ_-0129"; for (u64 k = 1 + r.below(6); k > 0; k--) id += a[r.below(16)]; break; }
      case 3: id = string(r.chance(0.5) ? "o" : "i") + to_string(1 + r.below(12)); break;  // looks like a port
      case 4: { static const char* w[] = {"a b", "x:y", "\xC3\xA9t\xC3\xA9", "q\"q", "back\\slash", "0", "id", "a.b/c"}; id = w[r.below(8)]; id += to_string(r.below(30)); break; }
      case 5: id = piecedId(r); break;
      default: id = "n" + to_string(p.ops.size() + r.below(50)); break;
    }
    if (!p.has(id)) return id;
  }
}

Prog randomProg(Rng& r, const GenOpts& asked) {
  GenOpts g = asked;
  if (g.depth == 0 && !g.isLarge) g.isLarge = r.chance(g.large);
  bool hub = g.isLarge && r.chance(0.5);  // one port feeds many others
  Prog p;
  int want = (int)r.range(g.minOps, g.maxOps);
  struct End { string op, port; };
  vector<End> ends;
  vector<string> pool;
  bool focus = r.chance(0.4);  // few types, so that they meet each other
  set<string> chosen;
  if (focus) for (int i = 0; i < 4; i++) chosen.insert(r.pick(allTypes()));
  for (auto& t : g.only.empty() ? allTypes() : g.only) {
    if (t == "Demultiplexer" && !g.demux) continue;
    if (t == "Variable" && !g.variable) continue;
    if (t == "Pipeline" && (!g.pipelines || g.depth >= g.maxDepth)) continue;
    if (!g.resamplers && t.find("Resampler") != string::npos) continue;
    if (!g.timeShift && t == "TimeShift") continue;
    bool joins = t == "Join" || t == "Plus" || t == "Minus" || t == "Linear" || t == "Output";
    int w = focus && chosen.count(t) ? 8 : joins ? 3 : (t == "GreaterThan" || t == "LessThan" || t == "EqualTo" || t == "Constant" || t == "Power") ? 1 : 2;
    if (t == "Demultiplexer" || t == "Variable") w = 4;
    for (; w > 0; w--) pool.push_back(t);
  }
  auto addEnds = [&](const Op& o) { for (auto& q : o.outs()) ends.push_back({o.id, q}); };
  int resamplers = 0;
  bool nested = g.depth > 0;
  if (!nested || r.chance(0.3)) {  // entry
    Op e;
    if (!nested && r.chance(0.85)) {
      e = randomOp(r, "Input", freshId(r, "Input", p, g), g);
      e.ports = 1 + r.below(g.maxEntryPorts);
      if (e.ports > 1) e.omit.clear();
    } else {
      // any operator without control ports can be the entry
      string t;
      do t = r.pick(pool); while (t == "Demultiplexer" || t == "Variable" || t == "Pipeline");
      if (t.find("Resampler") != string::npos) resamplers++;
      e = randomOp(r, t, freshId(r, t, p, g), g);
    }
    p.entry = e.id;
    addEnds(e);
    p.ops.push_back(e);
  }
  while ((int)p.ops.size() < want) {
    string t = r.pick(pool);
    if (t.find("Resampler") != string::npos && resamplers++ >= g.maxResamplers) continue;
    Op o;
    if (t == "Pipeline") {
      GenOpts h = g;
      h.depth++;
      h.minOps = 1;
      h.maxOps = g.depth == 0 && r.chance(0.1) ? 20 : 5;
      if (g.depth == 0 && r.chance(0.1)) h.maxDepth = 4;
      h.output = false;
      h.maxResamplers = std::max(0, g.maxResamplers - resamplers);
      h.variable = false;
      h.demux = g.demux && g.demuxFed;
      if (!h.maxResamplers) h.resamplers = false;
      o.type = t;
      o.prog = std::make_shared<Prog>(randomProg(r, h));
      for (auto& q : o.prog->ops) if (q.type.find("Resampler") != string::npos) resamplers++;
      o.id = freshId(r, t, p, g);
      if (o.ins().empty()) continue;
    } else {
      o = randomOp(r, t, freshId(r, t, p, g), g);
    }
    size_t oi = o.ins().size(), oo = o.outs().size();
    auto wire = [&](const string& port, bool single) {
      if (ends.empty()) return;
      if (nested && r.chance(0.25)) return;                    // becomes a port of the pipeline
      if (!nested && g.unconnected && r.chance(0.02)) return;  // never receives anything
      // recent operators first, so that chains grow
      size_t k = hub && r.chance(0.7) ? 0 : r.chance(0.5) && ends.size() > 4 ? ends.size() - 1 - r.below(4) : r.below(ends.size());
      if (g.branches && r.chance(0.04)) {
        // the cases of a decision, treated differently, meet again in this port
        End d = ends[k];
        double v = (double)r.range(-2, 3);
        bool any = false;
        for (string f : {"GreaterThan", "LessThan", "EqualTo"}) {
          if (r.chance(0.2) && (any || f != "EqualTo")) continue;
          any = true;
          auto make = [&](const string& type) {
            string id;
            do id = freshId(r, type, p, g); while (id == o.id);
            p.ops.push_back(randomOp(r, type, id, g));
            addEnds(p.ops.back());
            return id;
          };
          string id = make(f);
          p.ops.back().value = v;
          p.conns.push_back({d.op, id, d.port, "i1"});
          for (size_t m = r.below(3); m > 0; m--) {
            static const char* then[] = {"Add", "Scale", "Identity", "Constant"};
            string next = make(then[r.below(4)]);
            p.conns.push_back({id, next, "o1", "i1"});
            id = next;
          }
          p.conns.push_back({id, o.id, "o1", port});
        }
        return;
      }
      Conn c{ends[k].op, o.id, ends[k].port, port};
      if (single && r.chance(0.4)) c.omitTo = true;
      if (p.op(c.from).outs().size() == 1 && r.chance(0.4)) c.omitFrom = true;
      p.conns.push_back(c);
    };
    auto cs = o.ctls();
    if (t == "Demultiplexer" && g.demuxFed && ends.empty()) continue;
    if (t == "Demultiplexer" && !ends.empty() && (g.demuxFed || r.chance(0.75))) {
      // controls that are there for every data message and are 0 or 1
      End d = ends[r.below(ends.size())];
      p.conns.push_back({d.op, o.id, d.port, "i1"});
      p.ops.push_back(o);
      addEnds(o);
      for (auto& q : cs) {
        Op k;
        k.type = r.chance(0.4) ? "Constant" : r.chance(0.5) ? "Or" : "And";
        k.value = (double)r.below(2);
        k.id = freshId(r, k.type, p, g);
        for (auto& x : k.ins()) p.conns.push_back({d.op, k.id, d.port, x});
        p.conns.push_back({k.id, o.id, "o1", q});
        p.ops.push_back(k);
      }
      continue;
    }
    for (auto& q : o.ins()) wire(q, oi == 1 && cs.empty());
    for (auto& q : cs) wire(q, false);
    (void)oo;
    p.ops.push_back(o);
    addEnds(o);
  }
  if (nested) p.entry = r.chance(0.5) ? p.ops[0].id : "";
  r.shuffle(p.conns);
  if (g.output && r.chance(0.8)) {
    p.hasOutput = true;
    for (auto& o : p.ops)
      if (r.chance(0.4))
        for (auto& q : o.outs()) if (r.chance(0.6)) p.output[o.id].push_back(q);
    for (auto& [id, q] : p.output) r.shuffle(q);
  }
  return p;
}

// ---- streams ----
double randomValue(Rng& r, int mode, double& state) {
  switch (mode) {
    case SMALL_INT: return (double)r.range(-5, 9);
    case DYADIC: return r.range(-4000, 4000) / 16.0;
    case GAUSS: return r.gauss() * 10;
    case WALK: return state += r.range(-8, 8) / 8.0;
    case TIES: if (r.chance(0.4)) state = (double)r.range(-2, 3); return state;
    case MIXED_SCALE: return r.gauss() * std::pow(10, (double)r.range(-8, 8));
    case BINARY: return (double)r.below(2);
    case SCALED:  // all values of a stream large or small
      if (std::fabs(state) < 10 && state == std::floor(state)) state = std::pow(10, r.range(-30, 30) + 0.25);
      return r.gauss() * state;
    default: {
      static const double s[] = {0.0, -0.0, 1.0, 5e-324, 1e308, -1e308, INFINITY, -INFINITY, NAN, 1e-310, 9007199254740993.0, -1};
      return r.chance(0.5) ? s[r.below(12)] : r.gauss();
    }
  }
}

vector<u64> randomTimes(Rng& r, size_t n, u64 start, u64 spacing, int mode) {
  if (mode < 0) mode = (int)r.below(5);
  vector<u64> t;
  u64 now = start;
  u64 sp = spacing ? spacing : 1;
  for (size_t i = 0; i < n; i++) {
    t.push_back(now);
    switch (mode) {
      case 0: now += sp; break;                                    // regular
      case 1: now += 1 + r.below(2 * sp); break;                   // jitter
      case 2: now += r.chance(0.03) ? sp * (10 + r.below(30)) : sp; break;  // gaps
      case 3: now += r.chance(0.5) ? 1 : 1 + r.below(3 * sp); break;        // bursts
      default: now += sp * (1 + r.below(4)); break;                 // sparse grid
    }
  }
  return t;
}

void leap(Rng& r, vector<u64>& t) {
  if (t.empty() || !r.chance(0.05)) return;
  u64 far = 1ull << (30 + r.below(33));
  if (~0ull - t.back() < far) return;
  for (size_t i = r.below(t.size()); i < t.size(); i++) t[i] += far;
}

vector<Arrival> randomArrivals(Rng& r, const vector<string>& ports, const StreamOpts& o) {
  // a common clock, of which each port sees a part
  bool large = r.chance(o.large);
  vector<u64> clock = randomTimes(r, large ? std::max<size_t>(o.length, 300 + r.below(1000)) : o.length, o.start, o.spacing, o.timeMode);
  size_t n = ports.size();
  struct S { vector<Msg> v; size_t pos = 0; };
  vector<S> s(n);
  for (size_t i = 0; i < n; i++) {
    int vm = o.valueMode >= 0 ? o.valueMode : (int)r.below(MIXED_SCALE);
    double state = (double)r.range(-3, 3);
    double keep = r.chance(0.5) ? 1.0 : 0.5 + 0.5 * r.unit();
    for (u64 t : clock)
      if (r.chance(keep)) {
        s[i].v.push_back({t, randomValue(r, vm, state)});
        if (o.repeats)
          while (r.chance(0.1)) s[i].v.push_back(r.chance(0.7) ? s[i].v.back() : Msg{t, randomValue(r, vm, state)});
        if (o.hostile) {
          while (r.chance(0.08)) s[i].v.push_back({t, randomValue(r, vm, state)});                       // repeated
          if (r.chance(0.06)) s[i].v.push_back({t - std::min<u64>(t, r.below(4 * o.spacing + 1)), randomValue(r, vm, state)});  // late
        }
      }
  }
  vector<Arrival> a;
  int order = (int)r.below(large ? 5 : 3);
  for (;;) {
    vector<size_t> open;
    for (size_t i = 0; i < n; i++) if (s[i].pos < s[i].v.size()) open.push_back(i);
    if (open.empty()) break;
    size_t k;
    if (order == 0) {  // by time
      k = open[0];
      for (size_t i : open) if (s[i].v[s[i].pos].t < s[k].v[s[k].pos].t) k = i;
    } else if (order == 3)  // one port completely ahead of the others
      k = open[0];
    else if (order == 4)
      k = open.back();
    else
      k = r.pick(open);
    size_t burst = order == 2 ? 1 + r.below(12) : 1;  // one port runs ahead of the others
    for (; burst > 0 && s[k].pos < s[k].v.size(); burst--) a.push_back({ports[k], s[k].v[s[k].pos++]});
  }
  return a;
}

string show(const vector<Arrival>& a, size_t limit) {
  string r;
  for (size_t i = 0; i < a.size() && i < limit; i++) r += a[i].port + "@" + show(a[i].m) + " ";
  if (a.size() > limit) r += "... (" + to_string(a.size()) + " messages)";
  return r;
}

string nested(Rng& r, const string& text, u64 depth, bool pipelines) {
  string open, close;
  if (pipelines) {
    for (u64 i = 0; i < depth; i++) {
      open += R"({"id":"p","type":"Pipeline","prog":{"connections":[],"operators":[)";
      close += "]}}";
    }
    return R"({"operators":[{"id":"in","type":"Input","numPorts":1},)" + open + R"({"id":"p","type":"Add","value":1})" + close +
           R"(],"connections":[{"from":"in","to":"p","fromPort":"o1","toPort":"i1"}],"entryOperator":"in"})";
  }
  bool lists = r.chance(0.6);
  for (u64 i = 0; i < depth; i++) open += lists ? "[" : "{\"a\":";
  close = string(depth, lists ? ']' : '}');
  size_t at = text.find('{'), ops = text.find("\"operators\"");
  if (r.chance(0.7) && ops != string::npos && text.find('{', ops) != string::npos) at = text.find('{', ops);
  return text.substr(0, at + 1) + "\"deep\":" + open + (lists ? "" : "1") + close + "," + text.substr(at + 1);
}

}  // namespace mon
