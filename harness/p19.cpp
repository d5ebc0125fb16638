// P19: memory and undefined behaviour. Oracle: AddressSanitizer, UndefinedBehaviorSanitizer (with float conversions) and, in the
// first cases, valgrind's memcheck watch every operation of the interface under hostile programs and streams; the bytes allocated
// after a program is deleted must be those allocated before it was created.
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <nlohmann/json.hpp>

#include "watch.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define ALLOCATED() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef ALLOCATED
#define ALLOCATED() 0
#endif

namespace mon {

using J = nlohmann::json;

// descriptions that may be refused half-way, after some of the operators were made
static vector<string> illFormed(Rng& r, const Prog& p) {
  vector<string> out;
  for (int k = 0; k < 3; k++) {
    J j = J::parse(json(p));
    auto& ops = j["operators"];
    auto& conns = j["connections"];
    size_t at = r.below(ops.size());
    switch (r.below(9)) {
      case 0:  // an id that occurs twice
      case 1: {
        J twice = r.chance(0.5) ? ops[r.below(ops.size())] : J{{"type", "MovingAverage"}, {"n", 3}};
        twice["id"] = ops[at]["id"];
        ops.insert(ops.begin() + r.below(ops.size() + 1), twice);
        break;
      }
      case 2: ops[at]["type"] = "Nothing"; break;
      case 3: ops[at].erase("id"); break;
      case 4: ops[at] = J{{"id", "x"}, {"type", "FiniteImpulseResponse"}, {"coeff", J::array({1, "2"})}}; break;
      case 5: j["entryOperator"] = "nobody"; break;
      case 6: conns.push_back(J{{"from", ops[at]["id"]}, {"to", "nobody"}}); break;
      case 7: conns.insert(conns.begin(), J{{"from", ops[at]["id"]}, {"to", ops[at]["id"]}, {"fromPort", "o1"}, {"toPort", "i99"}}); break;
      default: ops.push_back(J{{"id", "sub"}, {"type", "Pipeline"}, {"prog", {{"operators", {ops[at], {{"id", 3}}}}, {"connections", J::array()}}}}); break;
    }
    out.push_back(j.dump());
  }
  return out;
}

// one life of a program; everything of it is gone when this returns
static void life(Ctx& c, const string& text, const Prog& p, const vector<Arrival>& a, const vector<string>& bad, u64 choices, u64& reported, bool& refusedOnce) {
  Rng r(choices);
  Engine e;
  auto count = [&](const Out& o) { for (auto& [id, pm] : o) for (auto& [q, v] : pm) reported += v.size(); };
  auto attempt = [&](std::function<void()> f) {
    try { f(); } catch (const Refused&) { refusedOnce = true; }
  };
  e.create("p", text);
  int copies = 0;
  bool filtered = p.op(p.entry).type == "Input";
  for (size_t i = 0; i < a.size(); i++) {
    switch (r.below(15)) {
      case 14:
        if (bad.empty() || !r.chance(0.3)) break;
        attempt([&] {
          e.create("bad", r.pick(bad));
          c.count("ill_formed_programs_accepted");
          attempt([&] { for (auto& q : e.ports("bad")) count(e.sendDebug("bad", q, a[i].m)); });
          Blob b = e.snapshot("bad");
          attempt([&] { e.restore("bad2", b); });
        });
        c.count("ill_formed_programs");
        e.remove("bad");
        e.remove("bad2");
        break;
      case 0:
        if (!filtered) break;  // a message waiting in the buffer is overtaken by the next one
        attempt([&] { e.buffer("p", a[i].port, a[i].m); });
        continue;
      case 1: attempt([&] { e.buffer("p", a[i].port, a[i].m); count(r.chance(0.5) ? e.flush("p") : e.flushDebug("p")); }); continue;
      case 2: attempt([&] { count(e.send("p", a[i].port, a[i].m)); }); continue;
      case 3:
        if (copies < 4) {
          Blob b = e.snapshot("p");
          string id = "copy" + to_string(copies++);
          attempt([&] { e.restore(id, b); });
          attempt([&] { count(e.sendDebug(id, a[i].port, a[i].m)); });
          if (r.chance(0.5)) e.remove(id);
        }
        break;
      case 4: attempt([&] { e.flushDebug("p"); }); break;
      case 5: attempt([&] { e.ports("p"); e.entry("p"); e.outputs("p"); }); break;
      case 6: attempt([&] { e.sendDebug("p", "i77", a[i].m); }); break;
      case 7: attempt([&] { e.create("p", text); }); break;
      case 8:
        if (r.chance(0.1)) {
          e.remove("p");
          e.create("p", text);
        }
        break;
      default: break;
    }
    attempt([&] { count(e.sendDebug("p", a[i].port, a[i].m)); });
  }
  if (r.chance(0.8)) e.remove("p");
  (void)c;
}

static void memcheck(Ctx& c, const char* exe) {
  string err = "memcheck." + to_string(c.caseNo) + "." + to_string(getpid());
  pid_t pid = fork();
  if (pid == 0) {
    int f = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(f, 2);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    unsetenv("RTBOT_MEMCHECK");
    setenv("RTBOT_UNDER_MEMCHECK", "1", 1);
    string seed = to_string(c.seed), shard = to_string(c.caseNo), scale = c.thorough ? "0.01" : "0.06", report = err + ".report";
    execlp("valgrind", "valgrind", "--error-exitcode=99", "-q", "--exit-on-first-error=yes", exe, "--seed", seed.c_str(), "--shard", shard.c_str(), "--shards", "8", "--scale",
           scale.c_str(), "--report", report.c_str(), (char*)nullptr);
    _exit(97);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  string text;
  if (FILE* f = fopen(err.c_str(), "r")) {
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n);
    fclose(f);
  }
  u64 ran = 0;
  bool done = false;
  string violation, last;
  if (FILE* f = fopen((err + ".report").c_str(), "r")) {
    char b[8192];
    while (fgets(b, sizeof b, f)) {
      string l = b;
      if (l.compare(0, 5, "case ") == 0) { ran++; last = l; }
      if (l.compare(0, 10, "violation ") == 0) violation = l;
      if (l.compare(0, 4, "done") == 0) done = true;
    }
    fclose(f);
  }
  unlink(err.c_str());
  unlink((err + ".report").c_str());
  c.count("cases_under_memcheck", ran);
  c.about = "under valgrind, " + last;
  if (!violation.empty()) c.fail("memcheck", violation.substr(0, 2500));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 97) throw std::logic_error("monitor: valgrind cannot be started");
  if (!done) c.fail("memcheck", "valgrind reports: " + text.substr(0, 2500));
}

// A message passes through a chain of operators. Each hop is a nested call, so that a chain of ten thousands exhausts the stack
// (known, see known_findings.txt); chains of hundreds must not.
static void chain(Ctx& c, u64 hops) {
  Prog p;
  string ops = R"({"id":"in","type":"Input","numPorts":1})", conns;
  for (u64 i = 0; i < hops; i++) {
    ops += R"(,{"id":"a)" + to_string(i) + R"(","type":"Add","value":1})";
    conns += string(i ? "," : "") + R"({"from":")" + (i ? "a" + to_string(i - 1) : "in") + R"(","to":"a)" + to_string(i) + R"(","fromPort":"o1","toPort":"i1"})";
  }
  string text = R"({"operators":[)" + ops + R"(],"connections":[)" + conns + R"(],"entryOperator":"in","output":{"a)" + to_string(hops - 1) + R"(":["o1"]}})";
  c.about = "a chain of " + to_string(hops) + " additions";
  int answer[2];
  if (pipe(answer) != 0) throw std::logic_error("monitor: no pipe");
  pid_t pid = fork();
  if (pid == 0) {
    signal(SIGSEGV, SIG_DFL);
    signal(SIGBUS, SIG_DFL);
    struct rlimit none = {0, 0};
    setrlimit(RLIMIT_CORE, &none);
    alarm(150);
    Engine e;
    e.create("p", text);
    if (write(answer[1], "c", 1) != 1) _exit(3);
    Out o = e.send("p", "i1", {7, 1});
    string last = "a" + to_string(hops - 1);
    _exit(o.size() == 1 && o[last]["o1"].size() == 1 && sameMsg(o[last]["o1"][0], Msg{7, 1.0 + hops}) ? 0 : 4);
  }
  close(answer[1]);
  char b = 0;
  ssize_t got = read(answer[0], &b, 1);
  int st = 0;
  waitpid(pid, &st, 0);
  close(answer[0]);
  c.count("chains_passed", WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return;  // too slow to tell
  if (got == 1 && WIFSIGNALED(st)) c.fail(hops >= 10000 ? "stack-of-long-chain" : "crash", "signal " + to_string(WTERMSIG(st)) + " when a message passes through a chain of " + to_string(hops) + " operators");
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) c.fail("chain", "a chain of " + to_string(hops) + " additions ends with status " + to_string(st));
}

static void run(Ctx& c) {
  bool under = getenv("RTBOT_UNDER_MEMCHECK") != nullptr;
  if (!under && c.caseNo == 8) return chain(c, 30000);
  if (!under && c.caseNo == 9) return chain(c, 500);
  const char* exe = getenv("RTBOT_MEMCHECK");
  if (exe && c.caseNo < 8) return memcheck(c, exe);
  Rng& r = c.rng;
  GenOpts g;
  static const u64 spacings[] = {1, 10, 7, 1000, 10, 3000000000ull};
  g.spacing = spacings[r.below(6)];
  g.maxOps = r.chance(0.2) ? 25 : 9;
  g.exactish = r.chance(0.3);
  g.demux = r.chance(0.5);
  g.variable = r.chance(0.5);
  g.negativeShift = r.chance(0.5);
  g.maxEntryPorts = r.chance(0.1) ? 14 : 4;
  g.maxWindow = r.chance(0.1) ? 80 : 8;
  g.output = r.chance(0.3);
  Prog p;
  bool slow = getenv("RTBOT_UNDER_MEMCHECK") != nullptr;
  if (slow && c.caseNo % 4 != 3) {
    // one operator after the other with its smallest parameters, where the rare paths are
    const auto& types = allTypes();
    u64 k = c.caseNo / 4 * 3 + c.caseNo % 4, variant = k / types.size() % 4;
    string t = types[k % types.size()];
    if (t == "Pipeline") { g.maxOps = 4; p = randomProg(r, g); }
    else {
      Op o = randomOp(r, t, "x", g);
      if (o.n) o.n = (t == "StandardDeviation" ? 2 : 1) + variant;
      if (o.ports > 1 || t == "Input" || t == "Output" || t == "Demultiplexer") o.ports = (t == "Join" ? 2 : 1) + variant;
      o.omit.erase("numPorts");
      if (o.coeff.size() > 1 + variant && t != "Linear") o.coeff.resize(1 + variant);
      p = around(o, false);
    }
  } else if (r.chance(0.4)) {
    const auto& types = allTypes();
    string t = types[c.caseNo % types.size()];
    if (t == "Pipeline") p = randomProg(r, g);
    else p = around(randomOp(r, t, "x", g), t != "Demultiplexer" && t != "Variable" && r.chance(0.3));
  } else
    p = randomProg(r, g);
  // a shift into the past may put a resampler behind a clock that stands still, never one that runs backwards
  StreamOpts s;
  s.length = slow ? 25 : r.chance(0.1) ? 300 : 10 + r.below(60);
  s.spacing = g.spacing;
  static const u64 starts[] = {0, 1, 1700000000000ull, 5000000000ull, 1ull << 53, 1ull << 61, 1700000000000000000ull};
  s.start = starts[r.below(7)];
  s.valueMode = r.chance(0.5) ? (int)SPECIAL : (int)r.below(VALUE_MODES);
  s.hostile = p.op(p.entry).type == "Input" && r.chance(0.6);
  auto a = randomArrivals(r, p.op(p.entry).ins(), s);
  string text = json(p);
  c.about = text + " fed with " + show(a, 400);
  c.sample(text + " fed with " + show(a, 8));
  vector<string> bad;
  if (r.chance(0.5)) bad = illFormed(r, p);
  u64 reported = 0, choices = r.next();
  bool refused = false;
  auto watched = [&] {
    u64 n = 0;
    bool q = false;
    vector<Arrival> in = a;
    life(c, text, p, in, bad, choices, n, q);
    reported = n;
    refused = refused || q;
  };
  watched();
  size_t before = ALLOCATED();
  watched();
  size_t after = ALLOCATED();
  if (after > before) {
    // once more: what grows at every life is lost, what was grown once is a cache
    before = ALLOCATED();
    watched();
    after = ALLOCATED();
    if (after > before) c.fail("leak", "after all programs are deleted " + to_string(after - before) + " bytes more are allocated than before they were created");
  }
  c.count("messages_sent", 2 * a.size());
  c.count("messages_reported", 2 * reported);
  if (before) c.count("lives_with_allocations_balanced");
  if (refused) c.count("runs_with_a_refusal");
  if (reported > 5) c.nontrivial(mix(shapeOf(p), s.valueMode));
}

Prop property() {
  return {"P19", 4000, 80000,
          "random programs over all operators with special values (infinities, NaN, denormals, huge and tiny), hostile clocks, windows and ports of all sizes, and random "
          "use of every call, ill-formed descriptions among them, under AddressSanitizer and UBSan, part of it under memcheck; allocated bytes compared before and after each life. Non-trivial: more than "
          "five messages reported; distinct by types, parameters, wiring and kind of values.",
          run};
}

}  // namespace mon
