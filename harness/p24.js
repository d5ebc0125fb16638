// P24: the JavaScript package (program.ts, api.ts, the generated operators and the functions bound in emscripten-bindings.cpp).
// Oracle: a model of the operators and connections that the editing operations should leave, and the native engine (twin) fed with
// the same rows.
const { isDeepStrictEqual } = require("util");
const monitor = require("./monitor.js");
console.log = () => {};  // verbose runs

const RULE = "programs edited side by side with every operation, permitted or not, and compared after each with a model; random programs over " +
  "all operator classes run over tables of rows in both formats, started and fed message by message, with refused rows and descriptions, and " +
  "calls of the bound functions. Non-trivial: more than five messages compared, or a program of at least three operators; distinct by types, wiring and operations.";

let rtbot, addon;
const ORDER = { TimeShift: ["dt", "times"], Function: ["points", "interpolationType"] };
const IDS = ["a", "b", "in1", "x y", "caf\u00e9", "q\"uote", "\u4e2d", "op:1", "A-1", "z", "0", "back\\slash"];

class TwinRefused extends Error {}
function twin(cmd, arg = "", rest = "") {
  const out = JSON.parse(addon.twin(`${cmd} ${arg}\n${rest}`));
  if (out && out.refused !== undefined && Object.keys(out).length === 1) throw new TwinRefused(out.refused);
  if (out && out.broken !== undefined && Object.keys(out).length === 1) throw new Error(out.broken);
  return out;
}
const plain = (x) => JSON.parse(JSON.stringify(x));
const text = (x) => JSON.stringify(x).slice(0, 900);
// values: non-finite ones are all one, JSON cannot tell them apart
const same = (a, b) => (Number.isFinite(a) && Number.isFinite(b) ? a === b : !Number.isFinite(a) && !Number.isFinite(b));

// the description without what belongs to the object
function description(p) {
  const { programId, defaultPort, ...rest } = p;
  return rest;
}

function classArgs(d) {
  const names = ORDER[d.type] ?? Object.keys(d).filter((k) => !["type", "id", "metadata"].includes(k));
  const args = [d.id, ...names.map((n) => d[n])];
  while (args.length > 1 && args[args.length - 1] === undefined) args.pop();
  return args;
}
function make(c, d) {
  const cls = rtbot[d.type];
  if (!cls) c.fail("class", "there is no class " + d.type);
  let op;
  try {
    op = new cls(...classArgs(d));
  } catch (e) {
    c.fail("operator refused", `${text(d)} is refused: ${e.message.slice(0, 600)}`);
  }
  if (!isDeepStrictEqual(plain(op), plain(d))) c.fail("operator", `${text(d)} has become ${text(op)}`);
  c.count("operators_made");
  return op;
}
function spoil(r, d) {
  const names = ORDER[d.type] ?? Object.keys(d).filter((k) => !["type", "id", "metadata"].includes(k));
  const present = names.filter((n) => d[n] !== undefined);
  if (!present.length) return undefined;
  const k = r.pick(present);
  const bad = { ...d };
  if (k === "interpolationType") bad[k] = r.pick(["cubic", 3, null]);
  else if (k === "points") bad[k] = r.pick([[], [[1, 2]], [[1, 2, 3], [4, 5, 6]], "no", undefined]);
  else if (k === "coeff") bad[k] = r.pick(["no", 5, [1, "2", 3], [null, 1]]);
  else if (["n", "dt", "interval", "numPorts", "times"].includes(k) && d.type !== "StandardDeviation" && r.chance(0.5)) bad[k] = 2.5;
  else if (k === "numPorts" && r.chance(0.5)) bad[k] = d.type === "Join" ? 1 : 0;
  else bad[k] = r.pick(["5", null, [1], {}, true]);
  return bad;
}
function refuses(c, what, f) {
  try {
    f();
  } catch (e) {
    c.count("refusals");
    return;
  }
  c.fail("not refused", what + " is not refused");
}
async function rejects(c, what, f) {
  try {
    await f();
  } catch (e) {
    c.count("refusals");
    return;
  }
  c.fail("not refused", what + " is not refused");
}

// ---- editing ----
class Edited {
  constructor(c) {
    const r = c.rng;
    const pick = (l) => (r.chance(0.5) ? r.pick(l) : undefined);
    this.meta = {
      title: pick(["t", "A \"title\"", "\u00e4"]), description: pick(["d", "line\nbreak"]), date: pick(["2000-01-01", "2024-02-29"]),
      author: pick(["Someone <a@b.c>"]), license: pick(["MIT"]),
    };
    this.entry = pick(IDS);
    const m = this.meta;
    this.p = new rtbot.Program(this.entry, m.title, m.description, m.date, m.author, m.license);
    this.ops = [];
    this.conns = [];
    this.objects = [];
  }
  expected() {
    return plain({ ...this.meta, apiVersion: "v1", entryOperator: this.entry, operators: this.ops, connections: this.conns });
  }
  check(c, what) {
    const want = this.expected();
    for (const [how, got] of [["toPlain", plain(this.p.toPlain())], ["JSON.stringify", plain(this.p)]]) {
      if (!isDeepStrictEqual(description(got), want)) c.fail("description", `after ${what}: ${how} gives ${text(got)} instead of ${text(want)}`);
      if (got.programId !== this.p.programId) c.fail("description", `after ${what}: ${how} gives another programId`);
    }
    c.count("descriptions_compared");
  }
}
function editing(c) {
  const r = c.rng;
  const live = [];
  for (let n = 1 + r.below(3); n > 0; n--) live.push(new Edited(c));
  const steps = [];
  const ports = () => [r.pick(["o1", "o2", "o11"]), r.pick(["i1", "i2", "c1", "i12"])];
  for (let n = 5 + r.below(30); n > 0; n--) {
    const b = r.pick(live);
    const k = r.unit();
    const free = IDS.filter((i) => !b.ops.some((o) => o.id === i));
    let what = "";
    if (k < 0.3 && free.length) {
      const d = twin("op", r.seed());
      d.id = r.pick(free);
      what = "adding " + text(d);
      const op = make(c, d);
      if (r.chance(0.2)) {
        op.metadata = { plot: { id: "p", mark: { color: "red", size: 3 } } };
        d.metadata = plain(op.metadata);
      }
      b.p.addOperator(op);
      b.ops.push(d);
      b.objects.push(op);
      if (d.type === "Input") b.entry = d.id;
      steps.push(d.type);
    } else if (k < 0.55 && b.objects.length) {
      const f = r.pick(b.objects), t = r.pick(b.objects);
      let [fp, tp] = ports();
      const form = r.below(3);
      if (form === 0) [fp, tp] = ["o1", "i1"];
      if (form === 1) tp = "i1";
      what = `connecting ${f.id}:${fp} and ${t.id}:${tp}`;
      const known = b.conns.some((x) => x.from === f.id && x.to === t.id && x.fromPort === fp && x.toPort === tp);
      const go = () => (form === 0 ? b.p.addConnection(f, t) : form === 1 ? b.p.addConnection(f, t, fp) : b.p.addConnection(f, t, fp, tp));
      c.about = what;
      if (known) {
        refuses(c, what + " again", go);
      } else {
        try {
          go();
        } catch (e) {
          c.fail("refused", `${what} raises ${e.message}`);
        }
        b.conns.push({ from: f.id, to: t.id, fromPort: fp, toPort: tp });
      }
      steps.push("con" + form);
    } else if (k < 0.62 && free.length) {
      const d = twin("op", r.seed());
      d.id = r.pick(free);
      const other = make(c, d);
      const pair = [other, b.objects.length && r.chance(0.7) ? r.pick(b.objects) : other];
      r.shuffle(pair);
      what = `connecting ${pair[0].id} and ${pair[1].id}, one of them not added`;
      refuses(c, what, () => b.p.addConnection(pair[0], pair[1]));
      steps.push("badcon");
    } else if (k < 0.75 && b.conns.length) {
      const x = r.chance(0.7) ? r.pick(b.conns) : { from: r.pick(IDS), to: r.pick(IDS), fromPort: ports()[0], toPort: ports()[1] };
      const y = { ...x };
      if (r.chance(0.3)) y[r.pick(["fromPort", "toPort"])] = r.pick(["o2", "i2", "o1", "i1"]);
      const form = r.below(3);
      if (form === 0) [y.fromPort, y.toPort] = ["o1", "i1"];
      if (form === 1) y.toPort = "i1";
      what = "removing the connection " + text(y);
      if (form === 0) b.p.deleteConnection(y.from, y.to);
      else if (form === 1) b.p.deleteConnection(y.from, y.to, y.fromPort);
      else b.p.deleteConnection(y.from, y.to, y.fromPort, y.toPort);
      b.conns = b.conns.filter((z) => !(z.from === y.from && z.to === y.to && z.fromPort === y.fromPort && z.toPort === y.toPort));
      steps.push("del" + form);
    } else if (k < 0.83) {
      const id = r.chance(0.7) && b.ops.length ? r.pick(b.ops).id : r.pick(IDS);
      what = "removing the operator " + id;
      b.p.deleteOperator(id);
      b.ops = b.ops.filter((o) => o.id !== id);
      b.objects = b.objects.filter((o) => o.id !== id);
      b.conns = b.conns.filter((z) => z.from !== id && z.to !== id);
      // the entry of a removed operator is the user's to choose again
      b.entry = r.pick(IDS);
      b.p.entryOperator = b.entry;
      steps.push("delop");
    } else if (k < 0.93) {
      const bad = spoil(r, twin("op", r.seed()));
      if (!bad) continue;
      what = "making " + text(bad);
      c.about = what;
      refuses(c, what, () => new rtbot[bad.type](...classArgs(bad)));
      steps.push("badop");
    } else {
      b.entry = r.pick(IDS);
      what = "setting the entry";
      b.p.entryOperator = b.entry;
      steps.push("entry");
    }
    c.about = what;
    for (const o of live) o.check(c, what);
  }
  for (const b of live) {
    const want = b.expected();
    c.about = JSON.stringify(want);
    if (!b.p.safeValidate().success) c.fail("validate", `a valid program is refused: ${String(b.p.safeValidate().error).slice(0, 500)}`);
    try {
      b.p.validate();
      rtbot.Program.checkValid(JSON.stringify(b.p));
    } catch (e) {
      c.fail("validate", `a valid program is refused: ${e.message.slice(0, 500)}`);
    }
    const q = rtbot.Program.toInstance(plain(b.p));
    if (!(q instanceof rtbot.Program) || !isDeepStrictEqual(plain(q.toPlain()), plain(b.p.toPlain()))) c.fail("round trip", `${text(b.p)} has become ${text(q)}`);
    c.count("round_trips");
    // the copy is a program of its own
    if (b.conns.length) {
      const x = r.pick(b.conns);
      q.deleteConnection(x.from, x.to, x.fromPort, x.toPort);
      const less = b.conns.filter((z) => !isDeepStrictEqual(z, x));
      if (!isDeepStrictEqual(plain(q).connections, plain(less))) c.fail("description", "an edited copy holds " + text(plain(q).connections));
      b.check(c, "editing a copy");
    }
    if (b.ops.length) {
      const broken = plain(b.p);
      const o = r.pick(broken.operators);
      const bad = r.below(3) === 0 ? { ...o, type: "Nothing" } : spoil(r, o) ?? { ...o, id: 5 };
      Object.assign(o, bad);
      for (const k of Object.keys(o)) if (o[k] === undefined) delete o[k];
      c.about = JSON.stringify(broken);
      refuses(c, "a program with the operator " + text(o), () => rtbot.Program.checkValid(JSON.stringify(broken)));
    }
  }
  if (Math.max(...live.map((b) => b.ops.length)) > 2) c.nontrivial(steps);
}

// ---- running ----
const digits = (v) => (Object.is(v, -0) ? "-0" : String(v));
const lines = (row, ports) => ports.map((p, i) => `${p} ${row[0]} ${digits(row[i + 1])}\n`).join("");
// what the engine answers row by row; a text when it reports an error
function collected(ports, rows, id, json) {
  const out = [];
  twin("create", id, json);
  try {
    for (const row of rows) out.push(twin("debug", id, lines(row, ports)));
  } catch (e) {
    if (e instanceof TwinRefused) return e.message || "error";
    throw e;
  } finally {
    twin("remove", id);
  }
  return out;
}
function agreeRow(c, got, want, what) {
  let n = 0;
  const ids = new Set([...Object.keys(got), ...Object.keys(want)]);
  for (const id of ids) {
    const g = got[id] ?? {}, w = want[id] ?? {};
    for (const p of new Set([...Object.keys(g), ...Object.keys(w)])) {
      const a = g[p] ?? [], b = w[p] ?? [];
      if (a.length !== b.length || a.some((m, i) => m.time !== Number(b[i][0]) || !same(m.value, b[i][1])))
        c.fail("messages", `${what}: ${id}:${p} reports ${text(a)} instead of ${text(b)}`);
      n += b.length;
    }
  }
  return n;
}
function byClasses(c, d) {
  const p = new rtbot.Program(d.entryOperator);
  const made = {};
  for (const o of c.rng.shuffle([...d.operators])) {
    made[o.id] = make(c, o);
    p.addOperator(made[o.id]);
  }
  for (const k of d.connections) p.addConnection(made[k.from], made[k.to], k.fromPort, k.toPort);
  p.entryOperator = d.entryOperator;
  return p;
}
function gone(c, id, what) {
  if (addon.deleteProgram(id) !== "0") c.fail("left behind", `after ${what} the program is still there`);
}
async function running(c) {
  const r = c.rng;
  const x = twin("program", r.seed());
  const d = x.program, ports = x.ports;
  // the wasm module counts the time in 32 bits
  const base = Number(x.rows[0][0]) > 4000000000 ? BigInt(Math.min(...x.rows.map((q) => Number(q[0])))) : 0n;
  const rows = x.rows.map((q) => [Number(BigInt(q[0]) - base), ...q.slice(1)]);
  const json = JSON.stringify(d);
  c.about = `${json} over ${JSON.stringify(rows).slice(0, 3000)}`;
  c.sample(c.about);
  const want = collected(ports, rows, "t", json);
  const fails = typeof want === "string";
  const F = rtbot.RtBotRunOutputFormat;
  let n = 0;
  for (const format of [F.COLLAPSED, F.EXTENDED]) {
    let p;
    try {
      const form = r.below(3);
      p = form === 0 ? byClasses(c, d) : form === 1 ? rtbot.Program.toInstance(JSON.parse(json)) : JSON.stringify({ ...d, programId: "s" + c.caseNo + format });
    } catch (e) {
      if (e instanceof monitor.Violated) throw e;
      c.fail("refused", "the program cannot be built: " + e.message);
    }
    const id = typeof p === "string" ? JSON.parse(p).programId : p.programId;
    const table = rows.map((row) => [...row]);
    const seen = [];
    const run = new rtbot.RtBotRun(p, table, format, r.chance(0.5) ? (f) => seen.push(f) : undefined, r.chance(0.1));
    const before = typeof p === "string" ? "" : JSON.stringify(p);
    try {
      await run.run();
    } catch (e) {
      if (fails) {
        gone(c, id, "an error of the engine");
        c.count("errors_of_the_engine");
        continue;
      }
      c.fail("refused", "the run raises " + (e && e.message));
    }
    if (fails) c.fail("not refused", "the run returns although the engine reports " + want);
    gone(c, id, "the run");
    const out = run.getOutputs();
    if (format === F.EXTENDED) {
      if (out.length !== rows.length) c.fail("rows", `${out.length} outputs for ${rows.length} rows`);
      for (let i = 0; i < rows.length; i++) {
        const sent = Object.fromEntries(ports.map((q, k) => [q, [{ time: rows[i][0], value: rows[i][k + 1] }]]));
        if (!isDeepStrictEqual(plain(out[i].in), plain(sent))) c.fail("rows", `row ${i} is said to be ${text(out[i].in)}`);
        n += agreeRow(c, out[i].out, want[i], "row " + i);
      }
    } else {
      const columns = {};
      for (const row of want)
        for (const [o, pm] of Object.entries(row))
          for (const [q, ms] of Object.entries(pm))
            for (const [t, v] of ms) {
              const w = (columns[`${o}:${q}`] ??= [[], []]);
              w[0].push(Number(t));
              w[1].push(v);
            }
      const ids = Object.keys(out).filter((k) => out[k][0].length || out[k][1].length);
      if (!isDeepStrictEqual(ids.sort(), Object.keys(columns).sort())) c.fail("columns", `columns ${ids} instead of ${Object.keys(columns)}`);
      for (const [k, [t, v]] of Object.entries(columns)) {
        if (!isDeepStrictEqual(out[k][0], t)) c.fail("times", `${k} has the times ${text(out[k][0])} instead of ${text(t)}`);
        if (out[k][1].length !== v.length || !v.every((y, i) => same(y, out[k][1][i]))) c.fail("values", `${k} has the values ${text(out[k][1])} instead of ${text(v)}`);
        n += t.length;
      }
    }
    if (JSON.stringify(table) !== JSON.stringify(rows)) c.fail("changed", "the run has changed the table");
    if (before && JSON.stringify(p) !== before) c.fail("changed", "the run has changed the program");
    if (seen.some((f, i) => !(f >= 0 && f <= 1) || (i && f < seen[i - 1]))) c.fail("progress", "progress " + seen);
  }
  // message by message
  if (r.chance(0.5)) n += await started(c, d, ports, rows, json);
  if (r.chance(0.3)) {
    const q = plain(d);
    if (r.chance(0.5)) delete q.entryOperator;
    else q.operators[r.below(q.operators.length)].type = "Nothing";
    const run = new rtbot.RtBotRun(rtbot.Program.toInstance({ ...q, programId: "bad" + c.caseNo }), rows, F.COLLAPSED);
    await rejects(c, "running an ill-formed program", () => run.run());
    gone(c, "bad" + c.caseNo, "an ill-formed program");
  }
  if (r.chance(0.3) && !fails) {
    // a row that cannot be sent
    const table = rows.map((row) => [...row]);
    const k = r.below(table.length);
    table[k][r.chance(0.5) ? 0 : 1] = r.pick(["text", [1], {}]);
    const p = rtbot.Program.toInstance(JSON.parse(json));
    await rejects(c, `a table with the row ${text(table[k])}`, () => new rtbot.RtBotRun(p, table, F.EXTENDED).run());
    gone(c, p.programId, "a refused row");
    const again = new rtbot.RtBotRun(p, rows, F.EXTENDED);
    try {
      await again.run();
    } catch (e) {
      c.fail("refused", "after a refused row the run raises " + (e && e.message));
    }
    again.getOutputs().forEach((o, i) => agreeRow(c, o.out, want[i], "the run after a refused row at " + i));
    c.count("faulty_tables");
  }
  c.count("messages_compared", n);
  if (n > 5) c.nontrivial([d.operators.map((o) => o.type), d.connections]);
}
async function started(c, d, ports, rows, json) {
  const r = c.rng;
  let n = 0;
  const p = r.chance(0.5) ? byClasses(c, d) : rtbot.Program.toInstance(JSON.parse(json));
  twin("create", "s", json);
  try {
    await p.start();
    await rejects(c, "starting a program twice", () => p.start());
    outer: for (const row of rows) {
      for (let i = 0; i < ports.length; i++) {
        if (r.chance(0.1)) continue;
        const debug = r.chance(0.5);
        const port = i === 0 && r.chance(0.5) ? undefined : ports[i];
        let want;
        try {
          want = twin(debug ? "debug" : "regular", "s", `${ports[i]} ${row[0]} ${digits(row[i + 1])}\n`);
        } catch (e) {
          if (!(e instanceof TwinRefused)) throw e;
          await rejects(c, "a message where the engine reports " + e.message, () => (debug ? p.processMessageDebug(row[0], row[i + 1], port) : p.processMessage(row[0], row[i + 1], port)));
          break outer;
        }
        const got = debug ? await p.processMessageDebug(row[0], row[i + 1], port) : await p.processMessage(row[0], row[i + 1], port);
        n += agreeRow(c, got, want, `the message ${row[0]} of ${ports[i]}`);
      }
    }
    await p.stop();
    gone(c, p.programId, "stop");
    await rejects(c, "a message after stop", () => p.processMessage(1, 1, ports[0]));
  } catch (e) {
    if (e instanceof monitor.Violated) throw e;
    if (e && e.message && !(e instanceof TwinRefused)) c.fail("refused", "a started program raises " + e.message.slice(0, 500));
    throw e;
  } finally {
    twin("remove", "s");
    addon.deleteProgram(p.programId);
  }
  return n;
}

// ---- the bound functions ----
function bound(c) {
  const r = c.rng;
  const x = twin("program", r.seed() + " output");
  const d = x.program, ports = x.ports;
  const base = Number(x.rows[0][0]) > 4000000000 ? BigInt(Math.min(...x.rows.map((q) => Number(q[0])))) : 0n;
  const rows = x.rows.map((q) => [Number(BigInt(q[0]) - base), ...q.slice(1)]);
  const json = JSON.stringify(d), id = "b" + c.caseNo;
  c.about = `${json} over ${JSON.stringify(rows).slice(0, 3000)}`;
  let n = 0;
  twin("create", "t", json);
  try {
    const a = addon.createProgram(id, json);
    if (a !== "") c.fail("refused", "createProgram answers " + a);
    if (addon.getProgramEntryOperatorId(id) !== d.entryOperator) c.fail("entry", "the entry is " + addon.getProgramEntryOperatorId(id));
    if (!isDeepStrictEqual(JSON.parse(addon.getProgramEntryPorts(id)), ports)) c.fail("entry", "the ports are " + addon.getProgramEntryPorts(id));
    if (!isDeepStrictEqual(JSON.parse(addon.getProgramOutputFilter(id)) ?? {}, d.output ?? {})) c.fail("outputs", "the outputs are " + addon.getProgramOutputFilter(id));
    for (let at = 0; at < rows.length; ) {
      const some = rows.slice(at, at + 1 + r.below(4));
      at += some.length;
      const form = r.below(4), debug = form % 2 === 1;
      let want;
      const call = () => {
        if (form < 2) {
          for (const row of some) ports.forEach((q, i) => addon.addToMessageBuffer(id, q, row[0], row[i + 1]));
          return debug ? addon.processMessageBufferDebug(id) : addon.processMessageBuffer(id);
        }
        const times = [], values = [], names = [];
        for (const row of some) ports.forEach((q, i) => (times.push(row[0]), values.push(row[i + 1]), names.push(q)));
        return debug ? addon.processBatchDebug(id, times, values, names) : addon.processBatch(id, times, values, names);
      };
      try {
        want = twin(debug ? "debug" : "regular", "t", some.map((row) => lines(row, ports)).join(""));
      } catch (e) {
        if (!(e instanceof TwinRefused)) throw e;
        refuses(c, "rows where the engine reports " + e.message, call);
        break;
      }
      let got;
      try {
        got = call();
      } catch (e) {
        c.fail("refused", "a bound function raises " + e.message);
      }
      n += agreeRow(c, JSON.parse(got), want, "the row " + at);
    }
    refuses(c, "an unknown program", () => addon.processMessageBuffer("nobody"));
    if (addon.deleteProgram(id) !== "1" || addon.deleteProgram(id) !== "0") c.fail("delete", "deleteProgram does not answer 1 and then 0");
  } finally {
    twin("remove", "t");
    addon.deleteProgram(id);
  }
  if (JSON.parse(addon.validate(json)).valid !== true) c.fail("validate", "validate answers " + addon.validate(json));
  const o = r.pick(d.operators);
  if (JSON.parse(addon.validateOperator(o.type, JSON.stringify(o))).valid !== true) c.fail("validate", "validateOperator refuses " + text(o));
  if (JSON.parse(addon.validateOperator(o.type, "{}")).valid !== false) c.fail("validate", "validateOperator accepts {} as " + o.type);
  c.count("messages_compared", n);
  if (n > 5) c.nontrivial(["bound", d.operators.map((q) => q.type)]);
}

async function run(c) {
  if (!rtbot) {
    addon = require(process.env.RTBOT_ADDON);
    try {
      rtbot = require(process.env.RTBOT_JS);
    } catch (e) {
      c.fail("import", "the package cannot be loaded: " + e.stack.slice(0, 2000));
    }
  }
  const k = c.rng.unit();
  if (k < 0.35) editing(c);
  else if (k < 0.8) await running(c);
  else bound(c);
}

monitor.main("P24", 6000, 150000, RULE, run).then((code) => process.exit(code));
