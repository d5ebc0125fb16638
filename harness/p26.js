// P26: the command-line debugger (apps/cli). Oracle: the native engine (twin) fed with the numeric rows of the CSV file, and a model of
// what the table of the interactive view shows after any sequence of keys.
const { isDeepStrictEqual } = require("util");
const fs = require("fs");
const os = require("os");
const path = require("path");
const monitor = require("./monitor.js");

const RULE = "random programs of one entry port run by the debug command over CSV files (headings, empty, short, wide and non-numeric rows, quotes, both " +
  "kinds of line ends, scale factors, every combination of options), the printed or written rows compared with the engine's; the interactive view driven by " +
  "random keys, ticks and check boxes, its table compared after each with a model. Non-trivial: more than five messages compared or more than ten tables; " +
  "distinct by types, wiring and keys.";

let addon;
class TwinRefused extends Error {}
function twin(cmd, arg = "", rest = "") {
  const out = JSON.parse(addon.twin(`${cmd} ${arg}\n${rest}`));
  if (out && out.refused !== undefined && Object.keys(out).length === 1) throw new TwinRefused(out.refused);
  if (out && out.broken !== undefined && Object.keys(out).length === 1) throw new Error(out.broken);
  return out;
}
const text = (x) => String(JSON.stringify(x)).slice(0, 900);
const same = (a, b) => (Number.isFinite(a) && Number.isFinite(b) ? a === b : !Number.isFinite(a) && !Number.isFinite(b));
const digits = (v) => (Object.is(v, -0) ? "-0" : String(v));

class Exit extends Error {
  constructor(code) {
    super("exit " + code);
    this.code = code;
  }
}
// a fresh copy of the tool, as in a new process
function load() {
  delete require.cache[require.resolve(process.env.RTBOT_CLI)];
  return require(process.env.RTBOT_CLI);
}

function csvOf(r, rows, scale) {
  const lines = [];
  const numeric = [];
  const num = (v) => (r.chance(0.1) ? `"${v}"` : r.chance(0.1) ? ` ${v}` : r.chance(0.1) ? `${v} ` : `${v}`);
  if (r.chance(0.5)) lines.push(r.pick(["time,value", "t,v,comment", '"the time","the ""value"""', "time"]));
  for (const [t, v] of rows) {
    if (r.chance(0.05)) lines.push(r.pick(["", "#", "no,number", "5", ",5", "5,", "x,1", '"","2"', "1,none", ",,"]));
    // the file may give times in another unit
    const given = scale === 1 ? t : scale === 1000 ? t / 1000 : scale === 0.5 ? t * 2 : t;
    lines.push(num(given) + "," + num(digits(v)) + (r.chance(0.1) ? ",more" : ""));
    numeric.push([given, v]);
  }
  const nl = r.pick(["\n", "\r\n"]);
  return { text: lines.join(nl) + (r.chance(0.7) ? nl : ""), numeric };
}

async function invoke(cli, argv) {
  const printed = [], real = { log: console.log, error: console.error, exit: process.exit };
  console.log = (...a) => printed.push(a);
  console.error = (...a) => printed.push(a);
  process.exit = (code) => { throw new Exit(code); };
  let failure;
  try {
    const command = new cli.Command();
    cli.registerDebug(command);
    await command.parseAsync(["node", "rtbot", "debug", ...argv]);
  } catch (e) {
    failure = e;
  } finally {
    Object.assign(console, { log: real.log, error: real.error });
    process.exit = real.exit;
  }
  return { printed, failure };
}

// what the table has to show
function shown(d, want, selected, at) {
  const heads = [], ports = [];
  for (const o of d.operators) {
    if (!selected[o.id]) continue;
    const n = o.numPorts ?? (o.type === "Join" ? 2 : 1);
    for (let i = 1; i <= n; i++) {
      heads.push(n > 1 ? `${o.id}:o${i}` : o.id);
      ports.push([o.id, "o" + i]);
    }
  }
  const table = [["iter", ...heads]];
  if (at > 0)
    for (let i = at - 1; i < Math.min(at + 10, want.length); i++)
      table.push([String(i), ...ports.map(([o, p]) => {
        const ms = want[i][o]?.[p];
        return ms && ms.length ? ms.map(([t, v]) => [Number(t), v]) : "-";
      })]);
  return table;
}
function agreeTable(c, got, want, what) {
  if (got.length !== want.length) c.fail("table", `${what}: ${got.length} lines instead of ${want.length}: ${text(got)}`);
  for (let i = 0; i < want.length; i++) {
    if (got[i].length !== want[i].length) c.fail("table", `${what}: line ${i} is ${text(got[i])} instead of ${text(want[i])}`);
    for (let k = 0; k < want[i].length; k++) {
      const w = want[i][k], g = got[i][k];
      if (typeof w === "string") {
        if (g !== w) c.fail("table", `${what}: line ${i} column ${k} (${want[0][k]}) shows ${text(g)} instead of ${text(w)}`);
        continue;
      }
      // values are shown with two digits; how non-finite and huge ones are shown is left open
      const cells = typeof g === "string" ? [...g.matchAll(/\(([^,]*), ([^)]*)\)/g)] : [];
      const ok = cells.length === w.length && cells.map((m) => m[0]).join(", ") === g &&
        w.every(([t, v], n) => Number(cells[n][1]) === t && (!(Math.abs(v) < 1e300) || Math.abs(Number(cells[n][2]) - v) <= 0.005 + 1e-12 * Math.abs(v)));
      if (!ok) c.fail("table", `${what}: line ${i} column ${k} (${want[0][k]}) shows ${text(g)} instead of ${text(w)}`);
      c.count("cells_with_messages");
    }
  }
  c.count("tables_compared");
}

function view(c, cli, d, want, timers) {
  const r = c.rng;
  const made = cli.made;
  const screen = made.screens[made.screens.length - 1];
  const table = made.tables[made.tables.length - 1];
  if (!screen || !table) c.fail("view", "no screen or no table");
  const box = (id) => {
    const o = d.operators.find((x) => x.id === id);
    return made.checkboxes.filter((b) => b.options.text === `${id} [${o.type}]`).pop();
  };
  const selected = Object.fromEntries(d.operators.map((o) => [o.id, true]));
  let at = 0, ticking;
  const steps = [];
  agreeTable(c, table.data, shown(d, want, selected, at), "at first");
  for (let n = 3 + r.below(30); n > 0; n--) {
    const k = r.unit();
    let what;
    const press = (key) => {
      if (!screen.keys[key]) c.fail("view", "the key " + key + " does nothing");
      screen.keys[key]();
    };
    if (k < 0.4) {
      what = "right";
      press("right");
      at = Math.min(at + 1, want.length);
    } else if (k < 0.6) {
      what = "left";
      press("left");
      at = Math.max(at - 1, 0);
    } else if (k < 0.75) {
      what = r.pick(["p", "b", "s"]);
      press(what);
      ticking = what === "s" ? undefined : what;
            for (let q = 1 + r.below(12); q > 0; q--) {
        for (const f of [...timers.values()]) f();
        if (ticking === "p") at = Math.min(at + 1, want.length);
        if (ticking === "b") at = Math.max(at - 1, 0);
        agreeTable(c, table.data, shown(d, want, selected, at), `${steps.join(" ")} ${what} and a tick`);
      }
      what += "+ticks";
    } else {
      const o = r.pick(d.operators);
      const on = r.chance(0.4);
      what = (on ? "check " : "uncheck ") + o.id;
      const b = box(o.id);
      if (!b) c.fail("view", "no check box for " + o.id);
      b.fire(on ? "check" : "uncheck");
      selected[o.id] = on;
      if (box(o.id).options.checked !== on) c.fail("view", `after ${what} the box of ${o.id} is ${box(o.id).options.checked ? "" : "not "}checked`);
    }
    steps.push(what);
    c.about = `${JSON.stringify(d)} | keys: ${steps.join(" ")} | rows: ${text(want)}`;
    agreeTable(c, table.data, shown(d, want, selected, at), "after " + steps.join(" "));
  }
  // to the very end
  for (let q = 0; q < Math.min(40, want.length - at + 2); q++) {
    screen.keys.right();
    at = Math.min(at + 1, want.length);
    agreeTable(c, table.data, shown(d, want, selected, at), "moving on to " + at);
  }
  return steps;
}

async function run(c) {
  addon ??= require(process.env.RTBOT_ADDON);
  const r = c.rng;
  let x;
  do x = twin("program", r.seed()); while (x.ports.length !== 1);
  const d = { ...x.program, programId: "cli" + c.caseNo }, port = x.ports[0];
  const base = Number(x.rows[0][0]) > 4000000000 / 2 ? BigInt(Math.min(...x.rows.map((q) => Number(q[0])))) : 0n;
  let rows = x.rows.map((q) => [Number(BigInt(q[0]) - base), q[1]]);
  if (r.chance(0.3)) rows = rows.slice(0, 1 + r.below(15));
  const scale = r.pick([1, 1, 1000, 0.5]), factor = r.pick([1, 1, 1, 2, -0.5]);
  const csv = csvOf(r, rows, scale);
  const sent = csv.numeric.map(([t, v]) => [Math.round(scale * Number(String(t))), factor * Number(digits(v))]).filter(([t, v]) => !Number.isNaN(v));
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "cli-"));
  const file = (n) => path.join(dir, n);
  const timers = new Map(), real = { setInterval: global.setInterval, clearInterval: global.clearInterval, setTimeout: global.setTimeout };
  try {
    fs.writeFileSync(file("program.json"), r.chance(0.5) ? JSON.stringify(d) : JSON.stringify(d, null, 2));
    fs.writeFileSync(file("data.csv"), csv.text);
    c.about = `${JSON.stringify(d)} over ${JSON.stringify(csv.text).slice(0, 3000)} with the factors ${scale} and ${factor}`;
    c.sample(c.about);
    const want = [];
    let refused;
    twin("create", "t", JSON.stringify(d));
    try {
      for (const [t, v] of sent) want.push(twin("debug", "t", `${port} ${t} ${digits(v)}\n`));
    } catch (e) {
      if (!(e instanceof TwinRefused)) throw e;
      refused = e.message || "error";
    } finally {
      twin("remove", "t");
    }
    const argv = [file("program.json"), file("data.csv")];
    const verbose = r.chance(0.3), interactive = r.chance(0.4), out = !interactive && r.chance(0.5);
    if (scale !== 1 || r.chance(0.2)) argv.push(r.pick(["-st", "--scale-time-factor"]), String(scale));
    if (factor !== 1 || r.chance(0.2)) argv.push(...(r.chance(0.5) && factor > 0 ? ["-sv", String(factor)] : ["--scale-value-factor=" + factor]));
    if (verbose) argv.push(r.pick(["-v", "--verbose"]));
    if (interactive) argv.push(r.pick(["-i", "--interactive"]));
    if (out) argv.push(r.pick(["-o", "--output"]), file("out.json"));
    const cli = load();
    let timer = 0;
    global.setInterval = (f) => { timers.set(++timer, f); return timer; };
    global.clearInterval = (id) => { timers.delete(id); };
    global.setTimeout = (f, ms) => (ms === 100 ? 0 : real.setTimeout(f, ms));
    const spoilt = r.chance(0.1);
    if (spoilt) {
      const bad = JSON.parse(JSON.stringify(d));
      const how = r.below(3);
      if (how === 0) bad.operators[r.below(bad.operators.length)].type = "Nothing";
      else if (how === 1) delete bad.entryOperator;
      else bad.connections.push({ from: "nobody", to: bad.operators[0].id, fromPort: "o1", toPort: "i1" });
      fs.writeFileSync(file("program.json"), JSON.stringify(bad));
      c.about = "ill-formed: " + JSON.stringify(bad);
    }
    const { printed, failure } = await invoke(cli, argv);
    if (addon.deleteProgram(d.programId) !== "0") c.fail("left behind", "after the command the program is still there");
    if (spoilt || refused) {
      if (!failure) c.fail("not refused", spoilt ? "an ill-formed program is run" : "the command ends well although the engine reports " + refused);
      if (failure instanceof Exit && !failure.code) c.fail("not refused", "the command ends with the exit code " + failure.code);
      if (fs.existsSync(file("out.json"))) c.fail("not refused", "the output file is written although the run failed");
      c.count("refusals");
      return;
    }
    if (failure) c.fail("refused", "the command fails: " + (failure.stack || failure).toString().slice(0, 300) + "; it says " + printed.slice(-3).map((l) => l.map((y) => (y && y.stack) || y).join(" ").slice(0, 300)).join(" / "));
    let n = 0;
    if (interactive) {
      const steps = view(c, cli, d, want, timers);
      c.nontrivial([d.operators.map((o) => o.type), steps]);
      return;
    }
    let got;
    try {
      got = JSON.parse(out ? fs.readFileSync(file("out.json"), "utf8") : printed[printed.length - 1][0]);
    } catch (e) {
      c.fail("output", "the output is not JSON: " + e.message);
    }
    if (got.length !== want.length) c.fail("rows", `${got.length} rows are reported for ${want.length} numeric rows`);
    for (let i = 0; i < want.length; i++) {
      const m = got[i].in[port];
      if (Object.keys(got[i].in).length !== 1 || !m || m.length !== 1 || m[0].time !== sent[i][0] || !same(m[0].value ?? NaN, sent[i][1]))
        c.fail("rows", `row ${i} (${text(sent[i])}) is said to be ${text(got[i].in)}`);
      const g = got[i].out, w = want[i];
      for (const id of new Set([...Object.keys(g), ...Object.keys(w)]))
        for (const p of new Set([...Object.keys(g[id] ?? {}), ...Object.keys(w[id] ?? {})])) {
          const a = g[id]?.[p] ?? [], b = w[id]?.[p] ?? [];
          if (a.length !== b.length || a.some((y, k) => y.time !== Number(b[k][0]) || !same(y.value ?? NaN, b[k][1] ?? NaN)))
            c.fail("messages", `row ${i}: ${id}:${p} reports ${text(a)} instead of ${text(b)}`);
          n += b.length;
        }
    }
    c.count("rows_compared", want.length);
    c.count("messages_compared", n);
    if (n > 5) c.nontrivial([d.operators.map((o) => o.type), d.connections]);
  } finally {
    Object.assign(global, real);
    fs.rmSync(dir, { recursive: true, force: true });
  }
}

monitor.main("P26", 3000, 60000, RULE, run).then((code) => process.exit(code));
