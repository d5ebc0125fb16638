// The report protocol of main.cpp for workloads written in JavaScript.
const fs = require("fs");
const crypto = require("crypto");

class Violated extends Error {
  constructor(key, detail) {
    super(detail);
    this.key = key;
  }
}
class Rng {
  constructor(text) {
    this.s = crypto.createHash("sha256").update(text).digest().readBigUInt64LE(0);
  }
  next() {
    const m = (1n << 64n) - 1n;
    this.s = (this.s + 0x9e3779b97f4a7c15n) & m;
    let z = this.s;
    z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & m;
    z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & m;
    return z ^ (z >> 31n);
  }
  seed() { return (this.next() >> 1n).toString(); }
  unit() { return Number(this.next() >> 11n) / 9007199254740992; }
  below(n) { return Math.floor(this.unit() * n); }
  chance(p) { return this.unit() < p; }
  pick(a) { return a[this.below(a.length)]; }
  shuffle(a) {
    for (let i = a.length; i > 1; i--) {
      const k = this.below(i);
      [a[i - 1], a[k]] = [a[k], a[i - 1]];
    }
    return a;
  }
}
class Ctx {
  constructor() {
    this.counters = {};
    this.distinct = new Set();
    this.samples = [];
  }
  begin(pid, seed, n, thorough) {
    this.caseNo = n;
    this.thorough = thorough;
    this.about = "";
    this.rng = new Rng(`${seed}:${pid}:${n}`);
  }
  count(name, n = 1) { this.counters[name] = (this.counters[name] ?? 0) + n; }
  nontrivial(x) { this.distinct.add(crypto.createHash("sha256").update(JSON.stringify(x)).digest("hex").slice(0, 16)); }
  sample(t) { if (this.samples.length < 2) this.samples.push(t.slice(0, 1500)); }
  fail(key, detail) { throw new Violated(key, detail); }
}
const line = (s, limit) => String(s).replace(/\n/g, "\\n").replace(/[\t\r]/g, " ").slice(0, limit);

async function main(pid, quick, thorough, rule, run) {
  const o = { seed: "1", shard: "0", shards: "1", case: "-1", from: "0", tier: "quick", scale: "1", report: "/dev/stdout" };
  const a = process.argv.slice(2);
  for (let i = 0; i + 1 < a.length; i += 2) {
    if (a[i] === "--rule") {
      fs.writeSync(1, rule + "\n");
      return 0;
    }
    o[a[i].slice(2)] = a[i + 1];
  }
  const f = fs.openSync(o.report, "a");
  const put = (s) => fs.writeSync(f, s + "\n");
  const deep = o.tier === "thorough";
  let cases = Math.floor((deep ? thorough : quick) * Number(o.scale));
  let shard = +o.shard, shards = +o.shards, first = +o.from;
  if (+o.case >= 0) {
    shard = 0;
    shards = 1;
    first = +o.case;
    cases = first + 1;
  }
  const c = new Ctx();
  let ran = 0, bad = 0, slowest = [0, 0];
  for (let n = first; n < cases; n++) {
    if (n % shards !== shard) continue;
    put(`case ${n}`);
    const began = Date.now();
    c.begin(pid, o.seed, n, deep);
    try {
      await run(c);
    } catch (e) {
      if (e instanceof Violated) {
        put(`violation ${line(e.key, 100)}\t${n}\t${line(e.message, 3000)} || ${line(c.about, 6000)}`);
        bad++;
      } else {
        put(`broken ${n}\t${line(e && e.stack, 4000)} || ${line(c.about, 3000)}`);
        return 8;
      }
    }
    const took = (Date.now() - began) / 1000;
    if (took > slowest[0]) slowest = [took, n];
    ran++;
    if (bad >= 5) break;
  }
  for (const [k, v] of Object.entries(c.counters)) put(`count ${k} ${v}`);
  for (const h of c.distinct) put(`distinct ${h}`);
  for (const s of c.samples) put(`sample ${line(s, 1500)}`);
  put(`slowest ${slowest[1]} ${slowest[0].toFixed(3)}`);
  put(`ran ${ran}`);
  put("done");
  return 0;
}
module.exports = { Violated, main };
