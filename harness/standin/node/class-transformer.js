// stands in for class-transformer 0.5: plain objects of instances and back, with properties excluded
const excluded = [];
exports.Exclude = () => (target, property) => { excluded.push([target.constructor, property]); };
const hidden = (value, key) => excluded.some(([c, p]) => p === key && value instanceof c);
const isObject = (v) => typeof v === "object" && v !== null;
function toPlain(v) {
  if (Array.isArray(v)) return v.map(toPlain);
  if (!isObject(v) || v instanceof Date) return v;
  const r = {};
  for (const k of Object.keys(v)) {
    if (k === "__proto__" || k === "constructor" || hidden(v, k)) continue;
    if (typeof v[k] === "function") continue;
    r[k] = toPlain(v[k]);
  }
  return r;
}
function copy(v) {
  if (Array.isArray(v)) return v.map(copy);
  if (!isObject(v) || v instanceof Date) return v;
  const r = {};
  for (const k of Object.keys(v)) if (k !== "__proto__" && k !== "constructor") r[k] = copy(v[k]);
  return r;
}
function toInstance(cls, plain) {
  if (Array.isArray(plain)) return plain.map((x) => toInstance(cls, x));
  if (!isObject(plain)) return plain;
  const r = new cls();
  for (const k of Object.keys(plain)) {
    if (k === "__proto__" || k === "constructor" || hidden(r, k)) continue;
    const d = Object.getOwnPropertyDescriptor(cls.prototype, k);
    if ((d && !d.set) || r[k] instanceof Function) continue;
    r[k] = copy(plain[k]);
  }
  return r;
}
exports.instanceToPlain = toPlain;
exports.plainToInstance = toInstance;
exports.plainToClass = toInstance;
exports.classToPlain = toPlain;
