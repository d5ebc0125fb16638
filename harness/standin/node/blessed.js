// stands in for blessed: elements that remember what they were given
const made = { screens: [], tables: [], checkboxes: [], rendered: 0 };
class Element {
  constructor(options) { this.options = options ?? {}; this.children = []; this.handlers = {}; this.options.parent?.children.push(this); }
  append(e) { this.children.push(e); }
  on(event, f) { (this.handlers[event] ??= []).push(f); }
  fire(event) { (this.handlers[event] ?? []).forEach((f) => f()); }
}
exports.made = made;
exports.screen = (o) => {
  const s = new Element(o);
  s.keys = {};
  s.key = (names, f) => { for (const n of names) s.keys[n] = f; };
  s.log = () => {};
  s.render = () => { made.rendered++; };
  made.screens.push(s);
  return s;
};
exports.box = (o) => new Element(o);
exports.form = (o) => new Element(o);
exports.listtable = (o) => {
  const t = new Element(o);
  t.setData = (d) => { t.data = d; };
  made.tables.push(t);
  return t;
};
exports.checkbox = (o) => {
  const b = new Element(o);
  made.checkboxes.push(b);
  return b;
};
