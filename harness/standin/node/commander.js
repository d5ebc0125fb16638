// stands in for commander 11: one level of subcommands with arguments and long or short options
class Command {
  constructor(name) {
    this._name = name;
    this._subs = [];
    this._args = [];
    this._opts = [];
  }
  name(n) { this._name = n; return this; }
  description() { return this; }
  version() { return this; }
  command(spec) {
    if (!/^\S+$/.test(spec)) throw new Error("stand-in: " + spec);
    const c = new Command(spec);
    this._subs.push(c);
    return c;
  }
  argument(spec) {
    const m = /^(\[?)<?(\w+)>?\]?$/.exec(spec);
    if (!m) throw new Error("stand-in: " + spec);
    this._args.push({ name: m[2], required: !m[1] });
    return this;
  }
  option(flags, _description, value) {
    const m = /^(?:(-\w+), )?(--([\w-]+))( <\w+>)?$/.exec(flags);
    if (!m) throw new Error("stand-in: " + flags);
    const key = m[3].replace(/-(.)/g, (_, ch) => ch.toUpperCase());
    this._opts.push({ short: m[1], long: m[2], key, takes: !!m[4], value });
    return this;
  }
  action(f) { this._action = f; return this; }
  async parseAsync(argv = process.argv) {
    const [, , sub, ...rest] = argv;
    const c = this._subs.find((s) => s._name === sub);
    if (!c) throw new Error("unknown command " + sub);
    const args = [], options = {};
    for (const o of c._opts) if (o.value !== undefined) options[o.key] = o.value;
    for (let i = 0; i < rest.length; i++) {
      const [flag, given] = rest[i].startsWith("--") && rest[i].includes("=") ? [rest[i].split("=")[0], rest[i].slice(rest[i].indexOf("=") + 1)] : [rest[i]];
      if (!/^-/.test(flag)) { args.push(flag); continue; }
      const o = c._opts.find((x) => x.short === flag || x.long === flag);
      if (!o) throw new Error("unknown option " + flag);
      options[o.key] = o.takes ? given ?? rest[++i] : true;
    }
    if (c._args.filter((a) => a.required).length > args.length) throw new Error("missing argument");
    await c._action(...c._args.map((_, i) => args[i]), options, c);
    return this;
  }
  parse(argv) { this.parseAsync(argv); return this; }
}
exports.Command = Command;
