"""P23: the Python package (rtbot.py, the generated operators.py and the module made of rtbot.cpp). Oracle: a model of the
description that the building operations should give, and the native engine (twin_call) fed with the same rows."""
import copy, ctypes, json, math, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import monitor

RULE = ("several programs built side by side with every kind of operation, permitted or not, and compared after each with a model; random "
        "programs over all operator classes run over tables of rows, with faults in some rows, and calls of the module itself. Non-trivial: "
        "more than five messages compared, or a program of at least three operators; distinct by types, wiring and operations.")

DEFAULTS = {"Variable": {"value": 0}, "TimeShift": {"dt": 1, "times": 1}, "Function": {"interpolationType": "linear"},
            "Input": {"numPorts": 1}, "Output": {"numPorts": 1}, "Demultiplexer": {"numPorts": 1}, "Join": {"numPorts": 2}}


def load():
    global rtbot, api, operators, lib
    if "rtbot" in globals():
        return
    root = os.environ["RTBOT_PY"]
    lib = ctypes.CDLL(os.path.join(root, "rtbot", "rtbotapi.so"))
    lib.twin_call.restype = ctypes.c_char_p
    lib.twin_call.argtypes = [ctypes.c_char_p]
    sys.path.insert(0, root)
    try:
        import rtbot as r
        from rtbot import operators as o, rtbotapi as a
    except Exception as e:
        return "the package cannot be imported: %r" % e
    rtbot, api, operators = r, a, o


class TwinRefused(Exception):
    pass


def twin(cmd, arg="", rest=""):
    out = json.loads(lib.twin_call(("%s %s\n%s" % (cmd, arg, rest)).encode()).decode())
    if isinstance(out, dict) and "refused" in out and len(out) == 1:
        raise TwinRefused(out["refused"])
    if isinstance(out, dict) and "broken" in out and len(out) == 1:
        raise RuntimeError(out["broken"])
    return out


def seed64(r):
    return str(r.getrandbits(63))


def lines(row, ports):
    return "".join("%s %d %r\n" % (p, row[0], float(v)) for p, v in zip(ports, row[1:]))


def same(a, b):
    """values: non-finite ones are all one, JSON cannot tell them apart"""
    if a is None or b is None or not math.isfinite(a) or not math.isfinite(b):
        return (a is None or not math.isfinite(a)) and (b is None or not math.isfinite(b))
    return a == b


# ---- operators ----
def expected_op(d):
    e = dict(DEFAULTS.get(d["type"], {}))
    e.update(d)
    return e


def make(c, d):
    """an operator made of its class"""
    cls = getattr(operators, d["type"], None)
    if cls is None:
        c.fail("class", "there is no class " + d["type"])
    kw = {k: v for k, v in d.items() if k not in ("type", "id")}
    try:
        if len(kw) == 1 and d["type"] not in DEFAULTS and c.rng.random() < 0.5:
            op = cls(d["id"], list(kw.values())[0])
        elif c.rng.random() < 0.5:
            op = cls(d["id"], **kw)
        else:
            op = cls(id=d["id"], **kw)
    except Exception as e:
        c.fail("operator refused", "%s is refused: %r" % (json.dumps(d), e))
    got = json.loads(json.dumps(op))
    if got != expected_op(d):
        c.fail("operator", "%s has become %s" % (json.dumps(d), json.dumps(got)))
    c.count("operators_made")
    return op


def spoil(r, d):
    """parameters the schema rules out; None if the operator has none"""
    kw = {k: v for k, v in d.items() if k not in ("type", "id")}
    names = sorted(set(kw) | set(DEFAULTS.get(d["type"], {})))
    if not names:
        return None
    k = r.choice(names)
    bad = dict(kw)
    kind = r.randrange(3)
    if k == "interpolationType":
        bad[k] = r.choice(["cubic", 3, None])
    elif k == "points":
        bad[k] = r.choice([[], [[1, 2]], [[1, 2, 3], [4, 5, 6]], "no", None])
    elif k == "coeff":
        bad[k] = r.choice(["no", 5, [1, "2", 3], [None, 1]])
    elif kind == 0 and k not in DEFAULTS.get(d["type"], {}):
        del bad[k]
    elif k in ("n", "dt", "interval", "numPorts", "times") and d["type"] != "StandardDeviation" and kind == 1:
        bad[k] = 2.5
    elif k in ("numPorts", "interval") and kind == 2:
        bad[k] = -r.randrange(3) if k == "interval" or d["type"] != "Join" else 1
    else:
        bad[k] = r.choice(["5", None, [1], {}, True])
    return bad


IDS = ["a", "b", "in1", "x y", "caf\u00e9", "q\"uote", "\u4e2d", "op:1", "A-1", "z", "0", "back\\slash"]


# ---- building ----
class Built:
    def __init__(self, c):
        r = c.rng
        self.meta = {}
        for k in ("title", "description", "author", "license"):
            if r.random() < 0.5:
                self.meta[k] = r.choice(["t", "A title", "\u00e4\u00f6 \"q\"", "line\nbreak", "{}", " "])
        if r.random() < 0.4:
            self.meta["date"] = r.choice(["2000-01-01", "2024-02-29", "1999-12-31"])
        self.entry = r.choice(IDS) if r.random() < 0.4 else None
        kw = dict(self.meta)
        if self.entry is not None:
            kw["entryOperator"] = self.entry
        if r.random() < 0.3:
            kw["apiVersion"] = "v1"
        self.ops, self.conns = [], []
        self.p = rtbot.Program(**kw)

    def expected(self):
        e = {"apiVersion": "v1", "operators": self.ops, "connections": self.conns}
        e.update(self.meta)
        if self.entry is not None:
            e["entryOperator"] = self.entry
        return e

    def check(self, c, what):
        try:
            got = json.loads(self.p.toJson())
        except Exception as e:
            c.fail("description", "after %s: toJson raises %r" % (what, e))
        want = json.loads(json.dumps(self.expected()))
        if got != want:
            c.fail("description", "after %s: the description is %s instead of %s" % (what, json.dumps(got)[:900], json.dumps(want)[:900]))
        c.count("descriptions_compared")


def refuses(c, what, f):
    try:
        f()
    except Exception:
        c.count("refusals")
        return
    c.fail("not refused", what + " is not refused")


def building(c):
    r = c.rng
    live = [Built(c) for _ in range(r.randint(1, 3))]
    steps = []
    for _ in range(r.randint(5, 30)):
        b = r.choice(live)
        k = r.random()
        known = [o["id"] for o in b.ops]
        free = [i for i in IDS if i not in known]
        if k < 0.4 and free:
            d = twin("op", seed64(r))
            d["id"] = r.choice(free)
            what = "adding " + json.dumps(d)
            op = make(c, d)
            try:
                back = b.p.addOperator(op)
            except Exception as e:
                c.fail("refused", "%s raises %r" % (what, e))
            if back is not b.p:
                c.fail("chain", "addOperator does not return the program")
            b.ops.append(expected_op(d))
            steps.append(d["type"])
        elif k < 0.5 and known:
            d = twin("op", seed64(r))
            d["id"] = r.choice(known)
            what = "adding a second " + d["id"]
            op = make(c, d)
            refuses(c, what, lambda: b.p.addOperator(op))
            steps.append("dup")
        elif k < 0.75 and known:
            f, t = r.choice(known), r.choice(known)
            fp, tp = r.choice(["o1", "o2", "o11"]), r.choice(["i1", "i2", "c1", "i12"])
            form = r.randrange(4)
            what = "connecting %s:%s and %s:%s" % (f, fp, t, tp)
            try:
                if form == 0:
                    b.p.addConnection(f, t)
                    fp, tp = "o1", "i1"
                elif form == 1:
                    b.p.addConnection(f, t, fp)
                    tp = "i1"
                elif form == 2:
                    b.p.addConnection(f, t, toPort=tp)
                    fp = "o1"
                else:
                    b.p.addConnection(f, t, fp, tp)
            except Exception as e:
                c.fail("refused", "%s raises %r" % (what, e))
            b.conns.append({"from": f, "to": t, "fromPort": fp, "toPort": tp})
            steps.append("con%d" % form)
        elif k < 0.85 and free:
            pair = [r.choice(known or free), r.choice(free)]
            r.shuffle(pair)
            what = "connecting %s" % pair
            refuses(c, what, lambda: b.p.addConnection(pair[0], pair[1]))
            steps.append("badcon")
        elif k < 0.92:
            d = twin("op", seed64(r))
            bad = spoil(r, d)
            if bad is None:
                continue
            what = "%s with %s" % (d["type"], json.dumps(bad))
            c.about = what
            refuses(c, what, lambda: getattr(operators, d["type"])("fresh", **bad))
            if free and set(bad) >= set(k for k in d if k not in ("type", "id")):
                # changed after it was made
                good = make(c, dict(d, id=free[0]))
                for key, v in bad.items():
                    good[key] = v
                refuses(c, "adding " + what, lambda: b.p.addOperator(good))
            steps.append("badop")
        else:
            b.entry = r.choice(IDS)
            what = "setting the entry"
            b.p.entryOperator = b.entry
            steps.append("entry")
        c.about = what
        for o in live:
            o.check(c, what)
    for b in live:
        c.about = json.dumps(b.expected())
        if b.entry is None:
            v = b.p.validate()
            if v.get("valid") is not False:
                c.fail("validate", "a program without entry is valid")
            refuses(c, "parsing a program without entry", lambda: rtbot.parse(b.p.toJson()))
            continue
        v = b.p.validate()
        if v.get("valid") is not True:
            c.fail("validate", "validate answers %r" % v)
        text = b.p.toJson()
        try:
            q = rtbot.parse(text)
        except Exception as e:
            c.fail("parse", "its own output is refused: %r" % e)
        if json.loads(q.toJson()) != json.loads(text):
            c.fail("round trip", "%s has become %s" % (text[:900], q.toJson()[:900]))
        again = rtbot.parse(q.toJson())
        if json.loads(again.toJson()) != json.loads(text):
            c.fail("round trip", "the second time %s has become %s" % (text[:900], again.toJson()[:900]))
        c.count("round_trips")
        # the copy is a program of its own
        free = [i for i in IDS if i not in [o["id"] for o in b.ops]]
        if free:
            d = twin("op", seed64(r))
            d["id"] = free[0]
            q.addOperator(make(c, d))
            q.addConnection(free[0], free[0])
            b.check(c, "editing a copy")
            want = json.loads(json.dumps(b.expected()))
            want["operators"].append(expected_op(d))
            want["connections"].append({"from": free[0], "to": free[0], "fromPort": "o1", "toPort": "i1"})
            if json.loads(q.toJson()) != json.loads(json.dumps(want)):
                c.fail("description", "an edited copy is %s instead of %s" % (q.toJson()[:900], json.dumps(want)[:900]))
        diagram(c, b)
    if max(len(b.ops) for b in live) > 2:
        c.nontrivial(steps)
    fresh = rtbot.Program()
    if json.loads(fresh.toJson()) != {"apiVersion": "v1", "operators": [], "connections": []}:
        c.fail("description", "a new program is " + fresh.toJson()[:900])


def diagram(c, b):
    """the diagram names every connection once, in order"""
    if any('"' in x["id"] or "\n" in x["id"] for x in b.ops):
        return
    try:
        text = b.p.toMermaidJs()
    except Exception as e:
        c.fail("diagram", "toMermaidJs raises %r" % e)
    at = 0
    for k in b.conns:
        for part in (k["from"], "%s:%s" % (k["fromPort"], k["toPort"]), k["to"]):
            at = text.find(part, at)
            if at < 0:
                c.fail("diagram", "%s is missing in %s" % (json.dumps(k), text[:2000]))
            at += len(part)
    if text.count("-->") != len(b.conns):
        c.fail("diagram", "%d arrows for %d connections" % (text.count("-->"), len(b.conns)))


# ---- running ----
def by_classes(c, d):
    p = rtbot.Program(entryOperator=d["entryOperator"])
    ops = list(d["operators"])
    c.rng.shuffle(ops)
    for o in ops:
        p.addOperator(make(c, o))
    for k in d["connections"]:
        kw = {a: k[b] for a, b in (("fromPort", "fromPort"), ("toPort", "toPort")) if b in k}
        p.addConnection(k["from"], k["to"], **kw)
    return p


def collected(ports, rows, ident, text):
    """what the engine answers; a text when it reports an error"""
    want = {}
    twin("create", ident, text)
    try:
        for row in rows:
            try:
                for o, pm in twin("debug", ident, lines(row, ports)).items():
                    for q, ms in pm.items():
                        for t, v in ms:
                            w = want.setdefault("%s:%s" % (o, q), ([], []))
                            w[0].append(int(t))
                            w[1].append(v)
            except TwinRefused as e:
                return str(e)
    finally:
        twin("remove", ident)
    return want


def agree(c, got, want, what):
    seen = {k: v for k, v in got.items() if v["time"] or v["value"]}
    if set(seen) != set(want):
        c.fail("ports", "%s: messages of %s instead of %s" % (what, sorted(seen), sorted(want)))
    n = 0
    for k, (t, v) in want.items():
        g = seen[k]
        if list(g["time"]) != t:
            c.fail("times", "%s: %s has the times %s instead of %s" % (what, k, g["time"][:60], t[:60]))
        if len(g["value"]) != len(v) or not all(same(x, y) for x, y in zip(g["value"], v)):
            c.fail("values", "%s: %s has the values %s instead of %s" % (what, k, g["value"][:60], v[:60]))
        n += len(t)
    c.count("messages_compared", n)
    return n


def gone(c, p, what):
    if api.deleteProgram(p.id) != "0":
        c.fail("left behind", "after %s the program is still there" % what)


def running(c):
    r = c.rng
    x = twin("program", seed64(r) + " wide")
    d, ports = x["program"], x["ports"]
    rows = [[int(row[0])] + row[1:] for row in x["rows"]]
    text = json.dumps(d)
    c.about = "%s over %s" % (text, rows[:60])
    c.sample(c.about)
    try:
        p = by_classes(c, d) if r.random() < 0.5 else rtbot.parse(text)
    except monitor.Violated:
        raise
    except Exception as e:
        c.fail("refused", "the program cannot be built: %r" % e)
    for row in rows:  # some leave out the last ports
        if len(row) > 2 and r.random() < 0.1:
            del row[r.randrange(2, len(row)):]
    if r.random() < 0.3:
        rows = [[row[0]] + [int(v) if float(v).is_integer() and abs(v) < 1e15 else v for v in row[1:]] for row in rows]
    if r.random() < 0.2:
        rows = [tuple(row) for row in rows]
    want = collected(ports, rows, "t", text)
    before = p.toJson()
    n = 0
    for turn in range(2):
        table = copy.deepcopy(rows)
        if turn == 0 and r.random() < 0.4:
            # a row that cannot be sent
            k = r.randrange(len(table))
            row = list(table[k])
            kind = r.randrange(4)
            if kind == 0:
                row[r.randrange(1, len(row))] = "no number"
            elif kind == 1:
                row = [row[0]] + [1.0] * (len(ports) + 1)
            elif kind == 2:
                row[0] = -5
            else:
                row[r.randrange(0, len(row))] = None
            table[k] = row
            refuses(c, "a table with the row %r" % row, lambda: rtbot.Run(p, table).exec())
            gone(c, p, "a refused row")
            c.count("faulty_tables")
            continue
        try:
            got = rtbot.Run(p, table).exec()
        except Exception as e:
            if isinstance(want, str):
                gone(c, p, "an error of the engine")
                c.count("errors_of_the_engine")
                continue
            c.fail("refused", "the run raises %r" % e)
        if isinstance(want, str):
            c.fail("not refused", "the run returns although the engine reports " + want)
        gone(c, p, "the run")
        n += agree(c, got, want, "run %d" % turn)
        if table != rows:
            c.fail("changed", "the run has changed the table")
    if p.toJson() != before:
        c.fail("changed", "the run has changed the program")
    # a program that the schema rules out
    if r.random() < 0.2:
        q = rtbot.Program(operators=d["operators"], connections=d["connections"], date="2024-01-01")
        refuses(c, "running a program without entry", lambda: rtbot.Run(q, rows).exec())
        gone(c, q, "a refused program")
    if n > 5:
        c.nontrivial([[o["type"] for o in d["operators"]], [sorted(k.items()) for k in d["connections"]]])


# ---- the module itself ----
def module(c):
    r = c.rng
    x = twin("program", seed64(r) + " output wide")
    d, ports = x["program"], x["ports"]
    text = json.dumps(d)
    rows = [[int(row[0])] + row[1:] for row in x["rows"]]
    c.about = "%s over %s" % (text, rows[:60])
    ident = "m%d \u00e9" % c.case
    twin("create", "t", text)
    n = 0
    try:
        a = api.createProgram(ident, text)
        if a != "":
            c.fail("refused", "createProgram answers " + a)
        if api.getProgramEntryOperatorId(ident) != d["entryOperator"]:
            c.fail("entry", "the entry is " + api.getProgramEntryOperatorId(ident))
        if json.loads(api.getProgramEntryPorts(ident)) != ports:
            c.fail("entry", "the ports are " + api.getProgramEntryPorts(ident))
        if (json.loads(api.getProgramOutputFilter(ident)) or {}) != d.get("output", {}):
            c.fail("outputs", "the outputs are %s" % api.getProgramOutputFilter(ident))
        for row in rows:
            for p, v in zip(ports, row[1:]):
                if api.addToMessageBuffer(ident, p, row[0], v) != "1":
                    c.fail("buffer", "addToMessageBuffer does not answer 1")
            debug = r.random() < 0.5
            try:
                want = twin("debug" if debug else "regular", "t", lines(row, ports))
            except TwinRefused as e:
                refuses(c, "a row where the engine reports %s" % e, lambda: (api.processMessageBufferDebug if debug else api.processMessageBuffer)(ident))
                break
            got = json.loads((api.processMessageBufferDebug if debug else api.processMessageBuffer)(ident))
            plain = {o: {q: [(m["time"], m["value"]) for m in ms] for q, ms in pm.items()} for o, pm in got.items()}
            target = {o: {q: [(int(t), v) for t, v in ms] for q, ms in pm.items()} for o, pm in want.items()}
            for o in set(plain) | set(target):
                for q in set(plain.get(o, {})) | set(target.get(o, {})):
                    g, w = plain.get(o, {}).get(q, []), target.get(o, {}).get(q, [])
                    if len(g) != len(w) or not all(s[0] == t[0] and same(s[1], t[1]) for s, t in zip(g, w)):
                        c.fail("module", "%s:%s at %s reports %s instead of %s" % (o, q, row, g, w))
                    n += len(w)
        refuses(c, "a time below zero", lambda: api.addToMessageBuffer(ident, ports[0], -1, 0))
        refuses(c, "a fraction as time", lambda: api.addToMessageBuffer(ident, ports[0], 1.5, 0))
        refuses(c, "an unknown program", lambda: api.processMessageBuffer("nobody"))
        if api.deleteProgram(ident) != "1" or api.deleteProgram(ident) != "0":
            c.fail("delete", "deleteProgram does not answer 1 and then 0")
    finally:
        twin("remove", "t")
        api.deleteProgram(ident)
    good = api.validate(text)
    if json.loads(good) != {"valid": True}:
        c.fail("validate", "validate answers " + good)
    o = r.choice(d["operators"])
    if json.loads(api.validateOperator(o["type"], json.dumps(o))) != {"valid": True}:
        c.fail("validate", "validateOperator refuses %s" % json.dumps(o))
    if json.loads(api.validateOperator(o["type"], "{}"))["valid"] is not False:
        c.fail("validate", "validateOperator accepts {} as " + o["type"])
    c.count("messages_compared", n)
    if n > 5:
        c.nontrivial(["module", [o["type"] for o in d["operators"]]])


def run(c):
    trouble = load()
    if trouble:
        c.fail("import", trouble)
    k = c.rng.random()
    if k < 0.35:
        building(c)
    elif k < 0.8:
        running(c)
    else:
        module(c)


if __name__ == "__main__":
    sys.exit(monitor.main("P23", 5000, 120000, RULE, run))
