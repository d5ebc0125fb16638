"""The report protocol of main.cpp for workloads written in Python."""
import hashlib, os, random, sys, time, traceback


class Violated(Exception):
    def __init__(self, key, detail):
        Exception.__init__(self, detail)
        self.key, self.detail = key, detail


class Ctx:
    def __init__(self):
        self.counters, self.distinct, self.samples = {}, set(), []

    def begin(self, pid, seed, case, thorough):
        self.case, self.seed, self.thorough, self.about = case, seed, thorough, ""
        self.rng = random.Random("%s:%d:%d" % (pid, seed, case))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def nontrivial(self, what):
        self.distinct.add(hashlib.sha256(repr(what).encode()).hexdigest()[:16])

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text[:1500])

    def fail(self, key, detail):
        raise Violated(key, detail)


def line(s, limit):
    return s.replace("\n", "\\n").replace("\t", " ").replace("\r", " ")[:limit].encode("utf-8", "replace").decode()


def main(pid, quick, thorough, rule, run):
    o = {"seed": "1", "shard": "0", "shards": "1", "case": "-1", "from": "0", "tier": "quick", "scale": "1", "report": "/dev/stdout"}
    a = sys.argv[1:]
    for k, v in zip(a[::2], a[1::2]):
        if k == "--rule":
            print(rule)
            return 0
        o[k[2:]] = v
    f = open(o["report"], "a", encoding="utf-8", errors="replace")
    if o["report"] != "/dev/stdout":
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)  # the engine prints when it refuses something
    deep = o["tier"] == "thorough"
    cases = int((thorough if deep else quick) * float(o["scale"]))
    shard, shards, only = int(o["shard"]), int(o["shards"]), int(o["case"])
    first = int(o["from"])
    if only >= 0:
        shard, shards, first, cases = 0, 1, only, only + 1
    c = Ctx()
    ran = bad = 0
    slowest = (0.0, 0)
    for n in range(first, cases):
        if n % shards != shard:
            continue
        f.write("case %d\n" % n)
        f.flush()
        began = time.time()
        c.begin(pid, int(o["seed"]), n, deep)
        try:
            run(c)
        except Violated as v:
            f.write("violation %s\t%d\t%s || %s\n" % (line(v.key, 100), n, line(v.detail, 3000), line(c.about, 6000)))
            f.flush()
            bad += 1
        except Exception:
            f.write("broken %d\t%s || %s\n" % (n, line(traceback.format_exc(), 4000), line(c.about, 3000)))
            f.flush()
            return 8
        slowest = max(slowest, (time.time() - began, n))
        ran += 1
        if bad >= 5:
            break
    for k, v in c.counters.items():
        f.write("count %s %d\n" % (k, v))
    for h in c.distinct:
        f.write("distinct %s\n" % h)
    for s in c.samples:
        f.write("sample %s\n" % line(s, 1500))
    f.write("slowest %d %.3f\nran %d\ndone\n" % (slowest[1], slowest[0], ran))
    f.close()
    return 0
