#!/usr/bin/env python3
"""Builds what one property needs from /repo's working tree, runs its monitored workload on all cores and reports.

  run.py --property P01 [--tier quick|thorough] [--case N] [--replay FILE] [--scale X] [--shards N]

exit 0: held on everything explored; 1: VIOLATION lines; 2: the check itself could not give an answer.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RTBOT_REPO", "/repo")
CACHE = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, ".replay")
LIBS = ["core", "std", "finance", "api"]
sys.path.insert(0, HERE)

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
PLAIN = ["-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
TSAN = ["-fsanitize=thread"]
COMMON = ["-std=c++17", "-include", "string", "-w", "-gline-tables-only"]


class CannotTell(Exception):
    pass


def includes():
    return ["-I" + os.path.join(REPO, "libs", l, "include") for l in LIBS] + \
           ["-I" + os.path.join(REPO, "libs", "core", "include", "rtbot")]


def engine_sources():
    r = []
    for l in LIBS:
        r += sorted(glob.glob(os.path.join(REPO, "libs", l, "src", "*.cpp")))
    return [s for s in r if os.path.basename(s) != "bindings.cpp"]


_tree = None
FLAVOUR = "ASAN"  # PLAIN: no sanitizer runtime, the address space can be limited
TIER = "quick"


def tree_hash():
    """everything of the engine a translation unit may include"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for l in LIBS:
            for d, _, fs in sorted(os.walk(os.path.join(REPO, "libs", l))):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".cpp", ".ipp", ".inl", ".md")):
                        p = os.path.join(d, f)
                        h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
        _tree = h.hexdigest()
    return _tree


def harness_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(HERE, "harness", "*.h"))):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def compile_one(src, flags, native, cxx="clang++"):
    """native: the unit sees the engine's headers"""
    key = hashlib.sha256("\0".join([open(src).read(), src, cxx, " ".join(flags), harness_hash() if src.startswith(HERE) else "",
                                    tree_hash() if native else ""]).encode()).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run([cxx] + COMMON + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CannotTell("cannot compile %s:\n%s" % (src, p.stdout[-6000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(units, link, name):
    """units: (source, flags, native, [compiler])"""
    units = list(units)

    def one(u):
        try:
            return compile_one(*u)
        except CannotTell:
            if "/warm-" in u[0]:
                return None
            raise

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = [o for o in ex.map(one, units) if o]
    key = hashlib.sha256(" ".join(objs + link).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, name + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run(["clang++"] + objs + link + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise CannotTell("cannot link %s:\n%s" % (name, p.stdout[-6000:]))
        os.replace(tmp, exe)
    return exe


def trim_cache(limit=3 << 30):
    try:
        fs = sorted((os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(CACHE, "*")) if os.path.isfile(p))
        total = sum(f[1] for f in fs)
        for _, size, p in fs:
            if total < limit:
                break
            os.unlink(p)
            total -= size
    except OSError:
        pass


WARM = None


def warm_unit(flags):
    """The operators once more, optimised. The engine's sources are compiled without optimisation, which takes a third of the
    time; the linker keeps the first copy of each operator, this one. Only speed depends on it: without it the rest suffices."""
    names, incs = [], []
    for l in ("core", "std", "finance"):
        root = os.path.join(REPO, "libs", l, "include")
        for h in sorted(glob.glob(os.path.join(root, "**", "*.h"), recursive=True)):
            text = open(h, errors="replace").read()
            incs.append(os.path.relpath(h, root))
            for m in re.finditer(r"template\s*<\s*(?:class|typename)\s+T\s*,\s*(?:class|typename)\s+V\s*>\s*(?:class|struct)\s+(\w+)", text):
                names.append(m.group(1))
    src = "#include <cstdint>\n" + "".join('#include "%s"\n' % i for i in incs)
    src += "".join("template class rtbot::%s<uint64_t, double>;\n" % n for n in dict.fromkeys(names))
    os.makedirs(CACHE, exist_ok=True)
    path = os.path.join(CACHE, "warm-%s.cpp" % hashlib.sha256(src.encode()).hexdigest()[:16])
    tmp = path + ".%d.tmp" % os.getpid()
    open(tmp, "w").write(src)
    os.replace(tmp, path)
    return (path, ["-O1"] + flags + includes(), True)


def H(*names):
    return [os.path.join(HERE, "harness", n) for n in names]


def native_units(module, san=PLAIN, extra=(), opt_engine="-O0", extra_flags=()):
    f = list(san) + list(extra_flags)
    units = [warm_unit(f)] if opt_engine == "-O0" else []
    units += [(s, ["-O1"] + f, False) for s in H("base.cpp", "desc.cpp", "model.cpp", "watch.cpp", "main.cpp")]
    units += [(s, ["-O1"] + f + includes(), True) for s in H("engine.cpp")]
    units += [(os.path.join(HERE, "harness", module), ["-O1"] + f + includes(), re.search(r"rtbot/|rtbot::|native\.h", open(os.path.join(HERE, "harness", module)).read()) is not None)]
    units += [(s, [opt_engine if os.path.getsize(s) > 12000 else "-O1"] + f + includes(), True) for s in engine_sources()]
    units += list(extra)
    return units


# what these properties are about shows best under the memory sanitizers; the others meet them in the thorough tier
SANITIZED = {"P16", "P18", "P19"}


def native(pid, san=None, **kw):
    global FLAVOUR
    san = san or (SAN if pid in SANITIZED or TIER == "thorough" else PLAIN)
    FLAVOUR = "PLAIN" if san is PLAIN else "ASAN"
    return [build(native_units(pid.lower() + ".cpp", san, **kw), list(san) + ["-lpthread"], pid)]


def command(pid, work):
    """argv of the workload of a property, freshly built"""
    import special
    if hasattr(special, pid):
        return getattr(special, pid)(sys.modules[__name__], work)
    return native(pid)


def sanitizer_env(work):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=6000:allocator_may_return_null=1:" \
        "max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=1:detect_container_overflow=1:malloc_context_size=12"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    e["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:history_size=4"
    sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
    if sym:
        e["ASAN_SYMBOLIZER_PATH"] = sym
        e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + sym
    e["MALLOC_PERTURB_"] = "190"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["TMPDIR"] = work
    return e


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Shard:
    def __init__(self, argv, opts, work, index, env):
        self.report = os.path.join(work, "report.%s" % index)
        self.errfile = os.path.join(work, "stderr.%s" % index)
        open(self.report, "w").close()
        self.argv = argv + opts + ["--report", self.report]
        self.err = open(self.errfile, "wb")
        self.proc = subprocess.Popen(self.argv, stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL, env=env, cwd=work, start_new_session=True,
                                     preexec_fn=limit_memory if "ASAN" not in env.get("RTBOT_FLAVOUR", "ASAN") else None)
        self.case = None
        self.since_wall = time.time()
        self.since_cpu = 0.0
        self.hung = False
        self.size = -1

    def cpu(self):
        try:
            f = open("/proc/%d/stat" % self.proc.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return self.since_cpu

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def poll(self, stall_cpu, stall_wall):
        if self.proc.poll() is not None:
            return True
        size = os.path.getsize(self.report)
        if size != self.size:
            self.size = size
            self.since_wall = time.time()
            self.since_cpu = self.cpu()
        elif self.cpu() - self.since_cpu > stall_cpu or time.time() - self.since_wall > stall_wall:
            self.hung = True
            self.kill()
            return True
        return False

    def result(self):
        self.err.close()
        r = {"violations": [], "broken": [], "counters": {}, "distinct": set(), "samples": [], "ran": 0, "done": False, "case": None, "slowest": []}
        for line in open(self.report, errors="replace"):
            line = line.rstrip("\n")
            k, _, rest = line.partition(" ")
            if k == "case":
                r["case"] = int(rest)
                r["ran"] += 1
            elif k == "violation":
                key, case, detail = rest.split("\t", 2)
                r["violations"].append((key, int(case), detail))
            elif k == "broken":
                r["broken"].append(rest)
            elif k == "count":
                n, v = rest.rsplit(" ", 1)
                r["counters"][n] = r["counters"].get(n, 0) + int(v)
            elif k == "distinct":
                r["distinct"].add(rest)
            elif k == "sample":
                r["samples"].append(rest)
            elif k == "slowest":
                r["slowest"].append(rest)
            elif k == "done":
                r["done"] = True
        r["stderr"] = open(self.errfile, errors="replace").read()
        r["rc"] = self.proc.returncode
        r["hung"] = self.hung
        return r


def crash_summary(text):
    lines = text.splitlines()
    for l in lines:
        if l.startswith("SUMMARY:") or "runtime error:" in l or "hard rss limit" in l or l.startswith("terminate called") or "Assertion" in l:
            return re.sub(r"0x[0-9a-f]+", "0x..", l.strip())[:400]
    return (lines[-1][:400] if lines else "no message")


def witness(text):
    i = max(text.find("ERROR: "), 0)
    j = text.find("runtime error")
    if j >= 0:
        i = max(0, j - 200)
    k = text.find("WARNING: ThreadSanitizer")
    if k >= 0:
        i = k
    return text[i:i + 6000]


def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        j = json.load(open(a.replay))
        a.property, a.tier, seed, a.case = j["property"], j["tier"], j["seed"], j["case"]
    pid = a.property
    global TIER
    TIER = a.tier
    began = time.time()
    work = tempfile.mkdtemp(prefix="rtbot-verif-")
    try:
        code = check(pid, a, seed, began, work)
    except CannotTell as e:
        print("CANNOT TELL property=%s: %s" % (pid, e))
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        trim_cache()
    sys.exit(code)


def check(pid, a, seed, began, work):
    argv = command(pid, work)
    built = time.time() - began
    env = sanitizer_env(work)
    env["RTBOT_FLAVOUR"] = FLAVOUR
    thorough = a.tier == "thorough"
    limit = 6 * 3600 if thorough else 600  # of the workload, wall seconds
    opts = ["--seed", str(seed), "--tier", a.tier, "--scale", str(a.scale)]
    single = a.case is not None and a.case >= 0
    shards = 1 if single else (a.shards or os.cpu_count() or 4)
    running = {}
    for i in range(shards):
        o = opts + (["--case", str(a.case)] if single else ["--shard", str(i), "--shards", str(shards)])
        running[i] = Shard(argv, o, work, i, env)
    pending = dict(running)
    stopped_early = False
    try:
        while pending:
            time.sleep(0.05)
            for i, s in list(pending.items()):
                if s.poll(40 if not thorough else 600, 240 if not thorough else 1200):
                    del pending[i]
            if time.time() - began > limit + built and pending:
                stopped_early = True
                for s in pending.values():
                    s.kill()
                break
    except BaseException:
        for s in pending.values():
            s.kill()
        raise
    results = {i: s.result() for i, s in running.items()}
    counters, distinct, samples, violations, ran = {}, set(), [], [], 0
    broken = []
    for i, r in results.items():
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        distinct |= r["distinct"]
        samples += r["samples"]
        ran += r["ran"]
        broken += r["broken"]
        for v in r["violations"]:
            violations.append(v)
        if a.verbose:
            print("shard", i, "ran", r["ran"], "slowest", r["slowest"])
        if r["done"] or r["broken"] or (stopped_early and r["rc"] == -9):
            continue
        case = r["case"]
        if r["hung"] and any(v[0] == "hang" for v in violations):
            continue
        if r["hung"]:
            # once more alone and with more patience, so that a busy machine is no alarm
            s = Shard(argv, opts + ["--case", str(case)], work, "again%d" % i, env)
            while not s.poll(80, 400):
                time.sleep(0.2)
            q = s.result()
            violations += q["violations"]
            if q["hung"]:
                violations.append(("hang", case, "the operation does not return (stopped after 80 s of CPU time)"))
            elif not q["done"]:
                r = q
            else:
                counters["slow_cases_repeated"] = counters.get("slow_cases_repeated", 0) + 1
                continue
            if q["hung"]:
                continue
        if r["done"]:
            continue
        if case is None or r["rc"] in (8, 9):
            broken.append("shard %d ended with %s: %s" % (i, r["rc"], r["stderr"][-1500:]))
        elif r["rc"] == -9:
            broken.append("shard %d was killed during case %d" % (i, case))
        else:
            violations.append(("crash", case, "%s (exit %s) || %s" % (crash_summary(r["stderr"]), r["rc"], witness(r["stderr"]))))

    known = known_findings()
    fresh, seen_known = [], {}
    for key, case, detail in violations:
        hit = [k for k in known if k[0] == pid and k[1] == key]
        if hit:
            seen_known[key] = hit[0][2]
        else:
            fresh.append((key, case, detail))
    for p, key, what in known:
        if p == pid:
            print("KNOWN-FINDING: property=%s %s%s" % (pid, what, "" if key in seen_known else " (not met in this run)"))
    os.makedirs(REPLAYS, exist_ok=True)
    fresh.sort(key=lambda v: v[1])
    shown = set()
    for key, case, detail in fresh:
        if key in shown and len(shown) >= 1:
            continue
        shown.add(key)
        path = os.path.join(REPLAYS, "%s-%s-%d-%d.json" % (pid, a.tier, seed, case))
        json.dump({"property": pid, "tier": a.tier, "seed": seed, "case": case, "key": key, "detail": detail,
                   "command": "VERIF_SEED=%d python3 %s --property %s --tier %s --case %d" % (seed, os.path.join(HERE, "run.py"), pid, a.tier, case)},
                  open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s in case %d: %s" % (key, case, detail[:1200].replace("\\n", "\n    ")))
    if not single:
        import special
        ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
              "coverage": {"evaluations": ran, "distinct_nontrivial": len(distinct), "rule": special.RULES.get(pid) or rule_of(argv, env, work),
                           "samples": [s[:1500] for s in samples[:4]], "observed": counters,
                           "build_s": round(built, 1), "processes": shards, "stopped_early": stopped_early},
              "assumptions": special.ASSUMPTIONS.get(pid, []),
              "wall_s": round(time.time() - began, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, sort_keys=True)
    print("%s %s: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)%s" % (pid, a.tier, ran, len(distinct), time.time() - began, built, ", stopped early" if stopped_early else ""))
    if fresh:
        return 1
    if broken:
        print("CANNOT TELL property=%s: %s" % (pid, "; ".join(broken)[:3000]))
        return 2
    if not single and ran == 0:
        print("CANNOT TELL property=%s: nothing ran" % pid)
        return 2
    return 0


def rule_of(argv, env, work):
    p = subprocess.run(argv + ["--rule", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=work)
    return p.stdout.strip()


if __name__ == "__main__":
    main()
