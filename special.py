"""The properties whose workload is not a plain sanitized executable."""
RULES = {}
ASSUMPTIONS = {}


def P19(run, work):
    """the sanitized workload, and the same compiled for valgrind"""
    import shutil
    argv = run.native("P19", run.SAN)
    if shutil.which("valgrind"):
        flags = ["-gdwarf-4", "-DRTBOT_FOR_MEMCHECK"]
        exe = run.build(run.native_units("p19.cpp", flags), ["-lpthread"], "P19-memcheck")
        argv = ["env", "RTBOT_MEMCHECK=" + exe] + argv
    return argv


def P20(run, work):
    return run.native("P20", run.TSAN)


def generated(run, target):
    """directory with what the repository's generator makes of the operators' documentation"""
    import hashlib, os, shutil, subprocess
    h = hashlib.sha256(run.tree_hash().encode())
    roots = [os.path.join(run.REPO, "tools", "generator"), os.path.join(run.HERE, "harness", "standin")]
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = [x for x in ds if x not in ("node_modules", "__pycache__")]
            for f in sorted(fs):
                h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    out = os.path.join(run.CACHE, "gen-%s-%s" % (target, h.hexdigest()[:20]))
    if not os.path.exists(os.path.join(out, "complete")):
        tmp = out + ".%d.tmp" % os.getpid()
        os.makedirs(tmp)
        p = subprocess.run(["sh", os.path.join(run.HERE, "harness", "standin", "node", "gen.sh"), run.REPO, tmp, target],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        made = os.path.join(tmp, "out-" + target)
        if p.returncode or not os.listdir(made):
            raise run.CannotTell("the generator fails:\n" + p.stdout[-3000:])
        open(os.path.join(tmp, "complete"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return os.path.join(out, "out-" + target)


def text_api(run, san):
    """bindings.cpp with the generated schema and the stand-in for the validator"""
    import os
    made = generated(run, "cpp")
    inc = os.path.join(os.path.dirname(made), "include", "rtbot")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "jsonschema.hpp")
    if not os.path.exists(link):
        os.symlink(os.path.join(made, "jsonschema.hpp"), link)
    flags = ["-O1"] + list(san) + run.includes() + ["-I" + os.path.dirname(inc), "-I" + os.path.join(run.HERE, "harness", "standin")]
    return (os.path.join(run.REPO, "libs", "api", "src", "bindings.cpp"), flags, True)


def P22(run, work):
    san = run.SAN if run.TIER == "thorough" else run.PLAIN
    return run.native("P22", san, extra=[text_api(run, san)])


def shared_library(run, units, link, name):
    """like run.build, for something that is loaded"""
    return run.build(units, ["-shared", "-Wl,-Bsymbolic"] + link, name)


def library_units(run, extra):
    """the engine and the twin of it, position independent"""
    import os
    f = list(run.PLAIN) + ["-fPIC"]
    units = [run.warm_unit(f)]
    units += [(s, ["-O1"] + f, False) for s in run.H("base.cpp", "desc.cpp")]
    units += [(s, ["-O1"] + f + run.includes(), True) for s in run.H("engine.cpp", "twin.cpp")]
    units += [(s, ["-O0" if os.path.getsize(s) > 12000 else "-O1"] + f + run.includes(), True) for s in run.engine_sources()]
    src, flags, native = text_api(run, f)
    units.append((src, flags, native))
    return units + [(s, flags + list(more), True) for s, more in extra]


def place(work, files):
    import os, shutil
    for name, src in files.items():
        path = os.path.join(work, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        shutil.copyfile(src, path)


def P23(run, work):
    import os, sys, sysconfig
    run.FLAVOUR = "PLAIN"
    wrapper = os.path.join(run.REPO, "libs", "wrappers", "python")
    inc = [sysconfig.get_paths()["include"], "/usr/include/python%d.%d" % sys.version_info[:2]]
    inc = [i for i in inc if os.path.exists(os.path.join(i, "Python.h"))][:1]
    so = shared_library(run, library_units(run, [(os.path.join(wrapper, "rtbot.cpp"), ["-I" + i for i in inc])]), [], "P23")
    place(work, {"py/rtbot/__init__.py": os.path.join(wrapper, "rtbot.py"),
                 "py/rtbot/operators.py": os.path.join(generated(run, "python"), "jsonschema.py"),
                 "py/rtbot/rtbotapi.so": so})
    return ["env", "RTBOT_PY=" + os.path.join(work, "py"), sys.executable, os.path.join(run.HERE, "harness", "p23.py")]


def javascript(run, work):
    """the bindings as a native module, and the sources of the package"""
    import os
    run.FLAVOUR = "ASAN"  # node reserves more address space than the limit leaves
    wrapper = os.path.join(run.REPO, "libs", "wrappers", "javascript", "src")
    standin = os.path.join(run.HERE, "harness", "standin")
    more = ["-I" + standin, "-I/usr/include/node", "-include", "iostream"]
    addon = shared_library(run, library_units(run, [(os.path.join(run.REPO, "libs", "api", "wasm", "emscripten-bindings.cpp"), more),
                                                    (os.path.join(standin, "napi.cpp"), more)]), [], "P24")
    place(work, {"js/" + f: os.path.join(wrapper, f) for f in os.listdir(wrapper) if f.endswith(".ts") and not f.endswith(".spec.ts")})
    place(work, {"js/generated.ts": os.path.join(generated(run, "typescript"), "index.ts"), "rtbot.node": addon})
    return os.path.join(work, "js"), os.path.join(work, "rtbot.node")


def bundled(run, script, *args):
    import os, subprocess
    p = subprocess.run(["sh", os.path.join(run.HERE, "harness", "standin", "node", script)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise run.CannotTell("cannot bundle the package:\n" + p.stdout[-3000:])


def P24(run, work):
    import os, shutil
    src, addon = javascript(run, work)
    bundle = os.path.join(work, "bundle.js")
    bundled(run, "bundle.sh", src, bundle)
    return ["env", "RTBOT_ADDON=" + addon, "RTBOT_JS=" + bundle, shutil.which("node") or "node", os.path.join(run.HERE, "harness", "p24.js")]


def P26(run, work):
    import os, shutil
    src, addon = javascript(run, work)
    shutil.copytree(os.path.join(run.REPO, "apps", "cli", "src"), os.path.join(work, "cli"))
    entry = os.path.join(work, "cli", "watched.ts")
    with open(entry, "w") as f:
        f.write('export { registerDebug } from "./commands/debug";\nexport { Command } from "commander";\nexport { made } from "blessed";\n')
    bundle = os.path.join(work, "cli.js")
    bundled(run, "bundle_cli.sh", entry, src, bundle)
    return ["env", "RTBOT_ADDON=" + addon, "RTBOT_CLI=" + bundle, shutil.which("node") or "node", os.path.join(run.HERE, "harness", "p26.js")]


def P27(run, work):
    """the Rust sources with stand-ins for the crates that are not installed"""
    import fcntl, hashlib, os, shutil, subprocess
    run.FLAVOUR = "ASAN"  # threads with large stacks
    own = os.path.join(run.HERE, "harness", "rust")
    files = {}
    for d, ds, fs in os.walk(own):
        ds[:] = [x for x in ds if x != "target"]
        for f in fs:
            if f != "Cargo.lock":
                p = os.path.join(d, f)
                files[os.path.relpath(p, own)] = p
    files["src/pipelines_registry.rs"] = os.path.join(run.REPO, "apps", "rtbot-rs", "src", "pipelines_registry.rs")
    module = os.path.join(run.REPO, "apps", "redis-module", "src")
    for d, _, fs in os.walk(module):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".rs") and f != "lib.rs":
                files["src/" + os.path.relpath(p, module)] = p
    h = hashlib.sha256()
    for k in sorted(files):
        h.update(k.encode() + b"\0" + open(files[k], "rb").read() + b"\0")
    os.makedirs(run.CACHE, exist_ok=True)
    exe = os.path.join(run.CACHE, "P27-" + h.hexdigest()[:24])
    if os.path.exists(exe):
        return [exe]
    target = os.path.join(run.CACHE, "rust")
    with open(os.path.join(run.CACHE, "rust.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        package = os.path.join(target, "package")
        shutil.rmtree(package, ignore_errors=True)
        for k, p in files.items():
            os.makedirs(os.path.dirname(os.path.join(package, k)), exist_ok=True)
            shutil.copyfile(p, os.path.join(package, k))
        p = subprocess.run(["cargo", "build", "--offline", "--release", "--target-dir", os.path.join(target, "target")], cwd=package,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise run.CannotTell("cannot build the Rust sources:\n" + p.stdout[-6000:])
        tmp = exe + ".%d.tmp" % os.getpid()
        shutil.copy2(os.path.join(target, "target", "release", "p27"), tmp)
        os.replace(tmp, exe)
    return [exe]
