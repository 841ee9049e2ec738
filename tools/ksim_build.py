"""Builds the simulator and the scenario executables from /repo's working tree, incrementally by content."""
import concurrent.futures, glob, hashlib, json, os, shlex, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KSIM_REPO", "/repo")
BUILD = os.environ.get("KSIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-20" if os.path.exists("/usr/bin/clang++-20") else "clang++"

SIM_FLAGS = ["-std=gnu++23", "-O2", "-g1", "-fPIC", "-fvisibility=hidden", "-I" + VERIF + "/sim"]
# Instrumented at compile time only: every access calls into the simulator, the tsan runtime is never linked.
CODE_FLAGS = ["-D_GNU_SOURCE", "-DNDEBUG", "-std=gnu++23", "-O1", "-gline-tables-only", "-fno-pie", "-fno-omit-frame-pointer", "-fsanitize=thread",
              "-mllvm", "-tsan-instrument-func-entry-exit=0", "-DKIO_SIM",
              "-include", VERIF + "/sim/cas.h", "-I" + VERIF + "/stubs", "-I" + VERIF + "/sim", "-I" + VERIF + "/scen", "-I" + REPO]

_hash_cache = {}
_lock = threading.Lock()


def file_hash(p):
    with _lock:
        if p in _hash_cache:
            return _hash_cache[p]
    try:
        h = hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hash_cache[p] = h
    return h


class BuildError(Exception):
    pass


def compile_one(src, obj, flags):
    dep, meta = obj + ".d", obj + ".json"
    cmd = [CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    ck = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        m = json.load(open(meta))
        if m["cmd"] == ck and all(file_hash(p) == h for p, h in m["deps"].items()):
            return False
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [os.path.abspath(d) for d in deps if not d.startswith("/usr/")]
    json.dump({"cmd": ck, "deps": {d: file_hash(d) for d in deps}}, open(meta, "w"))
    return True


def link(out, cmd, objs):
    meta = out + ".json"
    key = hashlib.sha256((" ".join(cmd) + "".join(file_hash_nocache(o) for o in objs)).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(meta) and json.load(open(meta)) == key:
        return
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (out, r.stdout[-6000:]))
    json.dump(key, open(meta, "w"))


def file_hash_nocache(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def build(exes):
    """exes: list of (name, repo sources, scenario sources, libs, extra flags). Returns {name: path}."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    jobs = {}
    for n in ("core", "mem", "pthread", "kernel", "runner"):
        jobs[BUILD + "/obj/sim_%s.o" % n] = (VERIF + "/sim/%s.cpp" % n, SIM_FLAGS)
    jobs[BUILD + "/obj/sim_main.o"] = (VERIF + "/sim/main.cpp", ["-std=gnu++23", "-O2", "-g1", "-fno-pie", "-I" + VERIF + "/sim"])
    exe_objs = {}
    for name, srcs, scens, libs, extra in exes:
        lst = []
        tag = hashlib.sha256(" ".join(extra).encode()).hexdigest()[:6] if extra else ""
        srcs = sorted(os.path.relpath(f, REPO) for s in srcs for f in glob.glob(REPO + "/" + s))
        for s in srcs:
            o = BUILD + "/obj/r_" + s.replace("/", "_") + tag + ".o"
            jobs[o] = (REPO + "/" + s, CODE_FLAGS + extra)
            lst.append(o)
        for s in scens:
            o = BUILD + "/obj/s_" + s.replace("/", "_") + tag + ".o"
            jobs[o] = (VERIF + "/scen/" + s, CODE_FLAGS + extra)
            lst.append(o)
        exe_objs[name] = lst
    # big ones first
    order = sorted(jobs.items(), key=lambda kv: -os.path.getsize(kv[1][0]) if os.path.exists(kv[1][0]) else 0)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(compile_one, src, obj, flags) for obj, (src, flags) in order]
        for f in fs:
            f.result()
    so = BUILD + "/libsim.so"
    sim_objs = [BUILD + "/obj/sim_%s.o" % n for n in ("core", "mem", "pthread", "kernel", "runner")]
    link(so, [CXX, "-shared", "-Wl,-Bsymbolic", "-Wl,--version-script=" + VERIF + "/sim/libsim.map", "-o", so] + sim_objs + ["-ldl"], sim_objs)
    res = {}
    for name, srcs, scens, libs, extra in exes:
        out = BUILD + "/x_" + name
        objs = [BUILD + "/obj/sim_main.o"] + exe_objs[name]
        link(out, [CXX, "-no-pie", "-rdynamic", "-o", out] + objs + ["-L" + BUILD, "-lsim", "-Wl,-rpath," + BUILD] + libs + ["-ldl"], objs + [so])
        res[name] = out
    return res
