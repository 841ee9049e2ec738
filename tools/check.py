#!/usr/bin/env python3
"""Decides one property: builds, explores seeds, gates and minimises violations, writes evidence.

usage: check.py ID [--tier quick|thorough]
       check.py --replay FILE [--trace OUT]      re-executes a replay file (exit 1: reproduced)
       check.py --build-all
"""
import argparse, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ksim_build as kb
import config

VERIF = kb.VERIF
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    """Lines: 'known: property=ID match=/REGEX/ TEXT'. The regex is matched against 'CLASS | symbolized message'."""
    res = []
    if not os.path.exists(KNOWN):
        return res
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", line.strip())
        if m and m.group(1) == prop:
            res.append((re.compile(m.group(2)), m.group(3)))
    return res


def short(fn):
    """A function name without its template and parameter noise."""
    fn = re.sub(r"\(\.(resume|destroy|cleanup|actor)\)|\[clone[^\]]*\]", "", fn)
    out, depth = "", 0
    for c in fn:
        if c in "<({":
            depth += 1
        elif c in ">)}":
            depth -= 1
        elif depth == 0:
            out += c
    return re.sub(r"\s+", " ", out).strip()[-120:]


def symbolize(exe, text):
    pcs = sorted(set(re.findall(r"pc=0x([0-9a-f]+)", text)))
    table = {}
    tool = next((t for t in ("/usr/bin/llvm-symbolizer-20", "/usr/bin/llvm-symbolizer-18", "/usr/bin/llvm-symbolizer") if os.path.exists(t)), None)
    for pc in pcs:
        a = int(pc, 16) - 1
        frames = []
        try:
            if tool:
                r = subprocess.run([tool, "--obj=" + exe, "--demangle", "--output-style=LLVM", hex(a)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            else:
                r = subprocess.run(["addr2line", "-Cfipe", exe, hex(a)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            lines = [l for l in r.stdout.split("\n") if l.strip()]
            for i in range(0, len(lines) - 1, 2):
                frames.append((short(lines[i]), re.sub(r":\d+$", "", lines[i + 1]).replace(kb.REPO + "/", "").replace(VERIF + "/", "")))
        except Exception:
            pass
        # the innermost frame of the code under test or of a scenario, library frames skipped
        pick = next((f for f in frames if not f[1].startswith("/")), frames[0] if frames else ("?", "?"))
        table[pc] = "%s@%s" % pick
    return re.sub(r"pc=0x([0-9a-f]+)", lambda m: "[" + table.get(m.group(1), "?") + "]", text)


def run_exe(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)


def do_check(prop, tier):
    t0 = time.time()
    c = config.CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    known = load_known(prop)
    known_classes = set(c.get("known_classes", []))
    names = sorted({s[0] for s in c["scenarios"]})
    try:
        paths = kb.build([(n,) + tuple(config.EXES[n]) for n in names])
    except kb.BuildError as e:
        print(str(e))
        print("ERROR: cannot build the check for %s" % prop)
        return 2
    t_build = time.time() - t0
    cap_total = c.get("quick_s", 40) if tier == "quick" else c.get("thorough_s", 600)
    tot_w = sum(s[4] if len(s) > 4 else 1 for s in c["scenarios"])
    per = []
    samples = []
    faults, probes = {}, {}
    agg = dict(runs=0, nontrivial=0, distinct_nontrivial=0, distinct_schedules=0, steps=0, sim_us=0, switches=0, accesses=0, io_ops=0, determinism_checks=0, stale_reads=0, timeouts=0)
    violations, knowns, errors = [], {}, []
    explore_wall = 0.0
    for s in c["scenarios"]:
        exe, name, qn, tn = s[:4]
        cap = cap_total * (s[4] if len(s) > 4 else 1) / tot_w
        runs = qn if tier == "quick" else tn
        jf = os.path.join(OUT, "%s-%s.json" % (prop, name))
        cmd = [paths[exe], "--scenario", name, "--runs", str(runs), "--seed", str(seed), "--time", "%.1f" % cap, "--jobs", str(os.cpu_count() or 8), "--out", jf, "--max-viol", "3",
               "--det-every", str(c.get("det_every", 200))]
        for k in known_classes:
            cmd += ["--ignore", k]
        if os.path.exists(jf):
            os.remove(jf)
        r = run_exe(cmd, cap + 300)
        if not os.path.exists(jf):
            errors.append("%s: no result (exit %d) %s" % (name, r.returncode, r.stderr[-500:]))
            continue
        j = json.load(open(jf))
        explore_wall += j["wall_s"]
        if j["error"]:
            errors.append("%s: %s" % (name, j["error"]))
        for k in agg:
            agg[k] += j[k]
        for k, v in j["faults"].items():
            f = faults.setdefault(k, {"times": 0, "runs": 0})
            f["times"] += v["times"]
            f["runs"] += v["runs"]
        for k, v in j["probes"].items():
            f = probes.setdefault(k, {"times": 0, "runs": 0})
            f["times"] += v["times"]
            f["runs"] += v["runs"]
        per.append({"scenario": name, "runs": j["runs"], "planned": runs, "wall_s": round(j["wall_s"], 2), "steps": j["steps"], "distinct_schedules": j["distinct_schedules"], "distinct_nontrivial": j["distinct_nontrivial"]})
        for sd in j["samples"][:2]:
            one = run_exe([paths[exe], "--scenario", name, "--one", sd], 120)
            two = run_exe([paths[exe], "--scenario", name, "--one", sd], 120)
            if one.stdout != two.stdout:
                errors.append("%s: seed %s differs between processes" % (name, sd))
            kv = dict(l.split(" ", 1) for l in one.stdout.split("\n") if " " in l and not l.startswith(("probe", "fault")))
            samples.append({"scenario": name, "seed": sd, "steps": kv.get("steps"), "simulated_us": kv.get("vtime_us"), "context_switches": kv.get("switches"), "decisions_off_default": kv.get("decisions"), "hash": kv.get("hash"),
                            "outcome": kv.get("status"), "faults": [l[6:] for l in one.stdout.split("\n") if l.startswith("fault ")], "reached": [l[6:] for l in one.stdout.split("\n") if l.startswith("probe ")]})
        groups = {}
        for v in j["violations"]:
            text = symbolize(paths[exe], v["class"] + " | " + v["message"])
            hit = next((k for k in known if k[0].search(text)), None)
            if hit:
                knowns[hit[1]] = knowns.get(hit[1], 0) + v["count"]
                continue
            key = re.sub(r"0x[0-9a-f]+|\d+", "N", text) if v["class"] in ("data-race",) else v["class"]
            if key in groups:
                groups[key]["count"] += v["count"]
            else:
                groups[key] = dict(v, text=text, exe=exe, scenario=name)
        for v in list(groups.values())[:2]:
            g = run_exe([paths[exe], "--scenario", name, "--gate", v["seed"], "--replay-dir", OUT, "--min-budget", "8" if tier == "quick" else "40"], 600)
            try:
                gj = json.loads(g.stdout)
            except Exception:
                errors.append("%s: gating seed %s failed: %s" % (name, v["seed"], (g.stdout + g.stderr)[-300:]))
                continue
            if not gj["ok"]:
                errors.append("%s: violation %s of seed %s rejected: %s" % (name, v["text"], v["seed"], gj["error"]))
                continue
            text = symbolize(paths[exe], gj["class"] + " | " + gj["message"])
            rp = gj["replay"]
            dst = os.path.join(OUT, "%s-%s" % (prop, os.path.basename(rp)))
            body = open(rp).read()
            with open(dst, "w") as f:
                f.write("# property %s\n# exe %s\n# %s\n# re-execute: python3 tools/check.py --replay %s\n" % (prop, exe, text, dst) + body)
            os.remove(rp)
            violations.append((text, dst, v["count"], gj))
        if violations:
            break
    wall = time.time() - t0
    for text, n in knowns.items():
        print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (prop, text, n))
    for text, dst, n, gj in violations:
        print("violated: %s  (in %d runs; schedule minimised from %d to %d decisions)" % (text, n, gj["decisions"], gj["minimised"]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": agg["distinct_nontrivial"], "rule": c["rule"], "samples": samples,
            "simulated_runs_per_hour": int(agg["runs"] * 3600 / explore_wall) if explore_wall else 0,
            "seeds_per_hour": int(agg["runs"] * 3600 / explore_wall) if explore_wall else 0,
            "exploration_wall_s": round(explore_wall, 2), "build_wall_s": round(t_build, 2),
            "simulated_time_s": round(agg["sim_us"] / 1e6, 3), "scheduling_and_memory_steps": agg["steps"], "context_switches": agg["switches"], "instrumented_accesses": agg["accesses"],
            "simulated_kernel_operations": agg["io_ops"],
            "faults_injected": faults, "conditions_reached": probes,
            "distinct_interleavings": agg["distinct_schedules"], "distinct_interleavings_measure": "different hashes over the sequence of (running thread, scheduling point) switches of a run",
            "determinism_double_runs": agg["determinism_checks"],
            "per_scenario": per,
            "real_components": c["real"], "simulated_components": ["threads, mutexes, condition variables, futexes and clocks", "atomics and memory (race detector, heap checker)"] + c["stub"],
            "known_findings_seen": knowns, "errors": errors,
        },
        "assumptions": c.get("assumptions", []) + ["the simulator's model of threads, the C++ memory model, the kernel and io_uring is faithful where the property depends on it"],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d distinct schedules, %.0f s (build %.0f s), %d violations%s" % (prop, tier, agg["runs"], agg["distinct_schedules"], wall, t_build, len(violations), "; errors: " + "; ".join(errors) if errors else ""))
    if violations:
        return 1
    return 2 if errors else 0


def do_replay(path, trace):
    exe = None
    lines = open(path).read().split("\n")
    for l in lines:
        if l.startswith("# exe "):
            exe = l[6:].strip()
    paths = kb.build([(exe,) + tuple(config.EXES[exe])])
    tmp = path + ".tmp"
    open(tmp, "w").write("\n".join(l for l in lines if not l.startswith("#")))
    r = run_exe([paths[exe], "--replay", tmp] + (["--trace", trace] if trace else []), 300)
    os.remove(tmp)
    print(symbolize(paths[exe], r.stdout), end="")
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--trace")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    if a.build_all:
        kb.build([(n,) + tuple(v) for n, v in config.EXES.items()])
        return 0
    if a.replay:
        return do_replay(a.replay, a.trace)
    return do_check(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick")


sys.exit(main())
