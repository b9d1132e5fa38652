#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the IR of /repo's current tree together with the harness, lets the symbolic engine (rsym + z3)
decide every harness of the property, replays every counterexample against native builds of the same
tree, and replays a sample of the explored paths to validate the engine against the real code.
exit 0: held on everything within the bounds; 1: VIOLATION (reproduced); 3: no answer."""
import json, os, re, subprocess, sys, time, threading, hashlib, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import build, props

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
CFG = props.P[PROP]
WORK = os.path.join(V, ".build", "run-" + PROP)

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def par(**fs):
    res, err = {}, {}
    def go(k, f):
        try: res[k] = f()
        except Exception as e: err[k] = e
    ts = [threading.Thread(target=go, args=(k, f)) for k, f in fs.items()]
    for t in ts: t.start()
    for t in ts: t.join()
    return res, err

def demangle(names):
    if not names: return []
    p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return [re.sub(r"\[[0-9a-f]{10,}\]", "", x) for x in p.stdout.decode().split("\n")[:len(names)]]

def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, w, v in inputs:
            if n != "sched": f.write("%d %s %s\n" % (w, v, n))

def native(binary, entry, path, timeout=15, env=None):
    try:
        p = subprocess.run((["prlimit", "--as=%d" % (8 << 30), "--"] if shutil.which("prlimit") else []) + [binary, entry, path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, cwd=WORK, stdin=subprocess.DEVNULL, env=env)
    except subprocess.TimeoutExpired:
        return "hang", ["timeout"]
    lines = [l for l in p.stderr.decode(errors="replace").splitlines()]
    if p.returncode == 0: return "ok", lines
    if p.returncode == 101 or p.returncode < 0: return "violation", lines + (["signal %d" % -p.returncode] if p.returncode < 0 else [])
    return "other(%d)" % p.returncode, lines

def schedules(binary, entry, path, seconds=40):
    from concurrent.futures import ThreadPoolExecutor
    t0, found = time.time(), []
    def one(k):
        if found or time.time() - t0 > seconds: return
        r, lines = native(binary, entry, path, env=dict(os.environ, RSYM_SCHED=str(k)) if k % 8 else None)
        if r in ("violation", "hang"): found.append((r, lines))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, range(1, 20001)))
    return found[0] if found else ("ok", [])

def miri(entry, path, timeout=200, threads=False):
    build.fresh("miri")
    e = build.env(RUSTFLAGS="--cfg verif_hooks -Awarnings", CARGO_TARGET_DIR=os.path.join(build.B, "miri"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows" + (" -Zmiri-many-seeds=0..64 -Zmiri-preemption-rate=0.1" if threads else ""))
    try:
        p = subprocess.run(["cargo", "miri", "run", "--offline", "--bin", "replay", "--features", "native", "--", entry, path], cwd=V + "/harness", env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", []
    t = p.stderr.decode(errors="replace")
    if "Undefined Behavior" in t or "RSYM-REPLAY assertion failed" in t or "error: deadlock" in t or "error: the evaluated program deadlocked" in t or p.returncode == 101:
        m = re.search(r"error: Undefined Behavior.*|RSYM-REPLAY assertion.*|error: .*deadlock.*", t)
        return "violation", [m.group(0) if m else t[-300:]]
    return ("ok" if p.returncode == 0 else "other"), [t[-500:]]

def known():
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m: out.append(m.groups())
    return out

def main():
    os.makedirs(WORK, exist_ok=True)
    entries = CFG["thorough" if TIER == "thorough" else "quick"]
    res, err = par(engine=build.engine, ir=build.ir, dev=lambda: build.replay_bin("dev"), release=lambda: build.replay_bin("release"))
    if err:
        for k, e in err.items(): log("BUILD", k, e)
        return 3
    log("built")
    out = os.path.join(WORK, "out.json")
    if os.path.exists(out): os.remove(out)
    tmo = CFG["timeout"] if TIER == "quick" else 3 * 3600
    total = max(60, 700 - (time.time() - T0)) if TIER == "quick" else 5 * 3600
    cmd = [res["engine"], res["ir"], "--out", out, "--jobs", str(os.cpu_count() or 8), "--timeout", str(tmo), "--total", str(total), "--max-steps", str(CFG["max_steps"]), "--samples", "6",
           "--solver-ms", "60000" if TIER == "quick" else "600000"]
    for e in entries: cmd += ["--entry", e]
    for k in known():
        if k[0] == PROP: cmd += ["--known", k[1]]
    p = subprocess.run(cmd, stderr=subprocess.PIPE)
    sys.stderr.write(p.stderr.decode(errors="replace")[-20000:])
    if p.returncode != 0 or not os.path.exists(out):
        log("engine failed", p.returncode)
        return 3
    data = json.load(open(out))
    log("explored")

    problems, violations, knowns = [], [], []
    kf = known()
    fns = set()
    nsamples = validated = 0
    samples = []
    for d in data:
        ent = d["entry"]
        fns |= set(d["functions"])
        if d["inconclusive"]: problems.append("%s: inconclusive: %s" % (ent, "; ".join(d["inconclusive"][:4])))
        if d["paths_done"] == 0 and not d["violations"]: problems.append("%s: vacuous, no path completes" % ent)
        if not d["covers"] and not d["violations"]: problems.append("%s: vacuous, no reachability witness" % ent)
        # --- counterexamples: replay on the real code
        for i, v in enumerate(d["violations"][:12]):
            if len(violations) >= 4 or (violations and time.time() - T0 > 800): break
            f = os.path.join(WORK, "%s-%d.in" % (ent, i))
            write_inputs(f, v["inputs"])
            what = "%s: %s" % (v["kind"], v["msg"])
            rep = None
            for prof in ("dev", "release"):
                r, lines = native(res[prof], ent, f)
                if r == "violation" or (r == "hang" and v["kind"] in ("hang", "deadlock")): rep = (prof, [l for l in lines if "RSYM-REPLAY" in l or "panicked" in l or "unsafe precond" in l or "signal" in l][-3:] or lines[-2:]); break
            threads = any(n == "sched" for n, _, _ in v["inputs"]) or v["kind"] in ("race", "deadlock")
            if rep is None and threads:
                # the schedule is up to the operating system, or to the replay driver (RSYM_SCHED): try many
                r, lines = schedules(res["dev"], ent, f)
                if r in ("violation", "hang"): rep = ("dev", [l for l in lines if "RSYM-REPLAY" in l or "panicked" in l or "signal" in l][-3:] or lines[-2:])
            if rep is None and (threads or v["kind"] in ("memory", "uninit", "unreachable", "panic")):
                r, lines = miri(ent, f, threads=threads)
                if r == "violation": rep = ("miri", lines)
            if rep is None:
                problems.append("%s: counterexample does not reproduce natively (%s; %s)" % (ent, what, f))
                continue
            site = next((s for s in demangle(v["stack"]) if s.startswith("level_db_rust::") or s.startswith("<level_db_rust::")), "")
            txt = "%s [%s] native %s: %s" % (what, site, rep[0], " | ".join(rep[1]))
            hit = next((k for k in kf if k[0] == PROP and k[1] == ent and k[2] in txt), None)
            if hit: knowns.append(hit)
            else: violations.append((ent, f, txt, v["inputs"]))
        # --- engine vs real code on sampled paths
        for i, s in enumerate(d["samples"] if not violations else []):
            f = os.path.join(WORK, "%s-s%d.in" % (ent, i))
            write_inputs(f, s["inputs"])
            nsamples += 1
            for prof in ("dev", "release"):
                r, lines = native(res[prof], ent, f)
                obs = [[m.group(1), m.group(2)] for m in (re.match(r"RSYM-OBS (.*) (\d+)$", l) for l in lines) if m]
                if r != "ok" or obs != [[a, b] for a, b in s["observed"]]:
                    if not d["violations"]: problems.append("%s: engine and native %s run disagree on %s (%s %s)" % (ent, prof, f, r, lines[-2:]))
                    break
            else:
                validated += 1
            if len(samples) < 12 and i < 2: samples.append({"entry": ent, "path_constraints": s["path_constraints"], "inputs": ["%s:%s=%s" % (n, w, x) for n, w, x in s["inputs"][:40]], "observed": s["observed"][:20]})
    log("replayed %d sampled paths, %d agree" % (nsamples, validated))

    tot = lambda k: sum(d[k] for d in data)
    names = sorted(n for n in set(demangle(sorted(fns))) if re.match(r"<*level_db_rust::", n))
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "explanation": "Bounded symbolic execution of the LLVM IR of /repo's current tree (with the real std): every feasible path of each harness is enumerated, z3 decides every branch, bounds check and assertion over all values within the bounds.",
            "states": tot("paths_done"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": not problems and not violations and all(d["paths_left"] == 0 for d in data),
            "bounds": CFG["thorough_bounds" if TIER == "thorough" else "bounds"], "harnesses": {d["entry"]: {"paths": d["paths_done"], "pruned_by_assumption": d["paths_pruned"], "max_path_instructions": d["max_path_steps"], "max_path_constraints": d["max_path_constraints"], "assertions": d["asserts"], "covered": d["covers"], "wall_s": d["wall_s"]} for d in data},
            "functions_encoded": names, "functions_encoded_count": len(names),
            "solver": {"name": "z3 (QF_BV)", "queries": tot("queries"), "decided_by_gf2_normal_form": tot("gf2_decided"), "decided_by_intervals": tot("interval_decided"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "cached": tot("cached"), "time_s": round(tot("solver_s"), 2), "max_query_s": max([d["max_query_s"] for d in data] or [0])},
            "assertions_checked": tot("asserts"), "sampled_paths": nsamples,
        },
        "assumptions": ["inputs outside the stated bounds are not covered", "64-bit little-endian target, allocation never fails", "format! of error texts yields an empty string unless formatting is the subject", "jemalloc replaced by an abstract allocator returning disjoint blocks aligned to exactly the requested alignment"] + CFG["stubs"],
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % PROP, "w"), indent=1)
    for k in sorted(set(knowns)): print("KNOWN-FINDING: property=%s %s" % (PROP, k[3]))
    if violations:
        rp = os.path.join(V, "replays", PROP)
        shutil.rmtree(rp, ignore_errors=True)
        os.makedirs(rp)
        for i, (ent, f, txt, ins) in enumerate(violations):
            dst = os.path.join(rp, "%s-%d.in" % (ent, i))
            shutil.copy(f, dst)
            with open(dst + ".txt", "w") as g: g.write("%s\n%s\nreplay: %s/replay.sh %s %s\n" % (ent, txt, V, ent, dst))
            print("counterexample: %s %s inputs %s" % (ent, txt, " ".join("%s=%s" % (n, x) for n, w, x in ins[:24])))
            print("VIOLATION property=%s replay=%s" % (PROP, dst))
        return 1
    if problems:
        for x in problems: print("NO-ANSWER property=%s %s" % (PROP, x))
        return 3
    print("OK property=%s paths=%d queries=%d wall=%.0fs" % (PROP, tot("paths_done"), tot("queries"), time.time() - T0))
    return 0

try:
    rc = main()
except build.BuildError as e:
    log(e); rc = 3
sys.stdout.flush()
sys.exit(rc)
