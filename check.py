#!/usr/bin/env python3
"""Runs the simulated check of one property against the current /repo tree.

check.py --prop ID [--tier quick|thorough]   exit 0 held, exit 1 + VIOLATION line, anything else is an error of the check
check.py --replay FILE                       run one replay file, print what it shows, exit 1 if it violates
"""
import argparse, fcntl, glob, json, os, random, selectors, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
OUT = os.path.join(V, "out")
SIM = os.path.join(B, "sim_main")
WORKERS = 8
REAL = ["src/planners (HRM2D, HRM2DKC, HRM3D, ProbHRM3D, ablation, highway roadmap, graph search)", "src/datastructure", "src/geometry", "src/util",
        "src/planners/ompl_interface with the installed libompl and libfcl", "src/test/util loaders", "urdfdom, kdl, tinyxml2"]
STUB = ["clocks (monotonic, wall)", "process random generator and OMPL seeds", "files (virtual disk)", "memory contents and allocation failure",
        "thread scheduling (cooperative, seeded)"]

def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-C", V, "-j", str(WORKERS), "REPO=" + REPO, "B=" + B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            print("ERROR: the simulator does not build against the current tree")
            sys.exit(2)

def simcmd(*a):
    return [SIM, *[str(x) for x in a], "--resources", os.path.join(REPO, "resources")]

def parse(line):
    try:
        return json.loads(line)
    except ValueError:
        return None

def batch(prop, base, seconds, wall, count=None, stop_on=True, grace=4.0, known=()):
    """Seeds base, base+1, ... on WORKERS processes for `seconds`."""
    res, t0 = [], time.time()
    ps = []
    sel = selectors.DefaultSelector()
    for w in range(WORKERS):
        p = subprocess.Popen(simcmd("batch", "--prop", prop, "--from", base + w, "--to", base + (count or 10 ** 9), "--step", WORKERS, "--seconds", seconds, "--wall", wall),
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, [p, b""])
        ps.append(p)
    stop_at = None
    while sel.get_map():
        for key, _ in sel.select(timeout=0.5):
            st = key.data
            d = key.fileobj.read()
            if d is None:
                continue
            if not d:
                sel.unregister(key.fileobj)
                continue
            st[1] += d
            while b"\n" in st[1]:
                ln, st[1] = st[1].split(b"\n", 1)
                j = parse(ln)
                if j is None:
                    continue
                res.append(j)
                if j["viol"] and stop_on and stop_at is None:
                    stop_at = time.time() + grace
        if (stop_at and time.time() > stop_at) or time.time() > t0 + seconds + wall + 30:
            for p in ps:
                p.kill()
            break
    for p in ps:
        p.kill()
        p.wait()
    return res

def run_file(path, wall):
    r = subprocess.run(simcmd("run", "--scenario", path, "--wall", wall), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return parse(r.stdout.strip().split("\n")[-1]) if r.stdout.strip() else None

def run_text(text, wall, name="cand"):
    path = os.path.join(OUT, "%s.%d.scn" % (name, os.getpid()))
    with open(path, "w") as f:
        f.write(text)
    try:
        return run_file(path, wall)
    finally:
        os.unlink(path)

def gen(prop, seed):
    return subprocess.run(simcmd("gen", "--prop", prop, "--seed", seed), stdout=subprocess.PIPE, text=True).stdout

def kinds(j):
    return [v["kind"] for v in j["viol"]] if j else []

REMOVABLE = {"clockjump", "jump2", "stall", "obs2", "obs3", "link2", "link3", "joint", "arena2", "arena3", "fault", "fault2", "allocfail", "heapjunk", "preempt", "randedge", "quat", "clock", "wallbase",
             "preemptalloc", "act", "edit", "iofault"}

def minimise(text, kind, wall, seconds):
    """Drop lines, then shrink numbers, while the same kind of violation persists."""
    t0 = time.time()
    lines = [l for l in text.split("\n") if l.strip()]
    tried = 0
    def still(ls):
        nonlocal tried
        tried += 1
        return kind in kinds(run_text("\n".join(ls) + "\n", wall))
    def key(l):
        return l.split(" ", 1)[0].split(":")[-1]
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        i = 0
        while i < len(lines) and time.time() - t0 < seconds:
            k = key(lines[i])
            if k in REMOVABLE:
                drop = [i]
                if k == "link3" and i + 1 < len(lines) and key(lines[i + 1]) == "joint":
                    drop = [i, i + 1]
                elif k == "joint":
                    i += 1
                    continue
                if k in ("arena2", "arena3", "quat") and sum(key(l) == k for l in lines) <= 1:
                    i += 1
                    continue
                c = [l for n, l in enumerate(lines) if n not in drop]
                if still(c):
                    lines = c
                    changed = True
                    continue
            i += 1
        for i, l in enumerate(lines):
            if time.time() - t0 > seconds:
                break
            tk = l.split(" ")
            if key(l) == "param":
                for pos, lo in ((1, 1), (2, 2), (3, 2), (5, 1)):
                    while pos < len(tk) and float(tk[pos]) > lo and time.time() - t0 < seconds:
                        c = tk[:]
                        c[pos] = "%g" % max(lo, int(float(tk[pos]) // 2) if float(tk[pos]) > 2 * lo else float(tk[pos]) - 1)
                        cl = lines[:]
                        cl[i] = " ".join(c)
                        if still(cl):
                            lines, tk, changed = cl, c, True
                        else:
                            break
    return "\n".join(lines) + "\n", tried

def known_findings(prop):
    r = []
    p = os.path.join(V, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                j = json.loads(l)
                if j["property"] == prop and j.get("status") == "open":
                    r.append(j)
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--min-seconds", type=float, default=45)
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    build()
    if a.replay:
        j = run_file(a.replay, 240)
        print(json.dumps(j, indent=1))
        sys.exit(1 if j and j["viol"] else 0)
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    print("check %s tier=%s VERIF_SEED=%d" % (prop, tier, vseed))
    sys.stdout.flush()
    wall = 60
    conf = json.load(open(os.path.join(V, "checks.json"))).get(prop, {})
    seconds = a.seconds or conf.get("quick_s" if tier == "quick" else "thorough_s", 45 if tier == "quick" else 600)
    base = vseed * 10 ** 9
    viols = []          # (kind, detail, scenario text)
    # 1. pinned scenarios
    corpus = sorted(glob.glob(os.path.join(V, "corpus", prop, "*.scn")))
    res = []
    if corpus:
        r = subprocess.run(simcmd("serve", "--wall", wall), input="\n".join(corpus) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        js = [parse(l) for l in r.stdout.split("\n") if l.strip()]
        if len(js) != len(corpus):
            print("ERROR: %d pinned scenarios gave %d results" % (len(corpus), len(js)))
            sys.exit(2)
        for p, j in zip(corpus, js):
            j["pinned"] = os.path.basename(p)
            res.append(j)
            for v in j["viol"]:
                viols.append((v["kind"], v["detail"], open(p).read(), j))
    # 2. known findings, each by its own scenario
    kf = known_findings(prop)
    for k in kf:
        j = run_file(os.path.join(V, k["scenario"]), wall)
        if k["kind"] in kinds(j):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for v in (j or {}).get("viol", []):
            if v["kind"] != k["kind"]:
                viols.append((v["kind"], v["detail"], open(os.path.join(V, k["scenario"])).read(), j))
    # 3. seeded search
    ts = time.time()
    got = [] if viols else batch(prop, base, seconds, wall)
    search_s = max(0.01, time.time() - ts)
    if not viols and not got:
        print("ERROR: no simulated run finished")
        sys.exit(2)
    for j in sorted(got, key=lambda j: j["seed"]):
        res.append(j)
        for v in j["viol"]:
            viols.append((v["kind"], v["detail"], None, j))
    # 4. determinism gate: sampled seeds again, one process, other order
    rng = random.Random(vseed)
    sample = [j for j in got if not str(j["hash"]).startswith(("hang", "crash"))]
    sample = rng.sample(sample, min(len(sample), 24 if tier == "quick" else 200))
    redo, diff = 0, []
    gt = time.time()
    if not viols:
        paths = []
        for j in sample:
            p = os.path.join(OUT, "gate-%s-%d.scn" % (prop, j["seed"]))
            open(p, "w").write(gen(prop, j["seed"]))
            paths.append(p)
        if paths:
            r = subprocess.run(simcmd("serve", "--wall", 4 * wall), input="\n".join(paths) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            again = [parse(l) for l in r.stdout.split("\n") if l.strip()]
            redo = len(again)
            diff = [(x["seed"], x["hash"], y["hash"]) for x, y in zip(sample, again) if x["hash"] != y["hash"]]
        for p in paths:
            os.unlink(p)
    # 5. evidence
    distinct = set((j["key"], j["order"]) for j in res if j["nontrivial"])
    faults, m = {}, {}
    for j in res:
        for k, v in j["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in j["m"].items():
            m[k] = m.get(k, 0) + v
    simt = sum(j["sim"] for j in res if j["sim"] == j["sim"])
    orders = set(j["order"] for j in res if j["order"] != "0")
    samples = []
    for j in (got[:1] + got[-1:]) if got else res[:1]:
        t = gen(prop, j["seed"]) if "pinned" not in j else open(os.path.join(V, "corpus", prop, j["pinned"])).read()
        samples.append({"seed": j["seed"], "scenario": t.strip().split("\n"), "result": j})
    evidence = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": len(res), "distinct_nontrivial": len(distinct),
            "rule": conf.get("rule", "one seed generates one scenario (workload, faults, schedule) and one simulated run; non-trivial: the planner built a non-empty roadmap; distinct: different resulting roadmap or history hash"),
            "samples": samples,
            "pinned_scenarios": len(corpus),
            "seed_range": [base, max([j["seed"] for j in got], default=base)],
            "runs_per_hour": round(len(got) / search_s * 3600),
            "simulated_seconds": round(simt, 3),
            "faults_injected": faults,
            "thread_interleavings_distinct": len(orders),
            "measures": {k: round(v, 3) for k, v in sorted(m.items())},
            "determinism_gate": {"rerun": redo, "different": len(diff)},
            "real_components": REAL, "simulated_components": STUB,
        },
        "assumptions": conf.get("assumptions", []),
        "violations": len(viols), "wall_s": round(time.time() - t0, 2),
    }
    def write_evidence():
        evidence["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as fo:
            json.dump(evidence, fo, indent=1)
    write_evidence()
    print("%d runs, %d distinct non-trivial, %.0f runs/hour, faults %s" % (len(res), len(distinct), len(got) / search_s * 3600, faults))
    if viols:
        # one report: the kind seen most often, its cheapest witness
        order = {}
        for v in viols:
            order.setdefault(v[0], []).append(v)
        unreproduced, slow = [], []
        for kind in sorted(order, key=lambda k: (k.startswith(("hang", "exit-")), -len(order[k]))):
            for kd, detail, text, j in order[kind][:3]:
                if text is None:
                    text = gen(prop, j["seed"])
                if kind.startswith("hang"):
                    # slow or endless? ask again with far more real time, and nothing else running
                    again = run_text(text, 4 * wall, "first")
                    if again and kind not in kinds(again):
                        if not kinds(again):
                            slow.append(j["seed"])
                            continue
                        kind = kinds(again)[0]
                        j = again
                else:
                    again = run_text(text, wall, "first")
                if kind not in kinds(again) or again["hash"] != j["hash"]:
                    unreproduced.append((kind, j["seed"]))
                    continue
                tried = 0
                if not kind.startswith("hang"):
                    small, tried = minimise(text, kind, wall, a.min_seconds)
                else:
                    small = text
                if kind.startswith("hang"):
                    r1 = r2 = again
                else:
                    r1, r2 = run_text(small, wall, "m1"), run_text(small, wall, "m2")
                if kind not in kinds(r1) or kind not in kinds(r2) or r1["hash"] != r2["hash"]:
                    small, r1 = text, again
                rp = os.path.join(OUT, "%s-%s-%d.scn" % (prop, "".join(c if c.isalnum() or c in "-_" else "_" for c in kind), j["seed"]))
                open(rp, "w").write(small)
                d = [v["detail"] for v in r1["viol"] if v["kind"] == kind][0]
                print("kind=%s seed=%s (%d runs showed it, minimised with %d trial runs from %d to %d lines)" % (kind, j["seed"], len(order.get(kind, [1])), tried, text.count("\n"), small.count("\n")))
                print("  " + d)
                print("  replay: python3 %s --replay %s" % (os.path.join(V, "check.py"), rp))
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                write_evidence()
                sys.exit(1)
        if unreproduced:
            print("ERROR: violations that a fresh process does not reproduce: %s" % unreproduced[:5])
            sys.exit(2)
        print("%d runs needed more than %d s of real time and were not judged: seeds %s" % (len(slow), wall, slow[:5]))
        evidence["violations"] = 0
        evidence["coverage"]["unjudged_slow_runs"] = len(slow)
        write_evidence()
    if diff:
        print("ERROR: runs that are not repeatable: %s" % diff[:5])
        sys.exit(2)
    sys.exit(0)

main()
