#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decide one property by simulation.

Builds the simulator from /repo's working tree, replays the recorded plans
(corpus/ and known findings), runs a seeded batch of simulated executions on
all cores, gates, minimises and re-plays every violation in a fresh process,
and writes evidence/<PROPERTY>.json.  Exit 0: held.  Exit 1: VIOLATION line.
Exit 2: the machinery itself failed."""
import json, os, subprocess, sys, time, glob, struct, shutil, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build as B

# property: (variant, quick runs, thorough runs, level, notes)
CONF = json.load(open(os.path.join(V, "checks.json")))

def sh(args, timeout=None):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, timeout=timeout, errors="replace")

def run_plan(exe, plan):
    r = sh([exe, "run", plan], 400)
    cls = msg = ""; h = ""
    for l in r.stdout.splitlines():
        if l.startswith("RESULT "):
            cls = l.split(" cls=")[1].split(" hash=")[0]
            h = l.split(" hash=")[1].split(" ")[0]
        elif l.startswith("MSG "):
            msg = l[4:]
    if r.returncode not in (0, 1) or not h:
        print("replay machinery failed on", plan, r.stderr[-500:]); sys.exit(2)
    return r.returncode == 1, cls, msg, h

def known(prop):
    """lines 'known: property=ID plan=FILE cls=CLASS what' of known_findings.txt"""
    out = []
    f = os.path.join(V, "known_findings.txt")
    for l in open(f).read().splitlines() if os.path.exists(f) else []:
        if l.startswith("known: "):
            p = l[7:].split(" ", 3)
            d = dict(x.split("=", 1) for x in p[:3])
            if d["property"] == prop:
                out.append((os.path.join(V, d["plan"]), d["cls"], p[3]))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    print(f"{prop}: tier={tier} VERIF_SEED={seed}", flush=True)
    c = CONF[prop]
    t0 = time.time()
    exe = B.build(c.get("variant", "main"))
    tb = time.time() - t0
    try:
        listed = sh([exe, "list"]).stdout.split()
        assert prop in listed
    except Exception as e:
        print("simulator does not start:", e); sys.exit(2)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cand = []   # (label, plan path, cls, msg)
    nknown = 0
    for plan, cls, what in known(prop):
        bad, k, msg, _ = run_plan(exe, plan)
        if bad and k == cls:
            print(f"KNOWN-FINDING: property={prop} {what}"); nknown += 1
        elif bad:
            cand.append(("known-plan", plan, k, msg))
    corpus = sorted(glob.glob(os.path.join(V, "corpus", prop, "*.plan")))
    for plan in corpus:
        bad, k, msg, _ = run_plan(exe, plan)
        if bad: cand.append(("corpus", plan, k, msg))
    # ---- batch
    W = max(1, min(int(os.environ.get("VERIF_WORKERS", "0")) or (os.cpu_count() or 4), 32))
    count = int(os.environ.get("VERIF_RUNS", "0")) or c[tier]
    deadline = c.get("quick_s", 60) if tier == "quick" else c.get("thorough_s", 480)
    t1 = time.time()
    procs = []
    for w in range(W):
        out = os.path.join(tmp, f"w{w}.json")
        procs.append((out, subprocess.Popen(
            [exe, "batch", prop, str(seed), str(w), str(W), str(count), str(deadline),
             str(c.get("det_every", 20)), out, "4"],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    agg = dict(runs=0, nontrivial=0, steps=0, det_checked=0, nviol=0)
    counters = {}; keys = set(); hashes = set(); viol = []; nondet = []; cut = False
    for out, p in procs:
        err = p.communicate()[1]
        if p.returncode != 0 or not os.path.exists(out):
            print("worker failed:", p.returncode, err.decode(errors="replace")[-500:]); sys.exit(2)
        d = json.load(open(out))
        for k in agg: agg[k] += d[k]
        cut = cut or d["cut"]
        for k, (n, r) in d["counters"].items():
            a = counters.setdefault(k, [0, 0]); a[0] += n; a[1] += r
        for s, suf in ((keys, ".keys"), (hashes, ".hashes")):
            b = open(out + suf, "rb").read()
            s.update(struct.unpack(f"<{len(b)//8}Q", b))
        viol += d["violations"]; nondet += d["nondet"]
    tbatch = time.time() - t1
    shutil.rmtree(tmp, ignore_errors=True)
    viol.sort(key=lambda v: v["index"])
    seen = set(k for _, _, k, _ in cand)
    for v in viol:
        if v["cls"] in seen or len(cand) >= 4: continue
        seen.add(v["cls"])
        path = os.path.join(rdir, f"{prop}-seed{v['seed']}.full.plan")
        with open(path, "w") as f:
            f.write(f"# seed {v['seed']} (VERIF_SEED={seed} index {v['index']})\n")
            f.write(sh([exe, "gen", prop, str(v["seed"])]).stdout)
        cand.append((f"seed {v['seed']}", path, v["cls"], v["msg"]))
    # ---- gate, minimise, replay in a fresh process
    confirmed = []
    for label, plan, cls, msg in cand:
        a = run_plan(exe, plan); b = run_plan(exe, plan)
        if not a[0] or a[1] != cls or a != b:
            print(f"unstable candidate ({label}): {cls} / {a} / {b}"); nondet.append(label); continue
        small = os.path.join(rdir, os.path.basename(plan).replace(".full.plan", "").replace(".plan", "") + ".min.plan")
        final = plan
        try:
            r = sh([exe, "min", plan, small, str(c.get("min_s", 25))], 300)
            if r.returncode == 0:
                x = run_plan(exe, small); y = run_plan(exe, small)
                if x == y and x[0] and x[1] == cls:
                    final = small; msg = x[2]
                    body = open(small).read()
                    open(small, "w").write(
                        f"# property {prop}; {label}; violation: {cls}\n# {msg}\n"
                        f"# replay: python3 /verif/tools/build.py {c.get('variant','main')} && {os.path.relpath(exe, V)} runv <this file>\n" + body)
        except subprocess.TimeoutExpired:
            pass
        confirmed.append((label, final, cls, msg))
    # ---- evidence
    wall = time.time() - t0
    faults = {k: {"injected": n, "runs": r} for k, (n, r) in sorted(counters.items()) if k.startswith("fault.")}
    events = {k: {"count": n, "runs": r} for k, (n, r) in sorted(counters.items()) if not k.startswith("fault.")}
    samples = []
    for i in (0, 1, count // 2):
        r = sh([exe, "genidx", prop, str(seed), str(i)])
        samples.append({"index": i, "plan": r.stdout[:1500]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(hashes), "rule": c["rule"],
            "samples": samples,
            "simulated_steps": agg["steps"],
            "simulated_time": c.get("time", "the code has no clock; simulated time is counted in executed steps"),
            "runs_per_hour": int(agg["runs"] / max(tbatch, 1e-6) * 3600),
            "seeds_per_hour": int(agg["runs"] / max(tbatch, 1e-6) * 3600),
            "distinct_states": len(keys), "distinct_states_measure": c["measure"],
            "faults": faults, "events_and_probes": events,
            "determinism_double_runs": agg["det_checked"], "nondeterministic": nondet,
            "corpus_plans_replayed": len(corpus), "known_findings": nknown,
            "workers": W, "cut_by_deadline": cut,
            "real_components": c["real"], "stubbed_components": c["stub"],
            "build_s": round(tb, 1), "batch_s": round(tbatch, 1),
        },
        "assumptions": c.get("assumptions", []),
        "violations": len(confirmed), "wall_s": round(wall, 1),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {agg['runs']} runs ({len(hashes)} distinct non-trivial), {len(keys)} states, "
          f"{agg['steps']} steps, {sum(f['injected'] for f in faults.values())} faults, {agg['det_checked']} re-runs, "
          f"build {tb:.0f}s batch {tbatch:.0f}s" + (" [cut by deadline]" if cut else ""))
    if confirmed:
        for label, plan, cls, msg in confirmed:
            print(f"VIOLATION property={prop} replay={plan}")
            print(f"  {label}: {cls}: {msg}")
        sys.exit(1)
    if nondet:
        print("simulation was not deterministic for", nondet[:10]); sys.exit(2)
    if agg["runs"] == 0 or len(hashes) == 0:
        print("nothing was explored"); sys.exit(2)

if __name__ == "__main__":
    main()
