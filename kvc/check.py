"""check.py PROPERTY quick|thorough: decides one property on /repo's current working tree."""
import importlib
import json
import multiprocessing
import os
import re
import struct
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "kvc"))
BUILD = os.environ.get("KVC_BUILD", os.path.join(V, "build"))
SPECS = ["joint", "node", "link", "misc", "chain", "kinematics", "ik", "urdf", "locks", "clone", "robot", "threads"]
LEFT = {"quick": 420, "thorough": 560}       # seconds for the first attempt
LAST = {"quick": 800, "thorough": 840}       # seconds after which nothing more is tried


def all_tasks(prop):
    ts = []
    for m in SPECS:
        if os.path.exists(os.path.join(V, "kvc", "specs", m + ".py")):
            mod = importlib.import_module("specs." + m)
            ts += [t for t in mod.tasks() if t["prop"] == prop]
    return ts


def worker(a):
    path, prop, k, tier, scale, budget = a
    import verify
    import state
    import lib
    t = all_tasks(prop)[k]
    if tier == "thorough":
        state.Config.alt = 150
        state.Config.timeout_ms = 60000
    state.Config.scale = scale
    t = dict(t)
    t["budget"] = budget or (min(t.get("budget", 240), 400) if tier == "quick" else 640)
    w = verify.World(path)
    r = verify.run_task(w, **t)
    return dict(name=r.name, mode=r.mode, status=r.status, why=r.why, secs=r.secs, paths=r.paths, fns=r.fns,
                invariants=[str(s)[:200] for s in r.invariants], assumptions=sorted(r.assumptions), lib=sorted(lib.USED),
                queries=state.STATS.queries, solver_secs=state.STATS.secs, solver_max=state.STATS.max,
                rechecked=getattr(state.STATS, "alt", {}),
                obls=[dict(fn=o.fn, label=o.label, kind=o.kind, where=o.where, status=o.status, backend=o.backend, secs=o.secs, path=o.path,
                           detail=o.detail) for o in r.obls])


def literals(path, out):
    """numbers that stand in the code, as seeds for the search"""
    vals = set()
    try:
        d = json.load(open(path))
        ty = d["types"]

        def walk(x):
            if isinstance(x, dict):
                if x.get("c") == "scalar" and "bits" in x and "ty" in x:
                    t = ty[x["ty"]]
                    b = int(x["bits"])
                    if t["k"] == "float":
                        v = struct.unpack("<d", struct.pack("<Q", b))[0] if x["size"] == 8 else struct.unpack("<f", struct.pack("<I", b))[0]
                        if v == v and abs(v) < 1e12:
                            vals.add(v)
                    elif t["k"] in ("uint", "int") and b < 100000:
                        vals.add(float(b))
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(d["fns"])
    except Exception:
        pass
    open(out, "w").write(" ".join(repr(v) for v in sorted(vals)[:400]))


def known(prop):
    r = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"open: property=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            r.append(m.group(2).strip())
    return r


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    out = os.path.join(BUILD, "run")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
    tag = "%s-%s" % (prop, tier)
    log = lambda s: print(s, flush=True)
    # extraction and harness, from the current tree
    mirf = os.path.join(BUILD, "k.json")
    hb = subprocess.Popen(["bash", os.path.join(V, "kvc/harness.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ex = subprocess.run(["bash", os.path.join(V, "kvc/extract.sh"), mirf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    extracted = ex.returncode == 0 and os.path.exists(mirf)
    if not extracted:
        log("extraction failed: " + ex.stdout.decode(errors="replace")[-800:])
    hout = hb.communicate()[0]
    harness_ok = hb.returncode == 0
    if not harness_ok:
        log("replay harness does not build: " + hout.decode(errors="replace")[-800:])
    lits = os.path.join(out, tag + ".lits")
    literals(mirf, lits)
    hbin = os.path.join(BUILD, "replay/release/kvc-replay")

    def harness(sd, secs, trials):
        f = os.path.join(BUILD, "replays", "%s-%s-%d.txt" % (prop, tier, sd))
        if os.path.exists(f):
            os.remove(f)
        env = dict(os.environ, KVC_TRIALS=str(trials))
        p = subprocess.Popen([hbin, prop, str(sd), str(secs), f, lits], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        return p, f

    def hresult(h):
        o = h[0].communicate()[0].decode(errors="replace").strip()
        m = re.search(r"trials=(\d+)", o)
        if h[0].returncode == 1:
            return "violation", o, h[1]
        if h[0].returncode == 0:
            return "ok", int(m.group(1)) if m else 0, None
        return "error", o, None
    tasks = all_tasks(prop)
    base = None
    if harness_ok:
        base = harness(seed, 20 if tier == "quick" else 120, 2000000 if tier == "quick" else 10 ** 9)
    def lost(k, status, why):
        return dict(name=tasks[k]["name"], mode=tasks[k].get("mode", "real"), status=status, why=why, secs=0, paths=0,
                    fns=tasks[k].get("fns", []), invariants=[], assumptions=[], lib=[], queries=0, solver_secs=0, solver_max=0, rechecked={}, obls=[])

    def verify_all(ks, left, scale, budget, h):
        """results of the tasks, those that are ready when the time is up or the search h finds a failing input"""
        got = {}
        with multiprocessing.get_context("fork").Pool(min(len(ks), 7), maxtasksperchild=1) as pool:
            rs = [(k, pool.apply_async(worker, ((mirf, prop, k, tier, scale, budget),))) for k in ks]
            found = False
            for k, r in rs:
                while not r.ready() and not found and time.time() - t0 < left:
                    r.wait(0.3)
                    if h and h[0].poll() == 1:
                        found = True
                try:
                    got[k] = r.get(timeout=0.2)
                except multiprocessing.TimeoutError:
                    got[k] = lost(k, *(("stopped", "a failing input was found") if found else ("timeout", "time budget")))
                except Exception as e:
                    got[k] = lost(k, "unsupported", "worker: %r" % (e,))
            pool.terminate()
        return got
    results = []
    if extracted and tasks:
        got = verify_all(range(len(tasks)), LEFT[tier], 1, None, base)
        results = [got[k] for k in range(len(tasks))]
    bad = [r for r in results if r["status"] == "failed"]
    undecided = [r for r in results if r["status"] not in ("proved", "failed")]
    proved = [r for r in results if r["status"] == "proved"]
    hres = hresult(base) if base else None
    trials = hres[1] if hres and hres[0] == "ok" else 0
    violation = None
    if hres and hres[0] == "violation":
        violation = ("found", hres[2], hres[1])
    more = bool(bad or undecided or not extracted or not tasks)
    if violation is None and more and harness_ok:
        # the proof does not go through: search harder for a failing input
        secs = (60 if bad else 45) if tier == "quick" else 180
        hs = [harness(seed * 1000 + k, secs, 10 ** 9) for k in range(1, 8)]
        for h in hs:
            q = hresult(h)
            if q[0] == "violation" and violation is None:
                violation = ("found", q[2], q[1])
            elif q[0] == "ok":
                trials += q[1]
    slow = [k for k, r in enumerate(results) if r["status"] == "failed" or r["status"] == "timeout" or "budget" in str(r["why"])]
    if violation is None and slow and extracted and time.time() - t0 < LAST[tier] - 60:
        # nothing fails that can be shown: give the solver more time, the machine may be busy
        log("%s: again with more time for the solver: %s" % (prop, ", ".join(tasks[k]["name"] for k in slow)))
        got = verify_all(slow, LAST[tier], 3, LAST[tier] - (time.time() - t0), None)
        for k, r in got.items():
            if r["status"] == "proved" or results[k]["status"] != "failed" and r["status"] == "failed":
                results[k] = r
        bad = [r for r in results if r["status"] == "failed"]
        undecided = [r for r in results if r["status"] not in ("proved", "failed")]
        proved = [r for r in results if r["status"] == "proved"]
    if violation is None and bad:
        f = os.path.join(BUILD, "replays", "%s-%s-obligation.txt" % (prop, tier))
        with open(f, "w") as o:
            o.write("property=%s\nfailed obligations (contract verification of /repo's current tree; no failing input was found in %d trials)\n\n" % (prop, trials))
            for r in bad:
                for ob in r["obls"]:
                    if ob["status"] != "proved":
                        o.write("function under contract: %s [%s]\nobligation: %s\nkind: %s\nwhere: %s\npath: %s\nverifier: %s\n\n" % (
                            r["name"], r["mode"], ob["label"], ob["kind"], ob["where"], ob["path"], ob["detail"]))
        violation = ("obligation", f, "%s: %s" % (bad[0]["name"], bad[0]["why"]))
    # evidence
    obls = [o for r in results for o in r["obls"]]
    disch = [o for o in obls if o["status"] == "proved"]
    backends = {}
    for o in disch:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    alt = {}
    for r in results:
        for k, v in r["rechecked"].items():
            alt[k] = alt.get(k, 0) + v
    full = bool(proved) and not bad and not undecided and extracted
    libs = sorted({l for r in results for l in r["lib"]})
    ass = sorted({a for r in results for a in r["assumptions"]}) + general_assumptions(prop)
    fns = sorted({f for r in results for f in r["fns"]})
    cov = dict(
        obligations=len(obls), discharged=len(disch),
        checker_cmd="./check.sh %s %s" % (prop, tier),
        trusted_base=["rustc nightly (MIR of /repo's tree)", "kvc (verification-condition generator, /verif/kvc)", "z3 4.x"]
        + ["assumed contract of " + l for l in libs],
        functions_under_contract=fns,
        tasks=[dict(name=r["name"], mode=r["mode"], status=r["status"], why=r["why"], obligations=len(r["obls"]),
                    discharged=len([o for o in r["obls"] if o["status"] == "proved"]), paths=r["paths"], seconds=round(r["secs"], 2),
                    loop_invariants=r["invariants"]) for r in results],
        discharged_by=backends, rechecked_by=alt,
        solver=dict(queries=sum(r["queries"] for r in results), seconds=round(sum(r["solver_secs"] for r in results), 2),
                    slowest=round(max([r["solver_max"] for r in results] + [0]), 2)),
        bounded=[dict(name=r["name"], why=r["status"] + ": " + str(r["why"])) for r in undecided],
        replay_trials=trials)
    if not full:
        cov.update(evaluations=trials, distinct_nontrivial=trials,
                   rule="random well-formed inputs run against the real crate, every one checked against the contract; bounded stand-in for what the verifier did not decide",
                   samples=["kvc-replay %s %d" % (prop, seed)],
                   explanation="not every obligation was discharged: the listed tasks are decided by the bounded check only")
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if full else "exploration", coverage=cov, assumptions=ass,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for r in results:
        if r["status"] != "proved":
            log("%s %s [%s]: %s (%s)" % (prop, r["name"], r["mode"], r["status"], r["why"]))
    log("%s %s: %d of %d obligations discharged in %d functions; replay trials %d; %.1f s" % (prop, tier, len(disch), len(obls), len(fns), trials, time.time() - t0))
    for k in known(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violation:
        log(violation[2])
        if violation[0] == "found":
            log("VIOLATION property=%s replay=%s" % (prop, violation[1]))
        else:
            log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, violation[1]))
        return 1
    if not harness_ok and not full:
        log("no answer: neither the verifier nor the replay harness could decide")
        return 2
    return 0


def general_assumptions(prop):
    return ["T is read as the real numbers unless a task says f32 or f64 (rounding is out of scope there)",
            "library functions behave as their contracts in kvc/lib.py say",
            "a mutex is never poisoned" + (" (an update that finds a cache cleared by another thread panics while it holds no lock)" if prop == "C26" else
                                           " and no other thread changes the tree during a call"),
            *(["the obligations imply the property: every node waited for by a holder follows a joint, no node held meanwhile does, so no circle of "
               "waiting threads exists (argued, not machine-checked)", "no guard is kept by the caller", "nodes made by an operation are unknown to other threads until it returns"]
              if prop == "C26" else []),
            "no logger is enabled at a level that would evaluate log arguments"]


if __name__ == "__main__":
    sys.exit(main())
