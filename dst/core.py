"""Seeded search: run generation, isolation, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

from . import iso

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")
WORKERS = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
RUN_TIMEOUT = 150.0


def load(pid):
    return importlib.import_module("dst.checks." + pid.lower())


def plan_digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
# one run

def _exec(mod, plan):
    iso.quiet_io()
    import numpy as np
    from . import stubs
    stubs.SOLVER.reset()
    np.random.seed(plan.get("rng", 0) % (2 ** 32))
    return mod.execute(plan)


def run_plan(mod, plan, timeout=RUN_TIMEOUT):
    """Execute a plan in a fresh fork.  Returns a result dict."""
    t = time.monotonic()
    try:
        res = iso.isolated(_exec, mod, plan, timeout=timeout)
    except iso.ChildTimeout:
        res = {"viol": [], "inconclusive": "wall clock limit"}
    except iso.ChildDied as e:
        res = {"viol": [], "inconclusive": str(e)[-1500:]}
    res["wall"] = time.monotonic() - t
    return res


def gen_plan(mod, seed, i, tier):
    from .zoo import R
    r = R(seed, int(mod.ID[1:]), i)
    plan = mod.gen(r, tier, i)
    plan["rng"] = plan.get("rng", r.seed())
    plan = json.loads(json.dumps(plan))
    return plan


def _run_index(mod, seed, i, tier):
    """generation also happens in the fork, so the parent stays pristine"""
    iso.quiet_io()
    plan = gen_plan(mod, seed, i, tier)
    import numpy as np
    from . import stubs
    stubs.SOLVER.reset()
    np.random.seed(plan["rng"] % (2 ** 32))
    res = mod.execute(json.loads(json.dumps(plan)))
    res.setdefault("plan", plan)
    return res


# --------------------------------------------------------------------------
# workers

def _worker(mod, seed, tier, idx, wfd, end):
    out = os.fdopen(wfd, "wb")
    for i in idx:
        if time.monotonic() > end:
            break
        t = time.monotonic()
        try:
            res = iso.isolated(_run_index, mod, seed, i, tier, timeout=RUN_TIMEOUT)
        except iso.ChildTimeout:
            res = {"viol": [], "inconclusive": "wall clock limit"}
        except iso.ChildDied as e:
            res = {"viol": [], "inconclusive": str(e)[-1500:]}
        res["wall"] = time.monotonic() - t
        res["i"] = i
        data = pickle.dumps(res)
        out.write(len(data).to_bytes(4, "big") + data)
        out.flush()
    out.close()
    os._exit(0)


def search(mod, seed, tier, runs, cap, on_result, nworkers=WORKERS, first=0):
    """Runs indices first..first+runs-1; calls on_result(res); stops when it returns True."""
    end = time.monotonic() + cap
    chans = {}
    pids = []
    for w in range(nworkers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                for c in chans:
                    os.close(c)
                os.close(r)
                _worker(mod, seed, tier, range(first + w, first + runs, nworkers), wfd, end)
            finally:
                os._exit(4)
        os.close(wfd)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        chans[r] = b""
        pids.append(pid)
    stop = False
    try:
        while chans and not stop:
            ready, _, _ = select.select(list(chans), [], [], 5.0)
            if not ready and time.monotonic() > end + RUN_TIMEOUT + 20:
                break
            for fd in ready:
                b = os.read(fd, 1 << 20)
                if not b:
                    os.close(fd)
                    del chans[fd]
                    continue
                buf = chans[fd] + b
                while len(buf) >= 4:
                    n = int.from_bytes(buf[:4], "big")
                    if len(buf) < 4 + n:
                        break
                    res = pickle.loads(buf[4:4 + n])
                    buf = buf[4 + n:]
                    if on_result(res):
                        stop = True
                chans[fd] = buf
    finally:
        for fd in chans:
            os.close(fd)
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(p, 0)
            except OSError:
                pass


# --------------------------------------------------------------------------
# known findings

def known(pid):
    """[(key, text)] of listed findings of this property."""
    out = []
    try:
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    key, text = rest.split(" ", 1)
                    assert key.startswith("key=")
                    out.append((key[4:], text))
    except FileNotFoundError:
        pass
    return out


def fresh(res, keys):
    """violations that are not listed findings"""
    return [v for v in res.get("viol", []) if v.get("key") not in keys]


# --------------------------------------------------------------------------
# minimisation

def minimise(mod, plan, cls, keys, seconds=60.0):
    """Greedy: accept any smaller plan which still shows a violation of the same class."""
    end = time.monotonic() + seconds
    best, tried = plan, 0
    shrink = getattr(mod, "shrink", None)
    if shrink is None:
        return best, 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in shrink(best):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                cand = json.loads(json.dumps(cand))
            except Exception:
                continue
            res = run_plan(mod, cand, timeout=60.0)
            if any(v["cls"] == cls for v in fresh(res, keys)):
                best = res.get("plan") or cand
                best = json.loads(json.dumps(best))
                progress = True
                break
    return best, tried


# --------------------------------------------------------------------------
# check

def replay_dir():
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def src_digest():
    from .boot import SRC
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(SRC, "direpack"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(base, f), "rb") as fh:
                    h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:16]


def check(pid, tier, seed, runs=None, cap=None, nworkers=WORKERS, quiet=False):
    t0 = time.monotonic()
    mod = load(pid)
    if hasattr(mod, "prepare"):
        mod.prepare()
    b = mod.BUDGET[tier]
    runs = runs or b["runs"]
    cap = cap or b["cap"]
    keys = {k for k, _ in known(pid)}
    agg = {"stats": {}, "sigs": set(), "ev": 0, "nontriv": 0, "incon": [], "steps": 0, "samples": [], "dig": hashlib.sha256(),
           "digs": {}, "known_hits": {}, "walls": []}
    viols = []

    def on_result(res):
        agg["ev"] += 1
        agg["walls"].append((res["wall"], (res.get("plan") or {}).get("kind"), res["i"]))
        if res.get("inconclusive"):
            agg["incon"].append((res["i"], res["inconclusive"]))
            return False
        for k, v in res.get("stats", {}).items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["steps"] += res.get("steps", 0)
        if res.get("sig"):
            agg["sigs"].update(res["sig"])
        agg["digs"][res["i"]] = res.get("digest", "")
        if len(agg["samples"]) < 3 and res.get("nontrivial", True) and res.get("plan"):
            agg["samples"].append({"run": res["i"], "plan": res["plan"]})
        for v in res.get("viol", []):
            if v.get("key") in keys:
                agg["known_hits"][v["key"]] = agg["known_hits"].get(v["key"], 0) + 1
        f = fresh(res, keys)
        if f:
            viols.append((res, f))
            return len(viols) >= 3
        return False

    search(mod, seed, tier, runs, cap, on_result, nworkers)
    tsearch = time.monotonic() - t0

    # known findings are demonstrated from their committed plans
    for key, text in known(pid):
        p = os.path.join(HERE, "findings", key + ".json")
        plan = json.load(open(p))["plan"]
        res = run_plan(mod, plan)
        if any(v.get("key") == key for v in res.get("viol", [])):
            print("KNOWN-FINDING: property=%s %s" % (pid, text), flush=True)
        other = fresh(res, keys)
        if other:
            res["plan"], res["i"] = plan, -1
            viols.append((res, other))

    # confirm, minimise, write replay files
    reported = []
    unconfirmed = 0
    for res, f in viols:
        plan = json.loads(json.dumps(res["plan"]))
        cls = f[0]["cls"]
        if any(c == cls for c, _ in reported):
            continue
        again = run_plan(mod, plan)
        if not any(v["cls"] == cls for v in fresh(again, keys)):
            again = run_plan(mod, plan)
            if not any(v["cls"] == cls for v in fresh(again, keys)):
                unconfirmed += 1
                sys.stderr.write("note: run %s did not reproduce: %s\n" % (res["i"], f[0]))
                continue
        small, tried = minimise(mod, plan, cls, keys, 60.0 if tier == "quick" else 240.0)
        fin = run_plan(mod, small)
        fv = [v for v in fresh(fin, keys) if v["cls"] == cls]
        if not fv:
            small, fin, fv = plan, again, [v for v in fresh(again, keys) if v["cls"] == cls]
        path = os.path.join(replay_dir(), "%s-%s.json" % (pid, plan_digest([small, cls])))
        doc = {"property": pid, "seed": seed, "run": res["i"], "tier": tier, "violation": fv[0], "digest": fin.get("digest"),
               "plan": small, "original_plan": plan, "minimiser_candidates": tried, "source": src_digest()}
        with open(path, "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
        ok = replay_check(path)
        doc["replayed_in_fresh_process"] = ok
        with open(path, "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
        reported.append((cls, path))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        print("  %s: %s%s" % (cls, fv[0]["msg"], "" if ok else "  (fresh-process replay differed)"), flush=True)
    wall = time.monotonic() - t0
    write_evidence(mod, tier, seed, agg, wall, tsearch, reported, unconfirmed, nworkers, runs)
    if not quiet:
        print("%s %s seed=%d runs=%d/%d distinct=%d inconclusive=%d unconfirmed=%d violations=%d wall=%.1fs digest=%s" % (
            pid, tier, seed, agg["ev"], runs, len(agg["sigs"]), len(agg["incon"]), unconfirmed, len(reported), wall,
            plan_digest(sorted(agg["digs"].items()))))
        for i, m in agg["incon"][:3]:
            sys.stderr.write("inconclusive run %d: %s\n" % (i, m[-700:]))
        if os.environ.get("DST_TIMES"):
            by = {}
            for w, k, i in agg["walls"]:
                by.setdefault(str(k), []).append((w, i))
            for k, v in sorted(by.items(), key=lambda kv: -sum(x for x, _ in kv[1])):
                print("   %-12s n=%d total %.1f mean %.3f max %.2f (run %d)" % (k, len(v), sum(x for x, _ in v), sum(x for x, _ in v) / len(v), *max(v)))
            print("   ", sorted(agg["stats"].items()))
    return (1 if reported else 0), agg


def replay_check(path):
    p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", path], capture_output=True, text=True,
                       timeout=400, env={k: v for k, v in os.environ.items()})
    return p.returncode == 1


def replay(path):
    doc = json.load(open(path))
    mod = load(doc["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = run_plan(mod, doc["plan"])
    if res.get("inconclusive"):
        print("inconclusive:", res["inconclusive"])
    hit = False
    for v in res.get("viol", []):
        same = v["cls"] == doc["violation"]["cls"]
        hit = hit or same
        print("%s %s: %s" % ("VIOLATION property=%s replay=%s" % (doc["property"], path) if same else "other", v["cls"], v["msg"]))
    print("digest", res.get("digest"), "recorded", doc.get("digest"))
    return 1 if hit else 0


def write_evidence(mod, tier, seed, agg, wall, tsearch, reported, unconfirmed, nworkers, runs):
    os.makedirs(EVID, exist_ok=True)
    st = agg["stats"]
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault:")}
    reach = {k[6:]: v for k, v in st.items() if k.startswith("reach:")}
    rest = {k: v for k, v in st.items() if not k.startswith(("fault:", "reach:"))}
    doc = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["ev"], "distinct_nontrivial": len(agg["sigs"]), "rule": mod.RULE,
            "samples": agg["samples"] or ["no run completed"],
            "runs_requested": runs, "runs_per_hour": round(agg["ev"] / max(tsearch, 1e-9) * 3600),
            "simulated_steps": agg["steps"],
            "simulated_time": "logical: one step is one executed line (or instruction) of library code; %d steps" % agg["steps"],
            "faults_injected": faults, "reached": reach, "counters": rest,
            "inconclusive_runs": len(agg["incon"]), "unconfirmed_violations": unconfirmed,
            "known_finding_hits": agg["known_hits"],
            "workers": nworkers, "source_digest": src_digest(),
            "real_components": getattr(mod, "REAL", "all of direpack, numpy, scipy, pandas, scikit-learn, statsmodels, dcor"),
            "stub_components": getattr(mod, "STUB", "cyipopt (simulated interior point solver); differential_evolution with a reduced budget"),
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
