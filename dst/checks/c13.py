"""C13: the bootstrap dimension estimate resamples whole observations.

The real bootstrap runs over a simulated generator (real, extreme and heavily
repeating draw sequences) and its refits are observed at sudire.fit."""
import inspect
import sys
import numpy as np
import pandas as pd
from .. import common as C, faults, iso, mon, zoo

ID = "C13"
BUDGET = {"quick": {"runs": 4500, "cap": 70}, "thorough": {"runs": 50000, "cap": 1500}}
RULE = ("one evaluation is one bootstrap estimate under a seeded draw sequence (real, boundary-heavy, few distinct, sorted draws), container and method, "
        "with or without an earlier interrupted estimate; every refit's data, settings and projection are recorded and the report is recomputed from "
        "them; distinct = (method, settings, containers, generator mode, seed)")
ASSUME = ["refits go through sudire.fit; a run in which no refit is observed is inconclusive"]
METHS = ("sir", "save", "dr", "phd", "iht")


def gen(r, tier, i):
    p = r.int(2, 4)
    plan = {"kind": r.pick(METHS) if not r.chance(0.06) else "dcov-sdr", "B": r.wpick([(1, 1), (2, 2), (4, 2), (6, 1), (10, 1), (16, 0.4), (20, 0.6)]),
            "d": {"s": r.seed(), "n": r.int(26, 46), "p": p, "k": r.wpick([("normal", 4), ("nonlin", 3), ("outliers", 1), ("heavy", 1), ("dup", 1), ("discy", 1)])},
            "xc": r.pick(["array", "array", "fortran", "readonly", "frame", "shuffled"]), "yc": r.pick(["1d", "1d", "2d", "series", "frame", "shuffled", "readonly"]),
            "kw": {}, "draws": r.wpick([("real", 5), ("edge", 1.5), ("few", 1.5), ("sorted", 1)]), "seed": r.seed(), "solver": {}}
    if plan["kind"] == "dcov-sdr":
        plan["B"] = r.int(1, 2)
        plan["d"]["p"] = 2
    if r.chance(0.7):
        plan["kw"]["n_slices"] = r.int(2, 4)
    if r.chance(0.3):
        plan["kw"]["center_data"] = r.chance(0.5)
    if r.chance(0.3):
        plan["kw"]["scale_data"] = r.chance(0.5)
    if r.chance(0.3):
        plan["kw"]["center"] = r.pick(["mean", "median"])
    if r.chance(0.2):
        plan["fault"] = C.sample_fault(r)
    return plan


def data(plan):
    X, y = zoo.raw_xy(plan["d"])
    n = len(y)
    g = np.random.RandomState(plan["seed"] % 2 ** 31)
    perm = ["k%d" % v for v in g.permutation(n)]
    if plan["xc"] == "shuffled":
        Xc = pd.DataFrame(X.copy(), columns=zoo.names(X.shape[1]), index=[int(s[1:]) for s in perm])
    else:
        Xc = zoo.wrap_x(X, plan["xc"])
    if plan["yc"] == "shuffled":
        yc = pd.Series(y.copy(), index=[int(s[1:]) for s in perm[::-1]])
    else:
        yc = zoo.wrap_y(y, plan["yc"])
    return X, y, Xc, yc


class Draws:
    """the simulated generator: same interface, adversarial values"""

    def __init__(self, mode, seed):
        self.mode, self.g = mode, np.random.RandomState((seed + 1) % 2 ** 31)
        self.n = 0
        self.real = {}

    def install(self):
        if self.mode == "real":
            return
        for name in ("randint", "choice"):
            self.real[name] = getattr(np.random, name)
        np.random.randint = self.randint
        np.random.choice = self.choice

    def idx(self, lo, hi, size):
        self.n += 1
        m = int(np.prod(size)) if size is not None else 1
        k = hi - lo
        if self.mode == "edge":
            v = np.where(self.g.random_sample(m) < 0.4, self.g.choice([0, k - 1], m), self.g.randint(0, k, m))
        elif self.mode == "few":
            v = self.g.choice(self.g.permutation(k)[: max(4, k // 3)], m)
        else:
            v = np.sort(self.g.randint(0, k, m))
        v = v + lo
        return v.reshape(size) if size is not None else int(v[0])

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.idx(low, high, size)

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None or not replace:
            return self.real["choice"](a, size, replace, p)
        if np.ndim(a) == 0:
            return self.idx(0, int(a), size)
        return np.asarray(a)[self.idx(0, len(a), size)]


def observe_fits(rec):
    mod = sys.modules["direpack.sudire.sudire"]
    real = mod.sudire.fit
    sig = inspect.signature(real)

    def fit(self, *a, **k):
        try:
            b = sig.bind(self, *a, **k).arguments
            names = list(b)
            X = b.get("X", b[names[1]])
            kw = b.get("kwargs", {})
            y = b.get("y", kw.get("y"))
            if y is None and len(b.get("args", ())) > 0:
                y = b["args"][0]
            e = {"X": np.array(X, dtype=float, copy=True), "y": np.array(y, dtype=float, copy=True).reshape(-1),
                 "par": {q: getattr(self, q) for q in ("sudiremeth", "n_components", "n_slices", "center_data", "scale_data", "center")}}
        except Exception as ex:
            rec.append({"odd": repr(ex)})
            return real(self, *a, **k)
        out = real(self, *a, **k)
        e["P"] = np.array(self.proj_mat_, dtype=float, copy=True)
        rec.append(e)
        return out
    mod.sudire.fit = fit
    return mod


def run(plan, fault=None, probe=False):
    """one bootstrap estimate in this process"""
    _, _, Xc, yc = data(plan)
    np.random.seed(plan["seed"] % 2 ** 32)
    mod = sys.modules["direpack.sudire.sudire"]
    return C.outcome(lambda: mod.estimate_structural_dim(plan["kind"], Xc, yc, plan["B"], **dict(plan["kw"])))


def _profile(plan):
    with faults.Probe() as p:
        run(plan)
    mon.disable()
    return dict(p.calls), p.lines


def execute(plan):
    viol, st = [], {"draws:" + plan["draws"]: 1}
    X0, y0, _, _ = data(plan)
    n, p = X0.shape
    if plan.get("fault"):
        f = plan["fault"]
        if "nth" not in f:
            f = plan["fault"] = C.resolve_fault(f, *iso.isolated(_profile, plan))
        if f:
            with faults.Probe(f) as pr:
                run(plan)
            mon.disable()
            if pr.fired:
                st["fault:earlier-" + f["kind"]] = 1
    rec = []
    observe_fits(rec)
    D = Draws(plan["draws"], plan["seed"])
    D.install()
    o = run(plan)
    if plan["draws"] != "real":
        st["fault:draws-" + plan["draws"]] = D.n

    def bad(cls, msg):
        viol.append({"cls": cls, "msg": "%s, B=%d, %s draws, X %s, y %s: %s" % (plan["kind"], plan["B"], plan["draws"], plan["xc"], plan["yc"], msg)})

    pairs = {}
    for i in range(n):
        pairs.setdefault(X0[i].tobytes(), []).append((y0[i], i))
    drawn, per = set(), {}
    by = {}
    for e in rec:
        if "odd" in e:
            continue
        orig = e["X"].shape == X0.shape and np.array_equal(e["X"], X0) and np.array_equal(e["y"], y0)
        by.setdefault(int(e["par"]["n_components"]), []).append((orig, e))
        if e["X"].ndim != 2 or e["X"].shape[0] != e["y"].shape[0] or e["X"].shape[0] != n:
            bad("size", "a refit used %s predictors and %s responses of %d cases" % (e["X"].shape, e["y"].shape, n))
            break
        for a in range(n):
            c = pairs.get(e["X"][a].tobytes())
            if c is None:
                bad("pairing", "a refit used a predictor row which is not a case of the data")
                break
            hit = [i for v, i in c if v == e["y"][a]]
            if not hit:
                bad("pairing", "a refit paired the predictors of case %d with response %.5g instead of its own %.5g" % (c[0][1], e["y"][a], c[0][0]))
                break
            if not orig:
                drawn.add(hit[0])
                per.setdefault(int(e["par"]["n_components"]), set()).update(hit)
        if viol:
            break
        want = dict({"n_slices": 6, "center_data": True, "scale_data": True, "center": "mean"}, **plan["kw"])
        for q, v in want.items():
            if e["par"][q] != v:
                bad("settings", "a refit used %s=%r instead of %r" % (q, e["par"][q], v))
                break
        if e["par"]["sudiremeth"] != plan["kind"]:
            bad("settings", "a refit used method %s" % e["par"]["sudiremeth"])
        if viol:
            break
    if o[0] == "ok" and rec and not viol:
        h, rep = int(o[1][0]), np.array(o[1][1], dtype=float).reshape(-1)
        if len(rep) != p:
            bad("report", "%d discrepancies for %d candidate dimensions" % (len(rep), p))
        elif not np.isnan(rep).any() and h != int(np.argmin(rep)) + 1 and not np.isclose(rep[h - 1], rep.min(), rtol=1e-9, atol=1e-13):
            bad("choice", "chose %d, reported %s" % (h, rep))
        else:
            for k in range(1, p + 1):
                fits = by.get(k, [])
                full = [e for og, e in fits if og]
                res = [e for og, e in fits if not og]
                extra = max(0, plan["B"] - len(res))
                if len(res) != plan["B"] and not (extra and len(full) > extra):      # a draw which happens to be the data itself
                    bad("count", "%d resamples for candidate dimension %d" % (len(res), k))
                    break
                if not full:
                    continue
                P = full[0]["P"]
                try:
                    ds = [np.linalg.norm(P - e["P"], 2) for e in res] + [0.0] * extra
                except (np.linalg.LinAlgError, ValueError):
                    continue
                m = float(np.mean(ds))
                if np.isfinite(m) and not np.isclose(m, rep[k - 1], rtol=1e-6, atol=1e-9):
                    bad("mean", "discrepancy reported for dimension %d is %.8g, mean over its own resamples %.8g" % (k, rep[k - 1], m))
                    break
        if not viol and plan["draws"] == "real" and p * plan["B"] >= 36 and plan["d"]["k"] not in ("dup",):
            st["coverage_checked"] = 1
            if len(drawn) < n:
                bad("coverage", "cases %s were never drawn in %d resamples" % (sorted(set(range(n)) - drawn)[:5], p * plan["B"]))
        if not viol and plan["d"]["k"] != "dup":
            enough = plan["draws"] == "real" and plan["B"] >= 20 or plan["draws"] == "edge" and D.n and plan["B"] >= 4
            must = set(range(n)) if plan["draws"] == "real" else {0, n - 1}      # (boundary-heavy draws: the first and the last case)
            for k in per if enough else ():
                st["coverage_per_dimension"] = st.get("coverage_per_dimension", 0) + 1
                if must - per[k]:
                    bad("coverage", "cases %s were never drawn in the %d resamples for candidate dimension %d" % (sorted(must - per[k])[:5], plan["B"], k))
                    break
        if not viol and plan["draws"] == "real" and plan["B"] >= 2 and plan["d"]["k"] != "dup":
            for k in by:
                res = [e for og, e in by[k] if not og]
                if len(res) >= 2 and all(np.array_equal(e["X"], res[0]["X"]) for e in res[1:]):
                    bad("resamples", "all %d resamples for candidate dimension %d are the same" % (len(res), k))
                    break
                if len(res) >= 2 and all(len({x.tobytes() for x in e["X"]}) == n for e in res):
                    bad("resamples", "no resample for candidate dimension %d repeats a case" % k)
                    break
    st["raises"] = int(o[0] != "ok")
    st["refits"] = len(rec)
    return {"viol": viol, "stats": st, "digest": C.digest_of([o[:2] if o[0] == "exc" else zoo.norm(list(o[1]))]), "plan": plan, "steps": len(rec),
            "sig": [C.sig(plan["kind"], plan["kw"], plan["B"], plan["xc"], plan["yc"], plan["draws"], plan["seed"])] if rec else []}


def shrink(plan):
    if plan.get("fault"):
        yield {k: v for k, v in plan.items() if k != "fault"}
    for k in list(plan["kw"]):
        yield dict(plan, kw={a: b for a, b in plan["kw"].items() if a != k})
    for b in (1, 2, plan["B"] // 2):
        if 0 < b < plan["B"]:
            yield dict(plan, B=b)
    for k, v in (("xc", "array"), ("yc", "1d"), ("draws", "real")):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    if plan["d"]["p"] > 2:
        yield dict(plan, d=dict(plan["d"], p=2))
    if plan["d"]["k"] != "normal":
        yield dict(plan, d=dict(plan["d"], k="normal"))
