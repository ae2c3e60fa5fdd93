"""C09: cross-validation results do not depend on how work is scheduled.

The real GridSearchCV / cross_val_* / Pipeline code of scikit-learn runs over a
joblib backend whose workers are tasks of the deterministic scheduler."""
import json
import pickle
import numpy as np
import joblib
from joblib.parallel import register_parallel_backend
from joblib._parallel_backends import ParallelBackendBase
from .. import common as C, iso, sched, zoo
from ..zoo import KINDS

ID = "C09"
BUDGET = {"quick": {"runs": 900, "cap": 70}, "thorough": {"runs": 20000, "cap": 1500}}
RULE = ("one evaluation is one cross-validation, grid search or pipeline whose folds are executed by 2-4 simulated workers (threads sharing "
        "memory, or processes exchanging pickles) in seeded order and interleaving, with seeded loss of workers and re-execution; scores, best "
        "settings, best model and predictions are compared with the sequential run in a pristine process; distinct = distinct recorded schedule "
        "and execution order")
REAL = "direpack, scikit-learn model selection and pipelines, joblib.Parallel; numpy, scipy, pandas"
STUB = "joblib worker pool (deterministic scheduler in its place); cyipopt"
ASSUME = ["a lost worker loses the whole task, which is executed again from its serialised or shared input"]


class WorkerLost(BaseException):
    pass


GRID = {
    "snipls": lambda r: {"eta": [0.1, 0.6], "n_components": [1, 2]},
    "sprm": lambda r: {"eta": [0.2, 0.7], "n_components": [1, 2]},
    "rm": lambda r: {"fun": ["Hampel", "Huber"], "probp1": [0.9, 0.95]},
    "ppdire": lambda r: {"n_components": [1, 2]},
    "sudire": lambda r: {"n_components": [1, 2], "n_slices": [2, 3]},
}


def gen(r, tier, i):
    kind = r.wpick([("snipls", 3), ("sprm", 3), ("rm", 2), ("ppdire", 2), ("sudire", 2)])
    K = KINDS[kind]
    cfg = K.sample(r)
    cfg["verbose"] = False
    if kind == "sprm":
        cfg["maxit"] = 8
    if kind in ("snipls", "sprm"):
        cfg["columns"] = False
        cfg["eta"] = r.pick([0.1, 0.4])
    if kind == "ppdire":
        cfg.update(optimizer=r.pick(["SLSQP", "IPOPT", "grid"]), projection_index="@dicomo", trimming=0)
        cfg["pi_arguments"] = {"mode": r.pick(["cov", "continuum", "var"])}
        cfg["optimizer_options"] = {"ndir": 4, "maxiter": 2} if cfg["optimizer"] == "grid" else {"maxiter": 6} if cfg["optimizer"] == "SLSQP" else {"max_iter": 10}
        cfg["compression"] = False
    d = {"s": r.seed(), "n": r.int(24, 33), "p": r.int(3, 4), "k": r.wpick([("normal", 3), ("outliers", 1), ("heavy", 1)]),
         "xc": r.wpick([("array", 3), ("frame", 1), ("fortran", 1), ("readonly", 1)]), "yc": r.pick(["1d", "1d", "series", "readonly"])}
    mode = r.wpick([("grid", 4), ("cvs", 2), ("cvp", 1.5), ("validate", 1)])
    pipe = r.wpick([(None, 3), ("scaler", 2), ("wrapper", 1)])
    plan = {"kind": kind, "cfg": cfg, "d": d, "mode": mode, "pipe": pipe, "grid": GRID[kind](r) if mode == "grid" else None,
            "cv": r.pick([2, 3]), "score": r.pick([None, "robust"]), "workers": r.int(2, 4), "proc": r.chance(0.5),
            "order": r.seed(), "lost": [[r.int(0, 9), r.u()] for _ in range(r.pick([0, 0, 1, 2]))], "pseed": r.seed()}
    if pipe:
        plan["pcfg"] = KINDS[pipe].sample(r)
        if pipe == "scaler":
            plan["pcfg"] = {"center": r.pick(["mean", "median", "l1median"]), "scale": r.pick(["std", "mad"]), "trimming": 0}
    plan["pol"] = {"seed": r.seed(), "mean": r.pick([3, 20, 100, 500]), "d": r.int(1, 5), "kind": r.pick(["quantum", "pct"])}
    return plan


def experiment(plan, n_jobs):
    """the user's script; identical whatever the backend"""
    from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict, cross_val_score, cross_validate
    from sklearn.pipeline import Pipeline
    from sklearn.metrics import make_scorer
    import direpack as dp
    K = KINDS[plan["kind"]]
    est = K.build(plan["cfg"])
    X, y = zoo.make(plan["d"])
    cv = KFold(plan["cv"])
    scoring = make_scorer(dp.robust_loss, greater_is_better=False) if plan["score"] else None
    grid = plan["grid"]
    if plan["pipe"]:
        est = Pipeline([("pre", KINDS[plan["pipe"]].build(plan["pcfg"])), ("est", est)])
        if grid:
            grid = {"est__" + k: v for k, v in grid.items()}
            if plan["pipe"] == "scaler":
                grid["pre__center"] = ["mean", "median"]
                grid.pop(sorted(grid)[0])
    out = {}
    m = plan["mode"]
    if m == "grid":
        gs = GridSearchCV(est, grid, cv=cv, scoring=scoring, n_jobs=n_jobs, pre_dispatch="all")
        gs.fit(X, y)
        out["cv"] = {k: zoo.norm(v) for k, v in gs.cv_results_.items() if "time" not in k and k != "params"}
        out["params"] = [str(sorted(p.items())) for p in gs.cv_results_["params"]]
        out["best"] = [str(sorted(gs.best_params_.items())), int(gs.best_index_), float(gs.best_score_)]
        P, q = zoo.make(zoo.probe_spec(plan["pseed"], plan["d"]["p"]))
        out["pred"] = C.outcome(lambda: zoo.norm(gs.predict(P)))[:2]
    elif m == "cvs":
        out["scores"] = zoo.norm(cross_val_score(est, X, y, cv=cv, scoring=scoring, n_jobs=n_jobs, pre_dispatch="all"))
    elif m == "cvp":
        out["pred"] = zoo.norm(cross_val_predict(est, X, y, cv=cv, n_jobs=n_jobs, pre_dispatch="all"))
    else:
        v = cross_validate(est, X, y, cv=cv, scoring=scoring, n_jobs=n_jobs, pre_dispatch="all", return_train_score=True)
        out["val"] = {k: zoo.norm(x) for k, x in v.items() if "time" not in k}
    return out


def _sequential(plan):
    iso.quiet_io()
    C.set_solver({})
    return C.outcome(lambda: experiment(plan, 1))[:2]


class Future:
    def __init__(self, be, func):
        self.be, self.func, self.done, self.exc, self.value = be, func, False, None, None

    def get(self, timeout=None):
        if not self.done:
            self.be.run_all()
        if self.exc is not None:
            raise self.exc
        return self.value


class Backend(ParallelBackendBase):
    supports_retrieve_callback = False
    supports_timeout = False
    supports_sharedmem = True
    uses_threads = True
    plan = None
    log = None

    def effective_n_jobs(self, n_jobs):
        return self.plan["workers"]

    def get_nested_backend(self):
        from joblib._parallel_backends import SequentialBackend
        return SequentialBackend(nesting_level=1), None

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        self.parallel = parallel
        self.q = []
        return self.effective_n_jobs(n_jobs)

    def submit(self, func, callback=None):
        f = Future(self, func)
        f.callback = callback
        self.q.append(f)
        return f

    def run_all(self):
        plan = self.plan
        jobs = [f for f in self.q if not f.done]
        self.q = []
        g = np.random.RandomState(plan["order"] % 2 ** 31)
        queue = list(g.permutation(len(jobs)))
        kills = {}
        for j, u in plan["lost"]:
            kills[j % len(jobs)] = 1 + int(u * self.log["lines"] / max(1, len(jobs)))
        blobs = {}
        if plan["proc"]:
            import cloudpickle
            for k in range(len(jobs)):
                blobs[k] = cloudpickle.dumps(jobs[k].func)
        state = {}
        order = self.log["order"]

        def worker(w):
            def body():
                while queue:
                    k = int(queue.pop(0))
                    order.append([w, k])
                    state[w] = [k, 0]
                    try:
                        fn = pickle.loads(blobs[k]) if plan["proc"] else jobs[k].func
                        v = fn()
                        if plan["proc"]:
                            v = pickle.loads(pickle.dumps(v))
                        jobs[k].value, jobs[k].exc = v, None
                    except WorkerLost:
                        self.log["lost"] += 1
                        queue.append(k)       # a replacement worker takes it up later
                        continue
                    except Exception as e:
                        jobs[k].value, jobs[k].exc = None, e
                    finally:
                        state.pop(w, None)
                    jobs[k].done = True
                return "ok"
            return body

        def inject(me):
            s = state.get(me)
            if s is None:
                return
            s[1] += 1
            if kills.get(s[0]) is not None and s[1] >= kills[s[0]]:
                del kills[s[0]]
                raise WorkerLost()

        from . import c04
        pol = c04.resolve_policy(plan["pol"], [self.log["lines"]])
        if pol["pol"] == "segments" and self.log["calls"]:
            pol = {"pol": "segments", "segs": plan["pol"].get("more", [[]] * 9)[self.log["calls"] - 1]}
        S = sched.Sched(pol)
        S.inject = inject
        res = S.run([worker(w) for w in range(min(plan["workers"], max(1, len(jobs))))])
        self.log["traces"].append(S.trace)
        self.log["calls"] += 1
        self.log["switches"] += S.switches
        self.log["steps"] += S.steps
        bad = [r for r in res if r != "ok"]
        if bad:
            raise RuntimeError("worker loop failed: %s" % (bad[0],))
        for f in jobs:
            if f.callback is not None:
                f.callback(f.value)


register_parallel_backend("dst", Backend)


def _profile(plan):
    from .. import faults, mon
    iso.quiet_io()
    C.set_solver({})
    with faults.Probe() as p:
        o = C.outcome(lambda: experiment(plan, 1))[:2]
    mon.disable()
    return o, p.lines


def _fold(plan, params, tr, te):
    """one fold by hand, in a process where nothing else has happened"""
    from sklearn.metrics import make_scorer
    import direpack as dp
    iso.quiet_io()
    C.set_solver({})
    est = KINDS[plan["kind"]].build(dict(plan["cfg"], **params))
    X, y = zoo.make(plan["d"])
    cut = lambda a, i: a.iloc[i] if hasattr(a, "iloc") else a[i]
    est.fit(cut(X, tr), cut(y, tr))
    if plan["mode"] == "cvp":
        return zoo.norm(est.predict(cut(X, te)))
    if plan["score"]:
        return float(make_scorer(dp.robust_loss, greater_is_better=False)(est, cut(X, te), cut(y, te)))
    return float(est.score(cut(X, te), cut(y, te)))


def by_hand(plan, o):
    """violations of the parallel result o against folds run one by one, each in a pristine process"""
    from sklearn.model_selection import KFold, ParameterGrid
    X, y = zoo.make(plan["d"])
    cands = list(ParameterGrid(plan["grid"])) if plan["grid"] else [{}]
    g = np.random.RandomState(plan["order"] % 2 ** 31)
    c = int(g.randint(len(cands)))
    for f, (tr, te) in enumerate(KFold(plan["cv"]).split(X)):
        if plan["mode"] == "grid" and f != int(g.randint(plan["cv"])):
            continue
        try:
            v = iso.isolated(_fold, plan, cands[c], tr, te)
        except iso.ChildDied:
            continue                       # a fold which fails alone; sklearn records nan or raises
        got = {"grid": lambda: o["cv"]["split%d_test_score" % f][c], "cvs": lambda: o["scores"][f], "cvp": lambda: np.asarray(o["pred"])[te],
               "validate": lambda: o["val"]["test_score"][f]}[plan["mode"]]()
        d = zoo.diff(zoo.norm(got), zoo.norm(v))
        if d:
            return "fold %d of %s run alone with %s differs: %s" % (f, plan["mode"], cands[c], d)
    return None


def execute(plan):
    ref, lines = iso.isolated(_profile, plan)
    C.set_solver({})
    Backend.plan = plan
    Backend.log = log = {"order": [], "lost": 0, "traces": [], "calls": 0, "switches": 0, "steps": 0, "lines": lines}
    viol = []
    try:
        with joblib.parallel_config(backend="dst", n_jobs=plan["workers"]):
            o = C.outcome(lambda: experiment(plan, plan["workers"]))
    except sched.Deadlock:
        o = ("exc", "Deadlock", None)
    if o[0] == "exc" and o[1] == "Deadlock":
        viol.append({"cls": "deadlock", "msg": "all workers blocked"})
    elif not C.same_status(o, ref):
        viol.append({"cls": "status", "msg": "%s %s with %d workers: %s, sequential: %s" % (plan["mode"], plan["kind"], plan["workers"], C.status(o), C.status(ref))})
    elif o[0] == "ok":
        d = zoo.diff(o[1], ref[1])
        if d:
            viol.append({"cls": "result", "msg": "%s of %s%s (%s workers, %d lost): %s" % (
                plan["mode"], plan["kind"], " in a pipeline" if plan["pipe"] else "", "process" if plan["proc"] else "thread", log["lost"], d)})
    hand = 0
    if not viol and o[0] == "ok" and not plan["pipe"]:
        hand = 1
        d = by_hand(plan, o[1])
        if d:
            viol.append({"cls": "by-hand", "msg": "%s: %s" % (plan["kind"], d)})
    st = {"folds_checked_by_hand": hand, "fault:worker-lost": log["lost"], "preemptions": log["switches"], "tasks_run": len(log["order"]), "mode:" + plan["mode"]: 1,
          "raises": int(o[0] == "exc"), "pool:" + ("process" if plan["proc"] else "thread"): 1}
    if viol and plan["pol"].get("pol") != "segments" and log["traces"]:
        plan = dict(plan, pol={"pol": "segments", "segs": log["traces"][0], "more": log["traces"][1:]})
    return {"viol": viol, "stats": st, "plan": plan, "steps": log["steps"], "digest": C.digest_of([o[:2], log["order"], log["traces"]]),
            "sig": [C.sig(plan["kind"], log["order"], log["traces"])] if log["order"] else [], "nontrivial": bool(log["order"])}


def shrink(plan):
    if plan["pipe"]:
        yield dict(plan, pipe=None)
    for i in range(len(plan["lost"])):
        yield dict(plan, lost=plan["lost"][:i] + plan["lost"][i + 1:])
    if plan["proc"]:
        yield dict(plan, proc=False)
    if plan["workers"] > 2:
        yield dict(plan, workers=2)
    yield from C.generic_shrink(plan, lists=())
    if plan["pol"].get("pol") == "segments":
        for s in sched.shrink_segments(plan["pol"]["segs"]):
            yield dict(plan, pol=dict(plan["pol"], segs=s))
