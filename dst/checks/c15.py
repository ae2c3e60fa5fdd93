"""C15: every fit finishes within its iteration limits."""
import numpy as np
from .. import common as C, faults, mon, stubs, zoo
from ..zoo import KINDS

ID = "C15"
BUDGET = {"quick": {"runs": 7500, "cap": 75}, "thorough": {"runs": 40000, "cap": 1500}}
RULE = ("one evaluation is one fit under scripted, adversarial peers (a projection index or objective that is constant, cycling, growing, random, zero, infinite or missing "
        "from some call on; an optimizer that stops anywhere; non-converging data and tolerances); index evaluations, refinement iterations and executed library lines are "
        "counted against the limits set; distinct = (part, settings, script, data kind)")
ASSUME = ["a step is one executed line of library code", "the stochastic optimizer has no limit setting in the library and is run with a reduced budget",
          "slack of a few evaluations per component so that reorganised code stays within the bound"]

VALUES = ("real", "zero", "const", "alternate", "grow", "random", "nan", "inf", "neginf", "shrink", "tiny", "late-nan", "late-raise", "cycle3", "huge", "npzero", "last-better")


class Script:
    """adversarial user index: value sequence by call number; counts its evaluations"""
    _dst_user = True
    mode, seed, n, at, limit = "real", 0, 0, 50, 10 ** 9

    def __init__(self, **kw):
        self.kw = kw

    @classmethod
    def value(cls, x):
        cls.n += 1
        if cls.n > cls.limit:
            raise mon.StepBudget("more than %d evaluations" % cls.limit)
        n, m = cls.n, cls.mode
        if m == "zero":
            return 0.0
        if m == "npzero":
            return np.float64(0.0)
        if m == "const":
            return 1.25
        if m == "alternate":
            return 1.0 if n % 2 else -3.0
        if m == "cycle3":
            return (0.1, 5.0, -2.0)[n % 3]
        if m == "grow":
            return 1.5 ** min(n, 1500)
        if m == "last-better":
            return float(n)
        if m == "shrink":
            return 0.5 ** min(n, 900) + 0.0
        if m == "random":
            return float(np.random.RandomState((cls.seed + n) % (2 ** 31)).standard_normal())
        if m == "nan" or m == "late-nan" and n > cls.at:
            return float("nan")
        if m == "inf":
            return float("inf")
        if m == "neginf":
            return float("-inf")
        if m == "tiny":
            return 1e-300 * (1 + n % 7)
        if m == "huge":
            return 1e300 * (1 + n % 7)
        if m == "late-raise" and n > cls.at:
            raise faults.SimRuntimeError("simulated failure of the index")
        return float(np.var(x))

    def fit(self, x, **kw):
        return self.value(np.asarray(x, dtype=float))


def objective(beta, *args):
    return Script.value(np.asarray(beta, dtype=float))


class Centre:
    """user supplied location estimate; counts its calls"""
    _dst_user = True
    n = 0

    @classmethod
    def call(cls, X, trimming=0, **kw):
        cls.n += 1
        return np.median(np.asarray(X, dtype=float), axis=0)


def centre(X, trimming=0, **kw):
    return Centre.call(X)


objective._dst_user = centre._dst_user = True


def gen(r, tier, i):
    part = r.wpick([("grid", 4), ("optim", 3), ("sdr", 1.5), ("reweight", 4), ("kstep", 1), ("any", 3)])
    big = tier == "thorough"
    plan = {"kind": part, "vals": r.pick(list(VALUES)), "vseed": r.seed(), "vat": r.int(1, 400), "d": zoo.sample_data(r, [
        ("normal", 4), ("outliers", 3), ("youtliers", 2), ("heavy", 2), ("big", 1), ("dup", 2), ("ints", 2), ("zero", 1), ("lowmad", 2), ("consty", 1), ("nan", 1), ("inf", 0.5)],
        n=(10, 26), p=(3, 6 if part == "grid" else 5), plain=0.8)}
    if part == "grid":
        plan.update(h=r.int(1, 3), ndir=r.pick([1, 2, 3, 5, 9, 16]), maxiter=r.pick([1, 1, 2, 3, 5, 9, 20 if big else 9]), square=r.chance(0.3), y=r.chance(0.5),
                    lim=0, scale=r.chance(0.7), kw={"h": r.int(1, 2)} if r.chance(0.15) else {})
    elif part == "optim":
        plan.update(h=r.int(1, 2), opt=r.pick(["SLSQP", "SLSQP", "IPOPT", "COBYLA", "IPOPT"]), maxiter=r.int(1, 40), y=r.chance(0.5), solver=C.sample_solver(r, 0.6),
                    key=r.pick(["maxiter", "max_iter"]))
    elif part == "sdr":
        plan.update(h=r.int(1, 2), meth=r.pick(["user", "user", "dcov-sdr", "mdd-sdr"]), maxiter=r.int(1, 60), key=r.pick(["maxiter", "max_iter"]), solver=C.sample_solver(r, 0.6))
        plan["d"].update(n=r.int(18, 24), p=3, k=r.pick(["normal", "nonlin", "heavy"]))
    elif part == "reweight":
        est = r.pick(["sprm", "rm"])
        cfg = KINDS[est].sample(r)
        cfg["maxit"] = r.pick([1, 2, 3, 7, 15, 40, 40, 90])
        cfg["tol"] = r.pick([-1.0, 0.0, 1e-300, 1e-12, 0.01, 1e6, float("nan")])
        cfg["n_components"] = min(cfg.get("n_components", 1), plan["d"]["p"])
        if est == "rm":
            cfg.pop("n_components")
        cfg["columns"] = False
        if est == "rm":
            cfg.pop("columns")
        cfg["verbose"] = r.chance(0.1)
        cfg["centre"] = "@count"
        plan.update(est=est, cfg=cfg)
    elif part == "kstep":
        plan.update(maxit=r.pick([0, 1, 2, 5, 5, 12, 40]), tol=r.pick([-1.0, 0.0, 1e-10, 1.0]))
        plan["d"]["xc"] = "array"
    else:
        kind = zoo.pick_kind(r)
        K = KINDS[kind]
        plan.update(est=kind, cfg=K.sample(r))
        if kind in ("rm", "sprm"):
            plan["cfg"]["tol"] = r.pick([0.01, 0.0, -1.0])
        d = K.sample_data(r)
        d["k"] = r.pick([d["k"], "consty", "nan", "inf", "zero", "lowmad", "dup", "ints", "nanall"])
        if r.chance(0.2):
            d["n"] = r.int(2, 8)
        plan["d"] = d
        plan["call"] = K.sample_call(r, plan["cfg"], d)
        plan["solver"] = C.sample_solver(r, 0.5)
    return plan


def counted(fn, budget):
    """(outcome, lines, {function name: calls} of numerical calls)"""
    names = {}
    with faults.Probe(budget=budget) as p:
        real = mon.on_call

        def on_call(code, off, f, a):
            if faults.classify(f) == "linalg":
                k = getattr(f, "__name__", "?")
                names[k] = names.get(k, 0) + 1
        mon.on_call = on_call
        o = C.outcome(fn)
        mon.on_call = real
    return o, p.lines, names


def execute(plan):
    import direpack as dp
    part = plan["kind"]
    viol, st = [], {"part:" + part: 1}
    C.set_solver(plan.get("solver"))
    Script.mode, Script.seed, Script.at, Script.n, Script.limit = plan["vals"], plan["vseed"], plan["vat"], 0, 10 ** 9
    Centre.n = 0
    X, y = zoo.make(plan["d"])
    p = plan["d"]["p"]
    steps = 0

    def bad(cls, msg):
        viol.append({"cls": cls, "msg": msg})

    if part in ("grid", "optim", "sdr"):
        st["fault:values-" + plan["vals"]] = 1
    if part == "grid":
        h, nd, mi = plan["kw"].get("h", plan["h"]), plan["ndir"], plan["maxiter"]
        per = p + nd * (p - 1) + 1 + (mi + 1) * (p * nd + 1) + 2
        bound = h * (per + p + 4) + 4
        Script.limit = bound * 2 + 50
        est = dp.ppdire(projection_index=Script, pi_arguments={}, n_components=plan["h"], optimizer="grid", optimizer_options={"ndir": nd, "maxiter": mi},
                        square_pi=plan["square"], scale_data=plan["scale"], verbose=False)
        kw = dict(plan["kw"])
        if plan["y"]:
            kw["y"] = y
        o, lines, _ = counted(lambda: est.fit(X, **kw), 400000 + bound * 400)
        steps = lines
        st["evals"] = Script.n
        if o[0] == "exc" and o[1] == "StepBudget" or Script.n > bound:
            bad("grid-evaluations", "ppdire grid search, %d variables, %d components, ndir=%d, maxiter=%d: %s index evaluations (%d lines), limits allow %d" % (
                p, h, nd, mi, Script.n if Script.n <= Script.limit else "more than %d" % Script.limit, lines, bound))
        elif Script.n >= h * (per - p - 3):
            st["reach:grid-at-limit"] = 1
    elif part in ("optim", "sdr"):
        h, mi = plan["h"], plan["maxiter"]
        stubs.SOLVER.log = log = []
        key = plan["key"]
        oo = {key: mi}
        Script.limit = 60000
        if part == "optim":
            if plan["opt"] != "IPOPT":
                key = "maxiter"
                oo = {key: mi}
            est = dp.ppdire(projection_index=Script, pi_arguments={}, n_components=h, optimizer=plan["opt"], optimizer_options=oo, verbose=False)
            o, lines, _ = counted(lambda: est.fit(X, **({"y": y} if plan["y"] else {})), 6000000)
        else:
            est = dp.sudire(objective if plan["meth"] == "user" else plan["meth"], n_components=h, optimizer_options=oo, n_slices=3)
            o, lines, _ = counted(lambda: est.fit(X, y), 6000000)
        steps = lines
        st["evals"], st["solves"] = Script.n, len(log)
        if o[0] == "exc" and o[1] == "StepBudget":
            bad("no-end", "%s: still running after %d evaluations and %d lines" % (part, Script.n, lines))
        # the limit has to reach the optimizer, which is asked at most a few times per component
        for e in log:
            got = e["options"].get("max_iter" if e["solver"] == "ipopt" else "maxiter")
            if got != mi:
                bad("limit-lost", "%s with optimizer_options %r: the optimizer was started with options %r" % (
                    plan.get("opt") or plan.get("meth"), oo, e["options"]))
                break
        if len(log) > (h if part == "optim" else 2):
            bad("restarts", "optimizer started %d times for %d components" % (len(log), h))
        # evaluations: what the optimizer asked for (gradients by differences) plus a few per component
        own = 0
        for e in log:
            n = e["n"]
            if e["solver"] == "ipopt":
                iters = {"poor": 0, "scaled": 0, "repeat": 0, "limit": 1}.get(stubs.SOLVER.mode, stubs.SOLVER.maxiter)
                own += 2 + iters * (n + 3)
            else:
                own += e["nfev"]
        real = part == "sdr" or plan["opt"] == "IPOPT" or (plan.get("solver") or {}).get("minimize_mode", "real") in ("real", "poor", "scaled")
        if o[0] == "ok" and real and Script.n > own + 6 * (h + 1):
            bad("evaluations", "%d evaluations where the optimizer asked for at most %d" % (Script.n, own))
    elif part == "reweight":
        cfg = dict(plan["cfg"])
        cfg["centre"] = centre
        M = max(1, cfg["maxit"])
        h = cfg.get("n_components", 1)
        budget = 200000 + M * (12000 + 9000 * h)
        o, lines, fn = counted(lambda: getattr(dp, plan["est"])(**cfg).fit(X, y), budget)
        steps = lines
        st["est:" + plan["est"]] = 1
        st["fault:tolerance-unreachable"] = int(not cfg["tol"] > 1e-12)
        if o[0] == "exc" and o[1] == "StepBudget":
            bad("no-end", "%s maxit=%d tol=%r: still running after %d lines" % (plan["est"], M, cfg["tol"], lines))
        if plan["est"] == "sprm":
            if Centre.n > 1.5 * M + 10:
                bad("iterations", "sprm maxit=%d: %d evaluations of the location estimate" % (M, Centre.n))
            st["reach:iterated"] = int(Centre.n > M and M > 3)
        else:
            k = fn.get("lstsq", 0) or max(list(fn.values()) or [0])
            if k > 1.3 * M + 6:
                bad("iterations", "rm maxit=%d: %d regressions" % (M, k))
            st["reach:iterated"] = int(k >= M - 1 and M > 3)
            st["regressions"] = k
        # work is at most linear in the limit: compare with small limits on the same data
        if M >= 7 and not viol:
            base = []
            for m in (2, 3, 4):
                c2 = dict(cfg, maxit=m)
                base.append(counted(lambda: getattr(dp, plan["est"])(**c2).fit(X, y), budget)[1])
            per = max(base[1] - base[0], base[2] - base[1], base[0] // 4)
            if lines > base[2] + 1.6 * per * (M - 4) + 300 + 40 * h * M:
                bad("superlinear", "%s maxit=%d: %d lines; limits 2, 3, 4 take %s" % (plan["est"], M, lines, base))
    elif part == "kstep":
        from direpack.preprocessing import _preproc_utilities as pu
        X = np.asarray(X, dtype=float)
        o, lines, _ = counted(lambda: pu.kstepLTS(X, maxit=plan["maxit"], tol=plan["tol"]), 400000)
        o0, l0, _ = counted(lambda: pu.kstepLTS(X, maxit=1, tol=plan["tol"]), 400000)
        steps = lines
        st["reach:kstep"] = int(o[0] == "ok")
        if o[0] == "exc" and o[1] == "StepBudget":
            bad("no-end", "kstepLTS maxit=%d tol=%r does not end" % (plan["maxit"], plan["tol"]))
        else:
            lz = counted(lambda: pu.kstepLTS(X, maxit=0, tol=plan["tol"]), 400000)[1]
            per = max(l0 - lz, 10)
            if lines > l0 + 1.6 * per * plan["maxit"] + 40:
                bad("iterations", "kstepLTS maxit=%d: %d lines; no iteration takes %d, one %d" % (plan["maxit"], lines, lz, l0))
    else:
        K = KINDS[plan["est"]]
        b = C.outcome(lambda: K.build(plan["cfg"]))
        if b[0] == "ok":
            o, lines, _ = counted(lambda: K.do_fit(b[1], plan["call"], X, y), 6000000)
            steps = lines
            st["est:" + plan["est"]] = 1
            if o[0] == "exc" and o[1] == "StepBudget":
                bad("no-end", "%s %r still running after %d lines" % (plan["est"], plan["cfg"], lines))
        else:
            o = b
    st["fit_ok" if o[0] == "ok" else "fit_raises"] = 1
    sig = [C.sig(part, plan["vals"] if part in ("grid", "optim", "sdr") else "", plan["d"]["k"], p, plan.get("maxiter"), plan.get("h"), plan.get("ndir"), plan.get("opt"),
                 plan.get("meth"), plan.get("est"), (plan.get("cfg") or {}).get("maxit"), (plan.get("cfg") or {}).get("fun"), plan.get("solver"))]
    return {"viol": viol, "stats": st, "steps": steps, "sig": sig, "digest": C.digest_of([o[0], o[1] if o[0] == "exc" else "", steps, Script.n, Centre.n]), "plan": plan}


def shrink(plan):
    yield from C.generic_shrink(plan, ())
    for k, vs in (("vals", ["const", "alternate", "real"]), ("h", [1]), ("maxiter", [1, 2]), ("ndir", [1, 2]), ("square", [False]), ("y", [False])):
        for v in vs:
            if k in plan and plan[k] != v:
                yield dict(plan, **{k: v})
    if plan["d"]["p"] > 3:
        yield dict(plan, d=dict(plan["d"], p=plan["d"]["p"] - 1))
    if plan["d"]["n"] > 12:
        yield dict(plan, d=dict(plan["d"], n=12))
