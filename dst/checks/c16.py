"""C16: the optimizer bridge evaluates exactly what the optimizer asks for."""
import copy
import numpy as np
from .. import common as C, faults, stubs, zoo

ID = "C16"
BUDGET = {"quick": {"runs": 14000, "cap": 70}, "thorough": {"runs": 150000, "cap": 1200}}
RULE = ("one evaluation is one minimisation in which a scripted solver issues a seeded sequence of objective, gradient, constraint and constraint-derivative requests "
        "(repeats, returns to earlier points, one buffer rewritten in place, neighbouring points, callbacks failing and the request repeated, progress reports); every answer is "
        "compared with a direct evaluation at that point; distinct = request sequence with point identities, derivative mode, constraints and options")
ASSUME = ["difference derivatives agree with a direct difference quotient within 1e-4 of their size",
          "the solver stand-in follows cyipopt's protocol (Problem, add_option, solve, intermediate)"]
STUB = "cyipopt (scripted peer)"


class Fail:
    """failing user callback: nth call overall raises once"""
    at, n, fired = None, 0, 0

    @classmethod
    def tick(cls):
        cls.n += 1
        if cls.at is not None and cls.n == cls.at:
            cls.fired += 1
            raise faults.SimRuntimeError("simulated failure of a user function")


CALLS = {"fun": 0, "jac": 0}


def _f(x, a, b):
    x = np.asarray(x, dtype=float)
    return float(np.sum(np.cos(x * b) + 0.3 * x ** 2) + a * np.sum(x[:-1] * x[1:]) + a * x[0])


def _g(x, a, b):
    x = np.asarray(x, dtype=float)
    g = -b * np.sin(x * b) + 0.6 * x
    g[:-1] += a * x[1:]
    g[1:] += a * x[:-1]
    g[0] += a
    return g


def objective(x, *args, **kw):
    Fail.tick()
    CALLS["fun"] += 1
    a = args[0] if args else 0.7
    a = float(np.sum(a["v"])) if isinstance(a, dict) else float(np.sum(a))
    return _f(x, a, kw.get("b", args[1] if len(args) > 1 else 1.3))


def gradient(x, *args, **kw):
    Fail.tick()
    CALLS["jac"] += 1
    a = args[0] if args else 0.7
    a = float(np.sum(a["v"])) if isinstance(a, dict) else float(np.sum(a))
    return _g(x, a, kw.get("b", args[1] if len(args) > 1 else 1.3))


def both(x, *args, **kw):
    Fail.tick()
    CALLS["fun"] += 1
    a = args[0] if args else 0.7
    a = float(np.sum(a["v"])) if isinstance(a, dict) else float(np.sum(a))
    b = kw.get("b", args[1] if len(args) > 1 else 1.3)
    return _f(x, a, b), _g(x, a, b)


def con_a(x, *args):
    Fail.tick()
    c = float(np.sum(args[0])) if args else 1.0
    x = np.asarray(x, dtype=float)
    return float(np.sum(np.square(x)) - c)


def con_v(x, *args):
    Fail.tick()
    c = float(np.sum(args[0])) if args else 1.0
    x = np.asarray(x, dtype=float)
    return np.array([x[0] * x[-1] - c, np.sum(np.sin(x * c))])


def con_v_jac(x, *args):
    Fail.tick()
    c = float(np.sum(args[0])) if args else 1.0
    x = np.asarray(x, dtype=float)
    J = np.zeros((2, len(x)))
    J[0, 0] += x[-1]
    J[0, -1] += x[0]
    J[1] = c * np.cos(x * c)
    return J


def con_a_jac(x, *args):
    Fail.tick()
    x = np.asarray(x, dtype=float)
    return (2 * x).reshape(1, -1)


def con_zero(x, *args):
    """constant in the value, argument only"""
    Fail.tick()
    return float(np.sum(args[0])) if args else 0.5


CONS = {"a": (con_a, None), "v": (con_v, None), "vj": (con_v, con_v_jac), "aj": (con_a, con_a_jac), "k": (con_zero, None)}
TRUEJ = {"a": con_a_jac, "aj": con_a_jac, "v": con_v_jac, "vj": con_v_jac, "k": lambda x, *a: np.zeros((1, len(x)))}
NOPT = [("tol", [1e-3, 1e-6]), ("maxiter", [3, 17]), ("max_iter", [9, 40]), ("disp", [0, 5]), ("print_level", [0, 3]), ("mu_strategy", ["monotone", "adaptive"]),
        ("hessian_approximation", ["exact", "limited-memory"]), ("acceptable_tol", [1e-4]), ("linear_solver", ["mumps"]), ("max_cpu_time", [10.0, 20.0, 7.5]), (b"mu_init", [0.1]), (b"max_iter", [12])]


def gen(r, tier, i):
    n = r.int(1, 5)
    npts = r.int(1, 5)
    pts = [[round(float(v), 3) for v in r.g.standard_normal(n) * r.pick([0.5, 1, 3]) + 0.2] for _ in range(npts)]
    if r.chance(0.2):
        pts.append([0.0] * n)
    if r.chance(0.3):      # a point which differs in one coordinate only
        q = list(pts[0])
        q[r.int(0, n - 1)] += r.pick([4e-13, 1e-10, 1e-8, 1e-6, 1.0])
        pts.append(q)
    if r.chance(0.2):      # the same coordinates in another order
        pts.append(list(reversed(pts[0])))
    if r.chance(0.1):
        pts.append([-v for v in pts[0]])
    reqs = []
    for _ in range(r.int(3, 30 if tier == "quick" else 60)):
        reqs.append([r.wpick([("objective", 3), ("gradient", 3), ("constraints", 2), ("jacobian", 2), ("intermediate", 0.7)]), r.int(0, len(pts) - 1), r.int(0, 1)])
    ncon = r.pick([0, 1, 1, 2, 3])
    opts = {}
    for k, vs in r.shuffled(NOPT)[: r.int(0, 4)]:
        opts[k.decode() + "!b" if isinstance(k, bytes) else k] = r.pick(vs)
    jac = r.pick(["none", "none", "true", "fun"])
    plan = {"kind": "solve-" + jac, "n": n, "pts": pts, "reqs": reqs, "jac": jac, "cons": [
        {"c": r.pick(list(CONS)), "type": r.pick(["eq", "ineq"]), "args": r.pick([None, [0.4], [[1.5, -0.2]]]) if ncon else None} for _ in range(ncon)],
        "consform": r.pick(["tuple", "list", "dict"]), "args": r.pick([[], [0.9], [[0.2, 0.5]], [0.4, 0.8], [{"v": [0.5, 0.25]}]]),
        "kw": r.pick([None, None, {"b": 0.6}]), "opts": opts if r.chance(0.8) else None, "shared": r.chance(0.4), "tol": r.pick([None, None, 1e-5]),
        "bounds": r.chance(0.3), "status": r.pick([0, 0, 1, -1, 2, -13]), "finish": r.int(0, len(pts) - 1), "x0form": r.pick(["array", "array", "list", "readonly", "int", "scalar"]),
        "buffer": r.pick(["fresh", "inplace", "readonly", "inplace"]), "iters": r.int(0, 30), "scribble": r.chance(0.3)}
    if plan["x0form"] == "scalar" and n != 1:
        plan["x0form"] = "array"
    if len(plan["args"]) > 1:
        plan["kw"] = None
    if r.chance(0.35):
        plan["fail"] = r.u()
    if r.chance(0.15):
        plan["kind"] = "cache"
        plan["central"] = r.chance(0.5)
        plan["argsets"] = [r.pick([[], [0.4], [0.4], [[1.0, 2.0]], [2.5]]) for _ in range(r.int(1, 3))]
        for q in plan["reqs"]:
            q[2] = r.int(0, len(plan["argsets"]) - 1)
    return plan


def near(a, b, tol):
    a, b = np.atleast_1d(np.asarray(a, dtype=float)), np.atleast_1d(np.asarray(b, dtype=float))
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def freeze(o):
    return C.digest_of(o)


def execute(plan):
    from direpack.ipopt_temp import ipopt_wrapper as iw
    viol, st, hist = [], {}, []
    Fail.at, Fail.n, Fail.fired = None, 0, 0
    CALLS["fun"] = CALLS["jac"] = 0

    def bad(cls, msg):
        if not any(v["cls"] == cls for v in viol):
            viol.append({"cls": cls, "msg": msg})

    if plan["kind"] == "cache":
        return cache_run(plan, bad, viol, st)
    n = plan["n"]
    args = tuple(zoo.resolve(copy.deepcopy(a)) if not isinstance(a, list) else np.array(a) for a in plan["args"])
    kw = copy.deepcopy(plan["kw"])
    fun = both if plan["jac"] == "true" else objective
    jac = {"none": None, "true": True, "fun": gradient}[plan["jac"]]
    cons = []
    for c in plan["cons"]:
        f, j = CONS[c["c"]]
        d = {"type": c["type"], "fun": f}
        if j is not None:
            d["jac"] = j
        if c["args"] is not None:
            d["args"] = tuple(np.array(a) if isinstance(a, list) else a for a in c["args"])
        cons.append(d)
    dims = [2 if c["c"].startswith("v") else 1 for c in plan["cons"]]
    consarg = cons[0] if plan["consform"] == "dict" and len(cons) == 1 else list(cons) if plan["consform"] == "list" else tuple(cons)
    opts = None
    if plan["opts"] is not None:
        opts = {(k[:-2].encode() if k.endswith("!b") else k): v for k, v in plan["opts"].items()}
        if b"max_iter" in opts and "max_iter" in opts:
            opts.pop(b"max_iter")
    pts = [np.array(p, dtype=float) for p in plan["pts"]]
    x0 = pts[0].copy()
    if plan["x0form"] == "list":
        x0 = list(map(float, x0))
    elif plan["x0form"] == "readonly":
        x0.setflags(write=False)
    elif plan["x0form"] == "int":
        x0 = np.round(x0 * 3).astype(int)
    elif plan["x0form"] == "scalar":
        x0 = float(x0[0])
    bounds = [(-5.0 - i, 5.0 + i) for i in range(n)] if plan["bounds"] else None
    watched = {"x0": x0, "options": opts, "args": args, "kwargs": kw, "bounds": bounds, "constraint args": [c.get("args") for c in cons]}
    before = {k: freeze(v) for k, v in watched.items()}
    conkeys = [dict(c) for c in cons]
    seen = {"requests": 0, "script": False}
    buf = np.zeros(n)

    def deliver(i):
        """the vector as the solver hands it over"""
        if plan["buffer"] == "inplace":
            buf[:] = pts[i]
            return buf
        v = pts[i].copy()
        if plan["buffer"] == "readonly":
            v.setflags(write=False)
        return v

    def expected(what, i):
        x = pts[i].copy()
        hold, Fail.at = Fail.at, None
        cnt, keep = Fail.n, dict(CALLS)
        try:
            if what == "objective":
                v = objective(x, *args, **(kw or {}))
            elif what == "gradient":
                v = gradient(x, *args, **(kw or {}))
            elif what == "constraints":
                v = np.concatenate([np.atleast_1d(c["fun"](x, *c.get("args", ()))) for c in cons])
            else:
                v = np.vstack([TRUEJ[c["c"]](x, *(d.get("args", ()))) for c, d in zip(plan["cons"], cons)])
        finally:
            Fail.at, Fail.n = hold, cnt
            CALLS.update(keep)
        return v

    def script(problem, xs):
        seen["script"] = True
        seen["options"] = dict(problem.options)
        seen["problem"] = (problem.n, problem.m, None if problem.lb is None else list(problem.lb), None if problem.ub is None else list(problem.ub),
                           list(problem.cl), list(problem.cu))
        if not near(xs, np.atleast_1d(np.asarray(watched["x0"], dtype=float)), 1e-12):
            bad("start", "the solver starts at %s instead of %s" % (xs, x0))
        obj = problem.p
        total = len(plan["reqs"])
        failpos = None if plan.get("fail") is None else int(plan["fail"] * total)
        stored = []
        for k, (what, i, _) in enumerate(plan["reqs"]):
            if what in ("constraints", "jacobian") and not cons:
                continue
            if what == "intermediate":
                obj.intermediate(0, plan["iters"] + k, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0)
                seen["nit"] = plan["iters"] + k
                hist.append("i")
                continue
            seen["requests"] += 1
            x = deliver(i)
            if k == failpos:
                # a user function fails once in this request; the solver backs off and asks again
                Fail.n, Fail.at = 0, 1
                o = C.outcome(lambda: getattr(obj, what)(x))
                fired = Fail.fired
                Fail.at = None
                if fired:
                    st["fault:callback-raises"] = 1
                    if o[0] == "ok":
                        bad("swallowed", "%s: failure of the user function did not reach the solver" % what)
                    hist.append("!")
            if not np.array_equal(x, pts[i]):
                bad("vector", "%s: the solver's vector was modified" % what)
            o = C.outcome(lambda: getattr(obj, what)(x))
            if o[0] == "exc":
                bad("raises", "%s at %s raises %s: %s" % (what, pts[i], o[1], o[2]))
                continue
            if not np.array_equal(x, pts[i]):
                bad("vector", "%s: the solver's vector was modified" % what)
            tol = 4e-15 if what in ("objective", "constraints") or (what == "gradient" and plan["jac"] != "none") else 3e-5
            if what == "jacobian" and all(c["c"].endswith("j") for c in plan["cons"]):
                tol = 4e-15
            e = expected(what, i)
            got = np.array(o[1], dtype=float)
            if what in ("constraints",):
                got = got.reshape(-1)
            if what == "jacobian":
                got = got.reshape(e.shape) if got.size == e.size else got
            if what == "gradient":
                got = got.reshape(-1)
            if not near(got, e, tol):
                bad(what, "%s at point %d %s, request %d: %s instead of %s" % (what, i, pts[i], k, got, e))
            if plan.get("scribble") and what in ("constraints", "jacobian") and isinstance(o[1], np.ndarray) and o[1].flags.writeable:
                o[1].fill(-77.0)      # the solver works in the array it was given
                st["fault:answer-overwritten"] = 1
            else:
                stored.append((what, i, k, o[1], copy.deepcopy(o[1])))
            hist.append((what[0], i))
        # answers given earlier are still what was given
        for what, i, k, live, kept in stored:
            if not np.array_equal(np.asarray(live, dtype=float), np.asarray(kept, dtype=float)):
                bad("answer-changed", "the %s answer to request %d was changed by a later request" % (what, k))
        seen["nfev"] = obj.nfev
        xf = pts[plan["finish"]].copy()
        info = {"status": plan["status"], "status_msg": b"scripted end %d" % plan["status"], "obj_val": 12.5 + plan["finish"], "x": xf, "g": None,
                "mult_g": None, "mult_x_L": None, "mult_x_U": None}
        return xf, info

    stubs.SOLVER.reset()
    stubs.SOLVER.script = script
    o = C.outcome(lambda: iw.minimize_ipopt(fun, x0, args=args, kwargs=kw, jac=jac, bounds=bounds, constraints=consarg, tol=plan["tol"], options=opts))
    stubs.SOLVER.script = None
    if o[0] == "exc":
        bad("minimise-raises", "minimize_ipopt raises %s: %s" % (o[1], o[2]))
    elif not seen["script"]:
        bad("not-asked", "the solver was never started")
    else:
        res = o[1]
        xf = pts[plan["finish"]]
        want = xf[0] if plan["x0form"] == "scalar" else xf
        if not near(res.x, want, 1e-15) or np.ndim(res.x) != np.ndim(want):
            bad("result-x", "reported solution %s, the solver returned %s" % (res.x, want))
        if res.status != plan["status"] or bool(res.success) != (plan["status"] == 0):
            bad("result-status", "reported status %r success %r, the solver ended with %r" % (res.status, res.success, plan["status"]))
        if res.fun != 12.5 + plan["finish"]:
            bad("result-fun", "reported value %r, the solver returned %r" % (res.fun, 12.5 + plan["finish"]))
        if res.message != b"scripted end %d" % plan["status"]:
            bad("result-message", "reported message %r" % (res.message,))
        if "nit" in seen and res.nit != seen["nit"]:
            bad("result-nit", "reported %r iterations, the solver reported %r" % (res.nit, seen["nit"]))
        pn, pm, lb, ub, cl, cu = seen["problem"]
        if pn != n or pm != sum(dims):
            bad("problem", "problem of %d variables and %d constraints announced as %d and %d" % (n, sum(dims), pn, pm))
        if bounds is not None and (lb != [b[0] for b in bounds] or ub != [b[1] for b in bounds]) or bounds is None and (lb is not None or ub is not None):
            bad("bounds", "bounds announced as %s, %s for %s" % (lb, ub, bounds))
        ecl = [0.0] * sum(dims)
        big = [c["type"] == "ineq" for c, d in zip(plan["cons"], dims) for _ in range(d)]
        if cl != ecl or any((u < 1e18) if b else (u != 0) for u, b in zip(cu, big)) or len(cu) != len(ecl):
            bad("constraint-bounds", "constraint bounds announced as %s, %s for types %s" % (cl, cu, [c["type"] for c in plan["cons"]]))
        got = {k.decode() if isinstance(k, bytes) else k: (v.decode() if isinstance(v, bytes) else v) for k, v in seen["options"].items()}
        exp = {}
        for k, v in (opts or {}).items():
            exp[k.decode() if isinstance(k, bytes) else k] = v
        for old, new in (("disp", "print_level"), ("maxiter", "max_iter")):
            if old in exp and new not in exp:
                exp[new] = exp.pop(old)
            elif old in exp:
                st["both_names"] = 1      # both names given: the proper name wins
                exp.pop(old)
                got.pop(old, None)
        exp.setdefault("print_level", 0)
        exp.setdefault("tol", plan["tol"] or 1e-8)
        exp.setdefault("mu_strategy", "adaptive")
        exp.setdefault("hessian_approximation", "limited-memory")
        if got != exp or any(isinstance(got[k], float) != isinstance(exp[k], float) for k in exp):
            bad("options", "options %r (tol %r) reached the solver as %r" % (plan["opts"], plan["tol"], got))
    for k, v in watched.items():
        if freeze(v) != before[k]:
            bad("caller-" + k.replace(" ", "-"), "the caller's %s was modified" % k)
    for a, b in zip(cons, conkeys):
        if set(a) != set(b) or any(a[k] is not b[k] for k in b):
            bad("caller-constraints", "the caller's constraint dictionary was modified")
    if plan["shared"] and not viol and o[0] == "ok":
        # the next minimisation, with the same callables, is not affected by this one
        q = dict(plan, shared=False, fail=None, reqs=list(reversed(plan["reqs"])), args=[1.7], kw=None)
        sub = execute(q)
        for v in sub["viol"]:
            bad(v["cls"], "in a following minimisation: " + v["msg"])
        st["reach:second-minimisation"] = 1
    st["requests"] = seen["requests"]
    st["buffer:" + plan["buffer"]] = 1
    if plan["buffer"] == "inplace":
        st["fault:buffer-reuse"] = 1
    rep = len(set(map(str, hist))) < len(hist)
    st["reach:repeated-request"] = int(rep)
    return {"viol": viol, "stats": st, "steps": seen["requests"], "sig": [C.sig(hist, plan["jac"], plan["cons"], plan["opts"], plan["buffer"], plan["args"])],
            "digest": C.digest_of([str(hist), st]), "plan": plan}


def cache_run(plan, bad, viol, st):
    """the difference-derivative helper on its own, over changing extra arguments"""
    from direpack.ipopt_temp import jacobian as J
    cls = J.FunctionWithApproxJacobianCentral if plan["central"] else J.FunctionWithApproxJacobian
    f = cls(con_v, epsilon=1e-6, verbose=False)
    sets = [tuple(np.array(a) if isinstance(a, list) else a for a in s) for s in plan["argsets"]]
    hist = []
    buf = np.zeros(plan["n"])
    for k, (what, i, s) in enumerate(plan["reqs"]):
        if what == "intermediate":
            continue
        x = np.array(plan["pts"][i], dtype=float)
        if plan["buffer"] == "inplace":
            buf[:] = x
            v = buf
        else:
            v = x.copy()
        a = sets[s]
        val = what in ("objective", "constraints")
        if plan.get("fail") is not None and k == int(plan["fail"] * len(plan["reqs"])):
            Fail.n, Fail.at = 0, 1
            o = C.outcome(lambda: f(v, *a) if val else f.jac(v, *a))
            if Fail.fired and o[0] == "ok":
                bad("swallowed", "failure of the user function did not reach the caller")
            st["fault:callback-raises"] = Fail.fired
            Fail.at = None
        o = C.outcome(lambda: f(v, *a) if val else f.jac(v, *a))
        hist.append((val, i, s))
        if o[0] == "exc":
            bad("raises", "request %d raises %s" % (k, o[1]))
            continue
        e = con_v(x.copy(), *a) if val else con_v_jac(x.copy(), *a)
        if not near(o[1], e, 4e-15 if val else 1e-4):
            bad("cached", "request %d (%s at point %d, arguments %r): %s instead of %s" % (k, "value" if val else "derivative", i, plan["argsets"][s], o[1], e))
        if not np.array_equal(v, x):
            bad("vector", "the caller's vector was modified")
    st["requests"] = len(hist)
    st["reach:cache"] = 1
    return {"viol": viol, "stats": st, "steps": len(hist), "sig": [C.sig("cache", hist, plan["argsets"], plan["central"])], "digest": C.digest_of(str(hist)), "plan": plan}


def shrink(plan):
    yield from C.generic_shrink(plan, ("reqs",), keep_last=False)
    yield from C.generic_shrink(plan, ("cons",), keep_last=False)
    for k, v in (("opts", None), ("shared", False), ("bounds", False), ("kw", None), ("tol", None), ("x0form", "array"), ("buffer", "fresh"), ("args", []), ("fail", None)):
        if plan.get(k) != v:
            yield dict(plan, **{k: v})
