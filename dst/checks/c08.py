"""C08: saved, copied and restored estimators are equivalent and independent."""
import copy
import pickle
import numpy as np
from .. import common as C, iso, zoo
from ..zoo import KINDS
from . import c01, c02, c03

ID = "C08"
BUDGET = {"quick": {"runs": 1300, "cap": 75}, "thorough": {"runs": 50000, "cap": 1500}}
RULE = ("one evaluation is one history of an estimator (unfitted, fitted, reconfigured, failed fit), a copy taken by pickle, joblib, deepcopy or "
        "clone and restored in the same process, in a new process after the first one has died, or twice over, then seeded use of either twin "
        "(refit, queries, reconfiguration, editing its option objects or results in place); answers, settings and refits of both twins are "
        "compared; distinct = (estimator, settings, history skeleton, copy method, later use)")
ASSUME = ["a new process is a pristine fork that has never seen the object"]


def gen(r, tier, i):
    kind = zoo.pick_kind(r, [k for k in KINDS if k != "func"])
    K = KINDS[kind]
    cfg = K.sample(r)
    cur = dict(cfg)
    d = K.sample_data(r)
    pre = []
    for _ in range(r.int(0, 3)):
        t = r.wpick([("fit", 4), ("set", 1.5), ("query", 1), ("badfit", 0.5)])
        if t == "set":
            ch = K.set_choices(r, cur)
            cur.update(ch)
            pre.append({"t": "set", "v": ch})
        elif t == "query" and K.queries:
            pre.append({"t": "query", "q": c02.gen_query(r, kind, d["p"], 0, 0.1, 0)})
        elif t == "badfit":
            pre.append({"t": "badfit", "how": c01.gen_badfit(r), "d": d, "call": K.sample_call(r, cur, d)})
        else:
            d = K.sample_data(r, d)
            pre.append({"t": "fit", "d": d, "call": K.sample_call(r, cur, d)})
    if not any(o["t"] == "fit" for o in pre) and r.chance(0.7):
        pre.append({"t": "fit", "d": d, "call": K.sample_call(r, cur, d)})
    how = r.wpick([("pickle", 4), ("deepcopy", 3), ("clone", 2), ("joblib", 1)])
    d2 = K.sample_data(r, d)
    plan = {"kind": kind, "cfg": cfg, "pre": pre, "how": how, "proto": r.pick([2, 4, 5]), "p": d["p"],
            "where": r.pick(["same", "new"]) if how in ("pickle", "joblib") else "same",
            "d2": d2, "call2": K.sample_call(r, cur, d2), "solver": C.sample_solver(r, 0.1), "pseed": r.seed(),
            "use": [r.pick(["refit", "set", "edit_options", "edit_results", "edit_data", "query", "badfit"]) for _ in range(r.int(1, 3))],
            "side": r.pick(["orig", "twin"]), "set2": K.set_choices(r, cur), "q2": None}
    if K.queries:
        plan["q2"] = c02.gen_query(r, kind, d["p"], 0, 0, 0)
    if kind in zoo.PLOTS and how != "clone" and r.chance(0.3):
        plan["plot"] = r.pick(list(zoo.PLOTS[kind]))
    return plan


def history(plan, data=None):
    K = KINDS[plan["kind"]]
    C.set_solver(plan["solver"])
    b = C.outcome(lambda: K.build(plan["cfg"]))
    if b[0] == "exc":
        return None, False
    est, fitted = b[1], False
    for op in plan["pre"]:
        if op["t"] == "fit":
            X, y = zoo.make(op["d"])
            if data is not None:
                data[:] = [X, y]
            o = C.fit_outcome(K, est, op["call"], X, y)
            fitted = fitted or o[0] == "ok"
        elif op["t"] == "set":
            o = C.outcome(lambda: est.set_params(**zoo.resolve(op["v"])))
        elif op["t"] == "query":
            c02.do_query(plan["kind"], est, op["q"], {"p": plan["p"], "n": 12, "s": 3, "k": "normal", "xc": "array", "yc": "1d"})
        else:
            X, y = zoo.make(op["d"])
            X, y = c01.bad_data(op["how"], X, y)
            if X is not None:
                C.fit_outcome(K, est, op["call"], X, y)
    return est, fitted


def look(plan, est):
    """everything observable, on a private fork so that looking changes nothing"""
    def f():
        o = zoo.observe(plan["kind"], est, zoo.probe_spec(plan["pseed"], plan["p"]))
        if plan["how"] == "clone":
            o = {}
        elif plan.get("plot"):
            X, y = zoo.make(zoo.probe_spec(plan["pseed"], plan["p"]))
            o["plot"] = C.outcome(lambda: zoo.norm(zoo.do_plot(plan["kind"], est, plan["plot"], X, y)))[:2]
        return {"obs": o, "params": zoo.params_snapshot(est), "deep": deep_params(est)}
    return iso.isolated(f)


def differ(plan, b, a):
    d = zoo.diff(b["obs"], a["obs"])
    if d is None and plan["how"] != "clone":
        d = zoo.lost(b["obs"]["attrs"], a["obs"]["attrs"])
    return d


def deep_params(est):
    if not hasattr(est, "get_params"):
        return None
    return {k: c03.state(v) for k, v in est.get_params(deep=False).items() if isinstance(v, (dict, list, tuple, np.ndarray))
           }


def refit(plan, est):
    """refit in a private fork"""
    K = KINDS[plan["kind"]]

    def f():
        np.random.seed(7)
        X, y = zoo.make(plan["d2"])
        o = C.fit_outcome(K, est, plan["call2"], X, y)
        if o[0] == "exc":
            return o[:2]
        return ("ok", [o[1], zoo.observe(plan["kind"], est, zoo.probe_spec(plan["pseed"], plan["d2"]["p"]))])
    return iso.isolated(f)


def save(plan, est):
    if plan["how"] == "pickle":
        return pickle.dumps(est, protocol=plan["proto"])
    import io
    import joblib
    f = io.BytesIO()
    joblib.dump(est, f, protocol=plan["proto"])
    return f.getvalue()


def restore(plan, data):
    if plan["how"] == "pickle":
        return pickle.loads(data)
    import io
    import joblib
    return joblib.load(io.BytesIO(data))


def use(plan, est, data):
    K = KINDS[plan["kind"]]
    for u in plan["use"]:
        if u == "refit":
            X, y = zoo.make(plan["d2"])
            C.fit_outcome(K, est, plan["call2"], X, y)
        elif u == "badfit":
            X, y = zoo.make(plan["d2"])
            C.fit_outcome(K, est, plan["call2"], X, y[:-2])
        elif u == "set" and plan["set2"]:
            C.outcome(lambda: est.set_params(**zoo.resolve(plan["set2"])))
        elif u == "query" and plan["q2"]:
            c02.do_query(plan["kind"], est, plan["q2"], {"p": plan["p"], "n": 12, "s": 3, "k": "normal", "xc": "array", "yc": "1d"})
        elif u == "edit_options":
            for k, v in est.get_params(deep=False).items():
                edit(v)
        elif u == "edit_results":
            for a in K.attrs + K.opt_attrs:
                v = getattr(est, a, None)
                edit(v)
                for b in list(getattr(v, "__dict__", {}).values()):
                    edit(b)
        elif u == "edit_data" and plan["side"] == "orig":
            for v in data:
                c03.scribble(v)


def edit(v):
    """the owner edits its own option object / result array in place"""
    if isinstance(v, dict):
        v["added"] = 1
        for k in list(v):
            if isinstance(v[k], (int, float)) and k != "added":
                v[k] = v[k] + 3
    elif isinstance(v, list):
        v.append(0)
    else:
        c03.scribble(v)


def compare_refit(a, b):
    if not C.same_status(a, b):
        return "%s vs %s" % (C.status(a), C.status(b))
    return zoo.diff(a[1], b[1]) if a[0] == "ok" else None


def execute(plan):
    kind, how = plan["kind"], plan["how"]
    viol, st = [], {"how:" + how + ":" + plan["where"]: 1}
    out = {"viol": viol, "stats": st, "plan": plan, "sig": [C.sig(kind, C.cfgkey(plan["cfg"]), [o["t"] for o in plan["pre"]], how, plan["use"], plan["side"])]}

    def fail(cls, msg):
        viol.append({"cls": cls, "msg": "%s by %s (%s): %s" % (kind, how, plan["where"], msg)})
        return out

    if plan["where"] == "new":
        # the first process lives, saves and dies; the second one only has the bytes
        def first():
            est, fitted = history(plan)
            if est is None:
                return None
            o = C.outcome(lambda: save(plan, est))
            if o[0] == "exc":
                return ("exc", o[1])
            return ("ok", o[1], look(plan, est), refit(plan, est))
        a = iso.isolated(first)
        if a is None:
            out.update(digest="build", nontrivial=False)
            return out
        if a[0] == "exc":
            return dict(fail("save", "saving raised " + a[1]), digest="save")
        st["fault:process-death"] = 1

        def second():
            C.set_solver(plan["solver"])
            o = C.outcome(lambda: restore(plan, a[1]))
            if o[0] == "exc":
                return ("exc", o[1])
            return ("ok", None, look(plan, o[1]), refit(plan, o[1]))
        b = iso.isolated(second)
        if b[0] == "exc":
            return dict(fail("restore", "restoring raised " + b[1]), digest="restore")
        d = differ(plan, b[2], a[2])
        if d:
            return dict(fail("answers", "restored answers differ: " + d), digest="x")
        if b[2]["params"] != a[2]["params"]:
            return dict(fail("settings", "restored settings differ"), digest="x")
        d = compare_refit(b[3], a[3])
        if d:
            return dict(fail("refit", "restored object refits differently: " + d), digest="x")
        out["digest"] = C.digest_of([a[2]["obs"], a[3]])
        return out

    data = []
    est, fitted = history(plan, data)
    if est is None:
        out.update(digest="build", nontrivial=False)
        return out
    o0 = look(plan, est)
    r0 = refit(plan, est)
    if how == "clone":
        from sklearn.base import clone
        o = C.outcome(lambda: clone(est))
    elif how == "deepcopy":
        o = C.outcome(lambda: copy.deepcopy(est))
    else:
        o = C.outcome(lambda: restore(plan, save(plan, est)))
    if o[0] == "exc":
        return dict(fail("copy", "copying raised %s" % o[1]), digest="copy")
    twin = o[1]
    t0 = look(plan, twin)
    rt = refit(plan, twin)
    d = differ(plan, t0, o0)
    if d:
        return dict(fail("answers", "copy answers differently: " + d), digest="x")
    if t0["params"] != o0["params"]:
        return dict(fail("settings", "copy has other settings"), digest="x")
    d = compare_refit(rt, r0)
    if d:
        return dict(fail("refit", "copy refits differently: " + d), digest="x")
    if zoo.diff(look(plan, est), o0):
        return dict(fail("original", "the original changed by being copied"), digest="x")
    # independence
    a, b, b0, br = (est, twin, t0, rt) if plan["side"] == "orig" else (twin, est, o0, r0)
    use(plan, a, data)
    b1 = look(plan, b)
    d = differ(plan, b1, b0)
    if d:
        return dict(fail("shared", "use (%s) of one twin changed the other: %s" % (plan["use"], d)), digest="x")
    if b1["params"] != b0["params"] or b1["deep"] != b0["deep"]:
        return dict(fail("shared", "use (%s) of one twin changed the settings of the other" % plan["use"]), digest="x")
    d = compare_refit(refit(plan, b), br)
    if d:
        return dict(fail("shared", "use (%s) of one twin changed how the other refits: %s" % (plan["use"], d)), digest="x")
    out["digest"] = C.digest_of([o0["obs"], r0])
    return out


def shrink(plan):
    yield from C.generic_shrink(plan, lists=("pre", "use"), keep_last=False)
