"""C01: refitting gives exactly what a fresh estimator would give; settings stay as set."""
import copy
from .. import common as C, faults, mon, zoo
from ..zoo import KINDS

ID = "C01"
BUDGET = {"quick": {"runs": 1700, "cap": 70}, "thorough": {"runs": 60000, "cap": 1500}}
RULE = ("one evaluation is one seeded history (2-9 operations: fits on several data sets, reconfigurations, queries, invalid and "
        "fault-injected fits, fits of other objects) on one object, every fit compared with a fresh object in a pristine process; "
        "distinct = (estimator, operation skeleton, settings, fault kind); histories with a single fit and nothing before it do not count")
ASSUME = ["references are computed by the same code in a pristine forked process", "comparison tolerance 1e-7 relative"]


def gen_badfit(r):
    return r.pick(["ylen", "y0", "inf", "ystr", "x3d", "empty", "nofit"])


def gen_sweep(r, kind, K, cfg):
    """a tuning session: one setting changed at a time, refitted each time"""
    cur, ops = dict(cfg), []
    d = K.sample_data(r)
    ops.append({"t": "fit", "d": d, "call": K.sample_call(r, cur, d)})
    for _ in range(r.int(2, 4) if kind in SLOW else r.int(4, 8) if kind in FAST else r.int(3, 6)):
        ch = one_change(r, K, cur)
        if ch:
            cur.update(ch)
            ops.append({"t": "set", "v": ch, "how": r.pick(["set_params", "setattr"])})
        if r.chance(0.4):
            d = K.sample_data(r, d)
        op = {"t": "fit", "d": d, "call": K.sample_call(r, cur, d)}
        ops.append(op)
    return ops


FAST = ("scaler", "wrapper", "gsspp", "dicomo", "func")
SLOW = ("ppdire", "ppdire_flat", "sudire_opt", "capi")


def one_change(r, K, cur):
    for _ in range(6):
        ch = K.set_choices(r, cur)
        keys = [k for k in ch if ch[k] != cur.get(k)]
        if keys:
            k = r.pick(keys)
            for pair in (("optimizer", "optimizer_options"), ("projection_index", "pi_arguments")):
                if k in pair:
                    return {x: ch[x] for x in pair if x in ch}
            return {k: ch[k]}
    return {}


def gen(r, tier, i):
    kind = zoo.pick_kind(r)
    K = KINDS[kind]
    cfg = K.sample(r)
    if r.chance(0.35):
        return {"kind": kind, "cfg": cfg, "ops": gen_sweep(r, kind, K, cfg), "solver": C.sample_solver(r), "pseed": r.seed()}
    cur = dict(cfg)
    ops = []
    nops = r.int(3, 9) if kind in FAST else r.int(2, 5)
    last = None
    for j in range(nops):
        final = j == nops - 1
        t = "fit" if final else r.wpick([("fit", 4), ("set", 2), ("query", 1.5), ("badfit", 0.8), ("faultfit", 1), ("other", 1)])
        if t == "set":
            ch = K.set_choices(r, cur)
            if not ch:
                t = "fit"
            else:
                cur.update(ch)
                ops.append({"t": "set", "v": ch, "how": r.pick(["set_params", "setattr"])})
                continue
        if t == "query" and (last is None or not K.queries):
            t = "fit"
        if t == "query":
            ops.append({"t": "query", "q": r.pick(list(K.queries)), "d": zoo.probe_spec(r.seed(), last["p"], r.int(1, 12))})
            continue
        d = K.sample_data(r, last)
        call = K.sample_call(r, cur, d)
        if t == "badfit":
            ops.append({"t": "badfit", "how": gen_badfit(r), "d": d, "call": call})
            continue
        if t == "other":
            k2 = kind if r.chance(0.6) else zoo.pick_kind(r)
            K2 = KINDS[k2]
            c2 = dict(cur) if k2 == kind and r.chance(0.4) else K2.sample(r)
            d2 = K2.sample_data(r, d)
            ops.append({"t": "other", "k": k2, "cfg": c2, "d": d2, "call": K2.sample_call(r, c2, d2)})
            continue
        op = {"t": t, "d": d, "call": call}
        if t == "faultfit":
            op["fault"] = C.sample_fault(r)
        if last is not None and (d["n"], d["p"]) == (last["n"], last["p"]) and r.chance(0.5):
            d["xc"], d["yc"] = last["xc"], last["yc"]
            if d["xc"] in ("array", "fortran", "strided") and d["yc"] in ("1d", "2d"):
                op["inplace"] = True
        ops.append(op)
        last = d
    return {"kind": kind, "cfg": cfg, "ops": ops, "solver": C.sample_solver(r), "pseed": r.seed()}


def bad_data(how, X, y):
    import numpy as np
    if how == "ylen":
        return X, y[: len(y) - 2]
    if how == "y0":
        return X, y[:0]
    if how == "inf":
        X = np.array(X, dtype=float)
        X[0, :] = np.inf
        return X, y
    if how == "ystr":
        return X, np.array(["a"] * len(y), dtype=object)
    if how == "x3d":
        return np.zeros((3, 3, 3)), y
    if how == "empty":
        return np.zeros((0, 3)), np.zeros(0)
    return None, None


def execute(plan):
    kind, K = plan["kind"], KINDS[plan["kind"]]
    solver = plan["solver"]
    viol, st = [], {}

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n

    # references, in pristine forks, before anything happens here
    cur = dict(plan["cfg"])
    refs = {}
    for j, op in enumerate(plan["ops"]):
        if op["t"] == "set":
            cur.update(op["v"])
        if op["t"] in ("fit", "faultfit"):
            ps = zoo.probe_spec(plan["pseed"], op["d"]["p"])
            refs[j] = C.ref_fit(kind, cur, op["d"], op["call"], ps, solver, profile=op["t"] == "faultfit")
            if op["t"] == "faultfit":
                op["fault"] = C.resolve_fault(op["fault"], refs[j].get("calls", {}), refs[j].get("lines", 0))

    C.set_solver(solver)
    cur = dict(plan["cfg"])
    b = C.outcome(lambda: K.build(cur))
    if b[0] == "exc":
        return {"viol": [], "stats": {"build_raises": 1}, "digest": b[1], "plan": plan, "nontrivial": False}
    est = b[1]
    X = y = None
    seen = []
    nfit = 0
    base = zoo.params_snapshot(est)
    defaults = zoo.defaults_snapshot()
    for j, op in enumerate(plan["ops"]):
        t = op["t"]
        bump("op:" + t)
        if t == "set":
            cur.update(op["v"])
            v = zoo.resolve(op["v"])
            o = C.outcome(lambda: est.set_params(**v) if op["how"] == "set_params" and hasattr(est, "set_params")
                          else [setattr(est, a, x) for a, x in v.items()])
            if o[0] == "exc":
                return {"viol": viol, "stats": st, "digest": "set:" + o[1], "plan": plan, "nontrivial": False}
            base.update({a: zoo.pnorm(x) for a, x in v.items() if a in base})
        elif t == "query":
            Xq, yq = zoo.make(op["d"])
            o = C.outcome(lambda: K.do_query(est, op["q"], Xq, yq))
            seen.append(o[0])
        elif t == "badfit":
            Xb, yb = zoo.make(op["d"])
            Xb, yb = bad_data(op["how"], Xb, yb)
            if Xb is not None:
                o = C.fit_outcome(K, est, op["call"], Xb, yb)
                seen.append(o[:2])
        elif t == "other":
            K2 = KINDS[op["k"]]
            def oth():
                e2 = K2.build(op["cfg"])
                X2, y2 = zoo.make(op["d"])
                K2.do_fit(e2, op["call"], X2, y2)
            o = C.outcome(oth)
            seen.append(o[0])
        else:
            X1, y1 = zoo.make(op["d"])
            if op.get("inplace") and X is not None and getattr(X, "shape", None) == X1.shape and y.shape == y1.shape:
                try:
                    X[...] = X1
                    y[...] = y1
                    bump("inplace")
                except Exception:
                    X, y = X1, y1
            else:
                X, y = X1, y1
            f = op.get("fault") if t == "faultfit" else None
            ps = zoo.probe_spec(plan["pseed"], op["d"]["p"])
            if t == "faultfit" and f is not None:
                with faults.Probe(f) as pr:
                    o = C.fit_outcome(K, est, op["call"], X, y)
                mon.disable()
                if pr.fired:
                    bump("fault:" + (f["kind"] if f["at"] == "call" else f["kind"] + "-at-line"))
                seen.append(o[:2])
                # only what follows is judged here (C06 judges the failing call itself)
            else:
                o = C.fit_outcome(K, est, op["call"], X, y)
                ref = refs[j]
                nfit += 1
                if "fit" not in ref:       # such an object cannot even be built afresh
                    break
                if not C.same_status(o, ref["fit"]):
                    viol.append({"cls": "refit-status", "msg": "op %d %s: %s, fresh object: %s" % (j, kind, C.status(o), C.status(ref["fit"]))})
                    break
                if o[0] == "ok":
                    d = zoo.diff(o[1], ref["fit"][1])
                    if d:
                        viol.append({"cls": "refit-return", "msg": "op %d %s returned value: %s" % (j, kind, d)})
                        break
                    obs = zoo.observe(kind, est, ps)
                    seen.append(obs)
                    d = zoo.diff(obs, ref["obs"])
                    if d:
                        viol.append({"cls": "refit-differs", "msg": "op %d %s differs from a fresh object: %s" % (j, kind, d)})
                        break
                else:
                    seen.append(o[:2])
        now = zoo.params_snapshot(est)
        if now != base:
            ks = [k for k in now if now[k] != base.get(k)] + [k for k in base if k not in now]
            viol.append({"cls": "settings-changed", "msg": "op %d %s %s changed setting(s) %s: %s -> %s" % (
                j, t, kind, ks, [base.get(k) for k in ks][:2], [now.get(k) for k in ks][:2])})
            break
    d = zoo.defaults_changed(defaults) if not viol else None
    if d:
        viol.append({"cls": "settings-changed", "msg": "after this history of one %s %s" % (kind, d)})
    sk = [o["t"] + ("+" if o.get("inplace") else "") + (str((o.get("fault") or {}).get("kind", ""))) for o in plan["ops"]]
    sigs = [C.sig(kind, sk, C.cfgkey(plan["cfg"]))] if len(plan["ops"]) > 1 else []
    return {"viol": viol, "stats": st, "digest": C.digest_of(seen), "plan": plan, "sig": sigs, "nontrivial": len(plan["ops"]) > 1,
            "steps": 0}


shrink = C.generic_shrink
