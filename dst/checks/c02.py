"""C02: queries on a fitted model are repeatable and leave it unchanged."""
from .. import common as C, faults, iso, mon, zoo
from ..zoo import KINDS

ID = "C02"
BUDGET = {"quick": {"runs": 2000, "cap": 70}, "thorough": {"runs": 40000, "cap": 1500}}
RULE = ("one evaluation is one fitted model and a seeded sequence of 3-8 queries (predict, transform, inverse, weights, scores, plots; "
        "invalid and fault-injected ones mixed in); every answer is compared with the answer of an untouched fork of the fitted "
        "process; distinct = (estimator, settings, query sequence with fault kinds)")
ASSUME = ["the untouched fork taken right after fitting is the reference"]
BADQ = ("cols", "3d", "str", "none", "empty")
ONLY = ["scaler", "wrapper", "gsspp", "snipls", "rm", "sprm", "ppdire", "ppdire_flat", "sudire", "sudire_opt"]


def gen_query(r, kind, p, plots=0.08, bad=0.12, fault=0.12):
    K = KINDS[kind]
    q = {"q": r.pick(list(K.queries)), "d": zoo.probe_spec(r.seed(), p, r.pick([1, 2, 5, 5, 9, 14]))}
    q["d"]["k"] = r.wpick([("normal", 4), ("outliers", 1), ("big", 1), ("dup", 1)])
    if r.chance(0.3):
        q["d"]["xc"] = r.pick(["fortran", "frame", "readonly", "strided"])
    if r.chance(0.15) or q["q"] == "valscore_w":
        q["d"] = dict(q["d"], train=True)
    if r.chance(0.4):
        q["reuse"] = True
        if r.chance(0.5):
            q["d"]["n"] = 5
            q["d"]["xc"] = "array"
    if r.chance(0.4):
        q["scribble"] = True
    u = r.u()
    if u < plots and kind in zoo.PLOTS:
        q["plot"] = r.pick(list(zoo.PLOTS[kind]))
        q["d"]["n"] = max(q["d"]["n"], 2)
    elif u < plots + bad:
        q["bad"] = r.pick(BADQ)
        if q["q"] == "inverse" and q["bad"] == "none":
            q["bad"] = "cols"      # without data it is, by design, about the latest transform
    elif u < plots + bad + fault:
        q["fault"] = C.sample_fault(r)
    return q


def gen(r, tier, i):
    kind = zoo.pick_kind(r, ONLY)
    K = KINDS[kind]
    cfg = K.sample(r)
    d = K.sample_data(r)
    call = K.sample_call(r, cfg, d)
    n = r.int(3, 7)
    qs = [gen_query(r, kind, d["p"]) for _ in range(n)]
    if r.chance(0.6):
        qs.append(dict(r.pick(qs)))
        qs[-1].pop("fault", None)
    return {"kind": kind, "cfg": cfg, "d": d, "call": call, "ops": qs, "solver": C.sample_solver(r, 0.15), "pseed": r.seed()}


def query_data(q, d):
    import numpy as np
    if q["d"].get("train"):
        X, y = zoo.make(d)
    else:
        X, y = zoo.make({k: v for k, v in q["d"].items() if k != "train"})
    b = q.get("bad")
    if b == "cols":
        X = np.asarray(X)[:, :-1] if X.shape[1] > 1 else np.hstack([X, X])
    elif b == "3d":
        X = np.zeros((2, 2, 2))
    elif b == "str":
        X = np.array([["a"] * d["p"]] * 2)
    elif b == "none":
        X = None
    elif b == "empty":
        X = np.zeros((0, d["p"]))
    return X, y


def do_query(kind, est, q, d, bufs=None):
    X, y = query_data(q, d)
    if q.get("plot"):
        return C.outcome(lambda: zoo.norm(zoo.do_plot(kind, est, q["plot"], X, y)))
    if bufs is not None and q.get("reuse"):
        X = reuse(bufs, X)
    K = KINDS[kind]

    def ask():
        raw = K.do_query(est, q["q"], X, y)
        v = zoo.norm(raw)
        if bufs is not None and q.get("scribble"):
            scribble(raw)
        return v
    return C.outcome(ask)


def reuse(bufs, X):
    """the caller delivers new data in a buffer it has used before"""
    import numpy as np
    if type(X) is not np.ndarray or X.dtype == object or not X.flags.writeable:
        return X
    key = (X.shape, str(X.dtype), X.strides)
    if key in bufs:
        bufs[key][...] = X
    else:
        bufs[key] = X
    return bufs[key]


def scribble(v):
    """the answer belongs to the caller, who overwrites it"""
    import numpy as np
    import pandas as pd
    try:
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            v[...] = -77.25
        elif isinstance(v, (pd.DataFrame, pd.Series)):
            v.iloc[:] = -77.25
    except (ValueError, TypeError):
        pass


def _ref_query(kind, est, q, d, profile):
    out = {}
    if profile:
        with faults.Probe() as p:
            o = do_query(kind, est, q, d)
        mon.disable()
        out["calls"], out["lines"] = dict(p.calls), p.lines
    else:
        o = do_query(kind, est, q, d)
    out["o"] = o[:2]
    return out


def _ref_obs(kind, est, ps):
    return zoo.observe(kind, est, ps)


def fit_model(plan):
    """fit in this process; None when the fit raises"""
    K = KINDS[plan["kind"]]
    C.set_solver(plan["solver"])
    b = C.outcome(lambda: K.build(plan["cfg"]))
    if b[0] == "exc":
        return None
    est = b[1]
    X, y = zoo.make(plan["d"])
    o = C.fit_outcome(K, est, plan["call"], X, y)
    return est if o[0] == "ok" else None


def compare(o, ref):
    if not C.same_status(o, ref):
        return "%s, reference %s" % (C.status(o), C.status(ref))
    if o[0] == "ok":
        return zoo.diff(o[1], ref[1])
    return None


def execute(plan):
    kind, K = plan["kind"], KINDS[plan["kind"]]
    viol, st, seen = [], {}, []

    def bump(k):
        st[k] = st.get(k, 0) + 1

    est = fit_model(plan)
    if est is None:
        return {"viol": [], "stats": {"fit_raises": 1}, "digest": "fit", "plan": plan, "nontrivial": False}
    ps = zoo.probe_spec(plan["pseed"], plan["d"]["p"])
    obs0 = iso.isolated(_ref_obs, kind, est, ps)
    refs = []
    memo = {}
    import json
    for q in plan["ops"]:
        key = json.dumps(q, sort_keys=True)
        if key not in memo:
            memo[key] = iso.isolated(_ref_query, kind, est, q, plan["d"], "fault" in q)
        refs.append(memo[key])
    bufs = {}
    base = zoo.params_snapshot(est)
    attrs0 = K.observe_attrs(est)
    for j, q in enumerate(plan["ops"]):
        ref = refs[j]
        if q.get("fault"):
            f = q["fault"] = C.resolve_fault(q["fault"], ref["calls"], ref["lines"])
            if f is not None:
                with faults.Probe(f) as pr:
                    o = do_query(kind, est, q, plan["d"], bufs)
                mon.disable()
                if pr.fired:
                    bump("fault:" + (f["kind"] if f["at"] == "call" else f["kind"] + "-at-line"))
                seen.append(o[:2])
            else:
                o = do_query(kind, est, q, plan["d"], bufs)
        else:
            bump("plot" if q.get("plot") else "bad" if q.get("bad") else "query")
            for k in ("reuse", "scribble"):
                if q.get(k):
                    bump("caller:" + k)
            o = do_query(kind, est, q, plan["d"], bufs)
            seen.append(o[:2])
            d = compare(o, ref["o"])
            if d:
                viol.append({"cls": "answer-changed", "msg": "query %d %s.%s%s: %s" % (j, kind, q["q"], q.get("plot", ""), d)})
                break
        now = zoo.params_snapshot(est)
        if now != base:
            ks = [k for k in now if now[k] != base.get(k)]
            viol.append({"cls": "settings-changed", "msg": "query %d %s.%s changed settings %s" % (j, kind, q["q"], ks)})
            break
        at = K.observe_attrs(est)
        d = zoo.diff(at, attrs0) or zoo.lost(at, attrs0)
        if d:
            viol.append({"cls": "results-changed", "msg": "query %d %s.%s%s changed documented results: %s" % (j, kind, q["q"], q.get("plot", ""), d)})
            break
    if not viol:
        d = zoo.diff(zoo.observe(kind, est, ps), obs0)
        if d:
            viol.append({"cls": "answer-changed", "msg": "after the sequence %s answers differ: %s" % (kind, d)})
    sk = [q["q"] + str(q.get("plot", "")) + str(q.get("bad", "")) + str((q.get("fault") or {}).get("kind", "")) for q in plan["ops"]]
    return {"viol": viol, "stats": st, "digest": C.digest_of(seen), "plan": plan, "sig": [C.sig(kind, sk, C.cfgkey(plan["cfg"]))],
            "steps": sum(r.get("lines", 0) for r in refs)}


def shrink(plan):
    yield from C.generic_shrink(plan)
    if plan["ops"]:
        q = dict(plan)
        q["ops"] = plan["ops"][:-1]
        yield q
