"""C10: answers for a case do not depend on how cases are batched or ordered.

The model is the receiver of a simulated unreliable channel: cases arrive in
seeded batches, reordered, duplicated, mixed with other cases, in changing
containers, and some deliveries fail part-way and are repeated."""
import numpy as np
import pandas as pd
from .. import common as C, faults, iso, mon, zoo
from ..zoo import KINDS
from . import c02

ID = "C10"
BUDGET = {"quick": {"runs": 3000, "cap": 70}, "thorough": {"runs": 60000, "cap": 1500}}
RULE = ("one evaluation is one fitted model and a seeded delivery history (4-9 deliveries: batch split, order, duplicates, foreign cases, container, "
        "failed and repeated deliveries); each case's answer in each delivery is compared with its answer in a single delivery to an untouched fork; "
        "distinct = (estimator, settings, delivery history)")
ASSUME = ["answers agree within 1e-8 of the size of the answers (different batch sizes may take different floating point summation paths)"]
ONLY = ["scaler", "wrapper", "snipls", "rm", "sprm", "ppdire", "ppdire_flat", "sudire", "sudire_opt"]
QUERIES = {"scaler": ["transform", "predict", "inverse"], "wrapper": ["transform", "predict"], "snipls": ["predict", "transform"], "rm": ["predict"],
           "sprm": ["predict", "transform"], "ppdire": ["predict", "transform"], "ppdire_flat": ["predict", "transform"],
           "sudire": ["predict", "transform"], "sudire_opt": ["predict", "transform"]}
BOXES = ("array", "array", "array", "fortran", "frame", "frame", "readonly", "strided", "index")


def gen(r, tier, i):
    kind = zoo.pick_kind(r, ONLY)
    K = KINDS[kind]
    cfg = K.sample(r)
    d = K.sample_data(r)
    if d["k"] in ("nan", "nanall"):
        d["k"] = "normal"
    call = K.sample_call(r, cfg, d)
    m = r.pick([3, 5, 8, 8, 12, 40, 80])
    pool = {"s": r.seed(), "n": m, "p": d["p"], "k": r.wpick([("normal", 5), ("outliers", 2), ("ints", 2), ("big", 1), ("nan", 0.6)])}
    if r.chance(0.25):                            # the cases the model was fitted on
        pool = {"train": True, "n": d["n"], "p": d["p"]}
        m = d["n"]
    ops = []
    size0 = r.int(1, min(m, 5)) if r.chance(0.3) else None        # a client that always sends batches of this size
    for _ in range(r.int(4, 9)):
        ids = r.shuffled(range(m))[: r.wpick([(1, 3), (2, 2), (m, 2), (max(1, m // 2), 3)])]
        if r.chance(0.3):
            ids = ids + [r.pick(ids) for _ in range(r.int(1, 3))]
        if r.chance(0.15):                        # as many cases as variables, or as when fitting
            size = r.pick([d["p"], d["n"], d["n"] + 1])
            ids = [r.int(0, m - 1) for _ in range(size)]
        if r.chance(0.25):                        # any batch size
            ids = [r.int(0, m - 1) for _ in range(r.int(1, 70))]
        if pool.get("train") and r.chance(0.6):
            rest = list(range(1, m))
            ids = r.pick([[0] + rest, [0] + r.shuffled(rest), [0] + rest[::-1], r.shuffled(range(m)), [0] * m, list(range(m - 1)), list(range(m)) + [0]])
        if r.chance(0.12):
            ids = [ids[0]] * r.int(2, 5)          # a batch of identical cases
        if size0:
            ids = r.shuffled(range(m))[:size0]
        if r.chance(0.2):
            ids = sorted(ids)
        op = {"q": r.pick(QUERIES[kind]), "ids": ids, "box": r.pick(BOXES)}
        if r.chance(0.3):
            op["foreign"] = [r.seed(), r.int(1, 4), r.pick(["normal", "huge", "zero", "dup"])]
            op["at"] = r.int(0, 3)
        if r.chance(0.12):
            op["fault"] = C.sample_fault(r)
        if r.chance(0.35):
            op["reuse"] = True
        if r.chance(0.3):
            op["scribble"] = True
        if len(ids) == 1 and "foreign" not in op and r.chance(0.25):
            op["box"] = "row"
        ops.append(op)
    return {"kind": kind, "cfg": cfg, "d": d, "call": call, "pool": pool, "ops": ops, "solver": C.sample_solver(r, 0.15)}


def cases(plan):
    if plan["pool"].get("train"):
        return np.array(zoo.make(plan["d"])[0], dtype=float)
    return zoo.raw_xy(plan["pool"])[0]


def deliver(plan, op):
    """the delivered object, and for each delivered row the case it is (None: foreign)"""
    X = cases(plan)
    rows, who = [X[i] for i in op["ids"]], list(op["ids"])
    f = op.get("foreign")
    if f:
        g = np.random.RandomState(f[0] % 2 ** 31)
        for _ in range(f[1]):
            z = g.standard_normal(X.shape[1]) * {"huge": 1e4, "zero": 0.0}.get(f[2], 1.0)
            if f[2] == "dup":
                z = X[op["ids"][0]] * 1.0
            at = min(op["at"], len(rows))
            rows.insert(at, z)
            who.insert(at, None)
    Z = np.array(rows, dtype=float)
    b = op["box"]
    if b == "row":
        return Z[0].copy(), who
    if b == "index":
        return pd.DataFrame(Z, columns=zoo.names(Z.shape[1]), index=["r%d" % (7 * k % 11) for k in range(len(Z))]), who
    return zoo.wrap_x(Z, b), who


def ask(kind, est, q, X, scribble=False):
    def go():
        raw = KINDS[kind].do_query(est, q, X)
        v = zoo.norm(raw)
        if scribble:
            c02.scribble(raw)
        return v
    return C.outcome(go)


def _ref(kind, est, q, plan):
    """all cases once, in order; and what every single case gives alone"""
    X = cases(plan)
    return ask(kind, est, q, X.copy())[:2]


def _prof(kind, est, plan, op):
    X, _ = deliver(plan, op)
    with faults.Probe() as p:
        o = ask(kind, est, op["q"], X)
    mon.disable()
    return dict(p.calls), p.lines


def rows_of(v, m):
    """answers per case or None"""
    if isinstance(v, float):
        v = np.array([v])
    if not isinstance(v, np.ndarray):
        return None
    if v.ndim == 1:
        return v.reshape(m, -1) if (v.size == m or m == 1) else None
    return v if v.shape[0] == m else None


def execute(plan):
    kind = plan["kind"]
    viol, st, seen = [], {}, []

    def bump(k, n=1):
        st[k] = st.get(k, 0) + n

    est = c02.fit_model(plan)
    if est is None:
        return {"viol": [], "stats": {"fit_raises": 1}, "digest": "fit", "plan": plan, "nontrivial": False}
    m = plan["pool"]["n"]
    refs, bufs = {}, {}
    for op in plan["ops"]:
        if op["q"] not in refs:
            refs[op["q"]] = iso.isolated(_ref, kind, est, op["q"], plan)
    for j, op in enumerate(plan["ops"]):
        ref = refs[op["q"]]
        if op.get("fault"):
            if "nth" not in op["fault"]:
                calls, lines = iso.isolated(_prof, kind, est, plan, op)
                op["fault"] = C.resolve_fault(op["fault"], calls, lines)
            if op["fault"]:
                X, _ = deliver(plan, op)
                with faults.Probe(op["fault"]) as pr:
                    o = ask(kind, est, op["q"], X)
                mon.disable()
                if pr.fired:
                    bump("fault:delivery-" + op["fault"]["kind"])
        X, who = deliver(plan, op)
        if op.get("reuse"):
            X = c02.reuse(bufs, X)
            bump("caller:reuse")
        if op.get("scribble"):
            bump("caller:scribble")
        o = ask(kind, est, op["q"], X, op.get("scribble"))
        seen.append(o[:2])
        what = "delivery %d %s.%s of cases %s%s in %s" % (j, kind, op["q"], op["ids"], " among %d others" % op["foreign"][1] if op.get("foreign") else "", op["box"])
        if ref[0] == "exc":
            bump("reference_raises")
            if o[0] == "ok" and op["box"] != "row":
                viol.append({"cls": "status", "msg": "%s answers, all cases together raise %s" % (what, ref[1])})
                break
            continue
        if o[0] == "exc":
            if op["box"] == "row":
                bump("row_unsupported")
                continue
            viol.append({"cls": "status", "msg": "%s raises %s: %s" % (what, o[1], str(o[2])[:150])})
            break
        R = rows_of(ref[1], m)
        A = rows_of(o[1], len(who))
        if R is None or A is None:
            viol.append({"cls": "shape", "msg": "%s: answer of shape %s for %d cases (all %d cases: %s)" % (
                what, getattr(o[1], "shape", None), len(who), m, getattr(ref[1], "shape", None))})
            break
        scale = max(1e-9, float(np.nanmax(np.abs(R[np.isfinite(R)]))) if np.isfinite(R).any() else 1.0)
        for k, c in enumerate(who):
            if c is None:
                continue
            if A[k].shape != R[c].shape:
                viol.append({"cls": "shape", "msg": "%s: case %d has answer of shape %s, expected %s" % (what, c, A[k].shape, R[c].shape)})
                break
            if not np.allclose(A[k], R[c], rtol=1e-8, atol=1e-8 * scale, equal_nan=True):
                viol.append({"cls": "answer", "msg": "%s: case %d got %s, alone in one delivery of all cases %s" % (what, c, A[k][:4], R[c][:4])})
                break
            bump("case_answers")
        if viol:
            break
        bump("box:" + op["box"])
    hist = [[op["q"], op["ids"], op["box"], bool(op.get("foreign")), (op.get("fault") or {}).get("kind")] for op in plan["ops"]]
    return {"viol": viol, "stats": st, "digest": C.digest_of(seen), "plan": plan, "sig": [C.sig(kind, hist, C.cfgkey(plan["cfg"]))], "steps": len(plan["ops"])}


def shrink(plan):
    for i in range(len(plan["ops"])):
        yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
    for i, op in enumerate(plan["ops"]):
        for k in ("fault", "foreign", "reuse", "scribble"):
            if op.get(k):
                yield dict(plan, ops=plan["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + plan["ops"][i + 1:])
        if op["box"] not in ("array", "row"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, box="array")] + plan["ops"][i + 1:])
        if len(op["ids"]) > 1:
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, ids=op["ids"][:1])] + plan["ops"][i + 1:])
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, ids=op["ids"][:-1])] + plan["ops"][i + 1:])
    yield from C.generic_shrink(plan, lists=())
