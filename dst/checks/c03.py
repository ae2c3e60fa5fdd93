"""C03: caller data and option objects are never modified (at any moment), later caller changes do not reach a fitted model."""
import copy
import numpy as np
import pandas as pd
from .. import common as C, faults, iso, mon, zoo
from ..zoo import KINDS
from . import c02

ID = "C03"
BUDGET = {"quick": {"runs": 5000, "cap": 80}, "thorough": {"runs": 60000, "cap": 1500}}
RULE = ("one evaluation is one seeded call sequence (fit, queries, plots, library functions) with or without an injected fault; after every "
        "executed line of library code the bytes of all caller arrays are compared with a snapshot, option objects and frames at the end of "
        "each call and every 16th line; afterwards the caller overwrites the data and the model must answer as before; distinct = (estimator, "
        "settings, containers, operation, fault kind)")
ASSUME = ["writes inside one line of native code that are undone before the line ends are not visible"]


def gen(r, tier, i):
    kind = "func" if r.chance(0.2) else zoo.pick_kind(r)
    K = KINDS[kind]
    cfg = K.sample(r)
    if kind in ("snipls", "sprm", "rm", "ppdire", "sudire", "sudire_opt", "ppdire_flat") and r.chance(0.7):
        cfg["copy"] = True
    d = K.sample_data(r)
    if r.chance(0.5):
        d["xc"] = r.pick(K.xcs or ("array", "fortran", "frame", "strided", "array"))
        d["yc"] = r.pick(K.ycs or zoo.YC)
    call = K.sample_call(r, cfg, d)
    ops = []
    for _ in range(r.int(0, 3) if K.queries else 0):
        ops.append(c02.gen_query(r, kind, d["p"], plots=0.05, bad=0.03, fault=0.2))
    plan = {"kind": kind, "cfg": cfg, "d": d, "call": call, "ops": ops, "solver": C.sample_solver(r, 0.2), "pseed": r.seed(),
            "opt_mut": r.chance(0.5)}
    if r.chance(0.3):
        plan["fault"] = C.sample_fault(r)
    return plan


# ---------------------------------------------------------------- snapshots

def arrays_of(o):
    """ndarrays owned by the caller inside an argument"""
    if isinstance(o, np.ndarray):
        out = [o]
        if isinstance(o.base, np.ndarray) and o.base.dtype == o.dtype:
            out.append(o.base)
        return out
    if isinstance(o, dict):
        return [a for v in o.values() for a in arrays_of(v)]
    if isinstance(o, (list, tuple)):
        return [a for v in o for a in arrays_of(v)]
    return []


def state(o):
    """complete comparable state of an argument"""
    if isinstance(o, np.ndarray):
        data = o.tobytes() if o.dtype != object else repr(o.tolist())
        return ("nd", str(o.dtype), o.shape, o.strides, bool(o.flags.writeable), data)
    if isinstance(o, pd.DataFrame):
        return ("df", list(map(str, o.columns)), list(map(str, o.index)), [str(t) for t in o.dtypes], o.to_numpy().tobytes())
    if isinstance(o, pd.Series):
        return ("ser", str(o.name), list(map(str, o.index)), str(o.dtype), o.to_numpy().tobytes())
    if isinstance(o, dict):
        return ("dict", [(repr(k), state(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [state(v) for v in o])
    return ("v", type(o).__name__, repr(o) if isinstance(o, (int, float, str, bool, type(None))) else id(o))


class Guard:
    def __init__(self, objs):
        self.objs = objs                      # name -> object
        self.snap = {k: state(v) for k, v in objs.items()}
        self.raw = []
        for k, v in objs.items():
            for a in arrays_of(v):
                if a.dtype != object:
                    self.raw.append((k, a, a.tobytes()))
        self.hit = None
        self.n = 0

    def each(self, code, line):
        if self.hit is not None:
            return
        for k, a, b in self.raw:
            if a.tobytes() != b:
                self.hit = (k, code.co_name)
                return
        self.n += 1
        if self.n % 16 == 0:
            self.full(code.co_name)

    def full(self, where):
        if self.hit is None:
            for k, v in self.objs.items():
                if state(v) != self.snap[k]:
                    self.hit = (k, where)
                    return


def optobjs(params):
    return {"option " + k: v for k, v in params.items() if isinstance(v, (dict, list, np.ndarray, tuple))}


def scribble(o):
    """the caller re-uses its data for something else"""
    try:
        if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype != object:
            o[...] = np.asarray(o[::-1] * 3 + 17, dtype=o.dtype)
        elif isinstance(o, np.ndarray) and o.dtype == object:
            o[...] = 5.5
        elif isinstance(o, pd.DataFrame):
            o.iloc[:, :] = np.asarray(o, dtype=float)[::-1] * 3 + 17
        elif isinstance(o, pd.Series):
            o.iloc[:] = np.asarray(o, dtype=float)[::-1] * 3 + 17
    except (ValueError, TypeError):
        pass


def run_call(fn, guard, fault, bump):
    pr = faults.Probe(fault, each=guard.each)
    with pr:
        o = C.outcome(fn)
    mon.disable()
    guard.full("end of call")
    if pr.fired and fault:
        bump("fault:" + (fault["kind"] if fault["at"] == "call" else fault["kind"] + "-at-line"))
    return o, pr.lines


def execute(plan):
    kind, K = plan["kind"], KINDS[plan["kind"]]
    viol, st, seen, steps = [], {}, [], 0

    def bump(k):
        st[k] = st.get(k, 0) + 1

    C.set_solver(plan["solver"])
    fault = plan.get("fault")
    if fault is not None and "nth" not in fault:
        ref = C.ref_fit(kind, plan["cfg"], plan["d"], plan["call"], zoo.probe_spec(plan["pseed"], plan["d"]["p"]), plan["solver"], True)
        fault = plan["fault"] = C.resolve_fault(fault, ref.get("calls", {}), ref.get("lines", 0))
    params = zoo.resolve(plan["cfg"])
    X, y = zoo.make(plan["d"])
    objs = {"X": X, "y": y}
    objs.update(optobjs(params))
    if plan["call"].get("kw"):
        objs["call"] = plan["call"]["kw"]
    G = Guard(objs)
    b = C.outcome(lambda: K.construct(params))
    if b[0] == "exc":
        return {"viol": [], "stats": {"build_raises": 1}, "digest": b[1], "plan": plan, "nontrivial": False}
    est = b[1]
    o, n = run_call(lambda: K.do_fit(est, plan["call"], X, y), G, fault, bump)
    steps += n
    seen.append(C.status(o))
    bump("fit")

    def hit(what):
        k, where = G.hit
        viol.append({"cls": "modified " + k.split()[0], "msg": "%s %s modified the caller's %s (seen in %s)" % (kind, what, k, where)})

    if G.hit:
        hit("fit (%s)" % C.status(o))
    ps = zoo.probe_spec(plan["pseed"], plan["d"]["p"])
    if o[0] == "ok" and not viol:
        for j, q in enumerate(plan["ops"]):
            Xq, yq = (X, y) if q["d"].get("train") and not q.get("bad") else c02.query_data(q, plan["d"])
            G = Guard(dict(objs, Xn=Xq, yn=yq))
            f = q.get("fault")
            if f is not None and "nth" not in f:
                rr = iso.isolated(c02._ref_query, kind, est, q, plan["d"], True)
                f = q["fault"] = C.resolve_fault(f, rr["calls"], rr["lines"])
            if q.get("plot"):
                po = zoo.plot_objects(est, Xq)
                po["components"] = [0, 1] if est.x_scores_.shape[1] > 1 else [0, 0]
                G = Guard(dict(objs, Xn=Xq, yn=yq, **po))
                o2, n = run_call(lambda: zoo.do_plot(kind, est, q["plot"], Xq, yq, po), G, f, bump)
            else:
                o2, n = run_call(lambda: K.do_query(est, q["q"], Xq, yq), G, f, bump)
            steps += n
            bump("query")
            seen.append(C.status(o2))
            if G.hit:
                hit("%s%s" % (q["q"], q.get("plot", "")))
                break
        # the caller goes on using its own objects
        if not viol and K.queries and params.get("copy", True):
            before = iso.isolated(c02._ref_obs, kind, est, ps)["q"]
            scribble(X)
            scribble(y)
            after = zoo.observe(kind, est, ps)["q"]
            bump("caller_mutation")
            seen.append(after)
            d = zoo.diff(after, before)
            if d:
                viol.append({"cls": "aliased data", "msg": "%s answers changed after the caller overwrote its data: %s" % (kind, d)})
    return {"viol": viol, "stats": st, "digest": C.digest_of(seen), "plan": plan, "steps": steps,
            "sig": [C.sig(kind, C.cfgkey(plan["cfg"]), plan["d"]["xc"], plan["d"]["yc"], [q["q"] for q in plan["ops"]], (fault or {}).get("kind"))]}


def shrink(plan):
    if plan.get("fault"):
        q = dict(plan)
        del q["fault"]
        yield q
    if plan["ops"]:
        yield dict(plan, ops=[])
        for i in range(len(plan["ops"])):
            yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
    yield from C.generic_shrink(plan, lists=())
