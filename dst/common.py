"""Pieces shared by the checks: references, outcomes, fault resolution."""
import hashlib
import json
import numpy as np
from . import iso, mon, zoo, faults, stubs
from .zoo import KINDS


def set_solver(s):
    stubs.SOLVER.reset()
    if s:
        for k, v in s.items():
            setattr(stubs.SOLVER, k, v)


def sample_solver(r, p=0.25):
    """how the external optimizers behave in this run"""
    if not r.chance(p):
        return {}
    s = {"mode": r.pick(["sane", "limit", "poor", "scaled", "repeat"]), "seed": r.seed()}
    if r.chance(0.4):
        s["minimize_mode"] = r.pick(["limit", "poor", "scaled"])
    return s


CATCH = (Exception, KeyboardInterrupt, mon.StepBudget)


def outcome(fn):
    try:
        return ("ok", fn())
    except CATCH as e:
        return ("exc", type(e).__name__, e)


def status(o):
    """'ok' or the exception type"""
    return "ok" if o[0] == "ok" else "raises " + str(o[1])


def same_status(a, b):
    return status(a) == status(b)


def exc_name(o):
    return o[1] if o[0] == "exc" else None


def fit_outcome(K, est, call, X, y):
    o = outcome(lambda: K.do_fit(est, call, X, y))
    if o[0] == "exc":
        return o
    v = o[1]
    return ("ok", "<est>" if hasattr(v, "get_params") else zoo.norm(v))


def _ref_fit(kind, cfg, data, call, pspec, solver, profile, rng):
    iso.quiet_io()
    set_solver(solver)
    np.random.seed(rng)
    K = KINDS[kind]
    out = {}
    b = outcome(lambda: K.build(cfg))
    if b[0] == "exc":
        return {"build": b[1]}
    est = b[1]
    out["params"] = zoo.params_snapshot(est)
    X, y = zoo.make(data)
    if profile:
        with faults.Probe() as p:
            o = fit_outcome(K, est, call, X, y)
        mon.disable()
        out["calls"], out["lines"] = dict(p.calls), p.lines
    else:
        o = fit_outcome(K, est, call, X, y)
    out["fit"] = o[:2]
    if o[0] == "ok":
        out["obs"] = zoo.observe(kind, est, pspec)
    return out


_memo = {}


def ref_fit(kind, cfg, data, call, pspec, solver=None, profile=False, rng=12345, timeout=100.0):
    """What a fresh, undisturbed object gives (computed in a pristine fork)."""
    key = json.dumps([kind, cfg, data, call, pspec, solver, profile, rng], sort_keys=True)
    if key not in _memo:
        _memo[key] = iso.isolated(_ref_fit, kind, cfg, data, call, pspec, solver, profile, rng, timeout=timeout)
    return _memo[key]


def resolve_fault(f, calls, lines):
    """Turn relative positions into explicit ones (idempotent); None when the fault cannot occur."""
    if f is None or "nth" in f:
        return f
    if f["at"] == "line":
        if lines <= 0:
            return None
        return {"at": "line", "kind": f.get("kind", "interrupt"), "nth": int(f["u"] * lines)}
    avail = [k for k in f["kinds"] if calls.get(k)]
    if not avail:
        return None
    k = avail[int(f["ku"] * len(avail)) % len(avail)]
    n = calls[k]
    g = {"at": "call", "kind": k, "nth": min(n - 1, int(f["u"] * n))}
    if f.get("exc") and k in ("linalg", "optimize", "stats", "alloc", "other", "user"):
        g["exc"] = f["exc"]
    return g


def sample_fault(r, kinds=faults.ALL_KINDS, line=0.4, linekinds=("interrupt", "interrupt", "alloc")):
    u = r.u()
    if r.chance(0.25):      # late faults matter most for partial publication
        u = 1 - (1 - u) * 0.05
    if r.chance(line):
        return {"at": "line", "kind": r.pick(list(linekinds)), "u": u}
    f = {"at": "call", "kinds": list(kinds), "ku": r.u(), "u": u}
    if r.chance(0.5):       # how the call fails: not only the way it usually does
        f["exc"] = r.pick(["value", "fpe", "fpe", "linalg", "memory", "type"])
    return f


def sig(*parts):
    return hashlib.sha1(json.dumps(parts, sort_keys=True, default=str).encode()).hexdigest()[:14]


def digest_of(obj):
    """digest of observed values (bitwise for arrays)"""
    h = hashlib.sha256()

    def go(o):
        if isinstance(o, np.ndarray):
            h.update(str((o.shape, o.dtype)).encode())
            h.update(np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()).encode())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                go(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for x in o:
                go(x)
            h.update(b"]")
        else:
            h.update(repr(o).encode())

    go(obj)
    return h.hexdigest()[:16]


def cfgkey(cfg):
    return {k: v for k, v in cfg.items() if k not in ("verbose",)}


def generic_shrink(plan, lists=("ops",), keep_last=True):
    """drop list elements, simplify data"""
    for name in lists:
        ops = plan.get(name) or []
        n = len(ops)
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < n - (1 if keep_last else 0):
                q = dict(plan)
                q[name] = ops[:i] + ops[min(i + size, n - (1 if keep_last else 0)):]
                if len(q[name]) < n:
                    yield q
                i += size
            if size == 1:
                break
            size //= 2

    def simpler(o, path=()):
        """yield (path, value) simplifications of data specs anywhere in the plan"""
        if isinstance(o, dict):
            if {"s", "n", "p", "k"} <= set(o):
                for k, v in (("xc", "array"), ("yc", "1d"), ("k", "normal")):
                    if o.get(k) != v and k in o:
                        yield path + (k,), v
            else:
                for k in list(o):
                    yield from simpler(o[k], path + (k,))
        elif isinstance(o, list):
            for i, x in enumerate(o):
                yield from simpler(x, path + (i,))

    for path, v in list(simpler(plan)):
        q = json.loads(json.dumps(plan))
        t = q
        for k in path[:-1]:
            t = t[k]
        t[path[-1]] = v
        yield q
