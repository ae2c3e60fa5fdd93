"""C11: process-wide state is left untouched."""
import gc
import os
import random
import signal
import sys
import tempfile
import threading
import warnings
import numpy as np
import pandas as pd
from .. import common as C, faults, iso, mon, zoo
from ..zoo import KINDS
from . import c02

ID = "C11"
BUDGET = {"quick": {"runs": 4400, "cap": 70}, "thorough": {"runs": 80000, "cap": 1500}}
RULE = ("one evaluation is one process with seeded, non-default ambient settings (floating point error handling, warning filters, print and display "
        "options, plotting defaults, generator states, environment, directory) and 1-4 library calls, some with an injected fault at a seeded call "
        "or line; all process-wide state is compared after every call; distinct = (estimator, settings, operation, ambient settings, fault kind)")
ASSUME = ["opening and closing figures is what plotting does: figures are closed by the caller before comparing",
          "state of modules which are imported lazily during a call is not compared"]
EXTRA = ("bootstrap", "ipopt", "de")


def gen(r, tier, i):
    kind = zoo.pick_kind(r)
    K = KINDS[kind]
    cfg = K.sample(r)
    if kind == "ppdire" and r.chance(0.08):
        cfg.update(optimizer="differential_evolution", optimizer_options={}, optimizer_constraints=None, n_components=1, projection_index="@dicomo", pi_arguments={"mode": "var"}, trimming=0)
    d = K.sample_data(r)
    call = K.sample_call(r, cfg, d)
    plan = {"kind": kind, "cfg": cfg, "d": d, "call": call, "solver": C.sample_solver(r, 0.2),
            "ops": [c02.gen_query(r, kind, d["p"], plots=0.3, bad=0.15, fault=0.3) for _ in range(r.int(0, 3))] if K.queries else [],
            "amb": {"err": r.pick([None, None, "warn", "call", "call", "raise"]), "filt": r.pick([None, None, "default", "once", "error"]),
                    "prec": r.int(2, 11), "rc": r.chance(0.5), "pd": r.int(5, 40), "seed": r.seed(), "rec": r.int(900, 3000), "env": r.chance(0.5),
                    "gc": r.chance(0.2)}}
    if r.chance(0.35):
        plan["fault"] = C.sample_fault(r)
    if r.chance(0.06):
        plan["boot"] = {"meth": r.pick(["sir", "save", "dr"]), "B": r.int(1, 2)}
    return plan


def _user_err(kind, flag):
    pass


def ambient(a, tmp):
    """a user's session with its own settings"""
    import matplotlib as mpl
    if a["err"]:
        np.seterr(all="warn")
        np.seterrcall(_user_err)
        np.seterr(over=a["err"] if a["err"] != "raise" else "warn", divide=a["err"])
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    if a["filt"]:
        warnings.filterwarnings("ignore", message="something of the user %d" % a["prec"])
        warnings.simplefilter(a["filt"], category=ResourceWarning if a["filt"] != "error" else UserWarning)
    np.set_printoptions(precision=a["prec"], suppress=True)
    if a["rc"]:
        mpl.rcParams["lines.linewidth"] = 1.0 + a["prec"]
        mpl.rcParams["axes.facecolor"] = "#abcdef"
        mpl.rcParams["font.size"] = 7.5
        mpl.rcParams["figure.figsize"] = [3.0, 2.0]
    pd.set_option("display.max_rows", a["pd"])
    pd.set_option("display.precision", a["prec"])
    np.random.seed(a["seed"] % 2 ** 32)
    random.seed(a["seed"])
    sys.setrecursionlimit(a["rec"])
    if a["env"]:
        os.environ["DST_USER"] = str(a["seed"])
    if a["gc"]:
        gc.set_threshold(500, 5, 5)
    os.chdir(tmp)


MODS = ["numpy", "numpy.linalg", "scipy.stats", "scipy.linalg", "scipy.optimize", "pandas", "sklearn.base", "copy", "warnings", "statsmodels.api",
        "statsmodels.regression.quantile_regression", "matplotlib.pyplot", "math", "builtins", "dcor", "inspect", "collections"]


def module_state():
    out = {}
    for m in MODS:
        mod = sys.modules.get(m)
        if mod is not None:
            out[m] = {k: id(v) for k, v in vars(mod).items() if not k.startswith("__") and k not in ("_", "filters")}
    return out


def snap(tmp):
    import matplotlib as mpl
    import decimal
    import locale
    import sklearn
    s = {"np.geterr": np.geterr(), "np.geterrcall": id(np.geterrcall()), "np.printoptions": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
         "np.bufsize": np.getbufsize(),
         "warnings.filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
         "warnings.showwarning": id(warnings.showwarning),
         "rcParams": repr(sorted((k, repr(v)) for k, v in dict.items(mpl.rcParams))), "backend": str(dict.get(mpl.rcParams, "backend")),
         "random": hash(random.getstate()),
         "environ": dict(os.environ), "cwd": os.getcwd(), "files": sorted(os.listdir(tmp)),
         "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin), sys.stdout.closed, sys.stderr.closed),
         "recursionlimit": sys.getrecursionlimit(), "hooks": (id(sys.excepthook), id(sys.displayhook)), "switchinterval": sys.getswitchinterval(),
         "path": list(sys.path), "sklearn": sklearn.get_config(), "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
         "signals": [str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1, signal.SIGFPE)],
         "threads": threading.active_count(), "decimal": repr(decimal.getcontext()), "locale": locale.setlocale(locale.LC_ALL),
         "fds": len(os.listdir("/proc/self/fd")), "dont_write": sys.dont_write_bytecode,
         "pandas": repr({k: pd.get_option(k) for k in ("display.max_rows", "display.precision", "display.width", "display.max_columns", "mode.sim_interactive",
                                                       "display.float_format", "display.max_colwidth")}),
         "umask": _umask(), "modules": module_state()}
    st = np.random.get_state()
    s["np.random"] = (st[0], hash(st[1].tobytes()), st[2], st[3], st[4])
    return s


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def compare(a, b, skip=()):
    for k in a:
        if k in skip:
            continue
        if k == "modules":
            for m in a[k]:
                for n, i in a[k][m].items():
                    if n in b[k][m] and b[k][m][n] != i:
                        return "%s.%s was replaced" % (m, n)
            continue
        if a[k] != b[k]:
            if k == "rcParams":
                import ast
                return "plotting defaults: %s" % [y for x, y in zip(ast.literal_eval(a[k]), ast.literal_eval(b[k])) if x != y][:3]
            return "%s: %s -> %s" % (k, zoo._short(a[k]), zoo._short(b[k]))
    return None


def _profile(plan, est):
    K = KINDS[plan["kind"]]
    C.set_solver(plan["solver"])
    X, y = zoo.make(plan["d"])
    with faults.Probe() as p:
        C.fit_outcome(K, est, plan["call"], X, y)
    mon.disable()
    return dict(p.calls), p.lines


def execute(plan):
    tmp = tempfile.mkdtemp(prefix="dst-c11-")
    try:
        return _execute(plan, tmp)
    finally:
        os.chdir("/")
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def _execute(plan, tmp):
    kind, K = plan["kind"], KINDS[plan["kind"]]
    viol, st, seen, steps = [], {}, [], 0

    def bump(k):
        st[k] = st.get(k, 0) + 1

    ambient(plan["amb"], tmp)
    C.set_solver(plan["solver"])
    warm()
    s0 = snap(tmp)
    b = C.outcome(lambda: K.build(plan["cfg"]))
    stoch = plan["cfg"].get("optimizer") == "differential_evolution"
    fitted = False

    def check(what, skip=()):
        d = compare(s0, snap(tmp), skip)
        if d:
            viol.append({"cls": "state", "msg": "after %s: %s" % (what, d)})
        return d

    check("constructing " + kind)
    if b[0] == "ok" and not viol:
        est = b[1]
        f = plan.get("fault")
        if f:
            if "nth" not in f:
                f = C.resolve_fault(f, *iso.isolated(_profile, plan, est))
            plan["fault"] = f
            snap(tmp)
        X, y = zoo.make(plan["d"])
        if f:
            with faults.Probe(f) as pr:
                o = C.fit_outcome(K, est, plan["call"], X, y)
            mon.disable()
            steps += pr.lines
            if pr.fired:
                bump("fault:" + (f["kind"] if f["at"] == "call" else f["kind"] + "-at-line"))
        else:
            o = C.fit_outcome(K, est, plan["call"], X, y)
        fitted = o[0] == "ok"
        bump("fit_ok" if fitted else "fit_raises")
        seen.append(C.status(o))
        check("%s.%s (%s)" % (kind, plan["call"]["m"], C.status(o)), ("np.random",) if stoch else ())
        if stoch:
            s0 = snap(tmp)
    if fitted:
        for q in plan["ops"]:
            if viol:
                break
            if q.get("fault"):
                if "nth" not in q["fault"]:
                    ref = iso.isolated(c02._ref_query, kind, est, q, plan["d"], True)
                    q["fault"] = C.resolve_fault(q["fault"], ref["calls"], ref["lines"])
            if q.get("fault"):
                with faults.Probe(q["fault"]) as pr:
                    o = c02.do_query(kind, est, q, plan["d"])
                mon.disable()
                if pr.fired:
                    bump("fault:" + q["fault"]["kind"])
            else:
                o = c02.do_query(kind, est, q, plan["d"])
            bump("plot" if q.get("plot") else "query")
            seen.append(C.status(o))
            check("%s.%s (%s)" % (kind, q.get("plot") or q["q"], C.status(o)))
    if plan.get("boot") and not viol:
        import direpack as dp
        X, y = zoo.make({"s": plan["amb"]["seed"], "n": 24, "p": 3, "k": "normal"})
        o = C.outcome(lambda: dp.sudire.__module__ and sys.modules["direpack.sudire.sudire"].estimate_structural_dim(plan["boot"]["meth"], X, y, plan["boot"]["B"], n_slices=3))
        bump("bootstrap")
        seen.append(C.status(o))
        check("estimate_structural_dim (%s)" % C.status(o), ("np.random",))
    amb = {k: plan["amb"][k] for k in ("err", "filt", "rc", "gc")}
    ops = [str(q.get("plot") or q["q"]) + str(q.get("bad", "")) + str((q.get("fault") or {}).get("kind", "")) for q in plan["ops"]]
    return {"viol": viol, "stats": st, "digest": C.digest_of(seen), "plan": plan, "steps": steps,
            "sig": [C.sig(kind, C.cfgkey(plan["cfg"]), ops, amb, (plan.get("fault") or {}).get("kind"))]}


_warm = False


def warm():
    """lazy imports and caches of third-party code happen before the first comparison"""
    import matplotlib.pyplot as plt
    plt.figure()
    plt.close("all")


def prepare():
    """warm third-party lazy imports once in the parent (inherited by forks)"""
    global _warm
    if _warm:
        return
    _warm = True
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import statsmodels.regression.quantile_regression as qr
        g = np.random.RandomState(0)
        X, y = g.standard_normal((20, 2)), g.standard_normal(20)
        qr.QuantReg(y, X).fit(0.5)
        import matplotlib.pyplot as plt
        f, ax = plt.subplots()
        ax.plot([0, 1], [0, 1])
        ax.scatter([0, 1], [0, 1])
        ax.bar([0, 1], [0, 1])
        ax.legend(["a"])
        f.canvas.draw()
        plt.close("all")
        try:
            import dcor
            dcor.distance_covariance(X, y)
        except Exception:
            pass


def shrink(plan):
    for k in ("fault", "boot"):
        if plan.get(k):
            yield {a: b for a, b in plan.items() if a != k}
    for i in range(len(plan["ops"])):
        yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
    for i, q in enumerate(plan["ops"]):
        if q.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [{a: b for a, b in q.items() if a != "fault"}] + plan["ops"][i + 1:])
    for k, v in (("err", None), ("filt", None), ("rc", False), ("env", False), ("gc", False)):
        if plan["amb"][k] != v:
            yield dict(plan, amb=dict(plan["amb"], **{k: v}))
    yield from C.generic_shrink(plan, lists=())
