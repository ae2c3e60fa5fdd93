"""Stand-ins for components that are outside the code under test.

cyipopt    -- simulated interior point solver.  `SOLVER` is the behaviour the
              simulator chose for this run: it decides how the peer behaves
              (converges, stops at its iteration limit, returns a poor or
              unnormalised point, fails, asks in odd orders, reuses its buffers).
scipy differential_evolution -- the real algorithm with a small budget, drawing
              from the global numpy generator as the real default does.
scipy minimize -- pass-through unless the simulator asks for an outcome fault.
"""
import hashlib
import sys
import types
import numpy as np


class Behaviour:
    """What the simulated solver does; set by the simulator per run."""
    mode = "sane"        # sane | limit | poor | scaled | repeat | fail
    seed = 0
    maxiter = 6
    log = None           # list collecting requests when the check wants them
    script = None        # explicit request script for C16
    minimize_mode = "real"   # real | limit | poor | scaled

    @classmethod
    def reset(cls):
        cls.mode, cls.seed, cls.maxiter = "sane", 0, 6
        cls.log = cls.script = None
        cls.minimize_mode = "real"


SOLVER = Behaviour


def _stream(x0):
    """random stream of one solver call: a function of the run's seed and the start point"""
    h = int.from_bytes(hashlib.sha256(np.ascontiguousarray(np.round(np.ravel(x0), 6)).tobytes()).digest()[:4], "big")
    return np.random.RandomState((SOLVER.seed ^ h) & 0x7FFFFFFF)


REAL_OPTIONS = ("tol", "acceptable_tol", "max_cpu_time", "mu_init")
INT_OPTIONS = ("max_iter", "print_level")


class Problem:
    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        self.n, self.m, self.p = n, m, problem_obj
        self.lb, self.ub, self.cl, self.cu = lb, ub, cl, cu
        self.options = {}

    def add_option(self, key, value):
        if isinstance(key, bytes):
            key = key.decode()
        if not isinstance(key, str):
            raise TypeError("option names are strings")
        if isinstance(value, bytes):
            value = value.decode()
        if not isinstance(value, (str, int, float, np.integer, np.floating)):
            raise TypeError("option values are strings or numbers")
        real = isinstance(value, (float, np.floating))
        if (key in REAL_OPTIONS) != real and key in REAL_OPTIONS + INT_OPTIONS:      # the solver refuses a number of the other kind
            raise TypeError("Error while assigning an option")
        self.options[key] = value

    addOption = add_option

    def solve(self, x0, lagrange=[], zl=[], zu=[]):
        b = SOLVER
        x0 = np.array(x0, dtype=float)
        if b.script is not None:
            return b.script(self, x0)
        rng = _stream(x0)
        if b.mode == "fail":
            raise RuntimeError("simulated solver failure")
        if b.mode == "poor":
            x = rng.standard_normal(self.n)
            x /= np.linalg.norm(x) or 1.0
        elif b.mode == "scaled":
            x = x0 * 7.5 + 1e-3 * rng.standard_normal(self.n)
        elif b.mode == "repeat":
            x = x0.copy()
        else:
            x = self._descend(x0, 1 if b.mode == "limit" else b.maxiter)
        f = float(np.ravel(self.p.objective(x))[0])
        try:
            self.p.intermediate(0, 3, f, 0, 0, 0, 0, 0, 0, 0, 0)
        except TypeError:
            pass
        status = {"sane": 0, "limit": -1}.get(b.mode, 0)
        if b.log is not None:
            b.log.append({"solver": "ipopt", "options": dict(self.options), "n": self.n})
        return x, {"status": status, "status_msg": b"simulated", "obj_val": f, "x": x,
                   "g": None, "mult_g": None, "mult_x_L": None, "mult_x_U": None}

    def _descend(self, x0, iters):
        """A few projected gradient steps using the problem's own callbacks."""
        x = x0.copy()
        nx = np.linalg.norm(x) or 1.0
        step = 0.2 * nx
        best, fb = x, float(np.ravel(self.p.objective(x))[0])
        for _ in range(iters):
            g = np.ravel(np.asarray(self.p.gradient(x), dtype=float))
            if self.m:
                c = np.asarray(self.p.constraints(x), dtype=float)
                J = np.asarray(self.p.jacobian(x), dtype=float).reshape(len(np.ravel(c)), -1)
                g = g + J.T @ np.ravel(c)
            gn = np.linalg.norm(g)
            if not np.isfinite(gn) or gn == 0:
                break
            xn = x - step * g / gn
            xn *= nx / (np.linalg.norm(xn) or 1.0)
            f = float(np.ravel(self.p.objective(xn))[0])
            if f < fb:
                best, fb, x = xn, f, xn
            else:
                step /= 2
        return best

    def close(self):
        pass


class Clock:
    """The clock as the code under test sees it; None = the real one."""
    jump = None


def _wrap_clock():
    import time
    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        real = getattr(time, name)

        def f(real=real):
            j = Clock.jump
            return real() if j is None else j(real())
        f.__name__ = name
        f.__module__ = "time"
        setattr(time, name, f)
        ns = getattr(time, name + "_ns", None)
        if ns is not None:
            def g(real=ns):
                j = Clock.jump
                return real() if j is None else int(j(real() * 1e-9) * 1e9)
            setattr(time, name + "_ns", g)


def install():
    _wrap_clock()
    mod = types.ModuleType("cyipopt")
    mod.Problem = Problem
    mod.problem = Problem
    mod.__version__ = "sim"
    sys.modules["cyipopt"] = mod

    import scipy.optimize as so
    real_de, real_min = so.differential_evolution, so.minimize

    def differential_evolution(func, bounds, *args, **kw):
        kw = dict(kw)
        kw["maxiter"] = 2
        kw["popsize"] = 2
        kw["polish"] = False
        return real_de(func, bounds, *args, **kw)

    def minimize(fun, x0, *args, **kw):
        mode = SOLVER.minimize_mode
        entry = None
        if SOLVER.log is not None:
            entry = {"solver": "scipy", "options": dict(kw.get("options") or {}), "n": int(np.size(x0)), "nfev": 0}
            SOLVER.log.append(entry)
        if mode == "real":
            res = real_min(fun, x0, *args, **kw)
            if entry is not None:
                entry["nfev"] = int(res.get("nfev", 0))
            return res
        if mode == "limit":
            kw = dict(kw)
            o = dict(kw.get("options") or {})
            o["maxiter"] = 1
            kw["options"] = o
            return real_min(fun, x0, *args, **kw)
        x0 = np.array(x0, dtype=float)
        rng = _stream(x0)
        if mode == "poor":
            x = rng.standard_normal(x0.shape)
        else:
            x = x0 * 7.5 + 1e-3
        return so.OptimizeResult(x=x, success=False, status=9, message="simulated",
                                 fun=float("nan"), nit=1, nfev=1)

    differential_evolution.__wrapped__ = real_de
    minimize.__wrapped__ = real_min
    differential_evolution.__module__ = "scipy.optimize"
    minimize.__module__ = "scipy.optimize"
    so.differential_evolution = differential_evolution
    so.minimize = minimize
