"""Fault injection: failing outgoing calls and interrupts at arbitrary lines."""
import errno
import types
import numpy as np
from . import mon
from .boot import PKG_DIR


class Interrupt(KeyboardInterrupt):
    """Simulated Ctrl-C (subclass, so the harness can tell it apart)."""


class SimLinAlgError(np.linalg.LinAlgError):
    pass


class SimMemoryError(MemoryError):
    pass


class SimRuntimeError(RuntimeError):
    pass


class SimOSError(OSError):
    pass


class SimUserWarning(UserWarning):
    pass


class SimValueError(ValueError):
    pass


class SimFloatingPointError(FloatingPointError):
    pass


class SimTypeError(TypeError):
    pass


INJECTED = (Interrupt, SimLinAlgError, SimMemoryError, SimRuntimeError, SimOSError, SimUserWarning, SimValueError, SimFloatingPointError, SimTypeError)
VARIANTS = {"value": SimValueError, "fpe": SimFloatingPointError, "type": SimTypeError, "memory": SimMemoryError, "linalg": SimLinAlgError}

_cache = {}


def _file_of(fn):
    c = getattr(fn, "__code__", None)
    return c.co_filename if c is not None else ""


def classify(fn):
    """Kind of outgoing call, or None when it is internal / not a fault point."""
    key = fn if isinstance(fn, (types.BuiltinFunctionType, types.FunctionType, type)) else None
    if key is not None:
        try:
            return _cache[key]
        except (KeyError, TypeError):
            pass
    k = _classify(fn)
    if key is not None:
        try:
            _cache[key] = k
        except TypeError:
            pass
    return k


def _classify(fn):
    f = fn
    if isinstance(f, types.MethodType):
        f = f.__func__
    if getattr(f, "_dst_user", False) or getattr(type(getattr(fn, "__self__", None)), "_dst_user", False):
        return "user"
    if _file_of(f).startswith(PKG_DIR):
        return None
    mod = getattr(f, "__module__", None) or ""
    name = getattr(f, "__name__", "") or ""
    if isinstance(f, type):
        if mod == "builtins":
            return None
        if mod.startswith("direpack") or getattr(f, "__init__", None) is not None and _file_of(f.__init__).startswith(PKG_DIR):
            return None
        if mod.startswith("statsmodels"):
            return "stats"
        return None
    if f is print:
        return "print"
    if mod == "builtins" or mod == "" and name in ("append", "extend", "items", "keys", "pop", "get"):
        if name in ("setattr", "getattr", "hasattr", "len", "isinstance", "eval", "type", "max", "min", "abs",
                    "round", "any", "str", "repr", "range", "zip", "sum", "sorted", "callable", "vars"):
            return None
        return None
    if mod.startswith("warnings") or mod == "_warnings":
        return "warn" if name == "warn" else None
    if "linalg" in mod and (mod.startswith("numpy") or mod.startswith("scipy")):
        return "linalg"
    if mod.startswith("scipy.optimize"):
        return "optimize"
    if mod.startswith("statsmodels"):
        return "stats"
    if mod.startswith("dcor"):
        return "stats"
    if mod == "copy":
        return "deepcopy"
    if mod.startswith("numpy"):
        return "alloc"
    if mod.startswith(("scipy", "pandas", "sklearn")):
        return "other"
    if type(f).__name__ in ("method_descriptor", "builtin_function_or_method", "method-wrapper"):
        owner = getattr(f, "__objclass__", None) or type(getattr(f, "__self__", None))
        if owner is np.ndarray or owner.__module__.startswith("numpy"):
            return "alloc"
    return None


ALL_KINDS = ("linalg", "optimize", "stats", "deepcopy", "alloc", "other", "print", "warn", "user")


def make_exc(kind, exc=None):
    if exc is not None:
        return VARIANTS[exc]("simulated: %s" % exc)
    if kind == "linalg":
        return SimLinAlgError("simulated: did not converge")
    if kind in ("deepcopy", "alloc", "other"):
        return SimMemoryError("simulated: out of memory")
    if kind == "print":
        return SimOSError(errno.EPIPE, "simulated: broken pipe")
    if kind == "warn":
        return SimUserWarning("simulated: warning as error")
    if kind == "interrupt":
        return Interrupt("simulated interrupt")
    return SimRuntimeError("simulated failure")


class Probe:
    """Counts fault points (profile) and optionally fires one fault.

    fault: None | {"at": "call", "kind": k, "nth": i} | {"at": "line", "nth": i, "kind": "interrupt"|"alloc"}
    budget: maximal number of line steps before StepBudget is raised.
    """

    def __init__(self, fault=None, budget=None, each=None):
        self.fault = fault
        self.budget = budget
        self.calls = {}
        self.lines = 0
        self.fired = None
        self.each = each          # called at every line (invariants during the run)

    def _line(self, code, line):
        self.lines += 1
        if self.budget is not None and self.lines > self.budget:
            mon.on_line = None
            raise mon.StepBudget(f"more than {self.budget} steps")
        f = self.fault
        if f is not None and self.fired is None and f["at"] == "line" and self.lines > f["nth"]:
            self.fired = (code.co_name, line)
            raise make_exc(f.get("kind", "interrupt"))
        if self.each is not None:
            self.each(code, line)

    def _call(self, code, off, fn, arg0):
        k = classify(fn)
        if k is None:
            return
        c = self.calls.get(k, 0)
        self.calls[k] = c + 1
        f = self.fault
        if f is not None and self.fired is None and f["at"] == "call" and f["kind"] == k and c == f["nth"]:
            self.fired = (code.co_name, k, getattr(fn, "__name__", "?"))
            raise make_exc(k, f.get("exc"))

    def __enter__(self):
        f = self.fault
        need_call = True
        mon.enable(line=True, call=need_call)
        mon.on_line, mon.on_call = self._line, self._call
        return self

    def __exit__(self, *exc):
        mon.on_line = mon.on_call = None
        return False
