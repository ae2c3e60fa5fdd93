"""Instrumentation of the code under test through sys.monitoring.

Local events only on code objects whose source lies in /repo/src/direpack, so
nothing else is slowed down or perturbed, and nothing in /repo needs hooks.

  LINE / INSTRUCTION events : yield points of the scheduler, crash points,
                              step counter (bounded termination)
  CALL events               : fault points for every outgoing call
"""
import sys
import types
import gc
from .boot import PKG_DIR

M = sys.monitoring
TOOL = 4
E = M.events


class StepBudget(BaseException):
    """Raised inside the code under test when it exceeds its step budget."""


_codes = None


def codes():
    """All code objects of the code under test that exist now."""
    global _codes
    if _codes is None:
        seen = {}
        stack = []
        for name, mod in list(sys.modules.items()):
            f = getattr(mod, "__file__", None)
            if f and f.startswith(PKG_DIR) and "/test/" not in f:
                stack.append(mod)
        out = []

        def add(c):
            if id(c) in seen or not c.co_filename.startswith(PKG_DIR):
                return
            seen[id(c)] = c
            out.append(c)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    add(k)

        def visit(o, depth=0):
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
            if isinstance(o, property):
                for f in (o.fget, o.fset, o.fdel):
                    if f is not None:
                        visit(f)
                return
            w = getattr(o, "__wrapped__", None)
            if w is not None and depth < 4:
                visit(w, depth + 1)
            if isinstance(o, types.FunctionType):
                add(o.__code__)
                for cell in (o.__closure__ or ()):
                    try:
                        v = cell.cell_contents
                    except ValueError:
                        continue
                    if isinstance(v, (types.FunctionType,)) and depth < 4:
                        visit(v, depth + 1)
            elif isinstance(o, type):
                if id(o) in seen:
                    return
                seen[id(o)] = o
                for v in list(vars(o).values()):
                    visit(v, depth)

        for mod in stack:
            for v in list(vars(mod).values()):
                if isinstance(v, (types.FunctionType, type, staticmethod, classmethod, property)):
                    m = getattr(v, "__module__", "") or ""
                    if isinstance(v, type) and not str(m).startswith(("direpack", "opt_temp", "sprm", "ppdire", "sudire", "dicomo", "prep", "plot", "util", "cross", "robcent")):
                        f = getattr(sys.modules.get(m), "__file__", "") or ""
                        if not f.startswith(PKG_DIR):
                            continue
                    visit(v)
        # functions reachable otherwise (decorated, in tables, partials)
        for o in gc.get_objects():
            if type(o) is types.FunctionType and o.__code__.co_filename.startswith(PKG_DIR):
                add(o.__code__)
        _codes = [c for c in out if c.co_name != "<module>"]
    return _codes


_events = 0
on_line = None     # callable(code, line)
on_instr = None    # callable(code, offset)
on_call = None     # callable(code, offset, callable, arg0)


def _line(code, line):
    f = on_line
    if f is not None:
        f(code, line)


def _instr(code, off):
    f = on_instr
    if f is not None:
        f(code, off)


def _call(code, off, fn, arg0):
    f = on_call
    if f is not None:
        f(code, off, fn, arg0)


def enable(line=False, instr=False, call=False):
    global _events
    if M.get_tool(TOOL) is None:
        M.use_tool_id(TOOL, "dst")
    M.register_callback(TOOL, E.LINE, _line if line else None)
    M.register_callback(TOOL, E.INSTRUCTION, _instr if instr else None)
    M.register_callback(TOOL, E.CALL, _call if call else None)
    ev = (E.LINE if line else 0) | (E.INSTRUCTION if instr else 0) | (E.CALL if call else 0)
    if ev != _events:
        for c in codes():
            M.set_local_events(TOOL, c, ev)
        _events = ev


def disable():
    global on_line, on_instr, on_call
    on_line = on_instr = on_call = None
    enable()
