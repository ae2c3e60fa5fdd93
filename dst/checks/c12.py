"""C12: deterministic methods are deterministic; random ones follow the seed.

The same call is executed in simulated worlds that differ in everything that
must not matter: generator states, clock, memory contents, garbage collection,
hash seed and address layout (a second interpreter)."""
import atexit
import ctypes
import json
import os
import pickle
import random
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import numpy as np
from .. import common as C, core, iso, stubs, zoo
from ..zoo import KINDS

ID = "C12"
BUDGET = {"quick": {"runs": 1600, "cap": 70}, "thorough": {"runs": 60000, "cap": 1500}}
RULE = ("one evaluation is one fit with all its queries (or one bootstrap / stochastic optimization) executed in a reference world and in 2-3 worlds "
        "with seeded differences (generator states, clock jumps, poisoned uninitialised memory, dirty heap, garbage collection, machine load/cores/memory, other hash seed and "
        "address layout in a second interpreter); results must agree; distinct = (estimator, settings, call, set of differences)")
STUB = "cyipopt; differential_evolution with a reduced budget; clock; uninitialised memory; machine load, cores, memory, name"
ASSUME = ["agreement within 1e-6 (1e-5 when an iterative optimizer or reweighting is involved, which amplifies alignment dependent rounding)"]
SOURCES = ("nprng", "pyrng", "clock", "empty", "heap", "gc", "load", "hash")
LOOSE = ("ppdire", "ppdire_flat", "sudire_opt", "sprm", "rm", "de")


def gen(r, tier, i):
    kind = r.wpick([(k.name, k.weight) for k in KINDS.values()] + [("boot", 1.2), ("de", 0.8)])
    if kind == "boot":
        plan = {"kind": "boot", "meth": r.pick(["sir", "save", "dr", "phd"]), "B": r.int(1, 3), "d": {"s": r.seed(), "n": r.int(20, 30), "p": 3, "k": r.pick(["normal", "nonlin"]),
                "xc": r.pick(["array", "frame"]), "yc": "1d"}, "n_slices": r.int(2, 4), "seed": r.seed()}
    elif kind == "de":
        K = KINDS["ppdire"]
        cfg = K.sample(r)
        cfg.update(optimizer="differential_evolution", optimizer_options={}, optimizer_constraints=None, n_components=r.int(1, 2), projection_index="@dicomo",
                   pi_arguments={"mode": r.pick(["var", "cov"])}, trimming=0, regopt="OLS")
        d = K.sample_data(r)
        plan = {"kind": "de", "cfg": cfg, "d": d, "call": {"m": "fit", "y": "pos", "kw": {}}, "seed": r.seed(), "pseed": r.seed()}
    else:
        K = KINDS[kind]
        cfg = K.sample(r)
        d = K.sample_data(r)
        plan = {"kind": kind, "cfg": cfg, "d": d, "call": K.sample_call(r, cfg, d), "seed": r.seed(), "pseed": r.seed()}
        if r.chance(0.3):
            plan["pre"] = K.sample_data(r, d)
    worlds = []
    for _ in range(r.int(1, 2)):
        src = [s for s in SOURCES[:-1] if r.chance(0.7)] or ["nprng"]
        worlds.append({"src": src, "w": r.seed()})
    if r.chance(0.5):
        worlds.append({"src": [s for s in SOURCES[:-1] if r.chance(0.3)] + ["hash"], "w": r.seed()})
    plan["worlds"] = worlds
    plan["solver"] = C.sample_solver(r, 0.15)
    return plan


def enter(world, seed, stochastic):
    """make this process the given world"""
    np.random.seed(seed % 2 ** 32)
    random.seed(seed)
    if world is None:
        return
    src = world["src"]
    g = np.random.RandomState(world["w"] % 2 ** 31)
    if "nprng" in src and not stochastic:
        np.random.seed(world["w"] % 2 ** 32)
        np.random.random_sample(int(g.randint(50)))
    if "pyrng" in src:
        random.seed(world["w"] + 1)
    if "clock" in src:
        pr = random.Random(world["w"])
        off = [pr.uniform(-3e7, 3e8)]

        def jump(t):
            if pr.random() < 0.3:
                off[0] += pr.choice([-3600.0, 86400.0, 1e6, 1e-3])
            off[0] += pr.random()
            return t + off[0]
        stubs.Clock.jump = jump
    if "empty" in src:
        poison(g)
    if "heap" in src:
        dirty(g)
    if "load" in src:
        busy(g)
    if "gc" in src:
        import gc
        if g.rand() < 0.5:
            gc.set_threshold(20, 2, 2)
        else:
            gc.disable()


def busy(g):
    """another machine: its load, cores, memory and name"""
    import multiprocessing
    import platform
    import socket
    load, n = [float(x) for x in g.exponential(6, 3)], int(g.choice([1, 2, 3, 64, 256]))
    os.getloadavg = lambda: tuple(load)
    os.cpu_count = multiprocessing.cpu_count = lambda: n
    os.sched_getaffinity = lambda pid=0: set(range(n))
    socket.gethostname = platform.node = lambda: "host%d" % n
    try:
        import psutil
        psutil.cpu_percent = lambda *a, **k: min(100.0, 15 * load[0])
        psutil.cpu_count = lambda *a, **k: n
        psutil.getloadavg = os.getloadavg
        vm = psutil.virtual_memory()
        psutil.virtual_memory = lambda: vm._replace(available=int(1e6 * load[1]), percent=99.0, free=int(1e5))
    except Exception:
        pass


def poison(g):
    """uninitialised arrays contain whatever was there"""
    real, real_like = np.empty, np.empty_like
    mode = g.choice(["nan", "big", "noise", "one"])
    noise = g.standard_normal(4096)

    def fill(a):
        if a.dtype.kind == "f":
            if mode == "nan":
                a.fill(np.nan)
            elif mode == "big":
                a.fill(1e17)
            elif mode == "one":
                a.fill(1.0)
            elif a.size <= 4096:
                a[...] = noise[:a.size].reshape(a.shape)
            else:
                a.fill(0.37)
        elif a.dtype.kind in "iu":
            a.fill(7)
        elif a.dtype.kind == "b":
            a.fill(True)
        return a

    def empty(*a, **k):
        return fill(real(*a, **k))

    def empty_like(*a, **k):
        r = real_like(*a, **k)
        return fill(r) if type(r) is np.ndarray else r
    np.empty, np.empty_like = empty, empty_like


def dirty(g):
    """freed blocks of all small sizes hold junk; malloc hands out non-zero memory"""
    try:
        ctypes.CDLL(None).mallopt(-6, int(g.randint(1, 255)))
    except Exception:
        pass
    for v in (np.nan, 3.7, -1e9):
        junk = [np.full(int(k), v) for k in g.randint(1, 200, 300)]
        junk += [np.full(int(k), 77) for k in g.randint(1, 200, 50)]
        del junk


def run_world(plan, world):
    """executed in a pristine fork (of this or of the helper interpreter)"""
    iso.quiet_io()
    C.set_solver(plan["solver"])
    kind = plan["kind"]
    X, y = zoo.make(plan["d"])
    if kind == "boot":
        enter(world, plan["seed"], True)
        mod = sys.modules["direpack.sudire.sudire"]
        o = C.outcome(lambda: zoo.norm(list(mod.estimate_structural_dim(plan["meth"], X, y, plan["B"], n_slices=plan["n_slices"]))))
        return o[:2]
    zk = "ppdire" if kind == "de" else kind
    K = KINDS[zk]
    ps = zoo.probe_spec(plan["pseed"], plan["d"]["p"])
    if plan.get("pre"):
        P, q = zoo.make(plan["pre"])
    enter(world, plan["seed"], kind == "de")
    b = C.outcome(lambda: K.build(plan["cfg"]))
    if b[0] == "exc":
        return b[:2]
    est = b[1]
    if plan.get("pre"):
        C.fit_outcome(K, est, {"m": "fit"} if zk != "ppdire" else plan["call"], P, q)
    o = C.fit_outcome(K, est, plan["call"], X, y)
    if o[0] == "exc":
        return o[:2]
    return ("ok", {"ret": o[1], "obs": zoo.observe(zk, est, ps)})


def execute(plan):
    base = iso.isolated(run_world, plan, None)
    viol, st = [], {"kind:" + plan["kind"]: 1}
    tol = float(os.environ.get("DST_TOL", 0)) or (1e-5 if plan["kind"] in LOOSE else 1e-6)
    for w in plan["worlds"]:
        o = remote(plan, w) if "hash" in w["src"] else iso.isolated(run_world, plan, w)
        for s in w["src"]:
            st["fault:" + s] = st.get("fault:" + s, 0) + 1
        if not C.same_status(o, base):
            viol.append({"cls": "status", "msg": "%s %s in a world with other %s, %s in the reference world" % (plan["kind"], C.status(o), ",".join(w["src"]), C.status(base))})
            break
        if o[0] == "ok":
            d = zoo.diff(o[1], base[1], tol)
            if d:
                viol.append({"cls": "result", "msg": "%s differs in a world with other %s: %s" % (plan["kind"], ",".join(w["src"]), d)})
                break
    st["raises"] = int(base[0] != "ok")
    key = [plan["kind"], C.cfgkey(plan["cfg"]) if "cfg" in plan else [plan["meth"], plan["B"]], [sorted(w["src"]) for w in plan["worlds"]]]
    return {"viol": viol, "stats": st, "digest": C.digest_of(base), "plan": plan, "steps": 1 + len(plan["worlds"]), "sig": [C.sig(*key)]}


def shrink(plan):
    for i in range(len(plan["worlds"])):
        if len(plan["worlds"]) > 1:
            yield dict(plan, worlds=plan["worlds"][:i] + plan["worlds"][i + 1:])
    for i, w in enumerate(plan["worlds"]):
        for s in w["src"]:
            if len(w["src"]) > 1:
                yield dict(plan, worlds=plan["worlds"][:i] + [dict(w, src=[x for x in w["src"] if x != s])] + plan["worlds"][i + 1:])
    if plan.get("pre"):
        yield {k: v for k, v in plan.items() if k != "pre"}
    yield from C.generic_shrink(plan, lists=())


# ---------------------------------------------------------------- second interpreter

_sock = None


def _recv(c, n):
    buf = b""
    while len(buf) < n:
        b = c.recv(n - len(buf))
        if not b:
            raise EOFError
        buf += b
    return buf


def serve(path):
    """helper interpreter: every request is executed in a pristine fork"""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    while True:
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                n = struct.unpack(">I", _recv(c, 4))[0]
                plan, world = json.loads(_recv(c, n))
                out = pickle.dumps(run_world(plan, world))
                c.sendall(struct.pack(">I", len(out)) + out)
            finally:
                os._exit(0)
        c.close()


def prepare():
    global _sock
    if _sock:
        return
    d = tempfile.mkdtemp(prefix="dst-c12-")
    path = os.path.join(d, "s")
    env = dict(os.environ, DST_HASHSEED="20111", MALLOC_PERTURB_="165", PYTHONMALLOC="malloc")
    p = subprocess.Popen([sys.executable, os.path.join(core.HERE, "run.py"), "helper", path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    me = os.getpid()

    def stop():
        if os.getpid() == me:
            p.kill()
            p.wait()
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(stop)
    end = time.monotonic() + 120
    while not os.path.exists(path):
        if time.monotonic() > end or p.poll() is not None:
            raise RuntimeError("second interpreter did not start")
        time.sleep(0.05)
    _sock = path


def remote(plan, world):
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(120)
    for k in range(200):
        try:
            c.connect(_sock)
            break
        except (BlockingIOError, ConnectionRefusedError):
            time.sleep(0.02)
    msg = json.dumps([plan, world]).encode()
    c.sendall(struct.pack(">I", len(msg)) + msg)
    n = struct.unpack(">I", _recv(c, 4))[0]
    out = pickle.loads(_recv(c, n))
    c.close()
    return out
