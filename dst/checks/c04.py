"""C04: independent estimators used concurrently do not influence each other."""
import json
from .. import common as C, faults, iso, mon, sched, zoo
from ..zoo import KINDS

ID = "C04"
BUDGET = {"quick": {"runs": 1000, "cap": 75}, "thorough": {"runs": 40000, "cap": 1500}}
RULE = ("one evaluation is one seeded interleaving (line or instruction granularity; random quanta or PCT priorities) of 2-3 real threads, "
        "each fitting and querying its own object, some sharing input arrays or option objects; every thread's results are compared with "
        "the same work done alone in a pristine process; distinct = distinct recorded schedule (segments) with the task set; runs with no "
        "preemption do not count")
ASSUME = ["native code (numpy, BLAS, scipy) is atomic between two yield points of library code",
          "the simulated interior point solver and user callables are thread safe"]


def gen_task(r, kind, like=None):
    K = KINDS[kind]
    cfg = K.sample(r)
    if kind.startswith("ppdire"):
        while cfg["optimizer"] == "COBYLA":
            cfg = K.sample(r)
        cfg["n_components"] = 1
    d = K.sample_data(r, like["d"] if like else None)
    if kind.startswith("ppdire") and cfg["projection_index"] == "@capi":
        d["n"] = min(d["n"], 16)
    t = {"kind": kind, "cfg": cfg, "d": d, "call": K.sample_call(r, cfg, d), "pseed": r.seed()}
    return t


def gen(r, tier, i):
    n = r.wpick([(2, 4), (3, 1)])
    k0 = zoo.pick_kind(r)
    tasks = [gen_task(r, k0)]
    for _ in range(n - 1):
        u = r.u()
        if u < 0.7:
            t = gen_task(r, k0, tasks[0])
            if r.chance(0.5):
                t["cfg"] = dict(tasks[0]["cfg"])
                t["call"] = KINDS[k0].sample_call(r, t["cfg"], t["d"])
        else:
            t = gen_task(r, zoo.pick_kind(r), tasks[0])
        tasks.append(t)
    plan = {"tasks": tasks, "solver": C.sample_solver(r, 0.2), "share": {}}
    for j in range(1, n):
        if tasks[j]["kind"] == k0 and r.chance(0.35):
            tasks[j]["d"] = dict(tasks[0]["d"])
            plan["share"].setdefault("data", []).append(j)
        if tasks[j]["cfg"] == tasks[0]["cfg"] and tasks[j]["kind"] == k0 and r.chance(0.5):
            plan["share"].setdefault("opts", []).append(j)
    plan["pols"] = [{"seed": r.seed(), "mean": r.pick([1, 2, 5, 15, 50, 200]), "d": r.int(1, 4), "kind": r.pick(["quantum", "pct"]),
                     "instr": r.chance(0.2)} for _ in range(3)]
    return plan


def alone(t, solver):
    return iso.isolated(_alone, t, solver)


def _alone(t, solver):
    iso.quiet_io()
    C.set_solver(solver)
    K = KINDS[t["kind"]]
    with faults.Probe() as p:
        out = work(t, None, None)
    mon.disable()
    return out, p.lines


def work(t, params, data):
    """what one thread does"""
    K = KINDS[t["kind"]]
    b = C.outcome(lambda: K.construct(zoo.resolve(t["cfg"]) if params is None else params))
    if b[0] == "exc":
        return ("build", b[1])
    est = b[1]
    X, y = data if data is not None else zoo.make(t["d"])
    o = C.fit_outcome(K, est, t["call"], X, y)
    if o[0] == "exc":
        return ("exc", o[1])
    return ("ok", {"ret": o[1], "obs": zoo.observe(t["kind"], est, zoo.probe_spec(t["pseed"], t["d"]["p"]))})


def resolve_policy(p, lens):
    if "pol" in p:
        return p
    if p["kind"] == "quantum":
        return {"pol": "quantum", "seed": p["seed"], "mean": max(1, min(p["mean"], sum(lens) // 8))}
    return {"pol": "pct", "seed": p["seed"], "d": p["d"], "len": max(10, sum(lens) * (6 if p.get("instr") else 1))}


def execute(plan):
    viol, st = [], {}
    refs = [alone(t, plan["solver"]) for t in plan["tasks"]]
    lens = [n for _, n in refs]
    C.set_solver(plan["solver"])
    defaults = zoo.defaults_snapshot()
    traces, allres, sigs, steps = [], [], [], 0
    kinds = [t["kind"] for t in plan["tasks"]]
    for pol in plan["pols"]:
        params = [zoo.resolve(t["cfg"]) for t in plan["tasks"]]
        datas = [zoo.make(t["d"]) for t in plan["tasks"]]
        for j in plan["share"].get("data", []):
            datas[j] = datas[0]
            st["shared_data"] = st.get("shared_data", 0) + 1
        for j in plan["share"].get("opts", []):
            params[j] = {k: params[0][k] for k in params[0]}
            st["shared_options"] = st.get("shared_options", 0) + 1
        S = sched.Sched(resolve_policy(pol, lens), instr=pol.get("instr", False))
        fns = [lambda t=t, p=p, d=d: work(t, p, d) for t, p, d in zip(plan["tasks"], params, datas)]
        try:
            res = S.run(fns)
        except sched.Deadlock:
            viol.append({"cls": "deadlock", "msg": "all threads blocked: %s" % kinds})
            res = None
        if S.over:
            return {"viol": [], "inconclusive": "schedule too long", "plan": plan}
        traces.append({"pol": "segments", "segs": S.trace, "instr": pol.get("instr", False)})
        for j, (got, (ref, _)) in enumerate(zip(res or [], refs)):
            kind = kinds[j]
            if got[0] != ref[0] or (got[0] != "ok" and got[1] != ref[1]):
                viol.append({"cls": "outcome", "msg": "thread %d %s: %s, alone: %s" % (
                    j, kind, got[:2] if got[0] != "ok" else "ok", ref[:2] if ref[0] != "ok" else "ok")})
                break
            if got[0] == "ok":
                d = zoo.diff(got[1], ref[1])
                if d:
                    viol.append({"cls": "result", "msg": "thread %d %s differs from the same work alone: %s" % (j, kind, d)})
                    break
        if not viol:
            d = zoo.defaults_changed(defaults)
            if d:
                viol.append({"cls": "defaults", "msg": "after %s ran concurrently %s" % (kinds, d)})
        for k, v in (("preemptions", S.switches), ("native_blocks", S.blocks), ("reach:preempted_places", len(S.places)), ("schedules", 1)):
            st[k] = st.get(k, 0) + v
        steps += S.steps
        allres.append([S.trace, [r[:2] for r in (res or [])]])
        if S.switches:
            sigs.append(C.sig(S.trace, kinds))
        if viol:
            break
    if viol:
        plan = dict(plan, pols=traces)
    return {"plan": plan, "stats": st, "viol": viol, "steps": steps, "digest": C.digest_of(allres), "sig": sigs, "nontrivial": bool(sigs)}


def shrink(plan):
    from . import c05
    if len(plan["pols"]) > 1:
        yield dict(plan, pols=plan["pols"][-1:])
    if len(plan["tasks"]) > 2:
        for j in range(1, len(plan["tasks"])):
            q = json.loads(json.dumps(plan))
            del q["tasks"][j]
            q["share"] = {k: [x - (x > j) for x in v if x != j] for k, v in q["share"].items()}
            q["pols"] = c05.drop_task(q["pols"], j)
            yield q
    if plan["share"]:
        yield dict(plan, share={})
    yield from c05.shrink_pols(plan)
