"""C05: a fitted model can be shared by concurrent readers."""
import json
from .. import common as C, iso, mon, faults, sched, zoo
from ..zoo import KINDS
from . import c02

ID = "C05"
BUDGET = {"quick": {"runs": 1600, "cap": 75}, "thorough": {"runs": 60000, "cap": 1500}}
RULE = ("one evaluation is one fitted model queried by 2-3 real threads under one seeded interleaving; every answer is compared with the "
        "answer of an untouched fork of the fitted process; distinct = distinct recorded schedule with query set; runs without "
        "preemption do not count")
ASSUME = ["native code (numpy, BLAS, scipy) is atomic between two yield points of library code"]
ONLY = ["scaler", "wrapper", "gsspp", "snipls", "rm", "sprm", "ppdire", "ppdire_flat", "sudire", "sudire_opt"]


def gen(r, tier, i):
    kind = r.wpick([("scaler", 2), ("wrapper", 1.2), ("gsspp", 0.4), ("snipls", 1.5), ("rm", 1.2), ("sprm", 4), ("ppdire", 1.5),
                    ("ppdire_flat", 0.4), ("sudire", 2), ("sudire_opt", 0.5)])
    K = KINDS[kind]
    cfg = K.sample(r)
    if kind.startswith("ppdire"):
        cfg["n_components"] = 1
    d = K.sample_data(r)
    call = K.sample_call(r, cfg, d)
    n = r.wpick([(2, 4), (3, 2)])
    tasks = []
    for _ in range(n):
        qs = [c02.gen_query(r, kind, d["p"], plots=0, bad=0.07, fault=0) for _ in range(r.int(1, 3))]
        tasks.append(qs)
    return {"kind": kind, "cfg": cfg, "d": d, "call": call, "tasks": tasks, "solver": {}, "pseed": r.seed(),
            "pols": [{"seed": r.seed(), "mean": r.pick([1, 1, 2, 4, 10]), "d": r.int(1, 5), "kind": r.pick(["quantum", "pct"]),
                      "instr": r.chance(0.35)} for _ in range(5)]}


def _refs(kind, est, qs, d):
    """answers of one query each, each in its own fork"""
    return c02._ref_query(kind, est, qs, d, True)


def execute(plan):
    from . import c04
    kind, K = plan["kind"], KINDS[plan["kind"]]
    viol, st = [], {}
    est = c02.fit_model(plan)
    if est is None:
        return {"viol": [], "stats": {"fit_raises": 1}, "digest": "fit", "plan": plan, "nontrivial": False}
    ps = zoo.probe_spec(plan["pseed"], plan["d"]["p"])
    obs0 = iso.isolated(c02._ref_obs, kind, est, ps)
    refs = [[iso.isolated(_refs, kind, est, q, plan["d"]) for q in qs] for qs in plan["tasks"]]
    params0, attrs0 = zoo.params_snapshot(est), K.observe_attrs(est)
    lens = [sum(x["lines"] for x in t) for t in refs]
    traces, allres, sigs, steps = [], [], [], 0
    for pol in plan["pols"]:
        S = sched.Sched(c04.resolve_policy(pol, lens), instr=pol.get("instr", False))
        fns = [lambda qs=qs: [c02.do_query(kind, est, q, plan["d"])[:2] for q in qs] for qs in plan["tasks"]]
        try:
            res = S.run(fns)
        except sched.Deadlock:
            viol.append({"cls": "deadlock", "msg": "all threads blocked (%s)" % kind})
            res = None
        if S.over:
            return {"viol": [], "inconclusive": "schedule too long", "plan": plan}
        traces.append({"pol": "segments", "segs": S.trace, "instr": pol.get("instr", False)})
        if res is not None:
            for j, (got, ref) in enumerate(zip(res, refs)):
                if not isinstance(got, list):
                    viol.append({"cls": "outcome", "msg": "thread %d %s" % (j, got)})
                    break
                for k, (g, f) in enumerate(zip(got, ref)):
                    d = c02.compare(g, f["o"])
                    if d and not viol:
                        viol.append({"cls": "answer", "msg": "thread %d query %d %s.%s: %s" % (j, k, kind, plan["tasks"][j][k]["q"], d)})
            if not viol:
                at = K.observe_attrs(est)
                d = zoo.diff(at, attrs0) or zoo.lost(at, attrs0)
                if d:
                    viol.append({"cls": "model-changed", "msg": "%s after concurrent queries: %s" % (kind, d)})
                elif zoo.params_snapshot(est) != params0:
                    viol.append({"cls": "settings-changed", "msg": "%s settings changed by concurrent queries" % kind})
        for k, v in (("preemptions", S.switches), ("native_blocks", S.blocks), ("reach:preempted_places", len(S.places)), ("schedules", 1)):
            st[k] = st.get(k, 0) + v
        steps += S.steps
        allres.append([S.trace, res])
        if S.switches:
            sigs.append(C.sig(S.trace, kind, plan["tasks"]))
        if viol:
            break
    if not viol:
        d = zoo.diff(zoo.observe(kind, est, ps), obs0)
        if d:
            viol.append({"cls": "model-changed", "msg": "%s after concurrent queries: %s" % (kind, d)})
    if viol:
        plan = dict(plan, pols=traces)
    return {"viol": viol, "plan": plan, "stats": st, "steps": steps, "digest": C.digest_of(allres), "sig": sigs, "nontrivial": bool(sigs)}


def drop_task(pols, j):
    return [dict(p, segs=[[t - (t > j), k] for t, k in p["segs"] if t != j]) if p.get("pol") == "segments" else p for p in pols]


def shrink_pols(plan):
    n = len(plan["pols"])
    for i in range(n):
        if n > 1:
            yield dict(plan, pols=plan["pols"][:i] + plan["pols"][i + 1:])
    for i, p in enumerate(plan["pols"]):
        if p.get("pol") == "segments":
            for s in sched.shrink_segments(p["segs"]):
                yield dict(plan, pols=plan["pols"][:i] + [dict(p, segs=s)] + plan["pols"][i + 1:])


def shrink(plan):
    n = len(plan["pols"])
    if n > 1:
        yield dict(plan, pols=plan["pols"][-1:])
    for j in range(len(plan["tasks"])):
        if len(plan["tasks"]) > 2:
            q = json.loads(json.dumps(plan))
            del q["tasks"][j]
            q["pols"] = drop_task(q["pols"], j)
            yield q
        for k in range(len(plan["tasks"][j])):
            if len(plan["tasks"][j]) > 1:
                q = json.loads(json.dumps(plan))
                del q["tasks"][j][k]
                yield q
    yield from shrink_pols(plan)
