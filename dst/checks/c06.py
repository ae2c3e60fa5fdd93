"""C06: a failed or interrupted call is reported and leaves nothing broken behind."""
from .. import common as C, faults, iso, mon, zoo
from ..zoo import KINDS
from . import c02

ID = "C06"
LEVEL = "fault_enumeration"
BUDGET = {"quick": {"runs": 2300, "cap": 70}, "thorough": {"runs": 80000, "cap": 1500}}
RULE = ("one evaluation is one fit or query into which 1-3 faults are injected in successive attempts, each at a seeded outgoing call or line; "
        "the failing call must raise or give the fault-free result, settings must be intact, and a retry on the same object and a new object "
        "in the same process must equal the fault-free reference; distinct = (estimator, settings, fault kind, place where it fired)")
ASSUME = ["a fault raises instead of the outgoing call (the call has no effect); interrupts arrive between two lines of library code"]


def gen(r, tier, i):
    kind = zoo.pick_kind(r)
    K = KINDS[kind]
    cfg = K.sample(r)
    d = K.sample_data(r)
    call = K.sample_call(r, cfg, d)
    plan = {"kind": kind, "cfg": cfg, "d": d, "call": call, "solver": C.sample_solver(r, 0.15), "pseed": r.seed(),
            "target": "query" if K.queries and r.chance(0.25) else "fit",
            "faults": [C.sample_fault(r) for _ in range(r.wpick([(1, 3), (2, 2), (4, 2)]))]}
    if r.chance(0.4):
        plan["pre"] = K.sample_data(r, d)
        plan["precall"] = K.sample_call(r, cfg, plan["pre"])
    if plan["target"] == "query":
        plan["q"] = c02.gen_query(r, kind, d["p"], plots=0, bad=0, fault=0)
    return plan


def execute(plan):
    kind, K = plan["kind"], KINDS[plan["kind"]]
    viol, st, seen, sigs, steps = [], {}, [], [], 0

    def bump(k):
        st[k] = st.get(k, 0) + 1

    solver, d, call = plan["solver"], plan["d"], plan["call"]
    ps = zoo.probe_spec(plan["pseed"], d["p"])
    ref = C.ref_fit(kind, plan["cfg"], d, call, ps, solver, profile=True)
    if "fit" not in ref or ref["fit"][0] != "ok":
        return {"viol": [], "stats": {"fit_raises": 1}, "digest": "fit", "plan": plan, "nontrivial": False}
    C.set_solver(solver)
    defaults = zoo.defaults_snapshot()
    est = K.build(plan["cfg"])
    base = zoo.params_snapshot(est)
    if plan.get("pre"):
        X, y = zoo.make(plan["pre"])
        C.fit_outcome(K, est, plan["precall"], X, y)
    query = plan["target"] == "query"
    if query:
        X, y = zoo.make(d)
        o = C.fit_outcome(K, est, call, X, y)
        if o[0] != "ok":
            return {"viol": [], "stats": {"fit_raises": 1}, "digest": "fit", "plan": plan, "nontrivial": False}
        qref = iso.isolated(c02._ref_query, kind, est, plan["q"], d, True)
        prof = qref
    else:
        prof = ref
    # profile of a fit on a used object may differ slightly; positions are clipped by never firing
    for j, f in enumerate(plan["faults"]):
        f = plan["faults"][j] = C.resolve_fault(f, prof["calls"], prof["lines"])
        if f is None:
            continue
        X, y = zoo.make(d)
        with faults.Probe(f) as pr:
            if query:
                o = c02.do_query(kind, est, plan["q"], d)
            else:
                o = C.fit_outcome(K, est, call, X, y)
        mon.disable()
        steps += pr.lines
        seen.append((C.status(o), pr.fired))
        if pr.fired:
            name = f["kind"] + ("/" + f["exc"] if f.get("exc") else "") if f["at"] == "call" else f["kind"] + "-at-line"
            bump("fault:" + name)
            sigs.append(C.sig(kind, C.cfgkey(plan["cfg"]), name, pr.fired))
        where = "%s in %s" % (f["kind"], pr.fired[0] if pr.fired else "-")
        if o[0] == "ok":
            if pr.fired:
                bump("swallowed")
            if query:
                dd = zoo.diff(o[1], qref["o"][1]) if qref["o"][0] == "ok" else "returned although the fault-free query raises"
            else:
                dd = zoo.diff(o[1], ref["fit"][1]) or zoo.diff(zoo.observe(kind, est, ps), ref["obs"])
            if dd:
                viol.append({"cls": "silent", "msg": "%s %s: fault (%s) not reported and result wrong: %s" % (kind, plan["target"], where, dd)})
                break
        now = zoo.params_snapshot(est)
        if now != base:
            ks = [k for k in now if now[k] != base.get(k)]
            viol.append({"cls": "settings", "msg": "%s settings %s altered by a failed %s (%s)" % (kind, ks, plan["target"], where)})
            break
    if not viol:
        # recovery on the same object
        if query:
            o = c02.do_query(kind, est, plan["q"], d)
            dd = c02.compare(o, qref["o"])
            seen.append(o[:2])
            if dd:
                viol.append({"cls": "query-retry", "msg": "%s.%s after a failed query: %s" % (kind, plan["q"]["q"], dd)})
            if not viol:
                dd = zoo.diff(zoo.observe(kind, est, ps), ref["obs"])
                if dd:
                    viol.append({"cls": "query-damage", "msg": "%s answers after a failed query: %s" % (kind, dd)})
        else:
            X, y = zoo.make(d)
            o = C.fit_outcome(K, est, call, X, y)
            if o[0] != "ok":
                viol.append({"cls": "retry", "msg": "%s: fitting again after a failed fit %s" % (kind, C.status(o))})
            else:
                obs = zoo.observe(kind, est, ps)
                seen.append(obs)
                dd = zoo.diff(o[1], ref["fit"][1]) or zoo.diff(obs, ref["obs"])
                if dd:
                    viol.append({"cls": "retry", "msg": "%s: fitting again after a failed fit differs from a fresh object: %s" % (kind, dd)})
    if not viol:
        # every other object
        e2 = K.build(plan["cfg"])
        X, y = zoo.make(d)
        o = C.fit_outcome(K, e2, call, X, y)
        dd = C.status(o) if o[0] != "ok" else (zoo.diff(o[1], ref["fit"][1]) or zoo.diff(zoo.observe(kind, e2, ps), ref["obs"]))
        if dd:
            viol.append({"cls": "bystander", "msg": "%s: a new object after a failed call of another one: %s" % (kind, dd)})
        dd = zoo.defaults_changed(defaults)
        if dd:
            viol.append({"cls": "defaults", "msg": "%s: after a failed %s %s" % (kind, plan["target"], dd)})
    return {"viol": viol, "stats": st, "digest": C.digest_of(seen), "plan": plan, "sig": sigs, "steps": steps, "nontrivial": bool(sigs)}


def shrink(plan):
    if plan.get("pre"):
        q = dict(plan)
        del q["pre"]
        yield q
    n = len(plan["faults"])
    for i in range(n):
        if n > 1:
            yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    yield from C.generic_shrink(plan, lists=())
