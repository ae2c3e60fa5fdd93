"""C07: a failed refit never produces a mixture of two models."""
from .. import common as C, faults, iso, mon, zoo
from ..zoo import KINDS
from . import c01, c02

ID = "C07"
LEVEL = "fault_enumeration"
BUDGET = {"quick": {"runs": 2700, "cap": 70}, "thorough": {"runs": 80000, "cap": 1500}}
KINDS_OF_FAULT = ("linalg", "optimize", "stats", "deepcopy", "print", "warn", "user")
RULE = ("one evaluation is a fitted model whose refit on other data fails at a seeded outgoing numerical / optimizer / copy / output / user call, "
        "or because of invalid data or settings; every query is compared with an untouched fork of the old model; answers must be the old ones "
        "or errors; distinct = (estimator, settings, failure kind and place); refits that did not fail do not count")
ASSUME = ["failures happen in outgoing calls or through invalid input, not between two attribute assignments"]
ONLY = ["scaler", "wrapper", "gsspp", "snipls", "rm", "sprm", "ppdire", "ppdire_flat", "sudire", "sudire_opt"]

BAD = {
    "scaler": [{"center": "nonsense"}, {"scale": "nonsense"}, {"trimming": 2}],
    "gsspp": [{"fun": "nonsense"}, {"center": "nonsense"}],
    "snipls": [{"n_components": 50}, {"eta": -3}, {"centre": "nonsense"}],
    "rm": [{"fun": "nonsense"}, {"centre": "nonsense"}, {"probp1": 2}, {"scale": "nonsense"}],
    "sprm": [{"fun": "nonsense"}, {"n_components": 50}, {"probp1": 2}, {"centre": "nonsense"}, {"eta": 7}, {"scale": "nonsense"},
             {"start_X_init": "nonsense"}],
    "ppdire": [{"optimizer": "nonsense"}, {"regopt": "nonsense"}, {"center": "nonsense"}, {"n_components": 90}, {"projection_index": None}],
    "sudire": [{"sudiremeth": "nonsense"}, {"center": "nonsense"}, {"n_components": 90}, {"n_slices": 0}],
}
BAD["ppdire_flat"] = BAD["ppdire"]
BAD["sudire_opt"] = BAD["sudire"]


def gen(r, tier, i):
    kind = zoo.pick_kind(r, ONLY)
    K = KINDS[kind]
    cfg = K.sample(r)
    d = K.sample_data(r)
    d2 = K.sample_data(r, d)
    if d2 == d:
        d2["s"] = r.seed()
    plan = {"kind": kind, "cfg": cfg, "d": d, "call": K.sample_call(r, cfg, d), "d2": d2, "call2": K.sample_call(r, cfg, d2),
            "solver": C.sample_solver(r, 0.1), "pseed": r.seed()}
    plan["call2"]["m"] = "fit"           # (fit_transform: the fit may well be complete when the transform fails)
    u = r.u()
    if u < 0.65:
        plan["fault"] = C.sample_fault(r, KINDS_OF_FAULT, line=0)
    elif u < 0.85 or kind not in BAD:
        plan["bad"] = c01.gen_badfit(r)
    else:
        plan["set"] = r.pick(BAD[kind])
    if plan.get("fault") and r.chance(0.3):
        plan["cfg2"] = K.set_choices(r, cfg)     # reconfigured before the failing refit
    return plan


QUERY_SPECS = 2


def answers(kind, est, plan):
    """all queries on new data and on both training sets"""
    K = KINDS[kind]
    out = {}
    for tag, spec in (("new", zoo.probe_spec(plan["pseed"], plan["d"]["p"])), ("old", plan["d"]), ("second", plan["d2"]),
                      ("new2", zoo.probe_spec(plan["pseed"] + 1, plan["d2"]["p"]))):
        for q in K.queries:
            X, y = zoo.make(spec)
            out[q + ":" + tag] = C.outcome(lambda: zoo.norm(K.do_query(est, q, X, y)))[:2]
    if kind in ("scaler",):
        o = C.outcome(lambda: zoo.norm(est.inverse_transform()))
    return out


def _second(kind, plan):
    """outcome of the refit without a fault, profile, starting from the fitted model (in a fork)"""
    return None


def execute(plan):
    kind, K = plan["kind"], KINDS[plan["kind"]]
    viol, st, seen = [], {}, []

    def bump(k):
        st[k] = st.get(k, 0) + 1

    est = c02.fit_model(plan)
    if est is None:
        return {"viol": [], "stats": {"fit_raises": 1}, "digest": "fit", "plan": plan, "nontrivial": False}
    old = iso.isolated(answers, kind, est, plan)
    if plan.get("cfg2"):
        o = C.outcome(lambda: est.set_params(**zoo.resolve(plan["cfg2"])))
        if o[0] == "exc":
            return {"viol": [], "stats": {"set_raises": 1}, "digest": "set", "plan": plan, "nontrivial": False}
    X, y = zoo.make(plan["d2"])
    where = None
    if plan.get("fault"):
        f = plan["fault"]
        if "nth" not in f:
            def prof():
                with faults.Probe() as p:
                    C.fit_outcome(K, est, plan["call2"], X, y)
                mon.disable()
                return dict(p.calls), p.lines
            calls, lines = iso.isolated(prof)
            f = plan["fault"] = C.resolve_fault(f, calls, lines)
        if f is None:
            return {"viol": [], "stats": {"no_fault_point": 1}, "digest": "none", "plan": plan, "nontrivial": False}
        with faults.Probe(f) as pr:
            o = C.fit_outcome(K, est, plan["call2"], X, y)
        mon.disable()
        if pr.fired:
            bump("fault:" + f["kind"])
            where = [f["kind"], pr.fired]
    elif plan.get("bad"):
        Xb, yb = c01.bad_data(plan["bad"], X, y)
        if Xb is None:
            o = C.outcome(lambda: est.fit())
        else:
            o = C.fit_outcome(K, est, plan["call2"], Xb, yb)
        bump("fault:invalid-data")
        where = ["data", plan["bad"]]
    else:
        s = C.outcome(lambda: [setattr(est, k, zoo.resolve(v)) for k, v in plan["set"].items()])
        o = C.fit_outcome(K, est, plan["call2"], X, y)
        bump("fault:invalid-setting")
        where = ["setting", plan["set"]]
    if o[0] == "ok":
        bump("refit_succeeded")
        return {"viol": [], "stats": st, "digest": "ok", "plan": plan, "nontrivial": False}
    bump("refit_failed")
    new = answers(kind, est, plan)
    seen.append(new)
    kept = 0
    for k in old:
        if new[k][0] == "ok":
            if old[k][0] != "ok":
                viol.append({"cls": "mixture", "msg": "%s.%s answers after a failed refit (%s) although the old model raised %s" % (kind, k, where, old[k][1])})
                break
            d = zoo.diff(new[k][1], old[k][1])
            if d:
                viol.append({"cls": "mixture", "msg": "%s.%s after a failed refit (%s): %s" % (kind, k, where, d)})
                break
            kept += 1
        else:
            bump("error_after_failed_refit" if old[k][0] == "ok" else "error_before_and_after")
    st["old_answers_kept"] = kept
    return {"viol": viol, "stats": st, "digest": C.digest_of(seen), "plan": plan, "sig": [C.sig(kind, C.cfgkey(plan["cfg"]), where)],
            "nontrivial": True}


def shrink(plan):
    if plan.get("cfg2"):
        q = dict(plan)
        del q["cfg2"]
        yield q
    yield from C.generic_shrink(plan, lists=())
