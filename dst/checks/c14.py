"""C14: a fitted model is consistent with itself whatever the optimizer returned."""
import numpy as np
from .. import common as C, iso, zoo
from ..zoo import KINDS

ID = "C14"
BUDGET = {"quick": {"runs": 7500, "cap": 70}, "thorough": {"runs": 100000, "cap": 1500}}
RULE = ("one evaluation is one fit (also as a refit after other fits) under a seeded behaviour of the external optimizers (converging, stopped early, poor, "
        "unnormalised, repeated start point); reported fitted values, residuals, scores, shapes and scalings are recomputed through the public queries; "
        "distinct = (estimator, settings, call, optimizer behaviour, data kind)")
ASSUME = ["agreement within 1e-6 of the size of the values (1e-4 for 32 bit input)", "rows with missing cells are left out (queries do not impute)"]
ONLY = ["scaler", "wrapper", "snipls", "rm", "sprm", "ppdire", "ppdire_flat", "sudire", "sudire_opt"]


def gen(r, tier, i):
    kind = zoo.pick_kind(r, ONLY)
    K = KINDS[kind]
    cfg = K.sample(r)
    d = K.sample_data(r)
    if kind in ("scaler", "wrapper") and d["k"] in ("nan", "nanall"):
        d["k"] = "normal"
    plan = {"kind": kind, "cfg": cfg, "d": d, "call": K.sample_call(r, cfg, d), "solver": C.sample_solver(r, 0.7 if "ppdire" in kind or kind == "sudire_opt" else 0.0),
            "qx": r.pick(["array", "array", "frame", "fortran", "same"])}
    if r.chance(0.25):
        plan["pre"] = K.sample_data(r, d)
        plan["precfg"] = K.set_choices(r, cfg)
    return plan


def f(a):
    return np.array(a, dtype=float)


def near(a, b, tol):
    a, b = f(a), f(b)
    if a.shape != b.shape:
        if a.size == b.size:
            a, b = a.reshape(-1), b.reshape(-1)
        else:
            return False
    m = ~(np.isnan(a) & np.isnan(b))
    a, b = a[m], b[m]
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return np.array_equal(a, b)
    s = max(float(np.max(np.abs(a))), float(np.max(np.abs(b))), 1e-9)
    return bool(np.max(np.abs(a - b)) <= tol * s)


def gap(a, b):
    a, b = f(a), f(b)
    if a.size != b.size:
        return "shapes %s and %s" % (a.shape, b.shape)
    return "largest difference %.4g at size %.4g" % (np.nanmax(np.abs(a.reshape(-1) - b.reshape(-1))), np.nanmax(np.abs(b)))


def execute(plan):
    kind, K, cfg, d = plan["kind"], KINDS[plan["kind"]], plan["cfg"], plan["d"]
    viol, st, seen = [], {}, []
    C.set_solver(plan["solver"])
    for k in ("mode", "minimize_mode"):
        if plan["solver"].get(k):
            st["fault:optimizer-" + plan["solver"][k]] = 1
    b = C.outcome(lambda: K.build(cfg))
    if b[0] == "exc":
        return {"viol": [], "stats": {"build_raises": 1}, "digest": "b", "plan": plan, "nontrivial": False}
    est = b[1]
    if plan.get("pre") and hasattr(est, "set_params"):
        back = {k: cfg[k] for k in plan["precfg"]}
        if C.outcome(lambda: est.set_params(**zoo.resolve(plan["precfg"])))[0] == "ok":
            X, y = zoo.make(plan["pre"])
            C.fit_outcome(K, est, K.sample_call(zoo.R(d["s"]), dict(cfg, **plan["precfg"]), plan["pre"]), X, y)
            est.set_params(**zoo.resolve(back))
    X, y = zoo.make(d)
    ret = C.outcome(lambda: K.do_fit(est, plan["call"], X, y))
    if ret[0] == "exc":
        st["fit_raises"] = 1
        return {"viol": [], "stats": st, "digest": "fit", "plan": plan, "nontrivial": False}
    st["fits"] = 1
    Xt, yt = zoo.make(d)
    X0 = np.asarray(Xt, dtype=float)
    y0 = np.asarray(yt, dtype=float).reshape(-1)
    n, p = X0.shape
    tol = 1e-4 if d.get("xc") == "f32" else 1e-6
    ok = ~np.isnan(X0).any(axis=1)
    Q = Xt if plan["qx"] == "same" else zoo.wrap_x(X0, plan["qx"])

    def bad(cls, msg, key=None):
        v = {"cls": cls, "msg": "%s %s: %s" % (kind, {k: cfg[k] for k in sorted(cfg) if k in (
            "n_components", "eta", "centre", "center", "scale", "scale_data", "center_data", "compression", "optimizer", "sudiremeth", "whiten_data", "regopt", "fun")}, msg)}
        if key:
            v["key"] = key
        viol.append(v)

    def ask(q):
        o = C.outcome(lambda: K.do_query(est, q, Q))
        if o[0] == "exc":
            bad("query-raises", "%s of the training data raises %s: %s" % (q, o[1], str(o[2])[:120]))
            return None
        return f(o[1])

    has_y = kind not in ("ppdire", "ppdire_flat") or plan["call"].get("y") != "none"
    if kind in ("scaler", "wrapper"):
        t = ask("transform")
        if t is not None:
            if plan["call"]["m"] == "fit_transform" and not near(t, f(ret[1]), tol):
                bad("transform", "transform(train) differs from fit_transform(train): " + gap(t, f(ret[1])))
            if t.shape != X0.shape:
                bad("shape", "transform gives %s for %s" % (t.shape, X0.shape))
            for a in ("col_loc_", "col_sca_"):
                if f(getattr(est, a)).size != p:
                    bad("shape", "%s has %d entries for %d variables" % (a, f(getattr(est, a)).size, p))
            if kind == "scaler" and not viol and np.isfinite(f(est.col_sca_)).all() and np.isfinite(f(est.col_loc_)).all():
                o = C.outcome(lambda: est.inverse_transform(t.copy()))
                if o[0] == "exc":
                    bad("query-raises", "inverse_transform raises %s" % o[1])
                elif not near(f(o[1]), X0, max(tol, 1e-6)):
                    bad("inverse", "inverse_transform(transform(train)) differs from train: " + gap(f(o[1]), X0))
                if not viol and not near(t * np.where(f(est.col_sca_) == 0, 1, f(est.col_sca_)) + f(est.col_loc_), X0, max(tol, 1e-6)):
                    bad("scaling", "transform(train) does not match the reported location and scale")
    elif kind in ("snipls", "rm", "sprm"):
        h = cfg.get("n_components")
        kept = np.arange(p)
        if kind == "sprm":                     # variables without scale are left out of the model, by design
            kept = np.asarray(est.non_zero_scale_vars_)
            p = len(kept)
            X0 = X0[:, kept]
        t = ask("predict")
        fit, res = f(est.fitted_).reshape(-1), f(est.residuals_).reshape(-1)
        if t is not None:
            if fit.size != n or t.reshape(-1).size != n or res.size != n:
                bad("shape", "fitted_ %s, predict(train) %s, residuals_ %s for %d cases" % (fit.shape, t.shape, res.shape, n))
            else:
                if not near(t.reshape(-1)[ok], fit[ok], tol):
                    bad("predict", "predict(train) differs from fitted_: " + gap(t.reshape(-1)[ok], fit[ok]))
                if not near(res[ok], (y0 - fit)[ok], max(tol, 1e-6)):
                    bad("residuals", "residuals_ differ from y - fitted_: " + gap(res[ok], (y0 - fit)[ok]))
        if f(est.coef_).size != p:
            bad("shape", "coef_ of shape %s for %d variables" % (f(est.coef_).shape, p))
        elif not near((X0 @ f(est.coef_).reshape(-1) + f(est.intercept_).reshape(-1)[0])[ok], fit[ok], tol):
            bad("coefficients", "X coef_ + intercept_ differs from fitted_")
        if kind != "rm":
            for a, want in (("x_scores_", (n, h)), ("x_loadings_", (p, h)), ("x_weights_", (p, h)), ("x_Rweights_", (p, h))):
                s = f(getattr(est, a)).shape
                if s != want:
                    bad("shape", "%s is %s, expected %s" % (a, s, want))
            if not viol:
                T = ask("transform")
                S = f(est.x_scores_)
                if T is not None and ok.all() and not near(T, S, tol):
                    key = None
                    if kind == "snipls" and cfg["eta"] > 0 and h > 1 and near(T[:, 0], S[:, 0], tol):
                        key = "snipls-sparse-scores"
                    z = (X0 - f(est.x_loc_).reshape(-1)[kept]) / np.where(f(est.x_sca_).reshape(-1)[kept] == 0, 1, f(est.x_sca_).reshape(-1)[kept])
                    if not near(T, z @ f(est.x_Rweights_), tol):
                        key = None
                    bad("scores", "transform(train) differs from x_scores_: " + (gap(T[ok], S[ok]) if T.shape == S.shape else str((T.shape, S.shape))), key)
    elif kind in ("ppdire", "ppdire_flat"):
        h = (plan["call"].get("kw") or {}).get("h") or cfg["n_components"]
        T, S = ask("transform"), f(est.x_scores_)
        if T is not None:
            if S.shape[0] != n or S.shape != T.shape:
                bad("shape", "x_scores_ %s, transform(train) %s, %d cases" % (S.shape, T.shape, n))
            elif not near(T, S, tol):
                key = "ppdire-compressed-scores" if cfg["compression"] and cfg["center_data"] and (cfg["scale_data"] or cfg["center"] != "mean") else None
                z = (X0 - f(est.x_loc_).reshape(-1)) / np.where(f(est.x_sca_).reshape(-1) == 0, 1, f(est.x_sca_).reshape(-1))
                if not near(T, z @ f(est.x_rotations_), tol):
                    key = None
                size = np.linalg.norm(S, axis=0)
                if size.min() < 1e-7 * size.max():
                    key = "ppdire-null-direction"
                bad("scores", "transform(train) differs from x_scores_: " + gap(T, S), key)
            if f(est.x_rotations_).shape != (p, S.shape[1]) or f(est.x_weights_).shape != (p, S.shape[1]):
                bad("shape", "x_rotations_ %s, x_weights_ %s for %d variables and %d components" % (f(est.x_rotations_).shape, f(est.x_weights_).shape, p, S.shape[1]))
            if S.shape[1] != h:
                bad("shape", "%d components reported, %d asked for" % (S.shape[1], h))
        if has_y:
            t = ask("predict")
            fit, res = f(est.fitted_).reshape(-1), f(est.residuals_).reshape(-1)
            if t is not None:
                if fit.size != n or t.size != n or res.size != n:
                    bad("shape", "fitted_ %s, predict(train) %s, residuals_ %s for %d cases" % (f(est.fitted_).shape, t.shape, f(est.residuals_).shape, n))
                else:
                    if not near(t, fit, tol):
                        bad("predict", "predict(train) differs from fitted_: " + gap(t, fit))
                    if not near(res, y0 - fit, tol):
                        bad("residuals", "residuals_ differ from y - fitted_: " + gap(res, y0 - fit))
            if not viol and f(est.coef_).shape != (p, S.shape[1]):
                bad("shape", "coef_ %s for %d variables and %d components" % (f(est.coef_).shape, p, S.shape[1]))
    else:
        h = cfg["n_components"]
        T, S = ask("transform"), f(est.x_scores_)
        if T is not None:
            if S.shape != (n, h) or T.shape != S.shape:
                bad("shape", "x_scores_ %s, transform(train) %s for %d cases and %d components" % (S.shape, T.shape, n, h))
            elif not near(T, S, tol):
                bad("scores", "transform(train) differs from x_scores_: " + gap(T, S))
        if f(est.x_loadings_).shape != (p, h):
            bad("shape", "x_loadings_ is %s" % (f(est.x_loadings_).shape,))
        t = ask("predict")
        if t is not None and hasattr(est, "ols_obj_"):
            fit = f(est.ols_obj_.fittedvalues).reshape(-1)
            if t.reshape(-1).size != n or not near(t.reshape(-1), fit, tol):
                bad("predict", "predict(train) differs from the fitted values of the regression: " + gap(t, fit))
            res = f(est.ols_obj_.resid).reshape(-1)
            yy = f(est.ols_obj_.model.endog).reshape(-1)
            if not near(res, yy - fit, tol):
                bad("residuals", "residuals of the regression differ")
    seen.append(K.observe_attrs(est))
    return {"viol": viol[:2], "stats": st, "digest": C.digest_of(seen), "plan": plan, "steps": 1,
            "sig": [C.sig(kind, C.cfgkey(cfg), plan["call"], plan["solver"].get("mode"), plan["solver"].get("minimize_mode"), d["k"], d["xc"])]}


def shrink(plan):
    if plan.get("pre"):
        yield {k: v for k, v in plan.items() if k not in ("pre", "precfg")}
    if plan["solver"]:
        yield dict(plan, solver={})
        for k in ("minimize_mode",):
            if k in plan["solver"]:
                yield dict(plan, solver={a: b for a, b in plan["solver"].items() if a != k})
    if plan["qx"] != "array":
        yield dict(plan, qx="array")
    for k, v in (("verbose", False), ("copy", True), ("n_components", 1), ("trimming", 0)):
        if plan["cfg"].get(k, v) != v:
            yield dict(plan, cfg=dict(plan["cfg"], **{k: v}))
    yield from C.generic_shrink(plan, lists=())
