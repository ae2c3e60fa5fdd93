"""The public surface of the code under test as seen by the simulator:
how to build, fit, query and observe every estimator, and how to make data.

Everything is described by JSON-able specs so that a run is a pure function of
its plan (the replay file)."""
import copy
import importlib
import numpy as np
import pandas as pd
import direpack as dp

# --------------------------------------------------------------------------
# deterministic choice helper (independent of numpy's global generator)


class R:
    """PRNG facade: everything drawn from one seed."""

    def __init__(self, *seed):
        ss = np.random.SeedSequence([int(x) & 0xFFFFFFFF for x in seed])
        self.g = np.random.Generator(np.random.PCG64(ss))

    def chance(self, p):
        return bool(self.g.random() < p)

    def int(self, a, b):
        """inclusive bounds"""
        return int(self.g.integers(a, b + 1))

    def pick(self, xs):
        return xs[int(self.g.integers(0, len(xs)))]

    def wpick(self, pairs):
        tot = sum(w for _, w in pairs)
        u = self.g.random() * tot
        for x, w in pairs:
            u -= w
            if u < 0:
                return x
        return pairs[-1][0]

    def u(self):
        return float(self.g.random())

    def seed(self):
        return int(self.g.integers(0, 2 ** 31 - 1))

    def shuffled(self, xs):
        xs = list(xs)
        self.g.shuffle(xs)
        return xs


# --------------------------------------------------------------------------
# user supplied callables (the "user code" component of the simulation)

class CallCount:
    n = 0


def u_median(X, trimming=0, **kw):
    return np.array(np.median(np.asarray(X), axis=0)).reshape(-1)


def u_scale(X, trimming=0, **kw):
    return np.array(np.ptp(np.asarray(X), axis=0)).reshape(-1) + 0.5


def u_radial(dd, p, n, *args):
    return 1 / (1 + dd)


class UserIndex:
    """A user defined projection index (class with fit)."""
    _dst_user = True

    def __init__(self, power=2, shift=0.0):
        self.power = power
        self.shift = shift

    def fit(self, x, **kw):
        x = np.asarray(x).reshape(-1)
        y = kw.get("y")
        v = np.mean(np.abs(x - np.mean(x)) ** self.power) ** (1.0 / self.power)
        if y is not None:
            v = v * (1 + abs(np.mean(x * np.asarray(y).reshape(-1))))
        return float(v) + self.shift


def u_sdr(beta, *args):
    X, Y, h = args[0], args[1], args[2]
    beta = np.reshape(beta, (-1, h), order="F")
    T = np.matmul(X, beta)
    Y = np.asarray(Y, dtype=float).reshape(-1)
    return -float(np.sum(np.abs(np.matmul(T.T, Y - Y.mean()))) / len(Y))


def u_con(x, *args):
    return float(np.sum(np.square(x)) + 3.0)


for _f in (u_median, u_scale, u_radial, u_sdr, u_con):
    _f._dst_user = True

CALLABLES = {"@u_median": u_median, "@u_scale": u_scale, "@u_radial": u_radial, "@u_sdr": u_sdr, "@u_con": u_con,
             "@UserIndex": UserIndex, "@dicomo": dp.dicomo, "@capi": dp.capi}


def resolve(v):
    """JSON value -> python value; fresh containers every time."""
    if isinstance(v, str) and v.startswith("@"):
        return CALLABLES[v]
    if isinstance(v, dict):
        if "__arr__" in v:
            return np.array(v["__arr__"])
        return {k: resolve(x) for k, x in v.items()}
    if isinstance(v, list):
        return [resolve(x) for x in v]
    return v


# --------------------------------------------------------------------------
# data

XC = ("array", "fortran", "frame", "readonly", "object", "int", "f32")
YC = ("1d", "2d", "series", "frame", "readonly")


def raw_xy(spec):
    g = np.random.RandomState(spec["s"] % (2 ** 31))
    n, p, k = spec["n"], spec["p"], spec["k"]
    A = np.eye(p) + 0.4 * g.standard_normal((p, p))
    X = g.standard_normal((n, p)) @ A * (0.5 + g.random_sample(p)) + g.standard_normal(p) * 2
    b = g.standard_normal(p)
    if k == "heavy":
        X = X + 0.5 * g.standard_t(3, size=(n, p))
    y = X @ b + 0.3 * g.standard_normal(n) + g.standard_normal() * 3
    if k == "nonlin":
        y = (X[:, 0] - X[:, 0].mean()) ** 2 + 0.5 * X[:, -1] + 0.2 * g.standard_normal(n)
    if k == "outliers":
        m = max(1, n // 7)
        X[:m] += 9
        y[:m] -= 25
    if k == "youtliers":
        m = max(1, n // 7)
        y[:m] += 40
    if k == "zero" and p > 2:
        X[:, g.randint(p)] = float(g.randint(1, 5))
    if k == "lowmad" and p > 2:
        j = g.randint(p)
        X[: (3 * n) // 4, j] = 1.5
    if k == "tied":                   # more than half of every column is one value
        m = (2 * n) // 3
        for j in range(p):
            X[np.random.RandomState(spec["s"] % 1000 + j).permutation(n)[:m], j] = float(g.randint(0, 3))
    if k == "const0":
        X[:, 0] = float(g.randint(0, 3))
    if k == "dup":
        X[n // 2:n // 2 + n // 4] = X[:n // 4]
        y[n // 2:n // 2 + n // 4] = y[:n // 4]
    if k == "big":
        X = X * 1e3 + 1e4
        y = y * 1e2
    if k == "ints":
        X = np.round(X * 5)
        y = np.round(y * 3)
    if k == "nan":
        for _ in range(max(1, n * p // 25)):
            X[g.randint(n), g.randint(p)] = np.nan
    if k == "nanall" and n > 2:
        X[1, :] = np.nan
    if k == "consty":
        y = np.zeros(n) + 2.0
    if k == "discy":
        y = (np.argsort(np.argsort(y)) * 3 // n + 1).astype(float)
    if k == "inf":
        X[0, 0] = np.inf
    return X, y


def names(p, tag="v"):
    return ["%s%d" % (tag, i) for i in range(p)]


def labels(n, s):
    """row labels of the caller's tables: default, unsorted, repeated, text"""
    k = s % 5
    return [None, None, list(range(n))[::-1], [7 * i % 5 for i in range(n)], ["r%d" % (i * 3 % n) for i in range(n)]][k]


def wrap_x(X, c, s=0):
    X = np.array(X, dtype=float)
    if c == "fortran":
        return np.asfortranarray(X)
    if c == "frame":
        return pd.DataFrame(X, columns=names(X.shape[1]), index=labels(len(X), s))
    if c == "readonly":
        X.setflags(write=False)
        return X
    if c == "object":
        return X.astype(object)
    if c == "int":
        return np.nan_to_num(np.round(X * 4)).astype(np.int64)
    if c == "f32":
        return X.astype(np.float32)
    if c == "strided":
        big = np.zeros((X.shape[0] * 2, X.shape[1] * 2))
        v = big[::2, ::2]
        v[...] = X
        return v
    return X


def wrap_y(y, c, s=0):
    y = np.array(y, dtype=float)
    if c == "2d":
        return y.reshape(-1, 1)
    if c == "series":
        return pd.Series(y, name="resp", index=labels(len(y), s))
    if c == "frame":
        return pd.DataFrame({"resp": y}, index=labels(len(y), s))
    if c == "readonly":
        y.setflags(write=False)
        return y
    return y


def make(spec):
    X, y = raw_xy(spec)
    return wrap_x(X, spec.get("xc", "array"), spec["s"]), wrap_y(y, spec.get("yc", "1d"), spec["s"])


def sample_data(r, kinds=None, n=(16, 30), p=(3, 5), plain=0.5, xcs=None, ycs=None):
    kinds = kinds or [("normal", 5), ("outliers", 3), ("youtliers", 2), ("heavy", 2), ("nonlin", 2), ("big", 1), ("dup", 1),
                      ("ints", 1), ("zero", 1.5), ("lowmad", 1)]
    d = {"s": r.seed(), "n": r.int(*n), "p": r.int(*p), "k": r.wpick(kinds), "xc": "array", "yc": "1d"}
    if not r.chance(plain):
        d["xc"] = r.pick(xcs or ("array", "fortran", "frame", "readonly", "object", "strided", "int", "f32"))
        d["yc"] = r.pick(ycs or YC)
    return d


# --------------------------------------------------------------------------
# kinds

class Kind:
    name = None
    attrs = ()
    opt_attrs = ()          # results that exist under some settings only
    queries = ()
    supervised = True
    datakinds = None
    n = (16, 28)
    p = (3, 5)
    xcs = None
    ycs = None
    big = None              # occasional larger tables: (cases), (variables)
    weight = 1.0

    def sample(self, r):
        return {}

    def construct(self, params):
        """params: resolved keyword arguments (objects may be shared by the caller)"""
        raise NotImplementedError

    def build(self, cfg):
        return self.construct(resolve(cfg))

    def sample_data(self, r, like=None):
        d = sample_data(r, self.datakinds, self.n, self.p, xcs=self.xcs, ycs=self.ycs)
        if self.big and r.chance(0.05):
            d["n"], d["p"] = r.int(*self.big[0]), r.int(*self.big[1])
        if like is not None:
            u = r.u()
            if u < 0.35:
                d["n"], d["p"] = like["n"], like["p"]
            elif u < 0.6:
                d["p"] = like["p"]
            elif u < 0.7:
                d = dict(like)      # the very same data again
        return d

    def sample_call(self, r, cfg, data):
        return {"m": "fit"}

    def call_args(self, call, X, y):
        """positional, keyword arguments of the fit-like call"""
        if self.supervised:
            return (X, y), {}
        return (X,), {}

    def do_fit(self, est, call, X, y):
        a, k = self.call_args(call, X, y)
        return getattr(est, call["m"])(*a, **k)

    def set_choices(self, r, cfg):
        """a re-configuration: dict of some parameters"""
        new = self.sample(r)
        keys = [k for k in new if new[k] != cfg.get(k)]
        if not keys:
            return {}
        keys = r.shuffled(keys)[: r.int(1, min(3, len(keys)))]
        return {k: new[k] for k in keys}

    def do_query(self, est, q, X, y=None):
        if q == "inverse":
            return est.inverse_transform(X)
        if q == "weights":
            return est.weightnewx(X)
        if q == "score":
            return est.score(X, y)
        if q == "valscore":
            return est.valscore(X, y, "normal")
        if q == "valscore_w":
            return est.valscore(X, y, "weighted")
        return getattr(est, q)(X)

    def observe_attrs(self, est):
        out = {}
        for a in self.attrs:
            try:
                v = getattr(est, a)
            except AttributeError:
                v = "<missing>"
            out[a] = norm(v)
        for a in self.opt_attrs:
            v = getattr(est, a, ABSENT)
            out[a] = ABSENT if isinstance(v, str) and v == "irrelevant" else norm(v)
        return out


ABSENT = "<absent>"       # compares equal to anything (see diff)


def norm(v):
    """Observable value -> comparable, picklable value."""
    if v is None or isinstance(v, (str, bool, int)):
        return v
    if isinstance(v, (float, np.floating, np.integer)):
        return float(v)
    if isinstance(v, pd.Index):
        return ["idx"] + [str(x) for x in v]
    if isinstance(v, (pd.DataFrame, pd.Series)):
        v = v.to_numpy()
    if isinstance(v, np.matrix):
        v = np.array(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            try:
                return np.array(v, dtype=float)
            except (TypeError, ValueError):
                return ["obj"] + [str(x) for x in v.ravel()]
        if v.dtype.kind in "US":
            return ["str"] + [str(x) for x in v.ravel()]
        return np.array(v, dtype=float)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, dp.VersatileScaler):
        return {a: norm(getattr(v, a, ABSENT)) for a in ("center_", "scale_", "col_loc_", "col_sca_", "center", "scale", "trimming")}
    if type(v).__name__ == "RegressionResultsWrapper":
        return norm(np.array(v.params))
    return "<%s>" % type(v).__name__


def defaults_snapshot():
    """settings of objects which are built now without any arguments"""
    out = {}
    for n in ("VersatileScaler", "GenSpatialSignPreProcessor", "snipls", "rm", "sprm", "ppdire", "dicomo", "capi", "sudire"):
        try:
            cls = getattr(dp, n) if n[0] != "G" else importlib.import_module("direpack.preprocessing.gsspp").GenSpatialSignPreProcessor
            out[n] = params_snapshot(cls(*([dp.dicomo] if n == "ppdire" else [])))
        except Exception as e:
            out[n] = type(e).__name__
    return out


def defaults_changed(before):
    now = defaults_snapshot()
    for n in before:
        if now[n] != before[n]:
            return "a %s built with default settings now has %s" % (n, {k: v for k, v in now[n].items() if not isinstance(before[n], dict) or v != before[n].get(k)}
                                                                     if isinstance(now[n], dict) else now[n])
    return None


def params_snapshot(est):
    """Settings, as plain comparable values."""
    if not hasattr(est, "get_params"):
        return {}
    out = {}
    for k, v in est.get_params(deep=False).items():
        out[k] = pnorm(v)
    return out


def pnorm(v):
    if isinstance(v, np.ndarray):
        return ("ndarray", str(v.dtype), v.shape, [str(x) for x in v.ravel()])
    if isinstance(v, pd.Index):
        return ("Index", [str(x) for x in v])
    if isinstance(v, dict):
        return ("dict", sorted((repr(k), pnorm(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [pnorm(x) for x in v])
    if callable(v):
        return ("callable", getattr(v, "__name__", "?"))
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, repr(v))
    return ("obj", type(v).__name__)


# ---------------------------------------------------------------- scalers

class Scaler(Kind):
    name = "scaler"
    attrs = ("center_", "scale_", "col_loc_", "col_sca_")
    queries = ("transform", "predict", "inverse")
    supervised = False
    datakinds = [("normal", 4), ("outliers", 3), ("heavy", 2), ("zero", 2), ("lowmad", 2), ("tied", 2), ("ints", 1), ("nan", 2), ("big", 1), ("dup", 1)]
    n = (7, 24)
    p = (2, 6)
    big = ((40, 130), (5, 24))
    weight = 1.5

    def sample(self, r):
        c = {"center": r.pick(["mean", "median", "l1median", "kstepLTS", "None", "@u_median"]),
             "scale": r.pick(["std", "mad", "scaleTau2", "None", "@u_scale"]),
             "trimming": r.pick([0, 0, 0, 0.1, 0.2])}
        return c

    def construct(self, params):
        return dp.VersatileScaler(**params)

    def sample_call(self, r, cfg, data):
        return {"m": r.pick(["fit", "fit_transform"])}


class Wrap(Kind):
    name = "wrapper"
    attrs = ("center_", "scale_", "col_loc_", "col_sca_")
    queries = ("transform", "predict")
    supervised = False
    datakinds = [("normal", 4), ("outliers", 3), ("heavy", 2), ("lowmad", 1), ("ints", 1), ("dup", 1)]
    n = (7, 24)
    p = (2, 6)
    big = ((40, 130), (5, 24))
    weight = 0.8

    def sample(self, r):
        return {}

    def set_choices(self, r, cfg):
        return {}

    def construct(self, params):
        return dp.Wrapper()

    def sample_call(self, r, cfg, data):
        return {"m": r.pick(["fit", "fit_transform"])}


class Gss(Kind):
    name = "gsspp"
    attrs = ("gss_", "Xm_")
    queries = ("transform",)
    supervised = False
    datakinds = [("normal", 4), ("outliers", 3), ("heavy", 2), ("ints", 1), ("dup", 1), ("zero", 1)]
    n = (9, 24)
    p = (2, 5)
    big = ((40, 130), (5, 12))
    weight = 0.8

    def sample(self, r):
        return {"center": r.pick(["mean", "median", "l1median", "kstepLTS", "@u_median"]),
                "fun": r.pick(["ss", "ball", "shell", "quad", "winsor", "linear_redescending", "@u_radial"])}

    def construct(self, params):
        return dp.GenSpatialSignPreProcessor(**params)

    def sample_call(self, r, cfg, data):
        return {"m": r.pick(["fit", "fit_transform"])}


# ---------------------------------------------------------------- sprm family

SPRM_ATTRS = ("x_weights_", "x_loadings_", "C_", "x_scores_", "coef_", "intercept_", "coef_scaled_", "intercept_scaled_",
              "residuals_", "x_ev_", "y_ev_", "fitted_", "x_Rweights_", "colret_", "x_loc_", "y_loc_", "x_sca_", "y_sca_")


def sample_columns(r):
    u = r.u()
    if u < 0.6:
        return False
    if u < 0.75:
        return True
    if u < 0.85:
        return {"__arr__": names(5, "w")}
    return names(5, "w")


class Snipls(Kind):
    name = "snipls"
    attrs = SPRM_ATTRS
    queries = ("predict", "transform", "score")
    datakinds = [("normal", 5), ("outliers", 2), ("heavy", 1), ("nonlin", 1), ("big", 1), ("ints", 1), ("nan", 2), ("dup", 1), ("consty", 0.6), ("zero", 0.5)]
    ycs = ("1d", "2d", "series", "frame", "readonly")
    opt_attrs = ("centring_", "X", "y")
    big = ((40, 110), (6, 18))
    weight = 1.2

    def sample(self, r):
        return {"eta": r.pick([0.0, 0.0, 0.2, 0.5, 0.8, 0.95]), "n_components": r.int(1, 3), "verbose": r.chance(0.5),
                "columns": sample_columns(r), "centre": r.pick(["mean", "mean", "median", "l1median", "kstepLTS", "None"]),
                "scale": r.pick(["None", "None", "std", "mad", "scaleTau2"]), "copy": r.chance(0.85)}

    def sample_data(self, r, like=None):
        d = Kind.sample_data(self, r, like)
        if (r.chance(0.6) and like is None) or d["k"] == "zero":
            d["p"] = 5          # (with a constant column still more variables than components)
        return d

    def sample_call(self, r, cfg, data):
        return {"m": "fit_transform" if r.chance(0.1) else "fit"}

    def construct(self, params):
        return dp.snipls(**params)


class Rm(Kind):
    name = "rm"
    attrs = ("coef_", "intercept_", "coef_scaled_", "intercept_scaled_", "residuals_", "fitted_", "x_caseweights_",
             "y_caseweights_", "caseweights_", "x_loc_", "y_loc_", "x_sca_", "y_sca_")
    queries = ("predict", "score")
    opt_attrs = ("probctx_", "probcty_", "hampelbx_", "hampelby_", "hampelrx_", "hampelry_", "scaling_", "X", "y")
    datakinds = [("normal", 5), ("outliers", 4), ("youtliers", 3), ("heavy", 2), ("big", 1), ("ints", 1), ("dup", 1), ("consty", 0.3), ("zero", 0.3)]
    big = ((40, 110), (4, 12))
    weight = 1.2

    def sample(self, r):
        fun = r.pick(["Hampel", "Hampel", "Huber", "Fair"])
        return {"fun": fun, "probp1": r.pick([0.95, 0.95, 0.9]), "probp2": r.pick([0.975, 0.975, 0.96]),
                "probp3": r.pick([0.999, 0.999, 0.99]),
                "centre": r.pick(["median", "mean", "l1median", "kstepLTS"]), "scale": r.pick(["mad", "mad", "std", "scaleTau2", "None"]),
                "start_cutoff_mode": r.pick(["specific", "other"]), "verbose": r.chance(0.5),
                "maxit": r.pick([100, 100, 100, 30, 5, 5, 2, 1]), "tol": r.pick([0.01, 0.001]), "copy": r.chance(0.85)}

    def construct(self, params):
        return dp.rm(**params)


class Sprm(Kind):
    name = "sprm"
    attrs = SPRM_ATTRS + ("x_caseweights_", "y_caseweights_", "caseweights_", "non_zero_scale_vars_")
    queries = ("predict", "transform", "weights", "score", "valscore", "valscore_w")
    opt_attrs = ("probctx_", "probcty_", "hampelbx_", "hampelby_", "hampelrx_", "hampelry_", "scaling_", "scalingt_", "X", "y")
    big = ((40, 90), (6, 14))
    weight = 2.0

    def sample(self, r):
        fun = r.pick(["Hampel", "Hampel", "Huber", "Fair"])
        init = r.pick(["pcapp", "pcapp", "xonly"])
        cut = r.pick(["specific", "ally"]) if init == "pcapp" else "ally"
        return {"n_components": r.int(1, 3), "eta": r.pick([0.0, 0.3, 0.5, 0.7, 0.95]), "fun": fun,
                "probp1": r.pick([0.95, 0.95, 0.9]), "probp2": r.pick([0.975, 0.975, 0.96]),
                "probp3": r.pick([0.999, 0.999, 0.99]),
                "centre": r.pick(["median", "median", "mean", "l1median", "kstepLTS"]),
                "scale": r.pick(["mad", "mad", "std", "scaleTau2", "None"]),
                "verbose": r.chance(0.4), "maxit": r.pick([100, 100, 100, 30, 6, 6, 2, 1]), "tol": r.pick([0.01, 0.001]),
                "start_cutoff_mode": cut, "start_X_init": init, "columns": sample_columns(r), "copy": r.chance(0.85)}

    def set_choices(self, r, cfg):
        ch = Kind.set_choices(self, r, cfg)
        for k in ("start_cutoff_mode", "start_X_init"):
            ch.pop(k, None)
        return ch

    sample_data = Snipls.sample_data
    sample_call = Snipls.sample_call

    def construct(self, params):
        return dp.sprm(**params)


# ---------------------------------------------------------------- ppdire

PP_ATTRS = ("x_weights_", "x_loadings_", "x_rotations_", "x_scores_", "x_ev_", "crit_values_", "Maxobjf_", "x_loc_", "x_sca_",
            "coef_", "intercept_", "coef_scaled_", "intercept_scaled_", "residuals_", "fitted_", "y_loadings_",
            "y_loc_", "y_sca_", "mixing_", "whitening_")


class Ppdire(Kind):
    name = "ppdire"
    attrs = PP_ATTRS
    opt_attrs = ("scaling", "scaling_object_", "optrange", "constraint", "X0", "y0")
    queries = ("predict", "transform", "score")
    n = (16, 24)
    p = (3, 4)
    xcs = ("array", "fortran", "frame", "readonly", "strided", "int")
    big = ((30, 60), (3, 5))
    weight = 2.0

    def sample(self, r):
        opt = r.wpick([("SLSQP", 5), ("grid", 4), ("IPOPT", 2.5), ("COBYLA", 0.7), ("trust-constr", 0.0)])
        idx = r.wpick([("@dicomo", 6), ("@capi", 2), ("@UserIndex", 2)])
        two = True
        if idx == "@dicomo":
            mode = r.pick(["var", "cov", "continuum", "std", "corr", "kurt", "skew", "M3", "cok", "cos"])
            pia = {"mode": mode}
            if r.chance(0.3):
                pia["center"] = "median"
            if mode in ("var", "cov") and r.chance(0.2):
                pia["est"] = "distance"
        elif idx == "@capi":
            pia = {"max_degree": r.wpick([(2, 3), (3, 1)])}
            if r.chance(0.4):
                pia["weights"] = [1, 1, 1, -1, -1, 0.5]
            if r.chance(0.3):
                pia["scaling"] = False
        else:
            pia = {"power": r.pick([1, 2, 3])}
        if opt == "grid":
            oo = {"ndir": r.pick([4, 6]), "maxiter": r.pick([1, 2, 3])}
        elif opt == "IPOPT":
            oo = {"max_iter": 50} if r.chance(0.7) else {"maxiter": 20, "disp": 0}
        elif opt == "COBYLA":
            oo = {"maxiter": 25}
        else:
            oo = {"maxiter": r.pick([12, 30])}
        ncomp = r.int(1, 2)
        if idx == "@capi" or pia.get("est") == "distance":
            ncomp = 1
            if "maxiter" in oo and opt != "grid":
                oo["maxiter"] = 6
        con = None
        if r.chance(0.2) and opt != "grid":
            con = {"type": "ineq", "fun": "@u_con"}
        cfg = {"projection_index": idx, "pi_arguments": pia, "n_components": ncomp,
                "trimming": r.pick([0, 0, 0, 0.1]), "alpha": r.pick([1, 0.5, 2]), "optimizer": opt,
                "optimizer_options": oo, "optimizer_constraints": con,
                "regopt": r.pick(["OLS", "OLS", "robust", "quantile"]), "center": r.pick(["mean", "mean", "median"]),
                "center_data": r.chance(0.9), "scale_data": r.chance(0.85), "whiten_data": r.chance(0.1),
                "square_pi": r.chance(0.3), "compression": r.chance(0.15), "copy": r.chance(0.85),
                "verbose": r.chance(0.3), "return_scaling_object": r.chance(0.8)}
        if opt == "SLSQP" and ncomp == 1 and r.chance(0.12):     # default settings, shared by all objects
            del cfg["optimizer_options"]
        if idx == "@UserIndex" and r.chance(0.3):
            del cfg["pi_arguments"]
        return cfg

    def set_choices(self, r, cfg):
        ch = {}
        new = {"optimizer_options": {"maxiter": 12}, "pi_arguments": {"power": 2}, **self.sample(r)}
        for k in r.shuffled(["n_components", "alpha", "trimming", "regopt", "square_pi", "center", "scale_data", "center_data"])[:r.int(1, 2)]:
            if new[k] != cfg.get(k):
                ch[k] = new[k]
        if r.chance(0.4):
            for k in ("optimizer", "optimizer_options"):
                ch[k] = new[k]
        if r.chance(0.3):
            for k in ("projection_index", "pi_arguments"):
                ch[k] = new[k]
        return ch

    def construct(self, params):
        return dp.ppdire(**params)

    def needs_y(self, cfg):
        if cfg["projection_index"] == "@capi":
            return True
        return cfg.get("pi_arguments", {}).get("mode") in ("cov", "continuum", "corr", "M3", "cok", "cos", "com")

    def sample_call(self, r, cfg, data):
        c = {"m": "fit", "y": r.pick(["pos", "kw"])}
        if cfg["regopt"] != "OLS":
            c["y"] = "kw"
        if not self.needs_y(cfg) and r.chance(0.5):
            c["y"] = "none"
        kw = {}
        if r.chance(0.12):
            kw["h"] = r.int(1, 2)
        if r.chance(0.12):
            kw["mixing"] = True
        if r.chance(0.1):
            kw["biascorr"] = True
        if cfg["regopt"] == "quantile" and c["y"] == "kw" and r.chance(0.5):
            kw["quantile"] = r.pick([0.4, 0.6])
        if cfg["regopt"] == "robust" and c["y"] == "kw" and r.chance(0.4):
            kw["fun"] = r.pick(["Huber", "Fair"])
        if cfg["regopt"] == "robust" and c["y"] == "kw" and r.chance(0.3):
            kw.update(probp1=0.9, probp2=0.95, probp3=0.99)
        if r.chance(0.06):
            kw["dmetric"] = r.pick(["euclidean", "cityblock"])
        c["kw"] = kw
        return c

    def call_args(self, call, X, y):
        kw = dict(call.get("kw") or {})
        if call.get("y") == "pos":
            return (X, y), kw
        if call.get("y") == "kw":
            kw["y"] = y
        return (X,), kw


class PpdireFlat(Ppdire):
    """more variables than cases, compression on"""
    name = "ppdire_flat"
    n = (8, 10)
    p = (12, 14)
    datakinds = [("normal", 3), ("heavy", 1)]
    big = None
    weight = 0.5

    def sample(self, r):
        c = Ppdire.sample(self, r)
        c.update(compression=True, optimizer="SLSQP", optimizer_options={"maxiter": 20}, projection_index="@dicomo",
                 pi_arguments={"mode": r.pick(["var", "cov"])}, regopt="OLS", center="mean", trimming=0)
        return c

    def set_choices(self, r, cfg):
        return {"n_components": r.int(1, 2)} if r.chance(0.5) else {}


# ---------------------------------------------------------------- indices

class Dicomo(Kind):
    name = "dicomo"
    attrs = ("moment_",)
    opt_attrs = ("x_moment_", "y_moment_", "co_moment_")
    queries = ()
    datakinds = [("normal", 4), ("outliers", 2), ("heavy", 2), ("nonlin", 1)]
    n = (12, 24)
    p = (2, 4)
    xcs = ("array", "readonly", "fortran")
    ycs = ("1d", "2d", "readonly")
    big = ((40, 110), (2, 3))
    weight = 1.2

    def sample(self, r):
        est = r.wpick([("arithmetic", 6), ("distance", 4)])
        modes = ["mom", "var", "std", "skew", "kurt", "com", "cov", "cok", "cos", "corr", "continuum", "M3"]
        if est == "distance":
            modes = ["mom", "var", "com", "cov", "corr", "continuum", "mdd", "skew", "cok", "cos"]
        return {"est": est, "mode": r.pick(modes), "center": r.pick(["mean", "mean", "median"])}

    def construct(self, params):
        return dp.dicomo(**params)

    def sample_call(self, r, cfg, data):
        kw = {}
        if r.chance(0.3):
            kw["trimming"] = r.pick([0.1, 0.2])
        if r.chance(0.3):
            kw["biascorr"] = True
        if r.chance(0.3):
            kw["order"] = r.pick([2, 3, 4])
        if r.chance(0.3):
            kw["option"] = r.pick([1, 2])
        if r.chance(0.3):
            kw["alpha"] = r.pick([0.5, 2])
        if r.chance(0.2):
            kw["standardized"] = r.chance(0.5)
        if r.chance(0.2):
            kw["calcmode"] = "naive"
        if r.chance(0.15):
            kw["Fisher"] = r.chance(0.5)
        if r.chance(0.15):
            kw["dmetric"] = r.pick(["cityblock", "sqeuclidean"])
        return {"m": "fit", "kw": kw, "y": r.pick(["kw", "kw", "kw", "none"])}

    def call_args(self, call, X, y):
        x = np.asarray(X)[:, 0]
        kw = dict(call.get("kw") or {})
        if call.get("y") != "none":
            kw["y"] = y
        return (x,), kw


class Capi(Kind):
    name = "capi"
    attrs = ("capi_index_", "moments_")
    queries = ()
    datakinds = Dicomo.datakinds + [("const0", 2), ("ints", 1)]
    n = (12, 24)
    p = (2, 4)
    xcs = Dicomo.xcs
    ycs = ("1d", "2d", "readonly")
    weight = 0.8

    def sample(self, r):
        pia = {}
        if r.chance(0.5):
            pia["center"] = r.pick(["mean", "median"])
        return {"max_degree": r.int(2, 4), "projection_index": "@dicomo", "pi_arguments": pia,
                **({} if r.chance(0.5) else {"weights": [round(r.u(), 3) for _ in range(6)]}), "scaling": r.chance(0.6), "centring": r.chance(0.2),
                "options": r.pick(["all", "all", [1], [1, 2]])}

    def set_choices(self, r, cfg):
        new = self.sample(r)
        k = r.pick(["max_degree", "weights", "scaling", "options", "pi_arguments"])
        return {k: new[k] if k in new else [round(r.u(), 3) for _ in range(6)]}

    def construct(self, params):
        return dp.capi(**params)

    def sample_call(self, r, cfg, data):
        kw = {}
        if r.chance(0.4):
            kw["trimming"] = 0.1
        if r.chance(0.3):
            kw["biascorr"] = True
        return {"m": "fit", "kw": kw}

    def call_args(self, call, X, y):
        x = np.asarray(X)[:, 0]
        return (x, y), dict(call.get("kw") or {})


# ---------------------------------------------------------------- sudire

class Sudire(Kind):
    name = "sudire"
    attrs = ("x_loadings_", "x_scores_", "proj_mat_", "x_loc_", "x_sca_", "whitening_")
    opt_attrs = ("scaling_", "scaling_object_", "ols_obj_", "X0", "y0")
    queries = ("predict", "transform", "score")
    datakinds = [("normal", 4), ("outliers", 2), ("nonlin", 3), ("heavy", 2), ("big", 1)]
    n = (22, 32)
    p = (3, 4)
    xcs = ("array", "fortran", "frame", "readonly", "strided")
    ycs = ("1d", "2d", "series", "readonly")
    big = ((50, 110), (3, 7))
    weight = 1.6

    def sample(self, r):
        meth = r.pick(["sir", "save", "dr", "phd", "iht"])
        return {"sudiremeth": meth, "n_components": r.int(1, 3), "trimming": r.pick([0, 0, 0.1]),
                "center_data": r.chance(0.85), "center": r.pick(["mean", "mean", "median"]),
                "scale_data": r.chance(0.8), "whiten_data": r.chance(0.1), "compression": r.chance(0.1), "dmetric": r.pick(["euclidean"] * 6 + ["cityblock"]),
                "n_slices": r.pick([2, 3, 4, 6]), "copy": r.chance(0.85), "verbose": r.chance(0.5), "fit_ols": r.chance(0.9),
                "response_type": "discrete" if meth in ("sir", "save", "dr") and r.chance(0.2) else "continuous",
                "return_scaling_object": r.chance(0.8)}

    def sample_call(self, r, cfg, data):
        kw = {}
        if r.chance(0.08):
            kw["dmetric"] = r.pick(["euclidean", "cityblock"])
        if r.chance(0.08):
            kw["biascorr"] = True
        return {"m": "fit", "kw": kw}

    def call_args(self, call, X, y):
        return (X, y), dict(call.get("kw") or {})

    def sample_data(self, r, like=None):
        d = Kind.sample_data(self, r, like)
        if self.name == "sudire" and r.chance(0.12):
            d["k"] = r.pick(["discy", "discy", "ints", "dup"])
        return d

    def construct(self, params):
        return dp.sudire(**params)


class SudireOpt(Sudire):
    """methods that go through the (simulated) interior point solver"""
    name = "sudire_opt"
    n = (18, 24)
    p = (3, 3)
    big = None
    weight = 1.2

    def sample(self, r):
        c = Sudire.sample(self, r)
        c["sudiremeth"] = r.pick(["dcov-sdr", "dcov-sdr", "mdd-sdr", "@u_sdr"])
        c["n_components"] = r.int(1, 2)
        c["optimizer_options"] = r.pick([{"max_iter": 30}, {"max_iter": 20, "tol": 1e-6}, {"maxiter": 15}])
        c["optimizer_start"] = None
        if r.chance(0.25):
            c["optimizer_start"] = {"__arr__": [round(r.u() - 0.5, 4) for _ in range(3 * c["n_components"])]}
        c["optimizer_arguments"] = None
        c["optimizer_constraints"] = None
        if r.chance(0.25):
            c["optimizer_constraints"] = [{"type": "ineq", "fun": "@u_con"}]
        return c


# ---------------------------------------------------------------- functions

class FuncEst:
    """A stateless library function seen as an object with a fit call."""

    def __init__(self, f, args):
        self.f, self.args = f, args
        self.result_ = None


class Func(Kind):
    name = "func"
    attrs = ("result_",)
    queries = ()
    datakinds = [("normal", 4), ("outliers", 3), ("heavy", 2), ("ints", 1), ("dup", 1), ("lowmad", 1), ("nan", 1)]
    n = (12, 24)
    p = (2, 5)
    xcs = ("array", "fortran", "readonly", "strided", "frame")
    ycs = ("1d", "readonly")
    big = ((40, 90), (3, 8))
    weight = 2.0
    FUNCS = ("versatile_scale", "wrap", "gen_ss_pp", "gen_ss_covmat", "robust_loss", "mad", "median", "mean", "std", "l1median",
             "kstepLTS", "scaleTau2", "SIR", "SAVE", "DR", "SIR", "SAVE", "DR", "PHD", "IHT", "mdd", "dcenter", "nandots", "pp_objective", "dcov_trim",
             "mdd_trim", "mweights")

    def sample(self, r):
        f = r.pick(self.FUNCS)
        a = {}
        if f == "versatile_scale":
            a = {"center": r.pick(["mean", "median", "l1median"]), "scale": r.pick(["std", "mad", "scaleTau2"]), "trimming": r.pick([0, 0.1])}
        elif f == "gen_ss_pp":
            a = {"center": r.pick(["mean", "l1median", "kstepLTS"]), "fun": r.pick(["ss", "quad", "ball", "shell", "winsor", "linear_redescending"])}
        elif f == "gen_ss_covmat":
            a = {"center": r.pick(["mean", "l1median", "kstepLTS"])}
        elif f in ("mean", "std"):
            a = {"trimming": r.pick([0, 0.1, 0.2])}
        elif f in ("SIR", "SAVE", "DR"):
            a = {"n_slices": r.int(2, 4), "d": r.int(1, 2), "center_data": r.chance(0.7), "scale_data": r.chance(0.7)}
            if r.chance(0.4):
                a.update(ytype="discrete", n_slices=3)
        elif f in ("PHD", "IHT"):
            a = {"d": r.int(1, 2), "center_data": r.chance(0.7), "scale_data": r.chance(0.7)}
        elif f in ("mdd", "dcenter"):
            a = {"trimming": r.pick([0, 0.1]), "biascorr": r.chance(0.4), "center": r.pick(["mean", "median"])}
        elif f == "robust_loss":
            a = {"fun": r.pick(["Hampel", "Huber", "Fair"])}
        elif f == "mweights":
            a = {"fun": r.pick(["Hampel", "Huber", "Fair"])}
        elif f == "pp_objective":
            a = {"mode": r.pick(["var", "cov", "kurt", "continuum"])}
        return {"f": f, "args": a}

    def sample_data(self, r, like=None):
        d = Kind.sample_data(self, r, like)
        if r.chance(0.25):
            d["k"] = "discy"
        return d

    def set_choices(self, r, cfg):
        return {}

    def construct(self, params):
        return FuncEst(params["f"], params["args"])

    def do_fit(self, est, call, X, y):
        pu = importlib.import_module("direpack.preprocessing._preproc_utilities")
        su = importlib.import_module("direpack.sudire._sudire_utils")
        f, a = est.f, dict(est.args)
        if f in ("SIR", "SAVE", "DR"):
            n_slices, d = a.pop("n_slices"), a.pop("d")
            est.result_ = getattr(su, f)(X, y, n_slices, d, **a)
        elif f in ("PHD", "IHT"):
            est.result_ = getattr(su, f)(X, y, a.pop("d"), **a)
        elif f in ("robust_loss", "mweights"):
            ms = importlib.import_module("direpack.sprm._m_support_functions")
            fun = getattr(ms, a.get("fun", "Hampel"))
            if f == "mweights":
                est.result_ = fun(np.abs(np.array(X, dtype=float)[:, 0]), 1.1, 1.9, 3.0)   # (internal, works in place by design)
            else:
                est.result_ = dp.robust_loss(y, np.asarray(X, dtype=float)[:, 0], fun=fun)
        elif f in ("mdd", "dcenter"):
            du = importlib.import_module("direpack.dicomo._dicomo_utils")
            Z = X if isinstance(X, np.ndarray) else np.asarray(X)
            est.result_ = du.difference_divergence(Z, np.asarray(y), **a) if f == "mdd" else du.distance_matrix_centered(Z, **a)
        elif f == "nandots":
            uu = importlib.import_module("direpack.utils.utils")
            Z = X if isinstance(X, np.ndarray) else np.asarray(X)
            est.result_ = [uu.nandot(Z.T, np.asarray(y)), uu.nanmatdot(Z.T, Z)]
        elif f == "pp_objective":
            pp = importlib.import_module("direpack.ppdire._ppdire_utils")
            Z = X if isinstance(X, np.ndarray) else np.asarray(X)
            w = np.linspace(-1, 1, Z.shape[1])
            est.result_ = pp.pp_objective(w, dp.dicomo(mode=a["mode"]), Z, {"y": np.asarray(y), "alpha": 1, "trimming": 0})
        elif f in ("dcov_trim", "mdd_trim"):
            Z = X if isinstance(X, np.ndarray) else np.asarray(X)
            yy = np.asarray(y).reshape(-1, 1)
            est.result_ = getattr(su, f)(np.linspace(-1, 1, Z.shape[1]), Z, yy, 1, np.eye(Z.shape[1]), False, 0, "mean", "euclidean", False)
        elif f in ("versatile_scale", "wrap", "gen_ss_pp", "gen_ss_covmat"):
            fn = getattr(dp, f)
            if f == "wrap":
                Z = np.asarray(X, dtype=float)
                est.result_ = fn(X, np.median(Z, axis=0), pu.mad(Z) + 0.1)
            else:
                est.result_ = fn(X, **a)
        else:
            est.result_ = getattr(pu, f)(np.asarray(X) if call.get("nd", True) else X, **a)
        return est.result_


# ---------------------------------------------------------------- plots

COLORS = ["white", "#FFEEAA", "#AA0000", "#1B75BC", "#4D4D4F", "orange", "maroon", "#555555"]
_YP = ("yyp", "yyp_new", "yyp_new+val", "yyp+names", "yyp_new+names")
_PP = ("proj", "proj_new", "proj_new+val", "proj+names", "proj_new+names")
PLOTS = {"sprm": _YP + _PP + ("coeffs", "coeffs+trunc", "coeffs+cols", "coeffs+trunc+cols", "coeffs+ent", "coeffs+ent+trunc", "weights", "weights_new",
                              "weights_new+val", "weights+x", "weights+y", "weights+names", "weights_new+names"),
         "ppdire": _YP + _PP, "sudire": _YP + _PP}


def plot_objects(est, X):
    """the option objects a caller passes to the plot functions"""
    m = len(est.x_scores_)
    return {"colors": list(COLORS), "markers": ["o", "d", "v"], "label": ["a"], "names": ["c%d" % i for i in range(m)],
            "namesv": ["n%d" % i for i in range(len(X))] if X is not None else [], "columns": np.array(names(9)), "components": None}


def do_plot(kind, est, what, X, y, objs=None):
    """draw one plot; returns what was drawn"""
    import matplotlib.pyplot as plt
    cls = {"sprm": dp.sprm_plot, "ppdire": dp.ppdire_plot, "sudire": dp.sudire_plot}[kind]
    objs = plot_objects(est, X) if objs is None else objs
    base, *opts = what.split("+")
    label = objs["label"] if kind == "sprm" else "a"
    try:
        pl = cls(est, objs["colors"], objs["markers"])
        kw = {}
        if base.endswith("_new"):
            kw["Xn"] = X
        if "val" in opts:
            kw["onlyval"] = True
        if "names" in opts:
            kw["names"] = objs["names"]
            if base.endswith("_new"):
                kw["namesv"] = objs["namesv"]
        for m in "xy":
            if m in opts:
                kw["mode"] = m
        if base.startswith("yyp"):
            if "Xn" in kw:
                kw["ytruev"] = y
            pl.plot_yyp(label=label, title="t", **kw)
        elif base == "coeffs":
            if "trunc" in opts:
                kw["truncation"] = 0.6
            if "cols" in opts:
                kw["columns"] = objs["columns"]
            if "ent" in opts:
                kw["entity"] = "coef_scaled_"
            pl.plot_coeffs(title="t", **kw)
        elif base.startswith("proj"):
            if objs["components"] is None:
                objs["components"] = [0, 1] if est.x_scores_.shape[1] > 1 else [0, 0]
            pl.plot_projections(label=label, components=objs["components"], **kw)
        else:
            pl.plot_caseweights(label=label, **kw)
        out = []
        for f in plt.get_fignums():
            for ax in plt.figure(f).axes:
                for c in ax.collections:
                    out.append(np.ma.filled(np.ma.array(c.get_offsets(), dtype=float), np.nan))
                for l in ax.lines:
                    out.append(np.array(l.get_xydata(), dtype=float))
                for q in ax.patches:
                    out.append(float(q.get_height()) if hasattr(q, "get_height") else 0.0)
                out.append([t.get_text() for t in ax.texts])
        return out
    finally:
        plt.close("all")


KINDS = {k.name: k for k in (Func(), Scaler(), Wrap(), Gss(), Snipls(), Rm(), Sprm(), Ppdire(), PpdireFlat(), Dicomo(), Capi(), Sudire(), SudireOpt())}
MODEL_KINDS = [k for k in KINDS if KINDS[k].queries]


def pick_kind(r, only=None):
    return r.wpick([(k.name, k.weight) for k in KINDS.values() if only is None or k.name in only])


# --------------------------------------------------------------------------
# observation

def probe_spec(r_seed, p, n=6):
    return {"s": r_seed, "n": n, "p": p, "k": "normal", "xc": "array", "yc": "1d"}


def call_outcome(fn):
    """(status, value) of a call into the code under test."""
    try:
        return ("ok", norm(fn()))
    except Exception as e:
        return ("exc", type(e).__name__)


def observe(kind, est, pspec, fit_return=None):
    """Everything a user can see of a fitted object."""
    K = KINDS[kind]
    out = {"attrs": K.observe_attrs(est), "q": {}}
    if fit_return is not None:
        out["ret"] = norm(fit_return) if not hasattr(fit_return, "fit") else "<self>"
    if K.queries:
        for q in K.queries:
            X, y = make(pspec)
            out["q"][q] = call_outcome(lambda: K.do_query(est, q, X, y))
    return out


# --------------------------------------------------------------------------
# comparison

def close(a, b, rtol=1e-7):
    return diff(a, b, rtol) is None


def diff(a, b, rtol=1e-7, path=""):
    """None when equal, else a short description of the first difference."""
    if a is ABSENT or b is ABSENT or (isinstance(a, str) and a == ABSENT) or (isinstance(b, str) and b == ABSENT):
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return "%s: %s vs %s" % (path, _short(a), _short(b))
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.size == 0:
            return None
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return "%s: nan pattern differs" % path
        fa, fb = a[~na], b[~nb]
        ia, ib = np.isinf(fa), np.isinf(fb)
        if not np.array_equal(fa[ia], fb[ia]) or not np.array_equal(ia, ib):
            return "%s: inf pattern differs" % path
        fa, fb = fa[~ia], fb[~ib]
        if fa.size:
            s = max(float(np.max(np.abs(fa))), float(np.max(np.abs(fb))))
            d = float(np.max(np.abs(fa - fb)))
            if d > rtol * s + 1e-13:
                return "%s: max abs difference %.3g (scale %.3g)" % (path, d, s)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s.%s: only on one side" % (path, k)
            d = diff(a[k], b[k], rtol, path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %s vs %s" % (path, _short(a), _short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if np.isnan(a) and np.isnan(b):
                return None
            if a == b or abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-13:
                return None
        return "%s: %s vs %s" % (path, _short(a), _short(b))
    return None if a == b else "%s: %s vs %s" % (path, _short(a), _short(b))


def lost(after, before):
    """documented results that were there and are gone (diff tolerates absent optional results)"""
    for k, v in before.items():
        if not (isinstance(v, str) and v in (ABSENT, "<missing>")) and isinstance(after.get(k, ABSENT), str) and after.get(k, ABSENT) in (ABSENT, "<missing>"):
            return ".%s: no longer available" % k
    return None


def _short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + "..."
