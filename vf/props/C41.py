import numpy as np
from vf import gen, ref
from vf.main import Skip
from vf.props.C14 import freeze, identical

RULE = ("Problems of all classes with user supplied variogram and drift functions, regressors and classifiers that record what they are called "
        "with: parameters as given, distances that occur between the points of the problem, coordinates of its points in the adjusted frame, "
        "features as given. The functions return plain arrays or, for the same numbers, read-only arrays, integers, single precision, their own "
        "argument, a buffer they reuse, arrays they remember, masked arrays, subclasses; results have to be the same and remembered arrays intact.")
CASES = {"quick": 1500, "thorough": 20000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "statistics", "update", "window", "backend:loop", "backend:vectorized",
            "style:points", "style:grid", "style:masked", "wrapper", "regression", "classification", "fails", "objects"] + \
           ["v:" + k for k in ("readonly", "integers", "single", "argument", "buffer", "remembered", "masked", "subclass", "object-call", "fortran")] + \
           ["d:" + k for k in ("readonly", "integers", "single", "argument", "buffer", "remembered", "masked", "subclass", "object-call", "fortran")]
KINDS = ("readonly", "integers", "single", "argument", "buffer", "remembered", "masked", "subclass", "object-call", "fortran")


class Sub(np.ndarray):
    """a subclass of ndarray that does nothing"""


class Own(Exception):
    """raised by a user function"""


class Monitor:
    """a user function that records its arguments and returns its values in some way"""

    def __init__(self, ctx, base, kind):
        self.ctx, self.base, self.kind = ctx, base, kind
        self.calls, self.buffers, self.memory, self.fail_at = [], {}, {}, None

    def clear(self):
        self.calls = []

    def __call__(self, *args):
        self.calls.append(tuple(np.array(a, copy=True) if not isinstance(a, list) else list(a) for a in args))
        self.ctx.events += 1
        if self.fail_at is not None:
            self.fail_at -= 1
            if self.fail_at < 0:
                self.fail_at = None
                self.raised = Own("from a user function")
                raise self.raised
        return self.give(self.base(*args), args)

    def give(self, v, args):
        k = self.kind
        if k in ("plain", "argument", "object-call"):
            return v if k != "plain" else np.array(v, float)
        if np.ndim(v) == 0:
            return {"integers": lambda: int(v), "single": lambda: np.float32(v)}.get(k, lambda: v)()
        v = np.array(v, float)
        if k == "readonly":
            v.flags.writeable = False
        elif k == "integers":
            t = self.ctx_type if np.abs(v).max(initial=0) <= np.iinfo(self.ctx_type).max else np.int64
            v = v.astype(t) if np.abs(v).max(initial=0) < 1e15 else v
        elif k == "single":
            v = v.astype(np.float32) if np.array_equal(v.astype(np.float32).astype(float), v) else v
        elif k == "buffer":
            b = self.buffers.setdefault(v.shape, np.empty(v.shape))
            b[...] = v
            return b
        elif k == "remembered":
            key = tuple(repr(a) if isinstance(a, list) else a.tobytes() + str(a.shape).encode() for a in map(lambda a: a if isinstance(a, list) else np.asarray(a), args))
            if key not in self.memory:
                self.memory[key] = (v, freeze(v))
            return self.memory[key][0]
        elif k == "masked":
            v = np.ma.array(v)
        elif k == "subclass":
            v = v.view(Sub)
        elif k == "fortran":
            v = np.asfortranarray(v)
        return v

    ctx_type = np.int64

    def intact(self, what):
        for v, f in self.memory.values():
            self.ctx.require(freeze(v) == f, f"{what}: an array returned by a user function was modified", key="modified")


def within(ctx, what, got, allowed, tol, key):
    """every number is one of the allowed ones"""
    got, allowed = np.unique(got), np.unique(allowed)
    i = np.clip(np.searchsorted(allowed, got), 1, max(len(allowed) - 1, 1))
    e = np.minimum(np.abs(allowed[np.minimum(i, len(allowed) - 1)] - got), np.abs(allowed[i - 1] - got))
    ctx.require(bool((e <= tol).all()), what, key=key, got=got[e > tol][:5], error=e.max(), tol=tol)


def variogram_function(ctx, s):
    """(function, parameters, kinds it can be given in)"""
    t = ctx.pick("identity", "integers", "custom")
    if t == "identity":
        return (lambda p, d: d), [1.0], [k for k in KINDS if k not in ("integers", "single")]
    if t == "integers":
        q = 2.0 ** np.floor(np.log2(1e6 / s.ext))
        return (lambda p, d: np.rint(d * p[0])), [float(q)], [k for k in KINDS if k != "argument"]
    v = gen.vario(ctx, s.ext, float(np.var(s.z)), custom=1.0)
    if v.fn is None:
        return (lambda p, d: p[0] * d), [2.0], [k for k in KINDS if k not in ("integers", "single", "argument")]
    return v.fn, [float(a) for a in v.par], [k for k in KINDS if k not in ("integers", "single", "argument")]


def drift_function(ctx, s, k):
    c, La = s.centre, s.ext
    t = ctx.pick("coordinate", "integers", "smooth")
    if t == "coordinate":
        return (lambda *x: x[k]), [q for q in KINDS if q not in ("integers", "single")]
    if t == "integers":
        w = 2.0 ** np.floor(np.log2(1e4 / La))
        return (lambda *x: np.rint((x[k] - c[k]) * w)), [q for q in KINDS if q != "argument"]
    return (lambda *x: ((x[k] - c[k]) / La) ** 2), [q for q in KINDS if q not in ("integers", "single", "argument")]


def kriging(ctx):
    s = gen.scenario(ctx, n=(4, 30), drift=False, custom=0.0, pinv=0.05)
    n, d = len(s.z), s.dim
    fn, par, kinds = variogram_function(ctx, s)
    uk = s.cls.startswith("uk")
    drifts = [drift_function(ctx, s, k) for k in ctx.rng.permutation(d)[:ctx.i(1, 2)]] if uk and ctx.chance(0.8) else []
    if not (drifts or not uk):
        uk = False
    Xa = s.adj(s.X).astype(float)
    dist = ref.gdist if s.geo else ref.edist
    extra = ctx.pick([], [], [ctx.i(-5, 5)], ["label", True], [(1, 2.5), None], [np.float32(0.1), np.int64(2**60 + 1)])
    par = list(par) + extra         # parameters are the business of the function alone
    if extra:
        ctx.cover("objects")
        f0 = fn
        fn = lambda p, h: f0(p[:len(p) - len(extra)], h)        # noqa: E731
    kw = s.kwargs(vario=False)
    kw.update(variogram_model="custom", variogram_parameters=list(par))
    stats = s.cls == "ok" and ctx.chance(0.3)
    if stats:
        kw["enable_statistics"] = True
        ctx.cover("statistics")
    vk = ctx.pick(*kinds)
    ctx.cover("v:" + vk)

    def make(plain):
        v = Monitor(ctx, fn, "plain" if plain else vk)
        v.ctx_type = np.int64 if vk != "integers" else ctx.pick(np.int32, np.int64)
        f = []
        for (g, _), k in zip(drifts, dk):
            m = Monitor(ctx, g, "plain" if plain else k)
            m.ctx_type = ctx.pick(np.int16, np.int32, np.int64)
            f.append(m)
        k = dict(kw)
        k["variogram_parameters"] = list(par)
        user = (lambda m: m) if vk == "object-call" else (lambda m: (lambda *a: m(*a)))
        k["variogram_function"] = v if vk == "object-call" else (lambda p, h: v(p, h))
        if drifts:
            k["drift_terms"], k["functional_drift"] = ["functional"], [user(m) for m in f]
        try:
            o = gen.classes()[s.cls](*s.coords(), s.z, **k)
        except (ValueError, np.linalg.LinAlgError):
            raise Skip("singular")
        return o, v, f, k
    dk = []
    for _, ks in drifts:
        dk.append(ctx.pick(*ks))
        ctx.cover("d:" + dk[-1])
    ctx.note(vario=(par, vk), drift=dk)
    tol = 2e-6 * (1 + 0) if s.geo else 1e-10 * s.cmag() + 1e-9 * s.ext
    DD = dist(Xa, Xa).astype(float).ravel()

    def observed(what, o, v, f, Qa):
        P = par
        lags = np.asarray(o.lags, float)
        D = np.concatenate([DD, lags, [0.0]] + ([dist(Qa, Xa).astype(float).ravel()] if Qa is not None else []))
        for p, h in v.calls:
            ctx.require(isinstance(p, list) and p == P and list(map(type, p)) == list(map(type, P)), f"{what}: the variogram function was called with parameters {p!r} instead of {P!r}",
                        key="parameters")
            ctx.require(h.dtype == np.float64, f"{what}: the variogram function was called with distances of type {h.dtype}", key="distance type")
        if v.calls:
            H = np.concatenate([h.ravel() for _, h in v.calls])
            ctx.require(bool((H >= 0).all()), f"{what}: the variogram function was called with negative distances or NaN", key="distances")
            within(ctx, f"{what}: the variogram function was called with distances that do not occur", H, D, tol, "distances")
        A = Xa if Qa is None else np.concatenate([Xa, Qa])
        for m in f:
            for c in m.calls:
                ctx.require(len(c) == d, f"{what}: a drift function was called with {len(c)} arguments", key="drift arguments")
                ctx.require(all(np.shape(t) == np.shape(c[0]) and t.dtype == np.float64 for t in c),
                            f"{what}: a drift function was called with {[(np.shape(t), t.dtype) for t in c]}", key="drift arguments")
                B = np.stack([t.ravel() for t in c], 1)
                e = np.abs(B[:, None] - A[None]).max(-1).min(1)
                ctx.require(bool((e <= tol).all()), f"{what}: a drift function was called with coordinates that do not occur", key="coordinates",
                            got=B[e > tol][:3], error=e.max(), tol=tol)
        v.intact(what)
        for m in f:
            m.intact(what)

    base, bv, bf, _ = make(True)
    try:
        o, v, f, k = make(False)
    except Skip:
        ctx.fail(f"construction fails with functions returning {vk}, {dk}", key="construction")
    lab = f"{s.cls} with functions returning {vk}, {dk}"
    ctx.require(o.variogram_function is k["variogram_function"], "variogram_function is another function", key="function")

    def state(t):
        r = [t.lags, t.semivariance]
        if stats:
            r += [t.Q1, t.Q2, t.cR, t.delta, t.sigma, t.epsilon]
        return [np.asarray(x, float) for x in r]
    observed(lab + ", construction", o, v, f, None)
    for a, b in zip(state(o), state(base)):
        ctx.require(identical(a, b), lab + ": other state than with plain arrays", key="state", got=a, want=b)
    for rnd in range(ctx.pick(1, 1, 2)):
        q = gen.request(ctx, s, large=False)
        kx = {}
        window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.3)
        if window:
            kx["n_closest_points"] = ctx.i(2, n)
            ctx.cover("window")
        b = "loop" if window else ctx.pick("vectorized", "loop")
        want = gen.execute(ctx, base, q, b, **kx)
        v.clear()
        [m.clear() for m in f]
        if ctx.chance(0.15):
            # an exception of the function itself comes out, and nothing remains of it
            m = ctx.pick(v, *f)
            m.fail_at = ctx.i(0, 6)
            try:
                gen_execute(o, q, b, kx)
            except Own as e:
                ctx.require(e is m.raised, "another exception came out", key="exception")
                ctx.cover("fails")
            except Exception as e:
                ctx.require(m.fail_at is not None, f"{lab}: an exception of a user function came out as {e!r}", key="exception")
                raise
            else:
                ctx.require(m.fail_at is not None, f"{lab}: an exception of a user function was swallowed", key="exception")
            m.fail_at = None
        got = gen.execute(ctx, o, q, b, **kx)
        what = f"{lab}, {b} {q.style} {kx}"
        for g, w in zip(got, want):
            ctx.require(np.asarray(g).dtype == np.float64, f"{what}: results of type {np.asarray(g).dtype}", key="dtype")
            ctx.require(identical(g, w), what + ": other results than with plain arrays", key="results", got=g, want=w)
        observed(what, o, v, f, s.adj(q.Q).astype(float))
        ctx.require(bool(v.calls) and all(m.calls for m in f), what + ": a function was not called", key="calls")
        if rnd == 0 and ctx.chance(0.3):
            ctx.cover("update")
            p2 = [p * 2.0 for p in par[:len(par) - len(extra)]] + extra
            for t, m in ((base, bv), (o, v)):
                t.update_variogram_model("custom", variogram_parameters=list(p2), variogram_function=(
                    m if vk == "object-call" else (lambda p, h, m=m: m(p, h))),
                    **{a: c for a, c in kw.items() if a.startswith("aniso")})
            par[:] = p2


def gen_execute(o, q, b, kx):
    return o.execute(*q.args, backend=b, **{**q.kw, **kx})


def wrapper(ctx):
    """scikit-learn models: called with the given arrays, and what they return belongs to them"""
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
    three = ctx.chance(0.4)
    d, n = 3 if three else 2, ctx.i(8, 25)
    while True:
        X = ctx.rng.uniform(0, 10, size=(n, d))
        if len(np.unique(X, axis=0)) == n:
            break
    P, Q, R = ctx.rng.normal(size=(n, 2)), ctx.rng.uniform(0, 10, size=(5, d)), ctx.rng.normal(size=(5, 2))
    y = ctx.rng.normal(size=n)
    classes = ctx.i(2, 4)
    c = np.arange(n) % classes
    ctx.rng.shuffle(c)
    keep = ctx.pick("readonly", "remembered", "single", "fortran", "plain")
    log = []
    mem = {}

    def give(name, a, v):
        log.append((name, np.array(a, copy=True)))
        ctx.events += 1
        if keep == "readonly":
            v.flags.writeable = False
        elif keep == "single":
            v = v.astype(np.float32)
        elif keep == "fortran":
            v = np.asfortranarray(v)
        elif keep == "remembered":
            k = (name, np.asarray(a).tobytes())
            if k not in mem:
                mem[k] = (v, freeze(v))
            return mem[k][0]
        return v

    class Reg(RegressorMixin, BaseEstimator):
        def fit(self, p, t):
            log.append(("fit", np.array(p), np.array(t)))
            return self

        def predict(self, p):
            return give("predict", p, np.round(p @ np.array([1.5, -2.0]) * 64) / 64)

    class Cls(ClassifierMixin, BaseEstimator):
        def fit(self, p, t):
            log.append(("fit", np.array(p), np.array(t)))
            self.classes_ = np.unique(t)
            return self

        def predict_proba(self, p):
            w = 1.0 + np.abs(np.round(np.stack([p[:, 0] * (k + 1) + p[:, 1] for k in range(classes)], 1) * 8))
            w = np.exp2(np.clip(w, 0, 4).astype(int))
            return give("proba", p, w / w.sum(1, keepdims=True))

        def predict(self, p):
            return self.classes_[np.argmax(self.predict_proba(p), 1)]
    part = ctx.pick("regression", "classification", "wrapper")
    ctx.cover(part)
    method = ctx.pick("ordinary", "universal") + ("3d" if three else "")
    kw = dict(method=method, variogram_model="linear", variogram_parameters=[1.0, 0.1], n_closest_points=ctx.i(3, 8))
    if method.startswith("universal"):
        kw["drift_terms"] = ["regional_linear"]
    ctx.note(part=part, keep=keep, kw=kw, X=X)
    args = [P, X, y, c, Q, R]
    before = [freeze(a) for a in args]
    want_X = X

    def called(name, p):
        return [e for e in log if e[0] == name and np.shape(e[1]) == np.shape(p) and np.array_equal(e[1], p)]
    if part == "wrapper":
        v = Monitor(ctx, lambda p, h: p[0] * h, ctx.pick("readonly", "remembered", "buffer", "plain", "masked", "subclass", "fortran"))
        plain = Monitor(ctx, lambda p, h: p[0] * h, "plain")
        kw.update(variogram_model="custom", variogram_parameters=[2.0])
        out = []
        for m in (plain, v):
            e = Krige(**{**kw, "variogram_function": lambda p, h, m=m: m(p, h)})
            ctx.call("fit", e.fit, X, y)
            out.append(ctx.call("predict", e.predict, Q))
            ctx.require(all(p == [2.0] for p, _ in m.calls) and m.calls, "Krige: the variogram function got other parameters", key="parameters")
            m.intact("Krige")
        ctx.require(identical(*out), "Krige: other results than with plain arrays", key="results", got=out[1], want=out[0])
    elif part == "regression":
        model = Reg()
        e = RegressionKriging(model, **kw)
        ctx.call("fit", e.fit, P, X, y)
        fits = [t for t in log if t[0] == "fit"]
        ctx.require(len(fits) == 1 and np.array_equal(fits[0][1], P) and np.array_equal(fits[0][2], y),
                    f"RegressionKriging.fit fitted the regression model {len(fits)} times or with other data", key="fit")
        ctx.require(e.regression_model is model, "RegressionKriging uses another regression model", key="model")
        for _ in range(2):
            log.clear()
            got = np.asarray(ctx.call("predict", e.predict, R, Q))
            ctx.require(len(called("predict", R)) >= 1 and all(t[0] == "predict" for t in log), "the regression model was not asked for the given points",
                        key="predict")
            r = np.round(R @ np.array([1.5, -2.0]) * 64) / 64
            ctx.close("regression kriging", got, r + np.asarray(e.krige_residual(Q)), 1e-6 if keep == "single" else 1e-10, key="results")
        k = Krige(**kw)
        k.fit(X, y - np.round(P @ np.array([1.5, -2.0]) * 64) / 64)
        ctx.close("kriged residuals", np.asarray(e.krige_residual(Q)), k.predict(Q), 1e-5 if keep == "single" else 1e-9, key="residuals")
    else:
        model = Cls()
        e = ClassificationKriging(model, **kw)
        ctx.call("fit", e.fit, P, X, c)
        fits = [t for t in log if t[0] == "fit"]
        ctx.require(len(fits) == 1 and np.array_equal(fits[0][1], P) and np.array_equal(np.ravel(fits[0][2]), c),
                    f"ClassificationKriging.fit fitted the classification model {len(fits)} times or with other data", key="fit")
        first = None
        for _ in range(2):
            log.clear()
            got = np.asarray(ctx.call("predict", e.predict, R, Q))
            ctx.require(len(called("proba", R)) >= 1, "the classification model was not asked for the given points", key="predict")
            ctx.require(first is None or np.array_equal(got, first), "repeated prediction differs", key="results")
            first = got
    for v, f in mem.values():
        ctx.require(freeze(v) == f, f"{part}: an array returned by the model was modified", key="modified")
    ctx.require([freeze(a) for a in args] == before and want_X is X, f"{part} modified its arguments", key="modified")


def case(ctx):
    ctx.pick(kriging, kriging, kriging, kriging, wrapper)(ctx)
