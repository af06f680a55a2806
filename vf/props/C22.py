import numpy as np
from vf import gen
from vf.main import Skip, Violation
from vf.props.C21 import direct_kwargs, wrapper_params

RULE = ("Random regression kriging problems: deterministic regression models of eight kinds (one keeps the arrays it returns, writable or not) on 1-4 predictors, the four "
        "kriging methods with every option, explicit and automatic variograms, histories of fit/refit/predict/score "
        "with several instances (default and custom models) interleaved; predictions are compared with a separately "
        "fitted clone of the regression model plus a direct call of the kriging class on its training residuals; "
        "training targets have to be reproduced; kriged residuals are requested with and without predictors.")
CASES = {"quick": 900, "thorough": 12000}
REQUIRED = ["targets:i", "method:ordinary", "method:universal", "method:ordinary3d", "method:universal3d", "default-model",
            "model:LinearRegression", "model:SVR", "model:DecisionTreeRegressor", "model:KNeighborsRegressor",
            "model:RandomForestRegressor", "model:StoredRegressor", "model:Ridge", "auto-variogram", "at-training-points", "score", "score-weighted",
            "residual", "refit", "interleaved", "independent-defaults", "not-exact", "backend:C"]


def _stored():
    """least squares; the predictions are arrays the model keeps, that must not be written to"""
    from sklearn.base import BaseEstimator, RegressorMixin

    class StoredRegressor(RegressorMixin, BaseEstimator):
        def __init__(self, frozen=False, kind="float64"):
            self.frozen, self.kind = frozen, kind

        def fit(self, X, y):
            X = np.asarray(X, float)
            y = np.asarray(y, float)
            if self.frozen:
                y = y.copy()
            self.w_ = np.linalg.lstsq(np.c_[X, np.ones(len(X))], y, rcond=None)[0]
            self.out_ = {}
            return self

        def predict(self, X):
            k = (np.asarray(X, float).tobytes(), len(X))
            if k not in self.out_:
                v = np.c_[np.asarray(X, float), np.ones(len(X))] @ self.w_
                v = (np.round(v) if self.kind[0] == "i" else v).astype(self.kind)
                v.setflags(write=not self.frozen)
                self.out_[k] = v, v.copy()
            v, w = self.out_[k]
            if not np.array_equal(v, w):
                raise Violation("the array the regression model returned was modified", key="model-output")
            return v
    StoredRegressor.__qualname__ = "StoredRegressor"
    return StoredRegressor


def models():
    global _S
    if "_S" not in globals():
        _S = _stored()
    from sklearn.ensemble import RandomForestRegressor
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.neighbors import KNeighborsRegressor
    from sklearn.pipeline import make_pipeline
    from sklearn.svm import SVR
    from sklearn.tree import DecisionTreeRegressor
    return [lambda: LinearRegression(), lambda: Ridge(2.0), lambda: SVR(C=2.0), lambda: DecisionTreeRegressor(max_depth=3, random_state=1),
            lambda: KNeighborsRegressor(3), lambda: RandomForestRegressor(5, random_state=3, max_depth=4),
            lambda: LinearRegression(fit_intercept=False), lambda: _S(), lambda: _S(True),
            lambda: _S(kind="int64"), lambda: _S(True, "float32")]


def predictors(ctx, n, d):
    return ctx.rng.normal(size=(n, d)) * ctx.pick(1.0, 5.0)


class Oracle:
    """fits on its own: regression model, then the kriging class on the residuals"""

    def __init__(self, s, params, model, P, X, y):
        self.s, self.params = s, params
        self.model = model.fit(P, y)
        self.res = y - self.model.predict(P)
        kw = direct_kwargs(s, params)
        self.k = gen.classes()[s.cls](*X.T.copy(), self.res, **kw)

    def residual(self, Q, backend="loop"):
        kw = dict(backend=backend)
        if self.s.cls in ("ok", "ok3"):
            kw["n_closest_points"] = self.params.get("n_closest_points", 10)
        return self.k.execute("points", *Q.T.copy(), **kw)[0]

    def predict(self, P, Q, backend="loop"):
        return self.residual(Q, backend) + self.model.predict(P)


def case(ctx):
    from pykrige.rk import RegressionKriging
    from sklearn.base import clone
    from sklearn.metrics import r2_score
    from sklearn.svm import SVR
    s = gen.scenario(ctx, n=(6, 30), pinv=0.08, kinds=("regional_linear", "point_log", "external_Z", "functional"))
    n = len(s.z)
    d = ctx.i(1, 4)
    P = predictors(ctx, n, d)
    y = s.z + P @ ctx.rng.normal(size=d) * np.std(s.z) + ctx.u(-3, 3)
    if ctx.chance(0.1):
        y = y * 10.0 ** ctx.u(-13, -6)
        ctx.cover("targets:tiny")
    elif ctx.chance(0.2):
        y = np.round(y * ctx.lu(3, 100) / np.abs(y).max())
        y = y.astype(ctx.pick(float, int, "int32"))
        ctx.cover("targets:" + y.dtype.kind)
    sc = max(float(np.abs(y).max()), 1e-300)
    auto = ctx.chance(0.25)
    params = wrapper_params(ctx, s, auto)
    if not auto:
        s.system()
    ctx.cover("method:" + params["method"])
    mk = ctx.pick(*models()) if ctx.chance(0.85) else None
    ctx.note(params={k: v for k, v in params.items() if k not in ("functional_drift", "variogram_function")}, P=P, y=y)

    def new():
        if mk is None:
            return RegressionKriging(**params), SVR()
        m = mk()
        return RegressionKriging(regression_model=m, **params), clone(m)

    rk, om = new()
    ctx.cover("default-model" if mk is None else "model:" + type(om).__name__)
    if mk is None:
        a = RegressionKriging()
        ctx.require(a.regression_model is not rk.regression_model, "default regression models are shared", key="shared")
        ctx.cover("independent-defaults")
    if ctx.chance(0.35):      # earlier data
        m = ctx.i(6, 15)
        X0 = s.X.min(0) + (s.X.max(0) - s.X.min(0)) * ctx.rng.random((m, s.dim))
        try:
            rk.fit(predictors(ctx, m, d), X0, ctx.rng.normal(size=m) * 7)
            rk.predict(predictors(ctx, 2, d), X0[:2])
            ctx.cover("refit")
        except Exception:
            pass
    try:
        o = Oracle(s, params, om, P, s.X, y)
    except np.linalg.LinAlgError:
        raise Skip("singular")
    except Exception as e:
        ctx.raises(f"fit although the kriging class raised {e!r}", rk.fit, P.copy(), s.X.copy(), y.copy())
        raise Skip("class rejects")
    Pc, Xc, yc = P.copy(), s.X.copy(), y.copy()
    ctx.call("fit", rk.fit, Pc, Xc, yc)
    ctx.require(np.array_equal(P, Pc) and np.array_equal(s.X, Xc) and np.array_equal(y, yc),
                "fit modified its arguments", key="input")
    other = None

    def check(label):
        m = ctx.i(1, 12)
        Q = gen.query_points(ctx, s, m)
        PQ = predictors(ctx, m, d)
        bs = [b for b in gen.backends(s, window=s.cls in ("ok", "ok3")) if b != "C" or o.k.variogram_model in gen.C_MODELS]
        b = ctx.pick("loop", *bs)
        kw = {} if b == "loop" and ctx.chance(0.5) else dict(backend=b)
        try:
            want = o.predict(PQ, Q, b)
        except np.linalg.LinAlgError:
            raise Skip("singular")
        fin = np.isfinite(want)
        ctx.cover("backend:" + b)
        tol = 1e-8 * (sc + np.abs(np.where(fin, want, 0)))
        got = ctx.call("predict", rk.predict, PQ.copy(), Q.copy(), **kw)
        ctx.close(f"{label} prediction", got, want, tol, key="predict", where=fin)
        r = ctx.call("krige_residual", rk.krige_residual, Q.copy(), **kw)
        ctx.close(f"{label} kriged residual", r, o.residual(Q, b), tol, key="residual", where=fin)
        # whatever the predictors are
        PQ2 = predictors(ctx, m, d) * 10
        got2 = ctx.call("predict", rk.predict, PQ2, Q.copy(), **kw)
        ctx.close(f"{label} prediction minus regression", got2 - o.model.predict(PQ2), r,
                  tol + 1e-12 * np.abs(o.model.predict(PQ2)), key="residual", where=fin)
        ctx.cover("residual")
        if m >= 2 and fin.all():
            t = ctx.rng.normal(size=m) * sc
            w = ctx.rng.random(m) + 0.01 if ctx.chance(0.5) else None
            g = ctx.call("score", rk.score, PQ.copy(), Q.copy(), t, **({} if w is None else dict(sample_weight=w)), **kw)
            v = r2_score(t, want, sample_weight=w)
            ctx.close(f"{label} score", np.asarray(float(g)), np.asarray(v), 1e-6 * (1 + abs(v)), key="score")
            ctx.cover("score" if w is None else "score-weighted")

    check("first")
    if params.get("exact_values", True) and not s.pinv:
        k = ctx.i(1, n)
        idx = ctx.rng.permutation(n)[:k]
        got = ctx.call("predict at training points", rk.predict, P[idx].copy(), s.X[idx].copy())
        fin = np.isfinite(got)
        if auto and not fin.all():
            raise Skip("singular")
        tol = np.full(k, 1e-7 * sc)
        if not auto:
            # bound for ill-conditioned kriging systems
            _, _, tz, _, ok = s.answer(s.X[idx], z=o.res if n == len(o.res) else None)
            tol = tol + np.where(ok, tz, np.inf)
        else:
            tol = tol + np.abs(o.residual(s.X[idx]) - o.res[idx])
        ctx.close("prediction at training points", got, y[idx], tol, key="training")
        ctx.cover("at-training-points")
    if ctx.chance(0.5):       # other instances must not matter
        other, _ = new()
        q = predictors(ctx, n, d)
        try:
            other.fit(q, s.X[:, ::1] * 1.0, ctx.rng.normal(size=n) * 3)
            other.predict(q[:3], s.X[:3] + 0.01)
        except Exception:
            pass
        ctx.cover("interleaved")
        check("after using another instance")
    if ctx.chance(0.4):       # refit
        y2 = y[::-1].copy()
        P2 = predictors(ctx, n, d)
        try:
            o = Oracle(s, params, clone(om), P2, s.X, y2)
        except Exception:
            return
        ctx.call("refit", rk.fit, P2.copy(), s.X.copy(), y2.copy())
        check("refitted")
        ctx.cover("refit")
