import numpy as np
from scipy.linalg import helmert
from vf import gen
from vf.main import Skip, Violation
from vf.props.C21 import direct_kwargs, wrapper_params

RULE = ("Random compositions (2-8 parts, down to 1e-14) for the transforms: isometry against the Aitchison distance, "
        "inverse, closure. Random classification kriging problems (2-5 classes; integer, negative, float, string and "
        "boolean labels; five classifiers; four kriging methods with every option): labels are compared with a "
        "separately fitted classifier plus kriging-class residuals of the log-ratios wherever the two most probable "
        "classes are distinguishable; training points have to keep their labels; histories with refits.")
CASES = {"quick": 1200, "thorough": 15000}
REQUIRED = ["transform", "isometry", "inverse", "tiny-part", "large-log-ratio", "method:ordinary", "method:universal", "method:ordinary3d",
            "method:universal3d", "labels:int", "labels:str", "labels:float", "labels:bool", "labels:sparse-int", "classes:2",
            "classes:3", "classes:4", "predict", "at-training-points", "score", "score-weighted", "residual", "refit",
            "auto-variogram", "column-target", "independent-defaults", "model:GaussianNB", "model:LogisticRegression",
            "model:RandomForestClassifier", "model:KNeighborsClassifier", "model:DecisionTreeClassifier",
            "kriging-changes-label"]


def transforms(ctx):
    from pykrige import ck
    n, k = ctx.i(1, 12), ctx.i(2, 8)
    A = ctx.rng.dirichlet(np.full(k, ctx.pick(0.3, 1.0, 10.0)), size=n)
    B = ctx.rng.dirichlet(np.ones(k), size=n)
    A = np.maximum(A, 1e-14)
    if ctx.chance(0.3):
        A[ctx.i(0, n - 1), ctx.i(0, k - 1)] = 1e-14
        ctx.cover("tiny-part")
    A /= A.sum(1, keepdims=True)
    ctx.note(A=A, B=B)
    A0 = A.copy()
    a, b = ctx.call("ilr", ck.ilr_transformation, A), ctx.call("ilr", ck.ilr_transformation, B)
    ctx.require(np.array_equal(A, A0), "ilr_transformation modified its argument", key="input")
    ctx.require(a.shape == (n, k - 1), f"ilr shape {a.shape}, expected {(n, k - 1)}", key="shape")

    def clr(x):
        g = np.log(np.maximum(x, np.finfo(float).eps))
        return g - g.mean(1, keepdims=True)
    ca, cb = clr(A), clr(B)
    ctx.close("distance of transformed compositions", np.linalg.norm(a - b, axis=1), np.linalg.norm(ca - cb, axis=1),
              1e-11 * (1 + np.linalg.norm(ca - cb, axis=1)), key="isometry")
    i, j = ctx.i(0, n - 1), ctx.i(0, n - 1)
    ctx.close("inner product", np.asarray(a[i] @ b[j]), np.asarray(ca[i] @ cb[j]), 1e-10 * (1 + abs(ca[i] @ cb[j])), key="isometry")
    ctx.cover("isometry")
    back = ctx.call("inverse ilr", ck.inverse_ilr_transformation, a)
    ctx.close("inverse of the transform", back, A, 1e-11 * A.max() + 1e-10 * A, key="inverse")
    U = ctx.rng.normal(size=(n, k - 1)) * ctx.pick(0.1, 1.0, 3.0)
    U0 = U.copy()
    V = ctx.call("inverse ilr", ck.inverse_ilr_transformation, U)
    ctx.require(np.array_equal(U, U0), "inverse_ilr_transformation modified its argument", key="input")
    ctx.close("sum of the parts", V.sum(1), np.ones(n), 1e-12, key="closure")
    ctx.require((V > 0).all(), "inverse transform not positive", key="closure")
    ctx.close("transform of the inverse", ck.ilr_transformation(V), U, 1e-10 * (1 + np.abs(U)), key="inverse")
    W = ctx.rng.normal(size=(n, k - 1)) * ctx.pick(300.0, 2000.0)
    T = ctx.call("inverse ilr", ck.inverse_ilr_transformation, W)
    ctx.require(np.isfinite(T).all(), "inverse transform of large log-ratios is not finite", key="overflow")
    ctx.close("parts of large log-ratios", T.sum(1), np.ones(n), 1e-12, key="overflow")
    ctx.cover("large-log-ratio")
    # only the composition matters
    f = 10 ** ctx.rng.uniform(-2, 2, size=(n, 1))
    if (A * f).min() > 1e-15:
        ctx.close("transform of a multiple", ck.ilr_transformation(A * f), a, 1e-10 * (1 + np.abs(a)), key="scale")
    c = ctx.u(0.5, 100)
    ctx.close("closure", ck.closure(B * f, c), B * c, 1e-12 * c, key="closure")
    ctx.cover("transform", "inverse")


def classifiers():
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.tree import DecisionTreeClassifier
    return [lambda: RandomForestClassifier(6, max_depth=3, random_state=2), lambda: LogisticRegression(),
            lambda: GaussianNB(), lambda: KNeighborsClassifier(4), lambda: DecisionTreeClassifier(max_depth=2, random_state=0)]


def labels(ctx, k):
    kind = ctx.pick("int", "str", "float", "sparse-int", "bool") if k == 2 else ctx.pick("int", "str", "float", "sparse-int")
    ctx.cover("labels:" + kind)
    return {"int": lambda: np.arange(k), "str": lambda: np.array(["sand", "clay", "silt", "a", "Zz"])[ctx.rng.permutation(5)[:k]],
            "float": lambda: np.array([2.0, -1.0, 3.0, 7.0, 100.0])[:k], "sparse-int": lambda: np.array([7, -3, 42, 1000, 11])[ctx.rng.permutation(5)[:k]],
            "bool": lambda: np.array([False, True])}[kind]()


class Oracle:
    def __init__(self, s, params, model, P, X, y, auto):
        self.s, self.params, self.auto = s, params, auto
        self.m = model.fit(P, y)
        self.classes = self.m.classes_
        k = len(self.classes)
        self.H = helmert(k)
        onehot = (y[:, None] == self.classes[None, :]).astype(float)
        self.target = self.ilr(onehot)
        self.pred = self.ilr(self.m.predict_proba(P))
        kw = direct_kwargs(s, params)
        K = gen.classes()[s.cls]
        self.k = [K(*X.T.copy(), self.target[:, j] - self.pred[:, j], **kw) for j in range(k - 1)]

    def ilr(self, p):
        if self.auto:      # the automatic fit may turn on the last bit of the residuals
            from pykrige.ck import ilr_transformation
            return ilr_transformation(p)
        return -np.log(np.maximum(p, np.finfo(float).eps)) @ self.H.T

    def residual(self, Q):
        kw = dict(backend="loop")
        if self.s.cls in ("ok", "ok3"):
            kw["n_closest_points"] = self.params.get("n_closest_points", 10)
        return np.stack([k.execute("points", *Q.T.copy(), **kw)[0] for k in self.k], 1)

    def predict(self, P, Q):
        r = self.residual(Q)
        lr = (r + self.ilr(self.m.predict_proba(P))) @ -self.H       # centred log-ratios
        o = np.sort(lr, axis=1)
        return self.classes[np.argmax(lr, axis=1)], o[:, -1] - o[:, -2], r


def case(ctx):
    if ctx.chance(0.25):
        return transforms(ctx)
    from pykrige.ck import ClassificationKriging
    from sklearn.base import clone
    from sklearn.metrics import accuracy_score
    s = gen.scenario(ctx, n=(12, 36), pinv=0.08, kinds=("regional_linear", "point_log", "external_Z", "functional"))
    n = len(s.z)
    k = ctx.pick(2, 3, 3, 4, 5)
    ctx.cover(f"classes:{k}")
    lab = labels(ctx, k)
    P = ctx.rng.normal(size=(n, ctx.i(1, 3)))
    score = s.z / max(np.std(s.z), 1e-300) + P[:, 0] * ctx.pick(0.3, 2.0)
    idx = np.clip((np.argsort(np.argsort(score)) * k) // n, 0, k - 1)
    y = lab[idx]
    auto = ctx.chance(0.2)
    params = wrapper_params(ctx, s, auto)
    if not auto:
        s.system()
    ctx.cover("method:" + params["method"])
    m = ctx.pick(*classifiers())()
    ctx.cover("model:" + type(m).__name__)
    ctx.note(params={a: b for a, b in params.items() if a not in ("functional_drift", "variogram_function")}, P=P,
             y=y.tolist(), model=type(m).__name__)
    if ctx.chance(0.1):
        a, b = ClassificationKriging(), ClassificationKriging()
        ctx.require(a.classification_model is not b.classification_model, "default classifiers are shared", key="shared")
        ctx.cover("independent-defaults")
    om = clone(m)
    c = ClassificationKriging(classification_model=m, **params)
    if ctx.chance(0.3):        # earlier data with other labels
        try:
            yy = np.array([5, 6, 8])[ctx.rng.integers(3, size=n)] if lab.dtype.kind in "if" else np.array(["u", "v"])[ctx.rng.integers(2, size=n)]
            c.fit(ctx.rng.normal(size=(n, P.shape[1])), s.X[::-1].copy(), yy)
            c.predict(P[:2], s.X[:2])
            ctx.cover("refit")
        except Exception:
            pass
    try:
        o = Oracle(s, params, om, P, s.X, y, auto)
    except np.linalg.LinAlgError:
        raise Skip("singular")
    except Exception as e:
        if auto:           # constant residuals cannot be fitted
            raise Skip("auto fit impossible")
        raise
    yt = y.copy()
    if ctx.chance(0.3):
        yt = y[:, None].copy()
        ctx.cover("column-target")
    ctx.call("fit", c.fit, P.copy(), s.X.copy(), yt)
    q = ctx.i(1, 14)
    Q = gen.query_points(ctx, s, q)
    PQ = ctx.rng.normal(size=(q, P.shape[1])) * 1.5
    try:
        want, margin, r = o.predict(PQ, Q)
    except np.linalg.LinAlgError:
        raise Skip("singular")
    got = ctx.call("predict", c.predict, PQ.copy(), Q.copy())
    ctx.require(np.shape(got) == (q,), f"predict: shape {np.shape(got)}, expected {(q,)}", key="shape")
    ctx.require(np.isin(np.asarray(got), lab).all(), "predicted a label that is not among the training labels", key="labels",
                got=got, labels=lab)
    fin = np.isfinite(r).all(1)
    ok = fin & (margin > 1e-6 * (1 + np.abs(r).max(1)))
    ctx.require(np.array_equal(np.asarray(got)[ok], want[ok]), f"predicted labels {np.asarray(got)[ok].tolist()}, expected "
                f"{want[ok].tolist()}", key="predict", margin=margin[ok])
    ctx.cover("predict")
    if (np.asarray(o.m.predict(PQ))[ok] != want[ok]).any():
        ctx.cover("kriging-changes-label")
    rr = ctx.call("krige_residual", c.krige_residual, Q.copy())
    # any orthonormal basis of the log-ratio space will do: compare norms and inner products
    if fin.any():
        sc = 1 + np.abs(r[fin]).max()
        if auto:
            ctx.close("kriged log-ratio residuals", np.abs(rr[fin]), np.abs(r[fin]), 1e-8 * sc, key="residual")
        else:
            ctx.close("kriged log-ratio residuals (Gram matrix)", rr[fin] @ rr[fin].T, r[fin] @ r[fin].T, 1e-7 * sc ** 2, key="residual")
        ctx.cover("residual")
    if ok.all():
        t = lab[ctx.rng.integers(k, size=q)]
        w = ctx.rng.random(q) + 0.01 if ctx.chance(0.5) else None
        g = ctx.call("score", c.score, PQ.copy(), Q.copy(), t, **({} if w is None else dict(sample_weight=w)))
        ctx.close("score", np.asarray(float(g)), np.asarray(accuracy_score(t, want, sample_weight=w)), 1e-12, key="score")
        ctx.cover("score" if w is None else "score-weighted")
    if params.get("exact_values", True) and not s.pinv:
        sel = ctx.rng.permutation(n)[:ctx.i(1, n)]
        got = ctx.call("predict at training points", c.predict, P[sel].copy(), s.X[sel].copy())
        err = np.abs(o.residual(s.X[sel]) - (o.target - o.pred)[sel]).max(1)
        good = err < 1e-3
        if not auto:
            _, _, tz, _, oka = s.answer(s.X[sel], z=(o.target - o.pred)[:, 0])
            good = oka & (tz < 1e-2)       # decided without looking at what the code returned
        ctx.require(np.array_equal(np.asarray(got)[good], y[sel][good]), "labels at training points: "
                    f"{np.asarray(got)[good].tolist()}, expected {y[sel][good].tolist()}", key="training")
        ctx.cover("at-training-points")
    if ctx.chance(0.3):        # refit with other labels
        y2 = y[::-1].copy()
        try:
            o = Oracle(s, params, clone(om), P, s.X, y2, auto)
            want, margin, r = o.predict(PQ, Q)
        except Exception:
            return
        ctx.call("refit", c.fit, P.copy(), s.X.copy(), y2)
        got = np.asarray(ctx.call("predict", c.predict, PQ.copy(), Q.copy()))
        ok = np.isfinite(r).all(1) & (margin > 1e-6 * (1 + np.abs(r).max(1)))
        ctx.require(np.array_equal(got[ok], want[ok]), "labels after a refit differ", key="refit", got=got[ok], want=want[ok])
        ctx.cover("refit")
