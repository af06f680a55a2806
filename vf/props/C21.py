import numpy as np
from vf import gen
from vf.main import Skip, Violation

RULE = ("Random parameter settings of the scikit-learn wrapper for its four methods (given at construction, by "
        "set_params, by attribute or through clone; explicit and automatic variograms, anisotropy tuples, drifts, "
        "statistics, geographic) and histories of fit/refit/predict/execute/score with other instances in between; "
        "everything returned is compared with direct calls of the wrapped class with the same data and options; grid "
        "searches are compared with scores computed from direct calls fold by fold.")
CASES = {"quick": 1200, "thorough": 15000}
REQUIRED = ["method:ordinary", "method:universal", "method:ordinary3d", "method:universal3d", "by:init", "by:set_params",
            "by:clone", "by:attribute", "refit", "predict", "execute:grid", "execute:masked", "execute:points", "score",
            "grid-search", "array-reused", "auto-variogram", "window<n", "window>n", "window-changed", "geographic", "unfitted-rejected", "wrong-dim-rejected",
            "drift:regional_linear", "drift:point_log", "drift:external_Z", "drift:functional", "backend:C", "rotated", "aniso", "dict-reused", "refit:settings"]
METHOD = {"ok": "ordinary", "uk": "universal", "ok3": "ordinary3d", "uk3": "universal3d"}


def wrapper_params(ctx, s, auto=False):
    """parameters of Krige describing the scenario"""
    k = dict(method=METHOD[s.cls])
    if auto:
        k["variogram_model"] = s.vario.name if s.vario.fn is None else "spherical"
        if ctx.chance(0.3):     # the documented defaults
            ctx.cover("auto-variogram:defaults")
            if ctx.chance(0.3):
                k.pop("variogram_model")
        else:
            k["nlags"] = ctx.i(2, 8)
            k["weight"] = ctx.chance(0.5)
        ctx.cover("auto-variogram")
    else:
        k.update(s.vario.kw())
    if not s.geo:
        sc, an = [float(v) for v in s.scaling], [float(v) for v in s.angle]
        if sc != [1.0] * len(sc) or ctx.chance(0.3):
            k["anisotropy_scaling"] = tuple(sc) if s.dim == 3 else ctx.pick((sc[0], ctx.pick(1.0, 7.0)), (sc[0],))
        if an != [0.0] * len(an) or ctx.chance(0.3):
            k["anisotropy_angle"] = tuple(an) if s.dim == 3 else ctx.pick((an[0], ctx.pick(0.0, 50.0), 0.0), (an[0],))
    else:
        k["coordinates_type"] = "geographic"
    if not s.exact:
        k["exact_values"] = False
    if s.pinv:
        k["pseudo_inv"], k["pseudo_inv_type"] = True, s.pinv_type
    if s.cls == "ok" and ctx.chance(0.3):
        k["enable_statistics"] = True
    d = s.drift
    if d.terms:
        k["drift_terms"] = list(d.terms)
        if "point_log" in d.terms:
            k["point_drift"] = d.wells_user
        if "external_Z" in d.terms:
            k["ext_drift_grid"] = tuple(d.ext_user)
        if "functional" in d.terms:
            k["functional_drift"] = [f for f, _ in d.funcs]
    if ctx.chance(0.7):
        k["n_closest_points"] = ctx.i(2, len(s.z) + 6)
    return k


def direct_kwargs(s, k):
    """the same settings as keyword arguments of the wrapped class"""
    out = {x: k[x] for x in ("variogram_model", "variogram_parameters", "variogram_function", "nlags", "weight",
                             "exact_values", "pseudo_inv", "pseudo_inv_type", "coordinates_type", "drift_terms",
                             "point_drift", "functional_drift", "enable_statistics") if x in k}
    for x, v in (("variogram_model", "linear"), ("nlags", 6), ("weight", False)):
        out.setdefault(x, v)
    if "ext_drift_grid" in k:
        out["external_drift"], out["external_drift_x"], out["external_drift_y"] = k["ext_drift_grid"]
    sc, an = k.get("anisotropy_scaling"), k.get("anisotropy_angle")
    if s.dim == 2:
        if sc:
            out["anisotropy_scaling"] = sc[0]
        if an:
            out["anisotropy_angle"] = an[0]
    else:
        if sc:
            out["anisotropy_scaling_y"], out["anisotropy_scaling_z"] = sc
        if an:
            out["anisotropy_angle_x"], out["anisotropy_angle_y"], out["anisotropy_angle_z"] = an
    return out


def close(ctx, what, got, want, scale, key):
    g, w = np.ma.getdata(got), np.ma.getdata(want)
    ctx.require(np.shape(g) == np.shape(w), f"{what}: shape {np.shape(g)}, expected {np.shape(w)}", key="shape")
    m = ~np.ma.getmaskarray(want)
    ctx.require(np.array_equal(np.ma.getmaskarray(got), ~m), f"{what}: mask differs", key="mask")
    fin = np.isfinite(w)
    ctx.require(np.array_equal(fin[m], np.isfinite(g)[m]), f"{what}: not finite", key=key, got=g, want=w)
    m = m & fin
    ctx.close(what, np.where(m, g, 0), np.where(m, w, 0), 1e-9 * scale + 1e-9 * np.abs(np.where(m, w, 0)), key=key)


def variants(ctx, Krige, params):
    """an estimator with these parameters, set in one of several ways"""
    from sklearn.base import clone
    how = ctx.pick("init", "set_params", "clone", "attribute", "mixed")
    if how == "init":
        e = Krige(**params)
    elif how == "set_params":
        e = Krige()
        r = e.set_params(**params)
        ctx.require(r is e, "set_params did not return the estimator", key="set_params")
    elif how == "attribute":
        e = Krige(method=params["method"])
        for a, v in params.items():
            setattr(e, a, v)
    elif how == "clone":
        e0 = Krige(**params)
        e = clone(e0)
        ctx.require(e is not e0 and e.model is None, "clone is not a fresh estimator", key="clone")
    else:
        ks = list(params)
        half = [x for x in ks if ctx.chance(0.5)]
        e = Krige(**{x: params[x] for x in half})
        e.set_params(**{x: params[x] for x in ks if x not in half})
        how = "set_params"
    ctx.cover("by:" + how)
    got = e.get_params()
    for a, v in params.items():
        w = got[a]
        same = w is v or type(w) is type(v)
        if isinstance(v, (str, bool, int, float)) or a.startswith("anisotropy"):
            same = w == v
        ctx.require(same, f"get_params()[{a!r}] is {w!r}, was set to {v!r}", key="get_params")
    return e


def case(ctx):
    from pykrige.compat import Krige
    s = gen.scenario(ctx, n=(5, 28), pinv=0.08,
                     kinds=("regional_linear", "point_log", "external_Z", "functional"))
    auto = ctx.chance(0.25) and np.ptp(s.z) > 0 and len(s.z) > 5
    params = wrapper_params(ctx, s, auto)
    ctx.note(params={k: v for k, v in params.items() if k not in ("functional_drift", "variogram_function")})
    ctx.cover("method:" + params["method"])
    K = gen.classes()[s.cls]
    e = variants(ctx, Krige, params)
    X = s.X
    if ctx.chance(0.3):
        ctx.raises("predict of an unfitted estimator", e.predict, X[:2].copy())
        ctx.cover("unfitted-rejected")
    if ctx.chance(0.3):
        bad = np.zeros((5, 5 - s.dim))
        ctx.raises("fit with points of the wrong dimension", e.fit, bad, np.arange(5.0))
        ctx.cover("wrong-dim-rejected")
    if not auto:
        s.system()         # leaves singular problems out
    kw = direct_kwargs(s, params)
    nfit = ctx.pick(1, 1, 2)
    if ctx.chance(0.4):      # fitted before on other data, other settings
        m = ctx.i(5, 15)
        X0 = s.X.min(0) + (s.X.max(0) - s.X.min(0) + 1e-9) * ctx.rng.random((m, s.dim))
        old = e.get_params(deep=False)
        try:
            e.set_params(variogram_model="linear", variogram_parameters=[1.0, 0.5], variogram_function=None)
            if ctx.chance(0.6):
                other = dict(exact_values=not e.exact_values, anisotropy_scaling=(2.5, 0.4), anisotropy_angle=(25.0, 40.0, 65.0),
                             drift_terms=ctx.pick(None, ["regional_linear"]), point_drift=None, functional_drift=None, coordinates_type="euclidean",
                             ext_drift_grid=(None, None, None), pseudo_inv=not e.pseudo_inv, nlags=3, weight=True, n_closest_points=3,
                             enable_statistics=False, method=ctx.pick(*[v for v in METHOD.values() if v.endswith("3d") == (s.dim == 3)]))
                e.set_params(**{a: b for a, b in other.items() if ctx.chance(0.6) or "drift" in a})
                ctx.cover("refit:settings")
            e.fit(X0, ctx.rng.normal(size=m))
            e.predict(X0[:3] + 0.01)
            ctx.cover("refit")
        except (Violation, Skip):
            raise
        except Exception:
            pass
        e.set_params(**old)
    for r in range(nfit):
        z = s.z if r == 0 else s.z[::-1].copy()
        if r:
            ctx.cover("refit")
        Xf, zf = X.copy(), z.copy()
        try:
            direct = K(*s.coords(), z, **kw)
        except Exception as ex:
            ctx.raises(f"{params['method']}: fit although the kriging class raised {ex!r}", e.fit, Xf, zf)
            raise Skip("class rejects")
        ctx.call("fit", e.fit, Xf, zf)
        ctx.require(np.array_equal(Xf, X) and np.array_equal(zf, z), "fit modified its arguments", key="input")
        use(ctx, s, params, e, direct, z)
        if s.cls in ("ok", "ok3") and ctx.chance(0.5):
            # the window belongs to the prediction, not to the fit
            params = dict(params, n_closest_points=ctx.i(2, len(s.z) + 6))
            if ctx.chance(0.5):
                e.set_params(n_closest_points=params["n_closest_points"])
            else:
                e.n_closest_points = params["n_closest_points"]
            use(ctx, s, params, e, direct, z)
            ctx.cover("window-changed")
        if ctx.chance(0.3):   # another instance in between
            o = Krige(method=params["method"], variogram_model="linear", variogram_parameters=[2.0, 1.0])
            o.fit(X[::-1] + 0.25 * s.ext, z * 3 + 1)
            use(ctx, s, params, e, direct, z)
    if ctx.chance(0.12) and not auto and len(s.z) >= 9 and not s.pinv and not s.drift.terms:
        grid_search(ctx, s, params, K, kw)


def use(ctx, s, params, e, direct, z):
    scale = float(np.abs(z).max())
    vs = max(s.vario.mag(), float(np.abs(direct.variogram_model_parameters).max(initial=0)) if
             s.vario.fn is None else 0.0)
    k = params.get("n_closest_points", 10)
    win = s.cls in ("ok", "ok3")
    n = len(s.z)
    if win:
        ctx.cover("window<n" if k < n else "window>n")
    for _ in range(2):
        q = gen.request(ctx, s, style=ctx.pick("points", "points", "grid", "masked"))
        names = ("xpoints", "ypoints", "zpoints")
        opts = {}
        backend = "loop"
        if ctx.chance(0.4):
            b = [t for t in gen.backends(s, window=win)]
            if s.cls == "ok" and direct.variogram_model not in gen.C_MODELS:
                b = [t for t in b if t != "C"]
            backend = opts["backend"] = ctx.pick(*b)
        ctx.cover("backend:" + backend)
        dk = dict(q.kw)
        dk["backend"] = backend
        if win:
            dk["n_closest_points"] = k
        try:
            want = direct.execute(q.style, *[np.array(a, float) for a in q.axes], **dk)
        except np.linalg.LinAlgError:
            raise Skip("singular")
        what = f"{params['method']} {q.style} {backend}: "
        if q.style == "points" and ctx.chance(0.6):
            P = q.Q.copy()
            got = ctx.call("predict", e.predict, P, **opts)
            ctx.require(np.array_equal(P, q.Q), "predict modified its argument", key="input")
            close(ctx, what + "prediction", got, want[0], scale, "predict")
            ctx.cover("predict")
            if ctx.chance(0.4):
                # the same array again, with other contents
                P[...] = P[ctx.rng.permutation(len(P))] if ctx.chance(0.3) else gen.query_points(ctx, s, len(P))
                inside = "external_Z" not in s.drift.terms or ((P >= s.ext_box[0]) & (P <= s.ext_box[1])).all()
                if inside:
                    try:
                        again = direct.execute("points", *P.T.copy(), **{a: b for a, b in dk.items() if a != "specified_drift_arrays"})
                    except np.linalg.LinAlgError:
                        raise Skip("singular")
                    got = ctx.call("predict", e.predict, P, **opts)
                    close(ctx, what + "prediction for the changed array", got, again[0], scale, "predict")
                    ctx.cover("array-reused")
        pts = {a: v for a, v in zip(names, q.pass_axes)}
        extra = dict(q.kw)
        if q.style != "points" or ctx.chance(0.5):
            extra["style"] = q.style
        before = dict(pts)
        got = ctx.call("execute", e.execute, pts, **extra, **opts)
        ctx.require(list(pts) == list(before) and all(pts[a] is before[a] for a in before),
                    f"execute changed the dictionary it was given: keys {list(pts)}, had {list(before)}", key="input")
        if ctx.chance(0.3):
            got = ctx.call("execute again with the same dictionary", e.execute, pts, **extra, **opts)
            ctx.cover("dict-reused")
        close(ctx, what + "estimate", got[0], want[0], scale, "execute")
        close(ctx, what + "variance", got[1], want[1], vs, "variance")
        ctx.cover("execute:" + q.style)
    if ctx.chance(0.4):
        from sklearn.metrics import r2_score
        Q = gen.query_points(ctx, s, ctx.i(3, 12))
        y = ctx.rng.normal(size=len(Q)) * scale
        w = ctx.rng.random(len(Q)) + 0.1 if ctx.chance(0.5) else None
        dk = dict(backend="loop")
        if win:
            dk["n_closest_points"] = k
        want = direct.execute("points", *Q.T.copy(), **dk)[0]
        got = ctx.call("score", e.score, Q.copy(), y, **({} if w is None else dict(sample_weight=w)))
        want = r2_score(y, want, sample_weight=w)
        ctx.close("score", np.asarray(got, float), np.asarray(want), 1e-7 * (1 + abs(want)), key="score")
        ctx.cover("score")


def grid_search(ctx, s, params, K, kw):
    from pykrige.compat import Krige
    from sklearn.metrics import r2_score
    from sklearn.model_selection import GridSearchCV, KFold
    v2 = s.vario.scaled(c=3.0)
    grid = {"variogram_parameters": [params["variogram_parameters"], list(v2.user)]}
    if s.cls in ("ok", "ok3"):
        grid["n_closest_points"] = [3, 6]
    cv = KFold(3, shuffle=True, random_state=ctx.i(0, 999))
    gs = GridSearchCV(Krige(**{k: v for k, v in params.items()}), grid, cv=cv, error_score="raise")
    try:
        gs.fit(s.X.copy(), s.z.copy())
    except np.linalg.LinAlgError:
        raise Skip("singular")
    ctx.events += 1
    res = gs.cv_results_
    best = []
    for p, m in zip(res["params"], res["mean_test_score"]):
        sc = []
        k2 = dict(kw, variogram_parameters=p["variogram_parameters"])
        k = p.get("n_closest_points", params.get("n_closest_points", 10))
        for tr, te in cv.split(s.X):
            o = K(*s.X[tr].T.copy(), s.z[tr], **k2)
            dk = dict(backend="loop")
            if s.cls in ("ok", "ok3"):
                dk["n_closest_points"] = k
            sc.append(r2_score(s.z[te], o.execute("points", *s.X[te].T.copy(), **dk)[0]))
        ctx.close(f"grid search score of {p}", np.asarray(m), np.asarray(np.mean(sc)), 1e-6 * (1 + np.abs(sc).max()),
                  key="grid-search")
        best.append(np.mean(sc))
    ctx.require(np.mean(best[gs.best_index_]) >= max(best) - 1e-6 * (1 + abs(max(best))), "grid search picked a setting "
                "that is not the best", key="grid-search")
    b = gs.best_params_
    e = gs.best_estimator_
    o = K(*s.coords(), s.z, **dict(kw, variogram_parameters=b["variogram_parameters"]))
    dk = dict(backend="loop")
    if s.cls in ("ok", "ok3"):
        dk["n_closest_points"] = b["n_closest_points"]
    Q = gen.query_points(ctx, s, 5)
    close(ctx, "best estimator", e.predict(Q.copy()), o.execute("points", *Q.T.copy(), **dk)[0], float(np.abs(s.z).max()),
          "grid-search")
    ctx.cover("grid-search")
