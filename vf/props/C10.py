import numpy as np
from vf import gen, large, ref
from vf.main import Skip

RULE = ("Random data sets of all classes, geographic ones, anisotropies, extents from 1e-12 to 1e15, lattices, "
        "repeated locations and 2-60 points, with 1-40 classes, at construction and after updates; lags and "
        "semivariances are recomputed pair by pair in extended precision (data sets with a pair distance within "
        "rounding of an interior class limit are left out) and the returned variogram points are compared with the "
        "model formula at those lags.")
CASES = {"quick": 3500, "thorough": 50000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "empty-class", "one-class", "two-points",
            "updated", "aniso", "rotated", "autofit", "huge", "tiny", "lattice", "repeated", "points", "max-pair-alone", "repeated-geographic", "million-pairs"]


def experimental(D, G, nlags):
    """None if a pair sits on a class limit within rounding"""
    lo, hi = D.min(), D.max()
    w = (hi - lo) / nlags
    tol = 1e-9 * float(hi)
    lags, sv, cnt = [], [], []
    if float(hi - lo) <= tol:
        if len(D) > 1 and nlags > 1:
            return None
        return np.array([D.mean()]), np.array([G.mean()]), [len(D)]
    for k in range(1, nlags):
        if np.abs(D - (lo + k * w)).min() < tol:
            return None
    idx = np.minimum(np.floor((D - lo) / w).astype(int), nlags - 1)
    for k in range(nlags):
        m = idx == k
        if m.any():
            lags.append(D[m].mean())
            sv.append(G[m].mean())
            cnt.append(int(m.sum()))
    return np.array(lags), np.array(sv), cnt


def pairs(s):
    Xa = s.adj(s.X)
    D = (ref.gdist if s.geo else ref.edist)(Xa, Xa)
    i, j = np.triu_indices(len(s.z), 1)
    z = np.asarray(s.z, np.longdouble)
    return D[i, j], (z[i] - z[j]) ** 2 / 2


def check(ctx, s, obj, nlags, what):
    D, G = pairs(s)
    r = experimental(D, G, nlags)
    if r is None:
        ctx.cover("on-limit")
        return False
    lags, sv, cnt = r
    if len(lags) < nlags:
        ctx.cover("empty-class")
    if cnt[-1] == 1:
        ctx.cover("max-pair-alone")
    tol = 1e-10 * float(D.max()) + 64 * ref.EPS * s.cmag()
    ctx.close(what + "lags", obj.lags, lags, tol, key="lags")
    ctx.close(what + "semivariance", obj.semivariance, sv, 1e-10 * np.abs(sv).astype(float)
              + 1e-12 * float(np.abs(s.z).max()) ** 2, key="semivariance")
    # the variogram points are the model at the lags
    p = [float(v) for v in obj.variogram_model_parameters]
    if not hasattr(type(obj), "get_variogram_points"):      # only the 2-D classes offer it
        return True
    pts = ctx.call("get_variogram_points", obj.get_variogram_points)
    ctx.require(isinstance(pts, tuple) and len(pts) == 2, "get_variogram_points did not return a pair", key="points")
    v = s.vario
    fn = gen.make_vario(v.name, p, fn=v.fn) if v.fn is not None else gen.Vario(v.name, p, None)
    want = fn.gamma(np.asarray(obj.lags, np.longdouble))
    if not np.all(np.isfinite(want.astype(float))):
        return True
    ctx.close(what + "variogram point distances", pts[0], obj.lags, 0, key="points")
    ctx.close(what + "variogram point values", pts[1], want,
              1e-11 * (np.abs(want).astype(float) + fn.mag()), key="points")
    ctx.cover("points")
    return True


def case(ctx):
    if large.due(ctx, 397):
        s = large.problem(ctx, ("ok",), geo=ctx.chance(0.25), n=ctx.i(1000, 1700))
        nlags = ctx.i(2, 20)
        if check(ctx, s, large.build(ctx, s, nlags=nlags), nlags, f"{len(s.z)} data, {nlags} classes: "):
            ctx.cover("million-pairs")
        return
    kind = ctx.pick("any", "any", "any", "any", "lattice", "repeated", "two", "huge", "tiny", "gaps")
    X = None
    cls = ctx.pick("ok", "uk", "ok3", "uk3")
    d = 3 if cls.endswith("3") else 2
    geo = None if kind == "any" else False
    if kind == "lattice":
        g = np.stack(np.meshgrid(*[np.arange(ctx.i(2, 4))] * d), -1).reshape(-1, d).astype(float)
        X = ctx.rng.permutation(g)[:ctx.i(3, len(g))] * ctx.pick(1.0, 0.5, 3.0)
    elif kind == "two":
        X = ctx.rng.normal(size=(2, d)) * ctx.lu(0.1, 100)
    elif kind == "repeated":
        X = gen.layout(ctx, ctx.pick(ctx.i(4, 15), ctx.i(16, 90)), d, 10.0)
        X = np.concatenate([X, X[:ctx.i(1, 3)]])
    elif kind == "gaps":          # two tight clusters: empty classes and a lonely largest pair
        X = np.concatenate([ctx.rng.normal(size=(ctx.i(2, 6), d)), 50 + ctx.rng.normal(size=(1, d))]) * ctx.lu(0.1, 10)
    L = {"huge": ctx.lu(1e9, 1e15), "tiny": ctx.lu(1e-12, 1e-1)}.get(kind)
    s = gen.scenario(ctx, cls=cls, geo=geo, X=X, L=L, drift=False, pinv=1.0 if kind in ("repeated", "tiny") else 0.05,
                     offset=kind == "any", n=(3, 60) if ctx.chance(0.9) else (60, 140))
    if s.geo and ctx.chance(0.2):
        g = ctx.rng.permutation(np.r_[np.arange(len(s.z)), ctx.rng.integers(len(s.z), size=ctx.i(1, 4))])
        s.X, s.z = s.X[g].copy(), s.z[g] + ctx.rng.normal(size=len(g)) * np.std(s.z)
        s.X[:, 0] += 360.0 * ctx.rng.integers(-1, 2, len(g)) * (np.abs(s.X[:, 0]) == np.round(np.abs(s.X[:, 0])))
        s.pinv = True
        ctx.cover("repeated-geographic")
        ctx.note(X=s.X, z=s.z)
    if kind != "any":
        ctx.cover({"two": "two-points"}.get(kind, kind))
    nlags = ctx.pick(6, 1, 2, ctx.i(3, 12), ctx.i(13, 40))
    if nlags == 1:
        ctx.cover("one-class")
    ctx.note(kind=kind, nlags=nlags)
    kw = {"nlags": nlags} if nlags != 6 or ctx.chance(0.5) else {}
    auto = s.vario.fn is None and kind == "any" and ctx.chance(0.15)
    if auto:
        kw["variogram_parameters"] = None
        kw["weight"] = ctx.chance(0.5)
        K = gen.classes()[s.cls]
        a = s.kwargs()
        a.update(kw)
        try:
            ctx.events += 1
            obj = K(*s.coords(), s.z, **a)
        except ValueError:          # nothing to fit (a single class, equal semivariances)
            raise Skip("autofit impossible")
        ctx.cover("autofit")
    else:
        obj = s.build(ctx, **kw)
    if not check(ctx, s, obj, nlags, f"{s.cls} "):
        raise Skip("class limit")
    if ctx.chance(0.4):
        # update: other anisotropy, other classes, other model
        nl2 = ctx.i(1, 15)
        v = gen.vario(ctx, s.ext, float(np.var(s.z)), custom=0)
        s.vario = v
        kw = dict(variogram_model=v.name, variogram_parameters=v.user, nlags=nl2)
        if not s.geo:
            s.scaling = [ctx.lu(0.2, 5) for _ in range(d - 1)]
            s.angle = [ctx.u(-180, 180) for _ in range(2 * d - 3)]
            if d == 2:
                kw.update(anisotropy_scaling=s.scaling[0], anisotropy_angle=s.angle[0])
            else:
                kw.update(anisotropy_scaling_y=s.scaling[0], anisotropy_scaling_z=s.scaling[1],
                          anisotropy_angle_x=s.angle[0], anisotropy_angle_y=s.angle[1], anisotropy_angle_z=s.angle[2])
        try:
            ctx.events += 1
            obj.update_variogram_model(**kw)
        except np.linalg.LinAlgError:
            raise Skip("statistics of a singular system")
        if check(ctx, s, obj, nl2, f"{s.cls} after update: "):
            ctx.cover("updated")
