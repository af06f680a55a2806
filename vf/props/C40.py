import array
import contextlib
import fractions
import io
import os
import re

import numpy as np
from vf import gen, grids
from vf.main import Skip
from vf.props.C14 import freeze, identical

RULE = ("Problems whose numbers are all small integers or dyadic fractions are solved with plain float64 arrays and again with every argument "
        "in another container holding the same numbers (integer types of all widths, narrow and wide floats, byte order, memory order, "
        "strides, read-only, memory-mapped, masked arrays without masked cells, subclasses, nested lists, array protocol, numpy scalars "
        "and strings for settings); state, results and files have to be the same, and the containers stay as they were.")
CASES = {"quick": 1200, "thorough": 25000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "automatic", "update", "window", "statistics", "style:grid", "style:points",
            "style:masked", "backend:C", "backend:loop", "backend:vectorized", "drift:regional_linear", "drift:point_log", "drift:external_Z",
            "drift:specified", "drift:functional", "c:int8", "c:uint8", "c:float16", "c:float32", "c:longdouble", "c:big-endian", "c:list",
            "c:read-only", "c:memmap", "c:unmasked", "c:subclass", "c:protocol", "c:fortran", "c:reversed", "c:strided", "c:object", "c:column",
            "part:krige", "part:regression", "part:classification", "part:asc", "part:zmap", "part:models", "part:distance", "s:numpy", "s:int",
            "s:str", "s:fraction"]

INTS = (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64)


class Sub(np.ndarray):
    """a subclass of ndarray that does nothing"""


class Proto:
    """has numbers, and is not an array"""

    def __init__(self, a):
        self.a = np.array(a)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)

    def __len__(self):
        return len(self.a)


def narrow(ctx, ts):
    """one of the types, preferably one of the smallest"""
    if ctx.chance(0.6):
        size = min(np.dtype(t).itemsize for t in ts)
        ts = [t for t in ts if np.dtype(t).itemsize == size]
    return ctx.pick(*ts)


def other(ctx, a, avoid=()):
    """the same numbers in another container"""
    a = np.array(a, float)
    kinds = ["int", "int", "int", "float", "float", "longdouble", "big-endian", "list", "tuple", "read-only", "memmap", "unmasked", "subclass", "protocol",
             "fortran", "reversed", "strided", "object", "column", "array", "ints-list"]
    k = ctx.pick(*[q for q in kinds if q not in avoid])
    if k in ("column", "array") and a.ndim != 1:
        k = "reversed"
    if k in ("int", "ints-list", "object") and not np.all(a == np.round(a)):
        k = "float"
    if k == "int":
        t = narrow(ctx, [t for t in INTS if a.size == 0 or (a.min() >= np.iinfo(t).min and a.max() <= np.iinfo(t).max)])
        ctx.cover("c:" + t.__name__)
        return a.astype(t)
    if k == "float":
        with np.errstate(over="ignore"):
            t = narrow(ctx, [t for t in (np.float16, np.float32, np.float64) if np.array_equal(a.astype(t).astype(float), a)])
        ctx.cover("c:" + t.__name__)
        return a.astype(t)
    ctx.cover("c:" + k)
    if k == "longdouble":
        return a.astype(np.longdouble)
    if k == "big-endian":
        return a.astype(ctx.pick(">f8", ">f4") if np.array_equal(a.astype(">f4").astype(float), a) else ">f8")
    if k == "list":
        return a.tolist()
    if k == "ints-list":
        return a.astype(int).tolist()
    if k == "tuple":
        return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    if k == "read-only":
        a.flags.writeable = False
        return a
    if k == "memmap":
        f = os.path.join(ctx.dir, f"m{ctx.i(0, 10**9)}")
        a.tofile(f)
        return np.memmap(f, mode="r", dtype=float, shape=a.shape)
    if k == "unmasked":
        return np.ma.array(a)
    if k == "subclass":
        return a.view(Sub)
    if k == "protocol":
        return Proto(a)
    if k == "fortran":
        return np.asfortranarray(a) if a.ndim > 1 else np.asfortranarray(np.stack([a, a + 1], 1))[:, 0]
    if k == "reversed":
        s = (slice(None, None, -1),) * a.ndim
        return a[s].copy()[s]
    if k == "strided":
        return np.repeat(a, 3, axis=-1)[..., 1::3]
    if k == "object":
        return a.astype(int).astype(object)
    if k == "column":
        return a[:, None]
    return array.array("d", a.tolist())


def setting(ctx, v):
    """the same setting in another type"""
    if isinstance(v, (bool, np.bool_)):
        ctx.cover("s:numpy")
        return ctx.pick(np.bool_(v), int(v))
    if isinstance(v, str):
        ctx.cover("s:str")
        return np.str_(v)
    if isinstance(v, int):
        ctx.cover("s:numpy")
        return ctx.pick(*[t(v) for t in INTS if np.iinfo(t).min <= v <= np.iinfo(t).max])
    if isinstance(v, float):
        if v == int(v) and ctx.chance(0.5):
            ctx.cover("s:int")
            return ctx.pick(int(v), np.int16(v) if abs(v) < 30000 else np.int64(v))
        ctx.cover("s:numpy")
        return ctx.pick(*[t(v) for t in (np.float16, np.float32, np.float64, np.longdouble) if float(t(v)) == v])
    return v


def parameters(ctx, p):
    if isinstance(p, dict):
        return {k: parameters(ctx, [v])[0] for k, v in p.items()}
    out = []
    for v in p:
        if ctx.chance(0.1):
            ctx.cover("s:fraction")
            out.append(np.float64(v))
        else:
            out.append(setting(ctx, float(v)))
    return out


def dyadic(ctx, lo, hi):
    return ctx.i(lo * 4, hi * 4) / 4


def state(o):
    """what is exposed, as float64 numbers"""
    r = {}
    for k in ("lags", "semivariance", "variogram_model_parameters", "delta", "sigma", "epsilon", "Q1", "Q2", "cR", "X_ADJUSTED", "Y_ADJUSTED",
              "Z_ADJUSTED"):
        v = getattr(o, k, None)
        r[k] = None if v is None else np.asarray(v, float)
    return r


def integers(ctx, shape, lo=-100, hi=100):
    if ctx.chance(0.3):
        lo, hi = ctx.pick((0, 200), (0, 100), (-30000, 30000), (0, 60000), (-128, 127))
    return ctx.rng.integers(lo, hi + 1, size=shape).astype(float)


def model(ctx, ext, var):
    name = ctx.pick("linear", "power", "gaussian", "spherical", "exponential", "hole-effect")
    nug = ctx.pick(0.0, 0.5, 1.0, 16.0)
    if name == "linear":
        par = [ctx.pick(1.0, 0.5, 3.0), nug]
        d = dict(slope=par[0], nugget=nug)
    elif name == "power":
        par = [ctx.pick(1.0, 0.5, 3.0), ctx.pick(0.5, 1.0, 1.5), nug]
        d = dict(scale=par[0], exponent=par[1], nugget=nug)
    else:
        par = [nug + ctx.pick(1.0, 8.0, 100.0), float(max(1, int(ext * ctx.pick(0.3, 0.6)))), nug]
        if name == "gaussian":
            par[2] = ctx.pick(0.5, 1.0)
            par[0] = par[2] + 8.0
        d = ctx.pick(dict(sill=par[0], range=par[1], nugget=par[2]), dict(psill=par[0] - par[2], range=par[1], nugget=par[2]))
    return dict(variogram_model=name, variogram_parameters=ctx.pick(par, d))


def agree(ctx, what, a, b):
    """two sets of results (the same to rounding: alignment of the arrays may matter in BLAS)"""
    for u, v in zip(a, b):
        ctx.require(np.shape(u) == np.shape(v), f"{what}: shape {np.shape(v)} instead of {np.shape(u)}", key="shape")
        ctx.require(np.asarray(v).dtype == np.float64, f"{what}: results of type {np.asarray(v).dtype}", key="dtype")
        ctx.require(identical(u, v), f"{what}: other results for the same numbers", key="results", want=u, got=v)


def kriging(ctx):
    cls = ctx.pick("ok", "uk", "ok3", "uk3")
    d = 3 if cls.endswith("3") else 2
    geo = cls == "ok" and ctx.chance(0.25)
    n = ctx.i(5, 20)
    while True:
        X = np.stack([integers(ctx, n) for _ in range(d)], 1)
        if geo:
            X = np.stack([ctx.rng.integers(-180, 181, n), ctx.rng.integers(-90, 91, n)], 1).astype(float)
        if len(np.unique(X, axis=0)) == n and all(np.ptp(X[:, k]) > 3 for k in range(d)):
            break
    ctx.cover("cls:" + cls)
    ext = float(np.ptp(X, axis=0).max())
    z = integers(ctx, n)
    kw = model(ctx, 90.0 if geo else ext, 1.0)
    if ctx.chance(0.25):
        kw.pop("variogram_parameters")
        ctx.cover("automatic")
    set_ = {}
    if ctx.chance(0.4):
        set_["nlags"] = ctx.i(3, 9)
    if ctx.chance(0.3):
        set_["weight"] = True
    if ctx.chance(0.3):
        set_["exact_values"] = False
    if ctx.chance(0.15):
        set_["pseudo_inv"] = True
        set_["pseudo_inv_type"] = ctx.pick("pinv", "pinvh")
    if geo:
        set_["coordinates_type"] = "geographic"
        ctx.cover("geographic")
    elif ctx.chance(0.6):
        for t in (("", ) if d == 2 else ("_y", "_z")):
            set_["anisotropy_scaling" + t] = ctx.pick(2.0, 0.5, 3.0, 1.0)
        for t in (("", ) if d == 2 else ("_x", "_y", "_z")):
            set_["anisotropy_angle" + t] = float(ctx.i(-90, 90))
    if cls == "ok" and ctx.chance(0.4):
        set_["enable_statistics"] = True
        ctx.cover("statistics")
    lo, hi = X.min(0), X.max(0)
    nums, terms, fun = {}, [], None
    if cls.startswith("uk"):
        for t in ("regional_linear", "specified", "functional") + (("point_log", "external_Z") if d == 2 else ()):
            if ctx.chance(0.35):
                terms.append(t)
                ctx.cover("drift:" + t)
        if len(terms) > 2:
            terms = terms[:2]
        kw["drift_terms"] = terms
        if "specified" in terms:
            nums["specified_drift"] = [integers(ctx, n)]
        if "functional" in terms:
            kw["functional_drift"] = [lambda *x: (x[0] - lo[0]) * (x[1] - hi[1])]
        if "point_log" in terms:
            nums["point_drift"] = np.array([[hi[0] + 7, lo[1] - 3, 2.0], [lo[0] - 5, hi[1], -1.0]])[:ctx.i(1, 2)]
        if "external_Z" in terms:
            gx = np.arange(lo[0] - 2, hi[0] + 4 + np.ptp(X[:, 0]) // 4, max(1, np.ptp(X[:, 0]) // 4))
            gy = np.arange(lo[1] - 2, hi[1] + 4 + np.ptp(X[:, 1]) // 3, max(1, np.ptp(X[:, 1]) // 3))
            nums["external_drift"] = integers(ctx, (len(gy), len(gx)))
            nums["external_drift_x"], nums["external_drift_y"] = gx, gy

    def converted():
        r = {k: ([other(ctx, v[0])] if k == "specified_drift" else other(ctx, v)) for k, v in nums.items()}
        for k, v in {**kw, **set_}.items():
            if k == "variogram_parameters":
                r[k] = parameters(ctx, v)
            elif (k in set_ and k != "exact_values") or k == "variogram_model":   # (exact_values has to be a bool)
                r[k] = setting(ctx, v)
            else:
                r[k] = v
        return r
    C = gen.classes()[cls]
    data = [X[:, k] for k in range(d)] + [z]
    ctx.note(cls=cls, X=X, z=z, kw={k: str(v) for k, v in {**kw, **set_, **nums}.items()})
    try:
        base = C(*data, **kw, **set_, **nums)
    except (ValueError, np.linalg.LinAlgError):
        raise Skip("fit")
    ctx.events += 1
    objs = []
    for _ in range(2):
        given, k = [other(ctx, a) for a in data], converted()
        before = freeze([np.asarray(g) for g in given]), {q: freeze(np.asarray(w)) for q, w in k.items() if q in nums and q != "specified_drift"}
        what = f"{C.__name__} of {[type(g).__name__ + ':' + str(getattr(g, 'dtype', '')) for g in given]}, { {q: repr(w)[:60] for q, w in k.items()} }"
        o = ctx.call(what, C, *given, **k)
        after = freeze([np.asarray(g) for g in given]), {q: freeze(np.asarray(w)) for q, w in k.items() if q in nums and q != "specified_drift"}
        ctx.require(before == after, what + " modified its arguments", key="modified")
        objs.append((what, o))

    def same_state(what):
        s0 = state(base)
        for w, o in objs:
            for q, v in state(o).items():
                ctx.require((v is None) == (s0[q] is None) and (v is None or identical(v, s0[q])), f"{what} {w}: {q} differs", key="state",
                            got=v, want=s0[q])
    same_state("")

    def execute():
        style = ctx.pick("points", "grid", "masked")
        ctx.cover("style:" + style)
        m = [ctx.i(2, 4) for _ in range(d)] if style != "points" else [ctx.i(1, 6)] * d
        ax = []
        for k in range(d):
            a = ctx.rng.integers(int(lo[k]), int(hi[k]) + 1, m[k]).astype(float)
            if style != "points":
                a = np.sort(a)
            ax.append(a)
        if style == "points" and ctx.chance(0.3):
            q = X[ctx.rng.integers(0, n, m[0])]
            ax = [q[:, k] for k in range(d)]
        ek = {}
        if style == "masked":
            ek["mask"] = ctx.rng.random(m[::-1]) < 0.3
        if "specified" in terms:
            ek["specified_drift_arrays"] = [integers(ctx, m[::-1] if style != "points" else m[0]) * ctx.pick(1.0, 0.5)]
        bs = ["vectorized", "loop"] + (["C"] if cls == "ok" and base.variogram_model != "hole-effect" else [])
        if cls in ("ok", "ok3") and ctx.chance(0.3) and not set_.get("pseudo_inv"):
            ek["n_closest_points"] = ctx.i(2, n)
            bs = bs[1:]
            ctx.cover("window")
        b = ctx.pick(*bs)
        ctx.cover("backend:" + b)
        try:
            want = base.execute(style, *ax, backend=b, **ek)
        except np.linalg.LinAlgError:
            raise Skip("singular")
        ctx.events += 1
        for w, o in objs:
            k = dict(ek)
            if "mask" in k:
                k["mask"] = gen.mask_form(ctx, k["mask"])
            if "specified_drift_arrays" in k:
                k["specified_drift_arrays"] = [other(ctx, ek["specified_drift_arrays"][0])]
            if "n_closest_points" in k:
                k["n_closest_points"] = setting(ctx, k["n_closest_points"])
            given = [other(ctx, a) for a in ax]
            s = setting(ctx, style) if ctx.chance(0.5) else style
            what = f"execute({s!r}, {[type(g).__name__ + ':' + str(getattr(g, 'dtype', '')) for g in given]}, {b}, { {q: repr(v)[:60] for q, v in k.items()} })"
            before = freeze([np.asarray(g) for g in given])
            r = ctx.call(what, o.execute, s, *given, backend=setting(ctx, b) if ctx.chance(0.5) else b, **k)
            ctx.require(freeze([np.asarray(g) for g in given]) == before, what + " modified its arguments", key="modified")
            agree(ctx, f"{cls} {what} of {w}", want, r)
    execute()
    if ctx.chance(0.5):
        k = model(ctx, ext, 1.0)
        if ctx.chance(0.3):
            k.pop("variogram_parameters")
        for t in ("nlags", "weight"):
            if ctx.chance(0.3):
                k[t] = {"nlags": ctx.i(3, 9), "weight": True}[t]
        if not geo:
            for t in set_:
                if t.startswith("aniso"):
                    k[t] = ctx.pick(2.0, 4.0) if "scaling" in t else float(ctx.i(-180, 180))
        try:
            base.update_variogram_model(**k)
        except (ValueError, np.linalg.LinAlgError):
            raise Skip("fit")
        for w, o in objs:
            c = {q: parameters(ctx, v) if q == "variogram_parameters" else setting(ctx, v) for q, v in k.items()}
            ctx.call(f"update_variogram_model({ {q: repr(v)[:60] for q, v in c.items()} })", o.update_variogram_model, **c)
        ctx.cover("update")
        same_state("updated")
        execute()


def wrapper(ctx):
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LinearRegression
    from sklearn.naive_bayes import GaussianNB
    three = ctx.chance(0.4)
    d, n = 3 if three else 2, ctx.i(10, 25)
    while True:
        X = ctx.rng.integers(0, 100, size=(n, d)).astype(float)
        if len(np.unique(X, axis=0)) == n:
            break
    P, y = integers(ctx, (n, 2), 0, 50), integers(ctx, n)
    kw = model(ctx, 100.0, 1.0)
    kw.update(method=ctx.pick("ordinary", "universal") + ("3d" if three else ""))
    if kw["method"].startswith("universal"):
        kw["drift_terms"] = ["regional_linear"]
    if ctx.chance(0.5):
        kw["n_closest_points"] = ctx.i(2, 8)
    if ctx.chance(0.3):
        kw["anisotropy_scaling"] = (2.0, 0.5)
        kw["anisotropy_angle"] = (30.0, 10.0, 45.0)
    Q, R = ctx.rng.integers(0, 100, size=(5, d)).astype(float), integers(ctx, (5, 2), 0, 50)
    part = ctx.pick("krige", "regression", "classification")
    ctx.cover("part:" + part)
    labels = np.arange(n) % 3
    ctx.rng.shuffle(labels)
    ctx.note(part=part, kw={k: str(v) for k, v in kw.items()}, X=X, y=y, P=P)
    arrays = ("list", "tuple", "ints-list", "array", "protocol", "column", "memmap") + (() if part == "krige" else ("object", "unmasked", "longdouble", "float", "big-endian"))

    def run(conv):
        a = (lambda v: other(ctx, v, avoid=arrays)) if conv else np.array
        k = {q: parameters(ctx, v) if q == "variogram_parameters" else setting(ctx, v) if not isinstance(v, (tuple, list)) else v
             for q, v in kw.items()} if conv else kw
        t = y if part != "classification" else labels.astype(ctx.pick(*INTS, float, np.float32)) if conv else labels
        if conv and part != "classification":
            t = a(t)
        elif conv and ctx.chance(0.3):
            t = np.repeat(t, 2)[::2]
        if part == "krige":
            e = Krige(**k)
            e.fit(a(X), t)
            out = [e.predict(a(Q))]
            if "n_closest_points" in k and "universal" not in kw["method"] and ctx.chance(0.5):
                e.predict(a(Q))
        else:
            e = (RegressionKriging(LinearRegression(), **k) if part == "regression" else ClassificationKriging(GaussianNB(), **k))
            e.fit(a(P), a(X), t)
            p = np.asarray(e.predict(a(R), a(Q)))
            out = [p.astype(float), e.krige_residual(a(Q)), np.asarray(e.score(a(P), a(X), t))]
        return out
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            want = run(False)
        except (ValueError, np.linalg.LinAlgError):
            raise Skip("fit")
        ctx.events += 1
        got = ctx.call(f"{part} with other containers", run, True)
    for u, v in zip(want, got):
        tol = 1e-6 if part != "krige" else 1e-9
        ctx.close(f"{part} with other containers", np.asarray(v, float), np.asarray(u, float), tol * max(1.0, float(np.abs(u).max())), key="results")


def files(ctx):
    from pykrige import kriging_tools as kt
    ny, nx = ctx.i(2, 6), ctx.i(2, 6)
    dx = float(ctx.pick(1, 2, 5, 0.5, 40, 100, 150))
    x0, y0 = ctx.pick(0, -100, -128, ctx.i(-50, 50), ctx.i(1990, 2040)), ctx.pick(0, -100, -128, ctx.i(-50, 50), ctx.i(1990, 2040))
    x, y = x0 + dx * np.arange(nx), y0 + dx * np.arange(ny)
    z = integers(ctx, (ny, nx))
    asc = ctx.chance(0.5)
    ctx.cover("part:asc" if asc else "part:zmap")
    fn, rd = (kt.write_asc_grid, kt.read_asc_grid) if asc else (kt.write_zmap_grid, kt.read_zmap_grid)
    kw = dict(no_data=ctx.pick(-999.0, -9999.0, 1024.0))
    if asc and ctx.chance(0.5):
        kw["style"] = 2
    if not asc:
        kw["coord_sys"] = "WGS 84"
    ctx.note(x=x, y=y, z=z, kw=kw)

    def run(*a, **k):
        f = os.path.join(ctx.dir, "grid")
        fn(*a, filename=f, **k)
        with open(f) as t:
            text = t.read()
        return [np.asarray(v, float) if not isinstance(v, str) else v for v in rd(f)], text
    want, text = run(x, y, z, **kw)
    ctx.events += 1
    for _ in range(8):
        g = [other(ctx, x), other(ctx, y), other(ctx, z)]
        k = {q: setting(ctx, v) for q, v in kw.items()}
        what = f"{fn.__name__}({[type(t).__name__ + ':' + str(getattr(t, 'dtype', '')) for t in g]}, {k})"
        before = freeze([np.asarray(t) for t in g])
        got, _ = ctx.call(what, run, *g, **k)
        ctx.require(freeze([np.asarray(t) for t in g]) == before, what + " modified its arguments", key="modified")
        for u, v in zip(want, got):
            ctx.require(u == v if isinstance(u, str) else np.array_equal(u, v), f"{what}: reads back {v!r} instead of {u!r}", key="results")


def functions(ctx):
    from pykrige import core, variogram_models as vm
    if ctx.chance(0.5):
        k = model(ctx, 100.0, 1.0)
        name = k["variogram_model"]
        p = core._make_variogram_parameter_list(name, k["variogram_parameters"])
        f = getattr(vm, name.replace("-", "_") + "_variogram_model")
        h = ctx.rng.integers(0, 120, size=ctx.i(1, 8)).astype(float)
        want = f(p, h)
        ctx.cover("part:models")
        ctx.note(name=name, p=p, h=h)
        for _ in range(4):
            g = other(ctx, h, avoid=("list", "tuple", "ints-list", "array", "protocol", "object", "int"))
            if ctx.chance(0.3):
                g = h.astype(ctx.pick(np.int32, np.int64))
            t = np.asarray(g).dtype
            # (distances of a narrow floating point type give results of that type)
            tol = 1e-12 if t.kind != "f" or t.itemsize >= 8 else float(np.finfo(t.newbyteorder("=")).eps) * 16
            got = ctx.call(f"{f.__name__}({p}, {g!r})", f, p, g)
            ctx.close(f"{f.__name__} of {g!r}", np.asarray(got, float).ravel(), want, tol * max(1.0, float(np.abs(want).max())), key="models")
    else:
        m = ctx.i(1, 6)
        a = [ctx.rng.integers(-180, 361, m), ctx.rng.integers(-90, 91, m), ctx.rng.integers(-180, 361, m), ctx.rng.integers(-90, 91, m)]
        a = [v.astype(float) for v in a]
        want = core.great_circle_distance(*a)
        ctx.cover("part:distance")
        ctx.note(a=a)
        for _ in range(4):
            g = [other(ctx, v, avoid=("column", "object", "float", "list", "tuple", "ints-list", "array", "protocol", "int")) for v in a]
            got = ctx.call(f"great_circle_distance({g!r})", core.great_circle_distance, *g)
            # (narrow types: rounded accordingly)
            size = min(np.asarray(v).dtype.itemsize if np.asarray(v).dtype.kind == "f" else 8 for v in g)
            ctx.close(f"great_circle_distance({g!r})", np.asarray(got, float), want, 1e-9 if size >= 8 else 0.1, key="distance")


def case(ctx):
    with grids.Scratch() as d:
        ctx.dir = str(d)
        ctx.pick(kriging, kriging, kriging, kriging, kriging, wrapper, files, files, functions)(ctx)
