import contextlib
import io
import os
import re

import numpy as np
from vf import gen, grids
from vf.main import Skip
from vf.props.C14 import freeze, identical, state
from vf.props.C32 import Shown

RULE = ("Random calls of every documented constructor, update, execute, wrapper and grid file function are made three times: with only the "
        "arguments that differ from the documented default given by name, with all arguments given by name, and with a random number of "
        "leading arguments given by position in the documented order; state, results, printed text, figures and files of the three "
        "have to be bitwise the same.")
CASES = {"quick": 1500, "thorough": 20000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "call:init", "call:update", "call:execute", "call:krige", "call:rk",
            "call:ck", "call:write_asc", "call:read_asc", "call:write_zmap", "call:read_zmap", "call:models", "call:distance", "automatic",
            "nlags", "weight", "verbose", "plotting", "statistics", "pinv:pinvh", "default-file", "window", "style:masked", "drift:combined",
            "positional", "everything-positional", "wrapper-3d"]

VARIO = [("variogram_model", "linear"), ("variogram_parameters", None), ("variogram_function", None), ("nlags", 6), ("weight", False)]
AN2 = [("anisotropy_scaling", 1.0), ("anisotropy_angle", 0.0)]
AN3 = [("anisotropy_scaling_y", 1.0), ("anisotropy_scaling_z", 1.0), ("anisotropy_angle_x", 0.0), ("anisotropy_angle_y", 0.0),
       ("anisotropy_angle_z", 0.0)]
SHOW = [("verbose", False), ("enable_plotting", False)]
TAIL = [("exact_values", True), ("pseudo_inv", False), ("pseudo_inv_type", "pinv")]
INIT = {
    "ok": VARIO + AN2 + SHOW + [("enable_statistics", False), ("coordinates_type", "euclidean")] + TAIL,
    "uk": VARIO + AN2 + [("drift_terms", None), ("point_drift", None), ("external_drift", None), ("external_drift_x", None),
                         ("external_drift_y", None), ("specified_drift", None), ("functional_drift", None)] + SHOW + TAIL,
    "ok3": VARIO + AN3 + SHOW + TAIL,
    "uk3": VARIO + AN3 + [("drift_terms", None), ("specified_drift", None), ("functional_drift", None)] + SHOW + TAIL,
}
UPDATE = {c: VARIO + (AN3 if c.endswith("3") else AN2) for c in INIT}
EXECUTE = {c: [("mask", None), ("backend", "vectorized"), ("specified_drift_arrays" if c.startswith("uk") else "n_closest_points", None)]
           for c in INIT}
REST = [("verbose", False), ("exact_values", True), ("pseudo_inv", False), ("pseudo_inv_type", "pinv"), ("variogram_parameters", None),
        ("variogram_function", None), ("anisotropy_scaling", (1.0, 1.0)), ("anisotropy_angle", (0.0, 0.0, 0.0)),
        ("enable_statistics", False), ("coordinates_type", "euclidean"), ("drift_terms", None), ("point_drift", None),
        ("ext_drift_grid", (None, None, None)), ("functional_drift", None)]
KRIGE = [("method", "ordinary"), ("variogram_model", "linear"), ("nlags", 6), ("weight", False), ("n_closest_points", 10)] + REST
MIXED = [("method", "ordinary"), ("variogram_model", "linear"), ("n_closest_points", 10), ("nlags", 6), ("weight", False)] + REST


def forms(ctx, table, kw, first=0):
    """[(positional, named)]: by name; everything by name; some by position"""
    kw = {k: v for k, v in kw.items() if not (any(k == n and v is d for n, d in table))}
    names = [n for n, _ in table]
    extra = set(kw) - set(names)
    if extra:
        raise RuntimeError(f"no such parameter: {extra}")
    full = {n: kw.get(n, d) for n, d in table}
    k = ctx.pick(ctx.i(1, len(names)), ctx.i(1, len(names)), len(names))
    if k == len(names):
        ctx.cover("everything-positional")
    ctx.cover("positional")
    rest = {n: v for n, v in kw.items() if n in names[k:]}
    return [("by name", (), kw), ("all by name", (), full), (f"{k} by position", tuple(full[n] for n in names[:k]), rest)]


def told(fn, *a, **k):
    """(result, printed text, figures)"""
    out = io.StringIO()
    with Shown() as sh, contextlib.redirect_stdout(out):
        r = fn(*a, **k)
    return r, out.getvalue(), sh.figs


def figures(f):
    return [[np.asarray(p).tobytes() for p in g] for g in f]


def same(ctx, what, a, b):
    ctx.require(a[1] == b[1], f"{what}: prints something else", key="printed")
    ctx.require(figures(a[2]) == figures(b[2]), f"{what}: shows other figures", key="figures")


def kriging(ctx):
    s = gen.scenario(ctx, n=(5, 16), pinv=0.3, geo=None)
    C = gen.classes()[s.cls]
    d = s.dim
    kw = s.kwargs()
    auto = ctx.chance(0.4) and s.vario.fn is None
    if auto:
        kw.pop("variogram_parameters", None)
        if ctx.chance(0.3):
            kw.pop("variogram_model", None)
        ctx.cover("automatic")

    def extras(k, init):
        if ctx.chance(0.4):
            k["nlags"] = ctx.i(2, 9)
            ctx.cover("nlags")
        if ctx.chance(0.3):
            k["weight"] = True
            ctx.cover("weight")
        if init:
            for n, c, p in (("verbose", "verbose", 0.2), ("enable_plotting", "plotting", 0.1),
                            ("enable_statistics", "statistics", 0.4 if s.cls == "ok" else 0)):
                if ctx.chance(p):
                    k[n] = True
                    ctx.cover(c)
            if not s.pinv and ctx.chance(0.1):
                k["pseudo_inv_type"] = "pinvh"
    extras(kw, True)
    ctx.note(kwargs={k: str(v)[:80] for k, v in kw.items()})
    data = (*s.coords(), s.z)
    objs = []
    for how, a, k in forms(ctx, INIT[s.cls], kw):
        try:
            objs.append((how, told(C, *data, *a, **k)))
        except (ValueError, np.linalg.LinAlgError) as e:
            if how != "by name":
                ctx.require(False, f"{C.__name__}(...) {how}: {e!r}", key="raised")
            raise Skip("fit")
    ctx.cover("call:init")

    def agree(what):
        st = state(objs[0][1][0])
        for how, r in objs[1:]:
            same(ctx, f"{what} {how}", objs[0][1], r)
            ctx.require(state(r[0]) == st, f"{what} {how}: another object than with only the differing arguments by name", key="state")
    agree(C.__name__)
    reset = [o for _, (o, _, _) in objs]

    def execute():
        q = gen.request(ctx, s, large=False)
        ek = dict(q.kw)
        b = ctx.pick(*gen.backends(s)) if not auto else ctx.pick("loop", "vectorized")
        if s.cls in ("ok", "ok3") and ctx.chance(0.4):
            b = ctx.pick(*[x for x in gen.backends(s, True) if x != "C" or not auto])
            ek["n_closest_points"] = ctx.i(2, len(s.z))
            ctx.cover("window")
        if b != "vectorized":
            ek["backend"] = b
        want = None
        # the points come first, and have names, too
        lead = ["style", "xpoints", "ypoints"] + (["zpoints"] if d == 3 else [])
        for (how, a, k), o in zip(forms(ctx, EXECUTE[s.cls], ek), reset):
            if not a and ctx.chance(0.5):
                r = ctx.call(f"execute {how}, points by name", told, o.execute, **dict(zip(lead, q.args)), **k)
            else:
                r = ctx.call(f"execute {how}", told, o.execute, *q.args, *a, **k)
            if want is None:
                want = r
                continue
            same(ctx, f"execute {how}", want, r)
            ctx.require(identical(r[0][0], want[0][0]) and identical(r[0][1], want[0][1]), f"execute {how}: other results", key="results")
        ctx.cover("call:execute")
    execute()
    if ctx.chance(0.7):
        v = s.vario if ctx.chance(0.3) else gen.vario(ctx, s.ext, float(np.var(s.z)), custom=0.15, nn=s.ext / len(s.z))
        uk = v.kw()
        uk.setdefault("variogram_model", "linear")
        model = uk.pop("variogram_model")
        if v.fn is None and ctx.chance(0.5):
            uk.pop("variogram_parameters", None)
        extras(uk, False)
        if not s.geo and ctx.chance(0.5):
            for n, dv in AN3 if d == 3 else AN2:
                if ctx.chance(0.6):
                    uk[n] = ctx.pick(2.0, 0.5, 3) if dv == 1.0 else ctx.pick(30.0, -45, 90.0)
        ctx.note(update={k: str(w)[:80] for k, w in uk.items()})
        new = []
        for (how, a, k), o in zip(forms(ctx, UPDATE[s.cls][1:], uk), reset):
            try:
                if not a and ctx.chance(0.5):
                    r = told(o.update_variogram_model, variogram_model=model, **k)
                else:
                    r = told(o.update_variogram_model, model, *a, **k)
            except (ValueError, np.linalg.LinAlgError) as e:
                if how != "by name":
                    ctx.require(False, f"update_variogram_model {how}: {e!r}", key="raised")
                raise Skip("fit")
            new.append((how, (o, r[1], r[2])))
        objs[:] = new
        ctx.cover("call:update")
        agree("update_variogram_model")
        s.vario, auto = v, True         # (no C backend from here on)
        execute()


def wrapper(ctx):
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from pykrige.ck import ClassificationKriging
    from sklearn.linear_model import LinearRegression
    from sklearn.tree import DecisionTreeClassifier
    three = ctx.chance(0.4)
    n, d = ctx.pick(ctx.i(8, 25), ctx.i(8, 25), ctx.i(30, 90)), 3 if three else 2
    X, P = ctx.rng.uniform(0, 10, size=(n, d)), ctx.rng.normal(size=(n, 2))
    y = ctx.rng.normal(size=n) + X[:, 0]
    uni = ctx.chance(0.4)
    kw = {}
    if three or uni:
        kw["method"] = ("universal" if uni else "ordinary") + ("3d" if three else "")
    for name, v, p in (("variogram_model", ctx.pick("spherical", "exponential", "power"), 0.6), ("nlags", ctx.i(3, 9), 0.5),
                       ("weight", True, 0.3), ("n_closest_points", ctx.i(2, 9), 0.4), ("exact_values", False, 0.2),
                       ("pseudo_inv", True, 0.2), ("pseudo_inv_type", "pinvh", 0.2), ("verbose", True, 0.2),
                       ("enable_statistics", True, 0.2), ("anisotropy_scaling", (ctx.u(0.5, 2), ctx.u(0.5, 2)), 0.4),
                       ("anisotropy_angle", (ctx.u(0, 90), ctx.u(0, 90), ctx.u(0, 90)), 0.4)):
        if ctx.chance(p):
            kw[name] = v
    if ctx.chance(0.4):
        kw["variogram_model"] = "exponential"
        kw["variogram_parameters"] = [float(np.var(y)) + 0.1, 5.0, ctx.pick(0.0, 0.1)]
    if not three and not uni and ctx.chance(0.2):
        kw["coordinates_type"] = "geographic"
        kw.pop("anisotropy_scaling", None)
    if uni:
        kw["drift_terms"] = ctx.pick(["regional_linear"], ["functional"])
        if kw["drift_terms"] == ["functional"]:
            kw["functional_drift"] = [(lambda x, y, z: x * y) if three else (lambda x, y: x * y)]
        elif not three and ctx.chance(0.4):
            kw["drift_terms"] = ["point_log"]
            kw["point_drift"] = [[20., 3., 1.]]
        elif not three and ctx.chance(0.5):
            kw["drift_terms"] = ["external_Z"]
            kw["ext_drift_grid"] = (ctx.rng.normal(size=(4, 5)), np.linspace(-1, 11, 5), np.linspace(-1, 11, 4))
    kind = ctx.pick("krige", "rk", "ck")
    depth = ctx.pick(1, 2, None)       # (a full tree leaves no residuals)
    if three:
        ctx.cover("wrapper-3d")
    ctx.note(kind=kind, kw={k: str(v)[:80] for k, v in kw.items()}, X=X, y=y)
    Q, R = ctx.rng.uniform(0, 10, size=(6, d)), ctx.rng.normal(size=(6, 2))
    labels = np.digitize(y, np.quantile(y, [0.33, 0.66]))
    table, model = (KRIGE, None) if kind == "krige" else (MIXED, LinearRegression if kind == "rk" else DecisionTreeClassifier)
    want = None
    for how, a, k in forms(ctx, table, kw):
        if kind == "krige":
            e = ctx.call(f"Krige {how}", Krige, *a, **k)
            full = {t: kw.get(t, dv) for t, dv in KRIGE}
            got = e.get_params()
            for t, v in full.items():
                ctx.require(t in got and (got[t] is v or freeze(got[t]) == freeze(v)), f"Krige {how}: parameter {t}", key="params")
            calls = lambda: (e.fit(X, y), e.predict(Q), e.predict(x=Q))[1:]
        else:
            m = model(**({"random_state": 0, "max_depth": depth} if kind == "ck" else {}))
            name = "regression_model" if kind == "rk" else "classification_model"
            cls = RegressionKriging if kind == "rk" else ClassificationKriging
            if a or ctx.chance(0.5):
                e = ctx.call(f"{cls.__name__} {how}", cls, m, *a, **k)
            else:
                e = ctx.call(f"{cls.__name__} {how}", cls, **{name: m}, **k)
            t = y if kind == "rk" else labels
            if ctx.chance(0.5):
                calls = lambda: (e.fit(P, X, t), e.predict(R, Q), e.krige_residual(Q), np.asarray(e.score(P, X, t)))[1:]
            else:
                calls = lambda: (e.fit(p=P, x=X, y=t), e.predict(p=R, x=Q), e.krige_residual(x=Q), np.asarray(e.score(p=P, x=X, y=t)))[1:]
        try:
            r = told(calls)
        except (ValueError, np.linalg.LinAlgError) as ex:
            if want is not None:
                ctx.require(False, f"{kind} {how}: {ex!r}", key="raised")
            raise Skip("fit")
        if want is None:
            want = r
            continue
        same(ctx, f"{kind} {how}", want, r)
        for u, v in zip(r[0], want[0]):
            ctx.require(identical(np.asarray(u), np.asarray(v)), f"{kind} {how}: other results", key="results")
    ctx.cover("call:" + kind)


def files(ctx):
    from pykrige import kriging_tools as kt
    ny, nx = ctx.i(2, 7), ctx.i(2, 7)
    dx = ctx.lu(0.1, 10)
    x, y = ctx.u(-9, 9) + dx * np.arange(nx), ctx.u(-9, 9) + dx * np.arange(ny)
    z = ctx.rng.normal(size=(ny, nx)) * 10
    if ctx.chance(0.5):
        z = np.ma.array(z, mask=ctx.rng.random((ny, nx)) < 0.3)
    asc = ctx.chance(0.5)
    kw = {}
    if ctx.chance(0.7):
        kw["filename"] = "other.txt"
    if ctx.chance(0.5):
        kw["no_data"] = ctx.pick(-9999.0, -1.0, 1e6, -5)
    if asc and ctx.chance(0.4):
        kw["style"] = 2
    if not asc and ctx.chance(0.5):
        kw["coord_sys"] = ctx.pick("EPSG:4326", "WGS 84 / UTM zone 32N")
    table = [("filename", "output.asc" if asc else "output.zmap"), ("no_data", -999.0), ("style", 1) if asc else ("coord_sys", "<null>")]
    fn = kt.write_asc_grid if asc else kt.write_zmap_grid
    want = None
    here = os.getcwd()
    with grids.Scratch() as d:
        os.chdir(str(d))
        try:
            for how, a, k in forms(ctx, table, kw):
                for f in os.listdir("."):
                    os.remove(f)
                if not a and ctx.chance(0.5):
                    ctx.call(f"{fn.__name__} {how}", fn, x=x, y=y, z=z, **k)
                else:
                    ctx.call(f"{fn.__name__} {how}", fn, x, y, z, *a, **k)
                made = {}
                for f in os.listdir("."):
                    t = open(f, "rb").read()
                    made[f] = re.sub(rb"CREATION (DATE|TIME):.*", b"", t)
                name = kw.get("filename", table[0][1])
                if name == table[0][1]:
                    ctx.cover("default-file")
                ctx.require(list(made) == [name], f"{fn.__name__} {how}: wrote {list(made)}, not {name}", key="filename")
                if want is None:
                    want = made
                ctx.require(made == want, f"{fn.__name__} {how}: another file", key="file")
            ctx.cover("call:write_asc" if asc else "call:write_zmap")
            if asc:
                foot = ctx.pick(0, 0, 1, 2)
                with open(name, "a") as f:
                    f.write("".join(f"\nnote {i}" for i in range(foot)))
                k = {"footer": foot} if foot else {}
                r = [read(ctx, kt.read_asc_grid, name, a, k, how) for how, a, k in forms(ctx, [("footer", 0)], k)]
                ctx.cover("call:read_asc")
            else:
                r = [ctx.call("read_zmap_grid", kt.read_zmap_grid, name), ctx.call("read_zmap_grid", kt.read_zmap_grid, filename=name)]
                ctx.cover("call:read_zmap")
            for u in r[1:]:
                for p, q in zip(u, r[0]):
                    ctx.require(identical(np.asarray(p), np.asarray(q)), "reading: other results", key="results")
        finally:
            os.chdir(here)


def read(ctx, fn, name, a, k, how):
    if a or ctx.chance(0.5):
        return ctx.call(f"{fn.__name__} {how}", fn, name, *a, **k)
    return ctx.call(f"{fn.__name__} {how}", fn, filename=name, **k)


def functions(ctx):
    from pykrige import core, variogram_models as vm
    n = ctx.i(1, 9)
    if ctx.chance(0.4):
        a = [ctx.rng.uniform(-180, 180, n), ctx.rng.uniform(-89, 89, n), ctx.rng.uniform(-180, 180, n), ctx.rng.uniform(-89, 89, n)]
        names = ["lon1", "lat1", "lon2", "lat2"]
        o = ctx.rng.permutation(4)
        u = ctx.call("great_circle_distance", core.great_circle_distance, *a)
        v = ctx.call("great_circle_distance, by name", core.great_circle_distance, **{names[j]: a[j] for j in o})
        ctx.require(identical(np.asarray(u), np.asarray(v)), "great_circle_distance: by name", key="results")
        c = ctx.rng.uniform(0, 2, n)
        u = ctx.call("euclid3_to_great_circle", core.euclid3_to_great_circle, c)
        v = ctx.call("euclid3_to_great_circle", core.euclid3_to_great_circle, euclid3_distance=c)
        ctx.require(identical(np.asarray(u), np.asarray(v)), "euclid3_to_great_circle: by name", key="results")
        ctx.cover("call:distance")
        return
    model = ctx.pick("linear", "power", "gaussian", "exponential", "spherical", "hole_effect")
    m = {"linear": [1.5, 0.2], "power": [1.2, 1.3, 0.1]}.get(model, [ctx.lu(0.1, 10), ctx.lu(0.1, 10), 0.3])
    f = getattr(vm, model + "_variogram_model")
    h = ctx.rng.uniform(0, 20, n)
    u, v = ctx.call(model, f, m, h), ctx.call(model, f, d=h, m=m)
    ctx.require(identical(np.asarray(u), np.asarray(v)), model + ": by name", key="results")
    ctx.cover("call:models")


def case(ctx):
    ctx.pick(kriging, kriging, kriging, kriging, wrapper, wrapper, wrapper, files, functions)(ctx)
