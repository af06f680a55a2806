import copy

import numpy as np
from vf import gen
from vf.main import Skip
from vf.props import C13

RULE = ("For random valid objects of all classes: every kind of invalid constructor call, update and execute request "
        "(unknown model/style/backend/coordinate/pseudo-inverse type, wrong parameter number or form, mismatched "
        "array/mask/drift shapes, missing drift inputs, windows below two points, unsupported combinations) derived "
        "from a valid one by changing one thing; each has to raise an Exception; afterwards a valid request on "
        "the same object has to give bitwise the result it gave before.")
CASES = {"quick": 1500, "thorough": 20000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "still-usable",
            "bad:model", "bad:pinv-type", "bad:custom-no-function", "bad:custom-not-callable", "bad:param-short",
            "bad:param-long", "bad:param-missing-key", "bad:param-form", "bad:custom-no-parameters", "bad:coordinates-type",
            "bad:length-y", "bad:length-values", "bad:exact-values", "bad:spec-missing",
            "bad:spec-form", "bad:spec-length", "bad:func-missing", "bad:func-form", "bad:ext-missing", "bad:ext-axes-missing",
            "bad:ext-shape", "bad:ext-coverage", "bad:well-missing", "bad:style", "bad:backend", "bad:mask-missing",
            "bad:mask-shape", "bad:mask-axes", "bad:mask-ndim", "bad:points-length", "bad:window-small", "bad:window-vectorized",
            "bad:spec-arrays-missing", "bad:spec-arrays-form", "bad:spec-arrays-shape", "bad:spec-arrays-count",
            "bad:ext-points", "bad:c-custom", "bad:c-hole-effect", "bad:backend-class", "update-rejected"]


def constructor(ctx, s):
    """list of (kind, positional arguments, keyword arguments)"""
    base = s.kwargs()
    args = [*s.coords(), s.z]
    n, d = len(s.z), s.dim
    out = []

    def add(kind, a=None, drop=(), **kw):
        k = {x: copy.copy(y) for x, y in base.items() if x not in drop}
        k.update(kw)
        out.append((kind, a if a is not None else [v.copy() for v in args], k))

    def novar(**k):
        return dict(dict(variogram_function=None), **k)

    add("model", **novar(variogram_model=ctx.pick("Spherical", "nugget", "", "matern", "cubic", "linear "),
                         variogram_parameters=ctx.pick(None, [1.0, 0.1])))
    if ctx.chance(0.3):
        add("model", **novar(variogram_model=ctx.pick(None, 3, 1.5), variogram_parameters=None))
    add("pinv-type", pseudo_inv=ctx.pick(True, False), pseudo_inv_type=ctx.pick("svd", "", "pinv3", "PINV", None))
    add("custom-no-function", drop=("variogram_function",), variogram_model="custom", variogram_parameters=[1.0, 0.1])
    add("custom-not-callable", variogram_model="custom", variogram_parameters=[1.0, 0.1],
        variogram_function=ctx.pick("f", 3, [gen.cu_sqrt]))
    add("custom-no-parameters", drop=("variogram_parameters",), variogram_model="custom", variogram_function=gen.cu_sqrt)
    add("param-short", **novar(variogram_model=ctx.pick("spherical", "power", "gaussian", "exponential", "hole-effect"),
                               variogram_parameters=ctx.pick([1.0, 0.5], [1.0], [])))
    add("param-short", **novar(variogram_model="linear", variogram_parameters=ctx.pick([1.0], [])))
    add("param-long", **novar(variogram_model="linear", variogram_parameters=[1.0, 0.5, 0.1]))
    add("param-long", **novar(variogram_model=ctx.pick("spherical", "power", "gaussian", "exponential", "hole-effect"),
                              variogram_parameters=[1.0, 0.5, 0.1, 0.2]))
    for m, full in (("linear", dict(slope=1.0, nugget=0.1)), ("power", dict(scale=1.0, exponent=1.2, nugget=0.1)),
                    (ctx.pick("gaussian", "spherical", "exponential", "hole-effect"),
                     ctx.pick(dict(sill=1.0, range=2.0, nugget=0.1), dict(psill=1.0, range=2.0, nugget=0.1)))):
        miss = dict(full)
        miss.pop(ctx.pick(*full))
        add("param-missing-key", **novar(variogram_model=m, variogram_parameters=miss))
    add("param-form", **novar(variogram_model="linear", variogram_parameters=ctx.pick((1.0, 0.1), 1.0, "1 0.1", np.array([1.0, 0.1]))))
    if s.cls == "ok":
        add("coordinates-type", drop=("anisotropy_scaling", "anisotropy_angle"),
            coordinates_type=ctx.pick("spherical", "Geographic", "", "latlon", None))
    i = ctx.i(1, d - 1)
    short = [v.copy() for v in args]
    short[i] = short[i][:-1] if ctx.chance(0.5) else np.append(short[i], 1.5)
    add("length-y", short)
    short = [v.copy() for v in args]
    short[-1] = short[-1][:-1] if ctx.chance(0.5) else np.append(short[-1], 1.5)
    if len(short[-1]) > 1:
        add("length-values", short)
    add("exact-values", exact_values=ctx.pick(1, 0, "yes", None, "False"))
    if s.cls.startswith("uk"):
        t = "specified"
        add("spec-missing", drop=("specified_drift",), drift_terms=[t])
        add("spec-missing", drift_terms=[t], specified_drift=[])
        add("spec-form", drift_terms=[t], specified_drift=ctx.pick(np.arange(n * 1.0), tuple([np.arange(n * 1.0)])))
        add("spec-length", drift_terms=[t], specified_drift=[np.arange(n + ctx.pick(-1.0, 1.0, 5.0))])
        if n > 2:
            add("spec-length", drift_terms=[t], specified_drift=[np.sin(np.arange(n * 1.0)), np.ones(n - 2)])
        add("func-missing", drop=("functional_drift",), drift_terms=["functional"])
        add("func-missing", drift_terms=["functional"], functional_drift=[])
        add("func-form", drift_terms=["functional"], functional_drift=ctx.pick(gen.df_lin([0, 0, 0], 1), (gen.df_lin([0, 0, 0], 1),)))
    if s.cls == "uk":
        lo, hi = s.X.min(0), s.X.max(0)
        m = np.maximum(hi - lo, 1e-3 * s.L)
        gx, gy = np.linspace(lo[0] - m[0], hi[0] + m[0], 4), np.linspace(lo[1] - m[1], hi[1] + m[1], 6)
        V = ctx.rng.normal(size=(6, 4))
        e = dict(drift_terms=["external_Z"], external_drift=V, external_drift_x=gx, external_drift_y=gy)
        add("ext-missing", **{**e, "external_drift": None})
        add("ext-axes-missing", **{**e, ctx.pick("external_drift_x", "external_drift_y"): None})
        add("ext-shape", **{**e, "external_drift": ctx.pick(V[:-1], V[:, :-1], V[:, 0], V.ravel(), np.ones((5, 5)))})
        add("ext-shape", **{**e, "external_drift_x": gx[:-1]})
        k = ctx.i(0, n - 1)
        p = s.X[k]
        cov = ctx.pick("x-hi", "x-lo", "y-hi", "y-lo")
        g2 = dict(e)
        eps = 1e-3
        if cov == "x-hi":
            g2["external_drift_x"] = np.linspace(lo[0] - m[0], hi[0] - eps * m[0], 4)
        elif cov == "x-lo":
            g2["external_drift_x"] = np.linspace(lo[0] + eps * m[0], hi[0] + m[0], 4)
        elif cov == "y-hi":
            g2["external_drift_y"] = np.linspace(lo[1] - m[1], hi[1] - eps * m[1], 6)
        else:
            g2["external_drift_y"] = np.linspace(lo[1] + eps * m[1], hi[1] + m[1], 6)
        if hi[0] > lo[0] and hi[1] > lo[1]:
            add("ext-coverage", **g2)
        add("well-missing", drop=("point_drift",), drift_terms=["point_log"])
    return out


def requests(ctx, s, obj):
    """list of (kind, args, kwargs) for execute"""
    d = s.dim
    out = []
    q = gen.request(ctx, s, style="points", m=ctx.i(2, 6), convert=False)
    g = gen.request(ctx, s, style="grid", convert=False)
    sizes = [len(a) for a in g.axes]
    shape = g.shape

    def add(kind, a, kw, **more):
        k = {x: copy.copy(y) for x, y in kw.items()}
        k.update(more)
        out.append((kind, [copy.copy(v) for v in a], k))

    gk = dict(g.kw)
    for st in (ctx.pick("Grid", "point", "", "grids"), ctx.pick(None, 3, True)):
        add("style", [st, *q.axes], q.kw)
    add("backend", q.args, q.kw, backend=ctx.pick("vector", "c", "", "numba", "LOOP", None))
    add("backend", g.args, g.kw, backend=ctx.pick("vectorised", "cython"))
    if s.cls != "ok":
        add("backend-class", q.args, q.kw, backend="C")
    add("mask-missing", ["masked", *g.axes], gk)
    bad = [v for v in ([sizes[1] + 1, sizes[0]], [sizes[1], sizes[0] + 2], [sizes[1] + 1, sizes[0] + 1])] if d == 2 else \
        [[shape[0] + 1, shape[1], shape[2]], [shape[0], shape[1] + 3, shape[2]], [shape[0], shape[1], shape[2] + 1]]
    for b in bad:
        if sorted(b) == sorted(shape):
            continue
        add("mask-shape", ["masked", *g.axes], gk, mask=np.zeros(b, bool))
    # the right number of cells in another arrangement
    import itertools
    perms = {p for p in itertools.permutations(shape)} - {tuple(shape), tuple(shape[::-1])}
    if perms:
        add("mask-axes", ["masked", *g.axes], gk, mask=np.zeros(ctx.pick(*sorted(perms)), bool))
    total = int(np.prod(shape))
    for p in range(2, total):
        if total % p == 0 and p not in shape:
            other = (p, total // p) if d == 2 else ctx.pick((p, total // p, 1), (1, p, total // p))
            if sorted(other) != sorted(shape):
                add("mask-axes", ["masked", *g.axes], gk, mask=np.zeros(other, bool))
                break
    add("mask-ndim", ["masked", *g.axes], gk, mask=np.zeros(int(np.prod(shape)), bool))
    if d == 3:
        add("mask-ndim", ["masked", *g.axes], gk, mask=np.zeros(shape[:2], bool))
    for k in range(d):
        a = [v.copy() for v in q.axes]
        a[k] = a[k][:-1] if ctx.chance(0.5) else np.append(a[k], a[k][0])
        add("points-length", ["points", *a], q.kw)
    if s.cls in ("ok", "ok3"):
        for w in (1, 0, -3):
            add("window-small", q.args, q.kw, n_closest_points=w, backend="loop")
        if s.cls == "ok":
            add("window-small", q.args, q.kw, n_closest_points=1, backend="C")
        add("window-vectorized", q.args, q.kw, n_closest_points=3, backend="vectorized")
        add("backend", q.args, q.kw, backend="numba", n_closest_points=3)
    if s.cls == "ok":
        if obj.variogram_model == "custom":
            add("c-custom", q.args, q.kw, backend="C")
            add("c-custom", q.args, q.kw, backend="C", n_closest_points=3)
        if obj.variogram_model == "hole-effect":
            add("c-hole-effect", q.args, q.kw, backend="C")
            add("c-hole-effect", q.args, q.kw, backend="C", n_closest_points=2)
    if "specified" in s.drift.terms:
        for r in (q, g):
            k = {x: y for x, y in r.kw.items() if x != "specified_drift_arrays"}
            arr = [np.asarray(f(r.Q)).reshape(r.shape) for f in s.drift.spec_fun]
            add("spec-arrays-missing", r.args, k)
            add("spec-arrays-form", r.args, k, specified_drift_arrays=ctx.pick(np.array(arr), tuple(arr)))
            add("spec-arrays-count", r.args, k, specified_drift_arrays=arr + [arr[0]])
            add("spec-arrays-count", r.args, k, specified_drift_arrays=arr[:-1])
            w = [a.copy() for a in arr]
            j = ctx.i(0, len(w) - 1)
            b = list(w[j].shape)
            b[ctx.i(0, len(b) - 1)] += 1
            if r is q or sorted(b) != sorted(w[j].shape):
                w[j] = np.zeros(b)
                add("spec-arrays-shape", r.args, k, specified_drift_arrays=w)
            if np.prod(arr[j].shape) > 1:
                w = [a.copy() for a in arr]
                w[j] = np.full(ctx.pick(1, (1,) * len(r.shape), 0), 0.7)
                add("spec-arrays-shape", r.args, k, specified_drift_arrays=w)
            if r is g:
                w = [a.copy() for a in arr]
                w[j] = np.zeros(int(np.prod(r.shape)) + 1)
                add("spec-arrays-shape", r.args, k, specified_drift_arrays=w)
    if "external_Z" in s.drift.terms:
        lo, hi = s.ext_box
        for st, r in (("points", q), ("grid", g)):
            a = [v.copy() for v in r.axes]
            k = ctx.i(0, 1)
            span = hi[k] - lo[k]
            a[k][ctx.i(0, len(a[k]) - 1)] = ctx.pick(hi[k] + 1e-6 * span, lo[k] - 1e-6 * span, hi[k] + 3 * span)
            if hi[k] + 1e-6 * span > hi[k] and lo[k] - 1e-6 * span < lo[k]:
                add("ext-points", [st, *a], r.kw, backend=ctx.pick("vectorized", "loop"))
    return out


def case(ctx):
    s = gen.scenario(ctx, n=(4, 20), pinv=0.08)
    K = gen.classes()[s.cls]
    obj = s.build(ctx)
    q = gen.request(ctx, s)
    b = ctx.pick(*gen.backends(s))
    before = gen.execute(ctx, obj, q, b)
    attrs = C13.snap(obj)

    def usable(what):
        r = gen.execute(ctx, obj, q, b)
        for i in (0, 1):
            x, y = (np.ma.getdata(v)[~np.ma.getmaskarray(v)] for v in (r[i], before[i]))
            ctx.require(np.allclose(x, y, rtol=0, atol=1e-11 * max(np.abs(y).max(initial=0), 1e-300), equal_nan=True),
                        f"{s.cls}: after {what} a valid request gives other results", key="changed", got=r[i], want=before[i])
        ctx.cover("still-usable")

    for kind, a, k in constructor(ctx, s):
        ctx.raises(f"{s.cls} constructor with invalid {kind}: {brief(k)}", K, *a, **k)
        ctx.cover("bad:" + kind)
    for kind, a, k in requests(ctx, s, obj):
        ctx.raises(f"{s.cls} execute with invalid {kind}: {a[0]!r} {brief(k)}", obj.execute, *a, **k)
        ctx.cover("bad:" + kind)
        if ctx.chance(0.1):
            usable("a rejected request (" + kind + ")")
    for _ in range(2):
        kind, k = C13.bad_update(ctx, s)
        ctx.raises(f"{s.cls} update with invalid {kind}", obj.update_variogram_model, **k)
        ctx.cover("update-rejected")
        C13.same(ctx, attrs, C13.snap(obj), f"{s.cls} after a rejected update ({kind})")
    usable("rejected requests and updates")


def brief(k):
    return {x: (np.shape(y) if isinstance(y, np.ndarray) else y) for x, y in k.items()
            if x not in ("variogram_function", "functional_drift")}
