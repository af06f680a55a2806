import contextlib
import copy
import ctypes
import gc
import io
import os
import sys
import time
import weakref

import numpy as np
from vf import gen, grids
from vf.main import Skip, Violation
from vf.props.C14 import Flaky
from vf.props.C32 import Shown

os.environ["MPLBACKEND"] = "Agg"
RULE = ("Random objects of all classes (and wrapper, regression and classification kriging, grid files) repeat rounds of distinct requests, "
        "updates, constructions, failing requests and reports while the bytes held by the C allocator and the number of Python blocks are "
        "watched; growth in every round is followed over several hundred further calls before it counts. Then everything is dropped and "
        "weak references tell whether the objects, data, callbacks, models and results were freed.")
CASES = {"quick": 1200, "thorough": 15000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "execute", "update", "construct", "failing-callback", "rejected", "window",
            "backend:C", "backend:loop", "backend:vectorized", "report", "wrapper", "regression", "classification", "files:asc", "files:zmap",
            "freed-object", "freed-data", "freed-callback", "freed-gstools", "freed-results", "update:custom", "update:gstools", "drift:specified", "style:masked", "damaged-file", "fails:execute", "fails:construct", "fails:update"]


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


_m = ctypes.CDLL(None).mallinfo2
_m.restype = Mallinfo2


def held():
    """(bytes in use by malloc, Python blocks in use)"""
    gc.collect()
    m = _m()
    return np.array([m.uordblks + m.hblkhd, sys.getallocatedblocks()], float)


def steady(ctx, what, call, per=6, rounds=14, more=150, slack=(24, 0.9)):
    """call(k) for k = 0, 1, ... may not hold on to memory"""
    k = 0

    def some(n):
        nonlocal k
        for _ in range(n):
            with contextlib.redirect_stdout(io.StringIO()):
                call(k)
            k += 1
        ctx.events += n
    some(4)
    a = held()
    up = np.ones(2, bool)
    for _ in range(rounds):
        some(per)
        b = held()
        up &= b - a > np.array(slack) * per
        a = b
        if not up.any():
            ctx.checks += 1
            return
    # everything grew so far: caches of limited size have to be full some time
    ctx.cover('suspect', 'suspect:' + what)
    least, first, t = np.full(2, np.inf), a, time.time()
    for n in range(40):
        some(more)
        b = held()
        least, a = np.minimum(least, (b - a) / more), b
        if not (least > slack).any() or (n >= 4 and (least[1] > slack[1] or (b - first)[0] > 400e3)) or (n >= 4 and time.time() - t > 40):
            break
    # (the allocator's and NumPy's own lists of free blocks count as held)
    if (least[0] > slack[0] and (b - first)[0] > 400e3) or least[1] > slack[1]:
        ctx.fail(f"{what}: every call keeps {least[0]:.0f} bytes and {least[1]:.1f} objects", key="leak")
    ctx.checks += 1


def freed(ctx, what, refs):
    for k in range(3):
        gc.collect()
    for name, r in refs:
        ctx.require(r() is None, f"{what}: {name} is still alive after everything was dropped", key="alive",
                    holders=[type(h).__name__ + " " + repr(h)[:80] for h in gc.get_referrers(r())][:5] if r() is not None else None)
        ctx.cover("freed-" + name.split()[0])


def singular(fn):
    def f(*a, **k):
        try:
            return fn(*a, **k)
        except (np.linalg.LinAlgError, ValueError) as e:
            raise Skip("singular")
    return f


def kriging(ctx):
    s = gen.scenario(ctx, n=(3, 20), pinv=0.08)
    kw = s.kwargs()
    if s.vario.fn is not None or ctx.chance(0.1):
        base = s.vario.fn or (lambda p, h: p[0] * np.sqrt(h) + p[1])
        kw["variogram_model"] = "custom"
        kw["variogram_parameters"] = list(s.vario.par) if s.vario.fn is not None else [1.0, 0.1]
        kw["variogram_function"] = f = Flaky(base)
        s.vario.name = "custom"
    else:
        f = None
        if not s.geo and not s.drift.terms and ctx.chance(0.2):
            import gstools as gs
            for k in [k for k in kw if k.startswith("aniso")] + ["variogram_parameters"]:
                kw.pop(k, None)
            kw["variogram_model"] = gs.Exponential(dim=s.dim, var=max(float(np.var(s.z)), 1e-9), len_scale=s.ext * 0.4)
            s.vario.name = "gstools"
        elif ctx.chance(0.2):
            kw.pop("variogram_parameters")
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.4)
    coords, z = [np.array(c, float) for c in s.coords()], np.array(s.z, float)
    cls = gen.classes()[s.cls]
    gstools_model = kw["variogram_model"] if s.vario.name == "gstools" else None

    def build(k=0):
        c = [v + 1e-7 * s.ext * k * ctx.rng.random(len(v)) * (not s.geo) for v in coords] if k else coords
        return cls(*c, z, **kw)
    o = singular(build)()
    t = ctx.pick("execute", "execute", "execute", "update", "construct", "rejected", "report", "failing-callback")
    window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.4)
    reqs, given = [], [None] * 16
    for _ in range(3):
        q = gen.request(ctx, s, large=False)
        b = ctx.pick(*[b for b in gen.backends(s, window)])
        k = dict(q.kw, backend=b)
        if window:
            k["n_closest_points"] = ctx.i(2, len(z))
            ctx.cover("window")
        ctx.cover("backend:" + b)
        reqs.append((q, k))

    def execute(k):
        q, kk = reqs[k % 3]
        a = [v if isinstance(v, str) else np.array(v, float) + 1e-7 * s.ext * k * (not s.geo and "external_Z" not in s.drift.terms) for v in q.args]
        return o.execute(*a, **kk)
    run = singular(execute)
    if t == "execute":
        steady(ctx, f"{s.cls} execute", run)
    elif t == "update":
        names = [m for m in gen.BUILTIN if m != "hole-effect"]
        z0, e = max(float(np.var(z)), 1e-9), s.ext
        import gstools as gs
        how = ctx.pick("builtin", "builtin", "custom", "gstools" if not s.geo and not s.pinv else "builtin")
        ctx.cover("update:" + how)
        follow = how != "builtin" or ctx.chance(0.6)
        turn = ctx.pick(0.0, 0.37, 0.37)
        if follow:
            for _, kk in reqs:
                kk["backend"] = "vectorized" if "n_closest_points" not in kk else "loop"

        def update(k):
            m = names[k % 5]
            par = [z0 / e, (0.1 + 1e-6 * k) * z0] if m == "linear" else [z0 / e, 1.0, (0.1 + 1e-6 * k) * z0] if m == "power" else [z0, e * (0.3 + 0.001 * k), 0.2 * z0]
            a = {} if s.geo else {("anisotropy_angle" if s.dim == 2 else "anisotropy_angle_" + "xyz"[k % 3]): turn * k}
            if how == "custom":
                g = Flaky(gen.cu_sqrt)
                given[k % 16] = weakref.ref(g)
                o.update_variogram_model("custom", [0.5 * z0, 0.1 * z0], g, **a)
            elif how == "gstools":
                g = gs.Gaussian(dim=s.dim, var=z0, len_scale=e * (0.2 + 0.001 * k), nugget=0.1 * z0)
                given[k % 16] = weakref.ref(g)
                o.update_variogram_model(g)
            else:
                o.update_variogram_model(m, par, **a)
            if follow:
                run(k)
        steady(ctx, f"{s.cls} update_variogram_model", singular(update), per=4)
        run = None
        gc.collect()
        alive = sum(r is not None and r() is not None for r in given)
        ctx.require(alive <= 1, f"{s.cls}: {alive} of the functions given to updates are alive, only the last is in use", key="alive")
    elif t == "construct":
        def construct(k):
            p = build(k)
            if follow:
                q, kk = reqs[0]
                p.execute(*q.args, **dict(kk, backend="loop"))
        follow = ctx.chance(0.6)
        steady(ctx, f"{s.cls} construction", singular(construct), per=4)
    elif t == "rejected":
        bads = [lambda: o.execute(*reqs[0][0].args, **dict(reqs[0][1], backend="nonsense")),
                lambda: o.execute("nonsense", *reqs[0][0].args[1:]),
                lambda: o.update_variogram_model("nonsense"),
                lambda: o.update_variogram_model("spherical", [1.0]),
                lambda: cls(*coords, z[:-1], variogram_model="linear"),
                lambda: cls(*coords, z, variogram_model="nonsense")]
        bad = bads[ctx.i(0, 5)]

        def rejected(k):
            try:
                bad()
            except Exception:
                return
        steady(ctx, f"{s.cls} rejected call", rejected)
    elif t == "failing-callback" and f is not None:
        left = ctx.i(0, 3)
        q, kk = reqs[0]
        kk = dict(kk, backend="loop")
        o.execute(*q.args, **kk)

        def failing(k):
            f.left = left
            try:
                o.execute(*q.args, **kk)
            except Exception:
                pass
            finally:
                f.left = None
        steady(ctx, f"{s.cls} execute with a failing callback", singular(failing))
        del failing
    elif t == "report":
        with Shown() as sh:
            steady(ctx, f"{s.cls} reports", lambda k: (sh.figs.clear(), o.display_variogram_model(), o.print_statistics() if o.epsilon is not None else 0), per=3, rounds=5, more=40, slack=(1000, 50))
    if t != "failing-callback" or f is not None:
        ctx.cover(t)
    # --- everything goes away
    refs = [("callback given to update", r) for r in given if r is not None and r() is not None] + [("object", weakref.ref(o))] + [("data array", weakref.ref(c)) for c in coords + [z]]
    if f is not None:
        refs.append(("callback", weakref.ref(f)))
    if gstools_model is not None:
        refs.append(("gstools model", weakref.ref(gstools_model)))
    r = None
    if run is not None:
        with contextlib.redirect_stdout(io.StringIO()):
            r = run(1)
        refs += [("results array", weakref.ref(a)) for a in r if isinstance(a, np.ndarray)]
        if ctx.chance(0.5):
            with contextlib.redirect_stdout(io.StringIO()):
                run(2)
    if isinstance(kw.get("external_drift"), np.ndarray):
        refs.append(("data drift grid", weakref.ref(kw["external_drift"])))
    s.drift.ext_user = s.vario = None
    del r, run, execute, build, o, coords, z, f, gstools_model, kw, cls
    update = construct = rejected = failing = bads = bad = base = None      # noqa
    freed(ctx, s.cls, refs)


def unsolvable(ctx):
    """requests that fail after the work has begun, and constructions and updates that fail"""
    s = gen.scenario(ctx, n=(4, 16), pinv=0, drift=False)
    X = np.r_[s.X, s.X[:1]]         # no inverse without a nugget
    z = np.r_[s.z, s.z[:1] + 1.0]
    kw = dict(s.kwargs(vario=False), variogram_model="linear", variogram_parameters=[1.0, 0.0])
    coords = [np.array(c) for c in X.T]
    cls = gen.classes()[s.cls]
    o = quiet(lambda: cls(*coords, z, **kw)) if s.cls in ("ok",) else None
    if o is None:
        # statistics of the other classes are found out on construction: with a nugget there
        o = quiet(lambda: cls(*coords, z, **dict(kw, variogram_parameters=[1.0, 0.5])))
        o.variogram_model_parameters = [1.0, 0.0]
    q = gen.request(ctx, s, style="points", large=False)
    b = dict(backend=ctx.pick(*gen.backends(s)))
    if s.cls in ("ok", "ok3") and ctx.chance(0.5):
        b = dict(backend=ctx.pick("loop", "C") if s.cls == "ok" else "loop", n_closest_points=ctx.pick(len(z), 3))
    t = ctx.pick("execute", "execute", "construct", "update")
    args = [np.r_[a, c[:1]] for a, c in zip(q.Q.T, coords)]

    class Broken:
        def __call__(self, p, h):
            raise RuntimeError("broken")
    failed = [0]

    def call(k):
        try:
            if t == "execute":
                o.execute("points", *args, **b)
            elif t == "construct":
                cls(*coords, z, **dict(kw, variogram_model="custom", variogram_parameters=[1.0], variogram_function=Broken(), enable_statistics=True)
                    if s.cls == "ok" else dict(kw, variogram_model="custom", variogram_parameters=[1.0], variogram_function=Broken()))
            else:
                o.update_variogram_model("custom", [1.0], Broken())
        except Exception:
            failed[0] += 1
    steady(ctx, f"{s.cls} failing {t} {b}", call, per=4)
    ctx.cover("fails:" + t, n=int(failed[0] > 0))
    refs = [("object", weakref.ref(o))] + [("data array", weakref.ref(c)) for c in coords + [z] + args]
    del o, coords, z, args, call, cls, Broken, q, X
    s.X = s.z = None
    freed(ctx, s.cls + " after failures", refs)


def quiet(call):
    with contextlib.redirect_stdout(io.StringIO()):
        return call()


def learning(ctx):
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import Ridge
    from sklearn.naive_bayes import GaussianNB
    kind = ctx.pick("wrapper", "regression", "classification")
    method = ctx.pick("ordinary", "universal", "ordinary3d", "universal3d")
    d = 3 if method.endswith("3d") else 2
    n = ctx.i(8, 16)
    X = gen.layout(ctx, n, d, 10.0)
    P = ctx.rng.normal(size=(n, 2))
    y = ctx.rng.normal(size=n) + P[:, 0]
    Q, PQ = X.min(0) + np.ptp(X, axis=0) * ctx.rng.random((4, d)), ctx.rng.normal(size=(4, 2))
    k = dict(method=method, variogram_model="exponential", variogram_parameters=[2.0, 4.0, 0.2], n_closest_points=4)
    ctx.mark(X, y)
    ctx.note(kind=kind, method=method)
    ctx.cover(kind)
    if kind == "wrapper":
        o = Krige(**k)
        fit, ask = (lambda: o.fit(X, y)), (lambda: (o.predict(Q), o.score(Q, y[:4])))
    elif kind == "regression":
        o = RegressionKriging(Ridge(), **k)
        fit, ask = (lambda: o.fit(P, X, y)), (lambda: (o.predict(PQ, Q), o.krige_residual(Q)))
    else:
        o = ClassificationKriging(GaussianNB(), **k)
        l = np.array(["a", "b", "c"])[np.arange(n) % 3]
        fit, ask = (lambda: o.fit(P, X, l)), (lambda: (o.predict(PQ, Q), o.krige_residual(Q)))

    def call(k):
        if k % 2 == 0:
            fit()
        return ask()
    steady(ctx, kind, call, per=4)
    refs = [("object", weakref.ref(o)), ("data array", weakref.ref(X)), ("data array", weakref.ref(Q))]
    del o, fit, ask, call, X, Q
    freed(ctx, kind, refs)


def files(ctx):
    import pykrige.kriging_tools as kt
    kind = ctx.pick("asc", "zmap")
    nx, ny = ctx.i(2, 12), ctx.i(2, 12)
    x, y, z = np.arange(nx) * 1.0, np.arange(ny) * 1.0, ctx.rng.normal(size=(ny, nx))
    W, R = (kt.write_asc_grid, kt.read_asc_grid) if kind == "asc" else (kt.write_zmap_grid, kt.read_zmap_grid)
    ctx.mark(z)
    ctx.note(kind=kind, shape=[ny, nx])
    damaged = ctx.chance(0.3)
    with grids.Scratch() as d:
        f = os.path.join(d, "g")

        def call(k):
            W(x, y, z, filename=f)
            if damaged:
                os.truncate(f, os.path.getsize(f) // 2)
            try:
                R(f)
            except Exception:
                if not damaged:
                    raise
        steady(ctx, f"{kind} files", call)
    ctx.cover("files:" + kind)
    if damaged:
        ctx.cover("damaged-file")


_FROZEN = False


def case(ctx):
    global _FROZEN
    if not _FROZEN:      # what is there already need not be looked at by every collection
        import gstools, matplotlib.pyplot, sklearn.linear_model, sklearn.naive_bayes, pykrige.ck, pykrige.rk, pykrige.kriging_tools  # noqa
        gc.collect()
        gc.freeze()
        _FROZEN = True
    t = ctx.rng.random()
    (unsolvable if t < 0.1 else kriging if t < 0.82 else learning if t < 0.92 else files)(ctx)
