import contextlib
import copy
import io

import numpy as np
from vf import gen
from vf.main import Skip, Violation

RULE = ("Random objects of all classes and drift combinations are given writable arrays, lists and dictionaries; "
        "byte-exact snapshots of every argument are taken before and compared after construction, updates and "
        "executes of all styles and backends; then every container passed in and every array returned is "
        "overwritten with garbage, other requests (also failing ones: a user callback raising at a random call, "
        "invalid requests) and executes come in between, and the first request is repeated: results have to be "
        "bitwise identical, also with verbose output switched on and for a second object built later.")
CASES = {"quick": 2000, "thorough": 25000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "inputs-unchanged", "garbage-in", "garbage-out",
            "repeat", "verbose-twin", "callback-failed", "invalid-between", "verbose", "window", "backend:C", "backend:loop",
            "backend:vectorized", "drift:point_log", "drift:external_Z", "drift:specified", "drift:functional",
            "style:masked", "updated", "second-object", "same-size", "results-kept", "list-garbage", "attributes-stable", "late-update"]


class Flaky:
    """drift or variogram function that can be told to fail at its n-th call"""

    def __init__(self, f):
        self.f, self.left = f, None

    def __call__(self, *a):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise RuntimeError("callback failed")
        return self.f(*a)


def freeze(o):
    """bitwise description of a (nested) argument"""
    if isinstance(o, np.ma.MaskedArray):
        return ("ma", freeze(np.asarray(o.data)), freeze(np.ma.getmaskarray(o)))
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v) for v in o))
    if isinstance(o, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in o.items()))
    if callable(o):
        return ("fn", id(o))
    return (type(o).__name__, repr(o))


def garbage(ctx, o, depth=0):
    """overwrites everything mutable reachable from an argument"""
    if isinstance(o, np.ma.MaskedArray):
        o.data[...] = -77
        o.mask = True
    elif isinstance(o, np.ndarray):
        if o.flags.writeable:
            if o.dtype.kind == "f":
                o[...] = ctx.rng.normal(size=o.shape) * 1e3
            elif o.dtype.kind == "b":
                np.logical_not(o, out=o)
            else:
                o[...] = 3
    elif isinstance(o, list):
        for v in o:
            garbage(ctx, v, depth + 1)
        ctx.cover("list-garbage")
        if ctx.chance(0.5):
            o.clear()
        else:
            for k in range(len(o)):
                if isinstance(o[k], float):
                    o[k] = 1234.5
                elif callable(o[k]):
                    o[k] = lambda *a: 0 * a[0] + 99.0
            o.reverse()
    elif type(o).__name__ == "array":
        for k in range(len(o)):
            o[k] = 1234.5
    elif isinstance(o, tuple):
        for v in o:
            garbage(ctx, v, depth + 1)
    elif isinstance(o, dict):
        for v in list(o.values()):
            garbage(ctx, v, depth + 1)
        for k in list(o):
            if isinstance(o[k], float):
                o[k] = 4321.0


PUBLIC = ("lags", "semivariance", "variogram_model_parameters", "variogram_model", "delta", "sigma", "epsilon",
          "Q1", "Q2", "cR")


def state(o):
    return {k: freeze(getattr(o, k)) for k in PUBLIC}


def identical(a, b):
    """the same numbers (bitwise, or within what the alignment of work arrays can do in BLAS)"""
    if freeze(a) == freeze(b):
        return True
    if np.shape(a) != np.shape(b) or not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
        return False
    m = ~np.ma.getmaskarray(a)
    x, y = np.asarray(np.ma.getdata(a))[m], np.asarray(np.ma.getdata(b))[m]
    return bool(np.allclose(x, y, rtol=0, atol=1e-11 * max(float(np.abs(y).max()), 1e-300))) if x.size else True


def later(ctx, s, K, obj, args, kw, guarded, window):
    """an update long after the arguments of the constructor changed must still refer to what they were"""
    try:
        ctx.events += 1
        twin = K(*args, **kw)
        v = gen.vario(ctx, s.ext, float(np.var(s.z)), nn=s.ext / len(s.z))
        u = v.kw()
        if not s.geo:
            d = s.dim
            sc = [ctx.lu(0.2, 5) for _ in range(d - 1)]
            an = [ctx.u(-180, 180) for _ in range(2 * d - 3)]
            if d == 2:
                u.update(anisotropy_scaling=sc[0], anisotropy_angle=an[0])
            else:
                u.update(zip(("anisotropy_scaling_y", "anisotropy_scaling_z", "anisotropy_angle_x", "anisotropy_angle_y",
                              "anisotropy_angle_z"), sc + an))
        for o in (obj, twin):
            o.update_variogram_model(**copy.deepcopy(u))
    except np.linalg.LinAlgError:
        raise Skip("singular statistics")
    b = ctx.pick(*[b for b in gen.backends(s, window) if b != "C" or v.name in gen.C_MODELS])
    q = gen.request(ctx, s)
    (r, _), (t, _) = guarded(obj, q, b), guarded(twin, q, b)
    for i, what in ((0, "estimates"), (1, "variances")):
        ctx.require(identical(r[i], t[i]) or np.array_equal(np.isfinite(r[i]), np.isfinite(t[i])) and not np.isfinite(r[i]).all(),
                    f"{s.cls} {q.style} {b}: after an update, {what} depend on what became of the constructor's arguments",
                    key="late-update")
    ctx.cover("late-update")


def loud(ctx, s, K):
    """a verbose object beside a silent one, through construction, updates and executes"""
    kw = s.kwargs()
    kw.update(nlags=ctx.i(1, 15), weight=ctx.chance(0.5))
    auto = s.vario.fn is None and ctx.chance(0.3)
    if auto:
        kw["variogram_parameters"] = None
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.5)
    ups = []
    for _ in range(ctx.i(1, 2)):
        v = gen.vario(ctx, s.ext, float(np.var(s.z)), nn=s.ext / len(s.z))
        u = dict(v.kw(), nlags=ctx.i(1, 15), weight=ctx.chance(0.5))
        if v.fn is None and ctx.chance(0.3):
            u["variogram_parameters"] = None
        ups.append(u)
    ctx.note(loud=True, nlags=kw["nlags"], updates=[(u["variogram_model"], u["nlags"], u["weight"]) for u in ups])
    out = []
    for verbose in (False, True):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                ctx.events += 1
                o = K(*s.coords(), s.z.copy(), **copy.deepcopy(kw), verbose=verbose)
                for u in ups:
                    o.update_variogram_model(**copy.deepcopy(u))
                out.append(o)
            except Exception as e:
                out.append(e)
    a, b = out
    if isinstance(a, Exception) or isinstance(b, Exception):
        ctx.require(type(a) is type(b), f"{s.cls}: silent {a!r}, verbose {b!r}", key="verbose-outcome")
        raise Skip("refused")
    sa, sb = state(a), state(b)
    for k in sa:
        if k != "verbose":
            ctx.require(k in sb and sa[k] == sb[k], f"{s.cls}: attribute {k} of the verbose object differs from the silent one's",
                        key="verbose-attribute")
    for _ in range(2):
        q = gen.request(ctx, s)
        bk = ctx.pick(*[t for t in gen.backends(s) if t != "C" or a.variogram_model in gen.C_MODELS])
        ra, rb = gen.execute(ctx, a, q, bk), gen.execute(ctx, b, q, bk)
        for i in (0, 1):
            ctx.require(identical(ra[i], rb[i]) or np.array_equal(np.ma.getdata(ra[i]), np.ma.getdata(rb[i]), equal_nan=True),
                        f"{s.cls} {q.style} {bk}: the verbose object gives other results", key="verbose-results")
    ctx.cover("verbose-twin")


def case(ctx):
    s = gen.scenario(ctx, n=(3, 30), pinv=0.1)
    K = gen.classes()[s.cls]
    if ctx.chance(0.12):
        return loud(ctx, s, K)
    d = s.dim
    flaky = []
    kw = s.kwargs()
    if s.vario.fn is not None:
        kw["variogram_function"] = Flaky(s.vario.fn)
        flaky.append(kw["variogram_function"])
    if "functional" in s.drift.terms:
        kw["functional_drift"] = [Flaky(f) for f in kw["functional_drift"]]
        flaky += kw["functional_drift"]
    if "specified" in s.drift.terms:
        kw["specified_drift"] = [np.array(a) for a in kw["specified_drift"]]
        if ctx.chance(0.3):
            kw["specified_drift"] = [a.tolist() for a in kw["specified_drift"]]
    if isinstance(kw["variogram_parameters"], (list, dict)):
        kw["variogram_parameters"] = copy.deepcopy(kw["variogram_parameters"])
    args = [gen.as_input(ctx, a, allow=("array", "list", "column", "strided", "tuple", "row", "int"))
            for a in (*s.coords(), s.z)]
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.5)
    fa, fk = freeze(args), {k: freeze(v) for k, v in kw.items()}
    args0, kw0 = copy.deepcopy(args), copy.deepcopy(kw)

    def unchanged(what):
        ctx.require(freeze(args) == fa, f"{what} modified a data array passed in", key="input")
        for k, v in kw.items():
            ctx.require(freeze(v) == fk[k], f"{what} modified the argument {k}", key="input", now=v)
        ctx.cover("inputs-unchanged")

    obj = ctx.call(K.__name__, K, *args, **kw)
    unchanged("construction")
    upd = None
    if ctx.chance(0.3):
        v = gen.vario(ctx, s.ext, float(np.var(s.z)), nn=s.ext / len(s.z))
        upd = copy.deepcopy(v.kw())
        fu = {k: freeze(x) for k, x in upd.items()}
        try:
            ctx.events += 1
            obj.update_variogram_model(**upd)
            ctx.cover("updated")
        except np.linalg.LinAlgError:
            raise Skip("singular statistics")
        ctx.require({k: freeze(x) for k, x in upd.items()} == fu, "update modified its arguments", key="input")
        unchanged("update")
        flaky = [f for f in flaky if f is not kw.get("variogram_function")]
    window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.3)
    wk = {}
    if window:
        wk["n_closest_points"] = ctx.i(2, len(s.z) + 1)
        ctx.cover("window")
    model = obj.variogram_model
    bs = [b for b in gen.backends(s, window) if b != "C" or model in gen.C_MODELS]

    def run(o, q, b, extra=None):
        a = [q.args[0], *[copy.deepcopy(t) for t in q.args[1:]]]
        k = copy.deepcopy(q.kw)
        k.update(wk)
        k["backend"] = b
        before = freeze(a), {x: freeze(y) for x, y in k.items()}
        ctx.events += 1
        try:
            r = o.execute(*a, **k)
        finally:
            ctx.require((freeze(a), {x: freeze(y) for x, y in k.items()}) == before,
                        f"{s.cls} execute({q.style}, {b}) modified its arguments", key="input")
        ctx.cover("backend:" + b)
        return r, (a, k)

    def guarded(o, q, b):
        try:
            return run(o, q, b)
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation(f"{s.cls} execute({q.style}, {b}) raised {type(e).__name__}: {e}", key="raises")

    first, kept = [], []

    def keep(what, r):
        kept.append((what, r, [copy.deepcopy(a) for a in r]))

    for _ in range(ctx.i(1, 2)):
        q = gen.request(ctx, s)
        b = ctx.pick(*bs)
        r, passed = guarded(obj, q, b)
        first.append((q, b, copy.deepcopy(r[0]), copy.deepcopy(r[1])))
        # returned arrays and passed arguments become garbage
        if ctx.chance(0.5):
            keep(f"{q.style}, {b}", r)
            # a different request of the same size
            rev = copy.copy(q)
            rev.args = [q.args[0], *[np.array(a)[::-1] for a in q.args[1:]]]
            guarded(obj, rev, b)
            ctx.cover("same-size")
        else:
            garbage(ctx, list(r))
        garbage(ctx, passed[0])
        garbage(ctx, passed[1])
        ctx.cover("garbage-out")
    st = state(obj)
    unchanged("execute")

    def again(what):
        for q, b, z0, v0 in first:
            r, _ = guarded(obj, q, b)
            ctx.require(identical(r[0], z0) and identical(r[1], v0),
                        f"{s.cls} {q.style} {b}: repeating the request {what} gave other results", key="repeat-" + what)
        ctx.cover("repeat")

    again("directly")
    # other requests in between
    for _ in range(ctx.i(0, 2)):
        q = gen.request(ctx, s)
        keep(q.style, guarded(obj, q, ctx.pick(*bs))[0])
    # failing ones
    if flaky and ctx.chance(0.8):
        f = flaky[ctx.i(0, len(flaky) - 1)]
        f.left = ctx.i(0, 3)
        q = gen.request(ctx, s)
        try:
            run(obj, q, ctx.pick(*bs))
        except RuntimeError:
            ctx.cover("callback-failed")
        f.left = None
        again("after a failed callback")
    if ctx.chance(0.4):
        q = gen.request(ctx, s)
        k = copy.deepcopy(q.kw)
        bad = ctx.pick("style", "backend", "mask", "length")
        a = [q.args[0], *[copy.deepcopy(t) for t in q.args[1:]]]
        if bad == "style":
            a[0] = "girdd"
        elif bad == "backend":
            k["backend"] = "gpu"
        elif bad == "mask":
            a = ["masked", *[np.arange(4.0) + s.X[0, j] for j in range(d)]]
            k["mask"] = np.ones((2,) * d, bool)
        else:
            a = ["points", *[np.arange(3.0 + j) for j in range(d)]]
        try:
            ctx.events += 1
            obj.execute(*a, **k)
        except Exception:
            ctx.cover("invalid-between")
        again("after a rejected request")
    # the arguments of the constructor become garbage
    frozen = copy.deepcopy(s.X), s.z.copy()
    garbage(ctx, args)
    garbage(ctx, {k: v for k, v in kw.items() if k not in ("drift_terms",)})
    if upd:
        garbage(ctx, upd)
    ctx.cover("garbage-in")
    s.X, s.z = frozen
    again("after overwriting the arguments")
    for k, v in state(obj).items():
        if k in st:
            ctx.require(v == st[k], f"{s.cls}: attribute {k} changed without an update", key="attribute")
    ctx.cover("attributes-stable")
    if ctx.chance(0.35):
        later(ctx, s, K, obj, args0, kw0, guarded, window)
        return
    # another object must not matter, and verbose mode changes nothing
    if ctx.chance(0.5):
        t = gen.scenario(ctx, cls=s.cls, n=(3, 8), drift=False if s.cls.startswith("uk") else None)
        try:
            o2 = t.build(ctx)
            o2.execute(*gen.request(ctx, t, style="points").args)
        except Violation:
            pass
        ctx.cover("second-object")
        again("after using another object")
    if ctx.chance(0.5):
        if ctx.chance(0.5):
            ctx.call("switch_verbose", obj.switch_verbose)
        else:
            obj.verbose = True
        again("in verbose mode")
        ctx.cover("verbose")
    for what, r, old in kept:
        for a, b in zip(r, old):
            ctx.require(freeze(a) == freeze(b), f"{s.cls}: results handed out by an execute ({what}) changed later", key="results-changed")
        ctx.cover("results-kept")
