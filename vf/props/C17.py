import os
import sys
import threading

import numpy as np
from vf import build, gen, ref
from vf.main import Skip, Violation

RULE = ("The compiled backend, rebuilt from the working tree with AddressSanitizer and UndefinedBehaviorSanitizer "
        "(fresh memory filled with 0xFF, i.e. NaN), with Cython's own bounds checks, and with an allocator that puts "
        "every NumPy array in front of an inaccessible page (so that accesses by BLAS/LAPACK are caught too), "
        "under random valid requests (all models, windows, masks, sizes up to 300 data and 4000 points), hostile requests "
        "(non-finite or huge coordinates, empty requests, wrong shapes, windows and types) and several threads at a "
        "time. Every valid result is compared with the reference or with the pure Python loop.")
CASES = {"quick": 1600, "thorough": 20000}
REQUIRED = ["valid", "window", "hostile", "threads", "big", "flavour:sanitize", "flavour:bounds", "self-test",
            "fence", "pinv:pinv", "pinv:pinvh", "geographic", "style:masked", "repeated", "hostile:huge-window"] + \
           ["model:" + m for m in gen.C_MODELS] + ["calls:loop", "calls:window"]
FLAVOUR = "sanitize"
REEXEC_SANITIZE = True
LEVEL = "exploration"
ASSUMPTIONS = ["BLAS and LAPACK are not instrumented: their accesses are watched by the guard pages of the fence allocator "
               "only (reads in front of an array are not seen, writes in front of it when it is freed)"]
MODS = {}
FENCE = []
UNRAISABLE = []


def prepare():
    import pykrige.lib.cok
    import pykrige.lib.variogram_models
    MODS["sanitize"] = {k: m for k, m in sys.modules.items() if k.startswith("pykrige.lib.")}
    MODS["bounds"] = build.load(build.ensure("bounds"))
    assert MODS["bounds"]["pykrige.lib.cok"].__file__ != MODS["sanitize"]["pykrige.lib.cok"].__file__
    FENCE.append(build.native("vf_fence"))
    sys.unraisablehook = lambda a: UNRAISABLE.append(repr(a.exc_value))


def instrumented():
    """the loaded extension really is the instrumented one and the runtime is active"""
    with open("/proc/self/maps") as f:
        maps = f.read()
    return "libasan" in maps and "libubsan" in maps and MODS["sanitize"]["pykrige.lib.cok"].__file__ in maps


class Fence:
    """puts guard pages behind all arrays allocated by this thread"""

    def __init__(self, ctx, on):
        self.ctx, self.on = ctx, on

    def __enter__(self):
        if self.on:
            self.n = FENCE[0].stats()
            self.old = FENCE[0].on()

    def __exit__(self, *a):
        if self.on:
            FENCE[0].off(self.old)
            n = FENCE[0].stats()
            self.ctx.cover("fence", n=n[0] - self.n[0])
            if n[2] != self.n[2] and a[0] is None:
                raise Violation("memory in front of an array was overwritten", key="underrun")


class Counter:
    """counts the calls that reach the compiled code (the monitor's view, not the workload's)"""

    def __init__(self, ctx, mod):
        self.ctx, self.mod, self.n = ctx, mod, {}

    def __enter__(self):
        m = self.mod
        self.saved = m._c_exec_loop, m._c_exec_loop_moving_window

        def wrap(f, name):
            def g(*a, **k):
                self.n[name] = self.n.get(name, 0) + 1
                return f(*a, **k)
            return g
        m._c_exec_loop, m._c_exec_loop_moving_window = wrap(self.saved[0], "loop"), wrap(self.saved[1], "window")

    def __exit__(self, *a):
        self.mod._c_exec_loop, self.mod._c_exec_loop_moving_window = self.saved
        for k, v in self.n.items():
            self.ctx.cover("calls:" + k, n=v)


def case(ctx):
    fl = "bounds" if ctx.chance(0.33) else "sanitize"
    build.switch(MODS[fl])
    ctx.cover("flavour:" + fl)
    if ctx.idx < 8:
        ctx.require(instrumented(), "sanitizer runtime not active", key="self-test")
        ctx.cover("self-test")
    del UNRAISABLE[:]
    t = ctx.rng.random()
    fence = fl == "sanitize" and ctx.chance(0.5)
    with Counter(ctx, MODS[fl]["pykrige.lib.cok"]), Fence(ctx, fence):
        if t < 0.45:
            valid(ctx)
        elif t < 0.55:
            big(ctx)
        elif t < 0.88:
            hostile(ctx)
        else:
            threads(ctx)
    if UNRAISABLE:
        raise Violation("index error inside the compiled backend: " + UNRAISABLE[0], key="bounds")


def ok_scenario(ctx, **k):
    return gen.scenario(ctx, cls="ok", models=gen.C_MODELS, custom=0, **k)


def run(ctx, obj, q, **k):
    """one request with the C backend; an index error caught by Cython's checks is a violation"""
    ctx.events += 1
    try:
        r = obj.execute(*q.args, backend="C", **q.kw, **k)
    except IndexError as e:
        if "Out of bounds" in str(e):
            raise Violation(f"the compiled backend indexes out of bounds: {e}", key="bounds")
        raise
    if UNRAISABLE:
        raise Violation("index error inside the compiled backend: " + UNRAISABLE[0], key="bounds")
    return r


def valid(ctx):
    s = ok_scenario(ctx, n=(2, 70), pinv=0.25)
    q = gen.request(ctx, s)
    obj = s.build(ctx)
    want = s.answer(q.Q)
    try:
        got = run(ctx, obj, q)
    except Exception as e:
        if isinstance(e, Violation):
            raise
        raise Violation(f"valid request raised {type(e).__name__}: {e}", key="raises")
    gen.compare(ctx, "C backend", q, got, want)
    ctx.cover("valid")
    for _ in range(2):
        n = len(s.z)
        k = ctx.pick(2, ctx.i(2, n), n, n + ctx.i(1, 1000))
        try:
            g1 = run(ctx, obj, q, n_closest_points=k)
        except ValueError as e:
            if "Singular" in str(e):
                continue
            raise Violation(f"valid request raised {e}", key="raises")
        try:
            g2 = gen.execute(ctx, obj, q, "loop", n_closest_points=k)
        except Violation:
            continue        # a window too ill-conditioned for the Python solver
        # uninitialised memory reads as NaN
        w = q.valid & np.isfinite(q.flat(g2[0])) & np.isfinite(q.flat(g2[1]))
        ctx.require(np.isfinite(q.flat(g1[0])[w]).all() and np.isfinite(q.flat(g1[1])[w]).all(),
                    f"C backend window {k}: not finite where the Python loop is", key="uninitialised")
        if k >= n:
            gen.compare(ctx, "C backend, window of all data", q, g1, want)
        ctx.cover("window")


def repeated(ctx, s):
    g = np.r_[np.arange(len(s.X)), ctx.rng.integers(len(s.X), size=ctx.i(1, 5))]
    s.X, s.z = s.X[g], s.z[g]
    ctx.cover("repeated")


def big(ctx):
    s = ok_scenario(ctx, n=(100, 300), pinv=0.1, geo=ctx.chance(0.2))
    m = ctx.i(500, 4000)
    q = gen.request(ctx, s, style="points", m=m, convert=False)
    obj = s.build(ctx)
    k = ctx.pick(None, 2, ctx.i(3, 12))
    kw = {} if k is None else dict(n_closest_points=k)
    try:
        got = run(ctx, obj, q, **kw)
    except (ValueError, np.linalg.LinAlgError) as e:
        if "ingular" in str(e):
            raise Skip("singular")
        raise
    ctx.require(np.shape(got[0]) == (m,) and np.shape(got[1]) == (m,), "shape", key="shape")
    if k is None:
        Z, V, tz, tv, ok = s.answer(q.Q[:50])
        for i, (w, t) in enumerate(((Z, tz), (V, tv))):
            ctx.close("C backend, many points", np.asarray(got[i])[:50], w, t, where=ok)
    ctx.cover("big")


def junk_points(ctx, s, m):
    P = gen.query_points(ctx, s, max(m, 1))[:m]
    bad = ctx.pick(np.nan, np.inf, -np.inf, 1e155, 1e200, -1e300, 1e308, 1e30, 5e-324, 0.0)
    for _ in range(ctx.i(0, 3)):
        if len(P):
            P[ctx.i(0, len(P) - 1), ctx.i(0, 1)] = bad
    return P, bad


def hostile(ctx):
    s = ok_scenario(ctx, n=(2, 25), pinv=0.35, geo=None)
    if ctx.chance(0.3):
        repeated(ctx, s)
    if ctx.chance(0.15):
        # extreme data coordinates
        s.X[ctx.i(0, len(s.X) - 1), ctx.i(0, 1)] *= ctx.pick(1e160, 1e200, 1e100)
        s.z[ctx.i(0, len(s.z) - 1)] = ctx.pick(np.inf, np.nan, 1e308, 0.0)
        ctx.cover("hostile:data")
    ctx.cover("hostile")
    n = len(s.X)
    try:
        obj = gen.classes()["ok"](*s.coords(), s.z, **s.kwargs())
    except Exception:
        ctx.checks += 1
        return
    q = gen.Request()
    for _ in range(6):
        kind = ctx.pick("points", "points", "grid", "masked", "masked")
        m = ctx.pick(0, 1, 2, ctx.i(3, 20))
        P, bad = junk_points(ctx, s, m)
        x, y = P[:, 0], P[:, 1]
        if ctx.chance(0.15):
            y = y[:-1]
        if ctx.chance(0.1):
            x = ctx.pick(list(x), x.astype(np.float32), x[:, None], "abc", None, x.reshape(1, -1), 3.0,
                         np.asfortranarray(np.stack([x, x])), x.astype(complex), x.astype(object))
        kw = {}
        if kind == "masked":
            sh = (len(y), np.size(x)) if not ctx.chance(0.2) else (ctx.i(0, 5), ctx.i(0, 5))
            M = ctx.rng.random(sh) < ctx.pick(0, 0.5, 1)
            t = ctx.pick("bool", "int", "uint8", "float", "F", "strided", "list", "none", "flat")
            if t == "int":
                M = M.astype(np.int64) * 300
            elif t == "uint8":
                M = M.astype(np.uint8) * 255
            elif t == "float":
                M = np.where(M, np.nan, 0.0)
            elif t == "F":
                M = np.asfortranarray(M)
            elif t == "strided":
                M = np.repeat(np.repeat(M, 2, 0), 3, 1)[::2, ::3]
            elif t == "list":
                M = M.tolist()
            elif t == "flat":
                M = M.ravel()
            if t != "none":
                kw["mask"] = M
        if ctx.chance(0.65):
            k = ctx.pick(2, 2, 3, n, n + 1, 0, 1, -1, -n, 10 ** 6, 2 ** 31, 2 ** 63, 2.0, 2.5, np.int8(3), np.uint64(2),
                         True, "2", [2, 3], np.nan, n - 1, n + 2)
            if isinstance(k, int) and k > n:
                ctx.cover("hostile:huge-window")
            kw["n_closest_points"] = k
        q.args, q.kw = [kind, x, y], {}
        ctx.note(last=dict(style=kind, x=x, y=y, kw=repr(kw)))
        try:
            r = run(ctx, obj, q, **kw)
        except Violation:
            raise
        except Exception:
            ctx.cover("hostile:raised")
            ctx.checks += 1
            continue
        ctx.require(np.shape(r[0]) == np.shape(r[1]), "shapes of values and variances differ", key="shape")
        ctx.cover("hostile:returned")


def threads(ctx):
    objs = []
    for _ in range(ctx.i(1, 2)):
        s = ok_scenario(ctx, n=(3, 40), pinv=0.1)
        obj = s.build(ctx)
        for _ in range(2):
            q = gen.request(ctx, s, convert=False)
            kw = {} if ctx.chance(0.5) else dict(n_closest_points=ctx.i(2, len(s.z)))
            try:
                objs.append((obj, q, kw, run(ctx, obj, q, **kw)))
            except (ValueError, np.linalg.LinAlgError) as e:
                if "ingular" not in str(e):
                    raise
    if not objs:
        raise Skip("singular")
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    errs = []
    jobs = [objs[j % len(objs)] for j in range(ctx.i(3, 6))]
    gate = threading.Barrier(len(jobs))

    def work(obj, q, kw, want):
        try:
            gate.wait(20)
            for _ in range(4):
                r = obj.execute(*q.args, backend="C", **q.kw, **kw)
                for a, b in zip(r, want):
                    if not np.array_equal(q.flat(a), q.flat(b), equal_nan=True):
                        errs.append("result differs from the one alone")
        except Exception as e:
            errs.append(f"{type(e).__name__}: {e}")
    ts = [threading.Thread(target=work, args=j, daemon=True) for j in jobs]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    ctx.events += 4 * len(jobs)
    ctx.require(not errs, "concurrent C requests: " + (errs[0] if errs else ""), key="threads")
    ctx.cover("threads")
