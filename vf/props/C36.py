import contextlib
import copy
import io
import os
import signal
import sys

import numpy as np
from vf import gen
from vf.main import Skip, Violation
from vf.props.C14 import Flaky, freeze, identical

RULE = ("Fault injection at random points of running calls: objects of all classes (drifts, custom functions, statistics, GSTools) and "
        "wrappers are executed, updated and refitted while KeyboardInterrupt, SystemExit, MemoryError or a cancellation is raised at a "
        "random line of the package, at a random line of any Python code below it, inside a user's function, or by a signal at a "
        "random time; afterwards every attribute has to be bitwise what it was, an earlier request has to give bitwise the "
        "same results, and completed updates have to end in the state of an undisturbed twin.")
CASES = {"quick": 1000, "thorough": 16000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "by:line", "by:anyline", "by:callback", "by:signal",
            "op:update", "op:execute", "op:construct", "op:wrapper-fit", "op:switch", "KeyboardInterrupt", "SystemExit", "MemoryError", "Cancelled",
            "interrupted", "completed", "backend:C", "backend:loop", "backend:vectorized", "window", "drift:point_log", "drift:external_Z",
            "drift:specified", "drift:functional", "update:auto", "update:custom", "update:gstools", "update:anisotropy", "lines", "afterwards-updated", "every-call"]
SRC = os.sep + "pykrige" + os.sep


class Cancelled(BaseException):
    pass


KINDS = (KeyboardInterrupt, KeyboardInterrupt, SystemExit, MemoryError, Cancelled)


class Lines:
    """counts the line events below a call, and raises at one of them"""

    def __init__(self, everywhere, at=None, exc=None):
        self.everywhere, self.at, self.exc, self.n, self.where = everywhere, at, exc, 0, None

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if frame.f_code.co_name == "__del__" or f.startswith("<frozen") or "/vf/" in f:
            return None
        return self.local if self.everywhere or SRC in f else None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                raise self.exc("injected")
        return self.local

    def run(self, call):
        sys.settrace(self.glob)
        try:
            call()
        finally:
            sys.settrace(None)


class Alarm:
    """a signal after some CPU time, as pressing Ctrl-C"""

    def __init__(self, after, exc):
        self.after, self.exc, self.armed, self.where = after, exc, False, None

    def handler(self, num, frame):
        if self.armed:
            self.armed = False
            self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
            raise self.exc("injected")

    def run(self, call):
        old = signal.signal(signal.SIGPROF, self.handler)
        try:
            self.armed = True
            signal.setitimer(signal.ITIMER_PROF, self.after)
            call()
        finally:
            self.armed = False
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)


def everything(o):
    # what has a name of its own; private scratch is judged by the results
    return {k: freeze(v) for k, v in vars(o).items() if not k.startswith("_")}


def process():
    return repr(np.geterr()), repr(np.get_printoptions()), np.random.get_state()[1].tobytes()


def quiet(call):
    with contextlib.redirect_stdout(io.StringIO()):
        return call()


class Bomb(Flaky):
    exc = RuntimeError

    def __call__(self, *a):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise self.exc("injected")
        return self.f(*a)

    def __deepcopy__(self, memo):
        return self


def interrupt(ctx, twin_call, call, bombs):
    """runs call with an exception injected somewhere; returns its description, or None if it completed"""
    exc = ctx.pick(*KINDS)
    by = ctx.pick("line", "line", "line", "anyline", "signal", *(["callback"] * 2 if bombs else []))
    ctx.cover("by:" + by, exc.__name__)
    ctx.events += 2
    once = twin_call

    def twin_call():
        with contextlib.redirect_stdout(io.StringIO()):
            once()
    if by in ("line", "anyline"):
        c = Lines(by == "anyline")
        c.run(twin_call)
        ctx.cover("lines", n=c.n)
        # half of them towards the end, where the state is written
        at = ctx.i(1, c.n) if ctx.chance(0.7) else max(1, c.n - ctx.i(0, 40))
        t = Lines(by == "anyline", at, exc)
    elif by == "signal":
        import time
        twin_call()
        a = time.process_time()
        twin_call()
        t = Alarm(max(1e-4, ctx.u(0, 1.1) * (time.process_time() - a)), exc)
    else:
        twin_call()
        b = bombs[ctx.i(0, len(bombs) - 1)]
        b.exc, b.left = exc, ctx.i(0, ctx.pick(2, 30))
        t = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            t.run(call) if t else call()
    except (KeyboardInterrupt, SystemExit, MemoryError, Cancelled) as e:
        if "injected" not in str(e):
            raise
        if by == "signal" and t.where.startswith("C36.py"):      # just before or after the call
            ctx.cover("between")
            return "between"
        ctx.cover("interrupted")
        return f"{exc.__name__} by {by}" + (f" at {t.where}" if t else "")
    except Exception as e:
        # (SciPy and NumPy may turn a MemoryError of their own into something else)
        if by in ("line", "callback") and not issubclass(exc, Exception) and (t is None or t.where):
            ctx.fail(f"{exc.__name__} by {by}" + (f" at {t.where}" if t else "") + f" became {type(e).__name__}: {e}", key="swallowed")
        raise
    finally:
        for b in bombs:
            b.left = None
    if t is not None and t.where and by == "line" and not issubclass(exc, Exception):
        ctx.fail(f"{exc.__name__} at {t.where} was swallowed", key="swallowed")
    ctx.cover("completed")
    return None


def functions(ctx):
    """every call of a user function is interrupted, one after the other"""
    s = gen.scenario(ctx, cls=("uk", "uk3"), n=(4, 10), pinv=0, drift=False, custom=0.5)
    d = s.dim
    kw = s.kwargs()
    bombs = [Bomb(f) for f in ([lambda *x, k=k: x[k] * 1.0 for k in range(d)] + [lambda *x: x[0] * x[1]])[:ctx.i(2, d + 1)]]
    kw.update(drift_terms=["functional"], functional_drift=list(bombs))
    if s.vario.fn is not None:
        kw["variogram_function"] = v = Bomb(s.vario.fn)
        bombs.append(v)
    K = gen.classes()[s.cls]
    args = [np.array(a, float) for a in (*s.coords(), s.z)]
    q = gen.request(ctx, s, large=False)
    b = ctx.pick("vectorized", "loop")

    def ask():
        return quiet(lambda: obj.execute(*q.args, **dict(q.kw, backend=b)))
    try:
        obj = quiet(lambda: K(*args, **kw))
        want = ask()
    except (ValueError, np.linalg.LinAlgError):
        raise Skip("singular")
    own = everything(obj)
    for m in bombs:
        for left in range(ctx.pick(4, 12)):
            m.exc, m.left = ctx.pick(RuntimeError, KeyboardInterrupt, ValueError, MemoryError), left
            try:
                ask()
            except (RuntimeError, KeyboardInterrupt, ValueError, MemoryError) as e:
                ctx.require("injected" in str(e), f"{s.cls}: {m.exc.__name__} of a user function became {e!r}", key="swallowed")
            else:
                ctx.require(m.left >= 0, f"{s.cls}: {m.exc.__name__} of a user function was swallowed", key="swallowed")
                break
            finally:
                m.left = None
            now = everything(obj)
            diff = [k for k in sorted(set(own) | set(now)) if own.get(k) != now.get(k)]
            ctx.require(not diff, f"{s.cls}: attributes {diff} changed when call {left} of a user function failed", key="state")
            r = ask()
            ctx.require(identical(r[0], want[0]) and identical(r[1], want[1]), f"{s.cls} {b}: results changed after call {left} of a user function "
                        "failed", key="results")
            ctx.cover("every-call")


def case(ctx):
    # not the defaults, nor what a careless piece of code would set
    with np.errstate(divide="warn", over="ignore", under="warn", invalid="warn"):
        checked(ctx)


def checked(ctx):
    if ctx.chance(0.12):
        return wrapper(ctx)
    if ctx.chance(0.08):
        return functions(ctx)
    s = gen.scenario(ctx, n=(3, 14), pinv=0.08)
    K = gen.classes()[s.cls]
    kw = s.kwargs()
    bombs = []
    if s.vario.fn is not None:
        kw["variogram_function"] = Bomb(s.vario.fn)
        bombs.append(kw["variogram_function"])
    if "functional" in s.drift.terms:
        kw["functional_drift"] = [Bomb(f) for f in kw["functional_drift"]]
        bombs += kw["functional_drift"]
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.3)
    args = [np.array(a, float) for a in (*s.coords(), s.z)]

    def build():
        return quiet(lambda: K(*args, **kw))
    try:
        obj = build()
    except (ValueError, np.linalg.LinAlgError):
        raise Skip("singular")
    given = freeze(args)
    q0 = gen.request(ctx, s, large=False)
    b0 = ctx.pick("vectorized", "loop")

    def ask(o):
        return quiet(lambda: o.execute(*q0.args, **dict(q0.kw, backend=b0)))
    try:
        want = ask(obj)
    except (ValueError, np.linalg.LinAlgError):
        raise Skip("singular")
    own, proc = everything(obj), process()

    def intact(what):
        now = everything(obj)
        diff = [k for k in sorted(set(own) | set(now)) if own.get(k) != now.get(k)]
        ctx.require(not diff, f"{s.cls}: {what}: attributes {diff} changed", key="state")
        r = ask(obj)
        ctx.require(identical(r[0], want[0]) and identical(r[1], want[1]), f"{s.cls}: {what}: the earlier request gives other results",
                    key="results")
        ctx.require(freeze(args) == given, f"{s.cls}: {what}: data passed in changed", key="input")
        # (below the package, NumPy's and SciPy's own context managers can be hit)
        ctx.require(" by anyline" in what or " by signal" in what or process() == proc, f"{s.cls}: {what}: settings of the process changed", key="process")

    for _ in range(ctx.i(2, 6)):
        op = ctx.pick("update", "update", "update", "execute", "execute", "construct", "switch")
        # the user's functions are shared, everything else is the twin's own
        twin = copy.deepcopy(obj)
        uf = list(bombs) if op != "update" else [f for f in bombs if f is not kw.get("variogram_function")]
        if op == "execute":
            q = gen.request(ctx, s, large=False)
            window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.4)
            b = ctx.pick(*[b for b in gen.backends(s, window) if b != "C" or obj.variogram_model in gen.C_MODELS])
            k = dict(q.kw, backend=b, **(dict(n_closest_points=ctx.i(2, len(s.z))) if window else {}))
            ctx.cover("backend:" + b, *(["window"] if window else []))

            def do(o):
                o.execute(*q.args, **k)
        elif op == "update":
            how = ctx.pick("auto", "explicit", "explicit", "custom", "gstools" if not s.geo else "custom")
            v = gen.vario(ctx, s.ext, float(np.var(s.z)), custom=0, nn=s.ext / len(s.z))
            k = v.kw()
            if how == "auto":
                k = dict(variogram_model=v.name, nlags=ctx.i(1, 8), weight=ctx.chance(0.5))
            elif how == "custom":
                f = Bomb(gen.cu_sqrt)
                k = dict(variogram_model="custom", variogram_parameters=[float(np.var(s.z)) + 1e-6, 0.1], variogram_function=f)
                uf.append(f)
            elif how == "gstools":
                import gstools as gs
                k = dict(variogram_model=gs.Exponential(dim=s.dim, var=max(float(np.var(s.z)), 1e-9), len_scale=s.ext * ctx.u(0.2, 0.5)))
            if not s.geo and how != "gstools" and ctx.chance(0.5):
                ctx.cover("update:anisotropy")
                k.update(dict(anisotropy_scaling=ctx.u(0.5, 2), anisotropy_angle=ctx.u(-90, 90)) if s.dim == 2 else
                         dict(anisotropy_scaling_y=ctx.u(0.5, 2), anisotropy_angle_z=ctx.u(-90, 90)))
            ctx.cover("update:" + how)

            def do(o):
                o.update_variogram_model(**k)
        elif op == "construct":
            def do(o):
                K(*args, **kw)
            uf = list(bombs)
        else:
            names = ["switch_verbose", "switch_plotting", "get_variogram_points", "get_statistics", "get_epsilon_residuals"]
            name = ctx.pick(*[x for x in names if hasattr(obj, x)])

            def do(o):
                getattr(o, name)()
        ctx.cover("op:" + op)
        for f in uf:
            f.left = None
        try:
            quiet(lambda: do(twin))
        except (ValueError, np.linalg.LinAlgError, TypeError):
            continue            # singular, or nothing to fit
        spare, proc = copy.deepcopy(obj), process()
        what = interrupt(ctx, lambda: do(spare), lambda: do(obj), uf)
        ctx.note(op=op, what=what)
        if what == "between":       # complete, or not begun
            what = "before it began" if everything(obj) == own else None
        if what is not None and op != "switch":
            intact(f"{op} interrupted ({what})")
        elif op in ("execute", "construct"):
            intact(op + " completed")
        elif op == "switch":
            own = everything(obj)
            intact("switch")
        else:
            if op == "update":
                bombs = [f for f in bombs if f is not kw.get("variogram_function")] + [f for f in uf if f not in bombs]
            a, b = everything(obj), everything(twin)
            diff = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x) and x not in ("model", "variogram_function", "functional_drift_terms")]
            ctx.require(not diff, f"{s.cls}: {op} completed, but attributes {diff} differ from those of an undisturbed twin", key="completed")
            own = a
            try:
                want, r = ask(obj), ask(twin)
            except (ValueError, np.linalg.LinAlgError):
                return
            ctx.require(identical(r[0], want[0]) and identical(r[1], want[1]), f"{s.cls}: after {op}, results differ from those of an undisturbed twin",
                        key="twin-results")
        if what is not None and op == "update" and ctx.chance(0.4):
            quiet(lambda: do(obj))
            a, b = everything(obj), everything(twin)
            diff = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x) and x not in ("model", "variogram_function", "functional_drift_terms")]
            ctx.require(not diff, f"{s.cls}: after an interrupted update ({what}), attributes {diff} of the repeated one differ from an "
                        "undisturbed twin's", key="repeated")
            ctx.cover("afterwards-updated")
            bombs = [f for f in bombs if f is not kw.get("variogram_function")] + [f for f in uf if f not in bombs]
            own = a
            try:
                want, r = ask(obj), ask(twin)
            except (ValueError, np.linalg.LinAlgError):
                return
            ctx.require(identical(r[0], want[0]) and identical(r[1], want[1]), f"{s.cls}: after {op}, results differ from those of an undisturbed twin",
                        key="twin-results")


def wrapper(ctx):
    """an interrupted fit or predict leaves the fitted wrapper as it was"""
    from pykrige.compat import Krige
    method = ctx.pick("ordinary", "universal", "ordinary3d", "universal3d")
    d = 3 if method.endswith("3d") else 2
    X, Y = (gen.layout(ctx, ctx.i(5, 14), d, 10.0) for _ in range(2))
    y, w = ctx.rng.normal(size=len(X)), ctx.rng.normal(size=len(Y))
    k = dict(method=method, variogram_model="exponential", n_closest_points=4)
    if ctx.chance(0.6):
        k["variogram_parameters"] = [2.0, 4.0, 0.2]
    e = Krige(**k)
    ctx.mark(X, y)
    try:
        quiet(lambda: e.fit(X, y))
        quiet(lambda: Krige(**k).fit(Y, w))
    except (ValueError, np.linalg.LinAlgError):
        raise Skip("singular")
    Q = X.min(0) + np.ptp(X, axis=0) * ctx.rng.random((4, d))
    want = quiet(lambda: e.predict(Q))
    m, p = e.model, e.get_params()
    own = everything(m)
    for _ in range(ctx.i(1, 4)):
        fit = ctx.chance(0.7)

        def do(o):
            o.fit(Y, w) if fit else o.predict(Q)
        what = interrupt(ctx, lambda: do(copy.deepcopy(e)), lambda: do(e), [])
        ctx.cover("op:wrapper-" + ("fit" if fit else "predict"))
        if what == "between":
            return
        if what is None:
            if fit:
                return
            continue
        ctx.require(e.model is m and everything(m) == own, f"wrapper ({method}): an interrupted call ({what}) replaced or changed the model",
                    key="wrapper")
        ctx.require(identical(quiet(lambda: e.predict(Q)), want), f"wrapper ({method}): predictions changed by an interrupted call ({what})",
                    key="wrapper")
        ctx.require(freeze(list(e.get_params().values())) == freeze(list(p.values())), "wrapper: parameters changed", key="wrapper")
