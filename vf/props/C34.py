import contextlib
import copy
import decimal
import io
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
from vf import gen, grids
from vf.main import Skip, Violation
from vf.props.C14 import Flaky, identical
from vf.props.C32 import Shown

os.environ["MPLBACKEND"] = "Agg"
RULE = ("The process-wide settings (random generators of NumPy and Python, floating-point error handling, print options, warning "
        "filters, locale, working directory, environment, import paths, hooks, signal handlers, streams, threads, open files, directory contents, matplotlib "
        "settings) are snapshot around random constructions, updates, executes of every style and backend, "
        "reports, wrapper and regression calls, grid file reads and writes, also failing ones, and around a fresh import; and the "
        "same calls are repeated under different settings and have to give bitwise the same results and files.")
CASES = {"quick": 1500, "thorough": 20000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "backend:C", "backend:loop", "backend:vectorized", "window",
            "settings:errstate", "settings:print", "settings:seed", "settings:cwd", "settings:recursion", "settings:decimal", "settings:filters", "settings:locale", "settings:buffer",
            "update", "report", "failed", "wrapper", "regression", "classification", "write:asc", "write:zmap", "read:asc", "read:zmap",
            "read:failed", "write:failed", "pathlib", "import", "verbose", "auto", "callback-failed"]


def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in ds:
            out[os.path.relpath(os.path.join(r, f), d) + "/"] = None
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def settings(d=None):
    """name -> comparable value of everything process-wide"""
    s = {}
    st = np.random.get_state()
    s["numpy.random"] = (st[0], st[1].tobytes(), *st[2:])
    s["random"] = random.getstate()
    s["numpy.geterr"] = tuple(sorted(np.geterr().items()))
    s["numpy.geterrcall"] = np.geterrcall()
    s["numpy.printoptions"] = repr(sorted(np.get_printoptions().items(), key=str))
    s["numpy.bufsize"] = np.getbufsize()
    s["warnings.filters"] = [tuple(map(repr, f)) for f in warnings.filters]
    s["warnings.showwarning"] = warnings.showwarning
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["cwd"] = os.getcwd()
    s["environ"] = dict(os.environ)
    s["sys.path"] = list(sys.path)
    s["sys.meta_path"] = list(sys.meta_path)
    s["hooks"] = (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.excepthook)
    s["streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["recursionlimit"] = sys.getrecursionlimit()
    s["switchinterval"] = sys.getswitchinterval()
    s["signals"] = [signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGFPE)]
    s["threads"] = sorted(t.name for t in threading.enumerate())
    s["decimal"] = (decimal.getcontext().prec, decimal.getcontext().rounding)
    m = os.umask(0o22)
    os.umask(m)
    s["umask"] = m
    s["files"] = sorted(filter(None, map(fdname, os.listdir("/proc/self/fd"))))
    s["children"] = children()
    if "matplotlib" in sys.modules:
        import matplotlib
        s["rcParams"] = repr(sorted(matplotlib.rcParams.items()))
    if d is not None:
        s["directory"] = listing(d)
    return s


def fdname(f):
    try:
        t = os.readlink("/proc/self/fd/" + f)
    except OSError:
        return None
    return None if t.startswith("/proc/") else f + " " + t


def children():
    try:
        with open(f"/proc/self/task/{os.getpid()}/children") as f:
            return f.read().split()
    except OSError:
        return []


def unchanged(ctx, before, what, d=None, new=()):
    """new: the file names the call may create or overwrite"""
    after = settings(d)
    for k in before:
        if k == "directory":
            a, b = dict(before[k]), dict(after[k])
            for f in new:
                a.pop(f, None)
                b.pop(f, None)
            ctx.require(a == b, f"{what}: changed files {sorted(set(a) ^ set(b)) or [f for f in a if a[f] != b[f]]}", key="directory")
        elif before[k] != after[k]:
            ctx.fail(f"{what}: {k} changed", key=k, before=repr(before[k])[:300], after=repr(after[k])[:300])
        else:
            ctx.checks += 1


@contextlib.contextmanager
def other_settings(ctx):
    """unusual but harmless settings; results may not depend on them"""
    old = np.geterr(), np.get_printoptions(), np.random.get_state(), random.getstate(), os.getcwd(), sys.getrecursionlimit()
    prec, numeric, buf = decimal.getcontext().prec, locale.setlocale(locale.LC_NUMERIC), np.getbufsize()
    with warnings.catch_warnings():
        try:
            for t in {ctx.pick("errstate", "print", "seed", "cwd", "recursion", "decimal", "filters", "locale", "buffer") for _ in range(3)}:
                ctx.cover("settings:" + t)
                if t == "errstate":
                    np.seterr(all=ctx.pick("ignore", "warn"))
                elif t == "print":
                    np.set_printoptions(precision=ctx.i(0, 4), suppress=True, threshold=3, floatmode=ctx.pick("fixed", "unique"),
                                        legacy=ctx.pick(False, "1.25"))
                elif t == "seed":
                    np.random.seed(ctx.i(0, 1000))
                    random.seed(ctx.i(0, 1000))
                elif t == "cwd":
                    os.chdir("/")
                elif t == "recursion":
                    sys.setrecursionlimit(old[5] + 500)
                elif t == "decimal":
                    decimal.getcontext().prec = 3
                elif t == "buffer":
                    np.setbufsize(4096)
                elif t == "locale":       # decimal commas and digit grouping, or what every C library has
                    os.environ["LOCPATH"] = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native", "locale")
                    try:
                        locale.setlocale(locale.LC_NUMERIC, "xx_XX")
                    except locale.Error:
                        locale.setlocale(locale.LC_NUMERIC, "C.UTF-8")
                else:
                    warnings.simplefilter(ctx.pick("ignore", "always", "default"))
            yield
        finally:
            np.seterr(**old[0])
            np.setbufsize(buf)
            locale.setlocale(locale.LC_NUMERIC, numeric)
            os.environ.pop("LOCPATH", None)
            np.set_printoptions(**old[1])
            np.random.set_state(old[2])
            random.setstate(old[3])
            os.chdir(old[4])
            sys.setrecursionlimit(old[5])
            decimal.getcontext().prec = prec


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return identical(a, b)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b or (a != a and b != b)


def stamped(files):
    """without the date and time a zmap file carries"""
    return {k: v and b"\n".join(l for l in v.split(b"\n") if b"CREATION" not in l) for k, v in files.items()}


def guarded(ctx, what, fn, fails=False, d=None, new=(), stable=True):
    """calls fn twice, in the usual and in other settings; fails: the call may raise"""
    def once():
        ctx.events += 1
        try:
            return "ok", fn()
        except (Violation, Skip, TimeoutError):
            raise
        except Exception as e:
            if not fails and not isinstance(e, (np.linalg.LinAlgError, ValueError)):
                raise Violation(f"{what}: raised {type(e).__name__}: {e}", key="raises")
            return "raised", type(e).__name__
    before = settings(d)
    r = once()
    unchanged(ctx, before, what + (" (failed)" if r[0] != "ok" else ""), d, new)
    if r[0] != "ok":
        ctx.cover("failed")
    files = listing(d) if d else None
    with contextlib.redirect_stderr(io.StringIO()), other_settings(ctx):
        before = settings(d)
        r2 = once()
        unchanged(ctx, before, what + " in other settings", d, new)
    if stable:
        ctx.require(r[0] == r2[0] and equal(r[1], r2[1]), f"{what}: the result depends on process-wide settings", key="depends", first=repr(r)[:300],
                    second=repr(r2)[:300])
        if d:
            ctx.require(stamped(listing(d)) == stamped(files), f"{what}: the file written depends on process-wide settings", key="depends")
    return r


def answers(o):
    st = {k: v for k, v in vars(o).items() if isinstance(v, (np.ndarray, float, int, str)) and not callable(v)}
    return [st[k] for k in sorted(st)] + [list(map(float, o.variogram_model_parameters))]


def kriging(ctx):
    s = gen.scenario(ctx, n=(3, 20), pinv=0.08)
    kw = s.kwargs()
    if s.vario.fn is None and ctx.chance(0.3):
        kw.pop("variogram_parameters")
        ctx.cover("auto")
    if ctx.chance(0.2):
        kw["verbose"] = True
        ctx.cover("verbose")
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.5)
    made = []

    def quiet(fn, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)

    def build():
        made.append(quiet(gen.classes()[s.cls], *s.coords(), s.z, **copy.deepcopy(kw)))
        return answers(made[-1])
    if guarded(ctx, "constructor", build)[0] != "ok":
        raise Skip("singular statistics")
    o = made[-1]
    window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.3)
    for _ in range(ctx.i(1, 3)):
        q = gen.request(ctx, s, large=False)
        b = ctx.pick(*[b for b in gen.backends(s, window) if b != "C" or o.variogram_model in gen.C_MODELS])
        k = dict(q.kw, backend=b)
        if window:
            k["n_closest_points"] = ctx.i(2, len(s.z))
            ctx.cover("window")
        ctx.cover("backend:" + b)
        guarded(ctx, f"execute({q.style}, {b})", lambda: quiet(o.execute, *q.args, **k))
        if ctx.chance(0.2):
            bad = dict(k, backend=ctx.pick("loop", "nonsense"), n_closest_points=ctx.pick(1, 0)) if s.cls.startswith("ok") else dict(k, backend="nonsense")
            guarded(ctx, "invalid request", lambda: quiet(o.execute, *q.args, **bad), fails=True, stable=False)
        if s.vario.fn is not None and o.variogram_model == "custom" and ctx.chance(0.5):
            f = Flaky(o.variogram_function)
            f.left = ctx.i(0, 2)
            old, o.variogram_function = o.variogram_function, f
            k2 = dict(k, backend="loop")
            guarded(ctx, "request with a failing callback", lambda: quiet(o.execute, *q.args, **k2), fails=True, stable=False)
            o.variogram_function = old
            ctx.cover("callback-failed")
        if ctx.chance(0.3):
            v = gen.vario(ctx, s.ext, max(float(np.var(s.z)), 1e-12), nn=s.ext / len(s.z))
            k = v.kw()
            if ctx.chance(0.3) and v.fn is None:
                k.pop("variogram_parameters")

            def update():
                quiet(o.update_variogram_model, **copy.deepcopy(k))
                return answers(o)
            if guarded(ctx, "update_variogram_model", update)[0] != "ok":
                raise Skip("singular statistics")
            ctx.cover("update")
        if ctx.chance(0.15):
            with Shown() as sh:
                plt = sh.plt
                guarded(ctx, "display_variogram_model", lambda: o.display_variogram_model())
                if o.epsilon is not None:
                    guarded(ctx, "plot_epsilon_residuals", lambda: o.plot_epsilon_residuals())
            guarded(ctx, "print_statistics", lambda: quiet(o.print_statistics), fails=True)
            ctx.cover("report")


def learning(ctx):
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LogisticRegression, Ridge
    kind = ctx.pick("wrapper", "regression", "classification")
    method = ctx.pick("ordinary", "universal", "ordinary3d", "universal3d")
    d = 3 if method.endswith("3d") else 2
    n = ctx.i(8, 20)
    X = gen.layout(ctx, n, d, 10.0)
    P = ctx.rng.normal(size=(n, 2))
    y = ctx.rng.normal(size=n) + P[:, 0]
    k = dict(method=method, variogram_model="exponential", variogram_parameters=[2.0, ctx.u(2, 8), 0.2], n_closest_points=ctx.i(2, 8))
    Q, PQ = X.min(0) + np.ptp(X, axis=0) * ctx.rng.random((4, d)), ctx.rng.normal(size=(4, 2))
    ctx.mark(X, y)
    ctx.note(kind=kind, method=method)
    ctx.cover(kind)

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            if kind == "wrapper":
                o = Krige(**k)
                o.fit(X, y)
                return [o.predict(Q), o.score(Q, y[:4])]
            if kind == "classification":
                o = ClassificationKriging(LogisticRegression(), **k)
                o.fit(P, X, np.array(["a", "b", "c"])[np.arange(n) % 3])
            else:
                o = RegressionKriging(Ridge(), **k)
                o.fit(P, X, y)
            return [o.predict(PQ, Q), o.krige_residual(Q)]
    go()      # whatever scikit-learn sets up on first use
    guarded(ctx, kind, go)


def files(ctx):
    import pathlib
    import pykrige.kriging_tools as kt
    with grids.Scratch() as d:
        for k in range(ctx.i(0, 2)):
            with open(os.path.join(d, f"other{k}.asc"), "w") as f:
                f.write("keep me\n" * k)
        kind = ctx.pick("asc", "zmap")
        nx, ny = ctx.i(2, 6), ctx.i(2, 6)
        x, y = ctx.u(-9, 9) + ctx.pick(1.0, 0.5) * np.arange(nx), ctx.u(-9, 9) + np.arange(ny)
        z = ctx.rng.normal(size=(ny, nx)) * ctx.lu(1, 1e4)
        name = ctx.pick("g.asc", "g", "grid file.txt", "g.tar.dat")
        path = os.path.join(d, name)
        p = path
        if ctx.chance(0.3):
            p = pathlib.Path(path)
            ctx.cover("pathlib")
        ctx.mark(z)
        ctx.note(kind=kind, shape=[ny, nx], name=name)
        W, R = (kt.write_asc_grid, kt.read_asc_grid) if kind == "asc" else (kt.write_zmap_grid, kt.read_zmap_grid)
        kw = dict(style=ctx.pick(1, 2)) if kind == "asc" else {}
        if nx > 1 and np.diff(x)[0] != np.diff(y)[0]:
            kw = dict(style=1) if kind == "asc" else {}

        guarded(ctx, f"write_{kind}_grid", lambda: W(x.copy(), y.copy(), z.copy(), filename=p, **kw), d=d, new=(name,))
        ctx.cover("write:" + kind)
        ctx.require(os.path.exists(path), f"write_{kind}_grid: no file {name}", key="file")
        guarded(ctx, f"read_{kind}_grid", lambda: list(R(p)), d=d)
        ctx.cover("read:" + kind)
        bad = ctx.pick("spacing", "cut", "missing")
        if bad == "spacing":
            x2 = x.copy()
            x2[-1] += 0.3
            if nx > 2:
                guarded(ctx, f"write_{kind}_grid of unevenly spaced columns", lambda: W(x2, y, z, filename=os.path.join(d, "bad"), **kw), fails=True,
                        d=d, new=("bad",), stable=False)
                ctx.cover("write:failed")
        elif bad == "cut":
            with open(path) as f:
                t = f.read()
            with open(path, "w") as f:
                f.write(t[:int(len(t) * ctx.u(0, 0.9))])
            guarded(ctx, f"read_{kind}_grid of a damaged file", lambda: list(R(p)), fails=True, d=d)
            ctx.cover("read:failed")
        else:
            guarded(ctx, f"read_{kind}_grid of a missing file", lambda: list(R(os.path.join(d, "nothing"))), fails=True, d=d)
            ctx.cover("read:failed")


def importing(ctx):
    """a fresh import in a forked process whose settings are random"""
    import gstools, matplotlib, sklearn.svm, sklearn.preprocessing, sklearn.model_selection, sklearn.metrics, scipy.spatial  # noqa
    import scipy.linalg, scipy.optimize, scipy.stats  # noqa
    r, w = os.pipe()
    np.random.seed(ctx.i(0, 10 ** 6))
    pid = os.fork()
    if pid == 0:
        msg = "died"
        try:
            os.close(r)
            try:
                for m in [m for m in sys.modules if m.split(".")[0] == "pykrige" and not m.startswith("pykrige.lib")]:
                    del sys.modules[m]
                np.seterr(all=ctx.pick("ignore", "warn", "raise"))
                np.set_printoptions(precision=ctx.i(1, 9))
                warnings.simplefilter(ctx.pick("ignore", "always", "error"))
                before = settings()
                out = io.StringIO()
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    import pykrige, pykrige.ck, pykrige.rk, pykrige.compat, pykrige.kriging_tools, pykrige.core, pykrige.variogram_models  # noqa
                unchanged(ctx, before, "import pykrige")
                msg = "" if not out.getvalue() else "import pykrige prints " + out.getvalue()[:200]
            except Violation as e:
                msg = e.msg + " " + repr(e.detail)[:300]
            except Exception as e:
                msg = f"import raised {type(e).__name__}: {e}"
            os.write(w, msg.encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        msg = f.read().decode()
    os.waitpid(pid, 0)
    ctx.events += 1
    ctx.require(not msg, msg, key="import")
    ctx.cover("import")


def case(ctx):
    t = ctx.rng.random()
    (kriging if t < 0.65 else learning if t < 0.77 else files if t < 0.97 else importing)(ctx)
