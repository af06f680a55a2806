import contextlib
import io
import os
import re

import numpy as np
from vf import gen, ref
from vf.main import Skip
from vf.props.C14 import identical, state

os.environ["MPLBACKEND"] = "Agg"
RULE = ("Random objects of all classes, verbose and plotting or not, go through histories of updates (other models, explicit and "
        "automatic parameters, GSTools models, anisotropies), executes and toggles of both switches; standard output is parsed and "
        "every figure shown is taken apart: printed parameters against the requested ones and the parameters in use (a "
        "fresh object built from the printed numbers has to give the same results), plotted points against the experimental "
        "semivariogram and the model in extended precision, statistics and residual plots against the current ones; nothing "
        "appears unasked, and reports change neither state nor results.")
CASES = {"quick": 1500, "thorough": 20000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "construct:verbose", "construct:silent", "construct:plot",
            "update:verbose", "update:silent", "update:plot", "display", "points", "statistics", "residual-plot", "switch",
            "rebuilt", "auto", "model:linear", "model:power", "model:gaussian", "model:spherical", "model:exponential",
            "model:hole-effect", "model:custom", "gstools", "execute:verbose", "execute:silent", "no-statistics"]
LABELS = {"linear": ("slope", "nugget"), "power": ("scale", "exponent", "nugget")}
OTHER = ("partial sill", "range", "nugget")


class Shown:
    """records every figure that is shown: a list of lists of (n, 2) point arrays"""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.Figure, self.figs = plt, Figure, []
        self.saved = plt.show, Figure.show
        plt.close("all")
        plt.show = lambda *a, **k: [self.take(plt.figure(n)) for n in plt.get_fignums()] and None
        Figure.show = lambda fig, *a, **k: self.take(fig)
        return self

    def take(self, fig):
        pts = []
        for ax in fig.axes:
            for l in ax.lines:
                pts.append(np.asarray(l.get_xydata(), float))
            for c in ax.collections:
                pts.append(np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan))
        self.figs.append(pts)
        self.plt.close(fig)

    def __exit__(self, *a):
        self.plt.show, self.Figure.show = self.saved
        self.plt.close("all")


def watch(ctx, what, fn, *a, **k):
    """(result, printed text, figures shown)"""
    out = io.StringIO()
    with Shown() as sh, contextlib.redirect_stdout(out):
        r = ctx.call(what, fn, *a, **k)
        left = sh.plt.get_fignums()
    ctx.require(not left, f"{what}: a figure was made and never shown", key="plot")
    return r, out.getvalue(), sh.figs


def numbers(text):
    """the labelled numbers in the text, in order: [(label, value)]"""
    num = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf))"
    return [(a.strip().lower(), float(b)) for a, b in re.findall(r"^[ \t]*([A-Za-z][A-Za-z0-9 ]*?)[ \t]*[:=][ \t]*" + num + r"\s*$", text, re.M)]


class Book:
    """what the reports of the object have to show"""

    def __init__(self, s):
        self.s = s
        self.v = s.vario       # None: automatic
        self.gs = None
        self.name = s.vario.name

    def gamma(self, o, h):
        if self.gs is not None:
            return self.gs.variogram(h)
        if self.v is not None:
            return self.v.gamma(h)
        return ref.model(self.name, [float(p) for p in o.variogram_model_parameters], h)

    def size(self, o):
        if self.gs is not None:
            return float(self.gs.sill)
        if self.v is not None:
            return self.v.mag()
        return ref.magnitude(self.name, [float(p) for p in o.variogram_model_parameters])


def curve_ok(bk, o, P):
    if len(P) == 0 or not np.isfinite(P).all():
        return False
    g = np.asarray(bk.gamma(o, P[:, 0]), float)
    return bool((np.abs(P[:, 1] - g) <= 1e-9 * (bk.size(o) + np.abs(g).max())).all())


def plot_of_model(ctx, bk, o, figs, what):
    ctx.require(len(figs) == 1, f"{what}: {len(figs)} figures shown, expected one", key="plot")
    lags, sv = np.asarray(o.lags, float), np.asarray(o.semivariance, float)
    exp = [k for k, P in enumerate(figs[0]) if P.shape == (len(lags), 2) and np.array_equal(P[:, 0], lags)
           and np.array_equal(P[:, 1], sv)]
    ctx.require(exp, f"{what}: the experimental semivariogram is not among what is plotted", key="plot-data", figure=figs[0],
                lags=lags, semivariance=sv)
    ok = [k for k, P in enumerate(figs[0]) if k not in exp[:1] and curve_ok(bk, o, P)
          and P[:, 0].min() <= lags.min() and P[:, 0].max() >= lags.max()]
    ctx.require(ok, f"{what}: nothing plotted shows the {bk.name} model in use", key="plot-model", figure=figs[0],
                want=np.asarray(bk.gamma(o, lags), float))


def printed(ctx, bk, o, text, what, stats):
    got = numbers(text)
    ctx.require(text.strip(), f"{what}: verbose mode printed nothing", key="silent")
    if bk.name in gen.BUILTIN:
        ctx.require(bk.name in text, f"{what}: the {bk.name} model is not named", key="name", text=text)
        for other in gen.BUILTIN:
            if other != bk.name:
                ctx.require(f"'{other}'" not in text, f"{what}: names the {other} model instead of {bk.name}", key="name", text=text)
        par = [float(p) for p in o.variogram_model_parameters]
        seen = {}
        for label, p in zip(LABELS.get(bk.name, OTHER), par):
            v = [b for a, b in got if a == label]
            ctx.require(len(v) == 1 and v[0] == p, f"{what}: {label} printed as {v}, in use is {p!r}", key="printed", text=text)
            seen[label] = v[0]
        if bk.name not in LABELS:
            v = [b for a, b in got if a == "full sill"]
            ctx.require(len(v) == 1 and abs(v[0] - par[0] - par[2]) <= 1e-12 * (abs(par[0]) + abs(par[2])),
                        f"{what}: full sill printed as {v}, in use is {par[0] + par[2]!r}", key="printed", text=text)
        if bk.v is not None:
            for label, p in zip(LABELS.get(bk.name, OTHER), bk.v.par):
                ctx.require(abs(seen[label] - float(p)) <= 1e-9 * (abs(float(p)) + bk.v.mag()),
                            f"{what}: {label} printed as {seen[label]!r}, requested {float(p)!r}", key="printed", text=text)
    if stats:
        statistics(ctx, o, got, what, text)


def statistics(ctx, o, got, what, text):
    for label, v in zip(("q1", "q2", "cr"), (o.Q1, o.Q2, o.cR)):
        p = [b for a, b in got if a == label]
        ctx.require(len(p) == 1 and (p[0] == float(v) or (np.isnan(p[0]) and np.isnan(float(v)))),
                    f"{what}: {label} printed as {p}, is {float(v)!r}", key="statistics", text=text)


def reports(ctx, s, bk, o, stats):
    """random reports, which must leave the object as it is"""
    st = state(o)
    for _ in range(ctx.i(1, 3)):
        t = ctx.pick("display", "points", "statistics", "residual-plot")
        if t == "display":
            _, text, figs = watch(ctx, "display_variogram_model", o.display_variogram_model)
            plot_of_model(ctx, bk, o, figs, "display_variogram_model")
        elif t == "points":
            if not hasattr(o, "get_variogram_points"):
                continue
            r, text, figs = watch(ctx, "get_variogram_points", o.get_variogram_points)
            ctx.require(len(r) == 2 and np.array_equal(r[0], o.lags), "get_variogram_points: lags", key="points", got=r)
            ctx.require(np.shape(r[1]) == np.shape(o.lags) and curve_ok(bk, o, np.stack([r[0], np.asarray(r[1], float)], 1)),
                        f"get_variogram_points: not the {bk.name} model in use", key="points", got=r,
                        want=np.asarray(bk.gamma(o, np.asarray(o.lags, float)), float))
        elif not stats:
            ctx.cover("no-statistics")
            continue
        elif t == "statistics":
            _, text, figs = watch(ctx, "print_statistics", o.print_statistics)
            ctx.require(text, "print_statistics printed nothing", key="silent")
            statistics(ctx, o, numbers(text), "print_statistics", text)
            ctx.require(not figs, "print_statistics shows a figure", key="plot")
            r = o.get_statistics()
            ctx.require(len(r) == 3 and all(a == b or (np.isnan(a) and np.isnan(b)) for a, b in zip(r, (o.Q1, o.Q2, o.cR))),
                        "get_statistics differs from Q1, Q2, cR", key="statistics", got=r)
        else:
            _, text, figs = watch(ctx, "plot_epsilon_residuals", o.plot_epsilon_residuals)
            e = np.asarray(o.epsilon, float)
            ctx.require(np.array_equal(o.get_epsilon_residuals(), e, equal_nan=True), "get_epsilon_residuals", key="residuals")
            ctx.require(len(figs) == 1, f"plot_epsilon_residuals: {len(figs)} figures shown", key="plot")
            ctx.require(any(P.shape == (e.size, 2) and np.array_equal(P[:, 1], e, equal_nan=True) for P in figs[0]),
                        "plot_epsilon_residuals: the residuals are not what is plotted", key="residuals", figure=figs[0], want=e)
        if t != "statistics":
            ctx.require(not text, f"{t}: prints {text[:80]!r}", key="noise")
        ctx.cover(t)
    ctx.require(state(o) == st, "attributes changed by reports", key="state")


def gstools_model(ctx, s):
    import gstools as gs
    M = ctx.pick(gs.Exponential, gs.Spherical, gs.Matern)
    z = max(float(np.var(s.z)), 1e-12)
    return M(dim=s.dim, var=z * ctx.u(0.3, 2), len_scale=s.ext * ctx.u(0.1, 0.8), nugget=ctx.pick(0.0, 0.2 * z))


def case(ctx):
    s = gen.scenario(ctx, n=(3, 22), pinv=0.05)
    kw = s.kwargs()
    bk = Book(s)
    verbose, plot = ctx.chance(0.5), ctx.chance(0.3)
    if not s.geo and ctx.chance(0.08):
        for k in [k for k in kw if k.startswith("aniso")] + ["variogram_parameters", "variogram_function"]:
            kw.pop(k, None)
        kw["variogram_model"] = bk.gs = gstools_model(ctx, s)
        bk.v, bk.name = None, "gstools"
        ctx.cover("gstools")
    elif s.vario.fn is None and ctx.chance(0.25):
        kw.pop("variogram_parameters")
        bk.v = None
        ctx.cover("auto")
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.6)
    if verbose or ctx.chance(0.3):
        kw["verbose"] = verbose
    if plot or ctx.chance(0.3):
        kw["enable_plotting"] = plot
    stats = s.cls != "ok" or kw["enable_statistics"]
    try:
        o, text, figs = watch(ctx, "constructor", lambda: gen.classes()[s.cls](*s.coords(), s.z, **kw))
    except Exception as e:
        if any(t in str(e) for t in ("LinAlgError", "ValueError")):
            raise Skip("singular statistics")
        raise
    ctx.cover("model:" + bk.name)
    q = gen.request(ctx, s, large=False)
    backend = ctx.pick(*[b for b in gen.backends(s) if b != "C"])

    def observed(what, text, figs):
        kind = what.split()[0]
        if verbose:
            printed(ctx, bk, o, text, what, stats)
            ctx.cover(kind + ":verbose")
        else:
            ctx.require(not text, f"{what}: printed although verbose is off", key="noise", text=text)
            ctx.cover(kind + ":silent")
        if plot:
            plot_of_model(ctx, bk, o, figs, what)
            ctx.cover(kind + ":plot")
        else:
            ctx.require(not figs, f"{what}: plotted although plotting is off", key="plot")
    observed("construct", text, figs)
    for _ in range(ctx.i(0, 3)):
        t = ctx.pick("update", "update", "switch-v", "switch-p", "report", "execute", "execute")
        if t == "update":
            k, par = {}, True
            new = Book(s)
            if not s.geo and ctx.chance(0.07):
                new.gs, new.v, new.name = gstools_model(ctx, s), None, "gstools"
                k = dict(variogram_model=new.gs)
                ctx.cover("gstools")
            else:
                v = gen.vario(ctx, s.ext, max(float(np.var(s.z)), 1e-12), nn=s.ext / len(s.z))
                new.v, new.name = v, v.name
                k = v.kw()
                if v.fn is None and ctx.chance(0.3):
                    k.pop("variogram_parameters")
                    new.v = None
                    ctx.cover("auto")
                if not s.geo and ctx.chance(0.3):
                    nm = ("anisotropy_scaling", "anisotropy_angle") if s.dim == 2 else ("anisotropy_scaling_y", "anisotropy_angle_z")
                    k.update({nm[0]: ctx.lu(0.3, 3), nm[1]: ctx.u(-90, 90)})
            try:
                _, text, figs = watch(ctx, "update_variogram_model", o.update_variogram_model, **k)
            except Exception as e:
                if any(t in str(e) for t in ("LinAlgError", "ValueError")):
                    raise Skip("singular statistics")
                raise
            bk.__dict__.update(new.__dict__)
            if s.cls == "ok":
                stats = True
            ctx.cover("model:" + bk.name)
            observed("update", text, figs)
        elif t == "switch-v":
            _, text, figs = watch(ctx, "switch_verbose", o.switch_verbose)
            verbose = not verbose
            ctx.require(bool(o.verbose) == verbose, "switch_verbose did not switch", key="switch")
            ctx.require(not figs, "switch_verbose plots", key="plot")
            ctx.cover("switch")
        elif t == "switch-p":
            _, text, figs = watch(ctx, "switch_plotting", o.switch_plotting)
            plot = not plot
            ctx.require(bool(o.enable_plotting) == plot, "switch_plotting did not switch", key="switch")
            ctx.cover("switch")
        elif t == "report":
            reports(ctx, s, bk, o, stats)
        else:
            try:
                _, text, figs = watch(ctx, "execute", o.execute, *q.args, **dict(q.kw, backend=backend))
            except Exception as e:
                if "LinAlgError" in str(e):
                    raise Skip("singular")
                raise
            ctx.require(bool(text) == verbose, f"execute printed {text[:80]!r} with verbose={verbose}", key="noise")
            ctx.require(not figs, "execute plots", key="plot")
            ctx.cover("execute:" + ("verbose" if verbose else "silent"))

    def run(o, v):
        k = dict(q.kw, backend=backend)
        try:
            r, text, _ = watch(ctx, "execute", o.execute, *q.args, **k)
        except Exception as e:
            if "LinAlgError" in str(e):
                raise Skip("singular")
            raise
        return r
    r1 = run(o, verbose)
    reports(ctx, s, bk, o, stats)
    r2 = run(o, verbose)
    ctx.require(all(identical(a, b) for a, b in zip(r1, r2)), "reports changed the results", key="changed", before=r1, after=r2)
    if bk.name in gen.BUILTIN:
        # the printed numbers, and nothing else, give the same variogram in a new object
        if not o.verbose:
            o.switch_verbose()
        an = {k: kw[k] for k in kw if k.startswith("aniso")}
        k = {k: v for k, v in kw.items() if k not in ("variogram_parameters", "variogram_function", "verbose", "enable_plotting",
                                                      "enable_statistics", "variogram_model")}
        par = o.variogram_model_parameters
        _, text, figs = watch(ctx, "update", o.update_variogram_model, bk.name,
                              [float(p) for p in par] if bk.name in LABELS else
                              dict(psill=float(par[0]), range=float(par[1]), nugget=float(par[2])), **an)
        bk.v = None
        stats = True
        got = dict(numbers(text))
        L = LABELS.get(bk.name, OTHER)
        p = [got.get(l) for l in L] if bk.name in LABELS else dict(psill=got.get(L[0]), range=got.get(L[1]), nugget=got.get(L[2]))
        ctx.require(None not in (p if isinstance(p, list) else p.values()), "update: parameters not printed", key="printed", text=text)
        f, text, figs = watch(ctx, "constructor", lambda: gen.classes()[s.cls](*s.coords(), s.z, variogram_model=bk.name,
                                                                              variogram_parameters=p, **k))
        ctx.require(not text and not figs, "constructor prints or plots by default", key="noise")
        a, b = run(o, True), run(f, False)
        ctx.require(all(identical(x, y) for x, y in zip(a, b)), "an object built from the printed parameters gives other results",
                    key="rebuilt", got=b, want=a)
        ctx.cover("rebuilt")
