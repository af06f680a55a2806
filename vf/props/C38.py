import re
import warnings

import numpy as np
from scipy.linalg import LinAlgWarning
from vf import gen, grids
from vf.main import Skip

RULE = ("Every warning is recorded: settings that cannot take effect (anisotropy with geographic coordinates, drift values without a "
        "specified drift, axes that do not fit the grid that is written) have to be announced each time, by every class, at construction "
        "and update, and the results have to be those without the setting; where warnings are turned into exceptions the object "
        "has to stay as it was; calls whose settings all take effect have to be silent.")
CASES = {"quick": 2500, "thorough": 40000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "ignored:anisotropy-init", "ignored:anisotropy-update",
            "ignored:specified", "ignored:grid-size", "ignored:grid-order", "no-effect", "announced", "silent:init", "silent:execute",
            "silent:update", "silent:write", "silent:read", "silent:wrapper", "as-error", "again", "window", "backend:C", "backend:loop",
            "backend:vectorized", "automatic", "statistics", "pinv:pinv", "drift:combined"]
# what NumPy and SciPy report about single operations and matrices is not the package's announcement
FP = re.compile("divide by zero|invalid value|overflow|underflow")


class Seen:
    def __init__(self, mode="always"):
        self.mode = mode

    def __enter__(self):
        self.c = warnings.catch_warnings(record=True)
        self.all = self.c.__enter__()
        warnings.simplefilter(self.mode)
        return self

    def __exit__(self, *a):
        self.c.__exit__(*a)
        return False

    @property
    def list(self):
        return [w for w in self.all if not issubclass(w.category, LinAlgWarning) and not (issubclass(w.category, RuntimeWarning) and FP.search(str(w.message)))]


def heard(ctx, seen, what, cat=Warning):
    ctx.require(any(issubclass(w.category, cat) for w in seen.list), f"{what}: not announced by a warning", key="not-announced")
    ctx.cover("announced")


def silent(ctx, seen, what, where):
    ctx.require(not seen.list, f"{what}: warned {[str(w.message)[:80] for w in seen.list][:2]}", key="not-silent")
    ctx.cover("silent:" + where)


def same(ctx, what, a, b, scale):
    for x, y in zip(a, b):
        ctx.require(np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)), what + ": mask", key="mask")
        x, y = (np.asarray(np.ma.filled(v, 0.), float) for v in (x, y))
        ctx.close(what, x, y, 1e-9 * scale, key="result")


def geographic(ctx):
    s = gen.scenario(ctx, cls="ok", geo=True, n=(4, 20))
    q = gen.request(ctx, s, large=False, convert=False)
    C = gen.classes()["ok"]
    b = ctx.pick(*gen.backends(s))
    sc = ctx.pick(2.0, 0.5, ctx.lu(0.1, 10), 3)
    an = ctx.pick(0.0, 30.0, ctx.u(-180, 180))
    kw = s.kwargs()
    plain = ctx.call("OrdinaryKriging", C, *s.coords(), s.z, **kw)
    want = ctx.call("execute", plain.execute, *q.args, backend=b, **q.kw)
    scale = float(np.abs(s.z).max()) + abs(s.vario.mag())
    ctx.note(scaling_given=sc, angle_given=an)
    up = s.vario.kw()
    if ctx.chance(0.5):
        ctx.cover("ignored:anisotropy-init")
        with Seen() as w:
            o = ctx.call("OrdinaryKriging(anisotropy)", C, *s.coords(), s.z, anisotropy_scaling=sc, anisotropy_angle=an, **kw)
        heard(ctx, w, "anisotropy with geographic coordinates", UserWarning)
        if ctx.chance(0.3):
            with Seen() as w:
                ctx.call("again", C, *s.coords(), s.z, anisotropy_scaling=sc, anisotropy_angle=an, **kw)
            heard(ctx, w, "anisotropy with geographic coordinates, second object")
            ctx.cover("again")
    else:
        ctx.cover("ignored:anisotropy-update")
        o = ctx.call("OrdinaryKriging", C, *s.coords(), s.z, **kw)
        if ctx.chance(0.3):
            ctx.call("execute", o.execute, *q.args, backend=b, **q.kw)
        for t in range(ctx.pick(1, 1, 2)):
            with Seen() as w:
                ctx.call("update(anisotropy)", o.update_variogram_model, anisotropy_scaling=sc, anisotropy_angle=an, **up)
            heard(ctx, w, "anisotropy with geographic coordinates at update", UserWarning)
            if t:
                ctx.cover("again")
    with Seen() as w:
        got = ctx.call("execute", o.execute, *q.args, backend=b, **q.kw)
    silent(ctx, w, "execute", "execute")
    same(ctx, "anisotropy that is ignored", got, want, scale)
    ctx.cover("backend:" + b)
    # default anisotropy, or only an angle, changes nothing and needs no announcement
    with Seen() as w:
        kd = dict(anisotropy_scaling=1.0, anisotropy_angle=0.0)
        o2 = ctx.call("OrdinaryKriging", C, *s.coords(), s.z, **kd, **kw)
        ctx.call("update", o2.update_variogram_model, **kd, **up)
    silent(ctx, w, "default anisotropy", "init")
    ctx.cover("no-effect")
    # announced as an exception: everything as before
    if ctx.chance(0.5):
        with Seen("error"):
            ctx.raises("anisotropy where warnings are exceptions", o2.update_variogram_model, anisotropy_scaling=sc, **up)
        same(ctx, "results after an update that raised", ctx.call("execute", o2.execute, *q.args, backend=b, **q.kw), want, scale)
        ctx.cover("as-error")


def specified(ctx):
    s = gen.scenario(ctx, cls=("uk", "uk3"), n=(6, 20), kinds=("regional_linear", "point_log", "external_Z", "functional"), pinv=0.05)
    q = gen.request(ctx, s, large=False, convert=False)
    o = s.build(ctx)
    b = ctx.pick(*gen.backends(s))
    want = ctx.call("execute", o.execute, *q.args, backend=b, **q.kw)
    extra = [ctx.rng.normal(size=q.shape) for _ in range(ctx.i(1, 2))]
    ctx.cover("ignored:specified", "backend:" + b)
    for t in range(ctx.pick(1, 2)):
        with Seen() as w:
            got = ctx.call("execute(specified_drift_arrays)", o.execute, *q.args, backend=b, specified_drift_arrays=extra, **q.kw)
        heard(ctx, w, "drift values without a specified drift", RuntimeWarning)
        same(ctx, "drift values that are ignored", got, want, 0.)
        if t:
            ctx.cover("again")
    with Seen("error"), np.errstate(all="ignore"):
        ctx.raises("drift values where warnings are exceptions", o.execute, *q.args, backend=b, specified_drift_arrays=extra, **q.kw)
    ctx.cover("as-error")
    same(ctx, "results after an execute that raised", ctx.call("execute", o.execute, *q.args, backend=b, **q.kw), want, 0.)


def files(ctx):
    from pykrige import kriging_tools as kt
    ny, nx = ctx.i(2, 8), ctx.i(2, 8)
    z = ctx.rng.normal(size=(ny, nx))
    dx, dy = ctx.lu(0.1, 10), ctx.lu(0.1, 10)
    x, y = ctx.pick(0., 5.) + dx * np.arange(nx), -3. + dy * np.arange(ny)
    how = ctx.pick("ordinary", "order", "size")
    if how == "order":
        which = ctx.pick("x", "y", "both")
        if which != "y":
            x = x[::-1].copy()
        if which != "x":
            y = y[::-1].copy()
        ctx.cover("ignored:grid-order")
    if how == "size":
        which = ctx.pick("x", "y", "swapped")
        if which == "swapped" and nx == ny:
            which = "x"
        if which == "swapped":
            x, y = 0. + dx * np.arange(ny), 1. + dx * np.arange(nx)
        elif which == "x":
            x = 0. + dx * np.arange(nx + ctx.pick(1, 2, 5))
        else:
            y = 0. + dy * np.arange(ny + ctx.pick(1, 2, 5))
        ctx.cover("ignored:grid-size")
    ctx.note(how=how, shape=z.shape, x=x, y=y)
    style = 1
    if how == "ordinary" and ctx.chance(0.4):
        y = -3. + dx * np.arange(ny)
        style = 2
    with grids.Scratch() as d:
        import os
        f = os.path.join(str(d), "g.asc")
        for t in range(2):
            for name in ("asc", "zmap")[:1 if how == "ordinary" else 2]:
                kw = dict(style=style) if name == "asc" else {}
                with Seen() as w:
                    try:
                        getattr(kt, f"write_{name}_grid")(x, y, z, filename=f, **kw)
                    except (ValueError, AssertionError):
                        # refusing is an announcement, too
                        ctx.require(how != "ordinary", "refused an ordinary grid", key="refused")
                        continue
                if how == "ordinary":
                    silent(ctx, w, "write_asc_grid", "write")
                else:
                    heard(ctx, w, f"axes that do not fit the grid ({how}, {name})", RuntimeWarning)
        if how == "ordinary":
            with Seen() as w:
                ctx.call("read_asc_grid", kt.read_asc_grid, f)
            silent(ctx, w, "read_asc_grid", "read")
            g = os.path.join(str(d), "g.zmap")
            with Seen() as w:
                ctx.call("write_zmap_grid", kt.write_zmap_grid, x, y, z, filename=g)
            silent(ctx, w, "write_zmap_grid", "write")
            with Seen() as w:
                ctx.call("read_zmap_grid", kt.read_zmap_grid, g)
            silent(ctx, w, "read_zmap_grid", "read")


def ordinary(ctx):
    s = gen.scenario(ctx, n=(6, 30), pinv=0.2)
    q = gen.request(ctx, s, large=False)
    kw = s.kwargs()
    C = gen.classes()[s.cls]
    if ctx.chance(0.3) and s.vario.fn is None:
        kw.pop("variogram_parameters", None)
        kw["nlags"] = ctx.i(3, 8)
        ctx.cover("automatic")
    if s.cls == "ok" and ctx.chance(0.3):
        kw["enable_statistics"] = True
        ctx.cover("statistics")
    if kw.get("variogram_model") == "custom" or "variogram_parameters" in kw:
        pass
    with Seen() as w:
        try:
            o = C(*s.coords(), s.z, **kw)
        except ValueError:
            raise Skip("fit")
    silent(ctx, w, "construction", "init")
    k = {}
    if s.cls in ("ok", "ok3") and ctx.chance(0.4):
        k["n_closest_points"] = ctx.i(2, len(s.z))
        ctx.cover("window")
    for b in gen.backends(s, "n_closest_points" in k):
        with Seen() as w:
            gen.execute(ctx, o, q, b, **k)
        silent(ctx, w, "execute", "execute")
    with Seen() as w:
        up = s.vario.kw()
        if not s.geo and ctx.chance(0.5):
            for a in ("anisotropy_scaling", "anisotropy_angle") if s.dim == 2 else ("anisotropy_scaling_y", "anisotropy_angle_z"):
                up[a] = 2.0
        ctx.call("update", o.update_variogram_model, **up)
    silent(ctx, w, "update_variogram_model", "update")
    if s.cls in ("ok", "ok3") and q.style == "points":
        from pykrige.compat import Krige
        e = Krige(method="ordinary" if s.cls == "ok" else "ordinary3d", n_closest_points=ctx.pick(None, 4), **{
            a: v for a, v in s.vario.kw().items()})
        with Seen() as w:
            ctx.call("fit", e.fit, s.X, s.z)
            ctx.call("predict", e.predict, q.Q)
        silent(ctx, w, "wrapper", "wrapper")


def case(ctx):
    ctx.pick(geographic, specified, files, ordinary, ordinary)(ctx)
