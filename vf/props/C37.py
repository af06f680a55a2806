import os
import warnings

import numpy as np
from vf import gen
from vf.main import Skip, Violation

RULE = ("Non-interference, observed on three runs of the same request: one number of the input (evaluation coordinate, datum, data "
        "coordinate, drift value, well, parameter, anisotropy, written grid cell) is once not a number and twice an ordinary number; "
        "whatever the first run reports as a finite number has to be what both other runs report, anything that depends on the bad "
        "number has to be not-a-number or an exception, and one bad evaluation point leaves the results of all others what they were.")
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "pinv:pinv", "pinv:pinvh", "backend:C", "backend:loop",
            "backend:vectorized", "window", "bad:point", "bad:axis", "bad:value", "bad:coordinate", "bad:spec-data", "bad:spec-array",
            "bad:external", "bad:functional-point", "bad:functional-data", "bad:well", "bad:parameter", "bad:anisotropy", "bad:custom",
            "bad:infinite", "bad:cell", "bad:krige", "model:linear", "model:power", "model:gaussian", "model:spherical", "model:exponential",
            "model:hole-effect", "outcome:refused", "outcome:nan", "fitted", "masked-out", "independent", "update"]
DEPENDS, LOCAL = "entries-nan", "others-compared"


def same(a, b, tol):
    return np.abs(a - b) <= tol


class Run:
    """values and variances, or the exception"""

    def __init__(self, ctx, call):
        ctx.events += 1
        self.z = self.ss = self.exc = None
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                r = call()
            except Exception as e:
                self.exc = e
                return
        self.z, self.ss = (np.asarray(np.ma.getdata(a), float).reshape(-1) for a in r)


def judge(ctx, bad, A, B, valid, what, tol, fitted=False):
    """finite entries of the run with the bad number do not depend on it"""
    ctx.checks += 1
    if bad.exc is not None:
        ctx.cover("outcome:refused")
        return
    for k, nm in (("z", "estimate"), ("ss", "variance")):
        if fitted and nm == "variance" and what == "value":
            continue        # a fit leaves out lag bins without a mean, as it does empty ones
        b, p, q = (getattr(r, k) for r in (bad, A, B))
        f = np.isfinite(b) & valid
        t = tol[k]
        wrong = f & ~(same(b, p, t) & same(b, q, t))
        if wrong.any():
            j = int(np.flatnonzero(wrong)[0])
            ctx.fail(f"{what} is not a number, and the {nm} at entry {j} is {b[j]!r} "
                     f"(with ordinary numbers in its place: {p[j]!r}, {q[j]!r})", key=what + "-becomes-number")
        ctx.cover("independent", n=int(f.sum()))
        n = int((valid & ~np.isfinite(b)).sum())
        ctx.checks += int(valid.sum())
        if n:
            ctx.cover("outcome:nan")
            ctx.cover(DEPENDS, n=n)


def cells(ctx):
    """grids with missing numbers, written and read"""
    from pykrige import kriging_tools as kt
    from vf import grids
    ny, nx = ctx.i(1, 6), ctx.i(1, 6)
    z = ctx.rng.normal(size=(ny, nx)) * ctx.lu(1e-3, 1e5)
    M = ctx.rng.random((ny, nx)) < 0.3
    M.flat[ctx.i(0, M.size - 1)] = True
    z[M] = np.nan
    x, y = 3. + 2. * np.arange(nx), -1. + 2. * np.arange(ny)
    if min(nx, ny) < 2:
        raise Skip("small")
    ctx.cover("bad:cell")
    ctx.note(z=z)
    zmap = ctx.chance(0.4)
    arr = np.ma.array(z, mask=False) if ctx.chance(0.3) else z
    with grids.Scratch() as d:
        f = os.path.join(str(d), "g")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if zmap:
                try:
                    kt.write_zmap_grid(x, y, arr, filename=f)
                    got = kt.read_zmap_grid(f)[0]
                except Exception:
                    ctx.cover("outcome:refused")
                    return
            else:
                try:
                    kt.write_asc_grid(x, y, arr, filename=f, style=ctx.pick(1, 2))
                    got = kt.read_asc_grid(f)[0]
                except Exception:
                    ctx.cover("outcome:refused")
                    return
    g = np.ma.getdata(got).astype(float)
    hid = np.ma.getmaskarray(got) | ~np.isfinite(g) | (g == -999.0)
    ctx.require(g.shape == z.shape, "shape", key="cell-shape")
    if (M & ~hid).any():
        ctx.fail(f"cells that are not numbers were read back as {g[M & ~hid][:3]}", key="cell-becomes-number")
    if (hid & ~M).any():
        ctx.fail("ordinary cells beside not-a-number cells are missing", key="cell-lost")
    ctx.cover("outcome:nan")


class Sub:
    """a function that gives the bad number at a chosen place"""

    def __init__(self, f, ref, bad):
        self.f, self.ref, self.bad = f, ref, bad

    def __call__(self, *a):
        out = np.array(self.f(*a), float)
        hit = np.ones(np.shape(out), bool)
        for c, r in zip(a, self.ref):
            hit = hit & (np.abs(np.asarray(c, float) - r) <= 1e-9 * (1 + abs(r)))
        out[hit] = self.bad
        return out


class Gap:
    """a custom variogram that has no value at some distances"""

    def __init__(self, f, lo, bad):
        self.f, self.lo, self.bad = f, lo, bad

    def __call__(self, p, d):
        g = np.array(self.f(p, d), float)
        with np.errstate(invalid="ignore"):
            g = np.where(np.asarray(d) > self.lo, self.bad, g)
        return g


def case(ctx):
    if ctx.chance(0.06):
        return cells(ctx)
    where = ctx.pick("point", "point", "point", "axis", "value", "value", "coordinate", "coordinate", "spec-data", "spec-array", "external",
                     "functional-point", "functional-data", "well", "parameter", "parameter", "anisotropy", "custom")
    kind = {"spec-data": "specified", "spec-array": "specified", "external": "external_Z", "functional-point": "functional",
            "functional-data": "functional", "well": "point_log"}.get(where)
    kw = {}
    if kind:
        cls = "uk" if kind in ("external_Z", "point_log") else ctx.pick("uk", "uk3")
        kw["kinds"] = (kind,)
        kw["drift"] = True
    else:
        cls = ctx.pick("ok", "ok", "ok3", "uk", "uk3")
    if where == "anisotropy":
        kw["geo"] = False
    elif cls == "ok":
        kw["geo"] = ctx.chance(0.25)
    s = gen.scenario(ctx, cls=cls, n=(21, 50) if ctx.chance(0.1) else (4, 14), custom=1.0 if where == "custom" else 0.1, **kw)
    n, d = len(s.z), s.dim
    ctx.cover("model:" + s.vario.name, "bad:" + where)
    style = "points" if where in ("point", "functional-point") else ctx.pick("grid", "masked") if where == "axis" else None
    q = gen.request(ctx, s, style=style, convert=False, large=False, m=ctx.i(2, 9) if style == "points" else None)
    fitted = where in ("value", "coordinate", "point") and s.vario.name in ("linear", "power", "gaussian", "spherical", "exponential", "hole-effect") \
        and ctx.chance(0.25)
    window = None
    if cls in ("ok", "ok3") and n > 4 and not fitted and ctx.chance(0.35):
        window = ctx.i(2, min(n - 1, 8))
    backend = ctx.pick(*gen.backends(s, window is not None))
    krige = where == "point" and cls in ("ok", "uk", "ok3") and not fitted and window is None and ctx.chance(0.15) and \
        "specified" not in s.drift.terms and not s.geo
    if "external_Z" in s.drift.terms and backend == "C":
        backend = "loop"
    infinite = where in ("point", "axis") and ctx.chance(0.2)
    NAN = ctx.pick(np.inf, -np.inf) if infinite else np.nan
    if infinite:
        ctx.cover("bad:infinite")
    later = where in ("parameter", "anisotropy") and ctx.chance(0.4)
    C = gen.classes()[cls]
    base = s.kwargs()
    if fitted:
        base.pop("variogram_parameters", None)
        ctx.cover("fitted")
    # where exactly
    i = ctx.i(0, n - 1)
    k = ctx.i(0, d - 1)
    m = len(q.Q)
    j = ctx.i(0, m - 1)
    ax = ctx.i(0, d - 1)
    aj = ctx.i(0, len(q.axes[ax]) - 1)
    pn = None
    if where == "parameter":
        par = base.get("variogram_parameters")
        if not isinstance(par, (list, tuple, dict, np.ndarray)) or len(par) < 1:
            raise Skip("parameters")
        names = list(par) if isinstance(par, dict) else list(range(len(par)))
        pn = names[ctx.i(0, len(names) - 1)]
    if where == "anisotropy":
        names = ["anisotropy_scaling", "anisotropy_angle"] if d == 2 else \
            ["anisotropy_scaling_y", "anisotropy_scaling_z", "anisotropy_angle_x", "anisotropy_angle_y", "anisotropy_angle_z"]
        pn = ctx.pick(*names)
    fi = 0
    if where == "spec-data" or where == "spec-array":
        fi = ctx.i(0, len(s.drift.spec_fun) - 1)
    if where.startswith("functional"):
        fi = ctx.i(0, len(s.drift.funcs) - 1)
    if where == "well":
        W0 = np.atleast_2d(np.asarray(s.drift.wells_user, float)).copy()
        wi, wk = ctx.i(0, len(W0) - 1), ctx.i(0, 2)
    if where == "external":
        ei, ej = (ctx.i(0, w - 1) for w in s.drift.ext_user[0].shape)
    ctx.note(where=where, i=i, k=k, j=j, ax=ax, aj=aj, pn=pn, fi=fi, backend=backend, window=window, fitted=fitted, krige=krige, later=later,
             infinite=infinite)
    raw = (s.X[i] if where == "functional-data" else q.Q[j]) if where.startswith("functional") else None
    place = None if raw is None else [float(v) for v in s.adj(raw[None])[0]]

    def run(v, at=backend):
        """the request with v at the chosen place"""
        X, z = s.X.copy(), s.z.copy()
        kw = dict(base)
        ek = dict(q.kw)
        axes = [a.copy() for a in q.axes]
        up = None
        if where == "value":
            z[i] = v
        elif where == "coordinate":
            X[i, k] = v
        elif where == "point":
            axes[k][j] = v
        elif where == "axis":
            axes[ax][aj] = v
        elif where == "spec-data":
            kw["specified_drift"] = [np.array(a, float) for a in kw["specified_drift"]]
            kw["specified_drift"][fi][i] = v
        elif where == "spec-array":
            A = [np.array(a, float) for a in ek["specified_drift_arrays"]]
            A[fi] = np.array(s.drift.spec_fun[fi](q.Q).reshape(q.shape), float)
            A[fi].reshape(-1)[j] = v
            ek["specified_drift_arrays"] = A
        elif where == "external":
            E = np.array(kw["external_drift"], float)
            E[ei, ej] = v
            kw["external_drift"] = E
        elif where.startswith("functional"):
            F = list(kw["functional_drift"])
            F[fi] = Sub(F[fi], place, v)
            kw["functional_drift"] = F
        elif where == "well":
            W = W0.copy()
            W[wi, wk] = v
            kw["point_drift"] = W
        elif where == "parameter":
            p = base["variogram_parameters"]
            p = dict(p) if isinstance(p, dict) else [float(t) for t in p]
            p[pn] = v
            if later:
                up = dict(kw, variogram_parameters=p)
            else:
                kw["variogram_parameters"] = p
        elif where == "anisotropy":
            if later:
                up = dict(kw)
                up[pn] = v
            else:
                kw[pn] = v
        elif where == "custom":
            kw["variogram_function"] = Gap(kw["variogram_function"], v[0], v[1])
        if krige:
            from pykrige.compat import Krige
            kk = {a: b for a, b in kw.items() if a in WRAP}
            an = [[kw[a] for a in group if a in kw] for group in (("anisotropy_scaling", "anisotropy_scaling_y", "anisotropy_scaling_z"),
                  ("anisotropy_angle", "anisotropy_angle_x", "anisotropy_angle_y", "anisotropy_angle_z"))]
            if d == 2:
                kk["anisotropy_scaling"], kk["anisotropy_angle"] = ((a or [t])[0:1] for a, t in zip(an, (1., 0.)))
            if "external_drift" in kw:
                kk["ext_drift_grid"] = (kw["external_drift"], kw["external_drift_x"], kw["external_drift_y"])
            est = Krige(method={"ok": "ordinary", "uk": "universal", "ok3": "ordinary3d"}[cls], n_closest_points=None, **kk)
            est.fit(X, z)
            zz = est.predict(np.stack(axes, 1))
            return zz, np.zeros(len(zz))
        o = C(*[X[:, c] for c in range(d)], z, **kw)
        if up is not None:
            names = ("variogram_model", "variogram_parameters", "variogram_function") + tuple(a for a in up if a.startswith("aniso"))
            o.update_variogram_model(**{a: up[a] for a in names if a in up})
        if window is not None:
            ek["n_closest_points"] = window
        return o.execute(q.style, *axes, backend=at, **ek)

    # two ordinary numbers for the same place
    def ordinary():
        if where in ("value",):
            return [float(s.z[i]), float(s.z[i] + np.ptp(s.z) * ctx.u(0.4, 2))]
        if where in ("coordinate", "point", "axis"):
            c = ax if where == "axis" else k
            col = s.X[:, c]
            w = max(float(np.ptp(col)), 1e-3 * s.L)
            lo = float(col.min())
            if s.geo and c == 1:
                lo = min(lo, 88.0)
                return [ctx.u(lo, min(lo + w, 89.0)), ctx.u(lo, min(lo + w, 89.0))]
            a, b = (lo + w * ctx.u(0, 0.45), lo + w * ctx.u(0.55, 1))
            return [a, b] if ctx.chance(0.5) else [b, a]
        if where in ("spec-data", "spec-array"):
            f = s.drift.spec_fun[fi]
            t = float(f((s.X[i] if where == "spec-data" else q.Q[j])[None])[0])
            w = float(np.ptp(f(s.X))) or 1.0
            return [t, t + ctx.u(0.3, 1) * w]
        if where == "external":
            E = np.asarray(base["external_drift"], float)
            return [float(E[ei, ej]), float(E[ei, ej]) + ctx.u(0.3, 1) * (float(np.ptp(E)) or 1.)]
        if where.startswith("functional"):
            f = s.drift.funcs[fi][0]
            t = float(np.asarray(f(*[np.array([p]) for p in place]))[0])
            return [t, t + ctx.u(0.3, 1) * (float(np.ptp(np.asarray(f(*s.adj(s.X).astype(float).T)))) or 1.)]
        if where == "well":
            t = float(W0[wi, wk])
            return [t, t + ctx.u(0.2, 1) * (float(np.ptp(s.X[:, wk])) if wk < 2 else abs(t))]
        if where == "parameter":
            t = float(base["variogram_parameters"][pn])
            if s.vario.name == "power" and (pn == 1 or pn == "exponent"):
                return [t, 0.5 * t]
            if pn == "nugget" or (pn != 0 and isinstance(pn, int) and pn == len(base["variogram_parameters"]) - 1):
                return [t, t + s.vario.mag() * 0.05]
            return [t, t * ctx.u(1.2, 2)]
        if where == "anisotropy":
            return [1.3, 1.9] if "scaling" in pn else [17.0, 61.0]
        if where == "custom":
            g = ctx.u(0.0, 0.9) * s.ext
            return [(g, 0.7 * s.vario.mag()), (g, 1.6 * s.vario.mag())]
    A0, B0 = ordinary()
    v = (A0[0], np.nan) if where == "custom" else NAN
    A, B = Run(ctx, lambda: run(A0)), Run(ctx, lambda: run(B0))
    if A.exc is not None or B.exc is not None:
        ctx.cover("ordinary-refused")
        if where in ("point", "axis") and A.exc is not None:
            ctx.fail(f"an ordinary request raised {A.exc!r}", key="ordinary")
        raise Skip("ordinary numbers refused")
    N = Run(ctx, lambda: run(v))
    ctx.cover("backend:" + backend)
    if window is not None:
        ctx.cover("window")
    if krige:
        ctx.cover("bad:krige")
    if later:
        ctx.cover("update")
    zs = float(np.abs(s.z).max())
    vs = [float(np.abs(r.ss[np.isfinite(r.ss)]).max()) if np.isfinite(r.ss).any() else 0. for r in (A, B)]
    tol = {"z": 1e-7 * zs, "ss": 1e-7 * max(max(vs), 1e-300)}
    valid = q.valid.copy()
    if not infinite:
        judge(ctx, N, A, B, valid, where, tol, fitted)
    if N.exc is None and where in ("point", "axis", "spec-array", "functional-point"):
        # everything else stays what it was
        if where == "axis":
            Q, _ = gen.grid_Q([np.arange(len(a)) == (aj if c == ax else -1) for c, a in enumerate(q.axes)])
            mine = Q[:, ax] > 0
        elif where == "functional-point":
            mine = (np.abs(s.adj(q.Q).astype(float) - np.array(place)) <= 1e-8 * (1 + np.abs(np.array(place)))).all(1)
            if (np.abs(s.adj(s.X).astype(float) - np.array(place)) <= 1e-8 * (1 + np.abs(np.array(place)))).all(1).any():
                raise Skip("at a datum")
        else:
            mine = np.arange(m) == j
        w = valid & ~mine
        for key, nm in (("z", "estimate"), ("ss", "variance")):
            b, p = getattr(N, key)[w], getattr(A, key)[w]
            okp = np.isfinite(p)
            wrong = okp & ~same(b, p, tol[key])
            if wrong.any():
                t = int(np.flatnonzero(wrong)[0])
                ctx.fail(f"one evaluation entry ({where}) is {NAN!r}: the {nm} at another point becomes {b[t]!r} instead of {p[t]!r}",
                         key=where + "-spreads")
            ctx.checks += int(okp.sum())
            ctx.cover(LOCAL, n=int(okp.sum()))
        if (~valid & mine).any():
            ctx.cover("masked-out")


WRAP = ("variogram_model", "variogram_parameters", "drift_terms", "point_drift", "functional_drift", "pseudo_inv", "pseudo_inv_type",
        "exact_values", "variogram_function")
