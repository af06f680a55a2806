"""Scenario generator: data sets, variograms, anisotropies, drifts and requests, together with the
reference answer (vf.ref) for each of them."""
import array as cells
import math

import numpy as np

from vf import ref
from vf.main import Skip, Violation

LD = np.longdouble
BUILTIN = ("linear", "power", "gaussian", "spherical", "exponential", "hole-effect")
C_MODELS = ("linear", "power", "gaussian", "spherical", "exponential")


# custom variogram functions: conditionally negative definite in every dimension, any input shape
def cu_sqrt(p, h):
    return p[0] * np.sqrt(h) + p[1]


def cu_stable(p, h):
    return p[0] * (1.0 - np.exp(-((h / p[1]) ** 1.5))) + p[2]


def cu_log(p, h):
    return p[0] * np.log1p(h / p[1]) + p[2]


def cu_rational(p, h):
    return p[0] * (1.0 - 1.0 / (1.0 + (h / p[1]) ** 2)) + p[2]


CUSTOM = (cu_sqrt, cu_stable, cu_log, cu_rational)


def classes():
    from pykrige.ok import OrdinaryKriging
    from pykrige.ok3d import OrdinaryKriging3D
    from pykrige.uk import UniversalKriging
    from pykrige.uk3d import UniversalKriging3D
    return {"ok": OrdinaryKriging, "uk": UniversalKriging,
            "ok3": OrdinaryKriging3D, "uk3": UniversalKriging3D}


# ------------------------------------------------------------------ data layouts
def layout(ctx, n, dim, L):
    """n separated points in [0, L]^dim"""
    r = ctx.rng
    kind = ctx.pick("uniform", "uniform", "cluster", "jitter", "line", "ring", "aniso")
    if kind == "line" and n < 4:
        kind = "uniform"
    if kind == "uniform":
        X = r.random((n, dim))
    elif kind == "cluster":
        k = ctx.i(1, 4)
        c = r.random((k, dim))
        X = c[r.integers(k, size=n)] + 0.08 * r.normal(size=(n, dim))
    elif kind == "jitter":
        m = int(math.ceil(n ** (1.0 / dim)))
        g = np.stack(np.meshgrid(*[np.arange(m)] * dim, indexing="ij"), -1).reshape(-1, dim)
        X = (r.permutation(g)[:n] + 0.3 * r.random((n, dim))) / m
    elif kind == "line":
        t = np.sort(r.random(n))
        X = t[:, None] * r.normal(size=dim)[None, :] + 0.02 * r.normal(size=(n, dim))
    elif kind == "ring":
        t = r.random(n) * 2 * np.pi
        X = np.stack([np.cos(t), np.sin(t)] + [r.random(n)] * (dim - 2), 1) + 0.05 * r.normal(size=(n, dim))
    else:
        X = r.random((n, dim)) * np.array([1.0, 0.05, 0.3][:dim])[r.permutation(dim)]
    # separation: keep pairs apart so that coordinates stay distinct after rounding
    for _ in range(20):
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1)) + np.eye(n)
        bad = np.unique(np.where(D < 2e-3 / max(n, 10) ** (1 / dim) * 3)[0])
        if not len(bad):
            break
        X[bad] += 0.05 * r.normal(size=(len(bad), dim))
    if n > 4 and ctx.chance(0.1):      # some locations very close to others
        for _ in range(ctx.pick(1, 1, 2)):
            i, j = r.permutation(n)[:2]
            v = r.normal(size=dim)
            X[i] = X[j] + v / np.linalg.norm(v) * ctx.lu(1e-6, 3e-3)
        ctx.cover("layout:close-pair")
    ctx.cover("layout:" + kind)
    return X * L


def values(ctx, X):
    n = len(X)
    r = ctx.rng
    s = ctx.pick(1.0, 1.0, 10.0, ctx.lu(1e-3, 1e4))
    if ctx.chance(0.08):
        s = ctx.pick(ctx.lu(1e-9, 1e-3), ctx.lu(1e4, 1e9))      # values in very small or large units
        ctx.cover("values:units")
    kind = ctx.pick("normal", "normal", "smooth", "int", "offset", "skew", "neg", "far")
    if kind == "normal":
        z = r.normal(size=n)
    elif kind == "smooth":
        U = (X - X.min(0)) / max(np.ptp(X), 1e-300)
        z = np.sin(3 * U[:, 0]) + U[:, -1] ** 2 + 0.1 * r.normal(size=n)
    elif kind == "int":
        return r.integers(-20, 20, size=n).astype(float) + np.linspace(0, 1, n).round(0)
    elif kind == "offset":
        z = r.normal(size=n) + ctx.u(-30, 30)
    elif kind == "far":
        z = r.normal(size=n) + ctx.pick(-1, 1) * ctx.lu(1e2, 1e5)
    elif kind == "skew":
        z = np.exp(r.normal(size=n))
    else:
        z = -np.abs(r.normal(size=n)) - 1
    return z * s


def pick_n(ctx, lo=3, hi=60):
    t = ctx.rng.random()
    if lo > 32:
        return ctx.i(lo, hi)
    if t < 0.3:
        return ctx.i(lo, max(lo, min(9, hi)))
    if t < 0.85:
        return ctx.i(max(lo, min(9, hi)), max(lo, min(32, hi)))
    return ctx.i(max(lo, min(32, hi)), hi)


# ------------------------------------------------------------------ variogram choice
class Vario:
    """name, user (as passed to pykrige), par (internal order), fn (custom callable)"""

    def __init__(self, name, par, user, fn=None):
        self.name, self.par, self.user, self.fn = name, par, user, fn

    def gamma(self, h):
        if self.fn is not None:
            return np.asarray(self.fn([LD(v) for v in self.par], np.asarray(h, LD)), LD)
        return ref.model(self.name, self.par, h)

    def mag(self):
        if self.fn is not None:
            return 2 * sum(abs(float(v)) for v in self.par[:1]) + abs(float(self.par[-1]))
        return ref.magnitude(self.name, self.par)

    @property
    def nugget(self):
        return float(self.par[-1])

    def kw(self):
        k = dict(variogram_model=self.name, variogram_parameters=self.user)
        if self.fn is not None:
            k["variogram_function"] = self.fn
        return k

    def scaled(self, c=1.0, hscale=1.0):
        """same model with semivariances times c, distances measured in units of hscale"""
        p = [float(v) for v in self.par]
        if self.fn is cu_sqrt:
            q = [p[0] * c / math.sqrt(hscale), p[1] * c]
        elif self.fn is not None:
            q = [p[0] * c, p[1] * hscale, p[2] * c]
        elif self.name == "linear":
            q = [p[0] * c / hscale, p[1] * c]
        elif self.name == "power":
            q = [p[0] * c / hscale ** p[1], p[1], p[2] * c]
        else:
            q = [p[0] * c, p[1] * hscale, p[2] * c]
        return make_vario(self.name, q, fmt="list", fn=self.fn)


def make_vario(name, par, fmt="list", fn=None):
    par = list(par)
    if name == "custom":
        return Vario(name, par, list(par), fn)
    if name == "linear":
        user = list(par) if fmt == "list" else dict(slope=par[0], nugget=par[1])
    elif name == "power":
        user = list(par) if fmt == "list" else dict(scale=par[0], exponent=par[1], nugget=par[2])
    else:
        full = par[0] + par[2]
        if fmt == "psill":
            user = dict(psill=par[0], range=par[1], nugget=par[2])
        elif fmt == "dict":
            user = dict(sill=full, range=par[1], nugget=par[2])
        else:
            user = [full, par[1], par[2]]
        if fmt != "psill":
            par = [full - par[2], par[1], par[2]]
    return Vario(name, par, user)


def vario(ctx, extent, zvar, models=BUILTIN, custom=0.12, nugget=None, nn=None):
    """nn: typical neighbour distance; keeps gaussian-like models from being hopelessly singular"""
    zvar = max(zvar, 1e-24)
    c = zvar * ctx.lu(0.2, 5)
    nug = (0.0 if ctx.chance(0.4) else c * ctx.lu(0.01, 1.0)) if nugget is None else \
        (0.0 if nugget == 0 else c * ctx.lu(0.02, 1.0))
    r = extent * ctx.lu(0.08, 2.0)
    ints = ctx.chance(0.12)
    if ctx.chance(custom):
        fn = CUSTOM[ctx.i(0, len(CUSTOM) - 1)]
        if fn is cu_rational and nug == 0 and nn is not None:
            r = min(r, 1.5 * nn)
        par = [c / math.sqrt(extent), nug] if fn is cu_sqrt else [c, r, nug]
        ctx.cover("model:custom")
        return make_vario("custom", par, fn=fn)
    name = ctx.pick(*models)
    if name == "gaussian" and nug < 1e-3 * c and nn is not None:
        r = min(r, 4 * nn)
    if name == "linear":
        par = [c / extent, nug]
    elif name == "power":
        e = ctx.u(0.05, 1.95)
        par = [c / extent ** e, e, nug]
    else:
        par = [c, r, nug]
    if ints:
        par = [int(max(1, round(v))) for v in par[:-1]] + [int(round(nug))]
        if name == "power":
            par[1] = 1
        ctx.cover("params:int")
    fmt = ctx.pick("list", "dict", "psill")
    ctx.cover("model:" + name, "fmt:" + fmt, "nugget" if par[-1] else "no-nugget")
    return make_vario(name, par, fmt)


# ------------------------------------------------------------------ input containers
def as_input(ctx, a, allow=("array", "list", "column", "strided", "int", "f32", "tuple", "row", "ro")):
    """the same numbers in another container; a must be representable for int/f32 to be used"""
    a = np.asarray(a, float)
    k = ctx.pick(*allow) if ctx.chance(0.6) else "array"
    if k == "strided" and ctx.chance(0.6):
        k = ctx.pick("reversed", "big-endian", "long", "unmasked", "fortran", "buffer", "nested")
        ctx.cover("input:odd")
    if k == "int":
        if np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 31):
            ctx.cover("input:int")
            fits = [k for k in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64)
                    if np.abs(a).max(initial=0) <= np.iinfo(k).max and a.min(initial=0) >= np.iinfo(k).min]
            return a.astype(ctx.pick(*fits))
        k = "list"
    if k == "f32":
        if np.all(a == a.astype(np.float32)):
            ctx.cover("input:f32")
            with np.errstate(over="ignore"):
                half = np.all(a == a.astype(np.float16))
            return a.astype(np.float16 if half and ctx.chance(0.3) else np.float32)
        k = "column"
    ctx.cover("input:" + k)
    if k == "list":
        return a.tolist()
    if k == "tuple":
        return tuple(a.tolist())
    if k == "column":
        return a[:, None].copy()
    if k == "row":
        return a[None, :].copy()
    if k == "strided":
        return np.repeat(a, 2)[::2]
    if k == "reversed":
        return a[::-1].copy()[::-1]
    if k == "big-endian":
        return a.astype(">f8")
    if k == "long":
        return a.astype(np.longdouble)
    if k == "unmasked":
        return np.ma.array(a.copy())
    if k == "fortran":
        return np.asfortranarray(np.stack([a, a], 1))[:, :1]
    if k == "buffer":
        return cells.array("d", a.tolist())
    if k == "nested":
        return [[v] for v in a.tolist()]
    if k == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


# ------------------------------------------------------------------ drifts
def df_quad(c, L, i=0):
    def f(*x):
        return ((x[i] - c[i]) / L) ** 2
    return f


def df_prod(c, L, i=0):
    def f(*x):
        return (x[0] - c[0]) / L * (x[1] - c[1]) / L
    return f


def df_sin(c, L, i=0):
    def f(*x):
        return np.sin(2.0 * (x[i] - c[i]) / L + 0.7)
    return f


def df_lin(c, L, i=0):
    def f(*x):
        return (x[i] - c[i]) / L
    return f


CANON = ("regional_linear", "point_log", "external_Z", "specified", "functional")
DFUNS = (df_quad, df_prod, df_sin, df_lin)


def bilinear(gx, gy, V, x, y):
    """V[j, i] at (gx[i], gy[j]), ascending axes; extended precision"""
    gx, gy, V = np.asarray(gx, LD), np.asarray(gy, LD), np.asarray(V, LD)
    x, y = np.asarray(x, LD), np.asarray(y, LD)
    i = np.clip(np.searchsorted(gx, x, side="right") - 1, 0, len(gx) - 2)
    j = np.clip(np.searchsorted(gy, y, side="right") - 1, 0, len(gy) - 2)
    u = (x - gx[i]) / (gx[i + 1] - gx[i])
    v = (y - gy[j]) / (gy[j + 1] - gy[j])
    return ((1 - u) * (1 - v) * V[j, i] + u * (1 - v) * V[j, i + 1]
            + (1 - u) * v * V[j + 1, i] + u * v * V[j + 1, i + 1])


class Drift:
    """kinds in the order of generation; evaluated by values(raw, adjusted, spec)"""

    def __init__(self):
        self.terms = []
        self.order = []
        self.wells = None
        self.ext = None
        self.spec_fun = []       # specified drift: functions of RAW coordinates (rows -> values)
        self.funcs = []          # functional drift
        self.regional = False
        self.ntypes = 0

    def values(self, raw, adj, centre, scale):
        """reference drift columns at points given by raw and adjusted coordinates (LD)"""
        cols, err = [], []
        raw = np.asarray(raw, LD)
        adj = np.asarray(adj, LD)
        cm = np.abs(adj).max(axis=0).astype(float) if len(adj) else np.zeros(raw.shape[1])
        e = 64 * ref.EPS * (np.abs(np.asarray(centre, float)) + cm).max()
        for t in self.order:
            if t == "regional_linear":
                for k in range(raw.shape[1]):
                    cols.append(adj[:, k])
                    err.append(np.full(len(raw), e))
            elif t == "point_log":
                W = ref.adjust(self.wells[:, :2], centre, scale[0], scale[1])
                for k in range(len(W)):
                    d = np.sqrt(((adj - W[k]) ** 2).sum(axis=1))
                    s = LD(self.wells[k, 2])
                    with np.errstate(all="ignore"):
                        v = np.where(d > 0, -s * np.log(np.where(d > 0, d, 1)), 100 * s)
                    cols.append(v)
                    err.append(np.where(d > 0, np.abs(self.wells[k, 2]) * 3 * e /
                                        np.maximum(d.astype(float), 1e-300), 0))
            elif t == "external_Z":
                gx, gy, V = self.ext
                cols.append(bilinear(gx, gy, V, raw[:, 0], raw[:, 1]))
                slope = max(np.abs(np.diff(V, axis=0)).max() / np.diff(gy).min(),
                            np.abs(np.diff(V, axis=1)).max() / np.diff(gx).min())
                cm0 = np.abs(np.concatenate([gx, gy])).max()
                err.append(np.full(len(raw), 64 * ref.EPS * (slope * cm0 + np.abs(V).max())))
            elif t == "specified":
                for f in self.spec_fun:
                    cols.append(np.asarray(f(raw.astype(float)), float).astype(LD))
                    err.append(np.zeros(len(raw)))
            elif t == "functional":
                for f, lip in self.funcs:
                    cols.append(np.asarray(f(*[adj[:, k] for k in range(adj.shape[1])]), LD))
                    err.append(np.full(len(raw), 4 * lip * e))
        if not cols:
            return np.zeros((len(raw), 0), LD), np.zeros((len(raw), 0))
        return np.stack(cols, 1), np.stack(err, 1)


# ------------------------------------------------------------------ scenarios
class Scn:
    def adj(self, Q):
        if self.geo:
            return np.asarray(Q, LD)
        return ref.adjust(Q, self.centre, self.scaling, self.angle)

    def drift_at(self, Q, adj=None):
        if adj is None:
            adj = self.adj(Q)
        return self.drift.values(Q, adj, self.centre, (self.scaling, self.angle))

    def kwargs(self, vario=True, exact=None, pinv=None):
        k = {}
        if vario:
            k.update(self.vario.kw())
        if self.geo:
            k["coordinates_type"] = "geographic"
        elif self.dim == 2:
            if self.scaling != [1.0] or self.rng_flag:
                k["anisotropy_scaling"] = self.scaling[0]
            if self.angle != [0.0] or self.rng_flag:
                k["anisotropy_angle"] = self.angle[0]
        else:
            for a, v, d in zip(("anisotropy_scaling_y", "anisotropy_scaling_z"), self.scaling, (1., 1.)):
                if v != d or self.rng_flag:
                    k[a] = v
            for a, v in zip(("anisotropy_angle_x", "anisotropy_angle_y", "anisotropy_angle_z"), self.angle):
                if v != 0.0 or self.rng_flag:
                    k[a] = v
        if not self.exact or self.rng_flag:
            k["exact_values"] = self.exact
        if self.pinv:
            k["pseudo_inv"] = True
            k["pseudo_inv_type"] = self.pinv_type
        if self.cls.startswith("uk") and self.drift.terms:
            k.update(self.drift_kwargs())
        return k

    def drift_kwargs(self):
        d = self.drift
        k = {"drift_terms": list(d.terms)}
        if "point_log" in d.terms:
            k["point_drift"] = d.wells_user
        if "external_Z" in d.terms:
            k["external_drift"], k["external_drift_x"], k["external_drift_y"] = d.ext_user
        if "specified" in d.terms:
            k["specified_drift"] = [whole(f(self.X)) for f in d.spec_fun]
        if "functional" in d.terms:
            k["functional_drift"] = [f for f, _ in d.funcs]
        return k

    def coords(self, X=None):
        X = self.X if X is None else X
        return [X[:, k] for k in range(X.shape[1])]

    def build(self, ctx, X=None, z=None, inputs=None, **over):
        K = classes()[self.cls]
        kw = self.kwargs()
        kw.update(over)
        args = inputs if inputs is not None else [*self.coords(X), self.z if z is None else z]
        return ctx.call(f"{K.__name__}(...)", K, *args, **kw)

    def cmag(self):
        a = self.adj(self.X).astype(float)
        if self.geo:
            return 360.0
        return float(max(np.abs(a).max(), np.abs(self.X).max(), np.abs(self.centre).max()))

    def system(self, idx=None, z=None, X=None, vario=None, unbias=True):
        """reference system of all (or the selected) data"""
        X = self.X if X is None else X
        z = self.z if z is None else z
        v = vario or self.vario
        if idx is not None:
            X, z = X[idx], z[idx]
        Xa = self.adj(X)
        F, dF = self.drift_at(X, Xa)
        try:
            return ref.System(Xa, z, v.gamma, v.mag(), self.cmag(), F=F, dF=dF, geo=self.geo,
                              unbias=unbias)
        except ref.IllConditioned as e:
            raise Skip("illconditioned")

    def coincide(self, Q, X=None):
        X = self.X if X is None else X
        Q = np.asarray(Q, float)
        if self.geo:
            c = np.cos(np.radians(Q[:, 1]))[:, None] < 1e-12
            same = (np.remainder(Q[:, None, 0] - X[None, :, 0], 360.0) == 0) | c
            return same & (Q[:, None, 1] == X[None, :, 1])
        return (Q[:, None, :] == X[None, :, :]).all(-1)

    def answer(self, Q, system=None, z=None, exact=None, X=None):
        """reference (z, var, tolz, tolvar, ok) at raw points Q; ok marks points where the bound is
        sharp enough to mean anything and no evaluation point is at an undecidable distance"""
        Q = np.asarray(Q, float)
        S = system or self.system()
        exact = self.exact if exact is None else exact
        Qa = self.adj(Q)
        FQ, dFQ = self.drift_at(Q, Qa)
        co = self.coincide(Q, X)
        if co.shape[1] != S.n:
            raise RuntimeError("coincide: wrong data")
        try:
            Z, V, tz, tv = S.solve(Qa, co, exact=exact, FQ=FQ, dFQ=dFQ, pinv=self.pinv, z=z)
        except ref.IllConditioned:
            raise Skip("illconditioned")
        if self.pinv and S.sv[-1] < 1e-11 * S.sv[0]:
            raise Skip("illconditioned")
        # undecidable: not equal, but so close that rounding decides whether it counts as coincident
        D = S.dist(Qa, S.Xa).astype(float)
        D[co] = np.inf
        floor = 1e-9 + 64 * ref.EPS * S.cmag
        ok = D.min(axis=1) > floor
        if not exact:
            # a jump at zero distance only matters with exact values, but the rounding of a zero
            # distance under rotation does too
            pass
        zs = max(float(np.abs(S.z).max()), 1e-300)
        vs = max(float(np.abs(S.A[:S.n, :S.n]).max()), 1e-300)
        ok &= (tz < 3e-5 * zs) & (tv < 3e-5 * vs)
        ok &= np.isfinite(Z.astype(float)) & np.isfinite(V.astype(float))
        return Z, V, tz, tv, ok

    def describe(self, ctx):
        ctx.note(cls=self.cls, n=len(self.z), model=self.vario.name, par=self.vario.user, fn=getattr(
            self.vario.fn, "__name__", None), scaling=self.scaling, angle=self.angle, geo=self.geo,
            exact=self.exact, pinv=self.pinv and self.pinv_type,
            drift=list(self.drift.terms), X=self.X, z=self.z)
        ctx.mark(self.X, self.z)


def scenario(ctx, cls=("ok", "uk", "ok3", "uk3"), n=None, geo=None, drift=None, models=BUILTIN,
             custom=0.12, aniso=None, nugget=None, exact=None, pinv=0.1, L=None, offset=True,
             kinds=None, X=None):
    s = Scn()
    s.cls = c = ctx.pick(*cls) if isinstance(cls, (tuple, list)) else cls
    s.dim = d = 3 if c.endswith("3") else 2
    s.rng_flag = ctx.chance(0.3)      # pass keyword arguments even when they have the default value
    s.geo = (c == "ok" and ctx.chance(0.15)) if geo is None else geo
    s.drift = Drift()
    s.pinv = ctx.chance(pinv)
    s.pinv_type = ctx.pick("pinv", "pinvh")
    s.exact = (not ctx.chance(0.3)) if exact is None else exact
    want = []
    if c.startswith("uk") and drift is not False:
        avail = kinds or (("regional_linear", "point_log", "external_Z", "specified", "functional")
                          if d == 2 else ("regional_linear", "specified", "functional"))
        if d == 3:
            avail = [t for t in avail if t not in ("point_log", "external_Z")]
        k = ctx.pick(1, 1, 1, 2, 2, 2, 3, 3, len(avail)) if (drift or ctx.chance(0.9)) else 0
        want = [avail[j] for j in ctx.rng.permutation(len(avail))[:k]]
    lo, hi = n or (3, 60)
    if want:
        lo = max(lo, 4 + 3 * len(want) + (2 if d == 3 else 0))
        hi = max(hi, lo)
    N = pick_n(ctx, lo, hi)
    if s.geo:
        L = 1.0
        s.X = sphere(ctx, N)
        s.scaling, s.angle = [1.0], [0.0]
        s.centre = np.zeros(2)
        ext, cov = 60.0, "geo"
        D = ref.gdist(s.X, s.X).astype(float)
        ext = max(D.max(), 1e-3)
    else:
        if L is None:
            L = ctx.pick(1.0, 10.0, 100.0, ctx.lu(1e-2, 1e5), ctx.lu(1.0, 1e4))
            if ctx.chance(0.06):        # coordinates in tiny or huge units
                L = ctx.lu(1e-7, 1e-3) if ctx.chance(0.7) else ctx.lu(1e5, 1e9)
                ctx.cover("coords:units")
        s.X = layout(ctx, N, d, L) if X is None else np.asarray(X, float)
        if X is None:
            if ctx.chance(0.15):       # integer coordinates
                s.X = np.unique(np.round(s.X / L * 1000), axis=0)
                s.X = ctx.rng.permutation(s.X)
                L = 1000.0
                ctx.cover("coords:int")
            elif offset and ctx.chance(0.4):
                s.X = s.X + ctx.rng.choice([-1, 1], size=d) * L * 10 ** ctx.rng.uniform(0, 2.5, size=d)
                ctx.cover("coords:offset")
        N = len(s.X)
        if aniso if aniso is not None else ctx.chance(0.6):
            s.scaling = [ctx.pick(1.0, 2.0, 0.5, ctx.lu(0.1, 10)) for _ in range(d - 1)]
            s.angle = [ctx.pick(0.0, 0.0, 90.0, 45.0, -30.0, 180.0, ctx.u(-360, 720))
                       for _ in range(2 * d - 3)]
            if s.scaling != [1.0] * (d - 1):
                ctx.cover("aniso")
            if any(s.angle):
                ctx.cover("rotated")
            if ctx.chance(0.1):
                s.scaling = [int(math.ceil(v)) for v in s.scaling]
                s.angle = [int(v) for v in s.angle]
        else:
            s.scaling, s.angle = [1.0] * (d - 1), [0.0] * (2 * d - 3)
        s.centre = ref.centre(s.X)
        Xa = s.adj(s.X).astype(float)
        D = np.sqrt(((Xa[:, None] - Xa[None]) ** 2).sum(-1))
        ext = float(D.max())
    s.L, s.ext = L, ext
    D = D + np.eye(N) * 1e300
    D[D < 1e-9 * ext] = 1e300
    nn = float(np.median(D.min(axis=0)))
    s.z = values(ctx, s.X)
    if np.ptp(s.z) == 0:
        s.z[0] += 1.0
    s.vario = vario(ctx, ext, float(np.var(s.z)), models=models, custom=custom, nugget=nugget, nn=nn)
    if want:
        drifts(ctx, s, want)
    ctx.cover("cls:" + s.cls, "exact" if s.exact else "not-exact")
    if s.pinv:
        ctx.cover("pinv:" + s.pinv_type)
    if s.geo:
        ctx.cover("geographic")
    s.describe(ctx)
    return s


def repeats(ctx, s, p=0.1):
    """with a nugget, some locations are measured more than once: the system stays regular, the semivariance
    between such data is the nugget, and an evaluation point there is at zero distance of all of them"""
    if s.vario.nugget <= 1e-3 * s.vario.mag() or not ctx.chance(p):
        return
    n = len(s.z)
    extra = ctx.pick([ctx.i(0, n - 1)], [ctx.i(0, n - 1)] * ctx.i(2, 5), ctx.rng.integers(n, size=ctx.i(1, n)).tolist())
    g = ctx.rng.permutation(np.r_[np.arange(n), extra])
    s.X, s.z = s.X[g], s.z[g] + np.where(ctx.chance(0.3), 0.0, ctx.rng.normal(size=len(g)) * np.ptp(s.z))
    ctx.cover("repeated-locations")
    s.describe(ctx)


def sphere(ctx, N):
    kind = ctx.pick("world", "region", "dateline", "pole", "equator", "small", "cap")
    r = ctx.rng
    if kind == "world":
        P = np.stack([r.uniform(-180, 180, N), np.degrees(np.arcsin(r.uniform(-0.99, 0.99, N)))], 1)
    elif kind == "region":
        P = np.stack([ctx.u(-180, 180) + r.uniform(0, 12, N), ctx.u(-70, 60) + r.uniform(0, 9, N)], 1)
    elif kind == "dateline":
        P = np.stack([ctx.pick(180., -180., 0.) + r.uniform(-8, 8, N), ctx.u(-50, 50) + r.uniform(-8, 8, N)], 1)
    elif kind == "pole":
        P = np.stack([r.uniform(0, 360, N), ctx.pick(-1, 1) * r.uniform(78, 89.5, N)], 1)
        if N > 4 and ctx.chance(0.4):
            P[0] = [P[0, 0], 90.0 * np.sign(P[1, 1])]
    elif kind == "small":      # a town
        w = ctx.lu(1e-5, 1)
        P = np.stack([ctx.u(-180, 180) + w * r.uniform(0, 1, N), ctx.u(-80, 80) + w * r.uniform(0, 1, N)], 1)
    elif kind == "cap":        # close around a pole
        w = ctx.lu(1e-3, 3)
        P = np.stack([r.uniform(0, 360, N), ctx.pick(-1, 1) * (90 - w * np.sqrt(r.uniform(0.01, 1, N)))], 1)
    else:
        P = np.stack([r.uniform(0, 360, N), r.uniform(-3, 3, N)], 1)
    conv = ctx.pick("pm180", "0-360", "mixed")
    if conv == "0-360":
        P[:, 0] = np.remainder(P[:, 0], 360.0)
    elif conv == "mixed":
        P[:, 0] += 360.0 * r.integers(-1, 2, N)
    if ctx.chance(0.25):      # coarse coordinates, which narrow number types can hold
        Q = np.round(P * 4) / 4
        d = np.c_[np.remainder(Q[:, 0], 360), Q[:, 1]]
        if len(np.unique(d, axis=0)) == N and (np.abs(Q[:, 1]) < 90).all():
            P = Q
            ctx.cover("sphere:quarter-degrees")
    ctx.cover("sphere:" + kind)
    return P


def drifts(ctx, s, want):
    d = s.drift
    d.terms = list(want)
    d.order = [t for t in CANON if t in d.terms]
    X, dim = s.X, s.dim
    lo, hi = X.min(0), X.max(0)
    span = np.maximum(hi - lo, 1e-3 * s.L)
    Xa = s.adj(X).astype(float)
    La = max(float(np.ptp(Xa, axis=0).max()), 1e-6 * s.L)
    c = [float(v) for v in s.centre]
    if "point_log" in want:
        k = ctx.pick(1, 1, 1, 2, 2, 3)
        W = np.stack([ctx.rng.uniform(lo[0] - 0.3 * span[0], hi[0] + 0.3 * span[0], k),
                      ctx.rng.uniform(lo[1] - 0.3 * span[1], hi[1] + 0.3 * span[1], k),
                      ctx.rng.choice([-1, 1], size=k) * 10 ** ctx.rng.uniform(-1, 1, k)], 1)
        if k > 1 and ctx.chance(0.25):
            W[:, 2] = W[0, 2]
            ctx.cover("wells:equal")
        if span[:2].min() > 6 and ctx.chance(0.3):
            W = np.concatenate([np.round(W[:, :2]), np.sign(W[:, 2:]) * np.ceil(np.abs(W[:, 2:]))], 1)
            ctx.cover("wells:integers")
        elif ctx.chance(0.12):      # a well right next to a datum
            t = ctx.u(0, 6.3)
            W[0, :2] = X[ctx.i(0, len(X) - 1), :2] + s.L * ctx.lu(1e-13, 1e-2) * np.array([np.cos(t), np.sin(t)])
            ctx.cover("wells:near-datum")
        elif ctx.chance(0.07) and s.angle == [0.0]:      # or at one
            W[0, :2] = X[ctx.i(0, len(X) - 1), :2]
            ctx.cover("wells:at-datum")
        d.wells = W
        d.wells_user = W.copy() if k > 1 or ctx.chance(0.5) else W[0].tolist()
        if ctx.chance(0.3):
            d.wells_user = W.tolist()
        if (W == np.round(W)).all() and np.abs(W).max() < 2 ** 31:
            d.wells_user = ctx.pick(W.astype(np.int64), W.astype(np.int32), W.astype(int).tolist(), W)
    if "external_Z" in want:
        # generous margin: evaluation points lie within 30 % of the extent around the data
        nx, ny = ctx.i(2, 9), ctx.i(2, 9)
        if nx == ny and ctx.chance(0.6):
            ny += 1
        lo2, hi2 = lo - 0.5 * span, hi + 0.5 * span
        if ctx.chance(0.5):
            gx, gy = np.linspace(lo2[0], hi2[0], nx), np.linspace(lo2[1], hi2[1], ny)
        else:
            gx = lo2[0] + (hi2[0] - lo2[0]) * np.cumsum(np.r_[0, ctx.rng.uniform(.2, 1, nx - 1)])
            gy = lo2[1] + (hi2[1] - lo2[1]) * np.cumsum(np.r_[0, ctx.rng.uniform(.2, 1, ny - 1)])
            gx = lo2[0] + (gx - lo2[0]) / (gx[-1] - lo2[0]) * (hi2[0] - lo2[0])
            gy = lo2[1] + (gy - lo2[1]) / (gy[-1] - lo2[1]) * (hi2[1] - lo2[1])
        V = ctx.rng.normal(size=(ny, nx)) * ctx.pick(1.0, 50.0, ctx.lu(1e-2, 1e4)) + ctx.pick(0.0, 0.0, ctx.u(-100, 1000))
        d.ext = (gx, gy, V)
        ux, uy, U = gx, gy, V
        if ctx.chance(0.3):
            ux, U = ux[::-1], U[:, ::-1]
            ctx.cover("ext:desc-x")
        if ctx.chance(0.3):
            uy, U = uy[::-1], U[::-1]
            ctx.cover("ext:desc-y")
        if nx != ny and ctx.chance(0.35):
            U = U.T
            ctx.cover("ext:transposed")
        d.ext_user = (np.array(U), np.array(ux), np.array(uy))
        s.ext_box = (lo2, hi2)
    if "specified" in want:
        k = ctx.pick(1, 1, 1, 2, 2, 3)
        for _ in range(k):
            w = ctx.rng.normal(size=dim) * 3
            ph = ctx.u(0, 6)
            o = ctx.pick(0.0, 0.0, ctx.u(-20, 20))
            q = ctx.pick(1.0, 20.0, ctx.lu(1e-3, 1e6))

            def f(P, w=w, ph=ph, q=q, o=o, lo=lo, span=span):
                U = (np.asarray(P, float) - lo) / span
                return q * (np.sin(U @ w + ph) + 0.5 * U[:, 0] + o)
            if ctx.chance(0.2):         # counts or classes
                q = ctx.pick(5.0, 40.0, 1000.0)

                def f(P, g=f, q=q, o=max(-o, 0.0) + 3.0):
                    return np.round(g(P, q=q) + q * o)
                ctx.cover("drift:integers")
            d.spec_fun.append(f)
    if "functional" in want:
        for _ in range(ctx.pick(1, 1, 1, 2, 2, 3)):
            mk = DFUNS[ctx.i(0, 3 if "regional_linear" not in want else 2)]
            f = mk(c, La, ctx.i(0, dim - 1))
            d.funcs.append((f, 6.0 / La))
        while len(d.funcs) > 1:
            a = np.stack([np.asarray(f(*Xa.T), float) for f, _ in d.funcs])
            a = a - a.mean(1)[:, None]
            a /= np.maximum(np.linalg.norm(a, axis=1), 1e-300)[:, None]
            if np.linalg.svd(a, compute_uv=False)[-1] > 0.03:
                break
            d.funcs.pop()
    for t in want:
        ctx.cover("drift:" + t)
    if len(want) > 1:
        ctx.cover("drift:combined")


def window_answer(ctx, s, q, k, limit=40):
    """like Scn.answer for the ordinary kriging of the k nearest data, found by brute force in extended precision;
    ok leaves out ties and all but `limit` points"""
    n, m = len(s.z), len(q.Q)
    if k >= n:
        return s.answer(q.Q)
    Z, V = np.zeros(m, LD), np.zeros(m, LD)
    tz, tv, ok = np.zeros(m), np.zeros(m), np.zeros(m, bool)
    Qa, Xa = s.adj(q.Q), s.adj(s.X)
    D = (ref.gdist if s.geo else ref.edist)(Qa, Xa)
    todo = np.flatnonzero(q.valid)
    todo = ctx.rng.permutation(todo)
    if len(todo) > limit:
        todo = np.unique(np.r_[todo[:limit - 2], todo.min(), todo.max()])
    for j in todo:
        o = np.argsort(D[j], kind="stable")
        gap = float(D[j][o[k]] - D[j][o[k - 1]])
        if gap < 1e-9 * float(D[j].max()) + 1e-12 * s.cmag():
            ctx.cover("tie")
            continue
        if s.geo and float(D[j][o[k]]) > 175:     # chord length loses resolution near the antipode
            continue
        idx = o[:k]
        try:
            a = s.answer(q.Q[j:j + 1], s.system(idx=idx), X=s.X[idx])
        except Skip:
            continue
        Z[j], V[j], tz[j], tv[j], ok[j] = (t[0] for t in a)
    return Z, V, tz, tv, ok


# ------------------------------------------------------------------ requests
class Request:
    """style, axes (floats) or points, mask; Q: raw points in output order; shape"""

    def flat(self, a):
        return np.ma.getdata(a).reshape(-1)


def query_points(ctx, s, m, data_frac=0.25, near=False):
    """m raw evaluation points: random, outside, exactly at data points, sharing one coordinate"""
    X, d = s.X, s.dim
    n = len(X)
    r = ctx.rng
    if s.geo:
        P = sphere_points(ctx, s, m)
    else:
        lo, hi = X.min(0), X.max(0)
        span = np.maximum(hi - lo, 1e-3 * s.L)
        P = lo + span * r.uniform(-0.25, 1.25, size=(m, d))
        far = r.random(m) < 0.1
        if far.any() and "external_Z" not in s.drift.terms:
            P[far] += span * r.uniform(-2, 2, size=(int(far.sum()), d))
        shared = r.random(m) < 0.15
        for j in np.flatnonzero(shared):
            k = ctx.i(0, d - 1)
            P[j, k] = X[ctx.i(0, n - 1), k]
    if s.geo and ctx.chance(0.15):
        P = np.round(P * 4) / 4
        P[:, 1] = np.clip(P[:, 1], -89.75, 89.75)
    at = r.random(m) < data_frac
    for j in np.flatnonzero(at):
        P[j] = X[ctx.i(0, n - 1)]
    if s.drift.wells is not None and ctx.chance(0.3) and s.angle == [0.0] and m > 1:
        w = s.drift.wells[0, :2]
        if "external_Z" not in s.drift.terms or ((s.ext_box[0] <= w) & (w <= s.ext_box[1])).all():
            P[ctx.i(0, m - 1)] = w
            ctx.cover("query:at-well")
    return P


def sphere_points(ctx, s, m):
    X = s.X
    r = ctx.rng
    base = X[r.integers(len(X), size=m)]
    w = min(4.0, max(float(np.ptp(X[:, 1])), 1e-3))
    P = base + r.normal(size=(m, 2)) * np.array([w, w / 2])
    if np.abs(X[:, 1]).min() > 85 and r.random() < 0.7:
        P[:, 0] = r.uniform(0, 360, m)
    P[:, 1] = np.clip(P[:, 1], -89.9999, 89.9999)
    if ctx.chance(0.3):
        P[:, 0] = np.remainder(P[:, 0], 360)
    w = r.random(m) < 0.15
    P[w] = np.stack([r.uniform(-180, 360, m), r.uniform(-89, 89, m)], 1)[w]
    return P


def axis(ctx, s, k, size):
    """grid axis along coordinate k, often passing through data coordinates"""
    X = s.X
    r = ctx.rng
    if s.geo:
        lo, hi = (X[:, 0].min(), X[:, 0].max()) if k == 0 else (max(X[:, 1].min(), -89), min(X[:, 1].max(), 89))
        lo, hi = min(lo, hi), max(lo, hi)
        span = max(hi - lo, 1.0)
        a = np.sort(np.clip(r.uniform(lo - 0.1 * span, hi + 0.1 * span, size), *((-400, 760) if k == 0 else (-89.5, 89.5))))
    else:
        lo, hi = X[:, k].min(), X[:, k].max()
        span = max(hi - lo, 1e-3 * s.L)
        a = np.linspace(lo - 0.2 * span, hi + 0.2 * span, size) if ctx.chance(0.5) else \
            np.sort(r.uniform(lo - 0.25 * span, hi + 0.25 * span, size))
    for j in range(size):
        if r.random() < 0.25:
            a[j] = X[ctx.i(0, len(X) - 1), k]
    t = r.random()
    if t < 0.5:
        a = np.sort(a)
    elif t < 0.8:
        a = np.sort(a)[::-1].copy()
        ctx.cover("axis:descending")
    else:
        ctx.cover("axis:unsorted")
    return a


def grid_Q(axes):
    if len(axes) == 2:
        gx, gy = np.meshgrid(axes[0], axes[1])
        return np.stack([gx.ravel(), gy.ravel()], 1), gx.shape
    gz, gy, gx = np.meshgrid(axes[2], axes[1], axes[0], indexing="ij")
    return np.stack([gx.ravel(), gy.ravel(), gz.ravel()], 1), gx.shape


def request(ctx, s, style=None, m=None, convert=True, large=True):
    q = Request()
    q.style = style or ctx.pick("points", "grid", "masked")
    d = s.dim
    large = m is None and large and ctx.chance(0.012)
    if large:
        ctx.cover("large-request")
    if q.style == "points":
        if large:
            m = ctx.pick(2 ** ctx.i(5, 11), 100 * ctx.i(1, 20), 1000) + ctx.i(-1, 1)
        m = m or ctx.pick(1, ctx.i(2, 30), ctx.i(2, 30), ctx.i(2, 30))
        q.Q = query_points(ctx, s, m)
        q.shape = (m,)
        q.axes = [q.Q[:, k].copy() for k in range(d)]
        q.mask = None
    else:
        big = 7 if d == 2 else 4
        sizes = [ctx.pick(1, ctx.i(2, big), ctx.i(2, big), ctx.i(2, big)) for _ in range(d)]
        if large:
            big = 50 if d == 2 else 13
            sizes = [ctx.pick(ctx.i(1, big), 2 ** ctx.i(1, 5 if d == 2 else 3) + ctx.i(0, 1)) for _ in range(d)]
        q.axes = [axis(ctx, s, k, sizes[k]) for k in range(d)]
        # an axis can pass exactly through a data point in every coordinate
        if ctx.chance(0.6):
            i = ctx.i(0, len(s.X) - 1)
            for k in range(d):
                q.axes[k][ctx.i(0, sizes[k] - 1)] = s.X[i, k]
        q.Q, q.shape = grid_Q(q.axes)
        q.mask = None
        if q.style == "masked":
            t = ctx.pick("random", "random", "random", "all", "none", "row", "one")
            M = np.zeros(q.shape, bool)
            if t == "random":
                M = ctx.rng.random(q.shape) < ctx.u(0.1, 0.9)
            elif t == "all":
                M[...] = True
            elif t == "row":
                M[ctx.i(0, q.shape[0] - 1)] = True
            elif t == "one":
                M.flat[ctx.i(0, M.size - 1)] = True
            q.mask = M
            ctx.cover("mask:" + t)
        if min(sizes) == 1:
            ctx.cover("axis:single")
    ctx.cover("style:" + q.style)
    q.pass_axes = [as_input(ctx, a) for a in q.axes] if convert else [a.copy() for a in q.axes]
    q.args = [q.style, *q.pass_axes]
    q.kw = {}
    if q.mask is not None:
        mk = q.mask
        if ctx.chance(0.3):
            # only unambiguous if the transposed shape differs
            t = mk.T if d == 2 else mk.swapaxes(0, 2)
            if t.shape != mk.shape:
                mk = t
                ctx.cover("mask:transposed")
        mk = mk.copy()
        q.kw["mask"] = mask_form(ctx, mk)
    if "specified" in s.drift.terms:
        q.kw["specified_drift_arrays"] = spec_arrays(ctx, s, q)
    q.valid = np.ones(len(q.Q), bool) if q.mask is None else ~q.mask.reshape(-1)
    ctx.note(style=q.style, axes=[a for a in q.axes], mask=q.mask)
    return q


def range_hit(ctx, s, q, p=0.4):
    """models that change form at the range: make it (nearly) a distance that occurs"""
    if s.vario.name != "spherical" or s.vario.fn is not None or not len(q.Q) or not ctx.chance(p):
        return
    par = s.vario.par
    i, j = ctx.i(0, len(q.Q) - 1), ctx.i(0, len(s.z) - 1)
    r = float((ref.gdist if s.geo else ref.edist)(s.adj(q.Q[i:i + 1]), s.adj(s.X[j:j + 1]))[0, 0]) * (1 + ctx.pick(-1, 0, 0, 1) * ctx.lu(1e-6, 1e-1))
    if r > 1e-3 * s.ext:
        s.vario = make_vario(s.vario.name, [par[0], r, par[2]])
        ctx.cover("near-range")
        ctx.note(range=r)


def spec_arrays(ctx, s, q):
    out = []
    for f in s.drift.spec_fun:
        v = f(q.Q).reshape(q.shape)
        if q.style != "points":
            t = v.T if s.dim == 2 else v.swapaxes(0, 2)
            if t.shape != v.shape and ctx.chance(0.3):
                v = t.copy()
                ctx.cover("spec:transposed")
        elif ctx.chance(0.2):
            v = v[:, None]
        v = whole(v)
        if ctx.chance(0.1):
            v = v.tolist()
        elif ctx.chance(0.15):
            v = np.asfortranarray(v)
            v.flags.writeable = ctx.chance(0.5)
            ctx.cover("spec:fortran")
        out.append(v)
    return out


def mask_form(ctx, mk):
    if ctx.chance(0.15):
        mk = mk.astype(ctx.pick("int64", "uint8", "int32"))
        ctx.cover("mask:int")
    if ctx.chance(0.1):
        mk = mk.tolist()
        ctx.cover("mask:list")
    elif ctx.chance(0.15):
        mk = ctx.pick(np.asfortranarray(mk), np.repeat(mk, 2, axis=-1)[..., ::2], mk[::-1].copy()[::-1], mk[:, ::-1].copy()[:, ::-1])
        mk.flags.writeable = ctx.chance(0.5)
        ctx.cover("mask:strided")
    return mk


def whole(v):
    """integers are handed over as such, mostly in a type that just holds them"""
    v = np.asarray(v)
    if not v.size or not np.isfinite(v).all() or (v != np.round(v)).any() or np.abs(v).max() > 2 ** 31:
        return v
    kind = int(abs(v.flat[0])) % 5
    if kind == 0:
        return v
    fits = [k for k in (np.uint8, np.int16, np.uint16, np.int32, np.int64) if v.min() >= np.iinfo(k).min and v.max() <= np.iinfo(k).max]
    return v.astype(fits[0] if kind < 4 else fits[-1])


def backends(s, window=False):
    if s.cls == "ok":
        c = ("C",) if s.vario.name in C_MODELS else ()
        return (("loop",) if window else ("vectorized", "loop")) + c
    if s.cls == "ok3" and window:
        return ("loop",)
    return ("vectorized", "loop")


def execute(ctx, obj, q, backend, **kw):
    """-> (z, ss) after shape and mask checks"""
    k = dict(q.kw)
    k.update(kw)
    if "mask" in k and isinstance(k["mask"], np.ndarray) and k["mask"].flags.c_contiguous:
        k["mask"] = k["mask"].copy()
    if backend != "vectorized" or ctx.chance(0.5):
        k["backend"] = backend
    r = ctx.call(f"{type(obj).__name__}.execute({q.style}, {backend})", obj.execute, *q.args, **k)
    ctx.cover("backend:" + backend)
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Violation("execute did not return (values, variances)", key="shape")
    check_shape(q, r[0], "values")
    check_shape(q, r[1], "variances")
    return r


def check_shape(q, a, what):
    if np.shape(a) != q.shape:
        raise Violation(f"{what}: shape {np.shape(a)} for {q.style} request, expected {q.shape}", key="shape")
    if q.style == "masked":
        if not isinstance(a, np.ma.MaskedArray):
            raise Violation(f"{what}: masked request did not return a masked array", key="mask")
        if not np.array_equal(np.ma.getmaskarray(a), q.mask):
            raise Violation(f"{what}: returned mask differs from the requested one", key="mask",
                            got=np.ma.getmaskarray(a), want=q.mask)
    elif np.ma.getmaskarray(a).any():
        raise Violation(f"{what}: unmasked request returned masked entries", key="mask")


def compare(ctx, what, q, got, want, only=None):
    """got: (z, ss) in output shape; want: answer() tuple"""
    Z, V, tz, tv, ok = want
    w = ok & q.valid
    if only is not None:
        w = w & only
    n = ctx.close(what + " estimate", q.flat(got[0]), Z, tz, key="estimate", where=w)
    ctx.close(what + " variance", q.flat(got[1]), V, tv, key="variance", where=w)
    ctx.cover("points-compared", n=n or 0)
    ctx.cover("points-undecided", n=int((q.valid & ~ok).sum()))
    return n
