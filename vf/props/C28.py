import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Random GSTools covariance models (16 classes, sums of models, spatio-temporal and rescaled ones; random variance, "
        "length scale, nugget, anisotropy, angles) in all four kriging classes and latlon models in geographic "
        "ordinary kriging; objects built with the model and objects updated to it are compared with the reference "
        "system of the model's own variogram on coordinates transformed by the model's own isometrize, and "
        "with objects given the variogram as a custom function. Unsuitable models must be rejected on construction and on update.")
CASES = {"quick": 1500, "thorough": 20000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "backend:loop", "backend:vectorized", "constructed",
            "updated", "custom", "latlon", "aniso", "rotated", "window", "dim1", "sum", "temporal", "nugget",
            "rejected:dim", "rejected:latlon-euclidean", "rejected:latlon-uk", "rejected:not-a-model",
            "style:masked", "updated-back", "drift:functional"]
SMOOTH = ("Gaussian", "Matern", "Rational", "Cubic", "TPLGaussian", "JBessel")
ROUGH = ("Exponential", "Stable", "Linear", "Circular", "Spherical", "HyperSpherical", "SuperSpherical",
         "Integral", "TPLExponential", "TPLStable", "TPLSimple")


class GVario:
    """stands in for gen.Vario: the model's variogram, evaluated by GSTools itself"""
    fn = None
    name = "gstools"

    def __init__(self, m, geo=False):
        self.m, self.geo = m, geo
        self.par = self.user = repr(m)

    def gamma(self, h):
        h = np.asarray(h, float)
        if self.geo:
            if self.m.latlon:
                h = 2 * self.m.geo_scale * np.sin(np.radians(h) / 2)
        sh = h.shape
        # covariance side of the definition: sill - C(h) with C without nugget
        m = self.m
        return np.asarray(m.var + m.nugget - m.covariance(h.ravel()), float).reshape(sh).astype(np.longdouble)

    def mag(self):
        return 20 * (self.m.var + self.m.nugget)

    @property
    def nugget(self):
        return float(self.m.nugget)

    def kw(self):
        return dict(variogram_model=self.m)


def model(ctx, dim, ext, nn, zvar, latlon=False, geo_scale=1.0):
    import gstools as gs
    name = ctx.pick(*ROUGH, *SMOOTH)
    if latlon:
        name = ctx.pick("Exponential", "Matern", "Stable", "Spherical", "Gaussian", "Rational")
    if name in ("Linear", "Circular") or name == "HyperSpherical":
        # valid in one or two dimensions only
        if (name == "Linear") or dim == 3:
            name = "Exponential" if dim == 3 else "Circular"
    kw = dict(var=max(zvar, 1e-6) * ctx.lu(0.2, 5))
    ls = ext * ctx.lu(0.05, 1.0)
    nug = 0.0 if ctx.chance(0.4) else kw["var"] * ctx.lu(0.02, 1)
    if name in SMOOTH and nug < 1e-2 * kw["var"]:
        ls = min(ls, 2 * nn)
    kw["nugget"] = nug
    kw["len_scale"] = ls
    if name == "Matern":
        kw["nu"] = ctx.pick(0.5, 1.5, ctx.u(0.3, 2))
    if name == "Stable":
        kw["alpha"] = ctx.u(0.4, 1.8)
    if latlon:
        kw.update(latlon=True, geo_scale=geo_scale)
    else:
        temporal = dim > 1 and ctx.chance(0.15)
        if temporal:
            kw.update(temporal=True, spatial_dim=dim - 1)
            ctx.cover("temporal")
        else:
            kw["dim"] = dim
        if dim > 1 and ctx.chance(0.75):
            kw["anis"] = [ctx.lu(0.15, 5) for _ in range(dim - 1)]
            ctx.cover("aniso")
        if dim > 1 and ctx.chance(0.7) and not temporal:
            kw["angles"] = [ctx.pick(0.0, ctx.u(-7, 7), np.pi / 2, ctx.u(-3, 3)) for _ in range(2 * dim - 3)]
            ctx.cover("rotated")
        if ctx.chance(0.15):
            kw["rescale"] = ctx.u(0.5, 3)
    m = getattr(gs, name)(**kw)
    ctx.cover("gs:" + name)
    if not latlon and ctx.chance(0.1) and "temporal" not in kw:
        # sum with a second component; same anisotropy
        k2 = {k: v for k, v in kw.items() if k in ("dim", "anis", "angles")}
        m2 = gs.Exponential(var=kw["var"] * 0.5, len_scale=ls * 0.7, **k2)
        m = m + m2
        ctx.cover("sum")
    ctx.note(gs=name, gs_kw=kw)
    return m


def case(ctx):
    if ctx.chance(0.2):
        return reject(ctx)
    geo = ctx.chance(0.15)
    s = gen.scenario(ctx, cls="ok" if geo else ("ok", "uk", "ok3", "uk3"), geo=geo, n=(3, 30), aniso=False, pinv=0.05,
                     custom=0, drift=None if ctx.chance(0.6) else False)
    d = s.dim
    latlon = geo and ctx.chance(0.8)
    D = (ref.gdist if geo else ref.edist)(s.X, s.X).astype(float) + np.eye(len(s.X)) * 1e300
    nn = float(np.median(D.min(1)))
    zv = float(np.var(s.z))
    if latlon:
        import gstools as gs
        R = 1.0     # other values of geo_scale: see DESIGN.md (GSTools itself passes radians on)
        m = model(ctx, 2, np.radians(s.ext) * R, np.radians(nn) * R, zv, True, R)
        ctx.cover("latlon")
    elif geo:
        m = model(ctx, 1, s.ext, nn, zv)
        ctx.cover("dim1")
    elif d == 2 and ctx.chance(0.1):
        m = model(ctx, 1, s.ext, nn, zv)
        ctx.cover("dim1")
    else:
        m = model(ctx, d, s.ext, nn, zv)
    s.vario = GVario(m, geo)
    if not geo and m.dim == d:
        c = np.asarray(s.centre, float)[:, None]
        s.scaling = [1 / float(a) for a in m.anis]
        ang = [float(a) * 180 / np.pi for a in m.angles]
        s.angle = ang if d == 2 else ang[::-1]
        s.adj = lambda Q: (np.asarray(m.isometrize(np.asarray(Q, float).T - c)) + c).T.astype(np.longdouble)
        if s.drift.terms:       # scale the functional drifts to the new geometry, wells stay as they are
            La = max(float(np.ptp(s.adj(s.X), axis=0).max()), 1e-9)
            s.drift.funcs = [(gen.DFUNS[ctx.i(0, 2)]([float(v) for v in s.centre], La, ctx.i(0, d - 1)), 6.0 / La)
                             for _ in s.drift.funcs[:1]]
        s.ext = float(ref.edist(s.adj(s.X), s.adj(s.X)).max())
    ctx.cover("nugget" if m.nugget > 0 else "no-nugget")
    ctx.note(cls=s.cls, model=repr(m))
    q = gen.request(ctx, s)
    S = s.system()
    want = s.answer(q.Q, S)
    cls = gen.classes()[s.cls]
    an = {"ok": ("anisotropy_scaling", "anisotropy_angle")}.get(s.cls[:2] if d == 2 else "", None)
    skw = s.kwargs(vario=False)
    junk = dict(skw)
    names2 = ("anisotropy_scaling", "anisotropy_angle")
    names3 = ("anisotropy_scaling_y", "anisotropy_scaling_z", "anisotropy_angle_x", "anisotropy_angle_y",
              "anisotropy_angle_z")
    names = names2 if d == 2 else names3
    for k in names:
        junk.pop(k, None)
        if not geo and ctx.chance(0.2):
            junk[k] = ctx.u(0.5, 3)       # overridden by the model
    args = [*s.coords(), s.z]
    objs = {}
    objs["constructed"] = ctx.call("constructor", cls, *args, variogram_model=m, **junk)
    # the same through an update of another model
    other = gen.vario(ctx, s.ext, zv, custom=0.2)
    o = ctx.call("constructor", cls, *args, **other.kw(), **junk)
    if ctx.chance(0.5):
        o.execute(*q.args, **q.kw)
    uj = {k: v for k, v in junk.items() if k in names}
    ctx.call("update_variogram_model", o.update_variogram_model, m, **uj)
    objs["updated"] = o
    # the variogram as a custom function, with explicit anisotropy
    aniso = {} if geo else dict(zip(names, [*s.scaling, *s.angle]))
    k2 = {k: v for k, v in skw.items() if k not in names}

    def fun(par, h):
        return np.asarray(s.vario.gamma(h), float)
    objs["custom"] = ctx.call("constructor", cls, *args, variogram_model="custom", variogram_parameters=[],
                              variogram_function=fun, **k2, **aniso)
    if ctx.chance(0.15):
        # and back to a built-in model
        v2 = gen.vario(ctx, s.ext, zv, custom=0)
        ob = objs["updated"]
        ctx.call("update", ob.update_variogram_model, v2.name, variogram_parameters=v2.user)
        of = ctx.call("constructor", cls, *args, **v2.kw(), **k2)
        for b in gen.backends(s):
            g1, g2 = (gen.execute(ctx, x, q, b) for x in (ob, of))
            for i in (0, 1):
                ctx.require(np.array_equal(q.flat(g1[i]), q.flat(g2[i]), equal_nan=True),
                            f"{s.cls} {b}: updating back to {v2.name} differs from a fresh object", key="back")
        del objs["updated"]
        ctx.cover("updated-back")
    for how, obj in objs.items():
        for b in gen.backends(s):
            got = gen.execute(ctx, obj, q, b)
            gen.compare(ctx, f"{s.cls} {b} {q.style} GSTools {how}", q, got, want)
        ctx.cover(how)
    if s.cls in ("ok", "ok3") and not s.pinv:
        k = ctx.i(2, len(s.z) + 1)
        from vf.props.C04 import window_bound
        tz, tv, ok = window_bound(ctx, s, q.Q, min(k, len(s.z)))
        res = [gen.execute(ctx, o, q, "loop", n_closest_points=k) for o in objs.values()]
        for r in res[:-1]:
            ctx.close(f"{s.cls} window k={k} GSTools vs custom function", q.flat(r[0]), q.flat(res[-1][0]), 2 * tz,
                      key="window", where=ok & q.valid)
            ctx.close(f"{s.cls} window k={k} GSTools vs custom function: variance", q.flat(r[1]),
                      q.flat(res[-1][1]), 2 * tv, key="window", where=ok & q.valid)
        ctx.cover("window")


class Fake:
    """quacks like a model"""
    pykrige_kwargs = {}
    field_dim = dim = 2
    latlon = False
    pykrige_anis = pykrige_anis_y = pykrige_anis_z = 1.0
    pykrige_angle = pykrige_angle_x = pykrige_angle_y = pykrige_angle_z = 0.0
    name = "Fake"

    @staticmethod
    def pykrige_vario(args=None, r=0):
        return np.asarray(r) * 1.0


def reject(ctx):
    import gstools as gs
    s = gen.scenario(ctx, n=(4, 15), pinv=0, custom=0, drift=False)
    d = s.dim
    kind = ctx.pick("dim", "dim", "latlon", "latlon", "not-a-model")
    M = getattr(gs, ctx.pick("Exponential", "Gaussian", "Spherical", "Matern"))
    if kind == "dim":
        bad = (3, 4) if d == 2 else (1, 2, 4, 5)
        k = ctx.pick(*bad)
        m = M(dim=k) if k < 4 or M is not gs.Spherical else gs.Exponential(dim=k)
        if d == 2 and ctx.chance(0.2):
            m = M(spatial_dim=2, temporal=True)
        if d == 2 and s.geo and ctx.chance(0.3):
            m = M(latlon=True, temporal=True)
        ctx.cover("rejected:dim")
    elif kind == "latlon":
        if s.geo:
            m = M(dim=3)
        else:
            m = M(latlon=True) if d == 2 or ctx.chance(0.5) else M(latlon=True, temporal=True)
            ctx.cover("rejected:latlon-uk" if s.cls.startswith("uk") else "rejected:latlon-euclidean")
    else:
        m = ctx.pick(Fake(), Fake, gs.Exponential, 3.5, "Exponential", object(), None)
        ctx.cover("rejected:not-a-model")
    ctx.note(model=repr(m))
    cls = gen.classes()[s.cls]
    kw = s.kwargs(vario=False)
    args = [*s.coords(), s.z]
    ctx.raises(f"{s.cls}({m!r})", cls, *args, variogram_model=m, **kw)
    obj = s.build(ctx)
    q = gen.request(ctx, s)
    before = gen.execute(ctx, obj, q, "vectorized")
    ctx.raises(f"{s.cls}.update_variogram_model({m!r})", obj.update_variogram_model, m)
    after = gen.execute(ctx, obj, q, "vectorized")
    for i in (0, 1):
        ctx.require(np.array_equal(q.flat(before[i]), q.flat(after[i]), equal_nan=True),
                    "results changed by a rejected update", key="rejected")
