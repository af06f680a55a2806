import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Random problems expressible in two ways: universal kriging without drift and ordinary kriging (2-D and "
        "3-D), 3-D kriging of data and points in one coordinate plane and 2-D kriging, regional linear drift and the same "
        "coordinates as functional or specified drift, specified drift and the same function as functional "
        "drift, external drift and specified drift of its values, custom functions and built-in models; results on all backends "
        "(and moving windows) agree within the error bounds of the reference system, across all request styles.")
CASES = {"quick": 2500, "thorough": 30000}
KINDS = ("uk-ok", "planar", "linear-specified", "linear-functional", "specified-functional", "external-specified",
         "custom-builtin")
REQUIRED = ["same:" + k for k in KINDS] + ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "backend:C", "backend:loop",
                                           "backend:vectorized", "window", "style:grid", "style:masked", "aniso",
                                           "rotated", "plane:x", "plane:y", "plane:z", "statistics"]


def case(ctx):
    k = ctx.pick(*KINDS)
    ctx.cover("same:" + k)
    {"uk-ok": uk_ok, "planar": planar, "linear-specified": linear, "linear-functional": linear,
     "specified-functional": spec_fun, "external-specified": ext_spec, "custom-builtin": custom}[k](ctx, k)


def agree(ctx, what, q1, r1, q2, r2, a, factor=2, perm=None):
    w = a[4] & q1.valid
    for i, name in ((0, "estimate"), (1, "variance")):
        x, y = q1.flat(r1[i]), q2.flat(r2[i])
        if perm is not None:
            y = y[perm]
        ctx.close(f"{what}: {name}", x, y, factor * a[2 + i], key=name, where=w)


def uk_ok(ctx, kind):
    s = gen.scenario(ctx, cls=("uk", "uk3"), drift=False, n=(2, 45))
    q = gen.request(ctx, s)
    a = s.answer(q.Q)
    u = s.build(ctx, **({"drift_terms": ctx.pick(None, [])} if ctx.chance(0.5) else {}))
    o = ctx.call("OK", gen.classes()[s.cls.replace("uk", "ok")], *s.coords(), s.z, **s.kwargs())
    so = gen.Scn()
    so.__dict__.update(s.__dict__)
    so.cls = s.cls.replace("uk", "ok")
    ctx.cover("cls:" + so.cls)
    for b in gen.backends(s):
        r = gen.execute(ctx, u, q, b)
        for b2 in gen.backends(so):
            agree(ctx, f"{s.cls} {b} vs {so.cls} {b2}", q, r, q, gen.execute(ctx, o, q, b2), a)
    n = len(s.z)
    if n >= 2:
        for b2 in gen.backends(so, True):
            agree(ctx, f"{s.cls} vs {so.cls} {b2} window of all data", q, r, q,
                  gen.execute(ctx, o, q, b2, n_closest_points=n), a)
        ctx.cover("window")
    if n > 3 and ctx.chance(0.3) and s.system().sv[-1] > 1e-7 * s.system().sv[0]:
        k = dict(s.kwargs())
        if s.dim == 2:
            k["enable_statistics"] = True
        o = ctx.call("OK", gen.classes()[so.cls], *s.coords(), s.z, **k)
        for x, y, t in zip(u.get_statistics(), o.get_statistics(), ("Q1", "Q2", "cR")):
            if np.isfinite(x) or np.isfinite(y):
                ctx.close(f"{s.cls} vs {so.cls} {t}", np.array([x]), np.array([y]), 1e-6 * abs(y) + 1e-9, key="statistics")
        ctx.cover("statistics")


def planar(ctx, kind):
    """one coordinate constant in 3-D"""
    cls2 = ctx.pick("ok", "ok", "uk")
    s = gen.scenario(ctx, cls=cls2, geo=False, n=(3, 40), kinds=("regional_linear", "functional", "specified"),
                     drift=False)
    # in 3-D regional linear drift has a third, constant column: not expressible; ordinary drift-free,
    # functional and specified are
    c3 = cls2 + "3"
    if cls2 == "uk" and ctx.chance(0.7) and len(s.z) > 8:
        gen.drifts(ctx, s, [ctx.pick("functional", "specified")])
    plane = ctx.pick("z", "z", "y", "x")
    if plane != "z" and s.drift.terms:
        plane = "z"
    ctx.cover("plane:" + plane, "cls:" + c3)
    level = ctx.pick(0.0, s.L, -3.7 * s.L, 1.0)
    q = gen.request(ctx, s)
    a = s.answer(q.Q)
    o2 = s.build(ctx)
    # 2-D axes (u, v) -> 3-D positions
    pos = {"z": (0, 1), "y": (0, 2), "x": (1, 2)}[plane]
    k3 = s.kwargs()
    sc, an = k3.pop("anisotropy_scaling", 1.0), k3.pop("anisotropy_angle", 0.0)
    other = ctx.lu(0.1, 10)
    if plane == "z":
        # clockwise rotation about z by an; the stretch of z does not matter
        k3.update(anisotropy_scaling_y=sc, anisotropy_scaling_z=other, anisotropy_angle_z=an)
    elif plane == "y":
        # (x, z): about y, x' = c x - s z: the opposite sense
        k3.update(anisotropy_scaling_y=other, anisotropy_scaling_z=sc, anisotropy_angle_y=-an)
    else:
        # (y, z): y' = c y + s z; x not stretched: y and z are stretched relative to it
        k3.update(anisotropy_scaling_y=1.0, anisotropy_scaling_z=sc, anisotropy_angle_x=an)
    if "functional" in s.drift.terms:
        k3["functional_drift"] = [(lambda x, y, z, f=f: f(x, y)) for f, _ in s.drift.funcs]
    X3 = np.full((len(s.z), 3), level)
    X3[:, pos] = s.X
    o3 = ctx.call(c3, gen.classes()[c3], *[gen.as_input(ctx, X3[:, j]) for j in range(3)], s.z, **k3)
    if ctx.chance(0.2):
        # the stretch across the plane is irrelevant, also after an update
        u = {x: v for x, v in k3.items() if x.startswith("anisotropy")}
        if plane != "x":
            u["anisotropy_scaling_" + {"z": "z", "y": "y"}[plane]] = other * 3
        ctx.call("update", o3.update_variogram_model, s.vario.name, variogram_parameters=s.vario.user,
                 variogram_function=s.vario.fn, **u)
    q3 = gen.Request()
    q3.style, q3.kw = q.style, {k: v for k, v in q.kw.items() if k in ()}
    if q.style == "points":
        Q3 = np.full((len(q.Q), 3), level)
        Q3[:, pos] = q.Q
        q3.axes = [Q3[:, j] for j in range(3)]
        q3.shape, q3.mask, q3.valid = q.shape, None, q.valid
    else:
        q3.axes = [None] * 3
        for j, t in zip(pos, q.axes):
            q3.axes[j] = t
        q3.axes[3 - sum(pos)] = np.array([level])
        _, q3.shape = gen.grid_Q(q3.axes)
        # (nz, ny, nx) with one axis of length 1: same order as (nv, nu)
        q3.mask = None if q.mask is None else q.mask.reshape(q3.shape)
        q3.valid = q.valid
        if q.mask is not None:
            q3.kw["mask"] = q3.mask.copy()
    q3.args = [q3.style, *[t.copy() for t in q3.axes]]
    if "specified" in s.drift.terms:
        q3.kw["specified_drift_arrays"] = [f(q.Q).reshape(q3.shape) for f in s.drift.spec_fun]
    s3 = gen.Scn()
    s3.__dict__.update(s.__dict__)
    s3.cls, s3.dim = c3, 3
    tol = 4 if level == 0 else 4 + 1e-1 * abs(level) / s.cmag()
    for b in gen.backends(s):
        r = gen.execute(ctx, o2, q, b)
        for b3 in gen.backends(s3):
            agree(ctx, f"{s.cls} {b} vs {c3} {b3} in plane {plane}={level}", q, r, q3,
                  gen.execute(ctx, o3, q3, b3), a, factor=tol)
    if cls2 == "ok" and len(s.z) > 3:
        k = ctx.i(2, len(s.z))
        from vf.props.C04 import window_bound
        tz, tv, ok = window_bound(ctx, s, q.Q, k)
        ra = (a[0], a[1], tz, tv, ok)
        r3 = gen.execute(ctx, o3, q3, "loop", n_closest_points=k)
        for b in gen.backends(s, True):
            agree(ctx, f"{s.cls} {b} vs {c3} in a plane, window {k}", q, gen.execute(ctx, o2, q, b, n_closest_points=k),
                  q3, r3, ra, factor=tol)
        ctx.cover("window")


def linear(ctx, kind):
    s = gen.scenario(ctx, cls=("uk", "uk3"), drift=True, kinds=("regional_linear",), n=(6, 40),
                     aniso=None if kind == "linear-functional" else None)
    q = gen.request(ctx, s)
    a = s.answer(q.Q)
    o1 = s.build(ctx)
    kw = s.kwargs()
    d = s.dim
    q2 = gen.Request()
    q2.__dict__.update(q.__dict__)
    q2.kw = dict(q.kw)
    if kind == "linear-functional":
        fs = [lambda *x: x[0], lambda *x: x[1], lambda *x: x[-1]][:d]
        kw["drift_terms"], kw["functional_drift"] = ["functional"], [fs[j] for j in ctx.rng.permutation(d)]
    else:
        # any invertible linear combination of the coordinates: the original ones span the same drift
        c, L = s.X.mean(0), np.ptp(s.X, axis=0).max()
        B = ctx.pick(np.eye(d), np.eye(d)[::-1], np.eye(d) * 2 + 0.3)
        f = (lambda P: ((P - c) / L) @ B) if ctx.chance(0.5) else (lambda P: P @ B)
        kw["drift_terms"] = ["specified"]
        kw["specified_drift"] = [f(s.X)[:, j] for j in range(d)]
        q2.kw["specified_drift_arrays"] = [f(q.Q)[:, j].reshape(q.shape) for j in range(d)]
    o2 = ctx.call("UK", gen.classes()[s.cls], *s.coords(), s.z, **kw)
    s2 = gen.Scn()
    s2.__dict__.update(s.__dict__)
    s2.drift = gen.Drift()
    if kind == "linear-specified":
        s2.drift.terms = s2.drift.order = ["specified"]
        s2.drift.spec_fun = [(lambda P, j=j: f(P)[:, j]) for j in range(d)]
    else:
        s2.drift.terms = s2.drift.order = ["regional_linear"]
    a2 = s2.answer(q.Q)
    a = (a[0], a[1], a[2] + a2[2], a[3] + a2[3], a[4] & a2[4])
    for b in gen.backends(s):
        r = gen.execute(ctx, o1, q, b)
        for b2 in gen.backends(s):
            agree(ctx, f"{s.cls} regional_linear {b} vs {kind} {b2}", q, r, q2, gen.execute(ctx, o2, q2, b2), a,
                  factor=4)


def spec_fun(ctx, kind):
    s = gen.scenario(ctx, cls=("uk", "uk3"), drift=True, kinds=("functional",), n=(6, 40))
    q = gen.request(ctx, s)
    a = s.answer(q.Q)
    o1 = s.build(ctx)
    kw = s.kwargs()
    kw.pop("functional_drift")
    Xa, Qa = s.adj(s.X), s.adj(q.Q)
    kw["drift_terms"] = ["specified"]
    kw["specified_drift"] = [np.asarray(f(*Xa.T), float) for f, _ in s.drift.funcs]
    o2 = ctx.call("UK", gen.classes()[s.cls], *s.coords(), s.z, **kw)
    q2 = gen.Request()
    q2.__dict__.update(q.__dict__)
    q2.kw = dict(q.kw, specified_drift_arrays=[np.asarray(f(*Qa.T), float).reshape(q.shape)
                                               for f, _ in s.drift.funcs])
    for b in gen.backends(s):
        r = gen.execute(ctx, o1, q, b)
        for b2 in gen.backends(s):
            agree(ctx, f"{s.cls} functional {b} vs specified {b2}", q, r, q2, gen.execute(ctx, o2, q2, b2), a,
                  factor=4)


def ext_spec(ctx, kind):
    s = gen.scenario(ctx, cls="uk", drift=True, kinds=("external_Z",), n=(6, 40))
    q = gen.request(ctx, s)
    a = s.answer(q.Q)
    o1 = s.build(ctx)
    kw = s.kwargs()
    for k in ("external_drift", "external_drift_x", "external_drift_y"):
        kw.pop(k)
    gx, gy, V = s.drift.ext
    f = lambda P: gen.bilinear(gx, gy, V, P[:, 0], P[:, 1]).astype(float)
    kw["drift_terms"], kw["specified_drift"] = ["specified"], [f(s.X)]
    o2 = ctx.call("UK", gen.classes()["uk"], *s.coords(), s.z, **kw)
    q2 = gen.Request()
    q2.__dict__.update(q.__dict__)
    q2.kw = dict(q.kw, specified_drift_arrays=[f(q.Q).reshape(q.shape)])
    for b in gen.backends(s):
        r = gen.execute(ctx, o1, q, b)
        for b2 in gen.backends(s):
            agree(ctx, f"external drift {b} vs specified {b2}", q, r, q2, gen.execute(ctx, o2, q2, b2), a, factor=4)


def custom(ctx, kind):
    s = gen.scenario(ctx, custom=0)
    v = s.vario
    q = gen.request(ctx, s)
    a = s.answer(q.Q)
    o1 = s.build(ctx)
    kw = s.kwargs()
    kw["variogram_model"] = "custom"
    kw["variogram_parameters"] = list(v.par)
    import pykrige.variogram_models as vm
    if ctx.chance(0.5):
        # pykrige's own function, handed over as a custom one
        kw["variogram_function"] = getattr(vm, v.name.replace("-", "_") + "_variogram_model")
    else:
        kw["variogram_function"] = lambda p, h: np.asarray(ref.model(v.name, p, h), float)
    o2 = ctx.call("custom", gen.classes()[s.cls], *s.coords(), s.z, **kw)
    sc = gen.Scn()
    sc.__dict__.update(s.__dict__)
    sc.vario = gen.Vario("custom", v.par, v.user)
    for b in gen.backends(s):
        r = gen.execute(ctx, o1, q, b)
        for b2 in ("vectorized", "loop"):
            agree(ctx, f"{s.cls} {v.name} {b} vs custom {b2}", q, r, q, gen.execute(ctx, o2, q, b2), a)
    if s.cls in ("ok", "ok3") and len(s.z) > 3:
        k = ctx.i(2, len(s.z))
        from vf.props.C04 import window_bound
        tz, tv, ok = window_bound(ctx, s, q.Q, k)
        r2 = gen.execute(ctx, o2, q, "loop", n_closest_points=k)
        for b in gen.backends(s, True):
            agree(ctx, f"{s.cls} {v.name} {b} vs custom, window {k}", q, gen.execute(ctx, o1, q, b, n_closest_points=k),
                  q, r2, (a[0], a[1], tz, tv, ok))
        ctx.cover("window")
