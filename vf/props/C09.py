import numpy as np
from vf import gen, large, ref
from vf.main import Skip

RULE = ("Random spherical data sets (world-wide, regional, on the date line, around and at the poles, along the "
        "equator, longitudes in -180..180, 0..360 and mixed) kriged in every style and backend, compared with an "
        "extended-precision great-circle reference, and again after adding 360 degrees to individual longitudes "
        "and after turning everything; the two public distance functions are compared with an extended-precision "
        "vector formula on tiny, ordinary and nearly antipodal separations, for symmetry and range.")
CASES = {"quick": 2500, "thorough": 30000}
REQUIRED = ["krige", "periodic", "turned", "distance", "tiny", "antipodal", "chord", "sphere:world",
            "sphere:dateline", "sphere:pole", "sphere:equator", "sphere:region", "backend:C", "backend:loop",
            "backend:vectorized", "window", "pole-query", "at-data"]


def distance(ctx):
    from pykrige.core import great_circle_distance, euclid3_to_great_circle
    r = ctx.rng
    m = 200
    A = np.stack([r.uniform(-180, 360, m), np.degrees(np.arcsin(r.uniform(-1, 1, m)))], 1)
    kind = ctx.pick("any", "tiny", "antipodal", "meridian", "equator", "pole", "same")
    if kind == "any":
        B = np.stack([r.uniform(-180, 360, m), np.degrees(np.arcsin(r.uniform(-1, 1, m)))], 1)
    elif kind == "tiny":
        B = A + r.normal(size=(m, 2)) * 10.0 ** r.uniform(-14, -1, m)[:, None]
        B[:, 1] = np.clip(B[:, 1], -90, 90)
    elif kind == "antipodal":
        B = np.stack([A[:, 0] + ctx.pick(180, -180), -A[:, 1]], 1)
        B = B + r.normal(size=(m, 2)) * 10.0 ** r.uniform(-16, -1, m)[:, None]
        B[:, 1] = np.clip(B[:, 1], -90, 90)
    elif kind == "meridian":
        B = np.stack([A[:, 0] + 360 * r.integers(-1, 2, m), r.uniform(-90, 90, m)], 1)
    elif kind == "equator":
        A[:, 1] = 0
        B = np.stack([r.uniform(-180, 360, m), np.zeros(m)], 1)
    elif kind == "pole":
        A[:, 1] = ctx.pick(90.0, -90.0)
        B = np.stack([r.uniform(-180, 360, m), r.uniform(-90, 90, m)], 1)
    else:
        B = A + np.stack([360.0 * r.integers(-1, 2, m), np.zeros(m)], 1)
    ctx.mark(A, B)
    ctx.note(kind=kind)
    d = ctx.call("great_circle_distance", great_circle_distance, A[:, 0], A[:, 1], B[:, 0], B[:, 1])
    d2 = ctx.call("great_circle_distance", great_circle_distance, B[:, 0], B[:, 1], A[:, 0], A[:, 1])
    a, b = (np.stack([np.cos(np.radians(np.longdouble(P[:, 1]))) * np.cos(P[:, 0].astype(np.longdouble) * ref.PI / 180),
                      np.cos(P[:, 1].astype(np.longdouble) * ref.PI / 180) * np.sin(P[:, 0].astype(np.longdouble) * ref.PI / 180),
                      np.sin(P[:, 1].astype(np.longdouble) * ref.PI / 180)], 1) for P in (A, B))
    want = 2 * np.arctan2(np.sqrt(((a - b) ** 2).sum(1)), np.sqrt(((a + b) ** 2).sum(1))) * 180 / ref.PI
    ctx.close(f"great-circle distance ({kind})", d, want, 4e-12, key="gcd")
    ctx.close(f"great-circle distance symmetry ({kind})", d2, d, 4e-12, key="gcd-symmetry")
    ctx.require(np.all(d >= 0) and np.all(d <= 180), "great-circle distance outside [0, 180]", key="gcd-range")
    j = ctx.i(0, m - 1)
    one = ctx.call("great_circle_distance", great_circle_distance, float(A[j, 0]), float(A[j, 1]),
                   float(B[j, 0]), float(B[j, 1]))
    ctx.close("great-circle distance of scalars", np.array(one), want[j], 4e-12, key="gcd")
    one = ctx.call("great_circle_distance", great_circle_distance, A[:, 0], A[:, 1], float(B[j, 0]), float(B[j, 1]))
    w = ref.gdist(A, B[j:j + 1])[:, 0]
    ctx.close("great-circle distance array to scalar", one, w, 4e-12, key="gcd")
    ctx.cover("distance")
    if kind in ("tiny", "antipodal"):
        ctx.cover(kind)
    # chord conversion
    ang = np.concatenate([r.uniform(0, 180, m), 10.0 ** r.uniform(-9, 0, 40), 180 - 10.0 ** r.uniform(-6, 0, 40), [0, 180.0]])
    t = ang.astype(np.longdouble) * ref.PI / 360
    chord = (2 * np.sin(t)).astype(float)
    chord[-1] = ctx.pick(2.0, 2.0 + 1e-15)
    tol = 1e-12 + 3e-14 / np.maximum(np.cos(t).astype(float), 1e-8)
    before = chord.copy()
    g = ctx.call("euclid3_to_great_circle", euclid3_to_great_circle, chord)
    ctx.close("chord to great circle", g, ang, tol + 1e-6 * (ang > 179.9999), key="chord")
    ctx.require(np.array_equal(before, chord), "euclid3_to_great_circle modified its argument", key="chord")
    ctx.require(np.all(g >= -1e-12) and np.all(g <= 180), "converted chord outside [0, 180]", key="chord")
    # both on the same pairs
    e = np.sqrt(((a - b).astype(float) ** 2).sum(1))
    g = ctx.call("euclid3_to_great_circle", euclid3_to_great_circle, e)
    c = np.sqrt(np.maximum(0, 1 - (e / 2) ** 2))
    ctx.close("chord conversion vs great-circle distance", g, want, 1e-11 + 1e-13 / np.maximum(c, 1e-8)
              + 1e-5 * (c < 1e-6), key="chord")
    ctx.cover("chord")


def case(ctx):
    if large.due(ctx, 397):
        large.case(ctx, ("ok",), geo=True, window=ctx.chance(0.5))
        return
    if ctx.chance(0.25):
        return distance(ctx)
    s = gen.scenario(ctx, cls="ok", geo=True, n=(3, 50), pinv=0.06)
    q = gen.request(ctx, s, style=ctx.pick("points", "grid", "masked", "points"))
    if q.style == "points" and ctx.chance(0.15):
        q.Q[0, 1] = ctx.pick(90.0, -90.0)
        q.args[2] = q.Q[:, 1].copy()
        ctx.cover("pole-query")
    obj = s.build(ctx)
    S = s.system()
    n = len(s.z)
    want = s.answer(q.Q, S)
    co = s.coincide(q.Q)
    if co.any():
        ctx.cover("at-data")
    for b in gen.backends(s):
        gen.compare(ctx, f"geographic {b} {q.style}", q, gen.execute(ctx, obj, q, b), want)
        ctx.cover("krige")
    b = ctx.pick(*gen.backends(s))
    window = not s.pinv and ctx.chance(0.3)
    kw = {}
    Z, V, tz, tv, ok = want
    if window:
        b = ctx.pick(*gen.backends(s, True))
        kw["n_closest_points"] = ctx.i(2, n)
        ctx.cover("window")
        from vf.props.C04 import window_bound
        tz, tv, ok2 = window_bound(ctx, s, q.Q, min(kw["n_closest_points"], n))
        ok = ok & ok2
    base = gen.execute(ctx, obj, q, b, **kw)

    # adding 360 to some longitudes
    def variant(dX, axes, what, key, extra=0.0):
        q2 = gen.Request()
        q2.__dict__.update(q.__dict__)
        q2.kw = dict(q.kw)
        q2.args = [q.style, *axes]
        if q.mask is not None:
            q2.kw["mask"] = q.mask.copy()
        o = s.build(ctx, X=dX)
        g = gen.execute(ctx, o, q2, b, **kw)
        w = ok & q.valid
        vs, zs = float(np.abs(S.A[:n, :n]).max()), float(np.abs(s.z).max())
        ctx.close(f"{b} {q.style} estimate {what}", q.flat(g[0]), q.flat(base[0]), 4 * tz + extra * zs, key=key, where=w)
        ctx.close(f"{b} {q.style} variance {what}", q.flat(g[1]), q.flat(base[1]), 4 * tv + extra * vs, key=key, where=w)

    # keep additions exact: longitudes on a fine binary grid would be needed for bitwise equality, so
    # exact coincidence is only demanded where adding and subtracting 360 gives the number back
    X2 = s.X.copy()
    k = 360.0 * ctx.rng.integers(-2, 3, n)
    X2[:, 0] += k
    ax = [q.Q[:, 0].copy(), q.Q[:, 1].copy()] if q.style == "points" else [a.copy() for a in q.axes]
    ax[0] = ax[0] + 360.0 * ctx.rng.integers(-2, 3, len(ax[0]))
    variant(X2, ax, "after adding 360 degrees", "periodic", 1e-8)
    ctx.cover("periodic")
    t = ctx.pick(180.0, 90.0, -360.0, ctx.u(-720, 720))
    X3 = s.X.copy()
    X3[:, 0] += t
    ax = [q.Q[:, 0].copy(), q.Q[:, 1].copy()] if q.style == "points" else [a.copy() for a in q.axes]
    ax[0] = ax[0] + t
    variant(X3, ax, f"after turning by {t}", "turned", 1e-8)
    ctx.cover("turned")
