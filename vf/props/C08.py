import copy

import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Random problems of all four classes; the same problem is kriged again with data reordered, everything "
        "translated, reflected, rotated (isotropic), rescaled together with the range, with anisotropy expressed "
        "by transforming the coordinates beforehand, and with data and anisotropy angle turned together (2-D any "
        "angle, 3-D about z); results at corresponding points are compared.")
CASES = {"quick": 3000, "thorough": 40000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "op:permute", "op:translate", "op:reflect", "op:rotate",
            "op:rescale", "op:pre-adjusted", "op:turn", "op:angle-period", "op:swap-axes", "window", "backend:C", "backend:loop",
            "backend:vectorized", "at-data", "geographic"]


def variant(s, X=None, scaling=None, angle=None, vario=None, wells=None, perm=None):
    t = copy.copy(s)
    t.drift = copy.copy(s.drift)
    if X is not None:
        t.X = X
    t.scaling = list(scaling) if scaling is not None else s.scaling
    t.angle = list(angle) if angle is not None else s.angle
    t.vario = vario or s.vario
    if wells is not None:
        t.drift.wells = wells
        t.drift.wells_user = wells.copy()
    t.centre = ref.centre(t.X) if not s.geo else s.centre
    return t


def rot(P, c, V):
    """clockwise rotation of rows about the origin by angles like the anisotropy's"""
    return ref.adjust(P, np.zeros(P.shape[1]), [1.0] * (P.shape[1] - 1), V).astype(float)


def case(ctx):
    op = ctx.pick("permute", "translate", "reflect", "rotate", "rescale", "pre-adjusted", "turn",
                  "angle-period", "swap-axes")
    iso = op in ("reflect", "rotate", "swap-axes")
    geo = False if op != "permute" else None
    s = gen.scenario(ctx, n=(3, 40), pinv=0.05, geo=geo, aniso=False if iso else (True if op not in (
        "permute", "translate", "rescale") else None), drift=True if ctx.chance(0.6) else False,
        kinds=("regional_linear", "point_log", "specified"), L=None if op != "translate" else ctx.lu(1, 1e3))
    if s.dim == 3 and op == "turn":
        s.angle[0] = s.angle[1] = 0.0
        s.describe(ctx)
    d = s.dim
    n = len(s.z)
    m = ctx.i(1, 12)
    # evaluation points apart from the data, or bitwise copies of data rows
    Q = gen.query_points(ctx, s, m)
    src = s.coincide(Q)
    spec = [f(Q) for f in s.drift.spec_fun]
    specd = [f(s.X) for f in s.drift.spec_fun]
    X2, Q2, W2 = s.X.copy(), Q.copy(), None if s.drift.wells is None else s.drift.wells.copy()
    perm = np.arange(n)
    kw2 = {}

    def both(f):
        # one call on the stacked rows: equal rows stay bitwise equal
        nonlocal X2, Q2, W2
        R = f(np.concatenate([s.X, Q]))
        X2, Q2 = R[:n], R[n:]
        if W2 is not None:
            w = np.concatenate([s.drift.wells[:, :2]] + ([np.zeros((len(W2), 1))] if d == 3 else []), 1)
            W2[:, :2] = f(w)[:, :2]

    lab = op
    if op == "permute":
        perm = ctx.rng.permutation(n)
        X2 = s.X[perm]
    elif op == "translate":
        t = ctx.rng.normal(size=d) * s.L * 10 ** ctx.rng.uniform(0, 3, d)
        both(lambda P: P + t)
    elif op == "reflect":
        k = ctx.i(0, d - 1)
        sg = np.ones(d)
        sg[k] = -1
        both(lambda P: P * sg)
    elif op == "swap-axes":
        o = ctx.rng.permutation(d)
        both(lambda P: P[:, o].copy())
    elif op == "rotate":
        V = [ctx.u(-180, 180) for _ in range(2 * d - 3)]
        both(lambda P: rot(P, None, V))
    elif op == "rescale":
        c = ctx.pick(2.0, 1000.0, ctx.lu(1e-3, 1e3), ctx.lu(1e-7, 1e-3) / s.L)
        both(lambda P: P * c)
        kw2["vario"] = s.vario.scaled(1.0, c)
    elif op == "pre-adjusted":
        both(lambda P: s.adj(P).astype(float))
        kw2.update(scaling=[1.0] * (d - 1), angle=[0.0] * (2 * d - 3))
    elif op == "turn":
        V = ctx.u(-180, 180)
        VV = [V] if d == 2 else [0.0, 0.0, V]
        both(lambda P: rot(P, None, VV))
        # clockwise turn of the data by V takes V off the angle
        kw2["angle"] = [s.angle[0] - V] if d == 2 else [0.0, 0.0, s.angle[2] - V]
    elif op == "angle-period":
        kw2["angle"] = [a + ctx.pick(360.0, -360.0, 180.0) if d == 2 else a + 360.0 for a in s.angle]
    s2 = variant(s, X=X2, wells=W2, **kw2)
    z2 = s.z[perm]
    src2 = s2.coincide(Q2)
    if not np.array_equal(src[:, perm], src2):
        raise Skip("coincidence changed by rounding")
    # specified drift belongs to the location, not to its coordinates
    for t, F, FQ in ((s, specd, spec), (s2, [f[perm] for f in specd], spec)):
        if "specified" in t.drift.terms:
            t.drift.spec_fun = [lambda P, a=a, b=b, k=len(a): (a if len(P) == k and P is not None else b)
                                for a, b in zip(F, FQ)]
            if len(FQ[0]) == n:
                raise Skip("ambiguous")
    ctx.note(op=op, X2=X2, Q=Q)
    if src.any():
        ctx.cover("at-data")
    A1, A2 = s.answer(Q), None
    s2z = s2.z
    s2.z = z2
    A2 = s2.answer(Q2)
    ok = A1[4] & A2[4]
    zs, vs = np.abs(s.z).max(), float(np.abs(s.system().A[:n, :n]).max())
    # what rounding of the transformed coordinates does to the exact answers
    ok &= (np.abs(A1[0] - A2[0]) < 1e-6 * zs) & (np.abs(A1[1] - A2[1]) < 1e-6 * vs)
    if s.drift.wells is not None:       # singular there, and the transformed points no longer coincide
        ok &= (np.abs(Q[:, None] - s.drift.wells[None, :, :2]).max(2) > 1e-6 * s.L).all(1)
    tz = A1[2] + A2[2] + np.abs(A1[0] - A2[0]).astype(float)
    tv = A1[3] + A2[3] + np.abs(A1[1] - A2[1]).astype(float)
    if not ok.any():
        raise Skip("undecidable")
    window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.3)
    kw = {}
    if window:
        k = kw["n_closest_points"] = ctx.i(2, n)
        # the same neighbours: no near-ties
        D1 = np.sort((ref.gdist if s.geo else ref.edist)(s.adj(Q), s.adj(s.X)).astype(float), 1)
        if k < n:
            ok &= D1[:, k] - D1[:, k - 1] > 1e-6 * D1[:, -1]
        from vf.props.C04 import window_bound
        t1, u1, o1 = window_bound(ctx, s, Q, k)
        t2, u2, o2 = window_bound(ctx, s2, Q2, k)
        tz, tv = t1 + t2 + 1e-6 * zs, u1 + u2 + 1e-6 * vs
        ok &= o1 & o2
        ctx.cover("window")
    res = []
    b = ctx.pick(*gen.backends(s, window))
    for t, P in ((s, Q), (s2, Q2)):
        obj = t.build(ctx)
        q = gen.Request()
        q.style, q.mask, q.shape, q.Q = "points", None, (m,), P
        q.args = ["points", *[P[:, k].copy() for k in range(d)]]
        q.valid = np.ones(m, bool)
        q.kw = {"specified_drift_arrays": [a.copy() for a in spec]} if "specified" in s.drift.terms else {}
        res.append(gen.execute(ctx, obj, q, b, **kw))
    for what, i, t in (("estimate", 0, tz), ("variance", 1, tv)):
        ctx.close(f"{s.cls} {b} {what} after {op}", res[1][i], res[0][i], t, key=f"{op}-{what}", where=ok)
    ctx.cover("op:" + op)
