import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Random external drift grids (2x2 to 12x12, regular, irregular, integer coordinates) with data and "
        "requested locations placed on nodes, cell edges, grid borders, corners and inside; the grid is handed "
        "over ascending, descending or with permuted axes, transposed, as lists, integers, single precision. "
        "The oracle is the reference universal kriging system with bilinear interpolation in extended precision; in "
        "half of the cases the values are an affine function of the drift, so the estimate is the interpolated "
        "drift itself. Locations outside the grid must be rejected unless masked.")
CASES = {"quick": 5000, "thorough": 60000}
REQUIRED = ["backend:loop", "backend:vectorized", "style:masked", "style:points", "style:grid", "reproduced",
            "at:near", "at:node", "at:edge-x", "at:edge-y", "at:border", "at:corner", "at:inside", "axis:desc-x", "axis:desc-y",
            "axis:permuted", "array:transposed", "array:list", "array:int", "array:f32", "grid:irregular",
            "grid:2x2", "grid:big", "grid:square", "rejected:data", "rejected:points", "masked-outside", "combined", "aniso", "undefined-nodes"]


def make_grid(ctx):
    kind = ctx.pick("regular", "irregular", "irregular", "int", "f32")
    nx, ny = ctx.pick((2, 2), (ctx.i(2, 12), ctx.i(2, 12)), (ctx.i(2, 12), ctx.i(2, 12)),
                      (ctx.i(3, 6),) * 2)
    big = ctx.chance(0.025)
    if big:
        nx, ny = ctx.pick((ctx.i(260, 400), ctx.i(260, 400)), (2 ** 16 // 4 + ctx.i(-1, 2), 4), (3, 2 ** 15 + ctx.i(-2, 2)), (ctx.i(700, 1100), ctx.i(950, 1100)))
        ctx.cover("grid:big")
    L = ctx.pick(1.0, 100.0, ctx.lu(1e-2, 1e5))
    off = ctx.rng.normal(size=2) * L * (ctx.pick(0, 1) if big else ctx.pick(0, 1, 30, ctx.lu(1e2, 1e6)))
    ax = []
    for n, o in ((nx, off[0]), (ny, off[1])):
        if kind == "regular":
            a = o + np.linspace(0, L, n)
        elif kind == "int":
            step = np.cumsum(ctx.rng.integers(1, 60, size=n))
            a = np.round(o / L * 100) + step
        else:
            a = o + L * np.cumsum(ctx.rng.uniform(0.05, 1, n)) / n
        if kind == "f32":
            a = a.astype(np.float32).astype(float)
        if np.diff(a).min() < 1e-4 * L / n:     # the grid lines have to stay apart
            raise Skip("grid lines")
        ax.append(a)
    V = ctx.rng.normal(size=(ny, nx)) * ctx.pick(1.0, 50.0, 1e-3) + ctx.pick(0.0, 0.0, 100.0)
    vint = ctx.chance(0.2)
    if vint:
        V = ctx.rng.integers(-120, 120, size=(ny, nx)).astype(float)
    if kind == "f32":
        V = V.astype(np.float32).astype(float)
    ctx.cover("grid:" + kind)
    if (nx, ny) == (2, 2):
        ctx.cover("grid:2x2")
    if nx == ny:
        ctx.cover("grid:square")
    return ax[0], ax[1], V, kind, vint


def place(ctx, gx, gy, m, distinct=False):
    """locations of all kinds relative to the grid; also the kinds"""
    r = ctx.rng
    P = np.stack([r.uniform(gx[0], gx[-1], m), r.uniform(gy[0], gy[-1], m)], 1)
    for j in range(m):
        k = ctx.pick("inside", "inside", "node", "edge-x", "edge-y", "border", "corner", "near")
        if k == "node":
            P[j] = r.choice(gx), r.choice(gy)
        elif k == "edge-x":        # on a grid line of constant x
            P[j, 0] = r.choice(gx)
        elif k == "edge-y":
            P[j, 1] = r.choice(gy)
        elif k == "border":
            if ctx.chance(0.5):
                P[j, 0] = gx[ctx.pick(0, -1)]
            else:
                P[j, 1] = gy[ctx.pick(0, -1)]
        elif k == "near":          # close to a grid line, but not on it
            for c, g in ((0, gx), (1, gy)):
                if ctx.chance(0.7):
                    i = ctx.i(0, len(g) - 1)
                    o = i + 1 if i == 0 or (i < len(g) - 1 and ctx.chance(0.5)) else i - 1
                    P[j, c] = min(max(g[i] + (g[o] - g[i]) * ctx.lu(1e-9, 0.05), g[0]), g[-1])
        elif k == "corner":
            P[j] = gx[ctx.pick(0, -1)], gy[ctx.pick(0, -1)]
        if not distinct:
            ctx.cover("at:" + k)
    if distinct:
        d = np.abs(P[:, None] - P[None]).max(-1) + np.eye(m) * 1e300
        keep = [j for j in range(m) if j == 0 or d[j, :j].min() > 1e-3 * min(np.ptp(gx), np.ptp(gy)) / m]
        P = P[keep]
    return P


def hand_over(ctx, gx, gy, V, kind, vint):
    ux, uy, U = gx.copy(), gy.copy(), V.copy()
    for k in (0, 1):
        a = (ux, uy)[k]
        t = ctx.pick("asc", "asc", "desc", "perm")
        o = np.arange(len(a))
        if t == "desc":
            o = o[::-1]
            ctx.cover("axis:desc-" + "xy"[k])
        elif t == "perm":
            o = ctx.rng.permutation(len(a))
            ctx.cover("axis:permuted")
        if k == 0:
            ux, U = ux[o], U[:, o]
        else:
            uy, U = uy[o], U[o]
    if len(ux) != len(uy) and ctx.chance(0.4):
        U = U.T
        ctx.cover("array:transposed")
    out = [U, ux, uy]
    for k in range(3):
        a = out[k]
        t = ctx.pick("array", "array", "list", "narrow", "narrow", "fortran", "column")
        if t == "narrow" and (kind == "int" if k else vint) and np.abs(a).max() < 2 ** 15:
            small = np.abs(a).max() < 127
            a = a.astype(ctx.pick(np.int64, np.int32, np.int16, np.int8 if small else np.int16))
            ctx.cover("array:int")
        elif t == "narrow" and kind == "f32":
            a = a.astype(np.float32)
            if np.array_equal(a.astype(float), out[k]):
                ctx.cover("array:f32")
        elif t == "list":
            a = a.tolist()
            ctx.cover("array:list")
        elif t == "fortran":
            a = np.asfortranarray(a)
        elif t == "column" and k:
            a = a[:, None].copy()
        else:
            a = np.ascontiguousarray(a)
        out[k] = a
    return tuple(out)


def needed(g, v):
    """numbers of the grid lines around v: on a line also its neighbours, which interpolation may use with weight zero"""
    on = np.flatnonzero(g == v)
    if len(on):
        return np.arange(max(on[0] - 1, 0), min(on[0] + 2, len(g)))
    i = int(np.searchsorted(g, v))
    return np.array([i - 1, i])


def outside(ctx, gx, gy):
    p = np.array([ctx.u(gx[0], gx[-1]), ctx.u(gy[0], gy[-1])])
    k = ctx.i(0, 1)
    g = (gx, gy)[k]
    span = g[-1] - g[0]
    d = span * ctx.pick(1e-6, 0.01, 1.0, 10.0) + 1e-9 * np.abs(g).max()
    p[k] = g[0] - d if ctx.chance(0.5) else g[-1] + d
    return p


def case(ctx):
    gx, gy, V, kind, vint = make_grid(ctx)
    X = place(ctx, gx, gy, ctx.i(6, 30), distinct=True)
    if len(X) < 5 or min(np.ptp(X[:, 0]), np.ptp(X[:, 1])) == 0:
        raise Skip("data")
    kinds = ("external_Z",)
    comb = ctx.chance(0.25) and len(X) > 9
    s = gen.scenario(ctx, cls="uk", X=X, L=float(np.ptp(X)), drift=True, pinv=0.05, custom=0.05,
                     n=(len(X), len(X)), kinds=kinds)
    if comb:
        extra = [t for t in ("regional_linear", "functional", "specified") if ctx.chance(0.5)]
        ext, box = s.drift.ext, s.ext_box
        s.drift = gen.Drift()
        gen.drifts(ctx, s, ["external_Z"] + extra)
        if extra:
            ctx.cover("combined")
    s.drift.ext = (gx, gy, V)
    zx = gen.bilinear(gx, gy, V, X[:, 0], X[:, 1]).astype(float)
    if np.ptp(zx) < 1e-3 * np.abs(zx).max():
        raise Skip("constant drift")
    ctx.note(ext=(gx, gy, V), user=[repr(type(a)) for a in s.drift.ext_user])
    rep = ctx.chance(0.5)
    if rep:
        ca, cb = ctx.rng.normal(size=2) * 3
        s.z = ca * zx + cb
        if np.ptp(s.z) == 0:
            raise Skip("constant")
    # --- request
    q = gen.Request()
    style = q.style = ctx.pick("points", "points", "grid", "masked")
    if style == "points":
        q.Q = place(ctx, gx, gy, ctx.i(1, 25))
        q.shape = (len(q.Q),)
        q.axes = [q.Q[:, 0].copy(), q.Q[:, 1].copy()]
    else:
        q.axes = []
        for g in (gx, gy):
            m = ctx.i(1, 7)
            q.axes.append(np.where(ctx.rng.random(m) < 0.5, ctx.rng.choice(g, m),
                                   ctx.rng.uniform(g[0], g[-1], m)))
        q.Q, q.shape = gen.grid_Q(q.axes)
    q.mask = (ctx.rng.random(q.shape) < 0.4) if style == "masked" else None
    out = None
    if style == "masked" and ctx.chance(0.5):
        out = outside(ctx, gx, gy)
        k = int(not (gx[0] <= out[0] <= gx[-1])) ^ 1      # the coordinate that lies outside
        q.axes[k][ctx.i(0, len(q.axes[k]) - 1)] = out[k]
        q.Q, q.shape = gen.grid_Q(q.axes)
        far = (q.Q[:, k] < (gx, gy)[k][0]) | (q.Q[:, k] > (gx, gy)[k][-1])
        q.mask = q.mask | far.reshape(q.shape)
        ctx.cover("masked-outside")
    ctx.cover("style:" + style)
    q.valid = np.ones(len(q.Q), bool) if q.mask is None else ~q.mask.reshape(-1)
    q.args = [style, *[gen.as_input(ctx, a) for a in q.axes]]
    q.kw = {} if q.mask is None else {"mask": q.mask.copy()}
    if "specified" in s.drift.terms:
        q.kw["specified_drift_arrays"] = gen.spec_arrays(ctx, s, q)
    ctx.note(style=style, axes=q.axes, mask=q.mask)
    Q = q.Q.copy()
    Q[~q.valid] = X[0]
    W = V
    if ctx.chance(0.3):
        # nodes that no location needs may hold anything
        free = np.ones(V.shape, bool)
        for x, y in (*X, *Q):
            free[np.ix_(needed(gy, y), needed(gx, x))] = False
        if free.any():
            W = V.copy()
            W[free & (ctx.rng.random(V.shape) < ctx.pick(0.3, 1.0))] = ctx.pick(np.nan, np.inf, -np.inf, np.nan)
            ctx.cover("undefined-nodes", "undefined-nodes:%d" % bool((~np.isfinite(W)).any()))
            ctx.note(handed_over=W)
    s.drift.ext_user = hand_over(ctx, gx, gy, W, kind, vint and np.isfinite(W).all())
    obj = s.build(ctx)
    want = s.answer(Q)
    for b in gen.backends(s):
        got = gen.execute(ctx, obj, q, b)
        gen.compare(ctx, f"uk {b} {style} external drift", q, got, want)
        if rep:
            zq = ca * gen.bilinear(gx, gy, V, Q[:, 0], Q[:, 1]) + cb
            ctx.close(f"uk {b} {style}: a*drift + b", q.flat(got[0]), zq, want[2] + 1e-9 * np.abs(s.z).max(),
                      key="reproduction", where=want[4] & q.valid)
            ctx.cover("reproduced")

    # --- rejections
    if ctx.chance(0.4):
        p = outside(ctx, gx, gy)
        b = ctx.pick("loop", "vectorized")
        style = ctx.pick("points", "grid")
        ctx.note(outside=p)
        if style == "points":
            P = np.r_[place(ctx, gx, gy, ctx.i(0, 5)), [p]]
            P = ctx.rng.permutation(P)
            args = ["points", P[:, 0], P[:, 1]]
            m = len(P)
            sh = (m,)
        else:
            args = ["grid", np.r_[gx[:1], p[0]], np.r_[p[1], gy[-1:]]]
            sh = (2, 2)
        kw = {"backend": b}
        if "specified" in s.drift.terms:
            kw["specified_drift_arrays"] = [np.zeros(sh) for _ in s.drift.spec_fun]
        ctx.raises(f"execute({style}, {b}) outside the external drift grid", obj.execute, *args, **kw)
        ctx.cover("rejected:points")
    if ctx.chance(0.3):
        p = outside(ctx, gx, gy)
        X2 = np.r_[X, [p]][ctx.rng.permutation(len(X) + 1)]
        z2 = ctx.rng.normal(size=len(X2))
        kw = s.kwargs()
        if "specified" in s.drift.terms:
            kw["specified_drift"] = [ctx.rng.normal(size=len(X2)) for _ in s.drift.spec_fun]
        ctx.note(outside_data=p)
        ctx.raises("data outside the external drift grid", gen.classes()["uk"], X2[:, 0], X2[:, 1], z2, **kw)
        ctx.cover("rejected:data")
