import numpy as np
from vf import gen, large
from vf.main import Skip, Violation

RULE = ("Random problems of all classes; a pool of evaluation points is evaluated one by one, in batches (other "
        "order, repeats, other companions), through other containers and number types, as full grid, as list of "
        "the grid's points, as masked grid in both mask orientations, with single-valued, descending and shuffled "
        "axes, on every backend and with moving windows; every pair of results for the same point is compared.")
CASES = {"quick": 2200, "thorough": 30000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "single", "batch", "grid-vs-points", "masked-vs-grid",
            "mask:transposed", "axis:single", "axis:descending", "repeat", "input:int", "input:list",
            "input:column", "scalar", "window", "backend:C", "int-points", "sub-grid", "geographic", "huge-batch",
            "huge-batch-at-data", "large-grid-2d", "large-grid-3d", "batch-of-round-size",
            "close-companions", "mass:C", "mass:vectorized", "mass:loop", "mass:points", "mass:grid", "mass:masked", "close-companions-at-data"]


def run(ctx, s, obj, style, axes, b, kw, mask=None, convert=True, orient=None):
    q = gen.Request()
    q.style, q.mask = style, mask
    axes = [np.atleast_1d(np.asarray(a, float)) for a in axes]
    if style == "points":
        q.Q, q.shape = np.stack(axes, 1), (len(axes[0]),)
    else:
        q.Q, q.shape = gen.grid_Q(axes)
    q.axes = axes
    q.valid = np.ones(len(q.Q), bool) if mask is None else ~mask.reshape(-1)
    k = "scalar" if convert and all(len(a) == 1 for a in axes) and ctx.chance(0.3) else None
    if k:
        ctx.cover("scalar")
        pa = [ctx.pick(float, np.float64)(a[0]) for a in axes]
    else:
        pa = [gen.as_input(ctx, a) if convert else a.copy() for a in axes]
    q.args = [style, *pa]
    q.kw = {}
    if mask is not None:
        m = mask
        if orient == "T":
            m = (m.T if s.dim == 2 else m.swapaxes(0, 2)).copy()
        q.kw["mask"] = gen.mask_form(ctx, m) if convert else m
    if "specified" in s.drift.terms:
        q.kw["specified_drift_arrays"] = gen.spec_arrays(ctx, s, q)
    z, v = gen.execute(ctx, obj, q, b, **kw)
    return q.flat(z), q.flat(v), q


def case(ctx):
    if large.due(ctx, 97):
        large.mass(ctx)
        return
    s = gen.scenario(ctx, n=(3, 40), pinv=0.08)
    obj = s.build(ctx)
    S = s.system()
    d, n = s.dim, len(s.z)
    window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.3)
    kw = {}
    if window:
        kw["n_closest_points"] = ctx.pick(2, ctx.i(2, n), n, n + 2)
        ctx.cover("window")
    bs = gen.backends(s, window)
    b = ctx.pick(*bs)
    big = 6 if d == 2 else 4
    sizes = [ctx.pick(1, ctx.i(2, big), ctx.i(2, big)) for _ in range(d)]
    if d == 3 and ctx.chance(0.5):
        sizes = [ctx.i(1, 3), ctx.i(1, 4), ctx.i(2, 5)]
    if min(sizes) == 1:
        ctx.cover("axis:single")
    ints = (not s.geo) and ctx.chance(0.3) and s.ext > 3
    axes = []
    for k in range(d):
        a = gen.axis(ctx, s, k, sizes[k])
        if ints:
            a = np.round(a)
        axes.append(a)
    if ints:
        if "external_Z" in s.drift.terms:
            lo, hi = s.ext_box
            if any(((axes[k] < lo[k]) | (axes[k] > hi[k])).any() for k in range(2)):
                raise Skip("outside external grid")
        ctx.cover("int-points")
    ctx.note(axes=axes, window=kw, backend=b)
    Q, shape = gen.grid_Q(axes)
    m = len(Q)
    Z, V, tz, tv, ok = s.answer(Q, S)
    if window:
        # every variant uses the same window; its conditioning is at least comparable
        tz, tv = tz + 1e-7 * np.abs(s.z).max(), tv + 1e-7 * float(np.abs(S.A[:n, :n]).max())
    if not ok.any():
        raise Skip("undecidable")

    def cmp(what, got, sel, key):
        w = ok[sel]
        ctx.close(f"{s.cls} {b} {what}: estimate", got[0], base[0][sel], 2 * tz[sel], key=key + "-estimate", where=w)
        ctx.close(f"{s.cls} {b} {what}: variance", got[1], base[1][sel], 2 * tv[sel], key=key + "-variance", where=w)

    base = run(ctx, s, obj, "grid", axes, b, kw, convert=False)
    # the grid's points as a list, x fastest, then y, then z
    got = run(ctx, s, obj, "points", list(Q.T), b, kw)
    cmp("grid vs list of its points", got, np.arange(m), "grid-points")
    ctx.cover("grid-vs-points")
    # alone
    for j in ctx.rng.permutation(m)[:3]:
        got = run(ctx, s, obj, "points", [[v] for v in Q[j]], b, kw)
        cmp(f"point {j} alone", got, np.array([j]), "alone")
        ctx.cover("single")
        if ctx.chance(0.5):
            got = run(ctx, s, obj, "grid", [[v] for v in Q[j]], b, kw)
            cmp(f"point {j} as a one-cell grid", got, np.array([j]), "one-cell")
    # in another order, with repeats, as a subset
    sel = ctx.rng.integers(m, size=ctx.i(2, 2 * m + 2))
    if len(np.unique(sel)) < len(sel):
        ctx.cover("repeat")
    got = run(ctx, s, obj, "points", list(Q[sel].T), b, kw)
    cmp("points in other order/with repeats", got, sel, "batch")
    ctx.cover("batch")
    # among very many
    if ctx.chance(0.05):
        N = ctx.pick(ctx.i(1000, 3000), ctx.i(5000, 12000), ctx.i(9000, 25000)) if b != "loop" else ctx.i(1000, 3000)
        if ctx.chance(0.5):     # around round numbers
            N = ctx.pick(2 ** ctx.i(4, 11 if b == "loop" else 14), 100 * ctx.i(1, 30), 1000 * ctx.i(1, 3 if b == "loop" else 12)) + ctx.i(-1, 1)
            ctx.cover("batch-of-round-size")
        P = gen.query_points(ctx, s, ctx.i(4, 30), data_frac=0.5)
        if ints:
            P = s.X[ctx.rng.integers(n, size=len(P))].copy()
        Z2, V2, t2, u2, ok2 = s.answer(P, S)
        few = run(ctx, s, obj, "points", list(P.T), b, kw)
        big = ctx.rng.integers(len(P), size=N)
        got = run(ctx, s, obj, "points", list(P[big].T), b, kw)
        w = ok2[big]
        if window:
            t2, u2 = t2 + 1e-7 * np.abs(s.z).max(), u2 + 1e-7 * float(np.abs(S.A[:n, :n]).max())
        ctx.close(f"{s.cls} {b} {N} points at once: estimate", got[0], few[0][big], 2 * t2[big], key="huge-estimate", where=w)
        ctx.close(f"{s.cls} {b} {N} points at once: variance", got[1], few[1][big], 2 * u2[big], key="huge-variance", where=w)
        ctx.cover("huge-batch")
        if (s.coincide(P).any(1) & ok2).any():
            ctx.cover("huge-batch-at-data")
    # a large grid against some of its points
    if ctx.chance(0.06):
        top = (60 if b == "loop" else 130) if d == 2 else (14 if b == "loop" else 26)
        ax = [gen.axis(ctx, s, k, ctx.pick(ctx.i(2, top), ctx.i(top // 2, top), 2 ** ctx.i(1, 6 if d == 2 else 4) + ctx.i(0, 1)))
              for k in range(d)]
        P, sh = gen.grid_Q(ax)
        N = len(P)
        M = ctx.rng.random(sh) < ctx.u(0.1, 0.9) if ctx.chance(0.4) else None
        pos = np.r_[0, 1, N - 2, N - 1, ctx.rng.integers(N, size=20), [v + ctx.i(-1, 1) for v in 2 ** np.arange(5, 15)],
                    N - sh[-1], N - sh[-1] - 1, sh[-1], sh[-1] - 1]
        pos = np.unique(pos[(pos >= 0) & (pos < N)])
        if M is not None:
            pos = pos[~M.reshape(-1)[pos]]
        at = np.flatnonzero(s.coincide(P[:: max(1, N // 4000)]).any(1)) * max(1, N // 4000)
        pos = np.r_[pos, at[:6]] if M is None else pos
        if len(pos):
            Z2, V2, t2, u2, ok2 = s.answer(P[pos], S)
            if window:
                t2, u2 = t2 + 1e-7 * np.abs(s.z).max(), u2 + 1e-7 * float(np.abs(S.A[:n, :n]).max())
            got = run(ctx, s, obj, "grid" if M is None else "masked", ax, b, kw, mask=M, convert=False)
            few = run(ctx, s, obj, "points", list(P[pos].T), b, kw, convert=False)
            ctx.close(f"{s.cls} {b} {sh} grid: estimate", got[0][pos], few[0], 2 * t2, key="large-grid-estimate", where=ok2)
            ctx.close(f"{s.cls} {b} {sh} grid: variance", got[1][pos], few[1], 2 * u2, key="large-grid-variance", where=ok2)
            ctx.cover("large-grid", "large-grid-3d" if d == 3 else "large-grid-2d")
    # close companions: each point of the batch has one very near
    if ctx.chance(0.35):
        P = np.concatenate([s.X[ctx.rng.integers(n, size=ctx.i(1, 3))], gen.query_points(ctx, s, ctx.i(1, 3))])
        off = ctx.rng.normal(size=P.shape)
        off /= np.linalg.norm(off, axis=1)[:, None] + 1e-300
        P = np.concatenate([P, P + off * s.ext * 10 ** ctx.u(-8, -3)])[ctx.rng.permutation(2 * len(P))]
        if not ("external_Z" in s.drift.terms) or ((P >= s.ext_box[0]) & (P <= s.ext_box[1])).all():
            Z2, V2, t2, u2, ok2 = s.answer(P, S)
            if window:
                t2, u2 = t2 + 1e-7 * np.abs(s.z).max(), u2 + 1e-7 * float(np.abs(S.A[:n, :n]).max())
            got = run(ctx, s, obj, "points", list(P.T), b, kw, convert=False)
            for j in np.flatnonzero(ok2):
                one = run(ctx, s, obj, "points", [[v] for v in P[j]], b, kw, convert=False)
                ctx.close(f"{s.cls} {b} point {j} among close ones: estimate", got[0][j:j + 1], one[0], 2 * t2[j:j + 1], key="close-estimate")
                ctx.close(f"{s.cls} {b} point {j} among close ones: variance", got[1][j:j + 1], one[1], 2 * u2[j:j + 1], key="close-variance")
            ctx.cover("close-companions")
            if s.coincide(P).any():
                ctx.cover("close-companions-at-data")
    # with other companions
    extra = gen.query_points(ctx, s, ctx.i(1, 8))
    if not ("external_Z" in s.drift.terms) or ((extra >= s.ext_box[0]) & (extra <= s.ext_box[1])).all():
        P = np.concatenate([extra, Q[sel]])
        got = run(ctx, s, obj, "points", list(P.T), b, kw)
        cmp("points among others", (got[0][len(extra):], got[1][len(extra):]), sel, "companions")
    # masked, both orientations
    M = ctx.rng.random(shape) < ctx.u(0, 1)
    for orient in ("same", "T"):
        t = M if orient == "same" else (M.T if d == 2 else M.swapaxes(0, 2))
        if orient == "T" and t.shape == M.shape:
            continue
        if orient == "T":
            ctx.cover("mask:transposed")
        got = run(ctx, s, obj, "masked", axes, b, kw, mask=M, orient=orient)
        keep = np.flatnonzero(~M.reshape(-1))
        cmp(f"masked ({orient}) vs grid", (got[0][keep], got[1][keep]), keep, "masked")
        ctx.cover("masked-vs-grid")
    # reordered / reduced axes
    per = [ctx.pick(ctx.rng.permutation(k), np.arange(k)[::-1], np.arange(k)[:ctx.i(1, k)]) for k in sizes]
    idx = np.arange(m).reshape(shape)
    idx = idx[np.ix_(*[per[k] for k in range(d - 1, -1, -1)])].reshape(-1)
    got = run(ctx, s, obj, "grid", [axes[k][per[k]] for k in range(d)], b, kw)
    cmp("grid with reordered or fewer axis values", got, idx, "axes")
    ctx.cover("sub-grid")
