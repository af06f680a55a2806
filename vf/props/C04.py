import numpy as np
from vf import gen, ref
from vf.main import Skip
from vf.props import C25

RULE = ("Random problems of all classes (incl. pseudo-inverse, geographic, drift combinations, both exact "
        "settings, masks covering cells outside the external drift grid) and requests of every style, with and "
        "without moving window, run on every backend the class has; results, shapes and masks are compared "
        "pairwise within the error bound of the reference system.")
CASES = {"quick": 3000, "thorough": 40000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "pair:C", "window", "pinv:pinv", "pinv:pinvh",
            "masked-outside", "geographic", "drift:combined", "style:masked", "nugget", "many-points", "mask:strided", "redundant"]


def redundant(ctx):
    """data repeated at the same location, with a nugget: full rank, and several data at zero distance of a point there"""
    s = gen.scenario(ctx, n=(2, 30), pinv=1.0, nugget=1, custom=0, models=[m for m in gen.C_MODELS if m != "gaussian"])
    g = C25.repeat(ctx, s)
    X = s.X[g]
    z = s.z[g] + ctx.rng.normal(size=len(g)) * (np.ptp(s.z) + 1e-3)
    kw = {"specified_drift": [f(X) for f in s.drift.spec_fun]} if "specified" in s.drift.terms else {}
    obj = s.build(ctx, X=X, z=z, **kw)
    tol = C25.bound(s, X, z)
    q = gen.request(ctx, s)
    at = s.coincide(q.Q).any(1)
    w = q.valid & ((at & (64 * ref.EPS * s.cmag() < 1e-11)) | (~at & C25.far(s, q.Q)))
    bs = gen.backends(s)
    res = [gen.execute(ctx, obj, q, b) for b in bs]
    mag = float(np.abs(np.asarray(s.vario.gamma(np.array([s.ext], np.longdouble)), float)).max())
    for j in range(1, len(bs)):
        for what, i, m in (("estimate", 0, np.abs(z).max()), ("variance", 1, mag)):
            a = q.flat(res[0][i])
            ctx.close(f"{s.cls} {q.style} repeated data, {what}: {bs[j]} vs {bs[0]}", q.flat(res[j][i]), a,
                      tol * max(m, np.abs(a[w]).max() if w.any() else 0), key="backend-" + bs[j], where=w)
    if (w & at).any():
        ctx.cover("redundant")


def case(ctx):
    if ctx.chance(0.05):
        return redundant(ctx)
    s = gen.scenario(ctx, n=(2, 60), pinv=0.25, models=gen.C_MODELS if ctx.chance(0.8) else gen.BUILTIN,
                     custom=0.05)
    many = ctx.chance(0.03)
    q = gen.request(ctx, s, style="points" if many else None, m=ctx.i(300, 1500) if many else None)
    gen.range_hit(ctx, s, q)
    if many:
        ctx.cover("many-points")
    if "external_Z" in s.drift.terms and q.style == "masked" and ctx.chance(0.6):
        # a column of masked cells outside the external drift grid
        lo, hi = s.ext_box
        ax = q.axes[0].copy()
        ax[ctx.i(0, len(ax) - 1)] = hi[0] + (hi[0] - lo[0])
        q.axes[0] = ax
        q.Q, _ = gen.grid_Q(q.axes)
        out = (q.Q[:, 0] > hi[0]).reshape(q.shape)
        q.mask = q.mask | out
        q.valid = ~q.mask.reshape(-1)
        q.args = [q.style, *[a.copy() for a in q.axes]]
        q.kw["mask"] = q.mask.copy()
        if "specified" in s.drift.terms:
            q.kw["specified_drift_arrays"] = gen.spec_arrays(ctx, s, q)
        ctx.note(axes=q.axes, mask=q.mask)
        ctx.cover("masked-outside")
    obj = s.build(ctx)
    S = s.system()
    n = len(s.z)
    Q = q.Q.copy()
    if "external_Z" in s.drift.terms:      # masked cells outside have no reference value: move them
        Q[~q.valid] = s.X[0]
    if len(Q) > 400:
        Q = Q[:400]
    Z, V, tz, tv, ok = s.answer(Q, S)
    window = s.cls == "ok" and ctx.chance(0.4)
    kw = {}
    if window:
        k = kw["n_closest_points"] = ctx.pick(2, ctx.i(2, max(2, n)), ctx.i(2, 12), n + 3)
        ctx.cover("window")
        # ties in the neighbour search are broken by one common search: no restriction needed, but
        # each window needs to be well conditioned
        tz, tv, ok = window_bound(ctx, s, Q, min(k, n))
    bs = gen.backends(s, window)
    res = [gen.execute(ctx, obj, q, b, **kw) for b in bs]
    if len(q.Q) > 400:
        # bound for the rest: the worst of the sample
        f = lambda t: np.concatenate([t, np.full(len(q.Q) - 400, 10 * t[ok].max() if ok.any() else np.inf)])
        tz, tv = f(tz), f(tv)
        ok = np.concatenate([ok, far_enough(s, q.Q[400:], S)])
    w = ok & q.valid
    for j in range(1, len(bs)):
        for what, i, t in (("estimate", 0, tz), ("variance", 1, tv)):
            ctx.close(f"{s.cls} {q.style} {what}: {bs[j]} vs {bs[0]}{' window' if window else ''}",
                      q.flat(res[j][i]), q.flat(res[0][i]), 2 * t, key="backend-" + bs[j], where=w)
        if w.any():
            ctx.cover("pair:" + bs[j])


def far_enough(s, Q, S):
    Qa = s.adj(Q)
    D = S.dist(Qa, S.Xa).astype(float)
    D[s.coincide(Q)] = np.inf
    ok = D.min(1) > 1e-9 + 64 * ref.EPS * S.cmag
    lo, hi = s.X.min(0), s.X.max(0)
    sp = hi - lo
    return ok & ((Q >= lo - 0.3 * sp) & (Q <= hi + 0.3 * sp)).all(1)


def window_bound(ctx, s, Q, k):
    tz, tv, ok = [], [], []
    Qa = s.adj(Q)
    Xa = s.adj(s.X)
    D = (ref.gdist if s.geo else ref.edist)(Qa, Xa).astype(float)
    full = s.X, s.z
    for j in range(len(Q)):
        if j >= 60:
            tz.append(np.inf), tv.append(np.inf), ok.append(False)
            continue
        o = np.argsort(D[j], kind="stable")
        idx = o[:k]
        try:
            S = s.system(idx=idx)
            a = s.answer(Q[j:j + 1], S, X=s.X[idx])
            # a tie at the rim of the window: the choice is legitimate either way but is common to
            # all backends, so it only matters for the conditioning; leave such points out
            tie = k < len(o) and D[j][o[k]] - D[j][o[k - 1]] < 1e-9 * max(D[j].max(), 1e-300)
            tz.append(a[2][0]), tv.append(a[3][0]), ok.append(bool(a[4][0]) and not tie)
        except Skip:
            tz.append(np.inf), tv.append(np.inf), ok.append(False)
    return np.array(tz), np.array(tv), np.array(ok)
