import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Random data sets of all classes in which some locations are measured several times (pairs, many times, "
        "all of them, equal or conflicting values), with either pseudo-inverse: with zero nugget every backend "
        "must give the reference answer for the distinct locations with averaged values; with a nugget, replacing "
        "the repeated values by their average must change nothing; results finite. Without repetitions the "
        "results must equal those of direct solving. Ill-conditioned problems are left out.")
CASES = {"quick": 2500, "thorough": 30000}
REQUIRED = ["nugget-at", "cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "backend:C", "backend:loop", "backend:vectorized",
            "pinv:pinv", "pinv:pinvh", "averaged", "nugget-average", "no-redundancy", "rep:many", "rep:all",
            "rep:equal", "window", "window-averaged", "geographic", "drift:combined", "single-location", "small-units", "window-all-nugget"]


def repeat(ctx, s):
    """-> row numbers into s.X, one per measurement"""
    n = len(s.X)
    kind = ctx.pick("pair", "some", "many", "all")
    if kind == "pair":
        extra = [ctx.i(0, n - 1)]
    elif kind == "some":
        extra = ctx.rng.integers(n, size=ctx.i(1, max(1, n // 2))).tolist()
    elif kind == "many":
        extra = [ctx.i(0, n - 1)] * ctx.i(2, 9)
    else:
        extra = list(range(n))
    ctx.cover("rep:" + kind)
    g = np.r_[np.arange(n), extra]
    return ctx.rng.permutation(g)


def case(ctx):
    t = ctx.rng.random()
    if t < 0.3:
        return direct(ctx)
    if t < 0.36:
        return small_units(ctx)
    nug = ctx.pick(0, 0, 1)
    # the pseudo-inverse cuts off small singular values: only well-conditioned models tell
    s = gen.scenario(ctx, n=(2, 30), pinv=1.0, nugget=nug, custom=0.08,
                     models=[m for m in gen.BUILTIN if m != "gaussian"] if ctx.chance(0.8) else gen.BUILTIN)
    if ctx.chance(0.03) and s.cls in ("ok", "ok3"):
        # all measurements at one location
        s.X = np.repeat(s.X[:1], 1, axis=0)
        s.z = s.z[:1]
        s.centre = ref.centre(s.X)
        g = np.zeros(ctx.i(2, 6), int)
        ctx.cover("single-location")
    else:
        g = repeat(ctx, s)
    z = s.z[g].copy()
    if ctx.chance(0.25):
        ctx.cover("rep:equal")
    else:
        for i in np.unique(g):
            w = g == i
            if w.sum() > 1:
                z[w] += ctx.rng.normal(size=int(w.sum())) * (np.ptp(s.z) + 1e-3)
        ctx.cover("rep:different")
    zm = np.array([z[g == i].mean() for i in range(len(s.X))])
    X = s.X[g]
    q = gen.request(ctx, s)
    full = dict(inputs=[gen.as_input(ctx, a) for a in (*s.coords(X), z)])
    if "specified" in s.drift.terms:
        full["specified_drift"] = [f(X) for f in s.drift.spec_fun]
    ctx.note(groups=g, values=z)
    obj = s.build(ctx, X=X, z=z, **full)
    S = s.system(z=zm)
    if S.sv[-1] < 1e-9 * S.sv[0]:
        raise Skip("illconditioned")
    if nug == 0 and s.vario.nugget == 0:
        Z, V, tz, tv, ok = s.answer(q.Q, S)
        cond = S.sv[0] / S.sv[-1]
        amp = 1e-12 * cond * len(g)
        zs, vs = float(np.abs(z).max()), float(np.abs(S.A[:S.n, :S.n]).max())
        zmag = max(zs, float(np.abs(Z[ok]).max()) if ok.any() else 0)
        want = (Z, V, 30 * tz + amp * zmag, 30 * tv + amp * (vs + np.abs(V.astype(float))), ok)
        if amp > 1e-5:
            raise Skip("illconditioned")
        for b in gen.backends(s):
            got = gen.execute(ctx, obj, q, b)
            finite(ctx, q, got, b)
            gen.compare(ctx, f"{s.cls} {b} {s.pinv_type} repeated locations", q, got, want)
        ctx.cover("averaged")
        if s.cls in ("ok", "ok3"):
            k = len(g) + ctx.pick(0, 1, 5)
            for b in gen.backends(s, True):
                got = gen.execute(ctx, obj, q, b, n_closest_points=k)
                finite(ctx, q, got, b)
                gen.compare(ctx, f"{s.cls} {b} {s.pinv_type} repeated locations, window", q, got, want)
            ctx.cover("window")
            windows(ctx, s, obj, q, g, z)
    else:
        # off the diagonal the semivariance of repeated measurements is the nugget: smoothing between
        # them, with a rank that stays full; by symmetry only their average matters
        o2 = None
        za = np.array([zm[i] for i in g])
        k2 = {}
        if "specified" in s.drift.terms:
            k2["specified_drift"] = [f(X) for f in s.drift.spec_fun]
        o2 = s.build(ctx, X=X, z=za, **k2)
        tol = bound(s, X, z)
        at = s.coincide(q.Q).any(1)
        first = None
        for b in gen.backends(s):
            got = gen.execute(ctx, obj, q, b)
            g2 = gen.execute(ctx, o2, q, b)
            finite(ctx, q, got, b)
            # at a repeated location all of its data are at zero distance, so that only their average matters, too
            w = q.valid & ((at & (64 * ref.EPS * s.cmag() < 1e-11)) | (~at & far(s, q.Q)))
            ctx.cover("nugget-at", n=int((w & at).sum()))
            zt = tol * max(np.abs(z).max(), float(np.abs(q.flat(g2[0]))[w].max()) if w.any() else 0)
            vt = tol * max(float(np.abs(S.A[:S.n, :S.n]).max()), float(np.abs(q.flat(g2[1]))[w].max()) if w.any() else 0)
            ctx.close(f"{s.cls} {b} repeated vs averaged values", q.flat(got[0]), q.flat(g2[0]), zt,
                      key="estimate", where=w)
            ctx.close(f"{s.cls} {b} repeated vs averaged values: variance", q.flat(got[1]), q.flat(g2[1]), vt,
                      key="variance", where=w)
            if first is not None:
                ctx.close(f"{s.cls} {b} vs first backend", q.flat(got[0]), q.flat(first[0]), zt,
                          key="backend", where=w)
                ctx.close(f"{s.cls} {b} vs first backend: variance", q.flat(got[1]), q.flat(first[1]), vt,
                          key="backend", where=w)
            first = got
        if s.cls in ("ok", "ok3"):
            k = len(g) + ctx.pick(0, 1, 5)
            for b in gen.backends(s, True):
                got = gen.execute(ctx, obj, q, b, n_closest_points=k)
                ctx.close(f"{s.cls} {b} window of all data vs no window", q.flat(got[0]), q.flat(first[0]), zt, key="estimate", where=w)
                ctx.close(f"{s.cls} {b} window of all data vs no window: variance", q.flat(got[1]), q.flat(first[1]), vt,
                          key="variance", where=w)
            ctx.cover("window-all-nugget")
        ctx.cover("nugget-average")


def windows(ctx, s, obj, q, g, z):
    """k nearest measurements (repeated ones count separately), then averaged"""
    k = ctx.i(2, len(g))
    Qa, Xa = s.adj(q.Q), s.adj(s.X)
    D = (ref.gdist if s.geo else ref.edist)(Qa, Xa)[:, g]
    m = len(q.Q)
    Z, V = np.zeros(m, np.longdouble), np.zeros(m, np.longdouble)
    tz, tv, ok = np.zeros(m), np.zeros(m), np.zeros(m, bool)
    for j in ctx.rng.permutation(np.flatnonzero(q.valid))[:12]:
        o = np.argsort(D[j], kind="stable")
        if k < len(o) and float(D[j][o[k]] - D[j][o[k - 1]]) < 1e-9 * float(D[j].max()) + 1e-12 * s.cmag():
            continue
        if s.geo and float(D[j][o[k - 1]]) > 170:
            continue
        sel = o[:k]
        u = np.unique(g[sel])
        zu = np.array([z[sel][g[sel] == i].mean() for i in u])
        try:
            S = ref.System(Xa[u], zu, s.vario.gamma, s.vario.mag(), s.cmag(), geo=s.geo)
            if S.sv[-1] < 1e-7 * S.sv[0]:
                continue
            a = s.answer(q.Q[j:j + 1], S, z=zu, X=s.X[u])
        except (Skip, ref.IllConditioned):
            continue
        amp = 1e-12 * S.sv[0] / S.sv[-1] * k
        Z[j], V[j], tz[j], tv[j], ok[j] = (t[0] for t in a)
        tz[j] = 30 * tz[j] + amp * max(np.abs(zu).max(), abs(float(Z[j])))
        tv[j] = 30 * tv[j] + amp * max(float(np.abs(S.A[:S.n, :S.n]).max()), abs(float(V[j])))
        if len(u) < k:
            ctx.cover("window-averaged")
    for b in gen.backends(s, True):
        # other windows of the same request may be singular beyond the pseudo-inverse's help only if
        # they hold equal locations, which it is there for: they have to be finite as well
        got = gen.execute(ctx, obj, q, b, n_closest_points=k)
        finite(ctx, q, got, b)
        gen.compare(ctx, f"{s.cls} {b} {s.pinv_type} repeated locations, k={k}", q, got, (Z, V, tz, tv, ok))


def finite(ctx, q, got, b):
    for a, what in ((got[0], "estimates"), (got[1], "variances")):
        ctx.require(np.isfinite(q.flat(a)[q.valid].astype(float)).all(), f"{b}: {what} not finite", key="finite")


def far(s, Q):
    D = (ref.gdist if s.geo else ref.edist)(s.adj(Q), s.adj(s.X)).astype(float)
    return D.min(1) > 1e-9 + 64 * ref.EPS * s.cmag()


def bound(s, X, z):
    """relative tolerance from the singular values of the full system (semivariances between repeated
    measurements are the nugget)"""
    Xa = s.adj(X)
    D = ref.gdist(Xa, Xa) if s.geo else ref.edist(Xa, Xa)
    G = np.asarray(s.vario.gamma(D), float)
    np.fill_diagonal(G, 0)
    F, _ = s.drift_at(X, Xa)
    n, p = F.shape
    A = np.zeros((n + p + 1,) * 2)
    A[:n, :n] = -G
    A[:n, n:n + p] = F
    A[n:n + p, :n] = F.T
    A[:n, -1] = A[-1, :n] = 1
    sv = np.linalg.svd(A, compute_uv=False)
    c = sv[0] / max(sv[-1], 1e-300)
    # rank-deficient though (repeated wells, ...): nothing to say
    t = 1e-11 * c * n
    if not t < 1e-5:
        raise Skip("illconditioned")
    # rounding of the coordinates
    t += 1e3 * ref.EPS * s.cmag() / max(s.ext, 1e-300) * c
    if not t < 1e-4:
        raise Skip("illconditioned")
    return t + 1e-9


def direct(ctx):
    s = gen.scenario(ctx, n=(2, 40), pinv=0, custom=0.08)
    q = gen.request(ctx, s)
    S = s.system()
    if S.sv[-1] < 1e-11 * S.sv[0]:
        raise Skip("illconditioned")
    o1 = s.build(ctx)
    a1 = s.answer(q.Q, S)
    s.pinv, s.pinv_type = True, ctx.pick("pinv", "pinvh")
    o2 = s.build(ctx)
    a2 = s.answer(q.Q, S)
    ctx.cover("pinv:" + s.pinv_type)
    w = a1[4] & a2[4] & q.valid
    for b in gen.backends(s):
        g1 = gen.execute(ctx, o1, q, b)
        g2 = gen.execute(ctx, o2, q, b)
        for i, what in ((0, "estimate"), (1, "variance")):
            ctx.close(f"{s.cls} {b} {s.pinv_type} vs direct: {what}", q.flat(g2[i]), q.flat(g1[i]),
                      a1[2 + i] + a2[2 + i], key=what, where=w)
        gen.compare(ctx, f"{s.cls} {b} {s.pinv_type}", q, g2, a2)
    ctx.cover("no-redundancy")


def small_units(ctx):
    """concentrations of 1e-5 give semivariances of 1e-10: no reason to treat the data as redundant"""
    s = gen.scenario(ctx, cls=("ok", "ok3", "uk", "uk3"), n=(2, 25), pinv=1.0, custom=0, drift=False,
                     models=[m for m in gen.BUILTIN if m != "gaussian"])
    v = float(np.asarray(s.vario.gamma(np.array([s.ext], np.longdouble)), float)[0])
    c = ctx.lu(1e-10, 1e-6) / max(v, 1e-300)
    s.vario = s.vario.scaled(c)
    s.z = (s.z - s.z.mean()) * np.sqrt(c)
    s.describe(ctx)
    S = s.system()
    if S.sv[-1] < 1e-10 * S.sv[0]:
        raise Skip("illconditioned")
    q = gen.request(ctx, s)
    co = s.coincide(q.Q)
    Z, V, _, _ = S.solve(s.adj(q.Q), co, exact=s.exact, pinv=True)
    w = q.valid & (co.any(1) | far(s, q.Q))
    if not w.any():
        raise Skip("no points")
    Z, V = Z.astype(float), V.astype(float)
    obj = s.build(ctx)
    for b in gen.backends(s):
        got = gen.execute(ctx, obj, q, b)
        ctx.close(f"{s.cls} {b} {s.pinv_type} small units: estimate", q.flat(got[0]), Z,
                  1e-2 * max(np.abs(s.z).max(), np.abs(Z[w]).max()), key="estimate", where=w)
        ctx.close(f"{s.cls} {b} {s.pinv_type} small units: variance", q.flat(got[1]), V,
                  1e-2 * max(float(np.abs(S.A[:S.n, :S.n]).max()), np.abs(V[w]).max()), key="variance", where=w)
    ctx.cover("small-units")
