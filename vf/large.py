"""Problems too large for the extended-precision reference: many data, or very many evaluation points.

The systems are well conditioned (nugget, spread locations), so that an independent double precision solution decides. Only OrdinaryKriging can be
constructed with thousands of data: the other classes compute their statistics on construction, which takes O(n^4)."""
import numpy as np
from vf import gen, ref

MODELS = ("linear", "power", "spherical", "exponential", "gaussian", "hole-effect")


def due(ctx, every, offset=7):
    """a fixed share of the cases, spread over the workers"""
    return ctx.idx % every == offset % every


def problem(ctx, cls, geo=False, n=None):
    s = gen.Scn()
    s.cls = c = ctx.pick(*cls)
    s.dim = d = 3 if c.endswith("3") else 2
    s.geo, s.rng_flag, s.pinv, s.pinv_type = geo, False, False, "pinv"
    s.exact = ctx.chance(0.6)
    s.drift = gen.Drift()
    n = n or ctx.pick(ctx.i(700, 1500), ctx.i(1500, 2400), ctx.pick(1000, 1024, 2000, 2048) + ctx.i(-1, 2))
    if geo:
        u = ctx.rng.normal(size=(n, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        s.X = np.degrees(np.stack([np.arctan2(u[:, 1], u[:, 0]), np.arcsin(u[:, 2])], 1))
        s.scaling, s.angle, s.centre = [1.0], [0.0], np.zeros(2)
        ext = 90.0
    else:
        s.X = ctx.rng.uniform(0, 100, (n, d))
        if ctx.chance(0.5):      # clusters, sparse in between
            at = ctx.rng.uniform(5, 95, (ctx.i(1, 6), d))
            i = ctx.rng.choice(n, ctx.i(n // 2, n - 20 if n > 40 else n // 2), replace=False)
            s.X[i] = at[ctx.rng.integers(len(at), size=len(i))] + ctx.rng.uniform(-5, 5, (len(i), d))
        s.X = s.X * ctx.pick(1.0, 10.0) + ctx.pick(0.0, 500.0)
        s.scaling = [ctx.pick(1.0, ctx.u(0.5, 2)) for _ in range(d - 1)]
        s.angle = [ctx.pick(0.0, ctx.u(-90, 90)) for _ in range(2 * d - 3)]
        s.centre = ref.centre(s.X)
        ext = float(np.ptp(s.X[:, 0]))
    s.L = s.ext = ext
    U = s.X / ext
    s.z = 3 * np.sin(4 * U[:, 0]) + U[:, 1] + ctx.rng.normal(size=n)
    name = ctx.pick(*MODELS)
    if name == "linear":
        p = [3.0 / ext, 0.8]
    elif name == "power":
        p = [3.0 / ext ** 1.2, 1.2, 0.8]
    elif name == "hole-effect":
        p = [2.0, ext * 0.1, 1.5]
    else:
        p = [ctx.u(2, 4), ext * ctx.u(0.1, 0.5), ctx.u(0.5, 1.0)]
        if name == "gaussian":
            p[1] = ext * 0.1
    s.vario = gen.make_vario(name, p)
    s.terms = []
    if c.startswith("uk"):
        s.terms = [t for t in ("regional_linear", "specified", "functional") if ctx.chance(0.5)] or ["regional_linear"]
    ctx.note(large=True, cls=c, n=n, model=name, par=p, geo=geo, exact=s.exact, scaling=s.scaling, angle=s.angle, terms=s.terms)
    return s


def fun(s):
    c, e = s.centre[0], s.ext
    return lambda *x: ((x[0] - c) / e) ** 2


def spec(P):
    return np.sin(np.asarray(P) @ np.arange(1.0, np.shape(P)[1] + 1.0) * 0.03)


def build(ctx, s, **over):
    kw = s.kwargs()
    kw.update(over)
    if s.terms:
        kw["drift_terms"] = list(s.terms)
        if "specified" in s.terms:
            kw["specified_drift"] = [spec(s.X)]
        if "functional" in s.terms:
            kw["functional_drift"] = [fun(s)]
    K = gen.classes()[s.cls]
    return ctx.call(f"{K.__name__} of {len(s.z)} data", K, *s.coords(), s.z, **kw)


def columns(s, Q, Qa):
    F = []
    if "regional_linear" in s.terms:
        F += list(Qa.T)
    if "specified" in s.terms:
        F.append(spec(Q))
    if "functional" in s.terms:
        F.append(fun(s)(*Qa.T))
    return np.array(F).reshape(len(F), len(Q)).T


def distances(s, A, B):
    if not s.geo:
        return np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))
    def vec(P):
        a, b = np.radians(P[:, 0]), np.radians(P[:, 1])
        return np.stack([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)], 1)
    u, v = vec(A), vec(B)
    return np.degrees(2 * np.arcsin(np.minimum(1.0, np.sqrt(((u[:, None] - v[None]) ** 2).sum(-1)) / 2)))


def gamma(s, D):
    return np.asarray(ref.model(s.vario.name, s.vario.par, D.astype(np.longdouble)), float) if D.size < 10 ** 6 else fast(s, D)


def fast(s, D):
    n, p = s.vario.name, s.vario.par
    if n == "linear":
        return p[0] * D + p[1]
    if n == "power":
        return p[0] * D ** p[1] + p[2]
    ps, r, nug = p
    if n == "gaussian":
        return ps * (1 - np.exp(-D ** 2 / (r * 4 / 7) ** 2)) + nug
    if n == "exponential":
        return ps * (1 - np.exp(-D / (r / 3))) + nug
    if n == "hole-effect":
        return ps * (1 - (1 - D / (r / 3)) * np.exp(-D / (r / 3))) + nug
    return np.where(D < r, ps * (1.5 * D / r - 0.5 * (D / r) ** 3), ps) + nug


def solve(s, Q, window=None):
    """estimates and variances in double precision"""
    Xa, Qa = s.adj(s.X).astype(float), s.adj(Q).astype(float)
    D = distances(s, Qa, Xa)
    same = (np.asarray(Q)[:, None] == s.X[None]).all(-1)
    G = gamma(s, D)
    if s.exact:
        G[same] = 0.0
    F, FQ = columns(s, s.X, Xa), columns(s, Q, Qa)

    def system(i):
        n, f = len(i), F.shape[1]
        A = np.zeros((n + f + 1, n + f + 1))
        g = gamma(s, distances(s, Xa[i], Xa[i]))
        np.fill_diagonal(g, 0.0)
        A[:n, :n] = -g
        A[:n, n:n + f] = F[i]
        A[n:n + f, :n] = F[i].T
        A[:n, -1] = A[-1, :n] = 1.0
        return A

    def rhs(j, i):
        return np.concatenate([-G[j, i], FQ[j], [1.0]])
    if window is None:
        i = np.arange(len(s.z))
        b = np.stack([rhs(j, i) for j in range(len(Q))], 1)
        x = np.linalg.solve(system(i), b)
        return s.z @ x[:len(i)], -(x * b).sum(0)
    Z, V = [], []
    for j in range(len(Q)):
        i = np.argsort(D[j], kind="stable")[:window]
        b = rhs(j, i)
        x = np.linalg.solve(system(i), b)
        Z.append(s.z[i] @ x[:len(i)])
        V.append(-x @ b)
    return np.array(Z), np.array(V)


def case(ctx, cls, geo=False, window=False):
    """many data"""
    s = problem(ctx, cls, geo, ctx.i(420, 900) if window and ctx.chance(0.75) else None)
    n, d = len(s.z), s.dim
    o = build(ctx, s)
    for _ in range(ctx.i(4, 8) if window and n < 1000 else 1):
        ask(ctx, s, o, window)


def ask(ctx, s, o, window):
    n, d, geo = len(s.z), s.dim, s.geo
    m = ctx.i(1, 5) if window else ctx.i(6, 14)
    lo, hi = s.X.min(0), s.X.max(0)
    if ctx.chance(0.7 if window else 0.4) and not geo:     # all points in a small part of the domain
        w = (hi - lo) * ctx.lu(1e-3, 0.2)
        lo = lo + (hi - lo - w) * ctx.rng.random(d)
        hi = lo + w
    Q = ctx.rng.uniform(lo, hi, (m, d))
    if (hi - lo).max() < 0.3 * np.ptp(s.X, 0).max() and ctx.chance(0.7):
        pass
    else:
        Q[0] = s.X[-1]
    at = ctx.rng.random(m) < (0.4 if (Q[0] == s.X[-1]).all() else 0.0)
    Q[at] = s.X[ctx.rng.integers(n, size=int(at.sum()))]
    kw = {}
    if "specified" in s.terms:
        kw["specified_drift_arrays"] = [spec(Q)]
    k = None
    if window:
        k = kw["n_closest_points"] = ctx.pick(ctx.i(2, 40), ctx.i(2, 40), ctx.i(40, 200), n - 1 if n < 700 else 100)
    Z, V = solve(s, Q, k)
    zs, vs = float(np.abs(s.z).max()), float(s.vario.par[0] if s.vario.name not in ("linear", "power") else 4.0)
    bs = list(gen.backends(s, window))
    for b in bs if n < 1200 else [ctx.pick(*bs)]:
        r = ctx.call(f"execute of {n} data, {b}", o.execute, "points", *[Q[:, j] for j in range(d)], backend=b, **kw)
        what = f"{s.cls} {b} {n} data{'' if k is None else f', window of {k}'}: "
        ctx.close(what + "estimate", np.asarray(r[0]), Z, 1e-7 * zs, key="large-estimate")
        ctx.close(what + "variance", np.asarray(r[1]), V, 1e-7 * vs, key="large-variance")
        ctx.cover("large:" + s.cls, *(["thousands-of-data"] if n > 999 else []))


def mass(ctx):
    """very many evaluation points: the same as some of them in a request of their own"""
    s = problem(ctx, ("ok", "ok", "uk", "ok3", "uk3"), geo=ctx.chance(0.15), n=ctx.i(6, 9))
    if s.geo:
        s.cls, s.dim, s.terms = "ok", 2, []
        u = s.X
        if u.shape[1] != 2:
            s.X = u[:, :2]
    n, d = len(s.z), s.dim
    if s.cls.startswith("uk"):
        s.terms = s.terms[:1] if s.terms[0] != "regional_linear" or n > 7 else ["specified"]
    o = build(ctx, s)
    window = s.cls in ("ok", "ok3") and ctx.chance(0.25)
    b = ctx.pick(*gen.backends(s, window))
    N = (ctx.pick(2 ** 15, 2 ** 16, 10 ** 5) if b == "loop" or window else ctx.pick(2 ** 16, 2 ** 17, 10 ** 5, 2 ** 18, 2 ** 19, 10 ** 6 // 2)) + ctx.i(-1, 3)
    if b == "loop" or window:
        N = min(N, 70000)
    style = ctx.pick("points", "grid", "masked")
    kw = {"n_closest_points": ctx.i(2, n)} if window else {}
    lo, hi = s.X.min(0), s.X.max(0)
    if style == "points":
        P = ctx.rng.uniform(lo, hi, (N, d))
        at = ctx.rng.integers(N, size=200)
        at[:4] = 0, N - 1, N - 2, N // 2
        P[at] = s.X[ctx.rng.integers(n, size=200)]
        axes = [P[:, k] for k in range(d)]
        shape = (N,)
    else:
        m = int(round(N ** (1 / d)))
        sizes = [m + ctx.i(0, 2) for _ in range(d)]
        if ctx.chance(0.3):
            sizes = [N // 4 ** (d - 1)] + [4] * (d - 1)
        axes = [np.sort(ctx.rng.uniform(lo[k], hi[k], sizes[k])) for k in range(d)]
        for k in range(d):
            axes[k][ctx.i(0, sizes[k] - 1)] = s.X[0, k]
            axes[k][-1] = s.X[-1, k]
        P, shape = gen.grid_Q(axes)
        N = len(P)
        at = np.flatnonzero((P[:, None] == s.X[None]).all(-1).any(1))
    if style == "masked":
        kw["mask"] = ctx.rng.random(shape) < 0.3
    pick = np.unique(np.concatenate([at, [0, N - 1], [q + e for q in 2 ** np.arange(10, 20) for e in (-1, 0, 1)], ctx.rng.integers(N, size=300)]))
    pick = pick[(pick >= 0) & (pick < N)]
    if style == "masked":
        pick = pick[~kw["mask"].reshape(-1)[pick]]
    k1, k2 = dict(kw), {k: v for k, v in kw.items() if k != "mask"}
    if "specified" in s.terms:
        k1["specified_drift_arrays"], k2["specified_drift_arrays"] = [spec(P).reshape(shape)], [spec(P[pick])]
    r1 = ctx.call(f"execute of {N} points, {style}, {b}", o.execute, style, *axes, backend=b, **k1)
    r2 = ctx.call("execute of some", o.execute, "points", *[P[pick, k] for k in range(d)], backend=b, **k2)
    for name, u, v in zip(("estimate", "variance"), r1, r2):
        ctx.require(np.shape(u) == shape, f"{s.cls} {b} {style}: shape {np.shape(u)} instead of {shape}", key="mass-shape")
        ctx.close(f"{s.cls} {b} {N} points, {style} {kw.get('n_closest_points', '')}: {name}", np.asarray(u).reshape(-1)[pick], np.asarray(v),
                  1e-9 * float(np.abs(s.z).max() + 4), key="mass-" + name)
    ctx.events += N
    ctx.cover("mass:" + b, "mass:" + style)
