import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Pairs of random problems of all classes with valid variogram models (no hole-effect): variances are "
        "checked to be non-negative, zero only at data locations, unchanged by other measured values, not larger "
        "with one or several more measurements or a larger moving window containing the smaller, not smaller with more drift "
        "terms, and multiplied by c with the variogram (estimates unchanged), within the error bounds of the "
        "reference systems of both problems.")
CASES = {"quick": 2500, "thorough": 30000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "backend:C", "backend:loop", "backend:vectorized",
            "non-negative", "positive", "values", "added", "window", "drift-added", "scaled", "nugget", "not-exact",
            "geographic", "aniso", "near"]
VALID = ("linear", "power", "gaussian", "spherical", "exponential")


def case(ctx):
    what = ctx.pick("values", "added", "added", "window", "drift", "drift", "scaled")
    cls = {"window": ("ok", "ok3"), "drift": ("uk", "uk3"), "added": ("ok", "ok3", "ok", "ok3", "uk", "uk3")}.get(
        what, ("ok", "uk", "ok3", "uk3"))
    s = gen.scenario(ctx, cls=cls, n=(3, 40), models=VALID, custom=0.1, pinv=0.05 if what != "window" else 0,
                     drift=True if what == "drift" else None)
    if s.geo and (s.vario.fn is not None or s.vario.name in ("gaussian", "spherical", "power")):
        # not every model is conditionally negative definite for great circle distances
        s.vario = gen.vario(ctx, s.ext, float(np.var(s.z)), models=("linear", "exponential"), custom=0)
        s.describe(ctx)
    if s.vario.fn is gen.cu_rational or s.vario.fn is gen.cu_log:
        pass        # both are conditionally negative definite in any dimension
    n = len(s.z)
    q = gen.request(ctx, s)
    obj = s.build(ctx)
    S = s.system()
    Z, V, tz, tv, ok = s.answer(q.Q, S)
    at = s.coincide(q.Q).any(1)
    vs = max(float(np.abs(S.A[:n, :n]).max()), 1e-300)
    w = ok & q.valid
    base = {}
    for b in gen.backends(s):
        got = base[b] = gen.execute(ctx, obj, q, b)
        nonneg(ctx, s, q, got[1], tv, w, b)
        # determined only at data (exact values, or no nugget)
        far = w & ~at & (V.astype(float) > 4 * tv)
        ctx.require((q.flat(got[1])[far] > 0).all(), f"{s.cls} {b}: zero variance away from the data", key="zero")
        if far.any():
            ctx.cover("positive")
        if at.any() and (not s.exact) and s.vario.nugget > 0:
            far = w & at & (V.astype(float) > 4 * tv)
            ctx.require((q.flat(got[1])[far] > 0).all(), f"{s.cls} {b}: zero variance though smoothed", key="zero")
    if not set(s.drift.terms) & {"specified", "external_Z"} and ctx.chance(0.5):
        near(ctx, s, S, obj, vs)
    {"values": values, "added": added, "window": window, "drift": drift, "scaled": scaled}[what](
        ctx, s, q, S, base, (Z, V, tz, tv, ok), w, vs)


def near(ctx, s, S, obj, vs):
    """points at all small distances of a measurement, asked for together with remote ones"""
    i = ctx.i(0, len(s.z) - 1)
    k = ctx.i(4, 8)
    r = s.ext * 10.0 ** -np.sort(ctx.rng.uniform(1, 7, size=k))
    u = ctx.rng.normal(size=(k, s.dim))
    u /= np.sqrt((u ** 2).sum(1, keepdims=True))
    P = s.X[i] + u * r[:, None]
    P = np.r_[P, gen.query_points(ctx, s, 3, data_frac=0)]
    Z, V, tz, tv, ok = s.answer(P, S)
    pos = ok & ~s.coincide(P).any(1) & (V.astype(float) > 4 * tv)
    b = ctx.pick(*gen.backends(s))
    v = np.asarray(ctx.call(f"{s.cls}.execute", obj.execute, "points", *P.T, backend=b)[1], float)
    ctx.require((v[pos] > 0).all(), f"{s.cls} {b}: zero variance near the data", key="zero", v=v, expected=V, tolerance=tv)
    ctx.close(f"{s.cls} {b}: variance near the data", v, V, tv, key="near", where=pos)
    ctx.cover("near", n=int(pos[:k].sum()))


def nonneg(ctx, s, q, v, tv, w, b):
    v = q.flat(v).astype(float)
    ctx.checks += 1
    bad = w & ~(v >= -tv)
    if bad.any():
        j = np.flatnonzero(bad)[0]
        ctx.fail(f"{s.cls} {b}: variance {v[j]!r} at point {j} (tolerance {tv[j]:.3g})", key="negative")
    ctx.cover("non-negative")


def below(ctx, what, small, large, tol, w, key):
    """small <= large"""
    ctx.checks += 1
    small, large = np.asarray(small, float), np.asarray(large, float)
    bad = w & ~(small <= large + tol)
    if bad.any():
        j = np.flatnonzero(bad)[0]
        ctx.fail(f"{what}: {small[j]!r} > {large[j]!r} at point {j} (tolerance {tol[j]:.3g})", key=key,
                 small=small, large=large)


def values(ctx, s, q, S, base, a, w, vs):
    z = ctx.rng.normal(size=len(s.z)) * ctx.pick(1.0, np.abs(s.z).max(), 1e3) + ctx.pick(0, 1e3, -5)
    if np.ptp(z) == 0:
        raise Skip("constant")
    obj = s.build(ctx, z=z)
    for b in gen.backends(s):
        got = gen.execute(ctx, obj, q, b)
        ctx.close(f"{s.cls} {b} variance with other values", q.flat(got[1]), q.flat(base[b][1]), 2 * a[3],
                  key="values", where=w)
    ctx.cover("values")


def more(ctx, s, k):
    """k more measurement locations, away from the others"""
    for _ in range(20):
        P = gen.query_points(ctx, s, k, data_frac=0)
        D = ref.edist(s.adj(np.r_[s.X, P]), s.adj(P)).astype(float)
        D[D == 0] = np.inf
        if D.min() > 1e-4 * s.ext:
            return P
    raise Skip("placement")


def added(ctx, s, q, S, base, a, w, vs):
    if "external_Z" in s.drift.terms:
        lo, hi = s.ext_box
    k = ctx.pick(1, 1, 2, 5)
    P = more(ctx, s, k)
    if ctx.chance(0.25) and (~s.coincide(q.Q).any(1)).any():
        # measure at one of the requested points
        j = ctx.rng.choice(np.flatnonzero(~s.coincide(q.Q).any(1)))
        P[0] = q.Q[j]
        D = ref.edist(s.adj(s.X), s.adj(P[:1])).astype(float)
        if D.min() < 1e-4 * s.ext or (k > 1 and ref.edist(s.adj(P[1:]), s.adj(P[:1])).min() < 1e-4 * s.ext):
            raise Skip("placement")
    X = np.r_[s.X, P]
    z = np.r_[s.z, ctx.rng.normal(size=k) * np.std(s.z) + s.z.mean()]
    if not s.geo and (s.scaling != [1.0] * (s.dim - 1) or any(s.angle)):
        # the anisotropy is applied about the centre of the data: distances do not depend on it, drifts do
        if s.drift.terms and set(s.drift.terms) - {"regional_linear", "external_Z", "specified"}:
            raise Skip("drift depends on the centre")
    s2 = gen.Scn()
    s2.__dict__.update(s.__dict__)
    s2.X, s2.z = X, z
    s2.centre = s.centre if s.geo else ref.centre(X)
    kw = {}
    if "specified" in s.drift.terms:
        kw["specified_drift"] = [f(X) for f in s.drift.spec_fun]
    obj = s2.build(ctx, **kw)
    S2 = s2.system()
    a2 = s2.answer(q.Q, S2)
    at = s2.coincide(q.Q).any(1)
    w = w & a2[4]
    for b in gen.backends(s):
        got = gen.execute(ctx, obj, q, b)
        nonneg(ctx, s, q, got[1], a2[3], w, b)
        below(ctx, f"{s.cls} {b} variance with {k} more measurements", q.flat(got[1]), q.flat(base[b][1]),
              a[3] + a2[3], w, "added")
    ctx.cover("added")


def window(ctx, s, q, S, base, a, w, vs):
    n = len(s.z)
    ks = sorted({ctx.i(2, n), ctx.i(2, n), n})
    D = (ref.gdist if s.geo else ref.edist)(s.adj(q.Q), s.adj(s.X)).astype(float)
    D.sort(axis=1)
    obj = s.build(ctx)
    for b in gen.backends(s, True):
        last = None
        for k in ks:
            if k < n:
                tie = D[:, k] - D[:, k - 1] < 1e-9 * D[:, -1] + 1e-12 * s.cmag()
            else:
                tie = np.zeros(len(q.Q), bool)
            if s.geo:
                tie |= D[:, k - 1] > 170
            got = gen.execute(ctx, obj, q, b, n_closest_points=k)
            # windows are sub-problems: at least as well conditioned up to a modest factor
            tol = 10 * a[3] + 1e-7 * vs
            nonneg(ctx, s, q, got[1], tol, w & ~tie, b)
            if last is not None:
                below(ctx, f"{s.cls} {b} variance k={k} vs smaller window", q.flat(got[1]), q.flat(last[0]), tol,
                      w & ~tie & ~last[1], "window")
            last = got[1], tie
        below(ctx, f"{s.cls} {b} variance no window vs window", q.flat(base[b][1]), q.flat(last[0]), tol,
              w & ~last[1], "window")
    ctx.cover("window")


def drift(ctx, s, q, S, base, a, w, vs):
    """fewer drift terms, down to ordinary kriging"""
    cls = gen.classes()
    full = list(s.drift.terms)
    drop = ctx.pick(*full)
    fewer = [t for t in full if t != drop]
    kw = s.kwargs()
    kw["drift_terms"] = fewer
    o1 = ctx.call("UK with fewer terms", cls[s.cls], *s.coords(), s.z, **kw)
    kw0 = s.kwargs()
    for k in ("drift_terms", "point_drift", "external_drift", "external_drift_x", "external_drift_y",
              "specified_drift", "functional_drift"):
        kw0.pop(k, None)
    o0 = ctx.call("OK", cls[s.cls.replace("uk", "ok")], *s.coords(), s.z, **kw0)
    # tolerance: the larger system's bound covers the smaller ones up to a factor
    tol = 3 * a[3] + 1e-7 * vs
    q2 = gen.Request()
    q2.__dict__.update(q.__dict__)
    for b in gen.backends(s):
        q2.kw = {k: v for k, v in q.kw.items() if k != "specified_drift_arrays" or "specified" in fewer}
        g1 = gen.execute(ctx, o1, q2, b)
        q2.kw = {k: v for k, v in q.kw.items() if k != "specified_drift_arrays"}
        g0 = gen.execute(ctx, o0, q2, b)
        nonneg(ctx, s, q, g1[1], tol, w, b)
        below(ctx, f"{s.cls} {b} variance without {drop} vs with", q.flat(g1[1]), q.flat(base[b][1]), tol, w, "drift")
        below(ctx, f"{s.cls} {b} ordinary kriging variance vs with drift {fewer}", q.flat(g0[1]), q.flat(g1[1]),
              tol, w, "drift")
    ctx.cover("drift-added")


def scaled(ctx, s, q, S, base, a, w, vs):
    c = ctx.pick(2.0, 0.5, 10.0, ctx.lu(1e-3, 1e3))
    v = s.vario
    s2 = gen.Scn()
    s2.__dict__.update(s.__dict__)
    s2.vario = v.scaled(c)
    upd = ctx.chance(0.5) and s.vario.fn is None
    if upd:
        obj = s.build(ctx)
        k = {} if s.geo else {x: y for x, y in s.kwargs(vario=False).items() if x.startswith("anisotropy")}
        ctx.call("update_variogram_model", obj.update_variogram_model, s2.vario.name,
                 variogram_parameters=s2.vario.user, **k)
    else:
        obj = s2.build(ctx)
    a2 = s2.answer(q.Q, s2.system())
    w = w & a2[4]
    for b in gen.backends(s):
        got = gen.execute(ctx, obj, q, b)
        ctx.close(f"{s.cls} {b} variance, variogram times {c}", q.flat(got[1]), q.flat(base[b][1]) * c,
                  a2[3] + c * a[3], key="scale-variance", where=w)
        ctx.close(f"{s.cls} {b} estimate, variogram times {c}", q.flat(got[0]), q.flat(base[b][0]),
                  a2[2] + a[2], key="scale-estimate", where=w)
    ctx.cover("scaled")
