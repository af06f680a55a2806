import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Batches of 24 automatic fits over random data sets, models, dimensions, class counts and both weightings; "
        "each fit's parameters are checked against the bounds, its soft-L1 misfit (recomputed here) against the "
        "starting guess and against 100 small feasible changes of the parameters, and results of the fitted object "
        "against an object given the reported parameters explicitly.")
CASES = {"quick": 250, "thorough": 4000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "weighted", "unweighted", "small-values",
            "reported-are-used", "from-update", "few-lags", "outlier", "trend", "one-model-batch", "mixed-batch", "tame", "many-lags"] + ["model:" + m for m in gen.BUILTIN]
NFIT = 24


def misfit(model, p, lags, sv, w):
    r = (ref.model(model, p, lags) - sv) * w
    r = np.asarray(r, float)
    return float((r * r / (np.sqrt(1 + r * r) + 1)).sum())     # sum sqrt(1+r^2)-1 without cancellation


def weights(x):
    """logistic, about 1 at small and 0 at large lags, centred at 70 % of the span"""
    span = x.max() - x.min()
    k = 2.1972 / (0.1 * span)
    w = 1 / (1 + np.exp(-k * (0.7 * span + x.min() - x)))
    return w / w.sum()


def one(ctx, only=None):
    cls = ctx.pick("ok", "uk", "ok3", "uk3")
    geo = cls == "ok" and ctx.chance(0.15)
    s = gen.scenario(ctx, cls=cls, geo=geo, drift=False, n=(4, 50), pinv=0, custom=0)
    model = only or s.vario.name
    weight = ctx.chance(0.45)
    nlags = ctx.pick(6, 6, ctx.i(2, 15), ctx.pick(ctx.i(2, 15), ctx.i(16, 90)))
    z = s.z.copy()
    if ctx.chance(0.2):
        z[ctx.i(0, len(z) - 1)] += 20 * np.std(z)
        ctx.cover("outlier")
    elif ctx.chance(0.25):      # dominated by a trend: unbounded growth, exponents up to 2
        t = s.X @ ctx.rng.normal(size=s.X.shape[1])
        t = (t - t.min()) / np.ptp(t)
        z = (t ** ctx.pick(1.0, 1.0, 2.0, 0.5) + ctx.pick(0.0, 0.01, 0.1) * ctx.rng.normal(size=len(t))) * ctx.pick(1.0, ctx.lu(1e-2, 1e2))
        ctx.cover("trend")
    kw = {k: v for k, v in s.kwargs(vario=False).items()}
    kw.update(variogram_model=model, nlags=nlags, weight=weight)
    K = gen.classes()[cls]
    upd = ctx.chance(0.3)
    ctx.events += 1
    try:
        if upd:
            obj = s.build(ctx, z=z)
            u = dict(variogram_model=model, nlags=nlags, weight=weight)
            u.update({k: v for k, v in kw.items() if k.startswith("anisotropy")})
            obj.update_variogram_model(**u)
            ctx.cover("from-update")
        else:
            obj = K(*s.coords(), z, **kw)
    except (ValueError, np.linalg.LinAlgError):
        return None         # too little structure to fit (one class, equal semivariances)
    lags, sv = np.asarray(obj.lags), np.asarray(obj.semivariance)
    p = np.asarray(obj.variogram_model_parameters, float)
    lab = f"{cls} {model} (weight={weight}, {len(lags)} lags): "
    gm, lm = sv.max(), lags.max()
    t = 1e-9
    ctx.require(np.all(np.isfinite(p)), lab + f"parameters {p}", key="finite", lags=lags, sv=sv)
    ctx.require(-t * gm <= p[-1] <= gm * (1 + t), lab + f"nugget {p[-1]} outside [0, {gm}]", key="bounds", lags=lags, sv=sv)
    ctx.require(p[0] >= -t * gm, lab + f"negative sill, slope or scale {p[0]}", key="bounds", lags=lags, sv=sv)
    if model == "power":
        ctx.require(0 < p[1] < 2, lab + f"exponent {p[1]}", key="bounds", lags=lags, sv=sv)
    elif model != "linear":
        ctx.require(0 <= p[1] <= lm * (1 + t), lab + f"range {p[1]}, largest lag {lm}", key="bounds", lags=lags, sv=sv)
    w = weights(lags) if weight else np.ones(len(lags))
    if not np.all(np.isfinite(w)):
        return None
    c = misfit(model, p, lags, sv, w)
    # natural scales of the parameters, starting guess as documented in the code
    slope = (gm - sv.min()) / (lm - lags.min()) if len(lags) > 1 else 0.0
    if model == "linear":
        x0, lo, hi, sc = [slope, sv.min()], [0, 0], [np.inf, gm], [gm / lm, gm]
    elif model == "power":
        x0, lo, hi = [slope, 1.1, sv.min()], [0, 0.001, 0], [np.inf, 1.999, gm]
        sc = [max(p[0], gm / lm ** p[1]), 1.0, gm]
    else:
        x0, lo, hi, sc = [gm - sv.min(), 0.25 * lm, sv.min()], [0, 1e-12 * lm, 0], [10 * gm, lm, gm], [gm, lm, gm]
    lo, hi, sc = (np.array(v, float) for v in (lo, hi, sc))
    tot = misfit(model, np.r_[0.0, [1.0] * (len(p) - 2), 0.0] if model != "linear" else [0.0, 0.0], lags, sv, w)
    if tot <= 0:
        return None
    c0 = misfit(model, x0, lags, sv, w)
    ctx.require(c <= c0 * (1 + 1e-6) + 1e-9 * tot, lab + f"misfit {c} worse than at the starting guess {c0}",
                key="worse-than-start", p=p, x0=x0, lags=lags, sv=sv)
    best, at = c, None
    # a range far below the first lag leaves a constant: the misfit is flat in it
    flat = model not in ("linear", "power") and p[1] < 0.2 * lags.min()
    for size in (1e-3, 1e-2, 3e-2):
        for k in range(50):
            d = ctx.rng.normal(size=len(p)) if k >= 2 * len(p) else np.eye(len(p))[k // 2] * (1 - 2 * (k % 2))
            if flat:
                d[1] = 0
            q = np.clip(p + size * sc * d / max(np.abs(d).max(), 1e-300), lo, hi)
            v = misfit(model, q, lags, sv, w)
            if v < best:
                best, at = v, q
        if size == 1e-2:
            small = (c - best) / tot
    gain = (c - best) / tot
    # (semivariances far above 1 make the loss an L1 norm, on whose kinks the solver can stall)
    ctx.require(small <= (0.1 if gm < 1e6 else 0.5), lab + f"a small change of the parameters reduces the misfit from {c} to {best}",
                key="improvable", p=p, better=at, lags=lags, sv=sv)
    ctx.cover("weighted" if weight else "unweighted")
    if gm < 1e-4:
        ctx.cover("small-values")
    if len(lags) < 4:
        ctx.cover("few-lags")
    # the parameters reported are the ones in use
    if ctx.chance(0.3):
        nm = ("slope", "nugget") if model == "linear" else ("scale", "exponent", "nugget") if model == "power" \
            else ("psill", "range", "nugget")
        kw2 = dict(kw, variogram_parameters={a: float(v) for a, v in zip(nm, p)})
        if cls == "ok" and ctx.chance(0.5):
            kw2["enable_statistics"] = True
        o2 = ctx.call("explicit parameters", K, *s.coords(), z, **kw2)
        if p[0] > 0 and len(lags) > 1:
            q = gen.request(ctx, s, style="points", m=6)
            v = gen.make_vario(model, [float(a) for a in p], "psill")
            if model not in ("linear", "power"):
                v.par = [float(a) for a in p]
            try:
                S = s.system(z=z, vario=v)
                A = s.answer(q.Q, S, z=z)
            except Skip:
                return gain
            got = gen.execute(ctx, obj, q, "vectorized")
            gen.compare(ctx, lab + "automatic fit, reported parameters:", q, got, A)
            g2 = gen.execute(ctx, o2, q, "vectorized")
            ctx.close(lab + "explicit vs automatic", q.flat(got[0]), q.flat(g2[0]), 2 * A[2], where=A[4], key="explicit")
            ctx.cover("reported-are-used")
    return gain


def tame(ctx):
    """fits to ordinary data (at least 8 points, unit scales, several classes) end in a minimum"""
    model = ctx.pick(*gen.BUILTIN)
    gains, rng = [], ctx.rng
    many = ctx.chance(0.35)      # classes
    for _ in range(NFIT):
        cls = ctx.pick("ok", "uk", "ok3", "uk3")
        d = 3 if cls.endswith("3") else 2
        n = ctx.i(20, 50) if many else ctx.i(8, 50)
        X = rng.uniform(0, 10, (n, d))
        kind = ctx.i(0, 3)
        if kind >= 2:       # a trend
            t = X @ rng.normal(size=d)
            t = (t - t.min()) / np.ptp(t)
            z = t ** ctx.pick(1.0, 2.0, 0.5) + ctx.pick(0.0, 0.01, 0.1) * rng.normal(size=n)
        else:
            z = rng.normal(size=n) * (1.0 if kind else 0.3)
            if not kind:
                h = np.sqrt(((X[:, None] - X[None]) ** 2).sum(2))
                z = z + np.linalg.cholesky(np.exp(-h / ctx.u(0.5, 5)) + 1e-9 * np.eye(n)) @ rng.normal(size=n)
        z = z * ctx.pick(1.0, ctx.lu(1e-2, 1e2))
        weight, nlags = ctx.chance(0.5), ctx.pick(6, 10, ctx.i(5, 15))
        if many:
            nlags = ctx.pick(ctx.i(20, 60), ctx.i(50, 120))
        kw = dict(variogram_model=model, nlags=nlags, weight=weight)
        if ctx.chance(0.3):
            obj = gen.classes()[cls](*X.T, z, variogram_model="linear", variogram_parameters=[1.0, 0.1])
            ctx.call("update", obj.update_variogram_model, **kw)
        else:
            obj = ctx.call("fit", gen.classes()[cls], *X.T, z, **kw)
        l, sv = np.asarray(obj.lags), np.asarray(obj.semivariance)
        if len(l) < 4:
            continue
        p = np.asarray(obj.variogram_model_parameters, float)
        w = weights(l) if weight else np.ones(len(l))
        gm, lm = sv.max(), l.max()
        if model == "linear":
            lo, hi, sc = [0, 0], [np.inf, gm], [gm / lm, gm]
        elif model == "power":
            lo, hi, sc = [0, 0.001, 0], [np.inf, 1.999, gm], [max(p[0], gm / lm ** p[1]), 1.0, gm]
        else:
            lo, hi, sc = [0, 1e-3 * lm, 0], [10 * gm, lm, gm], [gm, lm, gm]
        lo, hi, sc = (np.array(v, float) for v in (lo, hi, sc))
        tot = misfit(model, np.r_[0.0, [1.0] * (len(p) - 2), 0.0], l, sv, w)
        a, b = np.maximum(lo, p - 0.03 * sc), np.maximum(np.minimum(hi, p + 0.03 * sc), np.maximum(lo, p - 0.03 * sc))
        from scipy.optimize import minimize
        r = minimize(lambda u: misfit(model, u * sc, l, sv, w) / tot, np.clip(p, a, b) / sc, bounds=list(zip(a / sc, b / sc)),
                     method="L-BFGS-B", options=dict(maxiter=40))
        gains.append(misfit(model, p, l, sv, w) / tot - float(r.fun))
        ctx.checks += 1
    if len(gains) < 12:
        raise Skip("few fits")
    ctx.mark(gains, z)
    ctx.note(model=model)
    n = int((np.array(gains) > 1e-3).sum())
    ctx.require(n <= 2, f"{n} of {len(gains)} fits of {model} models to ordinary data are not at a minimum", key="improvable-tame", gains=gains)
    ctx.cover("tame", "tame:" + model, *(["many-lags"] if many else []))
    ctx.cover("tame-fits", n=len(gains))
    ctx.cover("tame-fits>1e-4", n=int((np.array(gains) > 1e-4).sum()))
    ctx.cover("tame-fits>1e-3", n=n)


def case(ctx):
    if ctx.chance(0.5):
        return tame(ctx)
    gains = []
    only = ctx.pick(*gen.BUILTIN) if ctx.chance(0.5) else None
    for _ in range(2 * NFIT if only else NFIT):
        g = one(ctx, only)
        if g is not None:
            gains.append(g)
    if len(gains) < 12:
        raise Skip("few fits")
    # the solver's stopping rule leaves 1 to 4 % of the fits short of a minimum (linear: below 1 %)
    lim = (0.15 if only == "linear" else 0.25) + 3.0 / len(gains)
    bad = float(np.mean(np.array(gains) > 5e-3))
    ctx.require(bad <= lim, f"{bad:.0%} of {len(gains)} {only or 'mixed'} fits can be improved noticeably by small "
                            "feasible changes", key="improvable-often", gains=gains)
    ctx.cover("one-model-batch" if only else "mixed-batch")
    ctx.cover("fits", n=len(gains))
    ctx.cover("fits-improvable>0.2%", n=int((np.array(gains) > 2e-3).sum()))
    ctx.cover("fits-improvable>2%", n=int((np.array(gains) > 2e-2).sum()))
