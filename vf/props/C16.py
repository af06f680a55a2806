import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("Random data sets of all classes (anisotropic, geographic, with drifts - which statistics ignore -, "
        "repeated locations, explicit and automatic variograms, after construction and after updates); residuals, "
        "standard deviations and the three statistics are recomputed by sequential extended-precision kriging.")
CASES = {"quick": 900, "thorough": 12000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "aniso", "repeated", "pinv:pinv", "updated",
            "autofit", "compared", "nugget", "not-exact", "getters",
            "redundant:explicit", "redundant:updated", "many-residuals", "many-statistics"]


def case(ctx):
    cls = ctx.pick("ok", "uk", "ok3", "uk3")
    d = 3 if cls.endswith("3") else 2
    many = ctx.chance(0.1)
    rep = not many and ctx.chance(0.15)
    X = None
    redundant = rep and ctx.chance(0.6)
    more = {}
    if rep:
        X = gen.layout(ctx, ctx.i(4, 14), d, 10.0)
        X = np.concatenate([X, X[ctx.i(0, len(X) - 1)][None]])
        if redundant:       # repeats anywhere, without a nugget: what was measured at a location counts by its mean
            for _ in range(ctx.i(0, 3)):
                X = np.concatenate([X, X[ctx.i(0, len(X) - 1)][None]])
            X = ctx.rng.permutation(X)
            more = dict(nugget=0, custom=0, models=[m for m in gen.BUILTIN if m != "gaussian"])
    s = gen.scenario(ctx, cls=cls, n=(60, 260) if many else (3, 24), pinv=1.0 if redundant else 0.15, X=X, geo=False if rep else None,
                     drift=False if rep else None, **more)
    n = len(s.z)
    st = {"enable_statistics": True} if cls == "ok" else {}
    how = ctx.pick("explicit", "explicit", "updated", "auto") if not redundant else ctx.pick("explicit", "updated")
    try:
        ctx.events += 1
        if how == "auto" and s.vario.fn is None:
            obj = gen.classes()[cls](*s.coords(), s.z, **dict(s.kwargs(), variogram_parameters=None, **st))
            p = [float(v) for v in obj.variogram_model_parameters]
            v = gen.make_vario(s.vario.name, p, "psill")
            v.par = p
            s.vario = v
            ctx.cover("autofit")
        elif how == "updated":
            obj = s.build(ctx, **st)
            s.vario = v = gen.vario(ctx, s.ext, float(np.var(s.z)), nn=s.ext / n, **more)
            kw = v.kw()
            if not s.geo:
                from vf.props.C13 import aniso_kw
                s.scaling = [ctx.lu(0.2, 5) for _ in s.scaling]
                s.angle = [ctx.u(-180, 180) for _ in s.angle]
                kw.update(aniso_kw(s, s.scaling, s.angle))
            obj.update_variogram_model(**kw)
            ctx.cover("updated")
        else:
            obj = s.build(ctx, **st)
    except (ValueError, np.linalg.LinAlgError) as e:
        if redundant:
            ctx.fail(f"{cls} with repeated locations and the pseudo-inverse, {how}: raised {type(e).__name__}: {e}", key="redundant-raises")
        raise Skip("construction: " + type(e).__name__)
    ctx.note(how=how)
    if many:
        return sampled(ctx, s, obj)
    Xa = s.adj(s.X)
    L = np.longdouble
    delta, sigma, td, ts = [], [], [], []
    for i in range(1, n):
        if redundant:
            U, inv = np.unique(s.X[:i], axis=0, return_inverse=True)
            if (U == s.X[i]).all(1).any():
                continue
            inv = np.ravel(inv)
            zu = np.array([np.mean(s.z[:i][inv == t].astype(L)) for t in range(len(U))], L)
            try:
                S = ref.System(s.adj(U), zu, s.vario.gamma, s.vario.mag(), s.cmag(), geo=False)
                Z, V, tz, tv = S.solve(Xa[i:i + 1], np.zeros((1, len(U)), bool), exact=True, pinv=s.pinv)
            except ref.IllConditioned:
                raise Skip("illconditioned")
            if len(U) > 1 and S.sv[-1] < 1e-9 * S.sv[0]:
                raise Skip("illconditioned")
            e = 1e-14 * float(np.linalg.cond(np.asarray(S.A, float)))      # least squares of a singular system
            tz, tv = 10 * tz + e * float(np.abs(s.z).max()), 10 * tv + e * float(S.gb) + 1e-14
            if not tv[0] < 1e-4 * abs(float(V[0])):
                raise Skip("zero or not")
            delta.append(L(s.z[i]) - Z[0])
            sg = np.sqrt(V[0])
            sigma.append(sg)
            td.append(tz[0])
            ts.append(tv[0] / (2 * float(sg)) + 1e-12 * float(sg))
            continue
        if (s.X[:i] == s.X[i]).all(1).any():
            if (s.X[i:] == s.X[i]).all(1).sum() > 1:
                raise Skip("several repeats")
            continue
        if i > 1 and rep and len(np.unique(s.X[:i], axis=0)) < i:
            raise Skip("repeat in the conditioning data")
        try:
            S = ref.System(Xa[:i], s.z[:i], s.vario.gamma, s.vario.mag(), s.cmag(), geo=s.geo)
            Z, V, tz, tv = S.solve(Xa[i:i + 1], np.zeros((1, i), bool), exact=True, pinv=s.pinv)
        except ref.IllConditioned:
            raise Skip("illconditioned")
        if s.pinv and i > 1 and S.sv[-1] < 1e-9 * S.sv[0]:
            raise Skip("illconditioned")
        zero = 1e-10 * float(max(np.abs(S.A[:i, :i]).max(), S.gb))
        if abs(float(V[0]) - zero) < 100 * tv[0] + 1e-2 * zero or tv[0] > 1e-4 * abs(float(V[0])):
            raise Skip("zero or not")
        if V[0] < zero:
            continue
        delta.append(L(s.z[i]) - Z[0])
        sg = np.sqrt(V[0])
        sigma.append(sg)
        td.append(tz[0])
        ts.append(tv[0] / (2 * float(sg)) + 1e-12 * float(sg))
    delta, sigma = np.array(delta, L), np.array(sigma, L)
    td, ts = np.array(td), np.array(ts)
    if len(sigma) < 2:
        raise Skip("too few")
    eps = delta / sigma
    te = (td / sigma + np.abs(delta) * ts / sigma ** 2).astype(float) * 2 + 1e-12
    lab = f"{cls} n={n} "
    ctx.close(lab + "residuals delta", obj.delta, delta, td, key="delta")
    ctx.close(lab + "standard deviations", obj.sigma, sigma, ts, key="sigma")
    ctx.close(lab + "normalised residuals", obj.epsilon, eps, te, key="epsilon")
    m = len(eps)
    Q1, Q2, cR = summary(eps, sigma)
    t1 = te.sum() / (m - 1) + 1e-12
    t2 = float((2 * np.abs(eps) * te + te ** 2).sum()) / (m - 1) + 1e-12 * float(Q2)
    tr = (t2 / max(float(Q2), 1e-300) + 2 * float((ts / sigma).mean()) + 1e-11) * float(cR) * 2
    ctx.close(lab + "Q1", np.array(obj.Q1), Q1, t1, key="Q1")
    ctx.close(lab + "Q2", np.array(obj.Q2), Q2, t2, key="Q2")
    ctx.close(lab + "cR", np.array(obj.cR), cR, tr, key="cR")
    g = ctx.call("get_statistics", obj.get_statistics)
    ctx.close(lab + "get_statistics", np.array(g, float), np.array([Q1, Q2, cR]), np.array([t1, t2, tr]), key="getter")
    e = ctx.call("get_epsilon_residuals", obj.get_epsilon_residuals)
    ctx.close(lab + "get_epsilon_residuals", e, eps, te, key="getter")
    ctx.cover("compared", "getters")
    if rep:
        ctx.cover("repeated")
    if redundant:
        ctx.cover("redundant", "redundant:" + how)


def summary(eps, sigma):
    m = len(eps)
    Q2 = (eps ** 2).sum() / (m - 1)
    return abs(eps.sum()) / (m - 1), Q2, Q2 * np.exp(np.log(sigma ** 2).sum() / m)


def sampled(ctx, s, obj):
    """many data: the residuals of some data by the reference, the statistics from all the residuals"""
    L = np.longdouble
    n = len(s.z)
    delta, sigma = np.asarray(obj.delta, L), np.asarray(obj.sigma, L)
    ctx.require(delta.shape == sigma.shape == np.shape(obj.epsilon) and delta.ndim == 1, "residual arrays of other shapes",
                key="shape")
    if len(delta) == n - 1:
        Xa = s.adj(s.X)
        for i in sorted({1, n - 1, *(ctx.i(1, n - 1) for _ in range(6))}):
            try:
                S = ref.System(Xa[:i], s.z[:i], s.vario.gamma, s.vario.mag(), s.cmag(), geo=s.geo)
                Z, V, tz, tv = S.solve(Xa[i:i + 1], np.zeros((1, i), bool), exact=True, pinv=s.pinv)
            except ref.IllConditioned:
                continue
            if (s.pinv and i > 1 and S.sv[-1] < 1e-9 * S.sv[0]) or tv[0] > 1e-4 * abs(float(V[0])):
                continue
            if V[0] < 1e-9 * float(max(np.abs(S.A[:i, :i]).max(), S.gb)):
                continue
            sg = np.sqrt(V[0])
            ctx.close(f"{s.cls} n={n} residual {i}", delta[i - 1], L(s.z[i]) - Z[0], tz[0], key="delta")
            ctx.close(f"{s.cls} n={n} standard deviation {i}", sigma[i - 1], sg, tv[0] / (2 * float(sg)) + 1e-12 * float(sg),
                      key="sigma")
            ctx.cover("redundant:explicit", "redundant:updated", "many-residuals")
    fin = np.isfinite(delta) & np.isfinite(sigma) & (sigma > 0)
    if len(delta) < 2 or not fin.all():
        raise Skip("not finite")
    eps = delta / sigma
    ctx.close("normalised residuals", obj.epsilon, eps, 1e-12 * np.abs(eps).astype(float) + 1e-300, key="epsilon")
    Q1, Q2, cR = summary(eps, sigma)
    m = len(eps)
    ctx.close(f"{s.cls} n={n} Q1", np.array(obj.Q1), Q1, 1e-11 * float(np.abs(eps).sum()) / (m - 1), key="Q1")
    ctx.close(f"{s.cls} n={n} Q2", np.array(obj.Q2), Q2, 1e-11 * float(Q2), key="Q2")
    lg = float(np.abs(np.log(sigma ** 2)).max())
    ctx.close(f"{s.cls} n={n} cR", np.array(obj.cR), cR, (1e-10 + 1e-13 * lg) * float(cR), key="cR")
    ctx.close("get_statistics", np.array(obj.get_statistics(), float), np.array([obj.Q1, obj.Q2, obj.cR], float), 0,
              key="getter")
    ctx.cover("many-statistics", "compared")
