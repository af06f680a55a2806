import numpy as np
from vf import gen
from vf.main import Skip

RULE = ("Random problems of all classes with fixed variograms; results for the value sets v1, v2, a*v1+b and "
        "v1+v2 on the same locations are compared with each other (every backend, style, window, pseudo-inverse, "
        "geographic); constants and random combinations of the drift terms are kriged and have to come back at "
        "every evaluation point.")
CASES = {"quick": 2500, "thorough": 30000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "affine", "additive", "variance-free", "constant",
            "drift-reproduced", "window", "drift:combined", "backend:C", "backend:loop", "backend:vectorized",
            "geographic", "not-exact", "many-data"] + \
           ["drift:" + d for d in ("regional_linear", "point_log", "external_Z", "specified", "functional")]


def case(ctx):
    big = ctx.chance(0.05)
    if big:
        ctx.cover("many-data")
    s = gen.scenario(ctx, n=(80, 200) if big else (3, 45), pinv=0.5 if big else 0.08, drift=None if ctx.chance(0.3) else True)
    S = s.system()
    n = len(s.z)
    q = gen.request(ctx, s)
    z1 = s.z
    sc = float(np.abs(z1).max())
    z2 = ctx.rng.normal(size=n) * sc
    a, c = ctx.pick(-1.0, 2.0, ctx.u(-5, 5), ctx.lu(1e-3, 1e3)), ctx.pick(0.0, ctx.u(-3, 3), 100.0, 1e4) * sc
    window = s.cls in ("ok", "ok3") and not s.pinv and n > 2 and ctx.chance(0.3)
    kw = {}
    if window:
        kw["n_closest_points"] = ctx.i(2, n + 1)
        ctx.cover("window")
    b = ctx.pick(*gen.backends(s, window))
    ctx.note(a=a, c=c, window=kw, backend=b, z2=z2)
    vs = float(np.abs(S.A[:n, :n]).max())

    def run(z):
        obj = s.build(ctx, z=z)
        r = gen.execute(ctx, obj, q, b, **kw)
        Z, V, tz, tv, ok = s.answer(q.Q, S, z=z)
        if window:
            tz, tv = tz + 1e-7 * np.abs(z).max(), tv + 1e-7 * vs
        # rounding of the values themselves
        return q.flat(r[0]), q.flat(r[1]), tz + 1e-13 * np.abs(z).max(), tv, ok & q.valid

    L = np.longdouble
    r1, r2, ra, rs = run(z1), run(z2), run(a * z1 + c), run(z1 + z2)
    ok = r1[4] & r2[4] & ra[4] & rs[4]
    if not ok.any():
        raise Skip("undecidable")
    lab = f"{s.cls} {b} {q.style} "
    ctx.close(lab + "estimate of a*v+b", ra[0], a * r1[0].astype(L) + c, ra[2] + abs(a) * r1[2] + 1e-12 * abs(c),
              key="affine", where=ok)
    ctx.cover("affine")
    ctx.close(lab + "estimate of v1+v2", rs[0], r1[0].astype(L) + r2[0], rs[2] + r1[2] + r2[2], key="additive", where=ok)
    ctx.cover("additive")
    for r in (r2, ra, rs):
        ctx.close(lab + "variance with other values", r[1], r1[1], 2 * r1[3], key="variance", where=ok)
    ctx.cover("variance-free")
    # reproduction
    if ctx.chance(0.4):
        zc = np.full(n, c if c else sc)
        rc = run(zc)
        ctx.close(lab + "constant values", rc[0], np.full(len(rc[0]), zc[0]), rc[2], key="constant", where=rc[4])
        ctx.cover("constant")
    if s.drift.terms:
        FQ, dFQ = s.drift_at(q.Q)
        p = S.p
        beta = ctx.rng.normal(size=p) * (ctx.rng.random(p) < 0.8) * sc
        mag = np.maximum(np.abs(S.F).max(0), 1e-300)
        beta = beta / mag.astype(float)
        b0 = ctx.u(-2, 2) * sc
        F = S.F
        zt = (F @ beta + b0).astype(float)
        if np.ptp(zt) > 0:
            rt = run(zt)
            want = FQ @ beta + b0
            # the data's drift values were rounded (zt) and the functions are evaluated in double
            slack = 1e-12 * np.abs(zt).max() + np.abs(dFQ) @ np.abs(beta) \
                + 1e-13 * (np.abs(FQ) @ np.abs(beta)).astype(float)
            # error of the drift values at the data, seen through the weights
            w = np.abs(rt[2])
            big = (np.abs(S.dA[:n, n:n + p]) @ np.abs(beta)).max()
            lev = 1.0 + np.abs(rt[0]) / max(np.abs(zt).max(), 1e-300)
            ctx.close(lab + "combination of drift terms " + "+".join(s.drift.terms), rt[0], want,
                      w + slack + 100 * lev * big, key="reproduce", where=rt[4])
            ctx.cover("drift-reproduced")
