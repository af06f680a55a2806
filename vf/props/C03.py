import numpy as np
from vf import gen
from vf.main import Skip

RULE = ("Random problems of all classes; requests contain data locations (one, several, all, repeated) mixed "
        "with other points, as points, grids through data, masked grids and moving windows. With exact values "
        "the measured value and zero variance are required at data locations; with exact_values=False the "
        "reference system with the nugget as semivariance to the coincident datum; with zero nugget both "
        "settings must agree everywhere; points merely close to a datum must not be treated as coincident.")
CASES = {"quick": 3000, "thorough": 40000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "backend:C", "backend:loop", "backend:vectorized",
            "at-data", "window", "smoothed", "smoothed-window", "flag-irrelevant", "near-miss", "nugget", "geographic"]


def case(ctx):
    mode = ctx.pick("exact", "exact", "exact", "smooth", "zero-nugget", "near")
    s = gen.scenario(ctx, n=(3, 45), pinv=0.08, nugget=0 if mode == "zero-nugget" else
                     (1 if mode in ("smooth", "near") else None),
                     exact=True if mode in ("exact", "near") else (False if mode == "smooth" else None),
                     geo=None if mode != "near" else False,
                     L=None if mode != "near" else 1.0, offset=mode != "near")
    S = s.system()
    if not s.geo and any(s.angle) and S.cmag > 1e5:
        raise Skip("rotation of large coordinates")
    q = gen.request(ctx, s)
    n = len(s.z)
    if q.style == "points":
        m = ctx.pick(1, 2, n, n + 3, 2 * n)
        Q = gen.query_points(ctx, s, m, data_frac=ctx.pick(0.3, 0.7, 1.0))
        if ctx.chance(0.2):
            Q = s.X[ctx.rng.permutation(n)].copy()
        if mode == "near":
            for j in range(m if len(Q) == m else len(Q)):
                if ctx.chance(0.5):
                    v = ctx.rng.normal(size=s.dim)
                    # the adjusted distance stays above 1e-9 (scalings are at least 0.1)
                    Q[j] = s.X[ctx.i(0, n - 1)] + v / np.linalg.norm(v) * ctx.lu(3e-8, 1e-5)
                    ctx.cover("near-miss")
        q.Q, q.shape = Q, (len(Q),)
        q.args = ["points", *[gen.as_input(ctx, Q[:, k], *([("f32", "int", "array")] if s.geo else [])) for k in range(s.dim)]]
        q.valid = np.ones(len(Q), bool)
        if "specified" in s.drift.terms:
            q.kw["specified_drift_arrays"] = gen.spec_arrays(ctx, s, q)
    obj = s.build(ctx)
    co = s.coincide(q.Q)
    at = co.any(1)
    window = s.cls in ("ok", "ok3") and n > 3 and ctx.chance(0.35)
    kw = {}
    if window:
        kw["n_closest_points"] = k = ctx.pick(2, ctx.i(2, n), n, n + 4)
        ctx.cover("window")
    for b in gen.backends(s, window):
        got = gen.execute(ctx, obj, q, b, **kw)
        lab = f"{s.cls} {b} {q.style} {'window ' if window else ''}"
        if s.exact and at.any():
            i = co.argmax(1)
            z = s.z[i]
            v = np.zeros(len(z))
            # rounding of the solve at a data point: use the reference bound of the full system
            Z, V, tz, tv, ok = s.answer(q.Q, S)
            if window:
                zs, vs = np.abs(s.z).max(), float(np.abs(S.A[:n, :n]).max())
                # a window is a subset of the data, at least as well conditioned in practice; allow for it
                tz, tv = tz + 1e-7 * zs, tv + 1e-7 * vs
            w = at & q.valid & ok
            ctx.close(lab + "value at data", q.flat(got[0]), z, tz, key="exact-value", where=w)
            ctx.close(lab + "variance at data", q.flat(got[1]), v, tv, key="exact-variance", where=w)
            ctx.cover("at-data", n=int(w.sum()))
        if window and not s.exact:
            A = gen.window_answer(ctx, s, q, k, limit=12)
            gen.compare(ctx, lab, q, got, A)
            if s.vario.nugget > 0 and (at & A[4]).any():
                ctx.cover("smoothed-window")
        if not window:
            gen.compare(ctx, lab, q, got, s.answer(q.Q, S))
            if not s.exact and s.vario.nugget > 0 and at.any():
                ctx.cover("smoothed")
        if mode == "zero-nugget":
            o2 = s.build(ctx, exact_values=not s.exact)
            g2 = gen.execute(ctx, o2, q, b, **kw)
            # (without exact values the distance of a coinciding point is computed, not set to zero)
            Z, V, tz, tv, ok = s.answer(q.Q, S)
            _, _, t2, _, ok2 = s.answer(q.Q, S, exact=False)
            tz, ok = tz + t2, ok & ok2
            w = ok & q.valid
            ctx.close(lab + "exact_values on/off without nugget", q.flat(g2[0]), q.flat(got[0]),
                      2 * tz if not window else 2 * tz + 1e-7 * np.abs(s.z).max(), key="flag", where=w)
            ctx.cover("flag-irrelevant")
