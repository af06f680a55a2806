import numpy as np
from vf import gen, large

RULE = ("Random 2-D, 3-D and geographic ordinary kriging problems; for every evaluation point the k nearest "
        "data points are found by brute force in extended precision (points where the choice is a tie within "
        "rounding are left out) and the reference kriging system of just those points is solved; windows with k "
        "at least the data size are also compared with the unwindowed result.")
CASES = {"quick": 2500, "thorough": 30000}
REQUIRED = ["cls:ok", "cls:ok3", "backend:C", "backend:loop", "geographic", "aniso", "rotated", "k<n", "k>=n",
            "style:masked", "style:grid", "style:points", "points-compared", "nugget", "not-exact", "many-data", "many-queries", "large-window"]


def case(ctx):
    if large.due(ctx, 97):
        large.case(ctx, ("ok",), window=True)
        return
    big = ctx.chance(0.05)
    s = gen.scenario(ctx, cls=("ok", "ok", "ok3"), n=(150, 600) if big else (2, 4) if ctx.chance(0.06) else (2, 90), pinv=0.1, custom=0.08,
                     models=gen.C_MODELS if ctx.chance(0.8) else gen.BUILTIN)
    many = big and ctx.chance(0.5)
    q = gen.request(ctx, s, **(dict(style="points", m=ctx.i(150, 300)) if many else {}))
    n = len(s.z)
    k = ctx.pick(2, 3, ctx.i(2, min(n, 14)), ctx.i(2, min(n, 14)), max(2, n - 1), n, n + ctx.i(1, 9))
    if big:
        ctx.cover("many-data", *(["many-queries", "large-window"] if many else []))
        k = ctx.i(2, 14) if many or ctx.chance(0.4) else ctx.i(30, 140)
        if k > 14:
            ctx.cover("large-window")
    elif n > 24 and 24 < k < n:
        k = 16
    ctx.note(k=k)
    obj = s.build(ctx)
    Z, V, tz, tv, ok = gen.window_answer(ctx, s, q, k, limit=300 if many else 40)
    if k >= n:
        ctx.cover("k>=n")
    elif ok.any():
        ctx.cover("k<n")
    for b in gen.backends(s, True):
        kk = np.int64(k) if ctx.chance(0.1) else k
        got = gen.execute(ctx, obj, q, b, n_closest_points=kk)
        gen.compare(ctx, f"{s.cls} {b} {q.style} k={k}", q, got, (Z, V, tz, tv, ok))
        if k >= n:
            g2 = gen.execute(ctx, obj, q, b)
            for what, i, t in (("estimate", 0, tz), ("variance", 1, tv)):
                ctx.close(f"{s.cls} {b} k={k}>=n={n} {what} vs no window", q.flat(got[i]), q.flat(g2[i]), 2 * t,
                          key="window-all", where=ok & q.valid)
