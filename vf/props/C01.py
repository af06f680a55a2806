from vf import gen, large

RULE = ("Random data sets (2-D/3-D, 3-60 points, 7 layouts, scales 1e-2..1e5, offsets, integer and "
        "container variants), variogram models and parameter formats, anisotropies, and requests of every "
        "style on every backend; each estimate and variance is compared with an extended-precision "
        "reference solution of the ordinary kriging system within a forward error bound.")
CASES = {"quick": 3000, "thorough": 40000}
REQUIRED = ["cls:ok", "cls:ok3", "backend:C", "backend:loop", "backend:vectorized", "style:points",
            "style:grid", "style:masked", "aniso", "rotated", "points-compared", "input:odd", "many-data", "repeated-locations", "large:ok"] + \
           ["model:" + m for m in gen.BUILTIN]


def case(ctx):
    if large.due(ctx, 397):
        large.case(ctx, ("ok",))
        return
    big = ctx.chance(0.04)
    huge = ctx.chance(0.01)
    s = gen.scenario(ctx, cls=("ok", "ok3"), geo=False,
                     n=(260, 700) if huge else (80, 130) if big else (2, 60))
    gen.repeats(ctx, s)
    q = gen.request(ctx, s, **(dict(style="points", m=ctx.i(5, 40)) if huge else {}))
    gen.range_hit(ctx, s, q)
    inputs = [gen.as_input(ctx, a) for a in (*s.coords(), s.z)]
    obj = s.build(ctx, inputs=inputs)
    want = s.answer(q.Q)
    for b in gen.backends(s):
        got = gen.execute(ctx, obj, q, b)
        n = gen.compare(ctx, f"{s.cls} {b} {q.style}", q, got, want)
        if huge and n:
            ctx.cover("many-data")
