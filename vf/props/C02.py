from vf import gen

RULE = ("Random data sets and every combination of up to three drift kinds (regional linear, external grid in "
        "all orientations, point-log wells, one or two specified arrays, one or two functions), anisotropies, "
        "requests of every style on both backends; estimates and variances are compared with an "
        "extended-precision reference solution of the extended system within a forward error bound.")
CASES = {"quick": 4000, "thorough": 50000}
REQUIRED = ["cls:uk", "cls:uk3", "backend:loop", "backend:vectorized", "style:points", "style:grid",
            "style:masked", "aniso", "rotated", "points-compared", "drift:combined", "ext:transposed",
            "ext:desc-x", "query:at-well", "spec:transposed", "spec:fortran", "many-data", "repeated-locations", "wells:integers", "wells:near-datum", "wells:at-datum", "drift:integers", "unbias-off"] + \
           ["drift:" + d for d in ("regional_linear", "point_log", "external_Z", "specified", "functional")]


def case(ctx):
    big = ctx.chance(0.02)
    huge = ctx.chance(0.01)
    s = gen.scenario(ctx, cls=("uk", "uk3"), n=(200, 420) if huge else (80, 110) if big else (4, 50))
    gen.repeats(ctx, s)
    q = gen.request(ctx, s, **(dict(style="points", m=ctx.i(5, 40)) if huge else {}))
    gen.range_hit(ctx, s, q)
    inputs = [gen.as_input(ctx, a) for a in (*s.coords(), s.z)]
    obj = s.build(ctx, inputs=inputs)
    off = not big and not huge and ctx.chance(0.06)
    if off:             # the documented switch of the classes (here: of the object)
        obj.UNBIAS = False
        ctx.cover("unbias-off")
        ctx.note(UNBIAS=False)
    want = s.answer(q.Q, s.system(unbias=not off))
    for b in gen.backends(s):
        got = gen.execute(ctx, obj, q, b)
        n = gen.compare(ctx, f"{s.cls} {b} {q.style} drift {'+'.join(s.drift.terms)}", q, got, want)
        if huge and n:
            ctx.cover("many-data")
