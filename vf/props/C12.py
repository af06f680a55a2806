import numpy as np
from vf import gen, ref
from vf.main import Skip

RULE = ("The six model functions are evaluated on random distances (0, tiny, at and around the range, far beyond, "
        "float, single precision and integer arrays of 0 to 3 dimensions) with random integer and float parameters "
        "and compared with extended-precision formulas; kriging objects of every class given the same model as "
        "list, dictionary with sill and dictionary with partial sill (any key order, ints and floats) are compared "
        "with each other and, on every backend, with the reference built from the formula.")
CASES = {"quick": 4000, "thorough": 50000}
REQUIRED = ["function", "function:int-distance", "function:2d", "function:scalar", "formats", "backend:C",
            "backend:loop", "backend:vectorized", "cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "at-range",
            "beyond-range", "near-range", "special-exponent", "params:int"] + ["model:" + m for m in gen.BUILTIN] + ["fn:" + m for m in gen.BUILTIN]


def functions():
    from pykrige import variogram_models as vm
    return {m: getattr(vm, m.replace("-", "_") + "_variogram_model") for m in gen.BUILTIN}


def params(ctx, name, L):
    c = ctx.lu(1e-4, 1e5)
    nug = 0.0 if ctx.chance(0.3) else c * ctx.lu(1e-3, 2)
    if name == "linear":
        p = [c / L, nug]
    elif name == "power":
        e = ctx.u(0.01, 1.99)
        if ctx.chance(0.35):        # special exponents and their surroundings
            e = ctx.pick(0.5, 1.0, 1.5, 2.0, 1 / 3, 0.25) + ctx.pick(0, -1, -1, 1) * ctx.lu(1e-9, 1e-2)
            e = min(e, 1.9999999)
            ctx.cover("special-exponent")
        p = [c / L ** e, e, nug]
    else:
        p = [c, L * ctx.lu(0.05, 3), nug]
    if ctx.chance(0.3):
        p = [int(max(1, round(v))) for v in p]
        if name == "power":
            p[1] = 1
        ctx.cover("params:int")
    return p


def case(ctx):
    if ctx.chance(0.4):
        name = ctx.pick(*gen.BUILTIN)
        fn = functions()[name]
        L = ctx.lu(1e-4, 1e6)
        p = params(ctx, name, L)
        k = ctx.pick("1d", "1d", "2d", "scalar", "3d", "int", "f32", "empty")
        m = ctx.i(1, 40)
        h = np.concatenate([[0.0], ctx.rng.uniform(0, 3, m) * L, L * 10.0 ** ctx.rng.uniform(-12, 4, 10)])
        if name not in ("linear", "power"):
            r = float(p[1])
            h = np.concatenate([h, [r, np.nextafter(r, 0), np.nextafter(r, np.inf), 2 * r]])
            ctx.cover("at-range", "beyond-range")
        h = ctx.rng.permutation(h)
        if k == "2d":
            h = np.abs(h[:, None] - h[None, :5])
            ctx.cover("function:2d")
        elif k == "3d":
            h = np.stack([h, h[::-1]])[:, :, None]
        elif k == "scalar":
            h = np.float64(h[0]) if ctx.chance(0.5) else float(h[0])
            ctx.cover("function:scalar")
        elif k == "int":
            t = ctx.pick(np.int64, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64)
            top = ctx.pick(40, min(np.iinfo(t).max, 2 ** 40), int(min(np.iinfo(t).max, 2 ** 40) ** 0.6))
            h = ctx.rng.integers(0, min(top, np.iinfo(t).max), m).astype(t)
            ctx.cover("function:int-distance", "function:" + np.dtype(t).name)
            if top > 40 and name not in ("linear", "power"):
                p = [p[0], type(p[1])(max(1, top * ctx.lu(0.05, 3))), p[2]]
        elif k == "f32":
            h = h.astype(np.float32).astype(np.float64)
        elif k == "empty":
            h = np.zeros(0)
        par = ctx.pick(list, tuple, np.array)(p)
        ctx.note(model=name, par=p, kind=k, h=np.asarray(h))
        before = np.array(h, copy=True)
        got = ctx.call(f"{name} variogram function", fn, par, h)
        want = ref.model(name, p, np.asarray(h, np.longdouble))
        mag = ref.magnitude(name, p)
        w = np.abs(want).astype(float)
        ctx.close(f"{name}{tuple(p)} at {k} distances", np.asarray(got), want, 1e-13 * (w + mag) + 1e-300, key="formula")
        ctx.require(np.array_equal(before, h), f"{name} variogram function modified its argument", key="modified")
        ctx.cover("function", "fn:" + name)
        return
    s = gen.scenario(ctx, n=(2, 12), custom=0, pinv=0.04, drift=None if ctx.chance(0.3) else False)
    name = s.vario.name
    par = s.vario.par
    q = gen.request(ctx, s, style=ctx.pick("points", "grid"))
    if name == "spherical" and ctx.chance(0.5):
        # a distance just below or above the range, or the range itself
        Qa, Xa = s.adj(q.Q), s.adj(s.X)
        D = np.asarray((ref.gdist if s.geo else ref.edist)(Qa, Xa), float)
        r = float(D[ctx.i(0, len(D) - 1), ctx.i(0, len(s.z) - 1)]) * (1 + ctx.pick(-1, 0, 1) * ctx.lu(1e-6, 1e-1))
        if r > 1e-3 * s.ext:
            s.vario = gen.make_vario(name, [par[0], r, par[2]])
            par = s.vario.par
            ctx.cover("near-range")
    S = s.system()
    want = s.answer(q.Q, S)
    vs = []
    for fmt in ("list", "dict", "psill"):
        v = gen.make_vario(name, par, fmt)
        u = v.user
        if isinstance(u, dict):
            ks = list(u)
            u = {ks[i]: u[ks[i]] for i in ctx.rng.permutation(len(ks))}
            if ctx.chance(0.2):
                u = {a: np.float64(b) for a, b in u.items()}
            if "psill" in u and ctx.chance(0.0):
                u["sill"] = u["psill"] + u["nugget"]
        vs.append((fmt, u))
    objs = []
    for fmt, u in vs:
        o = s.build(ctx, variogram_parameters=u)
        objs.append((fmt, o))
        got = np.array([float(t) for t in o.variogram_model_parameters])
        ctx.close(f"{s.cls} {name} parameters from {fmt}", got, np.array(par, float),
                  1e-14 * (np.abs(np.array(par, float)) + float(par[-1]) + float(par[0])), key="parameters")
    # any of them updated to any other
    fmt, o = objs[ctx.i(0, 2)]
    f2, u2 = vs[ctx.i(0, 2)]
    if S.n > 2 and ctx.chance(0.3):
        kw = {k: v for k, v in s.kwargs(vario=False).items() if k.startswith("anisotropy")}
        ctx.call("update_variogram_model", o.update_variogram_model, name, u2, **kw)
    for b in gen.backends(s):
        res = []
        for fmt, o in objs:
            r = gen.execute(ctx, o, q, b)
            gen.compare(ctx, f"{s.cls} {b} {name} given as {fmt}", q, r, want)
            res.append(r)
        for (fmt, _), r in zip(objs[1:], res[1:]):
            ctx.close(f"{s.cls} {b} {name} {fmt} vs list", q.flat(r[0]), q.flat(res[0][0]), 2 * want[2],
                      key="formats", where=want[4] & q.valid)
        ctx.cover("formats")
    Qa, Xa = s.adj(q.Q), s.adj(s.X)
    if name == "spherical" and (S.dist(Qa, Xa) > par[1]).any():
        ctx.cover("beyond-range")
