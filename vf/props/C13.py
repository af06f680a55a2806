import numpy as np
from vf import gen, ref
from vf.main import Skip, Violation

RULE = ("Random histories of 1-8 operations (executes of every style and backend, updates with explicit or automatic "
        "parameters, other models, class counts, weights and anisotropies, rejected updates of eleven kinds incl. "
        "failing callbacks) on objects of all classes and drift combinations; after every operation the object is "
        "compared with a fresh object built with the last accepted settings; around rejected updates the complete "
        "observable state is compared bitwise.")
CASES = {"quick": 1300, "thorough": 16000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "update:explicit", "update:auto", "update:anisotropy",
            "update:same-anisotropy", "update:reset-anisotropy", "rejected", "execute", "compared", "statistics",
            "geographic", "backend:C", "backend:loop", "drift:point_log", "drift:regional_linear",
            "drift:functional", "rejected:callback", "rejected:bad-model", "gstools", "long-history", "execute-window", "compared-window",
            "update:nudge", "update:mirror", "mirror:sign", "mirror:half-turn", "update:default-nlags", "update:little-function", "update:little-parameter", "update:little-nlags", "update:little-nothing"]
STATS = ("delta", "sigma", "epsilon", "Q1", "Q2", "cR")


def snap(o):
    d = {}
    for k in ("lags", "semivariance", "variogram_model_parameters", *STATS):
        v = getattr(o, k)
        d[k] = None if v is None else np.array(v, float).copy()
    d["model"] = o.variogram_model
    return d


def same(ctx, a, b, what):
    for k in a:
        if k == "model":
            ctx.require(a[k] == b[k], f"{what}: variogram_model {b[k]!r}, was {a[k]!r}", key="rejected-state")
        elif a[k] is None or b[k] is None:
            ctx.require(a[k] is None and b[k] is None, f"{what}: {k} changed", key="rejected-state")
        else:
            ctx.require(a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True),
                        f"{what}: {k} changed", key="rejected-state", before=a[k], after=b[k])


def alike(ctx, o, f, what, stats):
    """attributes of o against those of the fresh object f"""
    def c(k, rtol, x, y):
        x, y = np.array(x, float), np.array(y, float)
        ok = np.isfinite(y)
        sc = np.abs(y[ok]).max() if y.ndim and ok.any() else (abs(float(y)) if y.ndim == 0 and ok else 0.0)
        ctx.require(x.shape == y.shape and np.array_equal(ok, np.isfinite(x)), f"{what}: {k} differs",
                    key="attr-" + k, got=x, want=y)
        ctx.close(f"{what}: {k}", np.where(ok, x, 0), np.where(ok, y, 0), rtol * max(sc, 1e-300), key="attr-" + k)
    ctx.require(o.variogram_model == f.variogram_model, f"{what}: model name {o.variogram_model}", key="attr-model")
    ctx.require(getattr(o, "model", None) is getattr(f, "model", None), f"{what}: GSTools model attribute", key="attr-model")
    c("lags", 1e-9, o.lags, f.lags)
    c("semivariance", 1e-9, o.semivariance, f.semivariance)
    for j, (x, y) in enumerate(zip(o.variogram_model_parameters, f.variogram_model_parameters)):
        c(f"parameter {j}", 1e-6, x, y)
    ctx.require(len(o.variogram_model_parameters) == len(f.variogram_model_parameters),
                f"{what}: number of parameters", key="attr-parameters")
    if stats:
        for k in STATS:
            c(k, 1e-5, getattr(o, k), getattr(f, k))
        ctx.cover("statistics")


def boom(p, h):
    raise RuntimeError("callback")


def late(n):
    state = {"n": 0}

    def f(p, h):
        state["n"] += 1
        if state["n"] > n:
            raise RuntimeError("callback")
        return p[0] * np.asarray(h) + p[1]
    return f


def bad_update(ctx, s):
    """(kind, kwargs) of an update that has to be rejected"""
    kind = ctx.pick("bad-model", "short-list", "long-list", "missing-key", "tuple", "custom-no-fn", "custom-no-par",
                    "not-callable", "callback", "late-callback", "none-model", "custom-dict", "aniso-bad")
    an = {}
    if not s.geo and ctx.chance(0.6):
        an = aniso_kw(s, [ctx.lu(0.2, 5) for _ in s.scaling], [ctx.u(-90, 90) for _ in s.angle])
    if kind == "bad-model":
        k = dict(variogram_model=ctx.pick("Linear", "nugget", "matern", "", "hole_effect"), variogram_parameters=[1., 1.])
    elif kind == "none-model":
        k = dict(variogram_model=None, variogram_parameters=[1., 1.])
    elif kind == "short-list":
        k = dict(variogram_model=ctx.pick("spherical", "power", "gaussian"), variogram_parameters=[1.0, 0.5])
    elif kind == "long-list":
        k = dict(variogram_model="linear", variogram_parameters=[1.0, 0.5, 0.1])
    elif kind == "missing-key":
        k = dict(variogram_model="exponential", variogram_parameters={"range": 1.0, "nugget": 0.0})
    elif kind == "tuple":
        k = dict(variogram_model="linear", variogram_parameters=(1.0, 0.0))
    elif kind == "custom-no-fn":
        k = dict(variogram_model="custom", variogram_parameters=[1.0])
    elif kind == "custom-no-par":
        k = dict(variogram_model="custom", variogram_function=gen.cu_sqrt)
    elif kind == "custom-dict":
        k = dict(variogram_model="custom", variogram_parameters={"a": 1.0}, variogram_function=gen.cu_sqrt)
    elif kind == "not-callable":
        k = dict(variogram_model="custom", variogram_parameters=[1.0, 0.0], variogram_function="cu_sqrt")
    elif kind == "callback":
        k = dict(variogram_model="custom", variogram_parameters=[1.0, 0.0], variogram_function=boom)
    elif kind == "late-callback":
        k = dict(variogram_model="custom", variogram_parameters=[1.0, 0.0], variogram_function=late(ctx.i(1, 2)))
    else:
        if s.geo:
            return bad_update(ctx, s)
        k = dict(variogram_model="linear", variogram_parameters=[1.0, 0.0])
        an = aniso_kw(s, ["wide"] * len(s.scaling), list(s.angle))
    return kind, {**k, **an}


def little(ctx, v):
    par = list(v.par)
    what = ctx.pick("function", *(["function"] * 3 if v.fn else []), "parameter", "nlags", "nothing")
    if what == "function":
        if v.fn is not None:
            other = [f for f in gen.CUSTOM if f is not v.fn and (f is gen.cu_sqrt) == (len(par) == 2)]
            if other:
                return gen.make_vario("custom", par, fn=ctx.pick(*other)), what
        elif len(par) == 3 and v.name != "power":
            return gen.make_vario(ctx.pick(*[m for m in ("exponential", "spherical", "hole-effect") if m != v.name]), par,
                                  ctx.pick("list", "dict", "psill")), what
        what = "parameter"
    if what == "parameter":
        k = ctx.i(0, len(par) - 1)
        if v.name == "power" and k == 1:
            par[k] = 0.5 * (par[k] + 1.0) + 0.01
        else:
            par[k] = par[k] * ctx.pick(1.01, 1.3, 0.7, 1 + 1e-6) if par[k] else 0.1 * par[0]
    return gen.make_vario(v.name, [float(t) for t in par], "list", fn=v.fn), what


def aniso_kw(s, sc, an):
    if s.dim == 2:
        return dict(anisotropy_scaling=sc[0], anisotropy_angle=an[0])
    return dict(anisotropy_scaling_y=sc[0], anisotropy_scaling_z=sc[1], anisotropy_angle_x=an[0],
                anisotropy_angle_y=an[1], anisotropy_angle_z=an[2])


def case(ctx):
    s = gen.scenario(ctx, n=(4, 22), pinv=0.08, custom=0.25)
    K = gen.classes()[s.cls]
    nlags, weight = ctx.i(1, 10), False
    obj = s.build(ctx, nlags=nlags, **({"enable_statistics": True} if s.cls == "ok" and ctx.chance(0.5) else {}))
    have_stats = obj.Q1 is not None
    cur = dict(s.vario.kw(), nlags=nlags, weight=weight)
    cur_an = ([float(v) for v in s.scaling], [float(v) for v in s.angle])
    base = s.kwargs(vario=False)
    base = {k: v for k, v in base.items() if not k.startswith("anisotropy")}
    fixed = explicit = s.vario
    ops = []
    nops = ctx.i(1, 5) if ctx.chance(0.85) else ctx.i(6, 8)
    if nops >= 6:
        ctx.cover("long-history")

    def fresh():
        kw = dict(base, **cur)
        if not s.geo:
            kw.update(aniso_kw(s, *cur_an))
        if s.cls == "ok":
            kw["enable_statistics"] = True
        return K(*s.coords(), s.z, **kw)

    def probe(o, backend, q):
        return gen.execute(ctx, o, q, backend)

    for step in range(nops):
        op = ctx.pick("execute", "update", "update", "update", "reject")
        if op == "execute":
            q = gen.request(ctx, s)
            b = ctx.pick(*gen.backends(s))
            if "C" in gen.backends(s) and obj.variogram_model not in gen.C_MODELS:
                b = "loop"
            kw = {}
            if s.cls in ("ok", "ok3") and ctx.chance(0.4):
                kw["n_closest_points"] = ctx.i(2, len(s.z))
                b = "loop" if b == "vectorized" else b
                ctx.cover("execute-window")
            gen.execute(ctx, obj, q, b, **kw)
            ops.append(f"execute {q.style} {b} {kw}")
            ctx.cover("execute")
            continue
        if op == "reject":
            kind, kw = bad_update(ctx, s)
            ops.append("rejected update " + kind)
            q = gen.request(ctx, s, style="points", m=5)
            b = ctx.pick("vectorized", "loop")
            before, r0 = snap(obj), probe(obj, b, q)
            ctx.raises(f"update_variogram_model({kind}) after {ops}", obj.update_variogram_model, **kw)
            same(ctx, before, snap(obj), f"after {ops}")
            r1 = probe(obj, b, q)
            for i in (0, 1):
                ctx.require(np.array_equal(r0[i], r1[i], equal_nan=True),
                            f"{s.cls}: results changed by a rejected update, {ops}", key="rejected-results",
                            before=r0[i], after=r1[i])
            ctx.cover("rejected", "rejected:" + kind)
            continue
        # accepted update
        auto = ctx.chance(0.25)
        v = gen.vario(ctx, s.ext, float(np.var(s.z)), custom=0 if auto else 0.15,
                      nn=s.ext / len(s.z))
        kw = dict(v.kw(), nlags=ctx.pick(6, ctx.i(1, 12), ctx.i(1, 12)), weight=ctx.chance(0.3))
        if auto:
            kw["variogram_parameters"] = None
        how = ctx.pick("new", "same", "reset", "partial", "nudge", "mirror")
        if not auto and explicit is not None and ctx.chance(0.4):
            # almost the current settings: another function or model with the same parameters, one parameter, the lags
            v, what = little(ctx, explicit)
            kw = dict(v.kw(), nlags=cur["nlags"], weight=cur["weight"])
            if what == "nlags":
                kw["nlags"] = ctx.i(1, 12)
            how = ctx.pick("same", "same", "same", "reset", "partial", "nudge", "mirror")
            ctx.cover("update:little-" + what)
        if s.geo or how == "reset":
            an = ([1.0] * len(s.scaling), [0.0] * len(s.angle))
            ctx.cover("update:reset-anisotropy")
        elif how == "same":
            an = cur_an
            kw.update(aniso_kw(s, *an))
            ctx.cover("update:same-anisotropy")
        else:
            an = ([ctx.lu(0.2, 5) for _ in s.scaling], [ctx.u(-180, 180) for _ in s.angle])
            if how == "nudge":         # slightly different from the current ones
                an = (list(cur_an[0]), list(cur_an[1]))
                if ctx.chance(0.5):
                    an[0][ctx.i(0, len(an[0]) - 1)] *= 1 + ctx.pick(-1, 1) * ctx.lu(1e-7, 1e-1)
                else:
                    an[1][ctx.i(0, len(an[1]) - 1)] += ctx.pick(-1, 1) * ctx.lu(1e-6, 1)
                ctx.cover("update:nudge")
            elif how == "mirror":      # the current numbers with another sign or in another order
                an = (list(cur_an[0]), list(cur_an[1]))
                w = ctx.pick(*(["sign", "inverse", "half-turn"] + ["swap-angles", "swap-scaling"] * (len(s.angle) > 1)))
                if w == "sign":
                    if not any(an[1]):
                        an[1][ctx.i(0, len(an[1]) - 1)] = ctx.u(-180, 180)
                    else:
                        k = ctx.pick(*[k for k, v0 in enumerate(an[1]) if v0])
                        an[1][k] = -an[1][k]
                elif w == "half-turn":
                    an[1][ctx.i(0, len(an[1]) - 1)] += ctx.pick(-180.0, 180.0, 90.0, -90.0, 360.0)
                elif w == "inverse":
                    k = ctx.i(0, len(an[0]) - 1)
                    an[0][k] = 1 / an[0][k]
                elif w == "swap-angles":
                    a, b_ = ctx.pick((0, 1), (0, 2), (1, 2))
                    an[1][a], an[1][b_] = an[1][b_], an[1][a]
                else:
                    an[0].reverse()
                ctx.cover("update:mirror", "mirror:" + w)
            elif how == "partial":       # only one of the settings differs from the current ones
                an = (list(cur_an[0]), list(cur_an[1]))
                if ctx.chance(0.5):
                    an[0][ctx.i(0, len(an[0]) - 1)] = ctx.lu(0.2, 5)
                else:
                    an[1][ctx.i(0, len(an[1]) - 1)] = ctx.u(-180, 180)
            kw.update(aniso_kw(s, *an))
            ctx.cover("update:anisotropy")
        gs = None
        if not s.geo and not auto and ctx.chance(0.08):
            import gstools
            gs = gstools.Exponential(dim=s.dim, var=float(np.var(s.z)), len_scale=s.ext / 3)
            kw = dict(variogram_model=gs, nlags=kw["nlags"])
            an = ([1.0] * len(s.scaling), [0.0] * len(s.angle))
            ctx.cover("gstools")
        old, old_an = cur, cur_an
        cur, cur_an = dict(kw), an
        cur = {k: w for k, w in cur.items() if not k.startswith("anisotropy")}
        cur.setdefault("weight", False)
        before = snap(obj)
        ctx.events += 1
        try:
            f, fexc = fresh(), None
        except Exception as e:
            f, fexc = None, e
        try:
            omit = [k for k in kw if (k, kw[k]) in (("nlags", 6), ("weight", False), ("variogram_parameters", None))] if ctx.chance(0.7) else []
            if omit and "nlags" in omit:
                ctx.cover("update:default-nlags")
            obj.update_variogram_model(**{k: w for k, w in kw.items() if k not in omit})
            oexc = None
        except Exception as e:
            oexc = e
        ops.append(f"update {v.name if gs is None else 'gstools'} {'auto' if auto else 'explicit'} {how}")
        ctx.note(history=ops)
        if oexc is not None or fexc is not None:
            # e.g. statistics of a singular leave-out system, nothing to fit
            ctx.require((oexc is None) == (fexc is None),
                        f"{s.cls} {ops}: the update {'raised ' + repr(oexc) if oexc else 'worked'}, the fresh object "
                        f"{'raised ' + repr(fexc) if fexc else 'worked'}", key="raise-mismatch")
            same(ctx, before, snap(obj), f"after {ops} (raised)")
            cur, cur_an = old, old_an
            continue
        have_stats = True
        explicit = None if auto or gs is not None else v
        ctx.cover("update:auto" if auto else "update:explicit")
        lab = f"{s.cls} after {ops}"
        alike(ctx, obj, f, lab, True)
        # results
        s2an = (s.scaling, s.angle)
        s.scaling, s.angle = list(an[0]), list(an[1])
        q = gen.request(ctx, s, style=ctx.pick("points", "grid", "masked"))
        try:
            if auto or gs is not None:
                zs = np.abs(s.z).max()
                tz, tv, ok = 1e-5 * zs, 1e-5 * max(float(np.var(s.z)), float(np.abs(f.semivariance).max())), q.valid
                r, g = probe(obj, "vectorized", q), probe(f, "vectorized", q)
                w = np.isfinite(q.flat(g[0])) & ok
                if auto:
                    # a fit can end in a numerically singular model: only bitwise equal inputs are comparable
                    w &= np.array_equal(np.array(obj.variogram_model_parameters, float),
                                        np.array(f.variogram_model_parameters, float))
                ctx.close(lab + " estimate", q.flat(r[0]), q.flat(g[0]), tz, key="result", where=w)
                ctx.close(lab + " variance", q.flat(r[1]), q.flat(g[1]), tv, key="result", where=w)
            else:
                s.vario = v
                A = s.answer(q.Q)
                bs = gen.backends(s)
                b = ctx.pick(*bs)
                r, g = probe(obj, b, q), probe(f, b, q)
                for what, i, t in (("estimate", 0, A[2]), ("variance", 1, A[3])):
                    ctx.close(f"{lab} {b} {what}", q.flat(r[i]), q.flat(g[i]), 2 * t, key="result", where=A[4] & q.valid)
                gen.compare(ctx, lab + " against the reference", q, r, A)
                if s.cls in ("ok", "ok3") and ctx.chance(0.5):
                    k = ctx.i(2, len(s.z))
                    b = ctx.pick(*gen.backends(s, True))
                    r = gen.execute(ctx, obj, q, b, n_closest_points=k)
                    gen.compare(ctx, f"{lab} {b} k={k}", q, r, gen.window_answer(ctx, s, q, k, limit=8))
                    ctx.cover("compared-window")
            ctx.cover("compared")
        except Skip:
            pass
        finally:
            s.vario = fixed
            s.scaling, s.angle = s2an
    ctx.note(history=ops)
    ctx.require(True, "")
