import contextlib
import copy
import io
import os
import pickle
import struct
import sys

import numpy as np
from vf import gen, grids
from vf.main import Skip
from vf.props.C14 import identical

RULE = ("Fault injection into imports: random subsets of scikit-learn, matplotlib, GSTools, the compiled extension (absent, or present "
        "and failing to load) and the version file are made unimportable in a forked process that imports the package afresh "
        "and repeats random work (kriging of all classes on every backend, moving windows, updates, wrapper, grid files) whose results in the "
        "complete installation are known; they have to agree bitwise (C backend without extension: with the loop backend), and what "
        "needs the missing package has to raise the documented exception and leave the objects usable.")
CASES = {"quick": 700, "thorough": 8000}
PARTS = ("sklearn", "matplotlib", "gstools", "extension", "version")
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "without-nothing", "without-everything", "extension:absent",
            "extension:broken", "fallback", "fallback-window", "fallback-statistics", "wrapper-without-sklearn", "wrapper-with-sklearn",
            "rk-rejected", "ck-rejected", "rk-works", "gstools-rejected", "gstools-update-rejected", "gstools-works", "plot-rejected",
            "plot-construction-rejected", "plots", "files", "update"] + ["without:" + p for p in PARTS]


class Block:
    def __init__(self, names, error):
        self.names, self.error = names, error

    def find_spec(self, name, path=None, target=None):
        for b in self.names:
            if name == b or name.startswith(b + "."):
                raise self.error(f"No module named {name!r}" if self.error is ModuleNotFoundError else
                                 f"{name}: undefined symbol: PyInit", name=name)
        return None


def stripped(missing, broken):
    """in a forked process: the package imported again, without the missing parts"""
    drop = {"sklearn": ["sklearn"], "matplotlib": ["matplotlib", "mpl_toolkits"], "gstools": ["gstools"],
            "extension": ["pykrige.lib.cok", "pykrige.lib.variogram_models"], "version": ["pykrige._version"]}
    names = [n for m in missing for n in drop[m]]
    for m in list(sys.modules):
        if m.split(".")[0] == "pykrige" and not m.startswith("pykrige.lib"):
            del sys.modules[m]
        elif any(m == n or m.startswith(n + ".") for n in names):
            del sys.modules[m]
    if "extension" in missing:
        lib = sys.modules["pykrige.lib"]
        for n in ("cok", "variogram_models"):
            lib.__dict__.pop(n, None)
        sys.meta_path.insert(0, Block(drop["extension"], ImportError if broken else ModuleNotFoundError))
    sys.meta_path.insert(0, Block([n for n in names if not n.startswith("pykrige.lib")], ModuleNotFoundError))


def attempt(fn, *a, **k):
    """("ok", result) or ("raised", class names, message)"""
    try:
        return "ok", fn(*a, **k)
    except Exception as e:
        return "raised", [c.__name__ for c in type(e).__mro__], str(e)[:300]


def arrays(r):
    return [np.ma.filled(np.ma.asarray(a, float), np.nan) for a in r]


def work(job):
    """everything the job asks for, in whatever installation this runs: name -> outcome"""
    out = {}

    def note(name, fn, *a, **k):
        txt = io.StringIO()
        with contextlib.redirect_stdout(txt):
            out[name] = attempt(fn, *a, **k)
        out[name + ":text"] = txt.getvalue()
        return out[name][1] if out[name][0] == "ok" else None
    import pykrige
    import pykrige.core
    import pykrige.kriging_tools as kt
    from pykrige.compat import Krige
    out["version"] = isinstance(pykrige.__version__, str) and bool(pykrige.__version__)
    cls = gen.classes()[job["cls"]]
    objs = {}

    def build(**over):
        return cls(*job["coords"], job["z"], **{**copy.deepcopy(job["kw"]), **over})
    note("build", lambda: objs.update(o=build()))
    o = objs.get("o")
    if o is None:
        return out

    def runs(tag):
        for b, k in job["runs"]:
            note(f"{tag}:{b}:{k.get('n_closest_points')}", lambda: arrays(o.execute(*copy.deepcopy(job["args"]),
                                                                                   **copy.deepcopy({**job["qkw"], **k, "backend": b}))))
    runs("run")
    if job["stats"]:
        note("stats", lambda: [np.array([o.Q1, o.Q2, o.cR], float), np.array(o.epsilon, float)])
    # --- plots
    note("display", lambda: o.display_variogram_model())
    note("plotting", lambda: build(enable_plotting=True) and None)
    # --- GSTools
    m = job["gs"]
    if m is not None:
        note("gs-build", lambda: arrays(cls(*job["coords"], job["z"], variogram_model=m).execute(
            *copy.deepcopy(job["args"]), **copy.deepcopy(job["qkw"]), backend="loop")))
        keep = note("gs-update-probe", lambda: copy.deepcopy(o))
        if keep is not None:
            note("gs-update", lambda: keep.update_variogram_model(m))
            if out["gs-update"][0] == "raised":     # still as before
                note("gs-after", lambda: arrays(keep.execute(*copy.deepcopy(job["args"]), **copy.deepcopy(job["qkw"]), backend="loop")))
    # --- wrapper
    w = job["wrap"]

    def wrapper():
        k = Krige(**copy.deepcopy(w["par"]))
        k.fit(w["X"].copy(), w["y"].copy())
        e = k.execute(copy.deepcopy(w["points"]))
        return [np.asarray(k.predict(w["Q"].copy()), float)] + arrays(e)
    note("wrapper", wrapper)

    def rk():
        from pykrige.rk import RegressionKriging
        from sklearn.linear_model import Ridge
        r = RegressionKriging(Ridge(), **copy.deepcopy(w["par"]))
        r.fit(w["P"], w["X"].copy(), w["y"].copy())
        return [np.asarray(r.predict(w["PQ"], w["Q"].copy()), float)]
    note("rk", rk)

    def ck():
        import pykrige.ck
        return []
    note("ck", ck)
    # --- files
    def files():
        with grids.Scratch() as d:
            f = os.path.join(d, "g.asc")
            kt.write_asc_grid(*copy.deepcopy(job["grid"]), filename=f)
            g = os.path.join(d, "g.txt")
            kt.write_zmap_grid(*copy.deepcopy(job["grid"]), filename=g)
            a = kt.read_asc_grid(f)
            b = kt.read_zmap_grid(g)
            return [np.asarray(v, float) for v in a[:3]] + [np.asarray(v, float) for v in b[:3]]
    note("files", files)
    runs("again")
    note("update", lambda: o.update_variogram_model(**copy.deepcopy(job["update"])))
    job["runs"] = [(b, k) for b, k in job["runs"] if b != "C" or job["update"]["variogram_model"] in gen.C_MODELS]
    runs("updated")
    return out


def elsewhere(missing, broken, job):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            stripped(missing, broken)
            b = pickle.dumps(attempt(work, job))
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<q", len(b)) + b)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    if len(b) < 8:
        return None
    return pickle.loads(b[8:])


def case(ctx):
    s = gen.scenario(ctx, n=(4, 20), pinv=0.05)
    if "functional" in s.drift.terms and ctx.chance(0.5):
        raise Skip("one of many")
    if ctx.chance(0.12):
        missing = list(PARTS)
        ctx.cover("without-everything")
    else:
        missing = [p for p in PARTS if ctx.chance(0.35)]
    if not missing:
        ctx.cover("without-nothing")
    broken = ctx.chance(0.5)
    for p in missing:
        ctx.cover("without:" + p)
    if "extension" in missing:
        ctx.cover("extension:" + ("broken" if broken else "absent"))
    kw = s.kwargs()
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.5)
    q = gen.request(ctx, s, large=False)
    qkw = {k: v for k, v in q.kw.items()}
    runs = [(b, {}) for b in gen.backends(s)]
    window = s.cls in ("ok", "ok3") and not s.pinv
    if window:
        k = ctx.i(2, len(s.z))
        runs += [(b, dict(n_closest_points=k)) for b in gen.backends(s, True)]
    gs = None
    if not s.geo and not s.drift.terms:
        import gstools
        gs = gstools.Exponential(dim=s.dim, var=max(float(np.var(s.z)), 1e-9), len_scale=s.ext * 0.4)
    method = ctx.pick("ordinary", "universal", "ordinary3d", "universal3d")
    d = 3 if method.endswith("3d") else 2
    n = ctx.i(5, 15)
    X = gen.layout(ctx, n, d, 10.0)
    Q = X.min(0) + np.ptp(X, axis=0) * ctx.rng.random((4, d))
    wrap = dict(par=dict(method=method, variogram_model="exponential", variogram_parameters=[2.0, 5.0, 0.1], n_closest_points=ctx.i(2, n)),
                X=X, y=ctx.rng.normal(size=n), Q=Q, P=ctx.rng.normal(size=(n, 2)), PQ=ctx.rng.normal(size=(4, 2)),
                points={k: Q[:, j].copy() for j, k in enumerate(("xpoints", "ypoints", "zpoints")[:d])})
    v = gen.vario(ctx, s.ext, max(float(np.var(s.z)), 1e-9), nn=s.ext / len(s.z), custom=0)
    job = dict(cls=s.cls, coords=s.coords(), z=s.z, kw=kw, args=q.args, qkw=qkw, runs=runs, gs=gs, wrap=wrap, update=v.kw(),
               stats=s.cls != "ok" or kw["enable_statistics"],
               grid=(np.arange(3) * 2.0, np.arange(4) * 2.0, ctx.rng.normal(size=(4, 3)).round(2)))
    ctx.note(missing=missing, broken=broken)
    ctx.events += 1
    want = work(dict(job))
    if want["build"][0] != "ok":
        raise Skip("singular statistics")
    got = elsewhere(missing, broken, dict(job))
    where = "without " + (", ".join(missing) or "nothing")
    ctx.require(got is not None, f"{where}: the process died", key="died")
    ctx.require(got[0] == "ok", f"{where}: {got[1:]}", key="import")
    got = got[1]
    ctx.events += len(got) // 2
    ctx.require(got["version"], f"{where}: __version__ is not a string", key="version")

    def same(name, ref=None):
        g, w = got.get(name), want[ref or name]
        ctx.require(g is not None, f"{where}: {name} was not reached", key="died")
        if w[0] != "ok":
            return False
        ctx.require(g[0] == "ok", f"{where}: {name} raised {g[1:]}", key="raised")
        if w[1] is not None:
            ctx.require(len(g[1]) == len(w[1]) and all(identical(a, b) for a, b in zip(g[1], w[1])), f"{where}: {name} differs",
                        key="differs", got=g[1], want=w[1])
        return True

    def refused(name, exc):
        g = got.get(name)
        ctx.require(g is not None and g[0] == "raised" and exc in g[1], f"{where}: {name} gave {g[:2] if g else g} instead of {exc}",
                    key="not-refused")
    ext = "extension" not in missing
    for name in [k for k in want if k.split(":")[0] in ("run", "again", "updated") and not k.endswith(":text")]:
        tag, b, k = name.split(":")
        if b == "C" and not ext:
            if same(name, f"{tag}:loop:{k}"):
                ctx.cover("fallback" if k == "None" else "fallback-window")
                ctx.require(got[name + ":text"], f"{where}: silent fallback of the C backend", key="silent")
        else:
            same(name)
    same("build")
    if same("update"):
        ctx.cover("update")
    if job["stats"]:
        if same("stats") and not ext:
            ctx.cover("fallback-statistics")
    if same("files"):
        ctx.cover("files")
    if same("wrapper"):
        ctx.cover("wrapper-with-sklearn" if "sklearn" not in missing else "wrapper-without-sklearn")
    if "sklearn" in missing:
        refused("rk", "SklearnException")
        refused("ck", "SklearnException")
        ctx.cover("rk-rejected", "ck-rejected")
    else:
        same("ck")
        if same("rk"):
            ctx.cover("rk-works")
    if "matplotlib" in missing:
        refused("display", "ImportError")
        refused("plotting", "ImportError")
        ctx.cover("plot-rejected", "plot-construction-rejected")
    elif same("display") and same("plotting"):
        ctx.cover("plots")
    if gs is not None:
        if "gstools" in missing:
            refused("gs-build", "GSToolsException")
            refused("gs-update", "GSToolsException")
            w = [k for k in want if k == "run:loop:None"]
            if w:
                same("gs-after", w[0])
                ctx.cover("gstools-update-rejected")
            ctx.cover("gstools-rejected")
        elif same("gs-build") and same("gs-update"):
            ctx.cover("gstools-works")
