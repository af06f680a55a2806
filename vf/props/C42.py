import os
import pickle
import struct
import warnings

import numpy as np
from vf import gen, grids
from vf.main import Skip
from vf.props.C14 import identical

RULE = ("Sequences of calls in a process with a long history, each differing from the one before in one argument (same arrays changed in place, "
        "objects updated or reused, memory freed and taken again, files rewritten with the same size and time stamp), every one compared with the "
        "same call in a pristine process (forked from one in which nothing but the import has happened).")
CASES = {"quick": 500, "thorough": 10000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "automatic", "window", "drift", "statistics", "in-place", "reused", "updated", "rebuilt",
            "dropped", "failed", "wrapper", "regression", "asc", "zmap", "models", "distance", "backend:C", "backend:loop", "backend:vectorized"] + \
           ["changed:" + k for k in ("values", "one value", "one coordinate", "order", "model", "parameters", "nlags", "weight", "exact", "anisotropy", "drift",
                                     "points", "mask", "window", "backend", "nothing", "coordinates", "function")]


# --- the pristine process ------------------------------------------------------------------------------------------------------------------
class Pristine:
    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a[1]), os.close(b[0])
                self.serve(a[0], b[1])
            finally:
                os._exit(0)
        os.close(a[0]), os.close(b[1])
        self.w, self.r = a[1], b[0]

    @staticmethod
    def read(fd):
        def exactly(n):
            s = b""
            while len(s) < n:
                t = os.read(fd, n - len(s))
                if not t:
                    os._exit(0)
                s += t
            return s
        return pickle.loads(exactly(struct.unpack("q", exactly(8))[0]))

    @staticmethod
    def write(fd, o):
        s = pickle.dumps(o)
        s = memoryview(struct.pack("q", len(s)) + s)
        while len(s):
            s = s[os.write(fd, s):]

    def serve(self, r, w):
        while True:
            p = self.read(r)
            pid = os.fork()
            if pid == 0:
                try:
                    self.write(w, attempt(p, Fresh()))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, p):
        self.write(self.w, p)
        return self.read(self.r)


def attempt(p, how):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "value", perform(p, how)
        except Exception as e:
            return "raised", type(e).__name__


class Fresh:
    """everything new"""
    path = None

    def array(self, name, a):
        return np.array(a)

    def kriging(self, p, new, update):
        return new()

    def estimator(self, p, new):
        return new()

    def file(self, name):
        return None


# --- user functions (have to be found by pickle) ---------------------------------------------------------------------------------------------
def custom_a(p, d):
    return p[0] * np.sqrt(d) + p[1]


def custom_b(p, d):
    return p[0] * d / (d + 10.0) + p[1]


def drift_a(*x):
    return (x[0] - 3.0) ** 2 / 1000.0


def drift_b(*x):
    return (x[0] - 3.0) * (x[1] + 2.0) / 1000.0


# --- calls, described by plain data ----------------------------------------------------------------------------------------------------------
def perform(p, how):
    kind = p["kind"]
    if kind == "kriging":
        C = gen.classes()[p["cls"]]

        def arrays(d):
            return {k: [how.array(f"{k}{j}", a) for j, a in enumerate(v)] if isinstance(v, list) and k == "specified_drift" else
                    how.array(k, v) if isinstance(v, np.ndarray) else v for k, v in d.items()}

        def new():
            return C(*[how.array(f"c{k}", a) for k, a in enumerate(p["data"])], **arrays(p["fixed"]), **p["set"], **p["model"], **p["aniso"])

        def update(o):
            # (what the model has been set up with before does not count)
            o.update_variogram_model(**p["model"], **p["aniso"], **p["lags"])
            return o
        p = dict(p)
        p["set"] = {**p["set"], **p["lags"]}
        o = how.kriging(p, new, update)
        r = [np.array(v, float) for v in (o.lags, o.semivariance, o.variogram_model_parameters)]
        if p["set"].get("enable_statistics"):
            r += [np.array([o.Q1, o.Q2, o.cR])]
        e = dict(p["execute"])
        style, axes = e.pop("style"), e.pop("axes")
        if "mask" in e:
            e["mask"] = how.array("mask", e["mask"])
        if "specified_drift_arrays" in e:
            e["specified_drift_arrays"] = [how.array(f"sd{j}", a) for j, a in enumerate(e["specified_drift_arrays"])]
        r += list(o.execute(style, *[how.array(f"e{k}", a) for k, a in enumerate(axes)], **e))
        return [np.ma.array(v, copy=True) if np.ma.isMaskedArray(v) else np.array(v) for v in r]
    if kind in ("wrapper", "regression"):
        from pykrige.compat import Krige
        from pykrige.rk import RegressionKriging
        from sklearn.linear_model import LinearRegression
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            e = how.estimator(p, lambda: Krige(**p["kw"]) if kind == "wrapper" else RegressionKriging(LinearRegression(), **p["kw"]))
            X, y, Q = [how.array(k, p[k]) for k in ("X", "y", "Q")]
            if kind == "wrapper":
                e.fit(X, y)
                return [np.array(e.predict(Q))]
            P, R = how.array("P", p["P"]), how.array("R", p["R"])
            e.fit(P, X, y)
            return [np.array(e.predict(R, Q)), np.array(e.krige_residual(Q))]
    if kind in ("asc", "zmap"):
        from pykrige import kriging_tools as kt
        with grids.Scratch() as d:
            f = how.file(kind) or os.path.join(str(d), "grid")
            a = [how.array(k, p[k]) for k in "xyz"]
            (kt.write_asc_grid if kind == "asc" else kt.write_zmap_grid)(*a, filename=f, **p["kw"])
            os.utime(f, (1e9, 1e9))
            r = (kt.read_asc_grid if kind == "asc" else kt.read_zmap_grid)(f)
            return [np.array(v, float) for v in r[:5]]
    if kind == "models":
        from pykrige import variogram_models as vm
        return [np.array(getattr(vm, p["name"])(list(p["par"]), how.array("h", p["h"])))]
    from pykrige import core
    return [np.array(core.great_circle_distance(*[how.array(f"g{k}", a) for k, a in enumerate(p["args"])]))]


# --- the same calls in a process with a history ----------------------------------------------------------------------------------------------
class Live:
    buffers = {}
    objects = []
    estimators = {}

    def __init__(self, ctx):
        self.ctx = ctx

    def array(self, name, a):
        k = (name, a.shape, a.dtype.str)
        if self.ctx.chance(0.6):
            b = Live.buffers.get(k)
            if b is None:
                if len(Live.buffers) > 400:
                    Live.buffers.clear()
                b = Live.buffers[k] = np.array(a)
            else:
                self.ctx.cover("in-place")
                b[...] = a
            return b
        return np.array(a)

    def kriging(self, p, new, update):
        key = pickle.dumps((p["cls"], p["data"], p["fixed"], {k: v for k, v in p["set"].items() if k not in p["lags"]}))
        full = pickle.dumps((p["model"], p["aniso"], p["lags"]))
        found = [t for t in Live.objects if t[0] == key]
        same = [t for t in found if t[1] == full]
        if same and self.ctx.chance(0.7):
            self.ctx.cover("reused")
            return same[-1][2]
        if found and self.ctx.chance(0.7):
            t = found[-1]
            Live.objects.remove(t)
            self.ctx.cover("updated")
            o = update(t[2])
            Live.objects.append((key, full, o))
            return o
        if self.ctx.chance(0.3) and Live.objects:
            del Live.objects[:self.ctx.i(1, len(Live.objects))]
            self.ctx.cover("dropped")
        o = new()
        self.ctx.cover("rebuilt")
        Live.objects.append((key, full, o))
        del Live.objects[:-6]
        return o

    def estimator(self, p, new):
        k = (p["kind"], p["kw"]["method"])
        e = Live.estimators.get(k)
        if p["kind"] == "wrapper" and e is not None and self.ctx.chance(0.6):
            self.ctx.cover("reused")
            return e.set_params(**{**type(e)().get_params(), **p["kw"]})
        e = Live.estimators[k] = new()
        return e

    def file(self, name):
        return os.path.join(self.ctx.dir, name)


# --- neighbouring calls ------------------------------------------------------------------------------------------------------------------------
def model(ctx, geo):
    name = ctx.pick("linear", "power", "gaussian", "spherical", "exponential", "hole-effect", "custom", "custom")
    if name == "custom":
        return dict(variogram_model=name, variogram_parameters=[ctx.u(1, 3), ctx.u(0.1, 1)], variogram_function=ctx.pick(custom_a, custom_b))
    return dict(variogram_model=name, variogram_parameters=parameters(ctx, name))


def parameters(ctx, name):
    if name in ("linear", "custom"):
        return [ctx.u(1, 3), ctx.u(0.1, 1)]
    if name == "power":
        return [ctx.u(1, 3), ctx.u(0.5, 1.5), ctx.u(0.1, 1)]
    return [ctx.u(3, 9), ctx.u(10, 60), ctx.u(0.5, 1.5)]


def points(ctx, p):
    d, geo = p["d"], "coordinates_type" in p["set"]
    e = {k: v for k, v in p["execute"].items() if k in ("backend", "n_closest_points")} if "execute" in p else {"backend": ctx.pick("vectorized", "loop")}
    e["style"] = ctx.pick("points", "grid", "masked")
    m = [ctx.i(2, 4) for _ in range(d)] if e["style"] != "points" else [ctx.i(1, 12)] * d
    e["axes"] = [ctx.rng.uniform(5, 95, k) if not geo else ctx.rng.uniform(-80, 80, k) for k in m]
    if e["style"] == "points" and ctx.chance(0.3):
        j = ctx.rng.integers(0, len(p["data"][0]), m[0])
        e["axes"] = [p["data"][k][j] for k in range(d)]
    if e["style"] == "masked":
        e["mask"] = ctx.rng.random(m[::-1]) < 0.4
    if "specified_drift" in p["fixed"]:
        e["specified_drift_arrays"] = [ctx.rng.normal(size=m[::-1] if e["style"] != "points" else m[0]) for _ in p["fixed"]["specified_drift"]]
    p["execute"] = e


def drift(ctx, p):
    f = p["fixed"] = {}
    d, n = p["d"], len(p["data"][0])
    f["drift_terms"] = [t for t in ("regional_linear", "specified", "functional") + (("point_log", "external_Z") if d == 2 else ()) if ctx.chance(0.35)][:2]
    if "specified" in f["drift_terms"]:
        f["specified_drift"] = [ctx.rng.normal(size=n)]
    if "functional" in f["drift_terms"]:
        f["functional_drift"] = [ctx.pick(drift_a, drift_b)]
    if "point_log" in f["drift_terms"]:
        f["point_drift"] = np.array([[ctx.u(100, 120), ctx.u(0, 50), 1.0]])
    if "external_Z" in f["drift_terms"]:
        f["external_drift"], f["external_drift_x"], f["external_drift_y"] = ctx.rng.normal(size=(4, 5)), np.linspace(-1, 101, 5), np.linspace(-1, 101, 4)


def anisotropy(ctx, d):
    a = {"anisotropy_scaling" + t: ctx.pick(1.0, 2.0, ctx.u(0.5, 3)) for t in (("", ) if d == 2 else ("_y", "_z"))}
    a.update({"anisotropy_angle" + t: ctx.pick(0.0, ctx.u(-90, 90)) for t in (("", ) if d == 2 else ("_x", "_y", "_z"))})
    return a


def first(ctx):
    cls = ctx.pick("ok", "ok", "uk", "ok3", "uk3")
    d = 3 if cls.endswith("3") else 2
    p = dict(kind="kriging", cls=cls, d=d, fixed={}, set={}, lags={}, aniso={})
    geo = cls == "ok" and ctx.chance(0.25)
    n = ctx.pick(12, 12, 15, ctx.i(8, 30))
    p["data"] = [ctx.rng.uniform(*((-80, 80) if geo else (0, 100)), n) for _ in range(d)] + [ctx.rng.normal(size=n) * 3]
    if geo:
        p["set"]["coordinates_type"] = "geographic"
    elif ctx.chance(0.5):
        p["aniso"] = anisotropy(ctx, d)
    if cls == "ok" and ctx.chance(0.3):
        p["set"]["enable_statistics"] = True
    if cls.startswith("uk"):
        drift(ctx, p)
    p["model"] = model(ctx, geo)
    points(ctx, p)
    return p


def neighbour(ctx, p):
    """the same call with one thing changed"""
    p = dict(p)
    p["data"] = [a.copy() for a in p["data"]]
    for k in ("fixed", "set", "lags", "aniso", "model", "execute"):
        p[k] = dict(p[k])
    n, d = len(p["data"][0]), p["d"]
    geo = "coordinates_type" in p["set"]
    what = ctx.pick("values", "one value", "one coordinate", "order", "model", "parameters", "nlags", "weight", "exact", "anisotropy", "drift", "points",
                    "points", "mask", "window", "backend", "nothing", "coordinates")
    e = p["execute"]
    if p["model"]["variogram_model"] == "custom" and ctx.chance(0.35):
        what = "function"
    if what == "function":
        f = p["model"]["variogram_function"]
        p["model"]["variogram_function"] = custom_a if f is custom_b else custom_b
    elif what == "values":
        p["data"][d] = ctx.rng.normal(size=n) * 3
    elif what == "one value":
        p["data"][d][ctx.i(0, n - 1)] += ctx.pick(1.0, 1e-6)
    elif what == "one coordinate":
        p["data"][ctx.i(0, d - 1)][ctx.i(0, n - 1)] = ctx.u(0, 80)
    elif what == "coordinates":
        k = ctx.i(0, d - 1)
        p["data"][k] = ctx.pick(p["data"][k][::-1].copy(), ctx.rng.uniform(0, 80, n))
    elif what == "order":
        o = ctx.rng.permutation(n)
        p["data"] = [a[o] for a in p["data"]]
        if "specified_drift" in p["fixed"] and ctx.chance(0.5):
            p["fixed"]["specified_drift"] = [a[o] for a in p["fixed"]["specified_drift"]]
    elif what == "model":
        p["model"] = model(ctx, geo)
        if ctx.chance(0.3) and p["model"]["variogram_model"] != "custom":
            del p["model"]["variogram_parameters"]
    elif what == "parameters":
        if "variogram_parameters" in p["model"]:
            q = list(p["model"]["variogram_parameters"])
            q[ctx.i(0, len(q) - 1)] *= ctx.pick(1.1, 1 + 1e-7)
            p["model"]["variogram_parameters"] = q
        else:
            p["model"]["variogram_parameters"] = parameters(ctx, p["model"]["variogram_model"])
    elif what == "nlags":
        p["lags"]["nlags"] = ctx.i(4, 9)
    elif what == "weight":
        p["lags"]["weight"] = not p["lags"].get("weight", False)
    elif what == "exact":
        if ctx.chance(0.5):
            p["set"]["exact_values"] = not p["set"].get("exact_values", True)
        else:
            p["set"]["pseudo_inv"] = not p["set"].get("pseudo_inv", False)
    elif what == "anisotropy":
        if geo:
            return neighbour(ctx, p)
        p["aniso"] = anisotropy(ctx, d)
    elif what == "drift":
        if not p["cls"].startswith("uk"):
            return neighbour(ctx, p)
        f = p["fixed"]
        k = [k for k, v in f.items() if isinstance(v, np.ndarray) and not k.endswith(("_x", "_y"))]
        if "functional_drift" in f and ctx.chance(0.5):
            f["functional_drift"] = [drift_a if f["functional_drift"][0] is drift_b else drift_b]
        elif k and ctx.chance(0.6):
            k = ctx.pick(*k)
            f[k] = f[k].copy()
            f[k].flat[ctx.i(0, f[k].size - 1)] += 0.5
        else:
            drift(ctx, p)
            points(ctx, p)
    elif what == "points":
        if ctx.chance(0.5):
            points(ctx, p)
        else:
            a = [v.copy() for v in e["axes"]]
            k = ctx.i(0, d - 1)
            a[k][ctx.i(0, len(a[k]) - 1)] += 1.5
            e["axes"] = a
    elif what == "mask":
        if "mask" not in e:
            return neighbour(ctx, p)
        m = e["mask"].copy()
        m.flat[ctx.i(0, m.size - 1)] ^= True
        e["mask"] = m
    elif what == "window":
        if not p["cls"].startswith("ok"):
            return neighbour(ctx, p)
        if "n_closest_points" in e and ctx.chance(0.4):
            del e["n_closest_points"]
        else:
            e["n_closest_points"] = ctx.i(3, n)
    elif what == "backend":
        e["backend"] = ctx.pick("vectorized", "loop", "C")
    if p["fixed"].get("drift_terms") and any(a.max() > 100 or a.min() < 0 for a in e["axes"]):
        e["axes"] = [np.clip(a, 0, 100) for a in e["axes"]]
    ctx.cover("changed:" + what)
    return p


def other(ctx, p=None):
    """calls of everything else"""
    if p is not None:
        p = dict(p)
        k = p["kind"]
        if k in ("asc", "zmap"):
            z = p["z"].copy()
            z.flat[ctx.i(0, z.size - 1)] = ctx.i(10, 99)      # (the size of the file stays)
            p["z"] = z
            if ctx.chance(0.3):
                p["x"] = p["x"] + 10.0
        elif k == "models":
            if ctx.chance(0.5):
                p["h"] = p["h"] + ctx.pick(0.0, 1.0)
            else:
                p["par"] = [a * ctx.pick(1.0, 1.5) for a in p["par"]]
        elif k == "distance":
            a = [v.copy() for v in p["args"]]
            a[ctx.i(0, 3)] += 1.0
            p["args"] = a
        else:
            t = ctx.pick("X", "y", "Q", "kw")
            if t == "kw":
                p["kw"] = {**p["kw"], **ctx.pick({"variogram_model": "exponential", "variogram_parameters": [4.0, 30.0, 0.5]},
                                                 {"n_closest_points": ctx.i(3, 8)}, {"exact_values": ctx.chance(0.5)}, {"anisotropy_scaling": (2.0, 1.5)})}
            else:
                p[t] = p[t].copy()
                p[t].flat[ctx.i(0, p[t].size - 1)] += 1.0
        return p
    k = ctx.pick("wrapper", "regression", "asc", "zmap", "models", "distance")
    ctx.cover(k)
    p = dict(kind=k)
    if k in ("asc", "zmap"):
        ny, nx = ctx.i(2, 4), ctx.i(2, 4)
        p.update(x=10.0 + 10.0 * np.arange(nx), y=10.0 + 10.0 * np.arange(ny), z=ctx.rng.integers(10, 100, (ny, nx)).astype(float), kw={})
    elif k == "models":
        name = ctx.pick("linear", "power", "gaussian", "spherical", "exponential", "hole_effect")
        p.update(name=name + "_variogram_model", par=parameters(ctx, name), h=ctx.rng.uniform(0, 60, ctx.i(3, 5)))
    elif k == "distance":
        m = ctx.i(2, 4)
        p["args"] = [ctx.rng.uniform(-90, 89, m) for _ in range(4)]
    else:
        three = ctx.chance(0.4)
        d, n = 3 if three else 2, ctx.pick(12, ctx.i(10, 20))
        p.update(X=ctx.rng.uniform(0, 100, (n, d)), y=ctx.rng.normal(size=n) * 3, Q=ctx.rng.uniform(0, 100, (4, d)), P=ctx.rng.normal(size=(n, 2)),
                 R=ctx.rng.normal(size=(4, 2)))
        method = ctx.pick("ordinary", "universal") + ("3d" if three else "")
        p["kw"] = dict(method=method, variogram_model="linear", variogram_parameters=[1.0, 0.2])
        if method.startswith("universal"):
            p["kw"]["drift_terms"] = ["regional_linear"]
    return p


PRISTINE = None


def case(ctx):
    global PRISTINE
    if PRISTINE is None:
        PRISTINE = Pristine()
    with grids.Scratch() as d:
        ctx.dir = str(d)
        how = Live(ctx)
        krige = ctx.chance(0.7)
        p = first(ctx) if krige else other(ctx)
        steps = []
        for _ in range(ctx.i(3, 8)):
            want = PRISTINE.ask(p)
            ctx.events += 1
            steps.append({k: (v if k != "data" else None) for k, v in p.items()})
            got = attempt(p, how)
            what = f"call {len(steps)}, {p['kind']} {p.get('cls', '')}"
            if krige:
                ctx.cover("cls:" + p["cls"])
                if want[0] == "value":
                    ctx.cover("backend:" + p["execute"]["backend"], *(["window"] if "n_closest_points" in p["execute"] else []),
                              *(["geographic"] if "coordinates_type" in p["set"] else []), *(["statistics"] if "enable_statistics" in p["set"] else []),
                              *(["drift"] if p["fixed"].get("drift_terms") else []), *([] if "variogram_parameters" in p["model"] else ["automatic"]))
            if want[0] == "raised":
                ctx.cover("failed")
            detail = dict(steps=str(steps[-2:])[:3000], data=p.get("data"))
            ctx.require(got[0] == want[0] and (got[0] == "value" or got[1] == want[1]),
                        f"{what}: {got if got[0] == 'raised' else 'a value'} instead of {want if want[0] == 'raised' else 'a value'} in a pristine process",
                        key="outcome", **detail)
            if got[0] == "value":
                for a, b in zip(got[1], want[1]):
                    ctx.require(identical(a, b), f"{what}: other results than in a pristine process", key="results", got=a, want=b, **detail)
            p = neighbour(ctx, p) if krige else other(ctx, p)
        ctx.note(steps=str(steps)[:4000])
