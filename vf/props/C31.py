import copy
import os
import pickle
import subprocess
import sys

import numpy as np
from vf import gen
from vf.main import Skip, Violation
from vf.props.C14 import Flaky, identical, state

RULE = ("Random objects of all classes (drifts, custom functions, GSTools models, statistics, fitted scikit-learn wrappers, "
        "regression and classification kriging) are deep-copied, pickled with every protocol, with joblib and with cloudpickle, "
        "before and after executes and updates, in this process and in a freshly started one; copies have to answer the same "
        "requests with the same results and attributes, and updating, refitting or damaging one must not show in the others.")
CASES = {"quick": 900, "thorough": 12000}
REQUIRED = ["cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "geographic", "deepcopy", "pickle", "joblib", "cloudpickle", "other-process",
            "update-copy", "update-original", "window", "backend:C", "backend:loop", "backend:vectorized", "drift:point_log",
            "drift:external_Z", "drift:specified", "drift:functional", "gstools", "custom", "used-before", "updated-before",
            "wrapper", "regression", "classification", "copy-of-copy", "original-gone", "damaged-copy"]

_CHILD = None
SERVER = r"""
import sys, struct, warnings
warnings.simplefilter("ignore")
import cloudpickle, numpy as np
np.seterr(all="ignore")
inp, out = sys.stdin.buffer, sys.stdout.buffer
sys.stdout = sys.stderr
while True:
    h = inp.read(8)
    if len(h) < 8:
        break
    job = inp.read(struct.unpack("<q", h)[0])
    try:
        r = []
        o, reqs = cloudpickle.loads(job)
        for name, a, k in reqs:
            r.append(getattr(o, name)(*a, **k))
        r = (True, r)
    except BaseException as e:
        r = (False, type(e).__name__ + ": " + str(e))
    r = cloudpickle.dumps(r)
    out.write(struct.pack("<q", len(r)) + r)
    out.flush()
"""


def elsewhere(blob):
    """(ok, results) of the requests in another, freshly started process"""
    global _CHILD
    import struct
    if _CHILD is None or _CHILD[0] != os.getpid():
        env = dict(os.environ, PYTHONHASHSEED="12345")
        code = SERVER
        if "pykrige.lib.cok" in sys.modules:      # the extension built from the current tree
            d = os.path.dirname(sys.modules["pykrige.lib.cok"].__file__)
            code = "import pykrige.lib\npykrige.lib.__path__.insert(0, %r)\n" % d + code
        _CHILD = os.getpid(), subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                               stderr=subprocess.DEVNULL, env=env, cwd="/")
    p = _CHILD[1]
    p.stdin.write(struct.pack("<q", len(blob)) + blob)
    p.stdin.flush()
    h = p.stdout.read(8)
    if len(h) < 8:
        raise RuntimeError("the other process died")
    return pickle.loads(p.stdout.read(struct.unpack("<q", h)[0]))


def copies(ctx, o, plain):
    """(how, copy) pairs; plain: no part of the object needs cloudpickle"""
    import io
    import cloudpickle
    import joblib
    hows = ["deepcopy", "cloudpickle"] + (["pickle", "pickle", "joblib"] if plain else [])
    for how in {ctx.pick(*hows) for _ in range(2)}:
        ctx.cover(how)
        if how == "deepcopy":
            yield how, ctx.call("copy.deepcopy", copy.deepcopy, o)
        elif how == "pickle":
            pr = ctx.i(2, pickle.HIGHEST_PROTOCOL)
            b = ctx.call(f"pickle.dumps(protocol={pr})", pickle.dumps, o, pr)
            yield how, ctx.call("pickle.loads", pickle.loads, b)
        elif how == "joblib":
            f = io.BytesIO()
            ctx.call("joblib.dump", joblib.dump, o, f)
            f.seek(0)
            yield how, ctx.call("joblib.load", joblib.load, f)
        else:
            b = ctx.call("cloudpickle.dumps", cloudpickle.dumps, o)
            yield how, ctx.call("cloudpickle.loads", cloudpickle.loads, b)


def agree(ctx, what, got, want, key):
    ctx.require(type(got) is type(want) or np.shape(got) == np.shape(want), f"{what}: {type(got).__name__}", key=key)
    if isinstance(want, tuple):
        ctx.require(len(got) == len(want), f"{what}: {len(got)} results", key=key)
        for g, w in zip(got, want):
            ctx.require(identical(g, w), f"{what} differs", key=key, got=g, want=w)
    elif np.asarray(want).dtype.kind == "f":
        ctx.require(identical(got, want), f"{what} differs", key=key, got=got, want=want)
    else:
        ctx.require(np.array_equal(got, want), f"{what} differs", key=key, got=got, want=want)


def answers(ctx, o, reqs, what):
    out = []
    for name, a, k in reqs:
        out.append(ctx.call(what + " " + name, getattr(o, name), *copy.deepcopy(a), **copy.deepcopy(k)))
    return out


def kriging(ctx):
    s = gen.scenario(ctx, n=(3, 24), pinv=0.1)
    kw = s.kwargs()
    plain = "functional" not in s.drift.terms
    if s.vario.fn is not None:
        ctx.cover("custom")
    if ctx.chance(0.12) and not s.geo:
        import gstools as gs
        kw["variogram_model"] = gs.Exponential(dim=s.dim, var=float(np.var(s.z)), len_scale=s.ext * 0.3, nugget=0.1 * float(np.var(s.z)))
        for k in [k for k in kw if k.startswith("aniso")] + ["variogram_parameters", "variogram_function"]:
            kw.pop(k, None)
        ctx.cover("gstools")
        s.vario.name = "gstools"
    elif s.vario.fn is None and ctx.chance(0.15):
        kw.pop("variogram_parameters")
        s.autofit = True
    if s.cls == "ok":
        kw["enable_statistics"] = ctx.chance(0.5)
    try:
        o = gen.classes()[s.cls](*s.coords(), s.z, **kw)
    except (np.linalg.LinAlgError, ValueError):
        raise Skip("singular statistics")
    reqs = []
    window = s.cls in ("ok", "ok3") and not s.pinv and ctx.chance(0.3)
    for _ in range(2):
        q = gen.request(ctx, s, large=False)
        k = dict(q.kw, backend=ctx.pick(*[b for b in gen.backends(s, window) if b != "C" or o.variogram_model in gen.C_MODELS]))
        if window:
            k["n_closest_points"] = ctx.i(2, len(s.z))
            ctx.cover("window")
        ctx.cover("backend:" + k["backend"])
        reqs.append(("execute", q.args, k))

    def change(o):
        v = gen.vario(ctx, s.ext, float(np.var(s.z)), nn=s.ext / len(s.z))
        try:
            o.update_variogram_model(**copy.deepcopy(v.kw()))
        except (np.linalg.LinAlgError, ValueError):
            return False
        return True
    return o, reqs, change, plain, state


def estimator(ctx):
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LogisticRegression, Ridge
    kind = ctx.pick("wrapper", "regression", "classification")
    method = ctx.pick("ordinary", "universal", "ordinary3d", "universal3d")
    d = 3 if method.endswith("3d") else 2
    n = ctx.i(8, 25)
    X = gen.layout(ctx, n, d, 10.0)
    P = ctx.rng.normal(size=(n, 2))
    y = ctx.rng.normal(size=n) + P[:, 0]
    k = dict(method=method, variogram_model="exponential", variogram_parameters=[2.0, ctx.u(2, 8), ctx.pick(0.0, 0.5)],
             n_closest_points=ctx.i(2, 12))
    if method == "universal" and ctx.chance(0.5):
        k["drift_terms"] = ["regional_linear"]
    ctx.cover(kind)
    Q, PQ = X.min(0) + np.ptp(X, axis=0) * ctx.rng.random((6, d)), ctx.rng.normal(size=(6, 2))
    if kind == "wrapper":
        o = Krige(**k)
        fit = lambda o, y: o.fit(X.copy(), y)
        reqs = [("predict", (Q,), {}), ("score", (Q, ctx.rng.normal(size=6)), {})]
    else:
        if kind == "classification":
            y = np.array(["a", "b", "c"])[ctx.rng.permutation(np.arange(n) % 3)]
            o = ClassificationKriging(LogisticRegression(), **k)
        else:
            o = RegressionKriging(Ridge(), **k)
        fit = lambda o, y: o.fit(P.copy(), X.copy(), y)
        reqs = [("predict", (PQ, Q), {}), ("krige_residual", (Q,), {})]
    ctx.mark(X, y)
    ctx.note(kind=kind, method=method, n=n, params=k["variogram_parameters"])
    ctx.events += 1
    try:
        fit(o, y)
    except np.linalg.LinAlgError:
        raise Skip("singular")

    def change(o):
        try:
            fit(o, y[::-1].copy())
        except np.linalg.LinAlgError:
            return False
        return True
    return o, reqs, change, True, lambda o: None


def case(ctx):
    o, reqs, change, plain, state = (estimator if ctx.chance(0.2) else kriging)(ctx)
    if ctx.chance(0.3) and change(o):
        ctx.cover("updated-before")
        bad = [k for _, _, k in reqs if k.get("backend") == "C"]
        if bad and o.variogram_model not in gen.C_MODELS:
            for k in bad:
                k["backend"] = "loop"
    if ctx.chance(0.5):      # whatever the object remembers of earlier requests is copied with it
        try:
            answers(ctx, o, reqs, "object")
        except Violation as e:
            if "LinAlgError" in e.msg:
                raise Skip("singular")
            raise
        ctx.cover("used-before")
    st = state(o)
    made = list(copies(ctx, o, plain))
    try:
        want = answers(ctx, o, reqs, "object")
    except Violation as e:
        if "LinAlgError" in e.msg:
            raise Skip("singular")
        raise
    for how, c in made:
        ctx.require(type(c) is type(o) and c is not o, f"{how}: a {type(c).__name__}", key="type")
        ctx.require(state(c) == st, f"{how}: attributes of the copy differ", key="attributes")
        for g, w in zip(answers(ctx, c, reqs, how), want):
            agree(ctx, f"{how}: result of the copy", g, w, how)
    if ctx.chance(0.3):
        import cloudpickle
        ok, got = elsewhere(cloudpickle.dumps((o, reqs)))
        ctx.events += 1
        ctx.require(ok, f"in another process: {got}", key="process")
        for g, w in zip(got, want):
            agree(ctx, "result in another process", g, w, "process")
        ctx.cover("other-process")
    how, c = made[0]
    if ctx.chance(0.3):
        how, c2 = next(copies(ctx, c, plain))
        for g, w in zip(answers(ctx, c2, reqs, "copy of a copy"), want):
            agree(ctx, "result of a copy of a copy", g, w, "copy")
        ctx.cover("copy-of-copy")
    t = ctx.rng.random()
    if t < 0.3:
        if change(c):
            for g, w in zip(answers(ctx, o, reqs, "original"), want):
                agree(ctx, f"result of the original after the {how} copy was changed", g, w, "shared")
            ctx.require(state(o) == st, "attributes of the original changed with the copy", key="shared")
            ctx.cover("update-copy")
    elif t < 0.6:
        if change(o):
            for g, w in zip(answers(ctx, c, reqs, how), want):
                agree(ctx, f"result of the {how} copy after the original was changed", g, w, "shared")
            ctx.require(state(c) == st, "attributes of the copy changed with the original", key="shared")
            ctx.cover("update-original")
    elif t < 0.8:
        for v in vars(c).values():      # everything numeric in the copy becomes garbage
            if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
                v[...] = 12.5
        for g, w in zip(answers(ctx, o, reqs, "original"), want):
            agree(ctx, f"result of the original after the arrays of its {how} copy were overwritten", g, w, "shared")
        ctx.cover("damaged-copy")
    else:
        del o
        import gc
        gc.collect()
        for g, w in zip(answers(ctx, c, reqs, how), want):
            agree(ctx, f"result of the {how} copy without the original", g, w, "shared")
        ctx.cover("original-gone")
