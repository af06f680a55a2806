import random
import sys
import threading
import time

import numpy as np
from vf import gen
from vf.main import Skip

RULE = ("2 to 5 threads run requests of all classes, styles and backends on shared and separate objects. In "
        "'scheduled' cases a trace hook on every line of pykrige hands control from thread to thread at random points (the "
        "interleavings are recorded and counted); in 'free' cases the interpreter switches every microsecond; in "
        "'re-entrant' cases user variogram and drift functions issue further requests on the same or another object, "
        "also from several threads. Every result has to be the one of the request run alone.")
CASES = {"quick": 700, "thorough": 9000}
REQUIRED = ["mode:scheduled", "mode:free", "mode:reenter", "cls:ok", "cls:uk", "cls:ok3", "cls:uk3", "backend:C",
            "backend:loop", "backend:vectorized", "shared-object", "separate-objects", "switches", "overlaps",
            "nested-same", "nested-other", "nested-in-variogram", "nested-in-drift", "window", "regression", "geographic",
            "interleavings-distinct", "constructed-meanwhile"]
ASSUMPTIONS = ["switches happen between lines (scheduled), bytecodes (free) or in callbacks; extension code runs "
               "under the interpreter lock"]
CASE_LIMIT = 200


# ------------------------------------------------------------------ scheduler
class Sched:
    """hands one token around; a thread that waits too long goes on without it (locks are legitimate)"""

    def __init__(self, seed, n, p):
        self.rng = random.Random(seed)
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.cur = 0
        self.p = p
        self.log = []
        self.switches = self.overlaps = 0
        self.inside = [0] * n

    def point(self, tid, frame):
        with self.cond:
            if tid == self.cur and self.rng.random() >= self.p:
                return
            if tid == self.cur and len(self.alive) > 1:
                new = self.rng.choice(self.alive)
                if new != tid:
                    self.switches += 1
                    self.overlaps += sum(self.inside) > 1
                    self.log.append((tid, new, frame.f_code.co_name, frame.f_lineno))
                    self.cur = new
                    self.cond.notify_all()
            t0 = time.time()
            while self.cur != tid and tid in self.alive:
                if self.cur not in self.alive:
                    self.cur = tid
                    break
                self.cond.wait(0.02)
                if time.time() - t0 > 0.25:
                    return

    def done(self, tid):
        with self.cond:
            self.alive.remove(tid)
            if self.alive and self.cur == tid:
                self.cur = self.rng.choice(self.alive)
            self.cond.notify_all()

    def tracer(self, tid):
        def local(frame, event, arg):
            if event == "line":
                self.point(tid, frame)
            return local

        def glob(frame, event, arg):
            if "/repo/src/pykrige/" in frame.f_code.co_filename:
                return local
            return None
        return glob


# ------------------------------------------------------------------ jobs
class Job:
    """one request with the answer it gives alone"""

    def __init__(self, obj, q, kw, s, want=None, tol=None):
        self.obj, self.q, self.kw, self.s = obj, q, kw, s
        self.label = f"{type(obj).__name__}.execute({q.style}, {kw})"
        self.solo = self.run()

    def run(self):
        k = dict(self.q.kw)
        k.update(self.kw)
        r = self.obj.execute(*self.q.args, **k)
        return [np.ma.copy(a) if isinstance(a, np.ma.MaskedArray) else np.array(a) for a in r]

    def differs(self, r):
        for a, b, what in zip(r, self.solo, ("estimates", "variances")):
            if np.shape(a) != np.shape(b):
                return f"{what}: shape {np.shape(a)} instead of {np.shape(b)}"
            if type(a) is not type(b) or not np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)):
                return f"{what}: other mask or type"
            x, y = self.q.flat(a)[self.q.valid], self.q.flat(b)[self.q.valid]
            fin = np.isfinite(y)
            if not np.array_equal(np.isfinite(x), fin):
                return f"{what}: finite where the request alone is not, or the other way round"
            sc = np.abs(y[fin]).max() if fin.any() else 0
            d = np.abs(x[fin] - y[fin]).max() if fin.any() else 0
            # the same code on the same numbers: at most summation order may differ
            if not d <= 1e-9 * sc + 1e-300:
                return f"{what} differ by {d:.3g} (scale {sc:.3g})"
        return None


def requests(ctx, s, obj, k):
    out = []
    for _ in range(k):
        q = gen.request(ctx, s, convert=False, m=ctx.i(1, 12))
        for b in ctx.rng.permutation(list(gen.backends(s)))[:2]:
            out.append((obj, q, {"backend": str(b)}, s))
            ctx.cover("backend:" + str(b))
        if s.cls in ("ok", "ok3") and len(s.z) > 2 and not s.pinv:
            b = str(ctx.rng.choice(list(gen.backends(s, True))))
            out.append((obj, q, {"backend": b, "n_closest_points": ctx.i(2, len(s.z))}, s))
            ctx.cover("window")
    jobs = []
    for a in out:
        try:
            jobs.append(Job(*a))
        except (ValueError, np.linalg.LinAlgError) as e:
            if "ingular" not in str(e):
                raise
        ctx.events += 1
    return jobs


def case(ctx):
    mode = ctx.pick("scheduled", "scheduled", "free", "reenter", "reenter")
    ctx.cover("mode:" + mode)
    if mode == "reenter":
        return reenter(ctx)
    nobj = ctx.i(1, 3)
    jobs = []
    for _ in range(nobj):
        s = gen.scenario(ctx, n=(3, 22), pinv=0.1)
        kw = {}
        obj = s.build(ctx)
        jobs += requests(ctx, s, obj, 2)
    if mode == "free" and ctx.chance(0.5):
        jobs += regression(ctx)
    if not jobs:
        raise Skip("singular")
    nt = ctx.i(2, 5)
    plan = [[jobs[ctx.i(0, len(jobs) - 1)] for _ in range(2 if mode == "scheduled" else 12)] for _ in range(nt)]
    if any(a.obj is b.obj for i, p in enumerate(plan) for a in p for r in plan[i + 1:] for b in r):
        ctx.cover("shared-object")
    if nobj > 1:
        ctx.cover("separate-objects")
    sched = Sched(ctx.i(0, 2 ** 31), nt, ctx.pick(0.02, 0.1, 0.3)) if mode == "scheduled" else None
    build = None
    if mode == "free" and ctx.chance(0.4):
        build = gen.scenario(ctx, n=(3, 15), pinv=0.1)
        bkw = build.kwargs()
        ctx.cover("constructed-meanwhile")
    errs = []
    gate = threading.Barrier(nt)

    def work(tid):
        try:
            gate.wait(30)
            if sched:
                sys.settrace(sched.tracer(tid))
            for j in plan[tid]:
                if sched:
                    sched.inside[tid] = 1
                r = j.run()
                if sched:
                    sched.inside[tid] = 0
                d = j.differs(r)
                if d:
                    errs.append(f"{j.label} in thread {tid}: {d}")
                if build and tid == 0:
                    gen.classes()[build.cls](*build.coords(), build.z, **bkw)
        except Exception as e:
            errs.append(f"thread {tid}: {type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            if sched:
                sched.done(tid)
    old = sys.getswitchinterval()
    if mode == "free":
        sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nt)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(150)
    finally:
        sys.setswitchinterval(old)
    ctx.require(not any(t.is_alive() for t in ts), "threads do not finish: deadlock", key="deadlock")
    n = sum(map(len, plan))
    ctx.events += n
    ctx.checks += n
    ctx.cover("concurrent-requests", n=n)
    if sched:
        ctx.cover("switches", n=sched.switches)
        ctx.cover("overlaps", n=sched.overlaps)
        ctx.cover("interleavings-distinct", n=int(sched.switches > 0))
        ctx.mark(tuple(sched.log))
        ctx.note(switches=sched.switches, first_switches=sched.log[:10])
    ctx.require(not errs, "a concurrent request gave another result than alone: " + (errs[0] if errs else ""),
                key="concurrent", all=errs[:10])


class EstJob:
    def __init__(self, est, p, x):
        self.est, self.p, self.x, self.obj = est, p, x, est
        self.label = "RegressionKriging.predict"
        self.solo = self.run()

    def run(self):
        return np.array(self.est.predict(self.p, self.x))

    def differs(self, r):
        if r.shape != self.solo.shape or not np.allclose(r, self.solo, rtol=1e-9, atol=1e-12):
            return "predictions differ"
        return None


def regression(ctx):
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LinearRegression
    n, r = ctx.i(8, 20), ctx.rng
    d = ctx.pick(2, 3)
    est = RegressionKriging(regression_model=LinearRegression(), method="ordinary" if d == 2 else "ordinary3d",
                            variogram_model="exponential", variogram_parameters=[1.0, 2.0, 0.1],
                            n_closest_points=ctx.i(3, 6))
    X, p = r.random((n, d)) * 5, r.normal(size=(n, 2))
    est.fit(p, X, r.normal(size=n) + p[:, 0])
    ctx.cover("regression")
    return [EstJob(est, r.normal(size=(5, 2)), r.random((5, d)) * 5) for _ in range(2)]


# ------------------------------------------------------------------ callbacks
class Callbacks:
    def __init__(self):
        self.loc = threading.local()
        self.jobs = []
        self.errs = []
        self.on = False
        self.nested = {}

    def __call__(self, where, owner):
        if not self.on or getattr(self.loc, "depth", 0) >= 2:
            return
        k = self.loc.count = getattr(self.loc, "count", 0) + 1
        if k % 3 == 0:
            time.sleep(1e-5)
        if self.loc.budget <= 0 or k % 2:
            return
        self.loc.budget -= 1
        self.loc.depth = getattr(self.loc, "depth", 0) + 1
        try:
            j = self.jobs[self.loc.rng.randrange(len(self.jobs))]
            same = j.obj is owner.get("obj")
            r = j.run()
            for t in ("nested-same" if same else "nested-other", "nested-in-" + where):
                self.nested[t] = self.nested.get(t, 0) + 1
            d = j.differs(r)
            if d:
                self.errs.append(f"nested {j.label} (from a {where} function): {d}")
        finally:
            self.loc.depth -= 1


def reenter(ctx):
    cb = Callbacks()
    nobj = ctx.i(1, 2)
    for _ in range(nobj):
        s = gen.scenario(ctx, n=(3, 18), custom=1.0, geo=None, pinv=0.1)
        own = {}
        fn = s.vario.fn

        def vario(p, h, fn=fn, own=own):
            cb("variogram", own)
            return fn(p, h)
        over = {"variogram_function": vario}
        if "functional" in s.drift.terms:
            over["functional_drift"] = [(lambda *x, f=f, own=own: (cb("drift", own), f(*x))[1])
                                        for f, _ in s.drift.funcs]
        obj = s.build(ctx, **over)
        own["obj"] = obj
        cb.jobs += requests(ctx, s, obj, 2)
    if not cb.jobs:
        raise Skip("singular")
    if nobj > 1:
        ctx.cover("separate-objects")
    nt = ctx.pick(1, 1, 2, 3)
    gate = threading.Barrier(nt)
    cb.on = True
    seeds = [ctx.i(0, 2 ** 31) for _ in range(nt)]

    def work(tid):
        cb.loc.rng = random.Random(seeds[tid])
        try:
            gate.wait(30)
            for _ in range(3):
                cb.loc.budget = 6
                j = cb.jobs[cb.loc.rng.randrange(len(cb.jobs))]
                d = j.differs(j.run())
                if d:
                    cb.errs.append(f"{j.label} re-entered: {d}")
        except Exception as e:
            cb.errs.append(f"{type(e).__name__}: {e}")
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nt)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(150)
    ctx.require(not any(t.is_alive() for t in ts), "threads do not finish: deadlock", key="deadlock")
    for k, v in cb.nested.items():
        ctx.cover(k, n=v)
    n = 3 * nt + sum(cb.nested.values()) // 2
    ctx.events += n
    ctx.checks += n
    ctx.require(not cb.errs, "a re-entered request gave another result than alone: " + (cb.errs[0] if cb.errs else ""),
                key="reentrant", all=cb.errs[:10])
