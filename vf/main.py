"""Runner: python -m vf.main Cxx [--replay FILE].

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: inconclusive or an error of the check itself (never folded into the other two).
"""
import hashlib
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback
import warnings
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, key="", **detail):
        super().__init__(msg)
        self.msg, self.key, self.detail = msg, key, detail


class Skip(Exception):
    """The case does not lie in the property's domain (e.g. numerically singular)."""


def jsonable(o, lim=400):
    import numpy as np
    if isinstance(o, np.ma.MaskedArray):
        return {"data": jsonable(o.filled(np.nan)), "mask": np.ma.getmaskarray(o).tolist()}
    if isinstance(o, np.ndarray):
        if o.size > lim:
            return {"shape": list(o.shape), "head": o.ravel()[:lim].astype(float).tolist()
                    if o.dtype.kind in "fiub" else repr(o.ravel()[:20])}
        return o.astype(float).tolist() if o.dtype.kind == "f" else o.tolist()
    if isinstance(o, np.generic):
        return jsonable(o.item()) if not isinstance(o.item(), np.generic) else float(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return repr(o)[:300]


class Ctx:
    def __init__(self, prop, seed, tier, idx):
        import numpy as np
        self.np = np
        self.prop, self.seed, self.tier, self.idx = prop, seed, tier, idx
        self.rng = np.random.Generator(np.random.PCG64(np.random.SeedSequence(
            [seed & 0xFFFFFFFF, zlib.crc32(prop.encode()), idx])))
        self.cov = {}
        self.desc = {}
        self.events = 0      # API calls observed
        self.checks = 0      # oracle comparisons made
        self.maxratio = 0.0
        self.fp = hashlib.sha256()

    # --- choices
    def pick(self, *opts):
        return opts[int(self.rng.integers(len(opts)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def u(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def lu(self, lo, hi):
        import math
        return float(math.exp(self.rng.uniform(math.log(lo), math.log(hi))))

    def i(self, lo, hi):
        """integer in [lo, hi]"""
        return int(self.rng.integers(lo, hi + 1))

    # --- observation
    def cover(self, *keys, n=1):
        for k in keys:
            self.cov[k] = self.cov.get(k, 0) + n

    def mark(self, *objs):
        """adds to the case's fingerprint (what makes it distinct)"""
        for o in objs:
            self.fp.update(o.tobytes() if isinstance(o, self.np.ndarray) and o.dtype != object
                           else repr(o).encode())

    def note(self, **kw):
        self.desc.update(kw)

    def call(self, what, fn, *a, **k):
        self.events += 1
        try:
            return fn(*a, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            tb = traceback.format_exc().splitlines()[-6:]
            raise Violation(f"{what}: raised {type(e).__name__}: {e}", key="raises", traceback=tb)

    def raises(self, what, fn, *a, exc=Exception, **k):
        """the call has to raise; returns the exception"""
        self.events += 1
        self.checks += 1
        try:
            r = fn(*a, **k)
        except (Violation, Skip):
            raise
        except exc as e:
            return e
        raise Violation(f"{what}: accepted instead of rejected", key="accepted", result=r)

    def fail(self, msg, key="", **detail):
        raise Violation(msg, key=key, **detail)

    def require(self, cond, msg, key="", **detail):
        self.checks += 1
        if not cond:
            raise Violation(msg, key=key, **detail)

    def close(self, what, got, want, tol, key="value", where=None):
        """|got - want| <= tol elementwise (where: boolean array of positions that count)"""
        np = self.np
        got = np.asarray(np.ma.getdata(got))
        want = np.asarray(want)
        self.checks += 1
        if got.shape != want.shape:
            raise Violation(f"{what}: shape {got.shape}, expected {want.shape}", key="shape",
                            got=got, want=want)
        if got.dtype.kind not in "fiub":
            raise Violation(f"{what}: dtype {got.dtype}", key="dtype")
        tol = np.broadcast_to(np.asarray(tol, float), got.shape)
        where = np.ones(got.shape, bool) if where is None else np.broadcast_to(where, got.shape)
        if not where.any():
            return 0
        g = got[where].astype(np.longdouble)
        w = want[where].astype(np.longdouble)
        t = tol[where]
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            err[g == w] = 0
            bad = ~(err <= t)
            r = np.where(t > 0, err / np.where(t > 0, t, 1), 0).astype(float)
        if bad.any():
            j = np.flatnonzero(bad)[0]
            raise Violation(
                f"{what}: got {float(g[j])!r}, expected {float(w[j])!r} (tolerance {t[j]:.3g}, "
                f"{int(bad.sum())} of {bad.size} wrong)", key=key,
                got=got, want=want.astype(float), tol=tol, first_bad=int(j))
        self.maxratio = max(self.maxratio, float(r.max()))
        return int(where.sum())


def run_case(mod, prop, seed, tier, idx):
    ctx = Ctx(prop, seed, tier, idx)
    res = {"i": idx, "status": "ok"}
    t0 = time.time()
    try:
        mod.case(ctx)
        if ctx.checks == 0:
            res["status"] = "skip"
    except Skip as e:
        res["status"] = "skip"
        ctx.cover("skip:" + (str(e) or "?"))
        if ctx.checks:
            res["status"] = "ok"
    except Violation as v:
        res["status"] = "violation"
        res["msg"], res["key"] = v.msg, v.key
        res["detail"] = jsonable(v.detail)
    except TimeoutError as e:
        res["status"] = "timeout"
        res["msg"] = str(e)
    except Exception:
        res["status"] = "error"
        res["msg"] = traceback.format_exc()[-3000:]
    ctx.mark(sorted(ctx.desc.items(), key=str))
    res.update(cov=ctx.cov, events=ctx.events, checks=ctx.checks, ratio=ctx.maxratio,
               fp=ctx.fp.hexdigest()[:16], dt=time.time() - t0)
    if res["status"] in ("violation", "error") or idx < 3:
        res["desc"] = jsonable(ctx.desc)
    return res


def worker(mod, prop, seed, tier, todo, wfd, case_limit):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = os.fdopen(wfd, "w")

    def on_alarm(*_):
        raise TimeoutError(f"case ran longer than {case_limit} s")
    signal.signal(signal.SIGALRM, on_alarm)
    for i in todo:
        out.write(json.dumps({"start": i}) + "\n")
        out.flush()
        signal.alarm(case_limit)
        r = run_case(mod, prop, seed, tier, i)
        signal.alarm(0)
        out.write(json.dumps(r) + "\n")
        out.flush()
    out.close()


class Pool:
    """Forked workers over a fixed list of cases; survives workers killed by a signal."""

    def __init__(self, mod, prop, seed, tier, nproc, case_limit):
        self.a = (mod, prop, seed, tier)
        self.nproc, self.case_limit = nproc, case_limit
        self.procs = {}

    def spawn(self, todo):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for fd in list(self.procs):
                    os.close(fd)
                os.setpgid(0, 0)
                worker(*self.a, todo, w, self.case_limit)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        self.procs[r] = dict(pid=pid, todo=list(todo), buf=b"", cur=None)

    def kill(self):
        for p in self.procs.values():
            try:
                os.killpg(p["pid"], signal.SIGKILL)
            except OSError:
                try:
                    os.kill(p["pid"], signal.SIGKILL)
                except OSError:
                    pass
        for fd, p in list(self.procs.items()):
            try:
                os.waitpid(p["pid"], 0)
            except OSError:
                pass
            os.close(fd)
        self.procs = {}

    def run(self, cases, deadline, on_result):
        """on_result(res) -> True to stop.  Yields nothing; returns 'done'|'stopped'|'deadline'."""
        k = min(self.nproc, max(1, len(cases)))
        for w in range(k):
            self.spawn(cases[w::k])
        crashed = {}
        try:
            while self.procs:
                left = deadline - time.time()
                if left <= 0:
                    return "deadline"
                rd, _, _ = select.select(list(self.procs), [], [], min(left, 1.0))
                for fd in rd:
                    p = self.procs[fd]
                    data = os.read(fd, 1 << 16)
                    if data:
                        p["buf"] += data
                        *lines, p["buf"] = p["buf"].split(b"\n")
                        for ln in lines:
                            m = json.loads(ln)
                            if "start" in m:
                                p["cur"] = m["start"]
                                continue
                            p["cur"] = None
                            p["todo"].remove(m["i"])
                            if on_result(m):
                                return "stopped"
                        continue
                    os.close(fd)
                    _, st = os.waitpid(p["pid"], 0)
                    del self.procs[fd]
                    if p["todo"]:
                        i = p["cur"] if p["cur"] is not None else p["todo"][0]
                        if os.WIFSIGNALED(st):
                            sig = os.WTERMSIG(st)
                            crashed[i] = crashed.get(i, 0) + 1
                            if len(crashed) == 1 and crashed[i] == 1 and sig != signal.SIGKILL:
                                self.spawn(p["todo"])     # reproduce, i runs first again
                                continue
                            name = signal.Signals(sig).name
                            res = dict(i=i, status="violation" if sig != signal.SIGKILL else "error",
                                       msg=f"the process died with {name} in this case (second death of a worker)",
                                       key="crash", cov={}, events=1, checks=1, ratio=0.0, fp=str(i),
                                       dt=0, detail={}, desc={})
                        else:
                            res = dict(i=i, status="error", msg=f"worker exited with {st}", cov={},
                                       events=0, checks=0, ratio=0.0, fp=str(i), dt=0)
                        if on_result(res):
                            return "stopped"
                        rest = [c for c in p["todo"] if c != i]
                        if rest:
                            self.spawn(rest)
            return "done"
        finally:
            self.kill()


def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("known:"):
                    parts = dict(t.split("=", 1) for t in ln[6:].split()[:2] if "=" in t)
                    if parts.get("property") == prop:
                        out[parts["key"]] = " ".join(ln[6:].split()[2:])
    except FileNotFoundError:
        pass
    return out


def main(argv):
    t0 = time.time()
    prop = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--cases" in argv:
        ncases = int(argv[argv.index("--cases") + 1])
    else:
        ncases = None
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        prop, seed, tier = rp["property"], rp["seed"], rp["tier"]

    warnings.simplefilter("ignore")
    mod = importlib.import_module("vf.props." + prop)
    flavour = getattr(mod, "FLAVOUR", "plain")
    from vf import build
    if getattr(mod, "REEXEC_SANITIZE", False):
        build.reexec_sanitized(argv)
    if flavour:
        build.use(flavour)
    import numpy as np
    np.seterr(all="ignore")
    import pykrige
    assert pykrige.__file__.startswith("/repo/src/"), pykrige.__file__
    if hasattr(mod, "prepare"):
        mod.prepare()
    warnings.simplefilter("ignore")

    case_limit = getattr(mod, "CASE_LIMIT", 120)
    budget = 780 if tier == "quick" else 3600
    n = ncases or mod.CASES[tier]
    cases = list(range(n)) if not replay else [rp["case"]]
    nproc = getattr(mod, "NPROC", min(8, os.cpu_count() or 1))
    known = known_findings(prop)

    tot = dict(cov={}, events=0, checks=0, ok=0, skip=0, ratio=0.0)
    fps, samples, errors, viol, kf = set(), [], [], [], {}
    slow, tight = [], []

    def on_result(m):
        for k, v in m["cov"].items():
            tot["cov"][k] = tot["cov"].get(k, 0) + v
        tot["events"] += m["events"]
        tot["checks"] += m["checks"]
        tot["ratio"] = max(tot["ratio"], m["ratio"])
        slow.append((m["dt"], m["i"]))
        tight.append((m["ratio"], m["i"]))
        st = m["status"]
        if st == "ok":
            tot["ok"] += 1
            fps.add(m["fp"])
        elif st == "skip":
            tot["skip"] += 1
        elif st == "violation":
            if m["key"] in known:
                kf[m["key"]] = kf.get(m["key"], 0) + 1
                tot["ok"] += 1
                return False
            viol.append(m)
            return True
        else:
            errors.append(m)
        if m.get("desc") is not None and len(samples) < 3 and st == "ok":
            samples.append(dict(case=m["i"], **m["desc"]))
        return False

    pool = Pool(mod, prop, seed, tier, nproc, case_limit)
    ended = pool.run(cases, t0 + budget, on_result)

    wall = time.time() - t0
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=tot["ok"] + tot["skip"] + len(viol) + len(errors),
            distinct_nontrivial=len(fps),
            rule=mod.RULE + " Non-trivial: at least one oracle comparison was made in the case; "
                            "distinct: by a hash over the generated inputs.",
            samples=samples or [dict(note="no completed sample")],
            oracle_comparisons=tot["checks"], api_calls_observed=tot["events"],
            skipped=tot["skip"], largest_error_over_tolerance=round(tot["ratio"], 6),
            reached=dict(sorted(tot["cov"].items())), ended=ended),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viol))
    with open(f"{ROOT}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1, allow_nan=True)

    san = os.environ.get("VF_SANITIZED")
    if san and os.path.isdir(san):
        import shutil
        if viol and viol[0]["key"] == "crash":
            for name in sorted(os.listdir(san))[:1]:
                with open(os.path.join(san, name), errors="replace") as f:
                    rep = f.read()
                viol[0]["detail"] = dict(report=rep[:6000])
                line = [ln for ln in rep.splitlines() if "ERROR:" in ln or "runtime error" in ln]
                viol[0]["msg"] = (line[0] if line else "sanitizer report") + "; " + viol[0]["msg"]
        shutil.rmtree(san, ignore_errors=True)
    for k, c in kf.items():
        print(f"KNOWN-FINDING: property={prop} {known[k]} (seen {c} times)")
    if viol:
        v = viol[0]
        os.makedirs(ROOT + "/replays", exist_ok=True)
        path = f"{ROOT}/replays/{prop}-{tier}-s{seed}-{v['i']}.json"
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, case=v["i"], message=v["msg"],
                           key=v["key"], detail=v.get("detail"), scenario=v.get("desc")), f, indent=1)
        print(f"{prop} case {v['i']}: {v['msg']}"[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} {tier} seed={seed}: {tot['ok']} cases held ({len(fps)} distinct), {tot['skip']} outside "
          f"the domain, {tot['checks']} comparisons over {tot['events']} calls, "
          f"max err/tol {tot['ratio']:.3g}, {wall:.1f} s")
    if os.environ.get("VERIF_DEBUG"):
        print(json.dumps(ev["coverage"]["reached"], indent=0))
        print("slowest", sorted(slow, reverse=True)[:5])
        print("tightest", sorted(tight, reverse=True)[:8])
    if errors:
        print(f"INCONCLUSIVE: {len(errors)} cases ended with an error of the check, first: case "
              f"{errors[0]['i']}: {errors[0]['msg']}")
        return 2
    if ended != "done":
        print("INCONCLUSIVE: out of time")
        return 2
    if not replay and not ncases:
        missing = [k for k in getattr(mod, "REQUIRED", ()) if not tot["cov"].get(k)]
        if missing or tot["ok"] < 0.3 * n:
            print("INCONCLUSIVE: the monitors did not observe", missing, "ok", tot["ok"], "of", n)
            return 2
    return 0


if __name__ == "__main__":
    # keep one module object whichever way it is imported
    sys.modules.setdefault("vf.main", sys.modules["__main__"])
    sys.exit(main(sys.argv[1:]))
