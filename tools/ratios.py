"""tools/ratios.py PROP SEED [N] - the cases whose results came closest to their tolerance"""
import sys, importlib, warnings, os, io, contextlib
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/repo/src"]
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
from concurrent.futures import ProcessPoolExecutor
from vf import main, build
def go(a):
    prop, seed, idx = a
    mod = importlib.import_module("vf.props." + prop)
    ctx = main.Ctx(prop, seed, "quick", idx)
    orig = ctx.close
    best = [0, ""]
    def close(what, *aa, **k):
        m, ctx.maxratio = ctx.maxratio, 0
        try:
            return orig(what, *aa, **k)
        finally:
            if ctx.maxratio > best[0]:
                best[:] = [ctx.maxratio, what]
            ctx.maxratio = max(m, ctx.maxratio)
    ctx.close = close
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.case(ctx)
    except (main.Skip, main.Violation) as e:
        pass
    return best[0], idx, best[1], {k: v for k, v in ctx.desc.items() if k in ("cls", "n", "model", "geo", "pinv", "drift", "exact")}
if __name__ == "__main__":
    prop, seed = sys.argv[1], int(sys.argv[2])
    mod = importlib.import_module("vf.props." + prop)
    n = int(sys.argv[3]) if len(sys.argv) > 3 else mod.CASES["quick"]
    with ProcessPoolExecutor(8) as ex:
        r = sorted(ex.map(go, [(prop, seed, i) for i in range(n)], chunksize=20), key=lambda t: -t[0])
    for t in r[:8]:
        print(*t)
