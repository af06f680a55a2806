"""Runs checks against the planted bugs, each in a mount namespace of its own that shows a patched copy as /repo and a copy of
/verif as /verif.   usage: catch.py [-j N] [--checks "C01 C02"|all|own] [--seed S] [--patch FILE ...] [BUG ...]
Prints for each bug which checks reported it. With --patch: any patch files instead of planted bugs."""
import argparse, json, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--checks", default="own")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("--patch", nargs="*", default=[])
ap.add_argument("bugs", nargs="*")
a = ap.parse_args()
ALL = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]] if a.checks == "all" else []


def one(item):
    name, patch, prop = item
    w = tempfile.mkdtemp(prefix="catch-")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        subprocess.run(["cp", "-a", ROOT, w + "/verif"], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w + "/repo", check=True)
        r = subprocess.run(["git", "apply", patch], cwd=w + "/repo", capture_output=True, text=True)
        if r.returncode:
            return name, {"apply": (9, r.stderr)}
        checks = [prop] if a.checks == "own" else ALL if a.checks == "all" else a.checks.split()
        out = {}
        for c in checks:
            t = time.time()
            cmd = (f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && "
                   f"VERIF_SEED={a.seed} VERIF_TIER={a.tier} timeout 1500 ./run.sh {c}")
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True, errors="replace")
            lines = r.stdout.strip().splitlines()
            out[c] = (r.returncode, round(time.time() - t), (lines[-2:-1] or lines or [r.stderr[-300:]])[0][:220])
        return name, out
    finally:
        shutil.rmtree(w, ignore_errors=True)


items = []
if a.patch:
    items = [(os.path.basename(p), os.path.abspath(p), None) for p in a.patch]
else:
    for n in sorted(os.listdir(ROOT + "/seeded")):
        if a.bugs and n not in a.bugs:
            continue
        m = json.load(open(f"{ROOT}/seeded/{n}/meta.json"))
        items.append((n, f"{ROOT}/seeded/{n}/patch.diff", m["property"]))
with ThreadPoolExecutor(a.j) as ex:
    for n, out in ex.map(one, items):
        for c, r in out.items():
            print(n, c, {0: "QUIET", 1: "caught"}.get(r[0], "exit %d" % r[0]), *r[1:], flush=True)
