"""Makes the planted bugs in /verif/seeded from tools/bugs.py: applies the edits to a scratch copy of /repo, and keeps the
patch if it builds, passes the stable tests, and its demo fails with and passes without it.
usage: plant.py [-j N] [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from bugs import BUGS
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", SETUPTOOLS_SCM_PRETEND_VERSION="1.7.3")


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, errors="replace")


def plant(bug):
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = w + "/repo"
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        sh(["git", "checkout", "-q", "--", "."], tree)
        env = dict(ENV, PYTHONPATH=tree + "/src")
        d = w + "/demo"
        os.mkdir(d)
        demo = bug["demo"]
        for name, text in bug.get("files", {}).items():
            open(f"{d}/{name}", "w").write(text)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with the repository as working directory, after the build\n'
            'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD/src"\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        r = sh(["bash", d + "/demo.sh"], tree, env)
        if r.returncode != 0:
            return bug["id"], "demo fails on the unchanged tree:\n" + r.stdout[-2000:]
        pyx = False
        for f, old, new, *last in bug["edits"]:
            p = f"{tree}/src/pykrige/{f}"
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1 and not (last and old in t):
                return bug["id"], f"edit of {f} matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w", newline="").write(new.join(t.rsplit(old, 1)))
            pyx |= f.endswith((".pyx", ".pxd"))
        patch = subprocess.run(["git", "diff", "--no-color"], cwd=tree, stdout=subprocess.PIPE).stdout
        if pyx:
            r = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], tree)
            if r.returncode:
                return bug["id"], "does not build:\n" + r.stdout[-2000:]
        r = sh(["bash", d + "/demo.sh"], tree, env)
        if r.returncode == 0:
            return bug["id"], "demo passes with the bug:\n" + r.stdout[-2000:]
        out = r.stdout.strip().splitlines()[-1:] or [""]
        if "SyntaxError" in r.stdout or "ImportError" in r.stdout or "NameError" in r.stdout:
            return bug["id"], "demo fails oddly:\n" + r.stdout[-2000:]
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300", "tests", "-rfE"], tree, env)
        if r.returncode:
            return bug["id"], "tests fail:\n" + r.stdout[-1500:]
        dest = f"{ROOT}/seeded/{bug['id']}"
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        open(dest + "/patch.diff", "wb").write(patch)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(dest + "/meta.json", "w"), indent=1)
        return bug["id"], "ok: " + out[0][:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)


a = sys.argv[1:]
j = 6
if a[:1] == ["-j"]:
    j = int(a[1]); a = a[2:]
todo = [b for b in BUGS if not a or b["id"] in a]
with ThreadPoolExecutor(j) as ex:
    for i, r in ex.map(plant, todo):
        print(i, r, flush=True)
