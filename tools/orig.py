"""Lists planted bugs whose patch changes no line of the original repository (root commit)."""
import difflib, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
cache = {}


def kept(f):
    """line numbers of HEAD's version of f that are lines of the root commit"""
    if f not in cache:
        g = lambda r: subprocess.run(["git", "-C", "/repo", "show", f"{r}:{f}"], capture_output=True).stdout.splitlines()
        ok = set()
        for b in difflib.SequenceMatcher(None, g(base), g("HEAD"), autojunk=False).get_matching_blocks():
            ok |= set(range(b.b + 1, b.b + b.size + 1))
        cache[f] = ok
    return cache[f]


for n in sorted(os.listdir(ROOT + "/seeded")):
    o = x = 0
    for ln in open(f"{ROOT}/seeded/{n}/patch.diff", errors="replace", newline="").read().split("\n"):
        if ln.startswith("--- a/"):
            f = ln[6:].strip()
        elif m := re.match(r"@@ -(\d+)", ln):
            k = int(m[1])
        elif ln.startswith("-") and not ln.startswith("---"):
            o, x = (o + 1, x) if k in kept(f) else (o, x + 1)
            k += 1
        elif ln.startswith(" "):
            k += 1
    if not o:
        print(n, "original lines changed:", o, "own:", x)
