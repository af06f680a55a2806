"""Mutation experiment: random small source mutants of the package that still pass the existing tests, run against the checks
that belong to the file until one reports it. Prints the mutants no check reports (to be read by hand: equivalent, outside
every property, or a gap).   usage: mutate.py OUT.jsonl [--n 300] [--seed 1] [--files ok.py,uk.py] [-j 6] [-k 2]"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--n", type=int, default=300)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files", default="")
ap.add_argument("--hand", default=None, help="indices a:b, or all")
ap.add_argument("-j", type=int, default=6)
ap.add_argument("-k", type=int, default=2)
a = ap.parse_args()
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", SETUPTOOLS_SCM_PRETEND_VERSION="1.7.3")
CHECKS = {
    "core.py": "C16 C10 C09 C11 C08 C12 C01 C25 C24 C13 C28 C26 C03 C32 C37 C38 C36 C39 C40 C41 C42",
    "ok.py": "C01 C05 C13 C24 C03 C04 C06 C14 C16 C09 C10 C11 C12 C28 C17 C15 C25 C29 C32 C37 C38 C36 C39 C40 C41 C42",
    "uk.py": "C02 C26 C13 C24 C05 C03 C04 C07 C14 C10 C16 C28 C29 C12 C15 C17 C25 C32 C37 C38 C36 C39 C40 C41 C42",
    "ok3d.py": "C01 C05 C13 C24 C03 C06 C14 C08 C16 C10 C28 C29 C12 C15 C25 C32 C37 C38 C36 C39 C40 C41 C42",
    "uk3d.py": "C02 C13 C24 C05 C03 C06 C07 C14 C16 C10 C28 C29 C12 C15 C25 C32 C37 C38 C36 C39 C40 C41 C42",
    "rk.py": "C22 C21 C24 C33", "ck.py": "C23 C24", "compat.py": "C21 C22 C24 C23 C33", "compat_gstools.py": "C28 C24",
    "kriging_tools.py": "C18 C19 C20 C37 C38 C34 C39 C40 C41 C42", "variogram_models.py": "C12 C01 C10 C11",
    "lib/cok.pyx": "C04 C05 C06 C17 C03 C25 C01", "lib/variogram_models.pyx": "C12 C04 C17",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
        ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


def mutants(path, text):
    tree = ast.parse(text)
    lines = text.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = text.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, kind):
        s, e = span(n)
        out.append((n.lineno, kind, s, e, new))

    def src(n):
        s, e = span(n)
        return raw[s:e].decode()
    skip = set()
    for n in ast.walk(tree):
        # not semantics: docstrings, messages, plots
        if isinstance(n, ast.FunctionDef) and re.search(r"__str__|__repr__", n.name):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            for c in ast.iter_child_nodes(n):
                skip.update(ast.walk(c))
        if isinstance(n, ast.Call) and "warn" in ast.unparse(n.func):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            add(n, f"({src(n.left)} {SWAP[type(n.ops[0])]} {src(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(n.right, ast.Constant) & isinstance(getattr(n.right, "value", 0), str):
            add(n, f"({src(n.left)} {BIN[type(n.op)]} {src(n.right)})", "bin")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(n, f"({src(n.operand)})", "unary")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + w.join("(" + src(v) + ")" for v in n.values) + ")", "bool")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const")
            else:
                add(n, repr(n.value + 1), "const")
                if n.value:
                    add(n, "0", "const")
                if isinstance(n.value, float):
                    add(n, repr(n.value * 1.01), "const")
        elif isinstance(n, (ast.If, ast.While)) and not re.search("verbose|plotting", src(n.test)):
            add(n.test, "True", "iftrue")
            add(n.test, "False", "iffalse")
        elif isinstance(n, (ast.Raise, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) \
                and "print" not in src(n):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Call):
            f = src(n.func)
            if f.endswith(".copy") and not n.args:
                add(n, src(n.func.value), "nocopy")
            if f in ("np.array", "np.atleast_1d", "copy.deepcopy", "float", "np.squeeze", "np.absolute", "np.abs") and n.args:
                add(n, "(" + src(n.args[0]) + ")", "unwrap")
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                p, q = random.sample(range(len(n.args)), 2)
                args = [src(x) for x in n.args]
                args[p], args[q] = args[q], args[p]
                add(n, f + "(" + ", ".join(args + [src_kw(k, src) for k in n.keywords]) + ")", "swap")
            for k in n.keywords:
                rest = [src(x) for x in n.args] + [src_kw(q, src) for q in n.keywords if q is not k]
                add(n, f + "(" + ", ".join(rest) + ")", "dropkw")
    return out


def src_kw(k, src):
    return (k.arg + "=" if k.arg else "**") + src(k.value)


def pyx_mutants(path, text):
    out, pos = [], 0
    for no, ln in enumerate(text.split("\n"), 1):
        b = pos
        pos += len(ln.encode()) + 1
        if ln.strip().startswith(("#", "import", "cimport", "from", '"""')):
            continue
        for m in re.finditer(r"(<=|>=|==|!=|<|>)(?= )| ([-+*/]) |\b(\d+\.?\d*)\b|\b(True|False)\b|\b(nrhs|n|k|i|j|m)\b(?=[\],)])", ln):
            g = m.group()
            if g.strip() in "<= < >= > == !=".split():
                new = {"<=": "<", "<": "<=", ">=": ">", ">": ">=", "==": "!=", "!=": "=="}[g]
            elif m.group(2):
                new = " " + {"+": "-", "-": "+", "*": "/", "/": "*"}[m.group(2)] + " "
            elif m.group(3):
                new = str(float(g) + 1) if "." in g else str(int(g) + 1)
            elif m.group(4):
                new = {"True": "False", "False": "True"}[g]
            else:
                continue
            out.append((no, "pyx", b + len(ln[:m.start()].encode()), b + len(ln[:m.end()].encode()), new))
    return out


rnd = random.Random(a.seed)
random.seed(a.seed)
pool = []
for f in (a.files.split(",") if a.files else CHECKS):
    p = f"/repo/src/pykrige/{f}"
    raw = open(p, "rb").read()
    text = raw.decode()
    t2 = text.replace("\r\n", "\n")
    for m in (pyx_mutants if f.endswith("pyx") else mutants)(p, t2):
        pool.append((f, "\r\n" in text, t2) + m)
rnd.shuffle(pool)
pool = pool[:a.n]
if a.hand:
    sys.path.insert(0, ROOT + "/tools")
    import hand
    pool = []
    sel = hand.H if a.hand == "all" else [hand.H[int(q)] for q in a.hand.split(",")] if "," in a.hand else hand.H[slice(*[int(q) if q else None for q in a.hand.split(":")])]
    for prop, f, edits, note in sel:
        t = open(f"/repo/src/pykrige/{f}", newline="").read()
        t2 = t.replace("\r\n", "\n")
        m2 = t2
        for o, n in edits:
            if o not in m2:
                print("no match", prop, f, repr(o[:60]))
            m2 = m2.replace(o, n, 1)
        line = next((i for i, (p, q) in enumerate(zip(t2.split("\n"), m2.split("\n")), 1) if p != q), 0)
        pool.append((f, "\r\n" in t, t2, line, "hand", m2, prop, note))
print(len(pool), "mutants", flush=True)
gate = threading.Semaphore(a.k)
lock = threading.Lock()
done = {"killed": 0, "caught": 0, "survived": 0, "invalid": 0}
log = open(a.out, "a")


def one(item):
    f, crlf, text, line, kind, s, e, new = item
    raw = text.encode()
    checks = CHECKS[f].split()
    if kind == "hand":
        mut, checks, s, e = s, [e], 0, 0
    else:
        mut = (raw[:s] + new.encode() + raw[e:]).decode()
    if f.endswith(".py"):
        try:
            if ast.dump(ast.parse(mut)) == ast.dump(ast.parse(text)):
                return "invalid", {}
        except SyntaxError:
            return "invalid", {}
    rec = dict(file=f, line=line, kind=kind, old=raw[s:e].decode()[:200], new=new[:200], src=text.split("\n")[line - 1].strip())
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        p = f"{w}/repo/src/pykrige/{f}"
        open(p, "w", newline="").write(mut.replace("\n", "\r\n") if crlf else mut)
        tree = w + "/repo"
        env = dict(ENV, PYTHONPATH=tree + "/src")
        if f.endswith("pyx"):
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace"], cwd=tree, env=ENV, capture_output=True)
            if r.returncode:
                return "invalid", rec
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=tree, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        except subprocess.TimeoutExpired:
            return "killed", rec
        if r.returncode:
            return "killed", rec
        with gate:
            subprocess.run(["cp", "-a", ROOT, w + "/verif"], check=True)
            rec["rc"] = {}
            for c in checks:
                cmd = (f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && "
                       f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {c}")
                r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True, errors="replace")
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    rec["by"] = c
                    return "caught", rec
                if r.returncode:
                    rec["rc"][c] = (r.returncode, (r.stdout[-600:] + r.stderr[-300:]))
        return "survived", rec
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run(item):
    try:
        st, rec = one(item)
    except Exception as ex:
        st, rec = "invalid", dict(error=repr(ex))
    with lock:
        done[st] += 1
        if st in ("caught", "survived") or item[4] == "hand":
            rec["status"] = st
            log.write(json.dumps(rec) + "\n")
            log.flush()
        if item[4] == "hand" and st != "survived":
            print(st, item[6], f"{item[0]}:{item[3]}", item[7], flush=True)
        if st == "survived":
            print(*([item[6]] if item[4] == "hand" else []), "SURVIVED", rec["file"], rec["line"], rec["kind"], "|", rec["old"][:90].replace("\n", " "), "->", rec["new"][:90].replace("\n", " "),
                  "|", list(rec.get("rc", {})), flush=True)


with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(run, pool))
print(done)
