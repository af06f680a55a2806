"""Out-of-tree build of /repo's Cython extensions from the current working tree.

Nothing is written in /repo: the C files and shared objects go to /verif/.build/<key>/, where the
key is a hash over every .pyx/.pxd/.pxi of the package, so a changed source is always rebuilt.
Flavours:
  plain     the extension as a user gets it
  bounds    Cython's own bounds checking switched on (index errors become exceptions)
  sanitize  AddressSanitizer + UndefinedBehaviorSanitizer (run under LD_PRELOAD=libasan)
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PKG = REPO + "/src/pykrige"
CFLAGS = {
    "plain": ["-O2"],
    "bounds": ["-O1"],
    "sanitize": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                 "-fno-sanitize-recover=undefined"],
}


def sources():
    out = []
    for pat in ("/**/*.pyx", "/**/*.pxd", "/**/*.pxi"):
        out += glob.glob(PKG + pat, recursive=True)
    return sorted(set(out))


def key(flavour):
    h = hashlib.sha256((sys.version + flavour + repr(CFLAGS[flavour])).encode())
    with open(__file__, "rb") as f:
        h.update(f.read())
    for p in sources():
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return flavour + "-" + h.hexdigest()[:16]


def ensure(flavour="plain"):
    """Returns the directory that stands in for pykrige/lib (the compiled modules only)."""
    base = os.path.join(ROOT, ".build")
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, key(flavour))
    with open(os.path.join(base, flavour + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out + "/ok"):
            return out
        for old in glob.glob(os.path.join(base, flavour + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        work = os.path.join(out, "src")
        shutil.copytree(PKG, os.path.join(work, "pykrige"),
                        ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"))
        if flavour == "bounds":
            for p in glob.glob(work + "/**/*.p[yx][xd]", recursive=True):
                with open(p) as f:
                    s = f.read()
                s = re.sub(r"(boundscheck|wraparound)(\s*[=(]\s*)(False|True)",
                           lambda m: m[1] + m[2] + ("True" if m[1] == "boundscheck" else "False"), s)
                with open(p, "w") as f:
                    f.write(s)
        mods = sorted(glob.glob(work + "/pykrige/lib/*.pyx"))
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        import numpy as np
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + np.get_include()]

        def one(pyx):
            name = os.path.basename(pyx)[:-4]
            c = pyx[:-4] + ".c"
            cmd = [sys.executable, "-m", "cython", "--module-name", "pykrige.lib." + name,
                   "-o", c, pyx]
            if flavour == "bounds":
                cmd[3:3] = ["-X", "boundscheck=True"]
            r = subprocess.run(cmd, cwd=work, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("cython failed: " + r.stderr[-3000:])
            r = subprocess.run(
                ["gcc", "-shared", "-fPIC", "-w", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION",
                 *CFLAGS[flavour], *inc, c, "-o", os.path.join(out, name + suffix), "-lm"],
                cwd=work, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("gcc failed: " + r.stderr[-3000:])

        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, mods))
        shutil.rmtree(work)
        with open(out + "/ok", "w") as f:
            f.write("ok")
    return out


def use(flavour="plain"):
    """Builds, and makes `pykrige.lib` resolve to the fresh extension before anything imports it."""
    d = ensure(flavour)
    import pykrige.lib
    assert pykrige.__file__.startswith(REPO + "/src/"), pykrige.__file__
    pykrige.lib.__path__.insert(0, d)
    for m in list(sys.modules):
        if m.startswith("pykrige.lib."):
            raise RuntimeError("extension imported before the fresh build was in place: " + m)
    import pykrige.lib.cok as c
    assert c.__file__.startswith(d), c.__file__
    return d


def load(d):
    """the compiled modules in directory d as a dict of module objects, independent of what is imported"""
    import importlib.util
    saved = {k: v for k, v in sys.modules.items() if k.startswith("pykrige.lib.")}
    out = {}
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    try:
        for k in saved:
            del sys.modules[k]
        names = sorted(os.path.basename(f)[:-len(suffix)] for f in glob.glob(d + "/*" + suffix))
        names.sort(key=lambda n: n == "cok")        # cok takes functions from the other one
        for n in names:
            full = "pykrige.lib." + n
            spec = importlib.util.spec_from_file_location(full, os.path.join(d, n + suffix))
            mod = importlib.util.module_from_spec(spec)
            sys.modules[full] = out[full] = mod
            spec.loader.exec_module(mod)
    finally:
        for k in [k for k in sys.modules if k.startswith("pykrige.lib.")]:
            del sys.modules[k]
        sys.modules.update(saved)
    return out


def switch(mods):
    """makes `from .lib.cok import ...` find these modules"""
    import pykrige.lib
    for k, m in mods.items():
        sys.modules[k] = m
        setattr(pykrige.lib, k.rsplit(".", 1)[1], m)


def native(name):
    """builds /verif/vf/native/<name>.c, part of the checking machinery, and imports it"""
    import importlib.util
    src = os.path.join(ROOT, "vf", "native", name + ".c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read() + sys.version.encode()).hexdigest()[:16]
    base = os.path.join(ROOT, ".build")
    os.makedirs(base, exist_ok=True)
    so = os.path.join(base, f"{name}-{h}{sysconfig.get_config_var('EXT_SUFFIX')}")
    if not os.path.exists(so):
        import numpy as np
        tmp = f"{so}.{os.getpid()}"
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-g", "-w", "-I" + sysconfig.get_paths()["include"],
                        "-I" + np.get_include(), src, "-o", tmp], check=True, env=env)
        os.replace(tmp, so)
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def runtime(name):
    p = subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True).stdout.strip()
    if not os.path.isabs(p):
        raise RuntimeError(name + " not found")
    return os.path.realpath(p)


def reexec_sanitized(argv):
    """restarts this program with the sanitizer runtimes preloaded"""
    if os.environ.get("VF_SANITIZED"):
        return
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(ensure, ("sanitize", "bounds")))
    import tempfile
    log = tempfile.mkdtemp(prefix="vf-asan-")
    opts = "abort_on_error=1:print_stacktrace=1:log_path=%s/report" % log
    env = dict(
        os.environ, VF_SANITIZED=log, PYTHONMALLOC="malloc",
        LD_PRELOAD=runtime("libasan.so") + " " + runtime("libubsan.so"),
        # fresh memory reads as NaN (doubles) or -1 (integers)
        ASAN_OPTIONS=opts + ":detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1000000000:"
                            "malloc_fill_byte=255:detect_stack_use_after_return=1:handle_segv=1",
        UBSAN_OPTIONS=opts)
    os.execve(sys.executable, [sys.executable, "-X", "faulthandler", "-m", "vf.main", *argv], env)


if __name__ == "__main__":
    for fl in sys.argv[1:]:
        print(ensure(fl))
