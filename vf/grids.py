"""Generators for grids and independent writers of grid files (used by C18, C19, C20)."""
import locale
import os
import shutil
import tempfile

import numpy as np

from vf import ref

EPS = ref.EPS


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-grid-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Numbers:
    """sometimes a numeric locale with decimal commas and digit grouping (vf/native/locale)"""

    def __init__(self, ctx):
        self.ctx, self.old = ctx, None

    def __enter__(self):
        if self.ctx.chance(0.12):
            os.environ["LOCPATH"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "locale")
            try:
                self.old = locale.setlocale(locale.LC_NUMERIC)
                locale.setlocale(locale.LC_NUMERIC, "xx_XX")
                self.ctx.cover("locale")
            except locale.Error:      # another C library
                self.ctx.cover("locale-unavailable")
        return self

    def __exit__(self, *a):
        if self.old is not None:
            locale.setlocale(locale.LC_NUMERIC, self.old)
        os.environ.pop("LOCPATH", None)


def axis(ctx, n, dx=None):
    """n evenly spaced, ascending coordinates; (array, step)"""
    dx = dx or ctx.pick(1.0, 0.1, 10.0, 25.0, 0.25, ctx.lu(1e-3, 1e4))
    x0 = ctx.pick(0.0, dx / 2, 5e5 + 0.37, -1e3 * dx, 4.5e6, ctx.u(-1000, 1000) * dx, -179.5)
    if abs(x0) > 1e7 * dx:
        x0 = 100 * dx
    how = ctx.pick("mul", "linspace", "arange")
    if how == "mul":
        a = x0 + np.arange(n) * dx
    elif how == "linspace":
        a = np.linspace(x0, x0 + (n - 1) * dx, n)
    else:
        a = np.arange(n) * dx + x0
    return a, dx


def axis_tol(a, dx):
    m = np.abs(a).max() + dx * len(a)
    return 8 * EPS * m * (len(a) + 1)


def cells(ctx, ny, nx, lim=1e12):
    r = ctx.rng
    kind = ctx.pick("normal", "normal", "big", "small", "int", "neg", "mixed", "const")
    if kind == "normal":
        z = r.normal(size=(ny, nx)) * ctx.pick(1.0, 100.0)
    elif kind == "big":
        z = r.normal(size=(ny, nx)) * ctx.lu(1e5, lim)
    elif kind == "small":
        z = r.normal(size=(ny, nx)) * 1e-3
    elif kind == "int":
        z = r.integers(-500, 500, size=(ny, nx)).astype(float)
    elif kind == "neg":
        z = -np.abs(r.normal(size=(ny, nx))) * ctx.lu(1, lim)
    elif kind == "mixed":
        z = r.choice([-1, 1], size=(ny, nx)) * 10 ** r.uniform(-3, np.log10(lim), size=(ny, nx))
    else:
        z = np.full((ny, nx), ctx.u(-10, 10))
    ctx.cover("cells:" + kind)
    return z


def container(ctx, a):
    k = ctx.pick("array", "array", "list", "column", "tuple")
    ctx.cover("axis-as:" + k)
    return {"array": a.copy, "list": a.tolist, "column": lambda: a[:, None].copy(),
            "tuple": lambda: tuple(a.tolist())}[k]()


def zcontainer(ctx, z):
    k = ctx.pick("array", "array", "fortran", "list", "strided", "f32", "int")
    if k == "int" and not (np.array_equal(z, np.round(z)) and np.abs(z).max() < 2.0 ** 53):
        k = "array"
    if k == "f32" and not np.array_equal(z, z.astype(np.float32)):
        k = "fortran"
    ctx.cover("z-as:" + k)
    if k == "fortran":
        return np.asfortranarray(z)
    if k == "list":
        return z.tolist()
    if k == "strided":
        return np.repeat(np.repeat(z, 2, 0), 3, 1)[::2, ::3]
    if k == "f32":
        return z.astype(np.float32)
    if k == "int":
        return z.astype(int)
    return z.copy()


def shape(ctx, lo=2):
    t = ctx.rng.random()
    if t > 0.985:
        n = ctx.i(990, 1200), ctx.i(lo, 4)
        ctx.cover("thousand")
        return n if ctx.chance(0.5) else n[::-1]
    if t < 0.1:
        return ctx.i(lo, 60), ctx.i(lo, 60)
    return ctx.i(lo, 12), ctx.i(lo, 12)


def fmt(ctx):
    return ctx.pick("{:.2f}", "{:.6g}", "{:.10g}", "{:.4e}", "{!r}")


def text(f, v):
    return f.format(float(v))


def asc_text(ctx, z, x, y, dx, dy, no_data, f="{!r}", plain=False):
    """an independent rendering of the format; returns (text, header lines, footer lines, cell values as text)"""
    ny, nx = z.shape
    case = (lambda s: s) if plain else ctx.pick(str.upper, str.lower, str.capitalize)
    corner = ctx.chance(0.5)
    square = dx == dy and ctx.chance(0.5)
    xo, yo = (x[0] - dx / 2, y[0] - dy / 2) if corner else (x[0], y[0])
    tag = "corner" if corner else "center"
    h = [("ncols", str(nx)), ("nrows", str(ny)), ("xll" + tag, repr(float(xo))), ("yll" + tag, repr(float(yo)))]
    if square:
        h.append((ctx.pick("cellsize", "cell_size"), repr(float(dx))))
    else:
        h += [("dx", repr(float(dx))), ("dy", repr(float(dy)))]
    h.append((ctx.pick("nodata_value", "nodatavalue"), repr(float(no_data))))
    if not plain and ctx.chance(0.6):
        h = [h[k] for k in ctx.rng.permutation(len(h))]
        ctx.cover("header:shuffled")
    sep = ctx.pick(" ", "   ", "\t") if not plain else " "
    head = [case(k) + sep + v for k, v in h]
    rows = [(ctx.pick(" ", "  ") if not plain else " ").join(text(f, v) for v in row) for row in z[::-1]]
    ctx.cover("header:" + tag, "header:cellsize" if square else "header:dx-dy")
    return head, rows, (dx if square else (dx, dy))


def zmap_text(ctx, z, x, y, no_data, coord, per_line, f="{!r}"):
    ny, nx = z.shape
    head = ["!", "!     ZIMS FILE NAME :  some_file.dat", "!     FORMATTED FILE CREATION DATE: 01/01/2020"]
    if coord is not None:
        head.append("!     COORDINATE REFERENCE SYSTEM: " + coord)
    head += ["!", f"@Grid HEADER, GRID, {per_line}", f" 15, {float(no_data)!r},  , 1 , 1",
             f"   {ny},  {nx},  {float(x[0])!r},  {float(x[-1])!r},  {float(y[0])!r},  {float(y[-1])!r}",
             "   0.0,  0.0,  0.0", "@"]
    body = []
    vals = [text(f, z[m, n]) for n in range(nx) for m in range(ny - 1, -1, -1)]
    if ctx.chance(0.5):          # every column starts on a new line
        for n in range(nx):
            col = vals[n * ny:(n + 1) * ny]
            body += [" " + "  ".join(col[k:k + per_line]) for k in range(0, ny, per_line)]
    else:
        body += ["   ".join(vals[k:k + per_line]) for k in range(0, len(vals), per_line)]
    return head, body
