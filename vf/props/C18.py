import os

import numpy as np
from vf import grids
from vf.main import Violation

RULE = ("Random grids (2-60 rows and columns, offsets up to UTM size, cell values from 1e-3 to 1e12 of both signs, "
        "NaN and masked cells, every container) are written with write_asc_grid in both styles and read back with "
        "read_asc_grid; independently rendered files in every header variant (corner/centre, cell size/dx dy, any "
        "order and case, tabs, footers, single rows and columns) are read; values, orientation, coordinates, cell "
        "size and no-data value are compared with what was written.")
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = ["style:1", "style:2", "masked", "unmasked-ma", "all-masked", "nan", "read:variant", "header:corner",
            "header:center", "header:cellsize", "header:dx-dy", "header:shuffled", "footer", "read:single-row",
            "read:single-column", "overwritten", "written-with-rounding-spacing", "path-object", "thousand", "near-no-data"]


def compare_axes(ctx, what, got, x, y, dx, dy, cs):
    grid, gx, gy, cell, nd = got
    tx = grids.axis_tol(x, dx)
    ty = grids.axis_tol(y, dy)
    if not isinstance(cs, tuple):      # one cell size for both: the rounding of either axis shows in the other
        tx = ty = tx * len(y) + ty * len(x)
    ctx.close(what + " x coordinates", gx, x, tx, key="x")
    ctx.close(what + " y coordinates", gy, y, ty, key="y")
    if isinstance(cs, tuple):
        ctx.require(np.size(cell) == 2, f"{what}: cell size {cell!r}, expected two values", key="cellsize")
        ctx.close(what + " cell size", np.asarray(cell, float), np.asarray(cs), np.array([tx, ty]), key="cellsize")
    else:
        ctx.require(np.size(cell) == 1, f"{what}: cell size {cell!r}, expected one value", key="cellsize")
        ctx.close(what + " cell size", np.asarray(cell, float), np.asarray(float(cs)), max(tx, ty), key="cellsize")


def no_data(ctx):
    return ctx.pick(-999.0, -999.0, -9999.0, 1e6, -32768, 0.0, -1.25, 1e20, 99999.5)


def near(ctx, z, nd):
    """sometimes, values close to the no-data value that are not it"""
    if ctx.chance(0.25) and z.dtype.kind == "f":
        m = ctx.rng.random(z.shape) < 0.3
        z = np.where(m, nd + ctx.pick(0.01, 1e-3 * abs(nd), 1e-5 * abs(nd), 1.0, 0.5) * ctx.rng.integers(-3, 4, z.shape), z)
        ctx.cover("near-no-data")
    return z


def roundtrip(ctx, kt, d):
    style = ctx.pick(1, 2)
    ny, nx = grids.shape(ctx)
    x, dx = grids.axis(ctx, nx)
    y, dy = grids.axis(ctx, ny, dx if style == 2 or ctx.chance(0.3) else None)
    nd = no_data(ctx)
    z = near(ctx, grids.cells(ctx, ny, nx), nd)
    kw = dict(style=style) if style != 1 or ctx.chance(0.5) else {}
    if nd != -999.0 or ctx.chance(0.5):
        kw["no_data"] = nd
    mask = np.zeros(z.shape, bool)
    nan = np.zeros(z.shape, bool)
    t = ctx.rng.random()
    if t < 0.4:
        mask = ctx.rng.random(z.shape) < ctx.u(0.05, 0.9)
        if ctx.chance(0.1):
            mask[...] = True
            ctx.cover("all-masked")
        arg = np.ma.array(z, mask=mask)
        if ctx.chance(0.5):
            arg.data[mask] = ctx.pick(np.nan, 12345.0)
        if ctx.chance(0.2) and np.array_equal(z, np.round(z)) and np.abs(z).max() < 2.0 ** 53:
            arg = np.ma.array(z.astype(int), mask=mask)
        ctx.cover("masked")
    elif t < 0.5:
        arg = np.ma.array(z, mask=ctx.pick(np.ma.nomask, mask))
        ctx.cover("unmasked-ma")
    else:
        if ctx.chance(0.25):
            nan = ctx.rng.random(z.shape) < 0.3
            z = np.where(nan, np.nan, z)
            ctx.cover("nan")
        arg = grids.zcontainer(ctx, z) if not nan.any() else z.copy()
    if style == 2 and x[1] - x[0] != y[1] - y[0]:
        ctx.cover("written-with-rounding-spacing")
    fn = os.path.join(d, ctx.pick("out.asc", "a b.txt", "grid"))
    if ctx.chance(0.3):
        with open(fn, "w") as f:
            f.write("old content\n" * 500)
        ctx.cover("overwritten")
    ctx.note(kind="roundtrip", style=style, x=x, y=y, z=z, mask=mask, no_data=nd)
    ctx.cover(f"style:{style}")
    before = np.ma.getdata(arg).copy() if isinstance(arg, np.ndarray) else None
    import pathlib
    path = pathlib.Path(fn) if ctx.chance(0.2) else fn
    if path is not fn:
        ctx.cover("path-object")
    ctx.call("write_asc_grid", kt.write_asc_grid, grids.container(ctx, x), grids.container(ctx, y), arg, path, **kw)
    if before is not None:
        ctx.require(np.array_equal(np.ma.getdata(arg), before, equal_nan=before.dtype.kind == "f"),
                    "write_asc_grid modified the grid passed in", key="input")
        if isinstance(arg, np.ma.MaskedArray):
            ctx.require(np.array_equal(np.ma.getmaskarray(arg), mask), "write_asc_grid modified the mask", key="input")
    got = ctx.call("read_asc_grid", kt.read_asc_grid, path)
    what = f"round trip in style {style}:"
    g = np.asarray(got[0])
    ctx.require(g.shape == z.shape, f"{what} shape {g.shape}, expected {z.shape}", key="shape")
    ctx.close(what + " values", g, z, 0.005 * (1 + 1e-9) + 4 * grids.EPS * np.abs(np.where(nan, 0, z)), key="values",
              where=~mask & ~nan)
    ctx.require(np.isnan(g[nan]).all(), what + " NaN cells did not come back as NaN", key="nan", got=g[nan])
    ctx.require(float(got[4]) == float(nd), f"{what} no-data value {got[4]!r}, expected {nd!r}", key="no_data")
    ctx.require((g[mask] == got[4]).all(), what + " masked cells did not come back as the no-data value", key="mask",
                got=g[mask])
    compare_axes(ctx, what, got, x, y, dx, dy, dx if style == 2 else (dx, dy))


def variant(ctx, kt, d):
    ny, nx = grids.shape(ctx)
    if ctx.chance(0.12):
        ny, nx = ctx.pick((1, nx), (ny, 1), (1, 1))
        ctx.cover("read:single-row" if ny == 1 else "read:single-column")
    x, dx = grids.axis(ctx, nx)
    y, dy = grids.axis(ctx, ny, dx if ctx.chance(0.6) else None)
    f = grids.fmt(ctx)
    nd = no_data(ctx)
    z = near(ctx, grids.cells(ctx, ny, nx), nd)
    z = np.array([[float(grids.text(f, v)) for v in row] for row in z])
    head, rows, cs = grids.asc_text(ctx, z, x, y, dx, dy, nd, f)
    footer = ctx.pick(0, 0, 1, 3)
    nl = ctx.pick("\n", "\n", "\r\n")
    txt = nl.join(head + rows + ["end of file"] * footer) + ctx.pick(nl, "")
    fn = os.path.join(d, "v.asc")
    with open(fn, "w", newline="") as fh:
        fh.write(txt)
    ctx.note(kind="variant", text=txt[:600], footer=footer)
    kw = dict(footer=footer) if footer or ctx.chance(0.3) else {}
    if footer:
        ctx.cover("footer")
    got = ctx.call("read_asc_grid", kt.read_asc_grid, fn, **kw)
    ctx.cover("read:variant")
    ctx.require(np.shape(got[0]) == z.shape, f"reading: shape {np.shape(got[0])}, expected {z.shape}", key="shape")
    ctx.close("values read", got[0], z, 4 * grids.EPS * np.abs(z), key="values")
    ctx.require(float(got[4]) == float(nd), f"reading: no-data value {got[4]!r}, expected {nd!r}", key="no_data")
    compare_axes(ctx, "reading:", got, x, y, dx, dy, cs)


def case(ctx):
    import pykrige.kriging_tools as kt
    with grids.Numbers(ctx), grids.Scratch() as d:
        (roundtrip if ctx.chance(0.6) else variant)(ctx, kt, d)
