import os
import pathlib

import numpy as np
from vf import grids
from vf.props.C18 import near

RULE = ("Random grids (2-60 rows and columns, any offset and magnitude, NaN and masked cells, every container, "
        "coordinate system texts with colons, commas and @) are written with write_zmap_grid and read back; "
        "independently rendered files with 1-11 values per line, with and without line breaks at columns, are read; "
        "values, orientation, coordinates, cell size, no-data value and text are compared with what was written.")
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = ["masked", "unmasked-ma", "all-masked", "nan", "read:variant", "coord_sys", "coord_sys:colon", "coord_sys:long", "overwritten",
            "per-line:1", "per-line:7", "huge", "path-object", "thousand", "near-no-data"]


def coord(ctx):
    c = ctx.pick("<null>", "WGS84", "EPSG:4326", "urn:ogc:def:crs:EPSG::28992", "Amersfoort / RD New, zone 3",
                 "NAD 27 @ Texas", "a",
                 "Fictive national grid, oblique stereographic, false easting 155000 m, false northing 463000 m, scale 0.9999079",
                 "abc " * ctx.i(16, 80) + "end")
    if len(c) > 60:
        ctx.cover("coord_sys:long")
    if ":" in c:
        ctx.cover("coord_sys:colon")
    if c != "<null>":
        ctx.cover("coord_sys")
    return c


def no_data(ctx):
    return ctx.pick(-999.0, -999.0, -9999.0, 1e6, -32768, 0.0, -1.25, 1e30, -999.25)


def axes(ctx, got, x, y, dx, dy, what):
    tx, ty = grids.axis_tol(x, dx), grids.axis_tol(y, dy)
    ctx.close(what + " x coordinates", got[1], x, tx, key="x")
    ctx.close(what + " y coordinates", got[2], y, ty, key="y")
    ctx.require(np.size(got[3]) == 2, f"{what}: cell size {got[3]!r}", key="cellsize")
    ctx.close(what + " cell size", np.asarray(got[3], float), np.array([dx, dy]), np.array([tx, ty]), key="cellsize")


def roundtrip(ctx, kt, d):
    ny, nx = grids.shape(ctx)
    x, dx = grids.axis(ctx, nx)
    y, dy = grids.axis(ctx, ny)
    nd = no_data(ctx)
    z = near(ctx, grids.cells(ctx, ny, nx, lim=ctx.pick(1e12, 1e12, 1e120)), nd)
    if np.abs(z).max() > 1e100:
        ctx.cover("huge")
    kw = {}
    if nd != -999.0 or ctx.chance(0.5):
        kw["no_data"] = nd
    cs = coord(ctx)
    if cs != "<null>" or ctx.chance(0.3):
        kw["coord_sys"] = cs
    mask = np.zeros(z.shape, bool)
    nan = np.zeros(z.shape, bool)
    t = ctx.rng.random()
    if t < 0.4:
        mask = ctx.rng.random(z.shape) < ctx.u(0.05, 0.9)
        if ctx.chance(0.1):
            mask[...] = True
            ctx.cover("all-masked")
        arg = np.ma.array(z, mask=mask)
        if ctx.chance(0.5):
            arg.data[mask] = ctx.pick(np.nan, 12345.0)
        if ctx.chance(0.3):
            nan = (ctx.rng.random(z.shape) < 0.2) & ~mask
            arg.data[nan] = np.nan
        ctx.cover("masked")
    elif t < 0.5:
        arg = np.ma.array(z, mask=ctx.pick(np.ma.nomask, mask))
        ctx.cover("unmasked-ma")
    else:
        if ctx.chance(0.3):
            nan = ctx.rng.random(z.shape) < 0.3
            z = np.where(nan, np.nan, z)
        arg = grids.zcontainer(ctx, z) if not nan.any() else z.copy()
    if nan.any():
        ctx.cover("nan")
    fn = os.path.join(d, ctx.pick("out.zmap", "a b.dat", "grid"))
    if ctx.chance(0.3):
        with open(fn, "w") as f:
            f.write("old content\n" * 500)
        ctx.cover("overwritten")
    path = pathlib.Path(fn) if ctx.chance(0.2) else fn
    if path is not fn:
        ctx.cover("path-object")
    ctx.note(kind="roundtrip", x=x, y=y, z=z, mask=mask, no_data=nd, coord_sys=cs)
    before = np.ma.getdata(arg).copy() if isinstance(arg, np.ndarray) else None
    ctx.call("write_zmap_grid", kt.write_zmap_grid, grids.container(ctx, x), grids.container(ctx, y), arg, path, **kw)
    if before is not None:
        ctx.require(np.array_equal(np.ma.getdata(arg), before, equal_nan=before.dtype.kind == "f"),
                    "write_zmap_grid modified the grid passed in", key="input")
    got = ctx.call("read_zmap_grid", kt.read_zmap_grid, path)
    g = np.asarray(got[0])
    what = "round trip:"
    ctx.require(g.shape == z.shape, f"{what} shape {g.shape}, expected {z.shape}", key="shape")
    a = np.abs(np.where(nan, 0, z))
    tol = np.where(a < 1e6, 0.5e-4 * (1 + 1e-9), 0.5e-7 * 10.0 ** np.floor(np.log10(np.maximum(a, 1))) * 1.001)
    ctx.close(what + " values", g, z, tol + 4 * grids.EPS * a, key="values", where=~mask & ~nan)
    ctx.require(float(got[4]) == float(nd), f"{what} no-data value {got[4]!r}, expected {nd!r}", key="no_data")
    ctx.require((g[mask | nan] == got[4]).all(), what + " masked or NaN cells are not the no-data value", key="mask",
                got=g[mask | nan])
    ctx.require(got[5] == cs, f"{what} coordinate system {got[5]!r}, expected {cs!r}", key="coord_sys")
    axes(ctx, got, x, y, dx, dy, what)


def variant(ctx, kt, d):
    ny, nx = grids.shape(ctx)
    x, dx = grids.axis(ctx, nx)
    y, dy = grids.axis(ctx, ny)
    f = grids.fmt(ctx)
    nd, cs, k = no_data(ctx), coord(ctx), ctx.i(1, 11)
    z = near(ctx, grids.cells(ctx, ny, nx), nd)
    z = np.array([[float(grids.text(f, v)) for v in row] for row in z])
    given = cs if ctx.chance(0.8) else None
    head, body = grids.zmap_text(ctx, z, x, y, nd, given, k, f)
    txt = "\n".join(head + body) + ctx.pick("\n", "", "\n\n")
    fn = os.path.join(d, "v.zmap")
    with open(fn, "w", newline="") as fh:
        fh.write(txt)
    ctx.note(kind="variant", text=txt[:800])
    ctx.cover("read:variant", f"per-line:{k}")
    got = ctx.call("read_zmap_grid", kt.read_zmap_grid, fn)
    ctx.require(np.shape(got[0]) == z.shape, f"reading: shape {np.shape(got[0])}, expected {z.shape}", key="shape")
    ctx.close("values read", got[0], z, 4 * grids.EPS * np.abs(z), key="values")
    ctx.require(float(got[4]) == float(nd), f"reading: no-data value {got[4]!r}, expected {nd!r}", key="no_data")
    if given is not None:
        ctx.require(got[5] == cs, f"reading: coordinate system {got[5]!r}, expected {cs!r}", key="coord_sys")
    axes(ctx, got, x, y, dx, dy, "reading:")


def case(ctx):
    import pykrige.kriging_tools as kt
    with grids.Numbers(ctx), grids.Scratch() as d:
        (roundtrip if ctx.chance(0.6) else variant)(ctx, kt, d)
