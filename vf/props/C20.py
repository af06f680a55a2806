import os

import numpy as np
from vf import grids
from vf.main import Violation

LEVEL = "fault_enumeration"
RULE = ("Files written by write_asc_grid/write_zmap_grid and independently rendered ones are damaged: cut off at "
        "EVERY byte before the end of the last value, every single value removed or duplicated, every body line "
        "removed or duplicated, every header line removed, header counts changed; reading has to raise or return "
        "exactly the undamaged data. Grids that cannot be represented (non-constant spacing anywhere, unequal "
        "spacing in style 2, unknown style, wrong dimensions) and a full device have to make writing raise.")
ASSUMPTIONS = ["a cut inside the very last number of a file leaves a well-formed file with another number; such cuts "
               "are left out because no reader of these formats could notice them"]
CASES = {"quick": 500, "thorough": 6000}
REQUIRED = ["asc:cut", "zmap:cut", "asc:value-missing", "zmap:value-missing", "asc:value-added", "zmap:value-added",
            "asc:line-missing", "zmap:line-missing", "asc:line-added", "asc:torn-line", "zmap:torn-line", "zmap:line-added", "zmap:value-garbled", "asc:header-missing",
            "asc:header-count", "zmap:header-count", "write:spacing-x", "write:spacing-y", "write:unequal", "write:units", "write:back",
            "write:style", "write:full-device", "write:dims", "outcome:raised", "outcome:complete"]


def same(a, b):
    return all(np.array_equal(np.asarray(u, float), np.asarray(v, float), equal_nan=True)
               for u, v in zip(a[:5], b[:5]))


def damaged(ctx, read, fn, txt, good, what, kind):
    with open(fn, "w", newline="") as f:
        f.write(txt)
    ctx.events += 1
    ctx.checks += 1
    ctx.cover(kind)
    try:
        got = read(fn)
    except Exception:
        ctx.cover("outcome:raised")
        return
    if not same(got, good):
        raise Violation(f"{what}: read without an error although it is not the complete original", key=kind,
                        text=txt[-400:], head=txt[:300], got=got[0], original=good[0])
    ctx.cover("outcome:complete")


def damage_all(ctx, fmt, read, fn, lines, nhead, good):
    """lines: the file; lines[:nhead] is the header"""
    txt = "\n".join(lines) + "\n"
    end = len(txt.rstrip())
    lastnum = txt[:end].rfind(txt[:end].split()[-1])
    step = 1 if len(txt) < 3000 else 7
    for cut in list(range(0, lastnum + 1, step)) + [end]:
        damaged(ctx, read, fn, txt[:cut], good, f"{fmt} file cut after {cut} of {len(txt)} bytes", fmt + ":cut")
    body = lines[nhead:]
    for k, ln in enumerate(body):
        if not ln.split():
            continue
        damaged(ctx, read, fn, "\n".join(lines[:nhead] + body[:k] + body[k + 1:]) + "\n", good,
                f"{fmt} file without body line {k}", fmt + ":line-missing")
        damaged(ctx, read, fn, "\n".join(lines[:nhead] + body[:k + 1] + body[k:]) + "\n", good,
                f"{fmt} file with body line {k} twice", fmt + ":line-added")
        t = ln.split()
        o = (k + 1) % len(body)
        if fmt == "asc" and len(t) > 1 and len(body) > 1 and body[o].split():
            torn = "  ".join(t[:ctx.i(1, len(t) - 1)])
            mix = [torn if j == k else u for j, u in enumerate(body) for _ in range(2 if j == o else 1)]
            damaged(ctx, read, fn, "\n".join(lines[:nhead] + mix) + "\n", good,
                    f"{fmt} file with body line {k} torn and line {o} twice", fmt + ":torn-line")
        for part in (t[:1], t[:len(t) // 2], t[:-1], t + t[:1], t + t):
            # a torn line more: the proper ones are all there
            if part and (k in (0, len(body) - 1) or ctx.chance(0.1)):
                damaged(ctx, read, fn, "\n".join(lines[:nhead] + body[:k + 1] + ["  ".join(part)] + body[k + 1:]) + "\n", good,
                        f"{fmt} file with a line of {len(part)} values more after body line {k}", fmt + ":torn-line")
        if fmt == "zmap":
            j = ctx.i(0, len(t) - 1)
            v = t[j]
            bad = ctx.pick("x" + v, v + "x", v[:1] + "x" + v[1:], "--", "1.2.3", "?", "0x1p3g", "e5")
            damaged(ctx, read, fn, "\n".join(lines[:nhead] + body[:k] + ["  ".join(t[:j] + [bad] + t[j + 1:])] + body[k + 1:]) + "\n",
                    good, f"{fmt} file with {bad!r} for value {j} of body line {k}", fmt + ":value-garbled")
        for j in range(len(t)):
            if len(body) * len(t) > 80 and not ctx.chance(80.0 / (len(body) * len(t))):
                continue
            for u, kind, how in ((t[:j] + t[j + 1:], "value-missing", "without"),
                                 (t[:j + 1] + t[j:], "value-added", "with twice")):
                new = "  ".join(u)
                if not new and fmt == "asc":
                    continue           # that is the missing line again
                damaged(ctx, read, fn, "\n".join(lines[:nhead] + body[:k] + [new] + body[k + 1:]) + "\n", good,
                        f"{fmt} file {how} value {j} of body line {k}", f"{fmt}:{kind}")


def case(ctx):
    import pykrige.kriging_tools as kt
    with grids.Scratch() as d:
        fn = os.path.join(d, "f")
        what = ctx.pick("asc", "asc", "zmap", "zmap", "write")
        if what == "write":
            return refuse(ctx, kt, fn)
        ny, nx = ctx.i(2, 7), ctx.i(2, 7)
        x, dx = grids.axis(ctx, nx)
        y, dy = grids.axis(ctx, ny, dx if ctx.chance(0.5) else None)
        # distinct values, so that shifted cells are visible
        z = (ctx.rng.permutation(ny * nx).reshape(ny, nx) + 1.25) * ctx.pick(1.0, -3.5, 1e6)
        own = ctx.chance(0.5)
        read = kt.read_asc_grid if what == "asc" else kt.read_zmap_grid
        if own:
            if what == "asc":
                st = 2 if np.isclose(dx, dy) and ctx.chance(0.5) else 1
                ctx.call("write", kt.write_asc_grid, x, y, z, fn, style=st)
            else:
                ctx.call("write", kt.write_zmap_grid, x, y, z, fn)
            with open(fn) as f:
                lines = f.read().split("\n")
            while not lines[-1].strip():
                lines.pop()
            if what == "asc":
                nhead = next(k for k, ln in enumerate(lines) if not ln.strip()[0].isalpha())
            else:
                nhead = max(k for k, ln in enumerate(lines) if ln.startswith("@")) + 1
        else:
            if what == "asc":
                head, rows, _ = grids.asc_text(ctx, z, x, y, dx, dy, -999.0)
            else:
                head, rows = grids.zmap_text(ctx, z, x, y, -999.0, "EPSG:1", ctx.i(1, 6))
            lines, nhead = head + rows, len(head)
        with open(fn, "w") as f:
            f.write("\n".join(lines) + "\n")
        good = ctx.call("read", read, fn)
        ctx.note(fmt=what, own=own, file="\n".join(lines)[:700])
        ctx.close("undamaged " + what, good[0], z, 0.005 + 1e-7 * np.abs(z), key="values")
        damage_all(ctx, what, read, fn, lines, nhead, good)
        head = lines[:nhead]
        for k, ln in enumerate(head):
            if what == "asc":
                damaged(ctx, read, fn, "\n".join(head[:k] + lines[k + 1:]) + "\n", good,
                        f"asc file without header line {ln!r}", "asc:header-missing")
                if ln.lower().startswith(("ncols", "nrows")):
                    key, v = ln.split()
                    for nv in {int(v) + 1, int(v) - 1, nx * ny, 1} - {int(v)}:
                        damaged(ctx, read, fn, "\n".join(head[:k] + [f"{key} {nv}"] + lines[k + 1:]) + "\n", good,
                                f"asc header with {key} {nv} instead of {v}", "asc:header-count")
                new = ["bogus 1", "xll 3"][k % 2]
                damaged(ctx, read, fn, "\n".join(head[:k] + [new] + lines[k + 1:]) + "\n", good,
                        f"asc header with {new!r} instead of {ln!r}", "asc:header-missing")
        if what == "asc" and nx != ny:
            sw = [ln.lower().replace("ncols", "#").replace("nrows", "ncols").replace("#", "nrows") for ln in head]
            damaged(ctx, read, fn, "\n".join(sw + lines[nhead:]) + "\n", good, "asc header with rows and columns "
                    "exchanged", "asc:header-count")
        if what == "zmap":
            k = next(i for i, ln in enumerate(head) if ln.startswith("@") and len(ln) > 1) + 2
            rest = head[k].split(",")[2:]
            for my, mx in ((ny + 1, nx), (ny - 1, nx), (ny, nx + 1), (ny, nx - 1), (ny + 1, nx + 1), (0, nx), (0, 0)):
                damaged(ctx, read, fn, "\n".join(head[:k] + [",".join([f"  {my}", f" {mx}", *rest])] + lines[k + 1:])
                        + "\n", good, f"zmap header with {my} x {mx} instead of {ny} x {nx}", "zmap:header-count")
            for j in (k - 2, k - 1, k, len(head) - 1):
                damaged(ctx, read, fn, "\n".join(head[:j] + lines[j + 1:]) + "\n", good,
                        f"zmap file without header line {head[j]!r}", "zmap:header-missing")


def refuse(ctx, kt, fn):
    ny, nx = ctx.i(2, 9), ctx.i(2, 9)
    x, dx = grids.axis(ctx, nx)
    y, dy = grids.axis(ctx, ny, dx)
    z = grids.cells(ctx, ny, nx)
    if ctx.chance(0.4):
        unit = ctx.lu(1e-13, 1e-2)
        x, y, dx, dy = x * unit, y * unit, dx * unit, dy * unit
        ctx.cover("write:units")
    ctx.note(x=x, y=y, z=z)
    for a, b, n in (("x", x, nx), ("y", y, ny)):
        for k in range(1, n - 1):
            bad = b.copy()
            bad[k + 1:] = 2 * bad[k] - bad[k + 1:]       # there and back
            ax = (bad, y) if a == "x" else (x, bad)
            ctx.raises(f"write_asc_grid with {a} turning back at {k}", kt.write_asc_grid, *ax, z, fn, style=ctx.pick(1, 2))
            ctx.raises(f"write_zmap_grid with {a} turning back at {k}", kt.write_zmap_grid, *ax, z, fn)
            ctx.cover("write:back")
    for k in range(1, nx):
        for w in ("asc", "zmap"):
            if nx < 3:
                break
            bad = x.copy()
            bad[k:] += ctx.pick(-0.4, 0.02, 0.002, 0.5, 3.0) * dx
            kw = dict(style=ctx.pick(1, 2)) if w == "asc" else {}
            ctx.raises(f"write_{w}_grid with x spacing changed at {k}", getattr(kt, f"write_{w}_grid"), bad, y, z, fn, **kw)
            ctx.cover("write:spacing-x")
    for k in range(1, ny):
        for w in ("asc", "zmap"):
            if ny < 3:
                break
            bad = y.copy()
            bad[k:] += ctx.pick(-0.4, 0.02, 0.002, 0.5, 3.0) * dy
            kw = dict(style=ctx.pick(1, 2)) if w == "asc" else {}
            ctx.raises(f"write_{w}_grid with y spacing changed at {k}", getattr(kt, f"write_{w}_grid"), x, bad, z, fn, **kw)
            ctx.cover("write:spacing-y")
    f = ctx.pick(2.0, 0.5, 1.01, 1.002, 1.5)
    ctx.raises("write_asc_grid in style 2 with unequal spacing", kt.write_asc_grid, x, y[0] + (y - y[0]) * f, z, fn, style=2)
    ctx.cover("write:unequal")
    for st in (0, 3, -1, "one", None):
        ctx.raises(f"write_asc_grid in style {st!r}", kt.write_asc_grid, x, y, z, fn, style=st)
        ctx.cover("write:style")
    for w in ("asc", "zmap"):
        fnc = getattr(kt, f"write_{w}_grid")
        ctx.raises(f"write_{w}_grid of a one-dimensional array", fnc, x, y, z.ravel(), fn)
        ctx.raises(f"write_{w}_grid to a full device", fnc, x, y, z, "/dev/full", exc=OSError)
        ctx.raises(f"write_{w}_grid into a missing directory", fnc, x, y, z, fn + "/no/such/file", exc=OSError)
        ctx.cover("write:full-device", "write:dims")
    ctx.raises("write_asc_grid with two-dimensional x", kt.write_asc_grid, np.stack([x, x]), y, z, fn)
