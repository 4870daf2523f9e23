"""R15: region extraction."""
import os
import numpy as np
import astropy.io.fits as pf
from rvm import cube
from checks.r09 import run_main, sha
from checks.r12 import sky

CASES = {"quick": 1200, "thorough": 30000}
RULE = ("random 2-, 3- and 4-axis images of several data types x pixel boxes (single pixels, full extents, -1 limits, beyond the edge, centre form) x plane "
        "ranges x overwriting; every extracted value and coordinate against the original; distinct by draw")
MIN_EVENTS = {"extractions": 1000, "values_compared": 20000, "sky_grids": 1000, "plane_ranges": 250, "open_limits": 150, "single_pixels": 80, "full_extents": 60,
              "two_axis": 200, "four_axis": 250, "refused_overwrites": 50, "files_unchanged": 1000, "clipped": 80, "centre_form": 150}
ASSUMPTIONS = ["boxes overlap the image"]


def run_case(c):
    from RMtools_3D import extract_region as E
    r = c.rng
    nd = int(r.choice([2, 3, 4], p=[.3, .35, .35]))
    nx, ny = int(r.integers(1, 13)), int(r.integers(1, 13))
    if r.random() < .04:
        nx, ny = int(r.integers(60, 300)), int(r.integers(60, 300))
        c.event("large_images")
    nz = int(r.integers(2, 9))
    lay = {2: "2", 3: "3", 4: str(r.choice(["4s3", "4f3"]))}[nd]
    lead = {"2": (), "3": (nz,), "4s3": (nz, 1), "4f3": (1, nz)}[lay]
    zax = {"2": 0, "3": 3, "4s3": 4, "4f3": 3}[lay]
    c.event({2: "two_axis", 3: "three_axis", 4: "four_axis"}[nd])
    dt = str(r.choice(["float32", "float64", "int16", "int32"]))
    shape = lead + (ny, nx)
    a = r.permutation(int(np.prod(shape))).reshape(shape).astype(dt)
    if dt.startswith("f"):
        a[r.random(shape) < .05] = np.nan
    h = pf.Header()
    cube.sky(r, h)
    if zax:
        h["CTYPE%d" % zax], h["CRVAL%d" % zax], h["CDELT%d" % zax], h["CRPIX%d" % zax] = "FREQ", 1e9, float(r.choice([1e6, -2e6])), float(r.integers(-3, 9))
        h["CUNIT%d" % zax] = "Hz"
        if nd == 4:
            o = 7 - zax
            h["CTYPE%d" % o], h["CRVAL%d" % o], h["CDELT%d" % o], h["CRPIX%d" % o] = "STOKES", 2.0, 1.0, 1.0
    h["BUNIT"] = "K"
    d, cwd = c.tmpdir(), c.tmpdir()
    p, out = os.path.join(d, "in.fits"), os.path.join(d, "out.fits")
    pf.writeto(p, a, h)
    h0 = cube.read(p)[0][1]
    s0 = sha(p)

    def rng(n):
        lo = int(r.integers(1, n + 1))
        return [lo, int(r.integers(lo, n + 1))]
    kind = str(r.choice(["box", "pixel", "full", "open", "beyond", "centre"], p=[.35, .15, .1, .15, .1, .15]))
    bx, by = rng(nx), rng(ny)
    if kind == "pixel":
        bx[1], by[1] = bx[0], by[0]
        c.event("single_pixels")
    if kind == "full":
        bx, by = [1, nx], [1, ny]
        c.event("full_extents")
    args = [bx[0], bx[1], by[0], by[1]]
    if kind == "open":
        c.event("open_limits")
        for i in range(4):
            if r.random() < .5:
                args[i] = -1
                (bx, by)[i // 2][i % 2] = 1 if i % 2 == 0 else (nx, ny)[i // 2]
    if kind == "beyond":
        c.event("clipped")
        args[1] = nx + int(r.integers(1, 9)); bx[1] = nx
        args[3] = ny + int(r.integers(0, 9)); by[1] = ny
        if r.random() < .5:
            args[0], bx[0] = 0, 1
    opts = []
    if kind == "centre":
        c.event("centre_form")
        cx, cy = int(r.integers(1, nx + 1)), int(r.integers(1, ny + 1))
        wx, wy = int(r.integers(0, 4)), int(r.integers(0, 4))
        args = [cx, wx, cy, wy]
        opts.append("-c")
        bx, by = [max(1, cx - wx), min(nx, cx + wx)], [max(1, cy - wy), min(ny, cy + wy)]
        if cx + wx == -1:
            return
    bz = [1, nz]
    if zax and r.random() < .55:
        c.event("plane_ranges")
        bz = rng(nz)
        za = list(bz)
        if r.random() < .3:
            i = int(r.integers(2))
            za[i] = -1
            bz[i] = [1, nz][i]
            c.event("open_limits")
        opts += ["-z", str(za[0]), str(za[1])]
    argv = ["extractregion", p, out] + [("%.1f" % v if r.random() < .2 else str(v)) for v in args] + opts
    exists = r.random() < .2
    if exists:
        open(out, "w").write("precious")
        if r.random() < .5:
            argv.append("-o")
        else:
            c.event("refused_overwrites")
            try:
                run_main(E.main, argv, cwd)
                c.violate("overwrote-without-asking", "an existing file was accepted without -o")
            except SystemExit:
                pass
            except Exception:
                pass
            c.check(open(out).read() == "precious", "overwrote-without-asking", "the existing file changed")
            c.check(sha(p) == s0, "input-file-modified", p)
            c.event("files_unchanged")
            c.observed((c.seed, c.idx), argv[3:])
            return
    c.label = lay + "-" + kind
    c.context = dict(shape=shape, dtype=dt, argv=argv[3:])
    run_main(E.main, argv, cwd)
    c.event("extractions")
    c.check(sha(p) == s0, "input-file-modified", p)
    c.event("files_unchanged")
    sl = (slice(by[0] - 1, by[1]), slice(bx[0] - 1, bx[1]))
    sz = slice(bz[0] - 1, bz[1])
    want = a[{"2": sl, "3": (sz,) + sl, "4s3": (sz, slice(None)) + sl, "4f3": (slice(None), sz) + sl}[lay]]
    if not c.check(os.path.exists(out), "missing-output", out):
        return
    g, hg = cube.read(out)[0]
    if not c.check(g.shape == want.shape, "extracted-shape", lambda: "%s, expected %s" % (g.shape, want.shape)):
        return
    c.event("values_compared", g.size)
    c.same(g, want, "extracted-values", what="box")
    c.check(g.dtype.kind == a.dtype.kind and g.dtype.itemsize == a.dtype.itemsize, "extracted-type", str(g.dtype))
    c.check([hg["NAXIS%d" % i] for i in range(1, nd + 1)] == list(want.shape[::-1]), "header-shape", "header disagrees with the data")
    s = cube.sky_of(h0, nx, ny)[(slice(None),) + sl]
    sky(c, hg, s, want.shape[-1], want.shape[-2], "extracted")
    if zax:
        c.close(cube.lin(hg, zax), cube.lin(h0, zax)[sz], "extracted-planes", rtol=1e-12, what="plane coordinates")
    for k in ("BUNIT", "CTYPE1", "CTYPE2") + (("CTYPE%d" % zax,) if zax else ()):
        c.check(hg.get(k) == h0.get(k), "extracted-header", k)
    c.observed((c.seed, c.idx), c.context)
