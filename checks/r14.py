"""R14: splitting into chunks and reassembling."""
import os
import numpy as np
import astropy.io.fits as pf
from rvm import gen, cube
from checks.r09 import run_main, sha
from checks.r12 import sky

CASES = {"quick": 500, "thorough": 9000}
RULE = ("random 2-, 3- and 4-axis images of 7 data types split with chunk sizes from one pixel to more than the image, chunk contents checked as a partition "
        "of the pixels, chunks and products computed per chunk reassembled; chunked 3D synthesis against the whole; distinct by draw")
MIN_EVENTS = {"splits": 450, "chunks_read": 3000, "pixels_accounted": 8000, "reassemblies": 450, "products_reassembled": 300, "single_chunk": 40,
              "one_pixel_chunks": 30, "partial_last_chunk": 150, "full_chain": 20, "files_unchanged": 450, "no_memmap": 100}
ASSUMPTIONS = ["chunked synthesis equals whole-image synthesis when every channel has data in each chunk (the reference wavelength is that of the data processed)"]
CASE_LIMIT = {"quick": 150, "thorough": 200}
DT = ["uint8", "int16", "int32", "int64", "float32", "float64", "float32"]


def split(c, path, nper, cwd, r, prefix):
    from RMtools_3D import create_chunks as A
    argv = ["createchunks", path, str(nper)]
    if prefix:
        argv += ["-p", prefix]
    if r.random() < .4:
        argv.append("-m")
        c.event("no_memmap")
    if r.random() < .3:
        argv.append("-v")
    run_main(A.main, argv, cwd)
    c.event("splits")


def join(c, chunk, out, cwd, r, over=False):
    from RMtools_3D import assemble_chunks as A
    argv = ["assemblechunks", chunk]
    if out:
        argv += ["-f", out]
    if over or r.random() < .2:
        argv.append("-o")
    if r.random() < .4:
        argv.append("-m")
        c.event("no_memmap")
    run_main(A.main, argv, cwd)
    c.event("reassemblies")


def run_case(c):
    r = c.rng
    if c.idx % 12 == 11:
        return chain(c, r)
    nd = int(r.choice([2, 3, 4], p=[.25, .4, .35]))
    nx, ny = int(r.integers(1, 14)), int(r.integers(1, 14))
    large = r.random() < .04
    if large:
        nx, ny = int(r.integers(30, 70)), int(r.integers(30, 70))
        c.event("large_images")
    lead = {2: (), 3: (int(r.integers(1, 9)),), 4: ((int(r.integers(1, 9)), 1), (1, int(r.integers(1, 9))), (2, 3))[int(r.integers(3))]}[nd]
    dt = DT[int(r.integers(len(DT)))]
    shape = lead + (ny, nx)
    npix = nx * ny
    nper = int(r.choice([1, npix, npix + int(r.integers(1, 9)), int(r.integers(1, npix + 1)), int(r.integers(1, npix + 1))]))
    if large:
        nper = -(-npix // int(r.choice([2, 9, 10, 11, 40, 99, 100, 101, 130])))
    elif r.random() < .1:
        # the number of digits in the chunk names changes here
        nper = max(1, npix // int(r.choice([9, 10, 11, 99, 100, 101])))
    if nper == 1 and npix > 130:
        nper = 2
    a = r.permutation(int(np.prod(shape))).reshape(shape)
    if dt == "uint8":
        a = a % 251
    a = a.astype(dt)
    if dt.startswith("float"):
        a = a * dt_scale(r) + 0
        a[r.random(shape) < .05] = np.nan
        a = a.astype(dt)
    h = pf.Header()
    cube.sky(r, h)
    if nd > 2:
        for i in range(3, nd + 1):
            h["CTYPE%d" % i], h["CRPIX%d" % i], h["CRVAL%d" % i], h["CDELT%d" % i] = ("FREQ", "STOKES")[(lead[nd - i] == 1)], 1.0, float(i), 2.0
    h["BUNIT"] = "Jy/beam"
    h["OBJECT"] = "src"
    d, cwd = c.tmpdir(), c.tmpdir()
    nm = str(r.choice(["img", "field.C3.Q", "a b", "img[1]", "x.y"]))
    path = os.path.join(d, nm + ".fits")
    pf.writeto(path, a, h)
    h0 = cube.read(path)[0][1]
    sh = sha(path)
    pre = os.path.join(cwd, str(r.choice(["part", "part.C7", "p[0]"]))) if r.random() < .5 else None
    c.label = "%d-axis" % nd
    c.context = dict(shape=shape, dtype=dt, nper=nper, name=nm, prefix=pre and os.path.basename(pre))
    before = set(os.listdir(d)) | set(os.listdir(cwd))
    split(c, path, nper, cwd, r, pre)
    where, stem = (cwd, os.path.basename(pre)) if pre else (d, nm)
    new = sorted(x for x in os.listdir(where) if x not in before)
    if len(new) == 1:
        c.event("single_chunk")
    if nper == 1:
        c.event("one_pixel_chunks")
    if npix % nper:
        c.event("partial_last_chunk")
    want_n = -(-npix // nper)
    if not c.check(len(new) == want_n, "chunk-count", lambda: "%d chunks of %d pixels for %d pixels" % (len(new), nper, npix)):
        return
    c.check(all(x.startswith(stem + ".C") and x.endswith(".fits") and x[len(stem) + 2:-5].isdigit() for x in new), "chunk-names", str(new[:3]))
    new.sort(key=lambda x: int(x[len(stem) + 2:-5]))
    c.check([int(x[len(stem) + 2:-5]) for x in new] == list(range(want_n)), "chunk-numbers", str(new[:3]))
    parts = []
    for x in new:
        g, hh = cube.read(os.path.join(where, x))[0]
        c.event("chunks_read")
        if not c.check(g.shape[:-1] == lead + (1,) and g.shape[-1] <= nper and g.dtype.kind == a.dtype.kind and g.dtype.itemsize == a.dtype.itemsize,
                       "chunk-shape", lambda: "%s %s from %s %s" % (g.shape, g.dtype, shape, dt)):
            return
        parts.append(g[..., 0, :])
    full = np.concatenate(parts, axis=-1)
    c.event("pixels_accounted", full.shape[-1])
    # a partition: the multiset of spectra is that of the image
    key = lambda v: np.sort(np.ascontiguousarray(v.reshape(-1, v.shape[-1]).T.astype(v.dtype.newbyteorder("="))).view("V%d" % (v.dtype.itemsize * int(np.prod(lead or (1,))))).ravel())
    if c.check(full.shape[-1] == npix, "pixels-lost", lambda: "%d of %d pixels" % (full.shape[-1], npix)):
        u, v = key(np.nan_to_num(full, nan=-9) if a.dtype.kind == "f" else full), key(np.nan_to_num(a, nan=-9).reshape(lead + (npix,)) if a.dtype.kind == "f" else a.reshape(lead + (npix,)))
        c.check(np.array_equal(u, v), "pixels-changed", "the chunks do not hold each pixel once")
    c.check(sha(path) == sh, "input-file-modified", path)
    c.event("files_unchanged")
    # reassemble the chunks themselves
    out = os.path.join(c.tmpdir(), "whole.fits")
    pick = os.path.join(where, new[int(r.integers(len(new)))])
    if r.random() < .3 and pre:
        join(c, pick, None, cwd, r)
        out = os.path.join(where, stem + ".fits")
    else:
        join(c, pick, out, cwd, r)
    same(c, out, a, h0, nx, ny, "reassembled")
    # products with another number of planes, computed chunk by chunk
    if nd > 2 or r.random() < .4:
        k = int(r.integers(1, 7))
        kd = str(r.choice(["float32", "float64", "int32"]))
        coef = r.integers(1, 9, (k, int(np.prod(lead or (1,)))))
        two = bool(r.random() < .3) or nd == 2

        def f(v):
            v = np.nan_to_num(v.astype(float)).reshape(len(coef[0]), *v.shape[-2:])
            z = np.array([sum(float(b) * v[i] for i, b in enumerate(row)) for row in coef])
            z = z[0] if two else (z if nd == 3 else z[:, None])
            return z.astype(kd)
        pd = c.tmpdir()
        for x in new:
            g, hh = cube.read(os.path.join(where, x))[0]
            for i in range(3, 5):
                for q in ("NAXIS", "CTYPE", "CRPIX", "CRVAL", "CDELT"):
                    if two:
                        hh.remove(q + str(i), ignore_missing=True)
            pf.writeto(os.path.join(pd, x.replace(stem, "prod", 1)[:-5] + ".P_fdf.fits" if nm == "x.y" else os.path.join(pd, x.replace(stem, "prod", 1))), f(g), hh)
        fs = sorted(os.listdir(pd))
        out = os.path.join(c.tmpdir(), "product.fits")
        join(c, os.path.join(pd, fs[-1]), out, cwd, r)
        c.event("products_reassembled")
        same(c, out, f(a), None, nx, ny, "product", cube.sky_of(h0, nx, ny))
    c.observed((c.seed, c.idx), c.context)


def dt_scale(r):
    return 10 ** r.uniform(-6, 3)


def same(c, out, a, h0, nx, ny, tag, sky0=None):
    if not c.check(os.path.exists(out), tag + "-missing", out):
        return
    try:
        g, h = cube.read(out)[0]
    except Exception as e:
        return c.violate(tag + "-unreadable", repr(e))
    if not c.check(g.shape == a.shape, tag + "-shape", lambda: "%s, expected %s" % (g.shape, a.shape)):
        return
    c.same(g, a, tag + "-values", what=tag)
    c.check(g.dtype.kind == a.dtype.kind and g.dtype.itemsize == a.dtype.itemsize, tag + "-type", str(g.dtype))
    if h0 is not None:
        sky0 = cube.sky_of(h0, nx, ny)
        for k in h0:
            if k[:5] in ("CTYPE", "CRPIX", "CRVAL", "CDELT", "NAXIS", "CUNIT") or k in ("BUNIT", "OBJECT"):
                c.check(h.get(k) == h0[k], tag + "-header", lambda: "%s: %r, was %r" % (k, h.get(k), h0[k]))
    c.check("OLDXDIM" not in h and "OLDYDIM" not in h, tag + "-leftover-keywords", "chunk keywords left in the header")
    sky(c, h, sky0, nx, ny, tag)


def chain(c, r):
    """split, synthesise each chunk, reassemble: against the whole"""
    from RMtools_3D import do_RMsynth_3D as T
    layout = str(r.choice(cube.LAYOUTS))
    ny, nx = int(r.integers(2, 5)), int(r.integers(2, 5))
    f = gen.freqs(r, n=int(r.integers(10, 24)))
    l2 = gen.lam2(f)
    fw = gen.fwhm_of(l2)
    n = len(f)
    P = .1 * (r.normal(size=(n, ny, nx)) + 1j * r.normal(size=(n, ny, nx)))
    for y in range(ny):
        for x in range(nx):
            P[:, y, x] += gen.thin(l2, r.uniform(-4, 4) * fw, r.uniform(.1, 1), r.uniform(0, 180))
    h = cube.header(r, layout, f)
    d, cwd = c.tmpdir(), c.tmpdir()
    fs = {}
    for k, a in (("Q", P.real), ("U", P.imag)):
        fs[k] = os.path.join(d, "in%s.fits" % k)
        cube.write(fs[k], a, layout, h)
    ff = os.path.join(d, "f.dat")
    np.savetxt(ff, f)
    nper = int(r.integers(1, nx * ny + 2))
    c.label = "chain-" + layout
    c.context = dict(layout=layout, image=(ny, nx), nper=nper)
    opts = ["-l", repr(float(fw * 5)), "-d", repr(float(fw / 4))]
    run_main(T.main, ["rmsynth3d", fs["Q"], fs["U"], ff, "-o", "whole_"] + opts, cwd)
    for k in "QU":
        split(c, fs[k], nper, cwd, r, None)
    cq = sorted(x for x in os.listdir(d) if x.startswith("inQ.C"))
    for x in cq:
        run_main(T.main, ["rmsynth3d", os.path.join(d, x), os.path.join(d, x.replace("inQ", "inU")), ff, "-o", "pc" + x[3:-4]] + opts, cwd)
    c.event("full_chain")
    for nm in ("FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty", "RMSF_real", "RMSF_im", "RMSF_FWHM"):
        one = os.path.join(d, "pc" + cq[0][3:-4] + nm + ".fits")
        if not c.check(os.path.exists(one), "chain-missing", one):
            continue
        out = os.path.join(d, "joined_" + nm + ".fits")
        join(c, one, out, cwd, r)
        g, hg = cube.read(out)[0]
        w, hw = cube.read(os.path.join(d, "whole_" + nm + ".fits"))[0]
        if c.check(g.shape == w.shape, "chain-shape", lambda: "%s: %s, whole %s" % (nm, g.shape, w.shape)):
            c.close(g, w, "chain-values", rtol=1e-4, atol=3e-5 * np.nanmax(np.abs(w)), what=nm)
            sky(c, hg, cube.sky_of(hw, nx, ny), nx, ny, "chain")
    c.observed((c.seed, c.idx), c.context)
