"""R13: the 3D cleaning tool against cleaning each pixel's own spectrum, under different schedules."""
import os
import numpy as np
from rvm import gen, ref, cube, cleanw
from checks.r09 import run_main, sha
from checks.r12 import sky, axis

CASES = {"quick": 600, "thorough": 4500}
RULE = ("synthesis products in every layout cleaned by the command-line tool serially, by 2 to 4 worker processes with different chunk sizes and by a pool "
        "that executes tasks in scrambled order, and by the library; each pixel against cleaning it alone; distinct by draw")
MIN_EVENTS = {"clean_runs": 400, "pixels_compared": 1500, "cleaned_pixels": 900, "real_pools": 100, "scrambled_pools": 50, "chunk_without_pool": 15,
              "products_compared": 900, "separate_outputs": 120, "combined_outputs": 60, "files_unchanged": 1500, "four_axis": 100, "degenerate_images": 50,
              "windowed": 60, "own_widths": 100, "stops_judged": 1000}
ASSUMPTIONS = ["single-pixel cleaning is decided by R03 and R04", "input is the set of separate files, as the tool documents"]
CASE_LIMIT = {"quick": 150, "thorough": 200}


def quiet(*a, **k):
    pass


def put(path, a, layout, h, phi):
    h = h.copy()
    fa = 4 if layout == "4s3" else 3
    k = len(phi) // 2
    h["CTYPE%d" % fa], h["CUNIT%d" % fa] = "FDEP", "rad/m^2"
    h["CRPIX%d" % fa], h["CRVAL%d" % fa] = k + 1.0, float(phi[k])
    h["CDELT%d" % fa] = float(phi[1] - phi[0])
    cube.write(path, a, layout, h)


def run_case(c):
    from RMtools_3D import do_RMclean_3D as K
    from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
    r = c.rng
    c.single = True
    layout = str(r.choice(cube.LAYOUTS))
    ny, nx = gen.image(c, [(2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (1, 1), (2, 5)], .02, 9, 15)
    if layout != "3":
        c.event("four_axis")
    if 1 in (ny, nx):
        c.event("degenerate_images")
    s = cleanw.make(r, nd=3, bits=32, shape=(ny, nx), maxn=81)
    nphi, n2 = len(s["phi"]), len(s["phi2"])
    d = c.tmpdir()
    if r.random() < .3:
        d = os.path.join(d, str(r.choice(["im_real", "my_image", "a_tot_b"])))
        os.makedirs(d)
    pre = str(r.choice(["", "p_", "src_im_", "x_real."]))
    h = cube.header(r, layout, np.array([1e9, 1.1e9]))
    for k in ("DATAMAX", "DATAMIN"):
        h.remove(k, ignore_missing=True)
    if r.random() < .25:
        h["STOKES"] = "Q"
    hr = h.copy()
    F, R, wid = s["dirty"], s["rmsf"], np.asarray(s["fwhm"]).reshape(ny, nx).astype("float32")
    if len(np.unique(wid)) > 1:
        c.event("own_widths")
    # without a sample in the middle the axis needs its own reference pixel: covered by the header written here
    P = lambda x: os.path.join(d, pre + x)
    for nm, a in (("real", F.real), ("im", F.imag), ("tot", np.abs(F))):
        put(P("FDF_%s_dirty.fits" % nm), a, layout, h, s["phi"])
    for nm, a in (("real", R.real), ("im", R.imag), ("tot", np.abs(R))):
        put(P("RMSF_%s.fits" % nm), a, layout, hr, s["phi2"])
    import astropy.io.fits as pf
    h2 = pf.Header()
    for k in h:
        if k[-1:] in "12" or k in ("BUNIT", "EQUINOX"):
            h2[k] = h[k]
    pf.writeto(P("RMSF_FWHM.fits"), wid, h2, overwrite=True)
    inputs = [P(x) for x in os.listdir(d) for x in [x[len(pre):]]]
    hs = {x: sha(x) for x in inputs}
    H0 = cube.read(P("FDF_real_dirty.fits"))[0][1]
    sky0 = cube.sky_of(H0, nx, ny)
    fa = cube.find(H0, "FDEP")
    phi = fits_make_lin_axis(H0, axis=fa - 1, dtype="float32")
    phi2 = fits_make_lin_axis(cube.read(P("RMSF_real.fits"))[0][1], axis=fa - 1, dtype="float32")
    pk = s["peak"] or 1.0
    cut = float("%.5g" % (pk * 10 ** r.uniform(-1.5, .1)))
    gain = float(r.choice([.1, .2, .5]))
    nit = int(r.choice([5, 60, 400]))
    win = None
    if r.random() < .35:
        win = float("%.5g" % (cut * r.uniform(.3, 1)))
        c.event("windowed")
    # expected: every pixel on its own, from the values in the files
    want = {k: np.zeros((nphi, ny, nx), "complex64") for k in ("clean", "cc", "resid")}
    cnt = np.zeros((ny, nx))
    Ff = F.real.astype("float32") + 1j * F.imag.astype("float32")
    Rf = R.real.astype("float32") + 1j * R.imag.astype("float32")
    for y, x in np.ndindex(ny, nx):
        o = do_rmclean_hogbom(Ff[:, y, x].astype("complex64"), phi, Rf[:, y, x].astype("complex64"), phi2, np.float32(wid[y, x]), cut,
                              maxIter=nit, gain=gain, verbose=c.idx % 5 == 3, window=np.nan if win is None else win, log=quiet)
        want["clean"][:, y, x], want["cc"][:, y, x], cnt[y, x], want["resid"][:, y, x] = [np.asarray(v).reshape(-1) if i != 2 else int(v) for i, v in enumerate(o)]
        c.event("cleaned_pixels", cnt[y, x] > 0)
        # cleaning ends only at the limit, or when nothing above the cutoff is left
        if win is None and np.isfinite(Ff[:, y, x]).all() and np.isfinite(Rf[:, y, x]).all():
            mx = np.abs(want["resid"][:, y, x]).max()
            c.event("stops_judged")
            c.check(cnt[y, x] == nit or (cnt[y, x] < nit and mx < cut * (1 + 1e-5)), "stopped-early", lambda: "%d of %d iterations, residual %g, cutoff %g" % (cnt[y, x], nit, mx, cut))
    c.label = layout
    c.context = dict(layout=layout, image=(ny, nx), nphi=nphi, prefix=pre, dir=os.path.basename(d), cutoff=cut, window=win, gain=gain, maxiter=nit)
    runs = ["serial", str(r.choice(["pool", "pool", "scrambled", "chunk", "lib"]))]
    tol = 3e-5 * pk
    for j, how in enumerate(runs):
        out = "o%d_" % j
        argv = ["rmclean3d", P("FDF_%s_dirty.fits" % r.choice(["real", "im", "tot"])), P("RMSF_%s.fits" % r.choice(["real", "im", "tot"])),
                "-c", repr(cut), "-n", str(nit), "-g", repr(gain), "-o", out]
        if win is not None:
            argv += ["-w", repr(win)]
        comb = bool(r.random() < .4)
        if comb:
            argv.append("-f")
        cwd = c.tmpdir()
        c.context["how"] = how
        if how == "lib":
            pool = cleanw.ScrambledPool(r, "reversed") if r.random() < .5 else None
            o = K.run_rmclean(argv[1], argv[2], cut, maxIter=nit, gain=gain, verbose=c.idx % 5 == 3, log=quiet, window=np.nan if win is None else win, pool=pool)
            got = {"clean": o[0], "cc": o[1], "resid": o[3]}
            c.event("clean_runs")
            for k in got:
                z = cube.unplace(np.asarray(got[k]), layout) if np.ndim(got[k]) == (3 if layout == "3" else 4) else None
                if c.check(z is not None and z.shape == (nphi, ny, nx), "library-shape", lambda: "%s: %s for layout %s" % (k, np.shape(got[k]), layout)):
                    compare(c, z, want[k], "library-" + k, tol, F)
            c.close(np.asarray(o[2]).reshape(-1), cnt.reshape(-1), "library-iterations", rtol=0, what="iteration counts")
            continue
        if how == "pool":
            argv += ["--ncores", str(int(r.integers(2, 5)))]
            if r.random() < .7:
                argv += ["--chunk", str(int(r.choice([1, 2, 3, 7, 50])))]
            c.event("real_pools")
        if how == "chunk":
            argv += ["--chunk", "3"]
            c.event("chunk_without_pool")
        c.context["argv"] = argv[3:]
        if how == "scrambled":
            import schwimmbad
            old = schwimmbad.choose_pool
            schwimmbad.choose_pool = lambda *a, **k: cleanw.ScrambledPool(r, str(r.choice(["reversed", "random"])))
            try:
                run_main(K.main, argv + ["--ncores", "3"], cwd)
            finally:
                schwimmbad.choose_pool = old
            c.event("scrambled_pools")
        else:
            run_main(K.main, argv, cwd)
        c.event("clean_runs")
        made = set()
        for tag, nm in (("clean", "FDF_clean"), ("cc", "FDF_CC")):
            if comb:
                fs = [os.path.join(d, out + nm + ".fits")]
                c.event("combined_outputs")
            else:
                fs = [os.path.join(d, out + nm + x + ".fits") for x in ("_real", "_im", "_tot")]
                c.event("separate_outputs")
            made |= {os.path.basename(x) for x in fs}
            if not all(c.check(os.path.exists(x), "missing-product", x) for x in fs):
                return
            ext = cube.read(fs[0]) if comb else [cube.read(x)[0] for x in fs]
            if not c.check(len(ext) == 3 and all(e[0].ndim == (3 if layout == "3" else 4) for e in ext), tag + "-layout", "extensions or axes"):
                return
            c.event("products_compared", 3)
            A = [cube.unplace(e[0], layout) for e in ext]
            if not c.check(all(a.shape == (nphi, ny, nx) for a in A), tag + "-shape", lambda: "%s for layout %s" % (ext[0][0].shape, layout)):
                continue
            compare(c, A[0] + 1j * A[1], want[tag], tag, tol, F)
            c.close(A[2], np.abs(A[0] + 1j * A[1]), tag + "-modulus", rtol=1e-6, atol=1e-30, what="modulus")
            for i, e in enumerate(ext):
                fx = cube.find(e[1], "FDEP")
                c.check(fx == fa, tag + "-depth-axis", "axis %d" % fx)
                if fx:
                    axis(c, e[1], fx, s["phi"], tag)
                sky(c, e[1], sky0, nx, ny, tag)
                if layout != "3" and i < 2:
                    sa = cube.find(e[1], "STOKES")
                    c.check(sa and e[1]["CRVAL%d" % sa] == 2 + i, tag + "-stokes-axis", repr(e[1].get("CRVAL%d" % sa)))
                if "BUNIT" in H0:
                    c.check(e[1].get("BUNIT") == H0["BUNIT"], tag + "-unit", repr(e[1].get("BUNIT")))
        made.add(out + "CLEAN_nIter.fits")
        p = os.path.join(d, out + "CLEAN_nIter.fits")
        if c.check(os.path.exists(p), "missing-product", p):
            g, hh = cube.read(p)[0]
            if c.check(g.shape[-2:] == (ny, nx) and g.size == ny * nx, "iterations-shape", lambda: "%s for image %s" % (g.shape, (ny, nx))):
                c.close(g.reshape(ny, nx), cnt, "iterations", rtol=0, what="iteration counts (%s)" % how)
                sky(c, hh, sky0, nx, ny, "iterations")
        for x, sx in hs.items():
            c.event("files_unchanged")
            c.check(sha(x) == sx, "input-file-modified", os.path.basename(x))
        left = {x for x in os.listdir(d) if x.startswith(out)}
        c.check(left == made, "product-files", lambda: "extra %s, missing %s" % (left - made, made - left))
        c.check(os.listdir(cwd) == [], "stray-files", lambda: str(os.listdir(cwd)))
    c.observed((c.seed, c.idx), c.context)


def compare(c, z, want, tag, tol, F):
    for y, x in np.ndindex(want.shape[1:]):
        c.event("pixels_compared")
        if np.isnan(F[:, y, x]).any():
            # a blank pixel: nothing placed, still blank where it is a spectrum
            c.check(np.nan_to_num(np.abs(z[:, y, x])).max() == 0, tag + "-blank-pixel", "blank pixel (%d,%d) holds %r" % (x, y, z[0, y, x]))
            continue
        c.close(z[:, y, x], want[:, y, x], tag + "-values", rtol=0, atol=tol, what="%s of pixel (%d,%d)" % (tag, x, y))
