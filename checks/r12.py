"""R12: 3D synthesis products on disk: values, axes, sky coordinates, read-back."""
import builtins, os, shutil
import numpy as np
from rvm import gen, ref, cube
from checks.r09 import run_main, sha

CASES = {"quick": 800, "thorough": 15000}
RULE = ("random arrays and real syntheses written through the library and the command line in every layout (3 axes, Stokes axis third or fourth, single "
        "rows, columns and pixels), separate or combined, and read back with astropy and with the cleaning tool's reader; distinct by draw")
MIN_EVENTS = {"product_sets": 330, "cubes_compared": 1500, "depth_axes": 1200, "sky_grids": 1500, "maps_compared": 500, "combined_files": 80,
              "four_axis": 150, "degenerate_images": 80, "read_backs": 300, "cli_runs": 100, "files_unchanged": 150, "awkward_names": 60, "earlier_products": 60}
ASSUMPTIONS = ["headers describe axes with CRPIX/CRVAL/CDELT (and PC) keywords", "the cleaning tool reads the separate files (its documented input)"]
CASE_LIMIT = {"quick": 150, "thorough": 200}


def quiet(*a, **k):
    pass


def names(r, c):
    d = c.tmpdir()
    pre = str(r.choice(["", "a_", "obs1.", "src_im_", "x_tot_", "field_real_"]))
    if r.random() < .25:
        d = os.path.join(d, str(r.choice(["my_image_set", "run_total", "a_real"])))
        os.makedirs(d)
        c.event("awkward_names")
    elif "_" in pre and pre != "a_":
        c.event("awkward_names")
    return d, pre


STALE = ["FDF_real_dirty.fits", "FDF_im_dirty.fits", "FDF_tot_dirty.fits", "FDF_dirty.fits", "RMSF_real.fits", "RMSF_im.fits", "RMSF_tot.fits",
         "RMSF.fits", "RMSF_FWHM.fits", "FDF_maxPI.fits", "FDF_peakRM.fits"]


def stale(c, r, d, pre):
    """products of an earlier, different run under the same names"""
    out = {}
    if r.random() < .3:
        for n in STALE:
            p = os.path.join(d, pre + n)
            cube.pf.writeto(p, np.full((2, 3, 2), 7.5, dtype="float32"), cube.pf.Header([("OLDRUN", True)]))
            out[pre + n] = sha(p)
        c.event("earlier_products")
    return out


def after(c, d, old, made):
    """what the run did not have to write is what it was, what it wrote has nothing of the earlier run"""
    for n, s in old.items():
        p = os.path.join(d, n)
        if n in made:
            c.check(not any("OLDRUN" in h for _, h in cube.read(p)), "earlier-product-kept", n)
        elif c.check(os.path.exists(p) and sha(p) == s, "unrelated-file-touched", n):
            os.remove(p)


def check_cube(c, data, h, want, layout, phi, tag, sky0, stokes=None, prec=0.0, n=None):
    """one product extension"""
    ny, nx = want.shape[1:]
    c.event("cubes_compared")
    if not c.check(data.ndim == (3 if layout == "3" else 4), tag + "-axes", lambda: "%d axes for layout %s" % (data.ndim, layout)):
        return
    fa = cube.find(h, "FDEP")
    wf = 4 if layout == "4s3" else 3
    if not c.check(fa == wf, tag + "-depth-axis-position", lambda: "depth on axis %d, frequency was on %d" % (fa, wf)):
        return
    try:
        g = cube.unplace(data, layout)
    except Exception as e:
        return c.violate(tag + "-layout", repr(e))
    for k, v in (("DATAMAX", np.nanmax), ("DATAMIN", np.nanmin)):
        if k in h and np.isfinite(data).any():
            c.close(h[k], v(data), tag + "-stale-range", rtol=1e-5, what=k)
    c.check([h["NAXIS%d" % i] for i in range(1, h["NAXIS"] + 1)] == list(data.shape[::-1]), tag + "-shape", "header and data disagree")
    c.close(g, want, tag + "-values", rtol=prec, atol=prec * np.nanmax(np.abs(np.nan_to_num(want))) if prec else 0, what="%s %s" % (tag, layout))
    axis(c, h, fa, phi, tag)
    sky(c, h, sky0, nx, ny, tag)
    if stokes and layout != "3":
        sa = cube.find(h, "STOKES")
        c.check(sa == (3 if layout == "4s3" else 4) and h["CRVAL%d" % sa] == stokes and h["CRPIX%d" % sa] == 1, tag + "-stokes-axis",
                lambda: "Stokes axis %d value %r" % (sa, h.get("CRVAL%d" % sa)))


def axis(c, h, fa, phi, tag):
    c.event("depth_axes")
    p = np.asarray(phi, float)
    step = (p[-1] - p[0]) / (len(p) - 1)
    eps = 2.0 ** -22 if c.single else 1e-13
    # the increment is the difference of two neighbouring samples in the axis' own precision
    t = len(p) * eps * np.abs(p).max() + 1e-9 * abs(step)
    if c.check(h["NAXIS%d" % fa] == len(p), tag + "-depth-count", lambda: "%d planes, %d depths" % (h["NAXIS%d" % fa], len(p))):
        c.close(cube.lin(h, fa), p, tag + "-depth-values", rtol=0, atol=t, what="depth axis from header")
    c.check(h.get("CUNIT%d" % fa) == "rad/m^2", tag + "-depth-unit", lambda: repr(h.get("CUNIT%d" % fa)))


def sky(c, h, sky0, nx, ny, tag):
    if sky0 is None:
        return
    c.event("sky_grids")
    try:
        s = cube.sky_of(h, nx, ny)
    except Exception as e:
        return c.violate(tag + "-sky", repr(e))
    c.close(s, sky0, tag + "-sky", rtol=1e-10, atol=1e-9, what="sky coordinates")


def run_case(c):
    r = c.rng
    layout = str(r.choice(cube.LAYOUTS))
    if layout != "3":
        c.event("four_axis")
    ny, nx = gen.image(c, [(3, 4), (2, 5), (4, 4), (1, 6), (5, 1), (1, 1), (7, 3)], .03, 14, 36)
    if 1 in (ny, nx):
        c.event("degenerate_images")
    f = gen.freqs(r)
    if r.random() < .3:
        f = f[::-1].copy()
    h = cube.header(r, layout, f)
    nosky = r.random() < .1 and layout == "3"
    if nosky:
        # headers without CTYPE cards: the last axis is taken as frequency
        for k in [k for k in h if k.startswith(("CTYPE", "CUNIT", "PC"))]:
            del h[k]
    (cli if c.idx % 3 == 0 else lib)(c, r, layout, ny, nx, f, h, nosky)


def products(c, r, d, pre, sep, layout, want, phi, phi2, h0, sky0, prec, norm, norf, lam0, bits):
    """compare everything on disk with the arrays"""
    F, R, wid = want
    nx = (F if F is not None else R).shape[2]; ny = (F if F is not None else R).shape[1]
    sets = []
    if F is not None:
        sets.append(("fdf", F, phi, "FDF_real_dirty.fits", "FDF_im_dirty.fits", "FDF_tot_dirty.fits", "FDF_dirty.fits"))
    if R is not None:
        sets.append(("rmsf", R, phi2, "RMSF_real.fits", "RMSF_im.fits", "RMSF_tot.fits", "RMSF.fits"))
    made = set()
    for tag, A, ph, fr, fi, ft, fc in sets:
        if sep:
            fs = [os.path.join(d, pre + x) for x in (fr, fi, ft)]
            made |= {pre + x for x in (fr, fi, ft)}
            if not all(c.check(os.path.exists(x), "missing-product", x) for x in fs):
                return
            ext = [cube.read(x)[0] for x in fs]
        else:
            made.add(pre + fc)
            p = os.path.join(d, pre + fc)
            if not c.check(os.path.exists(p), "missing-product", p):
                return
            ext = cube.read(p)
            c.event("combined_files")
            c.check(len(ext) == (3 if tag == "fdf" else 4), tag + "-extensions", "%d extensions" % len(ext))
        check_cube(c, ext[0][0], ext[0][1], A.real, layout, ph, tag + "-real", sky0, 2, prec)
        check_cube(c, ext[1][0], ext[1][1], A.imag, layout, ph, tag + "-imag", sky0, 3, prec)
        check_cube(c, ext[2][0], ext[2][1], np.abs(A), layout, ph, tag + "-modulus", sky0, None, max(prec, 2e-7 if bits == 32 else 1e-15))
        if ext[0][0].shape == ext[1][0].shape == ext[2][0].shape:
            m = np.hypot(ext[0][0].astype(float), ext[1][0].astype(float))
            c.close(ext[2][0], m, tag + "-modulus-consistency", rtol=4e-7, atol=1e-30, what="modulus against parts")
        c.close(ext[0][1].get("LAMSQ0", np.nan), lam0 if np.isfinite(lam0) else 0.0, tag + "-reference-wavelength", rtol=1e-6, atol=1e-12, what="LAMSQ0")
        if tag == "fdf" and "BUNIT" in h0:
            for _, hh in ext[:3]:
                c.check(hh.get("BUNIT") == h0["BUNIT"] + "/RMSF", "fdf-unit", lambda: repr(hh.get("BUNIT")))
        if tag == "rmsf":
            if sep:
                p = os.path.join(d, pre + "RMSF_FWHM.fits")
                made.add(pre + "RMSF_FWHM.fits")
                if not c.check(os.path.exists(p), "missing-product", p):
                    return
                w, hw = cube.read(p)[0]
            else:
                w, hw = ext[3]
            plane(c, w, hw, wid, sky0, "width-map", prec, two=True)
            c.check(hw.get("BUNIT") == "rad/m^2", "width-map-unit", repr(hw.get("BUNIT")))
            left = [k for k in hw if k[:5] in ("CTYPE", "CRVAL", "CDELT", "CRPIX", "NAXIS") and k[5:] and int(k[5:].split("_")[0].rstrip("ABCDEFG") or 0) > 2]
            c.check(not left, "width-map-axes", lambda: "a plane described with %s" % left)
        # the cleaning tool's reader
        if sep:
            from RMtools_3D import do_RMclean_3D as K
            from RMutils.util_RM import fits_make_lin_axis
            x = fs[int(r.integers(3))]
            cc, hh, ax = K.read_FDF_cubes(x)
            c.event("read_backs")
            z = np.squeeze(ext_complex(ext, layout))
            if c.check(np.shape(cc) == z.shape, "read-back-shape", lambda: "%s, expected %s" % (np.shape(cc), z.shape)):
                c.close(cc, z, "read-back-values", rtol=0, what="cube read by the cleaning tool from %s" % os.path.basename(x))
            g = fits_make_lin_axis(hh, axis=ax - 1, dtype="float64")
            c.close(g, cube.lin(ext[0][1], cube.find(ext[0][1], "FDEP")), "read-back-axis", rtol=1e-9, atol=1e-6 * abs(float(ph[1] - ph[0])), what="axis read by the cleaning tool")
    return made


def ext_complex(ext, layout):
    return cube.unplace(ext[0][0], layout) + 1j * cube.unplace(ext[1][0], layout)


def plane(c, w, hw, want, sky0, tag, prec, two=False):
    c.event("maps_compared")
    ny, nx = want.shape
    if two:
        if not c.check(w.shape == (ny, nx), tag + "-shape", lambda: "%s, expected %s" % (w.shape, (ny, nx))):
            return
    elif not c.check(w.shape[-2:] == (ny, nx) and w.size == ny * nx, tag + "-shape", lambda: "%s, expected %s" % (w.shape, (ny, nx))):
        return
    c.close(w.reshape(ny, nx), want, tag + "-values", rtol=max(prec, 0), what=tag)
    sky(c, hw, sky0, nx, ny, tag)


def mapunit(c, hh, h0, tag):
    want = h0.get("BUNIT") if tag == "max" else "rad/m^2"
    c.check(hh.get("BUNIT") == want or not want and not hh.get("BUNIT"), tag + "-map-unit", lambda: "%r, expected %r" % (hh.get("BUNIT"), want))
    ax = [hh.get("CTYPE%d" % i, "") for i in range(1, hh["NAXIS"] + 1)]
    c.check(not any("FREQ" in x.upper() or x == "FDEP" for x in ax), tag + "-map-axes", str(ax))


def lib(c, r, layout, ny, nx, f, h, nosky):
    from RMtools_3D import do_RMsynth_3D as T
    d, pre = names(r, c)
    bits = int(r.choice([32, 64], p=[.7, .3]))
    nphi = int(r.integers(2, 25)) * 2 + 1
    step = 10 ** r.uniform(-2, 3)
    phi = ((np.arange(nphi) - nphi // 2) * step).astype("float%d" % bits)
    c.single = bits == 32
    n2 = 2 * nphi + 1
    phi2 = ((np.arange(n2) - n2 // 2) * step).astype("float%d" % bits)
    cd = "complex%d" % (2 * bits)
    F = (r.normal(size=(nphi, ny, nx)) + 1j * r.normal(size=(nphi, ny, nx))).astype(cd)
    R = (r.normal(size=(n2, ny, nx)) + 1j * r.normal(size=(n2, ny, nx))).astype(cd)
    wid = r.uniform(1, 9, (ny, nx)).astype("float%d" % bits)
    if r.random() < .4:
        m = r.random((ny, nx)) < .3
        F[:, m] = np.nan + 1j * np.nan
    lam0 = float(r.uniform(.01, .3)) if r.random() > .05 else np.nan     # no reference when every channel is flagged
    norm, norf = [(False, False), (False, False), (False, True), (True, False)][int(r.integers(4))]
    dataArr = [np.squeeze(F), phi, lam0, gen.lam2(f)] if norf else (
        [R, phi2, wid, wid * 0, lam0] if norm else [np.squeeze(F), phi, R, phi2, wid, wid * 0, lam0, gen.lam2(f)])
    if not norf and layout != "3" and 1 in (ny, nx):
        # four-axis inputs reach the synthesis with their degenerate axes removed
        i = 0 if norm else 2
        dataArr[i], dataArr[i + 2] = np.squeeze(R), np.squeeze(wid)
    # template as read from a file
    p = os.path.join(c.tmpdir(), "in.fits")
    cube.write(p, np.zeros((len(f), ny, nx)), layout, h)
    h0 = cube.read(p)[0][1]
    sky0 = None if nosky else cube.sky_of(h0, nx, ny)
    sep = bool(r.random() < .6)
    peaks = bool(r.random() < .7)
    c.label = "lib-" + layout
    c.context = dict(layout=layout, image=(ny, nx), bits=bits, sep=sep, prefix=pre, norm=norm, norf=norf, peaks=peaks, noctype=nosky)
    hc = h0.copy()
    old = stale(c, r, d, pre)
    T.writefits(dataArr, headtemplate=h0, prefixOut=pre, outDir=d, nBits=bits, write_seperate_FDF=sep, not_rmsynth=norm, not_rmsf=norf,
                do_peakmaps=peaks, verbose=False, log=quiet)
    c.event("product_sets")
    c.check(str(h0) == str(hc), "template-header-modified", "the caller's header was changed")
    made = products(c, r, d, pre, sep, layout, (None if norm else F, None if norf else R, wid), phi, phi2, h0, sky0, 0.0, norm, norf, lam0, bits)
    if made is None:
        return
    if not norm and peaks:
        for nm, tag in (("FDF_maxPI.fits", "max"), ("FDF_peakRM.fits", "peak-depth")):
            made.add(pre + nm)
            q = os.path.join(d, pre + nm)
            if not c.check(os.path.exists(q), "missing-product", q):
                return
            g, hh = cube.read(q)[0]
            a = np.abs(F)
            b = np.isnan(a).all(axis=0)
            want = np.where(b, np.nan, np.nan_to_num(a).max(0)) if tag == "max" else np.where(b, np.nan, phi[np.nan_to_num(a).argmax(0)])
            plane(c, g, hh, want.astype("float%d" % bits), sky0, tag + "-map", 1e-6 if bits == 32 else 1e-12)
            mapunit(c, hh, h0, tag)
    after(c, d, old, made)
    c.check(set(os.listdir(d)) == made, "product-files", lambda: "extra %s, missing %s" % (set(os.listdir(d)) - made, made - set(os.listdir(d))))
    c.observed((c.seed, c.idx), c.context)


def cli(c, r, layout, ny, nx, f, h, nosky):
    from RMtools_3D import do_RMsynth_3D as T
    d, pre = names(r, c)
    cwd = c.tmpdir()
    c.single = True
    n = len(f)
    l2 = gen.lam2(f)
    fw = gen.fwhm_of(l2)
    P = .1 * (r.normal(size=(n, ny, nx)) + 1j * r.normal(size=(n, ny, nx)))
    for y in range(ny):
        for x in range(nx):
            P[:, y, x] += gen.thin(l2, r.uniform(-4, 4) * fw, r.uniform(.1, 1), r.uniform(0, 180))
    Q, U = P.real.astype("float32"), P.imag.astype("float32")
    fl = str(r.choice(["none", "chan", "vox"]))
    if fl == "chan":
        k = r.random(n) < .2
        k[:4] = False
        Q[k] = U[k] = np.nan
    if fl == "vox":
        k = r.random(Q.shape) < .1
        k[:4] = False
        Q[k] = U[k] = np.nan
    fQ, fU, fI, ff, fn = [os.path.join(d, x) for x in ("inQ.fits", "inU.fits", "inI.fits", "freqs.dat", "noise.dat")]
    inputs = [fQ, fU, ff]
    cube.write(fQ, Q, layout, h, stokes=2)
    cube.write(fU, U, layout, h, stokes=3)
    np.savetxt(ff, f)
    argv = ["rmsynth3d", fQ, fU, ff]
    kw = dict(phiMax_radm2=float(fw * r.uniform(2, 12)), dPhi_radm2=float(fw / r.uniform(3, 8)))
    argv += ["-l", repr(kw["phiMax_radm2"]), "-d", repr(kw["dPhi_radm2"])]
    if r.random() < .25:
        del kw["dPhi_radm2"]
        argv = argv[:-2]
        kw["nSamples"] = float(r.choice([4, 6, 7.5]))
        argv += ["-s", repr(kw["nSamples"])]
    I = None
    if r.random() < .3:
        I = (r.uniform(1, 3, (ny, nx)) * (f / f.mean())[:, None, None] ** -.8).astype("float32")
        cube.write(fI, I, layout, h)
        inputs.append(fI)
        argv += ["-i", fI]
    if I is None and r.random() < .6 or I is not None and r.random() < .3:
        c.event("noise_and_model", I is not None)
        rms = 10 ** r.uniform(-3, -2) * r.uniform(.5, 2, n)
        np.savetxt(fn, rms)
        inputs.append(fn)
        argv += ["-n", fn]
        kw["rmsArr"] = rms
    wt = str(r.choice(["variance", "uniform", "default"]))
    if wt != "default":
        argv += ["-w", wt]
        kw["weightType"] = wt
    sep = bool(r.random() < .7)
    if not sep:
        argv.append("-f")
    norf = bool(r.random() < .2)
    if norf:
        argv.append("-R")
    if pre:
        argv += ["-o", pre]
    if r.random() < .2:
        argv.append("-v")
    if r.random() < .12:
        argv.append("-r")
        kw["super_resolution"] = True
    elif r.random() < .15:
        argv.append("-t")
        kw["fitRMSF"] = True
    c.label = "cli-" + layout
    c.context = dict(layout=layout, image=(ny, nx), argv=argv[4:], flags=fl, noctype=nosky)
    hs = {x: sha(x) for x in inputs}
    before = stale(c, r, d, pre)
    old = builtins.input
    builtins.input = lambda *a: ""              # the tool asks for a key with both a model and a noise file
    try:
        run_main(T.main, argv, cwd)
    finally:
        builtins.input = old
    c.event("cli_runs")
    c.event("product_sets")
    for x, s in hs.items():
        c.event("files_unchanged")
        c.check(sha(x) == s, "input-file-modified", os.path.basename(x))
    o = T.run_rmsynth(Q, U, f, dataI=I, verbose=False, log=quiet, **{"nSamples": 5, **kw})
    F = np.asarray(o[0]).reshape(-1, ny, nx)
    R = None if norf else np.asarray(o[2]).reshape(-1, ny, nx)
    wid = None if norf else np.asarray(o[4]).reshape(ny, nx)
    h0 = cube.read(fQ)[0][1]
    sky0 = None if nosky else cube.sky_of(h0, nx, ny)
    made = products(c, r, d, pre, sep, layout, (F, R, wid), o[1], None if norf else o[3], h0, sky0, 2e-5, False, norf,
                    float(np.nan_to_num(o[6])), 32)
    if made is None:
        return
    for nm, tag in (("FDF_maxPI.fits", "max"), ("FDF_peakRM.fits", "peak-depth")):
        made.add(pre + nm)
        q = os.path.join(d, pre + nm)
        if not c.check(os.path.exists(q), "missing-product", q):
            return
        g, hh = cube.read(q)[0]
        a = np.abs(F)
        b = np.isnan(a).all(axis=0)
        mapunit(c, hh, h0, tag)
        if tag == "max":
            plane(c, g, hh, np.where(b, np.nan, np.nan_to_num(a).max(0)).astype("float32"), sky0, "max-map", 1e-4)
        elif g.size == ny * nx and g.shape[-2:] == (ny, nx):
            g = g.reshape(ny, nx)
            c.event("maps_compared")
            for y, x in np.ndindex(ny, nx):
                if not b[y, x]:
                    j = np.argmin(np.abs(o[1] - g[y, x]))
                    c.check(a[j, y, x] >= a[:, y, x].max() * (1 - 1e-4) and abs(o[1][j] - g[y, x]) < 1e-3 * abs(o[1][1] - o[1][0]),
                            "peak-depth-map-values", lambda: "pixel (%d,%d): depth %r" % (x, y, g[y, x]))
            sky(c, hh, sky0, nx, ny, "peak-depth-map")
        else:
            c.violate("peak-depth-map-shape", str(g.shape))
    after(c, d, before, made)
    left = set(os.listdir(d)) - {os.path.basename(x) for x in inputs}
    c.check(left == made, "product-files", lambda: "extra %s, missing %s" % (left - made, made - left))
    c.check(os.listdir(cwd) == [], "stray-files", lambda: str(os.listdir(cwd)))
    c.observed((c.seed, c.idx), c.context)
