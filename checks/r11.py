"""R11: 3D synthesis against each pixel's own transform."""
import os, json
import numpy as np
from rvm import gen, ref, cube
from checks.r01 import tol
from checks.r09 import run_main

CASES = {"quick": 900, "thorough": 12000}
RULE = ("library synthesis of random arrays (1 to 3 axes, single rows, columns and pixels) x noise vectors x flags x Stokes I models, each pixel against a "
        "direct sum over its own channels; peak maps; the FITS single-pixel tool against 1D synthesis of that pixel; distinct by draw")
MIN_EVENTS = {"synth_calls": 380, "fdf_pixels": 1800, "rmsf_pixels": 1500, "stokes_I_models": 150, "model_values_exact": 60, "peak_maps": 300,
              "blank_pixels": 60, "isolated_flags": 150, "permutation_pairs": 80, "fits_pixels": 30, "unasked_products": 6, "pixels_outside": 4, "zero_spectra": 3, "degenerate_shapes": 60}
ASSUMPTIONS = ["the dispersion function is computed in single precision (tolerance as for R01)",
               "the Stokes I model at the reference frequency is compared exactly for models linear in frequency and otherwise bounded by its two nearest planes"]
CASE_LIMIT = {"quick": 150, "thorough": 200}


def quiet(*a, **k):
    pass


def run_case(c):
    if c.idx % 8 == 7:
        return fits_pixel(c)
    api(c)


def draw_flags(r, n, npix):
    kind = str(r.choice(["none", "channels", "voxels", "pixels", "mixed"], p=[.3, .15, .25, .1, .2]))
    mq = np.zeros((n, npix), bool)
    if kind in ("channels", "mixed"):
        mq[r.random(n) < .2] = True
    if kind in ("voxels", "mixed"):
        mq |= r.random((n, npix)) < .15
    if kind in ("pixels", "mixed") and npix > 1:
        mq[:, r.random(npix) < .25] = True
    mu = mq.copy()
    if kind != "none" and r.random() < .3:
        mu = mq | (r.random((n, npix)) < .1)
        kind += "+U"
    return mq, mu, kind


def api(c):
    from RMtools_3D import do_RMsynth_3D as T
    r = c.rng
    shape = gen.image(c, [(3, 4), (2, 5), (1, 4), (4, 1), (1, 1), (5,), (1,), (), (2, 2), (6, 3)], .03, 18, 40)
    npix = int(np.prod(shape)) if shape else 1
    f = gen.freqs(r)
    order = str(r.choice(["asc", "desc", "shuffled"], p=[.6, .25, .15]))
    f = f[::-1].copy() if order == "desc" else (r.permutation(f) if order == "shuffled" else f)
    l2 = gen.lam2(f)
    n = len(f)
    dl = np.abs(np.diff(l2))
    mq, mu, fk = draw_flags(r, n, npix)
    bad = mq | mu
    if (~bad).any(axis=1).sum() < 4:
        mq[:] = mu[:] = bad = np.zeros((n, npix), bool)
        fk = "none"
    rms = 10 ** r.uniform(-3, -2) * r.uniform(.5, 2, n) if r.random() < .6 else None
    if rms is not None and r.random() < .3:
        rms = rms * 10 ** r.uniform(-2, 1, n)
    wt = str(r.choice(["variance", "uniform"]))
    w = 1 / rms ** 2 if (rms is not None and wt == "variance") else np.ones(n)
    sres = r.random() < .12
    fw = 2 / (l2.max() + l2.min()) if sres else 3.8 / (l2.max() - l2.min())
    # axis options
    ax = str(r.choice(["both", "spacing", "max", "auto"], p=[.5, .2, .2, .1]))
    kw = dict(nSamples=float(r.choice([4., 5, 8])))
    if ax in ("both", "spacing"):
        kw["dPhi_radm2"] = float(fw / r.uniform(3, 9))
    if ax in ("both", "max"):
        kw["phiMax_radm2"] = float(fw * r.uniform(1, 12))
    d = kw.get("dPhi_radm2", fw / kw["nSamples"])
    pm = kw.get("phiMax_radm2", max(np.sqrt(3) / dl.max(), 10 * fw))
    if pm / d > 1500:
        kw["phiMax_radm2"] = pm = float(d * 300)
    half = int(round(pm / d))
    phi_want = (np.arange(2 * half + 1) - half) * d
    if abs(pm / d - np.floor(pm / d) - .5) < 1e-6:
        return
    # signal
    P = 10 ** r.uniform(-4, -1) * (r.normal(size=(n, npix)) + 1j * r.normal(size=(n, npix)))
    for k in range(npix):
        P[:, k] += gen.thin(l2, r.uniform(-.9, .9) * pm, r.uniform(.05, 2), r.uniform(0, 180))
    dt = str(r.choice(["float32", "float64", ">f4"]))
    Q, U = P.real.astype(dt), P.imag.astype(dt)
    Q[mq], U[mu] = np.nan, np.nan
    ik = str(r.choice(["none", "linear", "power"], p=[.5, .3, .2]))
    full = (n,) + shape
    I = None
    x = (f - f.mean()) / f.mean()
    if ik == "linear":
        I = r.uniform(.2, 5, npix) * (1 + np.outer(x, r.uniform(-1.2, 1.2, npix)))
    elif ik == "power":
        I = r.uniform(.2, 5, npix) * np.exp(np.outer(np.log(f / f.mean()), r.uniform(-2, 1, npix)))
    if I is not None:
        I = np.abs(I) + 1e-3
        linear_ok = ik == "linear" and np.all(np.abs(x).max() * 1.2 < 1)
        I = I.astype("float32" if dt != "float64" else dt)
    zero = None
    if I is not None and r.random() < .35:
        # voxels where the model is zero or blank, away from the planes the interpolation uses
        zero = r.random((n, npix)) < .08
        both = bad | zero
        lam = ref.fdf(np.where(both, np.nan, 0.), np.where(both, np.nan, 0.), l2, np.zeros(1), w, 0 if sres else None)[1]
        f0 = f.mean() if sres else gen.C / np.sqrt(lam)
        near = np.argsort(np.abs(f - f0))[:4]
        so = np.argsort(f); u = np.clip(np.searchsorted(f[so], f0), 1, n - 1)
        zero[list(near) + [so[u - 1], so[u]]] = False
        if (~(bad | zero)).any(axis=1).sum() < 4 or np.any((bad | zero).all(axis=1) != bad.all(axis=1)):
            zero = None
        else:
            I[zero] = r.choice([0.0, np.nan])
            bad = bad | zero
    c.label = "api-%d" % (1 + len(shape))
    c.context = dict(shape=full, flags=fk, order=order, model=ik, zero_model=zero is not None, weight=wt, rms=rms is not None, axis=ax, superres=sres, dtype=dt)
    a = dict(dataQ=Q.reshape(full), dataU=U.reshape(full), dataI=None if I is None else I.reshape(full))
    snap = c.snapshot(rms=rms, freq=f, **a)
    out = T.run_rmsynth(freqArr_Hz=f, rmsArr=rms, weightType=wt, verbose=c.idx % 5 == 3, log=quiet, super_resolution=sres, **a, **kw)
    c.event("synth_calls")
    c.unchanged(snap)
    F, phi, R, phi2, wid, stat, lam0, l2out = out
    nphi = len(phi)
    if not c.check(nphi == len(phi_want), "axis-length", lambda: "%d samples, expected %d" % (nphi, len(phi_want))):
        return
    c.close(phi, phi_want, "axis-values", rtol=1e-5, atol=1e-6 * abs(phi_want).max(), what="depth axis")
    c.close(l2out, l2, "lambda-squared", rtol=1e-12, what="lambda^2")
    q64, u64 = Q.astype(float), U.astype(float)
    if I is not None:
        with np.errstate(all="ignore"):
            q64, u64 = q64 / I.astype(float), u64 / I.astype(float)
    q64[bad] = np.nan
    u64[bad] = np.nan
    want, lam_ref, S = ref.fdf(q64, u64, l2, phi.astype(float), w, 0 if sres else None)
    c.close(lam0, lam_ref, "reference-wavelength", rtol=1e-5, atol=0 if lam_ref else 1e-12, what="lambda0^2")
    want = ref.fdf(q64, u64, l2, phi.astype(float), w, float(lam0))[0]
    if not c.check(np.size(F) == nphi * npix and tuple(np.squeeze(np.empty((nphi,) + shape)).shape) == np.squeeze(F).shape, "fdf-shape",
                   lambda: "%s for %s" % (np.shape(F), full)):
        return
    if npix == 1 or 1 in shape:
        c.event("degenerate_shapes")
    G = np.asarray(F).reshape(nphi, npix)
    f0 = gen.C / np.sqrt(lam0) if lam0 > 0 else f.mean()
    so = np.argsort(f)
    u = int(np.clip(np.searchsorted(f[so], f0), 1, n - 1))
    lo, hi = so[u - 1], so[u]
    if I is not None:
        c.event("stokes_I_models")
    wv = w[:, None] * ~bad
    with np.errstate(all="ignore"):
        scale = (np.abs(np.nan_to_num(q64) + 1j * np.nan_to_num(u64)) * wv).sum(0) / np.where(S > 0, S, 1)
    for k in range(npix):
        if S[k] <= 0:
            c.event("blank_pixels")
            c.check(np.isnan(G[:, k]).all(), "blank-pixel-not-nan", "pixel %d: %r" % (k, G[:2, k]))
            continue
        c.event("fdf_pixels")
        t = tol(32, phi, l2, float(lam0), scale[k])
        if I is None:
            c.close(G[:, k], want[:, k], "fdf-value", rtol=0, atol=t, what="pixel %d" % k)
            continue
        i1, i2 = float(I[lo, k]), float(I[hi, k])
        if linear_ok and zero is None or (linear_ok and not zero[[lo, hi], k].any()):
            v = i1 + (i2 - i1) * (f0 - f[lo]) / (f[hi] - f[lo])
            c.event("model_values_exact")
            c.close(G[:, k], want[:, k] * v, "fdf-value-with-model", rtol=1e-4, atol=v * t * 1.5, what="pixel %d" % k)
        else:
            # least-squares factor between the fractional transform and the result
            v = (np.vdot(want[:, k], G[:, k]) / np.vdot(want[:, k], want[:, k])).real
            sl = 1e-3 * max(i1, i2)
            c.check(min(i1, i2) - sl <= v <= max(i1, i2) + sl, "model-value", lambda: "pixel %d: factor %r, model %r..%r" % (k, v, i1, i2))
            c.close(G[:, k], want[:, k] * v, "fdf-value-with-model", rtol=1e-4, atol=abs(v) * t * 1.5 + 1e-30, what="pixel %d" % k)
    if bad.any():
        c.event("isolated_flags")
    # response function of each pixel
    R2 = np.asarray(R).reshape(len(phi2), npix)
    wantR = ref.rmsf(l2, phi2.astype(float), w, bad, float(lam0))[0]
    for k in range(npix):
        if S[k] > 0:
            c.event("rmsf_pixels")
            c.close(R2[:, k], wantR[:, k], "rmsf-value", rtol=0, atol=tol(32, phi2, l2, float(lam0), 1.0), what="pixel %d" % k)
    # peak maps
    if shape:
        FF = np.asarray(F).reshape((nphi,) + shape)
        axis = int(r.integers(0, FF.ndim))
        pk, rm = T.create_peak_maps(np.moveaxis(FF, 0, axis), phi, axis)
        c.event("peak_maps")
        pk, rm = np.asarray(pk).reshape(npix), np.asarray(rm).reshape(npix)
        for k in range(npix):
            m = np.abs(G[:, k])
            if np.isnan(m).all():
                c.check(np.isnan(pk[k]) and np.isnan(rm[k]), "peak-map-blank", "pixel %d: %r %r" % (k, pk[k], rm[k]))
            else:
                c.close(pk[k], m.max(), "peak-intensity", rtol=1e-6, what="pixel %d" % k)
                j = np.where(phi == rm[k])[0]
                c.check(len(j) == 1 and m[j[0]] >= m.max() * (1 - 1e-6), "peak-depth", lambda: "pixel %d: depth %r, peak at %r" % (k, rm[k], phi[int(m.argmax())]))
    c.observed((c.seed, c.idx), c.context)
    # switches compute the same halves; permuting pixels permutes results
    if r.random() < .15:
        o = T.run_rmsynth(freqArr_Hz=f, rmsArr=rms, weightType=wt, verbose=c.idx % 5 == 3, log=quiet, super_resolution=sres, not_rmsf=True, **a, **kw)
        c.close(o[0], F, "rmsf-switch-changes-fdf", rtol=1e-5, atol=1e-30 + 1e-6 * np.nanmax(np.abs(np.nan_to_num(G))), what="FDF without RMSF")
    if r.random() < .2:
        # the response alone: the same response, widths and reference wavelength
        o = T.run_rmsynth(freqArr_Hz=f, rmsArr=rms, weightType=wt, verbose=c.idx % 5 == 3, log=quiet, super_resolution=sres, not_rmsynth=True, **a, **kw)
        c.event("response_alone")
        if c.check(len(o) == 5, "response-alone", lambda: "%d results" % len(o)):
            c.close(np.asarray(o[0]).reshape(len(phi2), npix)[:, S > 0], R2[:, S > 0], "response-alone", rtol=1e-5, atol=3e-6, what="response without synthesis")
            c.close(o[1], phi2, "response-alone", rtol=1e-6, what="response axis")
            c.close(np.ravel(o[2])[S > 0], np.ravel(wid)[S > 0] if np.size(wid) == npix else wid, "response-alone", rtol=2e-3 if sres else 1e-5, what="widths")
            c.close(o[4], lam0, "response-alone", rtol=1e-5, what="lambda0^2")
    if npix > 1 and len(shape) == 2 and r.random() < .35:
        p = r.permutation(npix)
        b = {k: None if v is None else v.reshape(n, npix)[:, p].reshape(full) for k, v in a.items()}
        o = T.run_rmsynth(freqArr_Hz=f, rmsArr=rms, weightType=wt, verbose=c.idx % 5 == 3, log=quiet, super_resolution=sres, **b, **kw)
        c.event("permutation_pairs")
        c.close(np.asarray(o[0]).reshape(nphi, npix), G[:, p], "pixel-order", rtol=1e-4, atol=1e-30 + 3e-6 * np.nanmax(np.abs(np.nan_to_num(G)) + 0), what="permuted pixels")


def fits_pixel(c):
    """rmsynth1dFITS against 1D synthesis of the pixel's own spectrum"""
    from RMtools_1D import do_RMsynth_1D_fromFITS as X
    from RMtools_1D import do_RMsynth_1D as S
    r = c.rng
    n, ny, nx = int(r.integers(12, 40)), int(r.integers(2, 6)), int(r.integers(2, 6))
    f0 = r.uniform(.8e9, 1.4e9)
    f = f0 + np.arange(n) * r.uniform(2e6, 2e7) * (1 if r.random() < .7 else -.5)
    l2 = gen.lam2(f)
    d = c.tmpdir(); cwd = c.tmpdir()
    h = cube.header(r, "3", f, ctype="FREQ")
    fw = gen.fwhm_of(l2)
    P = .01 * (r.normal(size=(n, ny, nx)) + 1j * r.normal(size=(n, ny, nx)))
    for y in range(ny):
        for x in range(nx):
            P[:, y, x] += gen.thin(l2, r.uniform(-4, 4) * fw, r.uniform(.1, 1), r.uniform(0, 180))
    I = r.uniform(1, 3, (ny, nx)) * (f / f.mean())[:, None, None] ** r.uniform(-1.5, .5)
    Q, U = P.real.astype("float32"), P.imag.astype("float32")
    if r.random() < .3:
        Q[r.random(Q.shape) < .1] = np.nan
    I = I.astype("float32")
    pQ, pU, pI = [os.path.join(d, k + ".fits") for k in ("src_Q", "src_U", "src_I")]
    for p, a in ((pQ, Q), (pU, U), (pI, I)):
        cube.write(p, a, "3", h)
    x, y = int(r.integers(nx)), int(r.integers(ny))
    argv = ["rmsynth1dFITS", pQ, pU]
    skyc = r.random() < .3
    if skyc:
        ra, dec = [v[y, x] for v in cube.sky_of(h, nx, ny)]
        argv += ["%.12f" % ra, "%.12f" % dec, "-c"]
    else:
        argv += [str(x + 1), str(y + 1)]
    kw = dict(phiMax_radm2=float(fw * r.uniform(6, 15)), dPhi_radm2=float(fw / r.uniform(4, 8)))
    argv += ["-l", repr(kw["phiMax_radm2"]), "-d", repr(kw["dPhi_radm2"])]
    if r.random() < .5:
        argv += ["-w", "uniform"]; kw["weightType"] = "uniform"
    else:
        kw["weightType"] = "variance"
    withI = r.random() < .5
    if withI:
        argv += ["-I", pI]
        kw["polyOrd"] = int(r.integers(0, 3)); argv += ["-o", str(kw["polyOrd"])]
    bits = int(r.choice([32, 64]))
    if bits == 64:
        argv += ["-b"]
    if r.random() < .3:
        argv += ["-t"]; kw["fitRMSF"] = True
    if r.random() < .15:
        argv += ["-r"]; kw["super_resolution"] = True
    if r.random() < .3:
        argv += ["-s", "6"]; kw["nSamples"] = 6.0
        if r.random() < .7:
            k = argv.index("-d")
            del argv[k:k + 2]
            del kw["dPhi_radm2"]
    if withI and r.random() < .2:
        argv += ["-i"]; kw["noStokesI"] = True
    if r.random() < .3:
        argv += ["-U", "mJy"]; kw["units"] = "mJy"
    else:
        kw["units"] = h.get("BUNIT", "Jy/beam")
    if r.random() < .3:
        argv += ["-v"]
    quietly = r.random() < .2
    if not quietly:
        argv += ["-S"]
    if r.random() < .1:
        # nothing to see in one of the two
        k = r.random() < .5
        z = Q if k else U
        z[:, y, x] = 0
        cube.write(pQ if k else pU, z, "3", h)
        c.event("zero_spectra")
    bad = r.random() < .15
    if bad:
        # just outside the image: counted from the other edge it would be some pixel
        o = [(-1, y), (x, -1), (nx, y), (x, ny), (-nx, y)][int(r.integers(5))]
        argv[3:5] = [str(v + 1) for v in o]
        argv = [v for v in argv if v != "-c"]
        # (negative numbers are positions, not options)
    c.label = "fits-pixel"
    c.context = dict(pixel=(x, y), shape=(n, ny, nx), sky=skyc, argv=argv[4:])
    c.context["argv"] = argv[4:]
    before = sorted(os.listdir(d))
    if bad:
        c.event("pixels_outside")
        try:
            run_main(X.main, argv, cwd)
            c.check(sorted(os.listdir(d)) == before and quietly, "fits-pixel-outside", "pixel %s of %d x %d accepted" % (argv[3:5], nx, ny))
        except SystemExit as e:
            pass
        except Exception as e:
            pass
        c.check(sorted(os.listdir(d)) == before and not os.listdir(cwd), "fits-pixel-outside", lambda: "wrote %s" % (os.listdir(d) + os.listdir(cwd)))
        c.observed((c.seed, c.idx), c.context)
        return
    run_main(X.main, argv, cwd)
    c.event("fits_pixels")
    c.check(os.listdir(cwd) == [], "fits-stray-files", lambda: "written to the working directory: %s" % os.listdir(cwd))
    if quietly:
        c.event("unasked_products")
        c.check(sorted(os.listdir(d)) == before, "fits-unasked-files", lambda: "wrote %s" % sorted(set(os.listdir(d)) - set(before)))
        c.observed((c.seed, c.idx), c.context)
        return
    e = np.full(n, 1e-3)
    data = [f] + ([I[:, y, x].astype(float)] if withI else []) + [Q[:, y, x].astype(float), U[:, y, x].astype(float)] + ([e] if withI else []) + [e, e]
    m, a = S.run_rmsynth(data, nBits=bits, log=quiet, verbose=c.idx % 5 == 3, **kw)
    p = os.path.join(d, "src_Q_FDFdirty.dat")
    if not c.check(os.path.exists(p), "fits-missing-product", lambda: "%s" % os.listdir(d)):
        return
    g = np.loadtxt(p)
    amp = np.nanmax(np.abs(a["dirtyFDF"]))
    if not c.check(len(g) == len(a["phiArr_radm2"]), "fits-axis-length", lambda: "%d, expected %d" % (len(g), len(a["phiArr_radm2"]))):
        return
    c.close(g[:, 0], np.asarray(a["phiArr_radm2"], float), "fits-pixel-axis", rtol=1e-5, atol=1e-4 * abs(a["phiArr_radm2"][1] - a["phiArr_radm2"][0]), what="depth axis")
    if amp > 0:
        js = json.load(open(os.path.join(d, "src_Q_RMsynth.json")))
        for k in ("fwhmRMSF", "lam0Sq_m2", "N_channels", "min_freq", "max_freq", "dQU", "dFDFth", "polyOrd", "Ifreq0", "median_channel_width"):
            c.close(float(js[k]), float(m[k]), "fits-pixel-report", rtol=2e-3 if k == "fwhmRMSF" and kw.get("fitRMSF") else 2e-5, atol=0, what=k)
        c.check(js["units"] == kw["units"], "fits-pixel-units", lambda: "%r, expected %r" % (js["units"], kw["units"]))
    z = g[:, 1] + 1j * g[:, 2]
    c.close(z, np.asarray(a["dirtyFDF"]), "fits-pixel-spectrum", rtol=0, atol=2e-4 * amp, what="spectrum of pixel (%d,%d)" % (x, y))
    c.observed((c.seed, c.idx), c.context)
