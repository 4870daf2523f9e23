"""R02: RMSF against a direct sum, its structural laws, and the shift identity with the FDF."""
import numpy as np
from scipy.optimize import least_squares
from rvm import gen, ref
from checks.r01 import flags

CASES = {"quick": 1200, "thorough": 20000}
RULE = ("random wavelength sampling x weights x 1/2/3-D mask (none, channels, isolated, whole pixels) x depth axis x precision x "
        "doubled or not x fitted or not x reference wavelength; distinct by the full draw")
MIN_EVENTS = {"rmsf_calls": 800, "pixels_compared": 2000, "isolated_flags": 200, "shift_identities": 200, "width_fits": 15,
              "lobe_fits": 100, "per_pixel_lobe_fits": 30, "real_lobe_fits": 60, "per_pixel_real_fits": 30, "axis_checks": 800}
ASSUMPTIONS = ["half-maximum agreement is judged (2 per cent against an own fit, 25 per cent against the half-maximum width) only where the lobe is sampled, symmetric and Gaussian in shape"]


def half_width(l2, w, lam0, real):
    """half-maximum full width of the main lobe, from a fine direct calculation"""
    fw = gen.fwhm_of(l2)
    x = np.linspace(0, 4 * fw, 4001)
    R = ref.rmsf(l2, x, w, None, lam0)[0][:, 0]
    y = R.real if real else np.abs(R)
    b = np.where(y < 0.5)[0]
    if not len(b):
        return None
    far = np.linspace(x[b[0]] * 1.6, 12 * fw, 4000)
    S = ref.rmsf(l2, far, w, None, lam0)[0][:, 0]
    side = np.max(np.abs(S))
    return 2 * x[b[0]], side


def lobe_fit(x, y):
    """width of a Gaussian through the samples of the main lobe, or None where the lobe is not one"""
    pk = int(np.argmax(y))
    lo, hi = np.flatnonzero(y[:pk + 1][::-1] < .4), np.flatnonzero(y[pk:] < .4)
    if not len(lo) or not len(hi) or min(lo[0], hi[0]) < 4 or lo[0] != hi[0] or np.abs(y[pk - lo[0]:pk + lo[0] + 1] - .4).min() < 1e-3 or np.delete(y, range(pk - lo[0], pk + lo[0] + 1)).max(initial=0) > .9 * y[pk]:
        return None
    s = slice(pk - lo[0] + 1, pk + lo[0])
    fit = least_squares(lambda p: p[0] * np.exp(-4 * np.log(2) * ((x[s] - p[1]) / p[2]) ** 2) - y[s], [1, x[pk], x[s][-1] - x[s][0]])
    return abs(float(fit.x[2])) if np.sqrt(2 * fit.cost / (2 * lo[0] - 1)) < .04 else None


def run_case(c):
    from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
    r = c.rng
    quiet = lambda *a, **k: None
    big = gen.scale_draw(r, .05)
    if big:
        c.event("large_" + big)
    f = gen.freqs(r, n=int(r.integers(1000, 4500)) if big == "channels" else int(r.integers(8, 20)) if big == "pixels" else None)
    if r.random() < .3:
        f = f[::-1].copy()
    l2 = gen.lam2(f)
    n = len(l2)
    akind = str(r.choice(["sym", "even", "shifted"], p=[.7, .15, .15]))
    phi = gen.phi_axis(r, l2, kind=akind, n=int(r.integers(1500, 4000)) if big == "depths" else None)
    bits = int(r.choice([32, 64]))
    dt = "float%d" % bits
    phi = phi.astype(dt)
    nd = int(r.choice([0, 1, 2, 3], p=[.2, .15, .3, .35]))
    shape = () if nd < 2 else ((int(r.integers(1, 6)),) if nd == 2 else (int(r.integers(1, 5)), int(r.integers(1, 5))))
    if big == "pixels" and nd > 1:
        shape = (int(r.integers(600, 1600)),) if nd == 2 else (int(r.integers(20, 40)), int(r.integers(20, 40)))
    npix = int(np.prod(shape)) if shape else 1
    w = gen.weights(r, n)
    mask, _, fk = flags(c, n, npix)
    if nd == 0:
        mask[:] = False
        fk = "none"
    W = ref.clean_weights(w, n)
    if not (W[:, None] * ~mask).sum() > 0:
        mask[:] = False
        fk = "none"
    lk = str(r.choice(["auto", "zero", "given"], p=[.55, .3, .15]))
    lam0 = {"auto": None, "zero": 0, "given": float(r.uniform(l2.min(), l2.max()))}[lk]
    double = bool(r.random() < .8)
    fit = bool(r.random() < .45) and akind == "sym" and big != "pixels"
    real = bool(fit and r.random() < .4)
    if real and lk == "zero" and r.random() < .8:
        # the real part turns over faster than the modulus: sample it as finely as its own lobe needs
        hw = half_width(l2, W, 0.0, True)
        if hw is not None:
            step = hw[0] / r.uniform(6, 16)
            phi = (step * np.arange(-(h := int(r.integers(12, 60))), h + 1)).astype(dt)
    m_in = None if nd == 0 else mask.reshape((n,) + shape)
    if m_in is not None and r.random() < .3:
        m_in = m_in.astype(int)
    c.label = "%dD %s" % (nd, "fit" if fit else "theory")
    c.context = dict(nd=nd, shape=shape, nchan=n, bits=bits, flags=fk, axis=akind, lam0=lk, double=double, fit=fit, real=real,
                     weights="none" if w is None else "given")
    snap = c.snapshot(l2=l2, phi=phi, w=w, m=m_in)
    res = get_rmsf_planes(l2, phi, weightArr=w, mskArr=m_in, lam0Sq_m2=lam0, verbose=c.idx % 5 == 3, double=double, fitRMSF=fit, fitRMSFreal=real,
                          nBits=bits, log=quiet)
    c.event("rmsf_calls")
    c.unchanged(snap)
    R, phi2, fw, stat, got0 = res
    R, phi2, fw, stat = map(np.asarray, (R, phi2, fw, stat))
    # axis
    c.event("axis_checks")
    d = float(phi[1]) - float(phi[0])
    if double:
        c.check(len(phi2) >= 2 * len(phi), "axis-too-short", "%d for %d" % (len(phi2), len(phi)))
        pad = (len(phi2) - len(phi)) // 2
        c.check((len(phi2) - len(phi)) % 2 == 0, "axis-centre", "odd padding")
        at = 1e-5 * (np.abs(phi2).max()) if bits == 32 else 1e-10 * np.abs(phi2).max()
        c.close(phi2[pad:pad + len(phi)], phi.astype(float), "axis-core", atol=at, what="central part of the response axis")
        # extrapolated parts inherit the rounding of one spacing times the number of steps
        dl, dr = float(phi[1]) - float(phi[0]), float(phi[-1]) - float(phi[-2])
        c.close(phi2[:pad], float(phi[0]) - dl * np.arange(pad, 0, -1), "axis-spacing", atol=at, what="left padding")
        c.close(phi2[pad + len(phi):], float(phi[-1]) + dr * np.arange(1, pad + 1), "axis-spacing", atol=at, what="right padding")
    else:
        c.close(phi2, phi, "axis-core", what="unpadded axis")
    # layout
    want_shape = tuple(np.squeeze(np.empty((len(phi2),) + shape)).shape)
    if not c.check(tuple(np.squeeze(R).shape) == want_shape and R.size == len(phi2) * npix, "rmsf-shape",
                   "got %s for mask %s" % (R.shape, shape)):
        return
    if not (c.check(fw.size == npix, "width-shape", "%s" % (fw.shape,)) and c.check(stat.size == npix, "width-shape", "%s" % (stat.shape,))):
        return
    if nd == 3:
        # maps of the image, one value per pixel
        c.check(fw.shape == shape and stat.shape == shape, "width-shape", lambda: "maps of shape %s and %s for an image of %s" % (fw.shape, stat.shape, shape))
    else:
        c.check(fw.shape == stat.shape, "width-shape", lambda: "%s and %s" % (fw.shape, stat.shape))
    G, fw, stat = R.reshape(len(phi2), npix), fw.reshape(npix), stat.reshape(npix)
    want, w0, S = ref.rmsf(l2, phi2.astype(float), w, mask, lam0)
    c.close(got0, w0, "reference-wavelength", rtol=1e-5 if bits == 32 else 1e-9, atol=1e-12, what="lambda0^2")
    want = ref.rmsf(l2, phi2.astype(float), w, mask, float(got0))[0]
    phase = np.max(np.abs(phi2)) * 2 * np.max(np.abs(l2 - float(got0)))
    at = 2e-5 + (6e-7 * phase if bits == 32 else 1e-14 * phase)
    for k in range(npix):
        if not S[k] > 0:
            c.event("blank_pixels")
            continue
        c.event("pixels_compared")
        c.close(G[:, k], want[:, k], "rmsf-value", rtol=0, atol=at, what="RMSF of pixel %d" % k)
        c.check(np.all(np.abs(G[:, k]) <= 1 + at), "rmsf-exceeds-one", "max %r" % np.abs(G[:, k]).max())
        z = np.where(np.abs(phi2) <= 1e-6 * abs(d))[0]
        if len(z):
            c.event("unit_peaks")
            c.check(abs(G[z[0], k] - 1) <= at, "rmsf-not-one-at-zero", "value %r" % G[z[0], k])
    if fk in ("voxels", "mixed", "Uonly", "Qonly") and npix > 1:
        c.event("isolated_flags")
    # widths
    theory = gen.fwhm_of(l2)
    if not fit:
        c.close(fw, np.full(npix, theory), "theoretical-width", rtol=1e-5, what="width without fit")
        c.check(np.all(stat == -1), "fit-status", "status %r without a fit" % stat[:4])
    else:
        for k in range(npix):
            if not S[k] > 0:
                continue
            c.check(fw[k] > 0 and np.isfinite(fw[k]), "fitted-width-not-positive", "%r" % fw[k])
            if stat[k] < 1:
                c.event("fit_fallbacks")
                c.close(fw[k], theory, "fallback-width", rtol=1e-5, what="width after failed fit")
                # a well sampled, well separated main lobe on a wide axis is always fittable
            Wk = W * ~mask[:, k]
            hw = half_width(l2, Wk, float(got0), real)
            if hw is None:
                continue
            width, side = hw
            own = lobe_fit(phi2.astype(float), want[:, k].real if real else np.abs(want[:, k]))
            if own is None:
                continue
            c.event("real_lobe_fits" if real else "lobe_fits")
            if npix > 1 and fk not in ("none", "channels"):
                c.event("per_pixel_real_fits" if real else "per_pixel_lobe_fits")
            c.check(stat[k] >= 1, "fittable-lobe-not-fitted", "status %r width %r" % (stat[k], own))
            c.check(abs(fw[k] / own - 1) < .02, "fitted-width-off", "fitted %r, the lobe of the response has %r" % (fw[k], own))
            if (len(phi2) - 1) * d > 5 * width and width / d >= 4 and side < 0.38:
                c.event("width_fits")
                c.check(abs(fw[k] / width - 1) < 0.25, "fitted-width-off", "fitted %r half-maximum width %r" % (fw[k], width))
    # shift identity: thin source observed with the same flags and weights
    ks = [k for k in range(npix) if S[k] > 0]
    if ks:
        k = int(r.choice(ks))
        phi0 = float(r.uniform(phi.min(), phi.max()))
        D = gen.thin(l2, phi0, 1.0, 0.0)
        D = np.where(mask[:, k], np.nan, D.real).astype(float), np.where(mask[:, k], np.nan, D.imag).astype(float)
        F = np.asarray(do_rmsynth_planes(D[0], D[1], l2, phi.astype(float), weightArr=w, lam0Sq_m2=float(got0), nBits=64, log=quiet)[0])
        R1 = np.asarray(get_rmsf_planes(l2, phi.astype(float) - phi0, weightArr=w, mskArr=mask[:, k], lam0Sq_m2=float(got0),
                                        double=False, nBits=64, log=quiet)[0])
        c.event("shift_identities")
        c.close(F, R1 * np.exp(2j * phi0 * float(got0)), "shift-identity", atol=5e-5, what="thin source at %r" % phi0)
    c.observed((nd, shape, n, bits, fk, akind, lk, double, fit, real, float(got0), c.idx), dict(c.context, lam0Sq=float(got0), fwhm=float(fw[0])))
