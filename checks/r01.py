"""R01: FDF against a direct weighted sum."""
import numpy as np
from rvm import gen, ref

CASES = {"quick": 1600, "thorough": 20000}
RULE = ("random spectra/planes/cubes x wavelength sampling x weights x flag pattern x depth axis x precision x reference "
        "wavelength; non-trivial = at least 3 channels and 5 depths carry data; distinct by the full draw")
MIN_EVENTS = {"fdf_calls": 1000, "pixels_compared": 2500, "blank_pixels": 200, "input_isolation_checks": 3000,
              "isolated_flags": 300, "asymmetric_axis": 300, "unusual_layouts": 200}
ASSUMPTIONS = ["tolerance: transform accuracy 1e-6 relative to the weighted mean modulus plus the phase rounding of the working precision"]


def tol(bits, phi, l2, lam0, scale, eps=None):
    phase = np.max(np.abs(phi)) * 2 * np.max(np.abs(l2 - lam0))
    return ((2e-5 if eps is None else 20 * eps + (2e-6 if bits == 32 else 2e-13)) + (6e-7 * phase if bits == 32 else 1e-14 * phase)) * scale + 1e-30


def make(c, shape, n, l2, phi):
    r = c.rng
    npix = int(np.prod(shape)) if shape else 1
    kind = r.choice(["noise", "thin", "thin+noise", "big", "const"])
    d = np.zeros((n, npix), complex)
    if "thin" in kind:
        for k in range(npix):
            d[:, k] += gen.thin(l2, r.uniform(phi.min(), phi.max()), r.uniform(0.1, 3), r.uniform(0, 180))
    if "noise" in kind:
        d += r.normal(size=d.shape) + 1j * r.normal(size=d.shape)
    if kind == "big":
        d += 1e6 * (r.normal(size=d.shape) + 1j * r.normal(size=d.shape))
    if kind == "const":
        d += r.uniform(0.5, 2)
    return d, str(kind)


def flags(c, n, npix):
    r = c.rng
    kind = r.choice(["none", "channels", "voxels", "pixels", "mixed", "Uonly", "Qonly"], p=[.2, .15, .2, .1, .15, .1, .1])
    mq = np.zeros((n, npix), bool)
    if kind in ("channels", "mixed"):
        mq[r.random(n) < 0.25] = True
    if kind in ("voxels", "mixed", "Uonly", "Qonly"):
        mq |= r.random((n, npix)) < 0.15
    if kind in ("pixels", "mixed"):
        mq[:, r.random(npix) < 0.3] = True
    mu = mq.copy()
    if kind == "Uonly":
        mq[:] = False
    if kind == "Qonly":
        mu[:] = False
    return mq, mu, str(kind)


def run_case(c):
    from RMutils.util_RM import do_rmsynth_planes
    r = c.rng
    nd = int(r.choice([1, 2, 3], p=[.3, .3, .4]))
    shape = () if nd == 1 else ((int(r.integers(1, 6)),) if nd == 2 else (int(r.integers(1, 5)), int(r.integers(1, 5))))
    big = gen.scale_draw(r)
    if big == "pixels" and nd > 1:
        shape = (int(r.integers(600, 2600)),) if nd == 2 else (int(r.integers(20, 60)), int(r.integers(20, 60)))
    npix = int(np.prod(shape)) if shape else 1
    f = gen.freqs(r, n=int(r.integers(1000, 4500)) if big == "channels" else int(r.integers(8, 20)) if big == "pixels" else None)
    if big:
        c.event("large_" + big)
    order = r.choice(["asc", "desc", "shuffled"], p=[.6, .2, .2])
    if order == "desc":
        f = f[::-1].copy()
    if order == "shuffled":
        f = r.permutation(f)
    l2 = gen.lam2(f)
    n = len(l2)
    kind = str(r.choice(["sym", "even", "shifted", "irregular", "unsorted", "descending"], p=[.42, .14, .26, .08, .05, .05]))
    if kind in ("irregular", "unsorted"):
        phi = r.uniform(-15, 25, int(r.integers(5, 40))) * gen.fwhm_of(l2)
        phi = np.sort(phi) if kind == "irregular" else phi
    else:
        phi = gen.phi_axis(r, l2, kind="shifted" if kind == "descending" else kind, n=int(r.integers(2000, 7000)) if big == "depths" else None)
        phi = phi[::-1].copy() if kind == "descending" else phi
    bits = int(r.choice([32, 64]))
    data, dk = make(c, shape, n, l2, phi)
    mq, mu, fk = flags(c, n, npix)
    w = gen.weights(r, n)
    lk = r.choice(["auto", "zero", "given"], p=[.6, .2, .2])
    lam0 = {"auto": None, "zero": 0, "given": float(r.uniform(l2.min(), l2.max()))}[str(lk)]
    dt = "float%d" % bits
    Q, U = data.real.astype(dt), data.imag.astype(dt)
    Q[mq] = np.nan
    U[mu] = np.nan
    full = (n,) + shape
    Q, U = Q.reshape(full), U.reshape(full)
    phi = phi.astype(dt)
    lay = str(r.choice(["C", "F", "swapped", "strided", "readonly"], p=[.4, .15, .15, .15, .15]))
    Q, U = gen.layout(Q, lay), gen.layout(U, lay)
    if lay != "C":
        c.event("unusual_layouts")
    c.label = "%dD" % nd
    c.context = dict(nd=nd, shape=shape, nchan=n, bits=bits, data=dk, flags=fk, order=str(order), axis=kind, lam0=str(lk),
                     weights="none" if w is None else "given", layout=lay)
    snap = c.snapshot(Q=Q, U=U, l2=l2, phi=phi, w=w)
    wb = w if w is None or bits == 64 or r.random() < .5 else w.astype("float32")
    if wb is not w:
        snap["w"] = (wb, wb.copy())
    # a precision of its own: better than the default where the data allow it, or worse
    eps = None if r.random() < .75 else float(10 ** (r.uniform(-12, -3) if bits == 64 else r.uniform(-5, -2.5)))
    kw = {} if eps is None else dict(eps=eps)
    if eps is not None:
        c.event("own_precision")
        c.context["eps"] = eps
    res = do_rmsynth_planes(Q, U, l2, phi, weightArr=wb, lam0Sq_m2=lam0, nBits=bits, log=lambda *a, **k: None, **kw)
    c.event("fdf_calls")
    c.unchanged(snap)
    F, got0 = np.asarray(res[0]), res[1]
    Q2, U2 = Q.reshape(n, npix), U.reshape(n, npix)
    want, w0, S = ref.fdf(Q2, U2, l2, phi.astype(float), wb, lam0)
    ok = c.close(got0, w0, "reference-wavelength", rtol=1e-5 if bits == 32 else 1e-9, atol=1e-12, what="lambda0^2")
    # layout: one sample per depth, spatial layout of the input up to dropped unit axes
    wshape = tuple(np.squeeze(np.empty((len(phi),) + shape)).shape)
    if not c.check(F.size == len(phi) * npix and tuple(np.squeeze(F).shape) == wshape, "fdf-shape",
                   "got shape %s for data %s and %d depths" % (F.shape, full, len(phi))):
        return
    G = F.reshape(len(phi), npix)
    with np.errstate(all="ignore"):
        P = np.abs(np.nan_to_num(Q2.astype(float)) + 1j * np.nan_to_num(U2.astype(float)))
        wv = ref.clean_weights(wb, n)[:, None] * ~(np.isnan(Q2) | np.isnan(U2))
        scale = (P * wv).sum(0) / np.where(S > 0, S, 1)
    # the direct sum uses the returned lambda0^2 so that only the transform is compared here
    want = ref.fdf(Q2, U2, l2, phi.astype(float), wb, float(got0))[0]
    for k in range(npix):
        # a pixel without usable data, or whose usable data are all zero, is NaN
        if not (S[k] > 0 and np.any((P * wv)[:, k] > 0)):
            c.event("blank_pixels")
            c.check(np.all(np.isnan(G[:, k])), "blank-pixel-not-nan", "pixel %d has no data but FDF %r" % (k, G[:3, k]))
            continue
        c.event("pixels_compared")
        c.check(np.all(np.isfinite(G[:, k])), "nonfinite-fdf", "pixel %d has data but non-finite FDF" % k)
        # a dominant weight can leave single precision with little headroom; scale by the weighted mean modulus
        t = tol(bits, phi, l2, float(got0), max(scale[k], 1e-300), eps)
        c.close(G[:, k], want[:, k], "fdf-value", rtol=0, atol=t, what="FDF of pixel %d" % k)
    if fk in ("voxels", "mixed", "Uonly", "Qonly"):
        c.event("isolated_flags")
    if kind != "sym":
        c.event("asymmetric_axis")
    c.observed((nd, shape, n, bits, dk, fk, str(order), kind, str(lk), float(got0), c.idx), dict(c.context, lam0Sq=float(got0)))
    if npix > 1 and r.random() < .5:
        # independence of neighbours: alter every other pixel, keep lambda0^2
        k = int(r.integers(npix))
        Qx, Ux = Q.copy().reshape(n, npix), U.copy().reshape(n, npix)
        for a in (Qx, Ux):
            b = r.normal(size=(n, npix)).astype(dt) * 7
            b[:, k] = a[:, k]
            a[:] = b
        G2 = np.asarray(do_rmsynth_planes(Qx.reshape(full), Ux.reshape(full), l2, phi, weightArr=wb, lam0Sq_m2=float(got0),
                                          nBits=bits, log=lambda *a, **k: None, **kw)[0]).reshape(len(phi), npix)
        c.event("independence_pairs")
        if np.all(np.isfinite(G[:, k])):
            c.close(G2[:, k], G[:, k], "pixel-depends-on-neighbours", rtol=0,
                    atol=2 * tol(bits, phi, l2, float(got0), max(scale[k], 1e-300), eps), what="pixel %d" % k)
        else:
            c.check(np.all(np.isnan(G2[:, k])), "pixel-depends-on-neighbours", "blank pixel filled by neighbours")
    _ = ok
