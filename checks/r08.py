"""R08: 1D RM synthesis end to end: definitions, recovery, metamorphic relations, axis."""
import math
import numpy as np
from rvm import gen, ref

CASES = {"quick": 1000, "thorough": 16000}
RULE = ("random spectra (thin noiseless, thin plus noise, two components, noise) x Stokes I (fitted power law, dummy, absent, supplied) x errors x "
        "flags (Q, U, both, errors, I) x order of channels x weighting x precision x axis options x fitted width x super-resolution")
MIN_EVENTS = {"runs": 900, "definition_checks": 900, "recoveries": 50, "deletions": 70, "reversals": 100, "scalings": 70, "one_sided_flags": 120,
              "super_resolution": 80, "supplied_model": 80, "no_stokes_I": 150, "fitted_width": 60, "axis_checks": 900, "power_law_exact": 80, "negative_I": 60, "bias_decisions": 700}
ASSUMPTIONS = ["errors drawn below the scatter are at least 1e-9 intensity units (squared weights overflow single precision below 2e-10)", "the theoretical width and the default axis are those of all listed channels", "measurements of a given spectrum are judged by R05, "
               "Stokes I fits by R06, complexity of given residuals by R23; here the pipeline must apply them to the right inputs"]
CASE_LIMIT = {"quick": 120, "thorough": 200}


def quiet(*a, **k):
    pass


def draw(r):
    d = dict()
    n = int(r.integers(16, 90)) if r.random() > .03 else int(r.integers(300, 1500))
    f = gen.freqs(r, n)
    l2 = gen.lam2(f)
    d["kind"] = kind = str(r.choice(["thin", "thin", "thin", "thin-noise", "two", "noise"]))
    d["Ikind"] = str(r.choice(["fit", "fit", "fit", "dummy", "five", "supplied"]))
    fw = gen.fwhm_of(l2)
    phi_nyq = np.sqrt(3) / np.max(np.abs(np.diff(l2)))
    lim = min(max(phi_nyq, 10 * fw), 60 * fw)
    t = r.uniform(-.7, .7) * lim
    frac, psi = 10 ** r.uniform(-2, 0) * .7, r.uniform(0, 180)
    S = 10 ** r.uniform(-5, 2)
    alpha = r.uniform(-2, 1)
    x = f / f.mean()
    I = S * x ** alpha
    p = gen.thin(l2, t, frac, psi)
    if kind == "two":
        p = p + gen.thin(l2, t + r.uniform(2, 6) * fw, frac * r.uniform(.2, .9), r.uniform(0, 180))
    if kind == "noise":
        p = p * 0
    P = p * I
    base = S * frac
    sig = base * 10 ** r.uniform(-2, -.3)
    if kind in ("thin-noise", "noise", "two"):
        P = P + sig * (r.normal(size=n) + 1j * r.normal(size=n))
    errk = str(r.choice(["const", "vary", "split"]))
    dQ = np.full(n, sig)
    if errk == "vary":
        dQ = sig * (r.uniform(.4, 2.5, n) if r.random() < .7 else 10 ** r.uniform(-2, 2, n))
    if r.random() < .2:
        # stated errors much smaller or larger than the scatter
        sc = 10 ** r.uniform(-6, 1.5)
        # (weights squared overflow single precision below about 2e-10)
        sc = max(sc, min(1, 1e-9 / dQ.min()))
        dQ = dQ * sc
        sig = sig * sc if kind == "thin" else sig
    dU = dQ * (1 if errk != "split" else r.uniform(.5, 2))
    dI = np.full(n, S * 10 ** r.uniform(-3, -1.5))
    fit_function = str(r.choice(["log", "linear"]))
    order = int(r.integers(0, 4)) if r.random() < .8 else -int(r.integers(1, 4))
    Q, U = P.real.copy(), P.imag.copy()
    fl = str(r.choice(["none", "none", "Q", "U", "both", "err", "I", "mixed"]))
    k = r.random(n) < r.uniform(.05, .35)
    k[r.integers(0, n)] = True
    if k.sum() > n - 12:
        k[:] = False
        fl = "none"
    k1 = np.zeros(n, bool)
    if fl in ("Q", "both"):
        Q[k] = np.nan
    if fl in ("U", "both"):
        U[k] = np.nan
    if fl == "mixed":
        k1 = k & (r.random(n) < .5)
        Q[k1] = np.nan
        U[k & ~k1] = np.nan
    if fl == "err":
        (dQ if r.random() < .5 else dU)[k] = np.nan
        if errk != "split":
            dU = dQ
    if fl == "I":
        I = I.copy(); I[k] = np.nan
    desc = bool(r.random() < .3)
    sgn = 1
    if (d["Ikind"] == "supplied" or (d["Ikind"] == "fit" and fit_function == "linear")) and r.random() < .3:
        # negative Stokes I (an absorption, or a noise trough): the polarised flux keeps its own angle
        sgn, I = -1, -I
    d.update(sgn=sgn, f=f, I=I, Q=Q, U=U, dI=dI, dQ=dQ.copy(), dU=dU.copy(), t=t, frac=frac, psi=psi, S=S, alpha=alpha, sig=sig, fl=fl, k=k, desc=desc, errk=errk,
             fn=fit_function, order=order, n=n, fw=fw, lim=lim, xtrue=sgn * S * x ** alpha)
    return d


def build(d, opts):
    s = slice(None, None, -1) if d["desc"] else slice(None)
    g = lambda a: a[s].copy()
    kw = dict(opts)
    if d["Ikind"] == "five":
        # fractional spectra
        data = [g(d["f"])] + [g(d[q] / d["xtrue"]) for q in ("Q", "U", "dQ", "dU")]
    else:
        data = [g(d[q]) for q in ("f", "I", "Q", "U", "dI", "dQ", "dU")]
    if d["Ikind"] == "dummy":
        kw["noStokesI"] = True
    if d["Ikind"] == "supplied":
        kw["modStokesI"] = g(d["xtrue"])
    return data, kw


def run(data, kw):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    return run_rmsynth([np.array(a) for a in data], log=quiet, **{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})


# measured quantities and their scaling with intensity units
DEPTH = ["phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "fwhmRMSF", "lam0Sq_m2", "freq0_Hz", "N_channels", "min_freq", "max_freq", "median_channel_width"]
INT = ["dFDFcorMAD", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "Ifreq0", "dQU", "dFDFth", "peakFDFrealFit", "peakFDFimagFit"]
REL = ["snrPIfit", "fracPol"]
ANG = ["polAngleFit_deg", "polAngle0Fit_deg"]


def sharp(m, aD):
    """the fitted peak is isolated and well resolved, so tiny changes cannot move it far"""
    a = np.abs(np.asarray(aD["dirtyFDF"], complex))
    if not np.isfinite(a).all() or m["phiPeakPIfit_rm2"] != m["phiPeakPIfit_rm2"]:
        return False
    k = int(np.argmax(a[1:-1])) + 1
    c = a[k - 1] - 2 * a[k] + a[k + 1]
    o = np.sort(a)
    return c < -1e-3 * a[k] and o[-1] - o[-2] > 1e-4 * o[-1] and 1 < k < len(a) - 2


def compare(c, tag, m, m2, scale=1.0, tol=1e-4, skip=(), fitted=False):
    step = m["fwhmRMSF"]
    for q in DEPTH + INT + REL:
        if q in skip:
            continue
        s = scale if q in INT else 1.0
        at = {"phiPeakPIfit_rm2": 2e-3 * step}.get(q, 0)
        if q in ("peakFDFrealFit", "peakFDFimagFit"):
            at = 5e-3 * abs(m["ampPeakPIfit"]) * s
        # a sample at the edge of the fitted lobe may fall on either side of the threshold
        rt = max(tol, 2e-2) if fitted and q in ("fwhmRMSF", "dPhiPeakPIfit_rm2") else tol
        if q == "dFDFcorMAD":
            at = 2e-3 * abs(m["ampPeakPIfit"]) * s
        if q in ("ampPeakPIfitEff", "fracPol"):
            at = abs(m[q] * s) * tol * 30 if m["snrPIfit"] < 6 else 0
            if abs(m["snrPIfit"] - 5) < .01:
                continue
        c.close(m2[q], m[q] * s, tag + "-" + q, rtol=rt, atol=at, what="%s: %s" % (tag, q))
    if np.hypot(m["peakFDFrealFit"], m["peakFDFimagFit"]) > .3 * m["ampPeakPIfit"]:
        for q in ANG:
            t = .4 + np.degrees(m["lam0Sq_m2"] * 2e-3 * step)
            c.check(abs(ref.angdiff180(m2[q], m[q])) < t, tag + "-" + q, lambda: "%s: %r then %r" % (q, m[q], m2[q]))


def run_case(c):
    from RMutils.util_misc import create_frac_spectra
    from RMutils.util_RM import measure_FDF_parms, measure_qu_complexity
    r = c.rng
    d = draw(r)
    n = d["n"]
    bits = int(r.choice([32, 64]))
    sr = bool(r.random() < .15)
    opts = dict(polyOrd=d["order"], nBits=bits, weightType=str(r.choice(["variance", "uniform"])), fit_function=d["fn"], fitRMSF=bool(r.random() < .15),
                super_resolution=sr, units=str(r.choice(["Jy/beam", "K"])))
    ax = str(r.choice(["auto", "samples", "spacing", "max", "both"], p=[.2, .2, .15, .15, .3]))
    fw = d["fw"] if not sr else 2 / (gen.lam2(d["f"]).max() + gen.lam2(d["f"]).min())
    if ax == "samples":
        opts["nSamples"] = float(r.choice([4, 6.5, 12, 20]))
    if ax in ("spacing", "both"):
        opts["dPhi_radm2"] = float(d["fw"] / r.uniform(4, 15)) if r.random() < .7 else float(np.round(d["fw"] / 6 + .5, 1))
    if ax in ("max", "both"):
        opts["phiMax_radm2"] = float(d["lim"] * r.uniform(.9, 1.3))
    # keep the largest axes affordable
    nphi_guess = opts.get("phiMax_radm2", max(np.sqrt(3) / np.max(np.abs(np.diff(gen.lam2(d["f"])))), 10 * fw)) / opts.get("dPhi_radm2", fw / opts.get("nSamples", 10))
    if nphi_guess > 3000:
        opts["phiMax_radm2"] = float(1500 * opts.get("dPhi_radm2", fw / opts.get("nSamples", 10)))
    data, kw = build(d, opts)
    if bits == 32 and r.random() < .5:
        # as read from a file at this precision
        data = [a.astype("float32") for a in data]
    c.label = "%s-%s" % (d["Ikind"], d["kind"])
    c.context = dict(kind=d["kind"], Ikind=d["Ikind"], flags=d["fl"], desc=d["desc"], n=n, axis=ax, opts=opts, true=(d["t"], d["frac"], d["psi"]), dtype=str(data[0].dtype))
    arrs = {"data%d" % i: a for i, a in enumerate(data)}
    snap = c.snapshot(**arrs)
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    m, a = run_rmsynth(data, log=quiet, **kw)
    c.unchanged(snap)
    c.event("runs")
    for k, v in (("supplied", "supplied_model"), ("dummy", "no_stokes_I"), ("five", "no_stokes_I")):
        if d["Ikind"] == k:
            c.event(v)
    if sr:
        c.event("super_resolution")
    if opts["fitRMSF"]:
        c.event("fitted_width")
    if d["sgn"] < 0:
        c.event("negative_I")
    if d["fl"] in ("Q", "U", "mixed"):
        c.event("one_sided_flags")
    # ---- independent evaluation
    dt = "float%d" % bits
    if len(data) == 5:
        f, Q, U, dQ, dU = [np.asarray(x) for x in data]
        I, dI = np.ones_like(Q), np.zeros_like(Q)
    else:
        f, I, Q, U, dI, dQ, dU = [np.asarray(x) for x in data]
        if kw.get("noStokesI"):
            I, dI = np.ones_like(Q), np.zeros_like(Q)
    IM, q, u, dq, du, fr = create_frac_spectra(freqArr=f, IArr=I, QArr=Q, UArr=U, dIArr=dI, dQArr=dQ, dUArr=dU, polyOrd=opts["polyOrd"],
                                               fit_function=opts["fit_function"], modStokesI=kw.get("modStokesI"))
    l2 = (gen.C / f.astype("float64")) ** 2
    eps = 1.2e-7 if bits == 32 or data[0].dtype == np.float32 else 2.3e-16
    phi = np.asarray(a["phiArr_radm2"], "float64")
    # axis
    c.event("axis_checks")
    fth = 3.8 / (l2.max() - l2.min()) if not sr else 2 / (l2.max() + l2.min())
    e32 = 1e-5 if data[0].dtype == np.float32 else 1e-9
    dphi = opts.get("dPhi_radm2", fth / opts.get("nSamples", 10.0))
    pmax = opts.get("phiMax_radm2", max(math.sqrt(3) / np.max(np.abs(np.diff(l2))), 10 * fth))
    N = len(phi)
    c.check(N % 2 == 1, "axis-centre", "even number of depth samples: %d" % N)
    c.check(a["phiArr_radm2"].dtype == dt and a["dirtyFDF"].dtype == "complex%d" % (2 * bits), "precision", str(a["phiArr_radm2"].dtype))
    c.check(abs(phi[N // 2]) == 0.0, "axis-centre", "central depth is %r" % phi[N // 2])
    c.close(phi, -phi[::-1], "axis-symmetry", rtol=0, atol=4 * eps * abs(phi[0]))
    if N > 1:
        c.close(np.diff(phi), np.full(N - 1, dphi), "axis-spacing", rtol=e32, atol=8 * eps * abs(phi[0]), what="depth spacing against the request")
    c.check(abs(phi[-1] - pmax) <= dphi * .5 * (1 + 1e-3) + 1e-5 * pmax * (e32 > 1e-6) * 40 + 4 * eps * pmax, "axis-maximum", lambda: "maximum %g, requested %g, spacing %g" % (phi[-1], pmax, dphi))
    # weights, spectrum, response
    q64, u64, dq64, du64 = [np.asarray(x, "float64") for x in (q, u, dq, du)]
    good = np.isfinite(q64) & np.isfinite(u64)
    dqu = np.abs(dq64 + du64) / 2
    w = 1 / dqu ** 2 if opts["weightType"] == "variance" else np.ones(n)
    w = np.where(np.isfinite(w) & good, w, 0)
    if not (w > 0).sum() >= 5:
        return
    lam0 = 0.0 if sr else float((w * l2).sum() / w.sum())
    spread = l2.max() - l2.min()
    es = 2e-4 if data[0].dtype == np.float32 else 1e-6
    c.close(m["lam0Sq_m2"], lam0, "reference-wavelength", rtol=1e-6 if e32 < 1e-6 else 1e-5, what="reference wavelength squared")
    lam0 = float(m["lam0Sq_m2"])
    f0 = fr.reference_frequency_Hz if (sr and kw.get("modStokesI") is None) else (1 / np.sqrt(np.mean(1 / f.astype("float64") ** 2)) if sr else gen.C / np.sqrt(lam0))
    c.close(m["freq0_Hz"], f0, "reference-frequency", rtol=1e-6, what="reference frequency")
    from RMutils.util_misc import calculate_StokesI_model
    if kw.get("modStokesI") is not None:
        o = np.argsort(f)
        I0 = float(np.interp(f0, f[o].astype("float64"), np.asarray(kw["modStokesI"], "float64")[o]))
    else:
        I0 = float(calculate_StokesI_model(fr, float(f0)))
    c.close(m["Ifreq0"], I0, "Ifreq0", rtol=1e-5, what="Stokes I at the reference frequency")
    if d["Ikind"] == "fit" and d["fn"] == "log" and d["order"] in (1, 2, 3) and fr.fitStatus < 5:
        c.event("power_law_exact")
        c.close(m["Ifreq0"], d["S"] * (f0 / d["f"].mean()) ** d["alpha"], "power-law", rtol=5e-3, what="Stokes I of an exact power law at the reference frequency")
    F, _, _ = ref.fdf(np.where(good, q64, np.nan)[:, None], np.where(good, u64, np.nan)[:, None], l2, phi, w, lam0)
    F = F[:, 0] * I0
    ph = 2 * np.abs(phi).max() * spread
    tol = (3e-6 + 3 * eps * ph + (2e-6 * ph if data[0].dtype == np.float32 else 0)) * np.nanmax(np.abs(np.where(good, q64 + 1j * u64, 0))) * abs(I0) * np.sqrt(2) * 3
    c.close(a["dirtyFDF"], F, "spectrum", rtol=0, atol=tol + 1e-6 * np.abs(F).max(), what="dispersion function")
    phi2 = np.asarray(a["phi2Arr_radm2"], "float64")
    Rm, _, _ = ref.rmsf(l2, phi2, w, None, lam0)
    ph2 = 2 * np.abs(phi2).max() * max(spread, abs(l2 - lam0).max())
    c.close(a["RMSFArr"], Rm[:, 0], "response", rtol=0, atol=2e-6 + (4 * eps * ph2 + (2e-6 * ph2 if data[0].dtype == np.float32 or bits == 32 else 0)), what="response function")
    ext = int(math.ceil(N / 2))
    c.check(len(phi2) == N + 2 * ext, "response-axis", "length %d for %d" % (len(phi2), N))
    # definitions
    c.event("definition_checks")
    c.close(np.asarray(a["weightArr"], "float64"), w, "weights", rtol=1e-5, what="weights")
    c.close(np.asarray(a["freqArr_Hz"]), np.asarray(f).astype(dt), "frequencies", rtol=0)
    nd = np.nan_to_num(dqu)
    dth = abs(I0) * np.sqrt((w ** 2 * nd ** 2).sum()) / w.sum()
    c.close(m["dFDFth"], dth, "theoretical-noise", rtol=2e-5, what="theoretical noise")
    c.close(m["dAmpPeakPIfit"], dth, "noise-used", rtol=2e-5) if m["phiPeakPIfit_rm2"] == m["phiPeakPIfit_rm2"] else None
    both = (dQ.astype("float64") + dU.astype("float64")) / 2
    c.close(m["dQU"], np.median(both[np.isfinite(both)]), "dQU", rtol=1e-5, what="median QU noise")
    if not opts["fitRMSF"] and not sr:
        c.close(m["fwhmRMSF"], fth, "width", rtol=max(e32, 1e-6), what="theoretical width")
    else:
        from checks.r02 import half_width
        if len(phi2) > 1 and phi2[1] - phi2[0] < fth / 4:
            h = half_width(l2, w, lam0, sr)
            if h and h[1] < .3:
                c.check(abs(m["fwhmRMSF"] / h[0] - 1) < .4 or abs(m["fwhmRMSF"] / (3.8 / spread) - 1) < 1e-5, "fitted-width", lambda: "fitted %g, half-maximum width %g" % (m["fwhmRMSF"], h[0]))
    wg = w > 0
    c.check(m["N_channels"] == wg.sum(), "channel-count", lambda: "%r for %d unflagged" % (m["N_channels"], wg.sum()))
    c.close(m["min_freq"], f[wg].min(), "min-frequency", rtol=1e-7)
    c.close(m["max_freq"], f[wg].max(), "max-frequency", rtol=1e-7)
    c.close(m["median_channel_width"], np.median(np.abs(np.diff(f))), "channel-width", rtol=1e-6)
    c.check(m["units"] == opts["units"] and m["fit_function"] == opts["fit_function"] and m["polyOrd"] == fr.polyOrd and m["IfitStat"] == fr.fitStatus, "labels",
            lambda: str({k: m[k] for k in ("units", "fit_function", "polyOrd", "IfitStat")}))
    c.close(m["IfitChiSqRed"], fr.chiSqRed, "fit-chisq", rtol=1e-6)
    if kw.get("modStokesI") is None:
        p = [float(x) for x in m["polyCoeffs"].split(",")]
        c.check(len(p) == 6, "coefficients", m["polyCoeffs"])
        import copy
        from RMutils.util_misc import FitResult
        g = fr.with_options(params=np.array(p), reference_frequency_Hz=f0)
        ff = np.linspace(f.min(), f.max(), 9).astype("float64")
        A, B = calculate_StokesI_model(g, ff), calculate_StokesI_model(fr, ff)
        if np.isfinite(B).all() and np.abs(p).max() < 1e3 * max(abs(I0), 1):
            sz = np.abs(np.array(p)).sum() if opts["fit_function"] == "linear" else np.abs(B) * (1 + 3 * np.abs(np.array(p[:5])).sum())
            c.close(A, B, "coefficients", rtol=1e-5, atol=3e-6 * sz * 6, what="model from the reported coefficients and reference frequency")
    if np.isfinite(m["ampPeakPIfit"]):
        A = m["ampPeakPIfit"]
        c.close(m["snrPIfit"], A / dth, "snr", rtol=3e-5, what="signal to noise against the theoretical noise")
        if abs(A / dth - 5) > .01:
            c.event("bias_decisions")
            c.close(m["ampPeakPIfitEff"], np.sqrt(A ** 2 - 2.3 * dth ** 2) if A / dth > 5 else A, "bias-correction", rtol=5e-5, what="bias-corrected amplitude at signal to noise %g" % (A / dth))
        c.close(m["dPhiPeakPIfit_rm2"], m["fwhmRMSF"] * dth / (2 * A), "depth-error", rtol=5e-5, what="depth error")
        c.close(m["dPolAngleFit_deg"], np.degrees(dth / (2 * A)), "angle-error", rtol=5e-5, what="angle error")
    for k in ANG:
        c.check(not np.isfinite(m[k]) or 0 <= m[k] < 180 + 1e-9, "angle-range", lambda: "%s is %r, outside 0 to 180 degrees" % (k, m[k]))
    for k in ("dAmpPeakPIfit", "dFDFth", "dQU", "dFDFcorMAD", "dPhiPeakPIfit_rm2", "dPolAngleFit_deg", "dPolAngle0Fit_deg"):
        c.check(not m[k] < 0, "negative-error", lambda: "%s is %r" % (k, m[k]))
    # measurement of the spectrum it returned
    mm = measure_FDF_parms(FDF=np.asarray(a["dirtyFDF"]), phiArr=a["phiArr_radm2"], fwhmRMSF=m["fwhmRMSF"], dFDF=dth, lamSqArr_m2=l2, lam0Sq=lam0)
    if sharp(m, a):
        a_ = np.abs(np.asarray(a["dirtyFDF"], complex)); k_ = int(np.argmax(a_[1:-1])) + 1
        blur = 1 / max(abs(a_[k_ - 1] - 2 * a_[k_] + a_[k_ + 1]) / a_[k_], 1e-9)
        for k in mm:
            at = 0
            if k in ("phiPeakPIfit_rm2",):
                at = dphi * (1e-5 + 60 * 1.2e-7 * blur) + 4e-7 * abs(mm[k])
            if k == "indxPeakPIfit":
                at = 1e-2 + 60 * 1.2e-7 * blur
            if k in ("peakFDFimagFit", "peakFDFrealFit"):
                at = 1e-4 * mm["ampPeakPIfit"] * (1 + 1e-2 * blur)
            if k == "polAngleFit_deg" or k == "polAngle0Fit_deg":
                if np.hypot(mm["peakFDFrealFit"], mm["peakFDFimagFit"]) > .3 * mm["ampPeakPIfit"]:
                    c.check(abs(ref.angdiff180(m[k], mm[k])) < .05 * (1 + 1e-2 * blur) + np.degrees(lam0) * (dphi * (1e-4 + 60 * 1.2e-7 * blur) + 4e-7 * abs(mm["phiPeakPIfit_rm2"])), "measured-" + k, lambda: "%r, its own spectrum gives %r" % (m[k], mm[k]))
                continue
            if k in ("ampPeakPIfitEff",) and (abs(mm["snrPIfit"] - 5) < .01):
                continue
            c.close(m[k], mm[k], "measured-" + k, rtol=3e-4, atol=at, what="%s against measuring the returned spectrum" % k)
        c.close(m["fracPol"], m["ampPeakPIfitEff"] / I0, "fracPol", rtol=1e-5)
    cq, _ = measure_qu_complexity(freqArr_Hz=f, qArr=q, uArr=u, dqArr=dq, duArr=du, fracPol=m["fracPol"], psi0_deg=m["polAngle0Fit_deg"], RM_radm2=m["phiPeakPIfit_rm2"])
    for k in cq:
        c.close(m[k], cq[k], "complexity-" + k, rtol=1e-4, what=k)
    c.observed((c.seed, c.idx), dict(c.context, phi=m["phiPeakPIfit_rm2"], n_good=int(wg.sum())))
    ok = sharp(m, a)
    # ---- recovery of a noiseless thin source
    smp = fw / dphi
    truth_frac = d["Ikind"] in ("five", "supplied") or (d["Ikind"] == "fit" and d["fn"] == "log" and d["order"] in (1, 2, 3))
    if d["kind"] == "thin" and truth_frac and ok and smp >= 4 and abs(d["t"]) < phi[-1] - 2 * d["fw"] and not sr and d["fl"] in ("none", "I"):
        # the alias of an irregularly sampled response may rival the peak
        side = np.sort(np.abs(Rm[:, 0][(np.abs(phi2) > d["fw"]) & (np.abs(phi2) < phi[-1] + abs(d["t"]))]))
        if len(side) and side[-1] < .85:
            c.event("recoveries")
            Pt = d["frac"] * abs(I0)
            c.check(abs(m["phiPeakPIfit_rm2"] - d["t"]) < .15 * dphi + 2e-3 * d["fw"], "recover-depth", lambda: "true %g found %g" % (d["t"], m["phiPeakPIfit_rm2"]))
            c.close(m["ampPeakPIfit"], Pt, "recover-intensity", rtol=.03)
            if m["snrPIfit"] > 8:
                c.close(m["fracPol"], d["sgn"] * d["frac"] * np.sqrt(max(0, 1 - 2.3 / m["snrPIfit"] ** 2)), "recover-fraction", rtol=.04)
            e = np.degrees(lam0 * (.15 * dphi + 2e-3 * d["fw"])) + 1.5 + (np.degrees(ph * 2e-6) if e32 > 1e-6 else 0)
            c.check(e > 45 or abs(ref.angdiff180(m["polAngle0Fit_deg"], d["psi"])) < e, "recover-angle", lambda: "true %g found %g" % (d["psi"], m["polAngle0Fit_deg"]))
    # ---- metamorphic relations on the same explicit axis
    meta = str(r.choice(["delete", "reverse", "scale", "none"], p=[.3, .2, .2, .3]))
    full = dict(kw, phiMax_radm2=float(pmax), dPhi_radm2=float(dphi))
    if meta == "none" or m["IfitStat"] % 64 > 4 or (abs(m["ampPeakPIfitEff"]) != abs(m["ampPeakPIfitEff"])):
        return
    if meta == "delete" and d["fl"] in ("Q", "U", "both", "mixed") and not sr and not (opts["fitRMSF"]):
        keep = good
        # Stokes I of deleted channels would no longer constrain the fit: exact for supplied or absent Stokes I
        if d["Ikind"] == "fit":
            data[1][~keep] = np.nan
            m, a = run(data, full)
        else:
            m, a = run(data, full)
        sub = [x[keep] for x in data]
        kk = dict(full)
        if kk.get("modStokesI") is not None:
            kk["modStokesI"] = kk["modStokesI"][keep]
            if not f[keep].min() <= f0 <= f[keep].max():
                return
            I0b = np.interp(f0, np.sort(f[keep]), kk["modStokesI"][np.argsort(f[keep])])
            s = I0b / I0
        else:
            s = 1.0
        m2, a2 = run(sub, kk)
        c.event("deletions")
        c.check(len(a2["phiArr_radm2"]) == N, "deletion-axis", "")
        c.close(np.asarray(a2["dirtyFDF"]), np.asarray(a["dirtyFDF"]) * s, "deletion-spectrum", rtol=0, atol=2 * tol + 2e-5 * np.abs(F).max(), what="spectrum after deleting the flagged channels")
        c.close(np.asarray(a2["RMSFArr"]), np.asarray(a["RMSFArr"]), "deletion-response", rtol=0, atol=2e-5 + (4e-6 * ph2 if e32 > 1e-6 or bits == 32 else 0), what="response after deleting the flagged channels")
        c.close(m2["dFDFth"], m["dFDFth"] * s, "deletion-noise", rtol=1e-4, what="theoretical noise after deleting the flagged channels")
        c.check(m2["N_channels"] == m["N_channels"], "deletion-count", lambda: "%r and %r" % (m2["N_channels"], m["N_channels"]))
    elif meta == "reverse" and data[0].dtype == np.float64:
        kk = dict(full)
        if kk.get("modStokesI") is not None:
            kk["modStokesI"] = kk["modStokesI"][::-1]
        m1, a1 = run(data, full)
        m2, a2 = run([x[::-1] for x in data], kk)
        c.event("reversals")
        c.close(np.asarray(a2["dirtyFDF"]), np.asarray(a1["dirtyFDF"]), "reversal-spectrum", rtol=0, atol=2 * tol + 1e-5 * np.abs(F).max())
        c.close(np.asarray(a2["RMSFArr"]), np.asarray(a1["RMSFArr"]), "reversal-response", rtol=0, atol=2e-5 + (1e-6 * ph2 if bits == 32 else 0))
        if ok:
            compare(c, "reversal", m1, m2, tol=2e-3 if d["fn"] == "log" or d["order"] else 1e-3, fitted=opts["fitRMSF"])
            for k in ("sigmaAddC",):
                c.close(m2[k], m1[k], "reversal-" + k, rtol=.02, atol=.02)
    elif meta == "scale" and data[0].dtype == np.float64 and d["Ikind"] in ("fit", "supplied"):
        S = 10.0 ** r.uniform(-3, 3)
        kk = dict(full)
        if kk.get("modStokesI") is not None:
            kk["modStokesI"] = kk["modStokesI"] * S
        m1, a1 = run(data, full)
        m2, a2 = run([data[0]] + [x * S for x in data[1:]], kk)
        if m2["polyOrd"] != m1["polyOrd"] or m1["IfitStat"] % 64 > 4 or m2["IfitStat"] % 64 > 4:
            return
        c.event("scalings")
        c.close(np.asarray(a2["dirtyFDF"]) / S, np.asarray(a1["dirtyFDF"]), "scaling-spectrum", rtol=0, atol=2 * tol + 3e-3 * np.abs(F).max())
        if ok:
            compare(c, "scaling", m1, m2, S, tol=3e-3, fitted=opts["fitRMSF"])
            for k in ("sigmaAddC",):
                c.close(m2[k], m1[k], "scaling-" + k, rtol=.03, atol=.02)
