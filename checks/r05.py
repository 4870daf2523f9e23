"""R05: peak measurement against an independent oracle, equivariances, recovery, out-of-range fits."""
import numpy as np
from rvm import gen, ref

CASES = {"quick": 8000, "thorough": 150000}
RULE = ("random spectra (sources at any depth and angle plus noise, pure noise, edge-rising) x axis (symmetric, even, shifted) x "
        "precision x noise given or measured x bias threshold; distinct by draw")
MIN_EVENTS = {"oracle_comparisons": 3000, "noise_measured": 500, "bias_corrected": 800, "not_bias_corrected": 300, "equivariance_checks": 1500,
              "recoveries": 500, "outside_range": 40, "edge_masked": 50, "mostly_masked": 100, "minimum_not_peak": 40}
ASSUMPTIONS = ["recovery is judged for at least 4 samples per main lobe and sources at least three widths inside the axis"]
NUM = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "indxPeakPIfit",
       "peakFDFimagFit", "peakFDFrealFit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]


def oracle(F, phi, fwhm, dF, l2, lam0, thr):
    F = np.asarray(F, "complex128"); phi = np.asarray(phi, "float64")
    a = np.abs(F)
    n = len(a)
    k = int(np.argmax(a[1:-1])) + 1
    d = phi[1] - phi[0]
    w = int(np.ceil(fwhm / d))
    lo, hi = max(0, k - 2 * w), min(n, k + 2 * w)
    keep = np.r_[F[:lo], F[hi:]]
    masked_small = len(keep) / n < 0.3
    src = F if masked_small else keep
    noise = ref.mad(np.r_[src.real, src.imag])
    s = noise if dF is None else float(dF)
    pv, av = ref.parabola((phi[k - 1:k + 2] - phi[k]) / d, a[k - 1:k + 2])
    pv = pv * d + phi[k]
    curv = abs(a[k - 1] - 2 * a[k] + a[k + 1])
    out = dict(k=k, curv=curv, noise=noise, small=masked_small, s=s, outside=not (phi.min() <= pv <= phi.max()), pv=pv, av=av)
    if out["outside"]:
        return out
    snr = av / s
    eff = np.sqrt(av ** 2 - 2.3 * s ** 2) if snr >= thr else av
    re, im = np.interp(pv, phi, F.real), np.interp(pv, phi, F.imag)
    ang = np.degrees(0.5 * np.arctan2(im, re)) % 180
    n_ = len(l2)
    var = np.var(l2, ddof=1)
    out.update(dFDFcorMAD=noise, phiPeakPIfit_rm2=pv, dPhiPeakPIfit_rm2=fwhm * s / (2 * av), ampPeakPIfit=av, ampPeakPIfitEff=eff,
               dAmpPeakPIfit=s, snrPIfit=snr, indxPeakPIfit=np.interp(pv, phi, np.arange(len(phi), dtype=float)), peakFDFimagFit=im, peakFDFrealFit=re, polAngleFit_deg=ang,
               dPolAngleFit_deg=np.degrees(s / (2 * av)), polAngle0Fit_deg=(ang - np.degrees(pv * lam0)) % 180,
               dPolAngle0Fit_deg=np.degrees(s / (2 * av) * np.sqrt(n_ / (n_ - 2.0) * ((n_ - 1.0) / n_ + lam0 ** 2 / var))), snr=snr)
    return out


def run_case(c):
    from RMutils.util_RM import measure_FDF_parms
    r = c.rng
    f = gen.freqs(r)
    l2 = gen.lam2(f)
    fw = gen.fwhm_of(l2)
    bits = int(r.choice([32, 64]))
    n = int(r.integers(12, 240)) if r.random() > .03 else int(r.integers(1500, 9000))
    over = r.uniform(2.5, 12)
    d = fw / over
    kind = str(r.choice(["sym", "even", "shifted"], p=[.6, .2, .2]))
    off = 0 if kind != "shifted" else r.uniform(-15, 15) * n * d / 10
    n = n | 1 if kind == "sym" else n + n % 2
    phi = (np.arange(n) - n // 2) * d + off
    lam0 = float(np.mean(l2)) if r.random() < .8 else 0.0
    src = str(r.choice(["source", "source", "source", "noise", "edge", "thin"]))
    true = None
    if src == "thin" and phi[-1] - phi[0] > 7 * fw and over >= 4:
        t = r.uniform(phi[0] + 3 * fw, phi[-1] - 3 * fw)
        psi = r.uniform(0, 180)
        amp = 10 ** r.uniform(-3, 2)
        P = gen.thin(l2, t, amp, psi)
        F = ref.fdf(P.real[:, None], P.imag[:, None], l2, phi, None, lam0)[0][:, 0]
        true = (t, amp, psi)
    elif src == "edge":
        up = np.sort(r.uniform(.1, 1, n)) if r.random() < .5 else np.sort(r.uniform(.1, 1, n))[::-1]
        F = up * np.exp(1j * r.uniform(0, 6)) * (1 + .02 * r.normal(size=n))
    else:
        F = 10 ** r.uniform(-3, 0) * (r.normal(size=n) + 1j * r.normal(size=n))
        if src == "source":
            for _ in range(int(r.integers(1, 4))):
                k = r.uniform(phi[0], phi[-1])
                F = F + r.uniform(.3, 3) * np.exp(2j * r.uniform(0, 3.1416)) * ref.gaussian(phi, k, fw)
    g = 10 ** r.uniform(-6, 3)
    F = F * g
    if true:
        true = (true[0], true[1] * g, true[2])
    F = F.astype("complex%d" % (2 * bits))
    phi = phi.astype("float%d" % bits)
    dF = None if r.random() < .3 else float(np.abs(F).max() / 10 ** r.uniform(0, 3))
    thr = float(r.choice([5.0, 5.0, 0.0, 20.0]))
    if dF is None and not ref.mad(np.r_[F.real, F.imag]) > 0:
        dF = 1.0
    c.label = "%s-%s" % (src, kind)
    c.context = dict(kind=kind, src=src, bits=bits, n=n, over=over, fwhm=fw, noise=dF, lam0=lam0, thr=thr, off=off)
    snap = c.snapshot(F=F, phi=phi, l2=l2)
    kw = {} if thr == 5.0 and r.random() < .5 else dict(snrDoBiasCorrect=thr)
    m = measure_FDF_parms(FDF=F, phiArr=phi, fwhmRMSF=fw, dFDF=dF, lamSqArr_m2=l2, lam0Sq=lam0, **kw)
    c.unchanged(snap)
    o = oracle(F, phi, fw, dF, l2, lam0, thr)
    a = np.abs(F)
    k = o["k"]
    eps = 1.2e-7 if bits == 32 else 2.3e-16
    dtrue = float(np.min(np.diff(phi.astype("float64"))))
    span = np.max(np.abs(phi)).astype(float)
    c.event("oracle_comparisons")
    if o["small"]:
        c.event("mostly_masked")
    if k - 2 * fw / d < 0 or k + 2 * fw / d > n:
        c.event("edge_masked")
    rel = 40 * eps * a[k] / max(o["curv"], 1e-300)          # vertex position noise in samples
    # noise: the mask edge may move by rounding of width/step
    if abs(fw / dtrue - round(fw / dtrue)) > 1e-3 + 4 * eps * span / dtrue * fw / dtrue:
        c.close(m["dFDFcorMAD"], o["noise"], "noise", rtol=1e-5 if bits == 32 else 1e-9, atol=20 * eps * a.max(), what="robust noise outside the peak")
    if rel > 0.02:
        c.event("degenerate_vertex")
        return
    edge_tol = (rel + 1e-4 + 4 * eps * span / dtrue) * dtrue
    if o["outside"]:
        if min(abs(o["pv"] - phi.min()), abs(o["pv"] - phi.max())) < edge_tol:
            return
        c.event("outside_range")
        for q in ("phiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "snrPIfit", "polAngleFit_deg", "polAngle0Fit_deg", "dPhiPeakPIfit_rm2"):
            c.check(m[q] != m[q], "outside-not-nan", "%s = %r for a vertex at %g outside [%g, %g]" % (q, m[q], o["pv"], phi.min(), phi.max()))
        c.observed((c.seed, c.idx), c.context)
        return
    if min(abs(o["pv"] - phi.min()), abs(o["pv"] - phi.max())) < edge_tol:
        return
    interior = a[k] >= a[k - 1] and a[k] >= a[k + 1]
    if not interior:
        # the largest interior sample sits next to a larger edge: a parabola with a minimum is no detection
        c.event("one_sided")
        b3 = a[k - 1:k + 2].astype("float64")
        if b3[0] - 2 * b3[1] + b3[2] > 1e-4 * b3.max() + 40 * eps * b3.max():
            c.event("minimum_not_peak")
            for q in ("phiPeakPIfit_rm2", "ampPeakPIfit", "snrPIfit", "polAngleFit_deg", "polAngle0Fit_deg"):
                c.check(m[q] != m[q], "minimum-not-nan", lambda: "%s = %r from a parabola with a minimum through %s" % (q, m[q], b3))
        return
    if dF is None:
        c.event("noise_measured")
    nt = 0 if dF is not None else 40 * eps * a.max() / max(o["s"], 1e-300)
    if nt > 1e-3:
        return
    if abs(o["snr"] - thr) / max(thr, 1) < 1e-4 + nt:
        return
    c.event("bias_corrected" if o["snr"] >= thr else "not_bias_corrected")
    dphi = edge_tol
    R = 60 * eps + 1e-6 * (bits == 32)
    c.close(m["phiPeakPIfit_rm2"], o["phiPeakPIfit_rm2"], "depth", rtol=0, atol=dphi + 4 * eps * span, what="fitted depth (vertex of the parabola)")
    for q, tol in (("ampPeakPIfit", R), ("snrPIfit", R + nt), ("dPhiPeakPIfit_rm2", R + nt), ("dAmpPeakPIfit", 1e-12 + nt), ("dPolAngleFit_deg", R + nt),
                   ("dPolAngle0Fit_deg", R + nt + 1e-9)):
        c.close(m[q], o[q], q, rtol=tol, what=q)
    if o["snr"] >= thr and not o["snr"] ** 2 > 2.3 * 1.001:
        pass
    else:
        c.close(m["ampPeakPIfitEff"], o["ampPeakPIfitEff"], "ampPeakPIfitEff", rtol=R * 3 + nt * 3 + (R * 30 if o["snr"] < 3 else 0), what="bias-corrected amplitude")
    c.close(m["indxPeakPIfit"], o["indxPeakPIfit"], "indxPeakPIfit", rtol=3 * eps, atol=2 * edge_tol / dtrue + 1e-5 * n + 200 * eps * span / dtrue, what="fitted index")
    slope = np.max(np.abs(np.diff(F[k - 1:k + 2]))) / dtrue
    at = slope * dphi * 2 + 20 * eps * a[k]
    c.close(m["peakFDFimagFit"], o["peakFDFimagFit"], "peakFDFimagFit", rtol=0, atol=at, what="imaginary part at the fitted depth")
    c.close(m["peakFDFrealFit"], o["peakFDFrealFit"], "peakFDFrealFit", rtol=0, atol=at, what="real part at the fitted depth")
    for q in ("polAngleFit_deg", "polAngle0Fit_deg"):
        c.check(0 <= m[q] < 180 or m[q] == 180.0 and False, "angle-range", lambda: "%s=%r" % (q, m[q]))
        t = np.degrees(at / max(np.hypot(o["peakFDFimagFit"], o["peakFDFrealFit"]), 1e-300)) + 1e-4 * (bits == 32) + 1e-7
        if q == "polAngle0Fit_deg":
            t += np.degrees(lam0 * dphi) + 1e-9 + 60 * eps * abs(np.degrees(o["pv"] * lam0))
        if t < 20:
            dd = abs(ref.angdiff180(m[q], o[q]))
            c.check(dd <= t, q, lambda: "%s=%r expected %r (tolerance %g)" % (q, m[q], o[q], t))
    if true:
        c.event("recoveries")
        lobe = 1.0
        c.check(abs(m["phiPeakPIfit_rm2"] - true[0]) <= 0.25 * dtrue, "recover-depth", lambda: "true %g fitted %g step %g" % (
            true[0], m["phiPeakPIfit_rm2"], dtrue))
        c.close(m["ampPeakPIfit"], true[1], "recover-intensity", rtol=0.04, what="fitted intensity of a noiseless thin source")
        e = abs(ref.angdiff180(m["polAngle0Fit_deg"], true[2]))
        if lam0 > 0:
            lim = np.degrees(lam0 * 0.25 * dtrue) + 3.0
            c.check(e <= lim or lim > 60, "recover-angle", lambda: "true %g fitted %g" % (true[2], m["polAngle0Fit_deg"]))
    equivariance(c, measure_FDF_parms, m, F, phi, fw, o["s"], l2, lam0, kw, kind, o, bits)
    c.observed((c.seed, c.idx), dict(c.context, phi=m["phiPeakPIfit_rm2"], snr=m["snrPIfit"]))


def equivariance(c, meas, m, F, phi, fw, s, l2, lam0, kw, kind, o, bits):
    r = c.rng
    a = np.sort(np.abs(F[1:-1]).astype(float))
    if len(a) > 1 and a[-1] - a[-2] < 1e-4 * a[-1]:
        return
    base = meas(FDF=F, phiArr=phi, fwhmRMSF=fw, dFDF=s, lamSqArr_m2=l2, lam0Sq=lam0, **kw)
    c.event("equivariance_checks")
    rt = 2e-5 if bits == 32 else 1e-8
    step = float(phi[1] - phi[0])
    inten = {"dFDFcorMAD", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "peakFDFimagFit", "peakFDFrealFit"}
    at = dict(phiPeakPIfit_rm2=step * (2e-3 if bits == 32 else 1e-6), indxPeakPIfit=2e-3 + 1e-5 * len(phi))
    S = 2.0 ** int(r.integers(-8, 9))
    b = meas(FDF=(F * S).astype(F.dtype), phiArr=phi, fwhmRMSF=fw, dFDF=s * S, lamSqArr_m2=l2, lam0Sq=lam0, **kw)
    for q in NUM:
        want = base[q] * S if q in inten else base[q]
        c.close(b[q], want, "scaling-" + q, rtol=rt, atol=at.get(q, 0) + (1e-4 * abs(base["ampPeakPIfit"] * S) if q in inten else 0), what="after scaling by %g: %s" % (S, q))
    th = r.uniform(0, np.pi)
    b = meas(FDF=(F * np.exp(2j * th)).astype(F.dtype), phiArr=phi, fwhmRMSF=fw, dFDF=s, lamSqArr_m2=l2, lam0Sq=lam0, **kw)
    for q in ("phiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "snrPIfit", "dPhiPeakPIfit_rm2", "dPolAngleFit_deg", "dPolAngle0Fit_deg", "indxPeakPIfit"):
        x = rt * (20 if o["snr"] < 3 and q == "ampPeakPIfitEff" else 3)
        if q == "ampPeakPIfitEff" and not o["snr"] > 1.6:
            continue
        c.close(b[q], base[q], "rotation-" + q, rtol=x, atol=at.get(q, 0) * max(1, 40 * 2e-7 * abs(base["ampPeakPIfit"]) / max(o["curv"], 1e-300)), what="after rotating the phase: %s" % q)
    if np.hypot(base["peakFDFimagFit"], base["peakFDFrealFit"]) > 0.3 * base["ampPeakPIfit"]:
        for q in ("polAngleFit_deg", "polAngle0Fit_deg"):
            t = 0.05 + np.degrees(lam0 * at["phiPeakPIfit_rm2"]) * 3 + (np.degrees(1e-6 * abs(float(base["phiPeakPIfit_rm2"]) * lam0)) if bits == 32 else 0)
            dd = abs(ref.angdiff180(b[q], base[q] + np.degrees(th)))
            c.check(dd < t or t > 30, "rotation-" + q, lambda: "%g rotated by %g gives %g" % (base[q], np.degrees(th), b[q]))
    if kind == "sym":
        b = meas(FDF=np.conj(F[::-1]).copy(), phiArr=phi, fwhmRMSF=fw, dFDF=s, lamSqArr_m2=l2, lam0Sq=lam0, **kw)
        c.close(b["phiPeakPIfit_rm2"], -base["phiPeakPIfit_rm2"], "mirror-depth", rtol=0, atol=at["phiPeakPIfit_rm2"] * max(1, 40 * 2e-7 * abs(base["ampPeakPIfit"]) / max(o["curv"], 1e-300)) + 1e-6 * float(phi[-1]), what="depth of the mirrored spectrum")
        c.close(b["ampPeakPIfit"], base["ampPeakPIfit"], "mirror-amplitude", rtol=rt, what="amplitude of the mirrored spectrum")
