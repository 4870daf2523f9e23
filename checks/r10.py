"""R10: 1D RM-CLEAN driver: threshold interpretation, agreement of what it reports, isolation, recovery."""
import copy
import numpy as np
from rvm import gen, ref, cleanw
from checks import r08

CASES = {"quick": 1000, "thorough": 18000}
RULE = ("1D synthesis results (thin, two components, noise, flags, weights, precision, fitted widths) cleaned with positive and negative cutoffs x window "
        "absent, positive, negative x gain x iteration limit; distinct by draw")
MIN_EVENTS = {"cleans": 800, "sigma_cutoffs": 350, "absolute_cutoffs": 350, "sigma_windows": 120, "absolute_windows": 120, "iteration_limited": 60, "default_gains": 150,
              "nothing_to_clean": 30, "on_grid_recoveries": 100, "off_grid_recoveries": 60, "conservation": 800, "restored": 800, "measured_values": 8000}
ASSUMPTIONS = ["1D cleaning stores components and residuals in single precision whatever the input precision"]


def quiet(*a, **k):
    pass


def run_case(c):
    from RMtools_1D.do_RMclean_1D import run_rmclean
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    from RMutils.util_RM import do_rmclean_hogbom, measure_FDF_parms
    r = c.rng
    d = r08.draw(r)
    mode = str(r.choice(["grid", "grid", "free", "free", "free"]))
    fw = d["fw"]
    step = fw / r.uniform(4, 9)
    half = int(r.integers(25, 120))
    bits = int(r.choice([32, 64]))
    if mode == "grid" or d["kind"] == "thin":
        k0 = int(r.integers(-half + 8, half - 7))
        d["kind"] = "thin"
        d["t"] = t = k0 * step + (0 if mode == "grid" else r.uniform(-.5, .5) * step)
        l2 = gen.lam2(d["f"])
        P = gen.thin(l2, t, d["frac"], d["psi"]) * np.abs(d["xtrue"])
        mk = np.isnan(d["Q"]) | np.isnan(d["U"])
        d["Q"], d["U"] = np.where(mk, np.nan, P.real), np.where(mk, np.nan, P.imag)
    d["Ikind"] = str(r.choice(["fit", "five", "supplied"]))
    if d["sgn"] < 0 and (d["Ikind"] == "five" or d["fn"] == "log"):
        d["Ikind"] = "supplied"
    data, kw = r08.build(d, dict(polyOrd=2, nBits=bits, weightType=str(r.choice(["variance", "uniform"])), phiMax_radm2=half * step, dPhi_radm2=step,
                                 fitRMSF=bool(r.random() < .2), super_resolution=bool(r.random() < .07), units="Jy/beam"))
    m, a = run_rmsynth(data, log=quiet, **kw)
    dirty = np.asarray(a["dirtyFDF"], "complex128")
    pk = np.abs(dirty).max()
    if not np.isfinite(pk) or not m["dFDFth"] > 0:
        return
    gain = float(r.choice([.1, .1, .3, .6]))
    maxit = int(r.choice([1000, 1000, 30, 5]))
    target = pk * (10 ** r.uniform(-1.3, -.1) if r.random() < .9 else r.uniform(1.05, 3))
    sig = bool(r.random() < .5)
    cut = -target / m["dFDFth"] if sig else target
    wk = str(r.choice(["none", "none", "abs", "sigma"]))
    wt = target * r.uniform(.15, 1.2)
    win = {"none": None, "abs": wt, "sigma": -wt / m["dFDFth"]}[wk]
    c.event("sigma_cutoffs" if sig else "absolute_cutoffs")
    if wk != "none":
        c.event("sigma_windows" if wk == "sigma" else "absolute_windows")
    c.label = "%s-%s" % (mode, wk)
    c.context = dict(mode=mode, kind=d["kind"], bits=bits, cutoff=cut, window=win, gain=gain, maxIter=maxit, n=len(dirty), noise=m["dFDFth"])
    snap = c.snapshot(mDict=m, aDict=a)
    given = dict(maxIter=maxit, gain=gain)
    if maxit == 1000 and r.random() < .5:
        del given["maxIter"]
    if gain == .1 and r.random() < .6:
        # the documented defaults
        del given["gain"]
        c.event("default_gains")
    mc, ac = run_rmclean(m, a, cut, **given, nBits=bits, verbose=c.idx % 5 == 3, log=quiet, **({} if win is None and r.random() < .5 else dict(window=win)))
    c.unchanged(snap)
    c.event("cleans")
    eps = 4e-7
    # reported numbers
    c.close(mc["cleanCutoff"], target, "cutoff", rtol=1e-6, what="reported absolute cutoff")
    it = int(np.ravel(ac["iterCountArr"])[0])
    c.check(mc["nIter"] == it, "iterations", lambda: "reported %r, array %r" % (mc["nIter"], it))
    # the same cleaning requested directly
    cl, cc, n_, rs = do_rmclean_hogbom(dirtyFDF=np.array(a["dirtyFDF"]), phiArr_radm2=np.array(a["phiArr_radm2"]), RMSFArr=np.array(a["RMSFArr"]),
                                       phi2Arr_radm2=np.array(a["phi2Arr_radm2"]), fwhmRMSFArr=np.array(m["fwhmRMSF"]), cutoff=mc["cleanCutoff"], maxIter=maxit,
                                       gain=gain, verbose=c.idx % 5 == 3, window=np.nan if win is None else wt)[:4]
    same_len = int(np.ravel(n_)[0]) == it
    if same_len or wk == "none":
        c.check(same_len, "iterations", lambda: "driver %d, direct cleaning %d" % (it, int(np.ravel(n_)[0])))
    else:
        # the conversion of the thresholds rounds: the count must lie between those of thresholds a hair apart
        b = [int(np.ravel(do_rmclean_hogbom(dirtyFDF=np.array(a["dirtyFDF"]), phiArr_radm2=np.array(a["phiArr_radm2"]), RMSFArr=np.array(a["RMSFArr"]),
                                            phi2Arr_radm2=np.array(a["phi2Arr_radm2"]), fwhmRMSFArr=np.array(m["fwhmRMSF"]), cutoff=mc["cleanCutoff"] * (1 + e1), maxIter=maxit,
                                            gain=gain, verbose=c.idx % 5 == 3, window=wt * (1 + e2))[2])[0]) for e1 in (-3e-7, 3e-7) for e2 in (-3e-6, 3e-6)]
        c.event("rounded_windows")
        c.check(min(b) <= it <= max(b), "iterations", lambda: "driver %d, direct cleaning %d, a hair apart %s" % (it, int(np.ravel(n_)[0]), b))
    if same_len:
        for nm, x, y in (("cleanFDF", ac["cleanFDF"], cl), ("ccArr", ac["ccArr"], cc), ("residFDF", ac["residFDF"], rs)):
            c.close(np.squeeze(np.asarray(x, "complex128")), np.squeeze(np.asarray(y, "complex128")), "driver-" + nm, rtol=0, atol=eps * pk * 30, what=nm + " against cleaning directly")
    c.same(np.asarray(ac["phiArr_radm2"]), np.asarray(a["phiArr_radm2"]), "axes")
    c.same(np.asarray(ac["freqArr_Hz"]), np.asarray(a["freqArr_Hz"]), "axes")
    cc = np.squeeze(np.asarray(ac["ccArr"], "complex128")); rs = np.squeeze(np.asarray(ac["residFDF"], "complex128")); cl = np.squeeze(np.asarray(ac["cleanFDF"], "complex128"))
    N = len(dirty)
    if not c.check(cc.shape == rs.shape == cl.shape == (N,), "shapes", str((cc.shape, rs.shape, cl.shape))):
        return
    M = cleanw.response_matrix(np.asarray(a["RMSFArr"], "complex128"), N)
    T = np.abs(cc).sum() + pk
    c.event("conservation")
    c.close(M @ cc + rs, dirty, "conservation", rtol=0, atol=2e-6 * T * max(3, np.sqrt(it + 1)), what="components times response plus residual")
    c.event("restored")
    G = cleanw.gaussian_matrix(a["phiArr_radm2"], m["fwhmRMSF"])
    c.close(cl, G @ cc + rs, "restored", rtol=0, atol=5e-6 * T, what="clean spectrum")
    mx = np.abs(rs).max()
    if it >= maxit:
        c.event("iteration_limited")
        c.check(it == maxit, "limit", "%d iterations with limit %d" % (it, maxit))
    elif wk == "none":
        c.check(mx < target * (1 + 1e-5), "residual-above-cutoff", lambda: "residual %g, cutoff %g" % (mx, target))
    if pk < target * (1 - 1e-6):
        c.event("nothing_to_clean")
        c.check(it == 0 and not cc.any(), "cleaned-below-cutoff", "%d iterations" % it)
    if wk != "none" and it < maxit and cc.any():
        ph = np.asarray(a["phiArr_radm2"], "float64")
        nz = np.where(cc != 0)[0]
        near = nz
        # residual on the components themselves is inside the window by construction, unless the window is above the cutoff
        if wt < target and m["fwhmRMSF"] / step > 2.1:
            c.check(np.abs(rs[near]).max() < wt * (1 + 1e-5) or not same_len, "window-residual", lambda: "residual %g at components, window %g" % (np.abs(rs[near]).max(), wt))
    # measurements are those of the clean spectrum with the theoretical noise
    mm = measure_FDF_parms(FDF=np.array(np.squeeze(ac["cleanFDF"])), phiArr=np.array(a["phiArr_radm2"]), fwhmRMSF=m["fwhmRMSF"], dFDF=m["dFDFth"],
                           lamSqArr_m2=(gen.C / np.asarray(a["freqArr_Hz"], "float64")) ** 2, lam0Sq=m["lam0Sq_m2"])
    for k in mm:
        c.event("measured_values")
        c.close(mc[k], mm[k], "measured-" + k, rtol=2e-5 if "Angle0" not in k else 5e-4, atol=1e-4 if k.startswith("indx") else 0, what=k)
    q = mm["dFDFcorMAD"] / m["dFDFth"]
    for k, b in (("dPhiObserved_rm2", "dPhiPeakPIfit_rm2"), ("dPolAngleFitObserved_deg", "dPolAngleFit_deg"), ("dPolAngleFit0Observed_deg", "dPolAngle0Fit_deg")):
        c.close(mc[k], mm[b] * q, "observed-errors", rtol=1e-4, what=k)
    c.close(mc["dAmpObserved"], mm["dFDFcorMAD"], "observed-errors", rtol=1e-5)
    ph = np.asarray(a["phiArr_radm2"], "float64")
    K = np.abs(cc).sum()
    if K > 0:
        mu = (ph * np.abs(cc)).sum() / K
        c.close(mc["mom2CCFDF"], np.sqrt(((ph - mu) ** 2 * np.abs(cc)).sum() / K), "second-moment", rtol=1e-3, atol=4e-4 * np.abs(ph).max(), what="second moment of the components")
    else:
        c.check(mc["mom2CCFDF"] != mc["mom2CCFDF"] or mc["mom2CCFDF"] == 0, "second-moment", repr(mc["mom2CCFDF"]))
    c.observed((c.seed, c.idx), dict(c.context, nIter=it, residual=mx / pk))
    # recovery
    if d["kind"] == "thin" and it < maxit and target < pk and not kw["super_resolution"] and (d["Ikind"] != "fit" or d["fn"] == "log"):
        Pt = d["frac"] * abs(m["Ifreq0"])
        lam0 = m["lam0Sq_m2"]
        sig_ = Pt * np.exp(2j * (np.radians(d["psi"]) + d["t"] * lam0))
        tot = cc.sum()
        side = np.abs(np.asarray(a["RMSFArr"], "complex128"))
        p2 = np.asarray(a["phi2Arr_radm2"], "float64")
        s1 = side[(np.abs(p2) > fw * .8)].max()
        if mode == "grid" and d["Ikind"] != "fit" and s1 < .9:
            c.event("on_grid_recoveries")
            peak_res = rs[int(round(d["t"] / step)) + N // 2]
            c.close(tot + peak_res, sig_, "flux-on-grid", rtol=0, atol=2e-3 * Pt, what="total component flux plus residual at the source")
            nz = np.abs(cc) > 1e-4 * Pt
            c.check(np.where(nz)[0].tolist() == [int(round(d["t"] / step)) + N // 2], "components-on-grid", lambda: "components at %s" % np.where(nz)[0].tolist())
        elif s1 < .5 and wk == "none":
            c.event("off_grid_recoveries")
            c.check(abs(abs(tot) - Pt) < target * 1.6 + .06 * Pt, "flux-off-grid", lambda: "total %g, source %g, cutoff %g" % (abs(tot), Pt, target))
        if s1 < .5 and mc["phiPeakPIfit_rm2"] == mc["phiPeakPIfit_rm2"]:
            c.check(abs(mc["phiPeakPIfit_rm2"] - d["t"]) < .3 * step + .02 * fw, "recover-depth", lambda: "true %g found %g" % (d["t"], mc["phiPeakPIfit_rm2"]))
            c.close(mc["ampPeakPIfit"], Pt, "recover-amplitude", rtol=.08)
            e = np.degrees(lam0 * (.3 * step + .02 * fw)) + 3
            c.check(e > 45 or abs(ref.angdiff180(mc["polAngle0Fit_deg"], d["psi"])) < e, "recover-angle", lambda: "true %g found %g" % (d["psi"], mc["polAngle0Fit_deg"]))
