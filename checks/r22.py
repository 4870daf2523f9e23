"""R22: bandwidth-depolarisation operators against numerical averages over the channel; corrected synthesis, curves and measurements against direct sums."""
import io, json, os, contextlib
import numpy as np
from rvm import gen
from checks.r09 import run_main, write_table, sha

CASES = {"quick": 900, "thorough": 26000}
RULE = ("operators: random centres, widths (narrow to half the centre, either sign), depths (zero, tiny, large, both signs) against composite quadrature; synthesis of "
        "random 1D to 3D spectra with flags and weights against the direct sum; theory and prediction curves; full runs of every column layout on bandwidth-"
        "depolarised sources, with flags, errors, weights, axes; the command line against the library; distinct by draw")
# observed through the plotting call: reported, not required
SOFT_EVENTS = {"prediction_cli"}
MIN_EVENTS = {"operators": 4000, "operators_strongly_depolarised": 400, "zero_depth": 150, "sources_simulated": 150, "planes": 120, "planes_flagged": 40, "curves": 100,
              "predictions": 60, "runs": 150, "runs_with_I": 50, "runs_with_widths": 50, "runs_flagged": 40, "recovered": 30, "cli_runs": 15, "prediction_cli": 4}
ASSUMPTIONS = ["q, u and their errors are those of create_frac_spectra, decided by R06", "peak vertex and Gaussian width fits are decided by R05 and R02",
               "channels are narrower than the separation from zero frequency"]
CASE_LIMIT = {"quick": 150, "thorough": 240}
C = 299792458.0
XG, WG = np.polynomial.legendre.leggauss(24)


def average(f, w, phi):
    """mean of exp(2i phi lambda^2) over [f - w/2, f + w/2], by quadrature on panels of little rotation each"""
    f, w = np.broadcast_arrays(np.asarray(f, float), np.asarray(w, float))
    out = np.empty(f.shape, complex)
    for i in np.ndindex(f.shape):
        a, b = f[i] - abs(w[i]) / 2, f[i] + abs(w[i]) / 2
        turn = 2 * abs(phi) * C * C * abs(1 / a ** 2 - 1 / b ** 2)
        n = int(min(4000, max(1, np.ceil(turn / 6))))
        # panels equal in phase
        e = 1 / np.sqrt(np.linspace(1 / a ** 2, 1 / b ** 2, n + 1))
        e[0], e[-1] = a, b
        x = (e[1:] + e[:-1])[:, None] / 2 + np.diff(e)[:, None] / 2 * XG
        out[i] = (np.exp(2j * phi * (C / x) ** 2) * WG * np.diff(e)[:, None] / 2).sum() / (b - a)
    return out


def tol_of(f, w, phi):
    """rounding of the difference of two antiderivatives, and of the phase itself"""
    f, w = np.asarray(f, float), np.abs(np.asarray(w, float))
    size = f + C * np.sqrt(np.abs(phi) * np.pi) * 1.5
    return 20 * 2.3e-16 * size * (1 + np.abs(phi) * (C / f) ** 2) / w + 1e-14 * np.abs(phi) * (C / f) ** 2 + 2e-13


def channels(r, n=None):
    f = np.asarray(gen.freqs(r, n=n), float)
    if max(f[1] - f[0], f[-1] - f[-2]) > .8 * f.min():
        f = np.asarray(gen.freqs(r, n=n, kind="low"), float)       # a width estimated from them has to stay clear of zero frequency
    k = r.random()
    d = np.abs(np.diff(f)).min()
    if k < .4:
        w = np.full(len(f), abs(f[1] - f[0]))
    elif k < .7:
        w = np.full(len(f), float(d) * r.uniform(.2, 1))
    else:
        w = d * r.uniform(.3, 3, len(f))
    return f, np.minimum(w, f * .4)


def run_case(c):
    k = c.idx % 9
    if k < 3:
        operators(c)
    elif k < 5:
        planes(c)
    elif k == 5:
        curves(c)
    else:
        pipeline(c)


def depths(r, f, w, n):
    """from no rotation to many turns inside a channel"""
    base = (f.min() ** 3) / (C * C * 4 * np.abs(w).max())           # about one radian across the widest channel
    return r.choice([-1, 1], n) * base * 10 ** r.uniform(-5, 2, n)


def operators(c):
    from RMtools_1D import rmtools_bwdepol as B
    r = c.rng
    f, w = channels(r, int(r.integers(2, 14)))
    phis = list(depths(r, f, w, 5)) + [0.0]
    c.label = "operators"
    c.context = dict(f=f, w=w, phis=phis)
    scalar = r.random() < .3
    W = float(w[0]) if scalar else w
    if r.random() < .2:
        W = -W                          # what the tools estimate for descending channels
    for phi in phis:
        phi = float(phi)
        got = np.asarray(B.rotation_operator(W, f, phi))
        want = average(f, W, phi)
        t = tol_of(f, W, phi)
        c.event("operators", len(f))
        c.event("operators_strongly_depolarised", int((np.abs(want) < .5).sum()))
        c.close(got, want, "operator", rtol=0, atol=t, what="rotation operator at depth %r" % phi)
        c.check((np.abs(got) <= 1 + t).all(), "operator-modulus", lambda: "|operator| = %r" % np.abs(got).max())
        if phi == 0:
            c.event("zero_depth")
            c.close(got, np.ones(len(f)), "operator-zero-depth", rtol=0, atol=t, what="operator at zero depth")
        c.close(np.asarray(B.rotation_operator(W, f, -phi)), np.conj(got), "operator-conjugate", rtol=0, atol=t, what="operator at %r" % -phi)
        c.close(np.asarray(B.analytical_chan_pol(f, W, phi, p=1)), want, "channel-polarisation", rtol=0, atol=t, what="channel polarisation at %r" % phi)
        p = float(r.uniform(.01, 5))
        c.close(np.asarray(B.analytical_chan_pol(f, W, phi, p=p)), p * want, "channel-polarisation", rtol=0, atol=p * t, what="scaled channel polarisation")
        given = None if r.random() < .3 and abs(f[1] - f[0]) < f.min() else W
        data = B.bwdepol_simulation(phi, f.copy(), given)
        ww = f[1] - f[0] if given is None else W
        c.event("sources_simulated")
        tt = tol_of(f, ww, phi)
        c.close(np.asarray(data[1]) + 1j * np.asarray(data[2]), average(f, ww, phi), "simulated-source", rtol=0, atol=tt, what="simulated source")
        c.same(data[0], f, "simulated-source", "frequencies")
    c.observed((c.seed, c.idx), c.context)


def planes(c):
    from RMtools_1D import rmtools_bwdepol as B
    r = c.rng
    f, w = channels(r, int(r.integers(4, 24)))
    if r.random() < .3:
        f, w = f[::-1].copy(), w[::-1].copy()
    n = len(f)
    nd = int(r.integers(1, 4))
    shp = (n,) + tuple(int(x) for x in r.integers(2, 5, nd - 1))
    phi = gen.phi_axis(r, gen.lam2(f), maxn=41)
    if r.random() < .5:
        phi = np.linspace(*np.sort(depths(r, f, w, 2)), 9)
    P = r.normal(size=shp) + 1j * r.normal(size=shp)
    flag = r.random()
    bad = np.zeros(shp, bool)
    if flag < .3:
        bad[r.random(n) < .3] = True
    elif flag < .6:
        bad = r.random(shp) < .2
    bad[0] = False
    Q, U = P.real.copy(), P.imag.copy()
    side = str(r.choice(["both", "Q", "U"]))
    if side != "U":
        Q[bad] = np.nan
    if side != "Q":
        U[bad] = np.nan
    c.event("planes_flagged", bad.any())
    wt = gen.weights(r, n)
    if wt is not None and not np.nan_to_num(wt)[0] > 0:
        wt[0] = 1.0
    widths = None if r.random() < .3 else (float(w[0]) if r.random() < .3 else w)
    l0 = float(r.uniform(0, 1) * gen.lam2(f).max()) if r.random() < .4 else None
    W = f[1] - f[0] if widths is None else widths
    c.label = "planes-%dD" % nd
    c.context = dict(n=n, shape=shp, flags=flag < .6, side=side, weights=wt, lam0=l0, phi=[phi[0], phi[-1], len(phi)], widths="none" if widths is None else "given")
    snap = c.snapshot(f=f, Q=Q, U=U, phi=phi, weights=wt)
    F, l0g, av = B.do_adjoint_rmsynth_planes(f, Q, U, phi, widths_Hz=widths, weightArr=wt, lam0Sq_m2=l0)
    c.unchanged(snap)
    c.event("planes")
    ww = np.ones(n) if wt is None else np.nan_to_num(wt)
    good = np.isfinite(Q) & np.isfinite(U)
    full = good.reshape(n, -1).any(1)
    ww = ww * full
    l2 = gen.lam2(f)
    want0 = (ww * l2).sum() / ww.sum() if l0 is None else l0
    c.close(l0g, want0, "lambda0", rtol=1e-12, what="reference wavelength squared")
    Z = np.where(good, P, 0)
    wc = ww.reshape((n,) + (1,) * (nd - 1)) * good
    with np.errstate(all="ignore"):
        K = 1 / wc.sum(0)
        K = np.where(np.isfinite(K), K, 0)
    want = np.empty((len(phi),) + shp[1:], complex)
    at = np.empty(want.shape)
    for i, p in enumerate(phi):
        R = average(f, W, p)
        t = tol_of(f, W, p) + 4e-16 * abs(p) * l2.max() * 4
        rs = lambda x: np.reshape(x, (n,) + (1,) * (nd - 1))
        want[i] = K * np.exp(2j * p * want0) * (wc * Z * rs(np.conj(R))).sum(0)
        at[i] = K * (wc * np.abs(Z) * rs(t)).sum(0) * 2 + 1e-13
    c.close(F, want.squeeze(), "corrected-synthesis", rtol=1e-11, atol=at.squeeze(), what="corrected synthesis")
    # the curves of the same set-up
    dqu = r.uniform(.1, 2, n)
    dqu[~full] = np.nan if r.random() < .5 else 1.0
    inf = B.adjoint_theory(av, dqu)
    c.event("curves")
    curve(c, inf, f, W, phi, ww, dqu)
    c.observed((c.seed, c.idx), c.context)


def curve(c, inf, f, W, phi, ww, dqu):
    R2 = np.array([np.abs(average(f, W, p)) ** 2 for p in phi])
    t = np.array([(2 * tol_of(f, W, p)).max() for p in phi])
    K = 1 / ww.sum()
    c.same(inf[0], phi, "curve-axis", "depths of the curves")
    c.close(inf[1], K * (ww * R2).sum(1), "sensitivity-curve", rtol=1e-11, atol=t, what="sensitivity")
    d = np.where(ww > 0, dqu, 0)
    v = ((ww * d) ** 2 * R2).sum(1) * K ** 2
    tv = t * ((ww * d) ** 2).sum() * K ** 2
    want = np.sqrt(v)
    c.close(inf[2], want, "noise-curve", rtol=1e-11, atol=np.minimum(np.sqrt(tv), tv / np.maximum(want, 1e-300)) + 1e-300, what="noise")


def curves(c):
    from RMtools_1D import rmtools_bwpredict as R_
    r = c.rng
    f, w = channels(r, int(r.integers(4, 24)))
    if r.random() < .3:
        f, w = f[::-1].copy(), w[::-1].copy()
    n = len(f)
    l2 = gen.lam2(f)
    fw = 2 * np.sqrt(3) / (l2.max() - l2.min())
    auto = 2 * np.sqrt(3) / np.abs(np.diff(l2)).min()
    kw = {}
    if auto / fw > 400 or r.random() < .6:
        kw["phiMax_radm2"] = float(fw * r.uniform(3, 60))
    if r.random() < .5:
        kw["dPhi_radm2"] = float(fw * r.uniform(.3, 2))
    widths = None if r.random() < .4 else w
    W = f[1] - f[0] if widths is None else widths
    c.label = "prediction"
    c.context = dict(n=n, widths=widths is not None, **kw)
    d = c.tmpdir()
    if r.random() < .15:
        import matplotlib.pyplot as plt
        p = os.path.join(d, "f.dat")
        vals = write_table(r, p, [f] if widths is None else [f, w])
        got = []
        inner = getattr(R_, "plot_adjoint_info", None)
        if inner is not None:
            R_.plot_adjoint_info = lambda a, *o, **k: (got.append(a), inner(a, *o, **k))[1]
        try:
            out = os.path.join(d, "o.png")
            argv = ["bwpredict", p, "-f", out]
            for k, o in (("phiMax_radm2", "-l"), ("dPhi_radm2", "-d")):
                if k in kw:
                    argv += [o, repr(kw[k])]
            with contextlib.redirect_stdout(io.StringIO()):
                run_main(R_.main, argv, d)
            c.check(os.path.exists(out), "prediction-figure", "not written")
        finally:
            if inner is not None:
                R_.plot_adjoint_info = inner
            plt.close("all")
        if not got:
            c.event("prediction_curves_unseen")
            return
        c.event("prediction_cli")
        inf = got[0]
        f = vals[0]
        W = f[1] - f[0] if widths is None else vals[1]
        l2 = gen.lam2(f)
        fw = 2 * np.sqrt(3) / (l2.max() - l2.min())
        auto = 2 * np.sqrt(3) / np.abs(np.diff(l2)).min()
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            inf = R_.bwdepol_compute_predictions(f, widths_Hz=widths, **kw)
    c.event("predictions")
    step, top = kw.get("dPhi_radm2", fw), kw.get("phiMax_radm2", auto)
    phi = np.asarray(inf[0])
    c.close(phi, np.arange(len(phi)) * step, "prediction-axis", rtol=1e-9, atol=1e-9, what="depths of the prediction")
    c.check(phi[-1] <= top * (1 + 1e-9) + 2e-6 and phi[-1] + step >= top * (1 - 1e-9), "prediction-axis", lambda: "ends at %r of %r by %r" % (phi[-1], top, step))
    R2 = np.array([np.abs(average(f, W, p)) ** 2 for p in phi])
    t = np.array([(2 * tol_of(f, W, p)).max() for p in phi])
    c.close(inf[1], R2.mean(1), "sensitivity-curve", rtol=1e-11, atol=t, what="predicted sensitivity")
    no = np.sqrt(R2.mean(1))
    c.close(inf[2], no / no.max(), "noise-curve", rtol=1e-9, atol=np.minimum(np.sqrt(t), t / np.maximum(no, 1e-300)), what="predicted noise")
    c.observed((c.seed, c.idx), c.context)


def pipeline(c):
    from RMtools_1D import rmtools_bwdepol as B
    from RMutils.util_misc import create_frac_spectra, calculate_StokesI_model
    from RMutils.util_RM import fit_rmsf, calc_parabola_vertex
    r = c.rng
    f, w = channels(r, int(r.integers(14, 50)))
    if r.random() < .3:
        f, w = f[::-1].copy(), w[::-1].copy()
    n = len(f)
    hasI, hasW = r.random() < .5, r.random() < .5
    W = w if hasW else np.full(n, f[1] - f[0])
    l2 = gen.lam2(f)
    fw = 2 * np.sqrt(3) / (l2.max() - l2.min())
    d = fw * r.uniform(.08, .3)
    one = float((f.min() ** 3) / (C * C * 4 * np.abs(W).max()))
    N = int(r.integers(20, 160))
    d = max(d, min(3 * one, 60 * fw) / N * r.uniform(.3, 1)) if r.random() < .3 else d
    d = min(d, fw * .3)
    top = N * d
    src = dict(p=float(r.uniform(.02, .7)), phi=float((r.uniform(-.8, .8) if r.random() < .88 else r.uniform(.9, 1.3) * r.choice([-1, 1])) * top), psi=float(r.uniform(0, 180)))
    R = average(f, W, src["phi"])
    P = src["p"] * np.exp(2j * np.radians(src["psi"])) * R
    noisy = r.random() < .4
    sq = src["p"] * 10 ** r.uniform(-3, -1.3) * (r.uniform(.3, 3, n) if r.random() < .6 else np.ones(n))
    su = sq * (r.uniform(.5, 2, n) if r.random() < .5 else 1.0)
    I = np.ones(n)
    if hasI:
        al = r.uniform(-1.5, 1)
        I = 10 ** r.uniform(-3, 2) * (f / 1e9) ** al
        dI = I * 1e-3
    q, u = P.real.copy(), P.imag.copy()
    if noisy:
        q, u = q + sq * r.normal(size=n), u + su * r.normal(size=n)
    Qd, Ud, dQ, dU = q * I, u * I, sq * I, su * I
    fl = r.random()
    flags = fl < .5
    if flags:
        z = r.random(n) < .2
        z[:3] = False
        which = str(r.choice(["both", "q", "u", "err", "all"]))
        for nm, arr in (("q", Qd), ("u", Ud)):
            if which in ("both", "all", nm):
                arr[z] = np.nan
        if which in ("err", "all"):
            dQ[z] = np.nan
            dU[z] = np.nan
        flags = z.any()
    else:
        which = ""
    if hasI and which == "all":
        I = np.where(z, np.nan, I)
        dI = np.where(z, np.nan, dI)
    cols = [f] + ([W] if hasW else []) + ([I, Qd, Ud, dI, dQ, dU] if hasI else [Qd, Ud, dQ, dU])
    wtype = "uniform" if r.random() < .25 else "variance"
    if which == "err" and wtype == "uniform":
        wtype = "variance"
    order = int(r.choice([1, 2, 3])) if hasI else 2
    noI = hasI and r.random() < .1
    fitR = r.random() < .8
    kw = dict(polyOrd=order, phiMax_radm2=top, dPhi_radm2=d, weightType=wtype, fitRMSF=fitR, noStokesI=bool(noI))
    if r.random() < .1 and np.sqrt(3) / np.abs(np.diff(l2)).max() < 100 * fw:
        # let the tool choose the axis
        del kw["phiMax_radm2"], kw["dPhi_radm2"]
        ns = float(r.choice([3.0, 6.0]))
        kw["nSamples"] = ns
        d = fw / ns
        top = max(np.sqrt(3) / np.abs(np.diff(l2)).max(), 600.0)
        if top / d > 400:
            kw.update(phiMax_radm2=60 * fw, dPhi_radm2=fw / 5)
            top, d = 60 * fw, fw / 5
    c.label = "run-%d%s" % (len(cols), "-flag" if flags else "")
    c.context = dict(columns=len(cols), n=n, source=src, noisy=noisy, flags=which, options=kw)
    cli = r.random() < .2
    used = [np.array(x, float) for x in cols]
    dd = c.tmpdir()
    if cli:
        pt = os.path.join(dd, "src.dat")
        used = write_table(r, pt, cols)
        h = sha(pt)
        argv = ["bwdepol", pt, "-S", "-o", str(order), "-w", wtype]
        for k, o in (("phiMax_radm2", "-l"), ("dPhi_radm2", "-d"), ("nSamples", "-s")):
            if k in kw:
                argv += [o, repr(kw[k])]
        argv += ([] if fitR else ["-t"]) + (["-i"] if noI else []) + (["-v"] if r.random() < .6 else []) + (["-p"] if r.random() < .15 else [])
        rec = io.StringIO()
        with contextlib.redirect_stdout(rec):
            run_main(B.main, argv, dd)
        import matplotlib.pyplot as plt
        plt.close("all")
        c.check(sha(pt) == h, "input-file-modified", pt)
        c.event("cli_runs")
        pre = os.path.join(dd, "src")
        if not c.check(all(os.path.exists(pre + x) for x in ("_FDFdirty.dat", "_RMSF.dat", "_RMsynth.dat", "_RMsynth.json", "_weight.dat")), "products", lambda: "have %s" % os.listdir(dd)):
            return
        m = json.load(open(pre + "_RMsynth.json"))
        t1, t2, t3 = (np.loadtxt(pre + x, unpack=True) for x in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat"))
        a = dict(phiArr_radm2=t1[0], dirtyFDF=t1[1] + 1j * t1[2], phi2Arr_radm2=t2[0], RMSFArr=t2[1] + 1j * t2[2], freqArr_Hz=t3[0], weightArr=t3[1])
    else:
        arr = np.array(cols) if r.random() < .7 else [x.copy() for x in cols]
        snap = c.snapshot(data=arr)
        with contextlib.redirect_stdout(io.StringIO()):
            m, a = B.run_adjoint_rmsynth(arr, log=lambda *a_, **k_: None, verbose=bool(r.random() < .3), **kw)
        c.unchanged(snap)
    c.event("runs")
    c.event("runs_with_I", hasI)
    c.event("runs_with_widths", hasW)
    c.event("runs_flagged", flags)
    # what the run should be made of
    it = iter(used)
    F = next(it)
    Wd = next(it) if hasW else F[1] - F[0]
    if hasI:
        I_, Q_, U_, dI_, dQ_, dU_ = it
    else:
        Q_, U_, dQ_, dU_ = it
    if noI or not hasI:
        I_, dI_ = np.ones(n), np.zeros(n)
    with contextlib.redirect_stdout(io.StringIO()):
        _, qq, uu, _, _, fit = create_frac_spectra(freqArr=F / 1e9, IArr=I_, QArr=Q_, UArr=U_, dIArr=dI_, dQArr=dQ_, dUArr=dU_, polyOrd=order)
    dqu = (dQ_ + dU_) / 2
    good = np.isfinite(qq) & np.isfinite(uu)
    ww = np.where(good, 1 / dqu ** 2 if wtype == "variance" else 1.0, 0.0)
    ww = np.where(np.isfinite(ww), ww, 0.0)
    good &= ww > 0
    L2 = gen.lam2(F)
    l0 = (ww * L2).sum() / ww.sum()
    c.close(a["freqArr_Hz"], F, "channels", rtol=1e-12, what="frequencies")
    c.close(a["weightArr"], ww, "weights", rtol=1e-9, what="weights")
    c.close(m["lam0Sq_m2"], l0, "lambda0", rtol=1e-9, what="reference wavelength squared")
    c.close(m["freq0_Hz"], C / np.sqrt(l0), "lambda0", rtol=1e-9, what="reference frequency")
    If = 1.0 if noI or not hasI else float(calculate_StokesI_model(fit, C / np.sqrt(l0) / 1e9))
    c.close(m["Ifreq0"], If, "I-at-reference", rtol=1e-9, what="Stokes I at the reference frequency")
    if hasI and not noI:
        c.close(m["Ifreq0"], float(np.interp(C / np.sqrt(l0), np.sort(F), np.asarray(cols[2 if hasW else 1])[np.argsort(F)])) if which != "all" else If,
                "I-at-reference", rtol=.25, what="Stokes I at the reference frequency (interpolated)")
    ph = np.asarray(a["phiArr_radm2"])
    half = int(round(top / d))
    c.close(ph, np.arange(-half, half + 1) * d, "axis", rtol=1e-6 if cli else 1e-9, atol=1e-9 * top, what="depth axis")
    c.check(m["N_channels"] == int(good.sum()), "channel-count", lambda: "%s of %d" % (m["N_channels"], good.sum()))
    c.close([m["min_freq"], m["max_freq"]], [F[good].min(), F[good].max()], "channel-range", rtol=1e-12, what="frequency range")
    c.close(m["median_channel_width"], np.median(np.abs(Wd)) if hasW else np.median(np.abs(np.diff(F))), "channel-width", rtol=1e-9, what="median width")
    if len(ph) != 2 * half + 1:
        return
    Z = np.where(good, qq + 1j * uu, 0)
    R = np.array([average(F, Wd, p) for p in ph])
    T = np.array([tol_of(F, Wd, p).max() for p in ph])
    K = 1 / ww.sum()
    FDF = K * np.exp(2j * ph * l0) * (ww * Z * R.conj()).sum(1) * If
    sens = K * (ww * np.abs(R) ** 2).sum(1)
    noise = K * np.sqrt(((ww * np.where(good, dqu, 0)) ** 2 * np.abs(R) ** 2).sum(1))
    amp = np.abs(FDF) / sens
    # relative rounding where the channels have lost nearly everything
    at = (T * 4 * np.abs(Z).max() * If + 4 * T * amp) / sens + 1e-12 * amp.max()
    ok = sens > 1e3 * T
    c.close(np.where(ok, a["dirtyFDF"], 0), np.where(ok, FDF / sens, 0), "corrected-spectrum", rtol=1e-6, atol=at * 2, what="corrected depth spectrum")
    # response: the simulated source at the peak depth, on its own axis
    k = int(np.argmax((np.abs(FDF) / noise)[1:-1])) + 1
    sn = np.abs(FDF) / noise
    second = np.sort(sn[1:-1])[-2]
    if second > sn[k] * (1 - 1e-6):
        return
    p2 = np.asarray(a["phi2Arr_radm2"])
    c.check(len(p2) == len(a["RMSFArr"]), "response-axis", lambda: "%d depths, %d values" % (len(p2), len(a["RMSFArr"])))
    c.check(abs(np.diff(p2) - d).max() <= 1e-6 * d + 1e-9 * top and p2[0] <= ph[0] + 1e-6 * d and p2[-1] >= ph[-1] - 1e-6 * d, "response-axis", lambda: "%r to %r of %r" % (p2[0], p2[-1], ph[[0, -1]]))
    S = average(F, Wd, ph[k])
    sel = r.choice(len(p2), min(len(p2), 60), replace=False)
    want = np.array([K * np.exp(2j * x * l0) * (ww * S * average(F, Wd, x).conj()).sum() for x in p2[sel]])
    at2 = np.array([4 * tol_of(F, Wd, x).max() for x in p2[sel]]) + 4 * T[k] + 1e-9
    c.close(np.asarray(a["RMSFArr"])[sel], want, "response", rtol=1e-6, atol=at2, what="response function at the peak depth")
    ana = 2 * np.sqrt(3) / (L2.max() - L2.min())
    if fitR:
        prof = np.abs(np.asarray(a["RMSFArr"]))
        mp = fit_rmsf(p2, prof / prof.max())
        fwhm = ana if mp is None or mp.status < 1 else mp.params[2]
    else:
        fwhm = ana
    c.close(m["fwhmRMSF"], fwhm, "response-width", rtol=1e-6, what="width of the response")
    # measurements
    e = k
    cx = dict(k=k, phi=ph[k])
    v, pk = calc_parabola_vertex(ph[k - 1], amp[k - 1], ph[k], amp[k], ph[k + 1], amp[k + 1])
    rt = 1e-5 + 20 * at[k] / amp[k]
    low = amp[k - 1:k + 2].min()
    bend = abs(amp[k - 1] - 2 * amp[k] + amp[k + 1])
    if bend <= 1e3 * at[k - 1:k + 2].max() or min(abs(v - ph[0]), abs(v - ph[-1])) < 1e-3 * d:
        return
    if pk < low or not ph[0] <= v <= ph[-1]:
        # the spectrum still rises at its edge (or hangs between two rises): there is no peak to report
        c.event("no_peak")
        c.check(all(not np.isfinite(m[x]) for x in ("phiPeakPIfit_rm2", "ampPeakPIfit", "snrPIfit", "ampPeakPIfitEff", "polAngle0Fit_deg", "fracPol")), "no-peak", lambda: "vertex %r of %r, amplitude %r, reported %r %r" % (v, ph[[0, -1]], pk, m["phiPeakPIfit_rm2"], m["ampPeakPIfit"]))
        return
    c.close(m["phiPeakPIfit_rm2"], v, "peak-depth", rtol=0, atol=d * (1e-4 + 100 * at[k - 1:k + 2].max() / max(1e-30, abs(amp[k - 1] - 2 * amp[k] + amp[k + 1]))), what="fitted depth")
    inside = ph[k - 1] <= v <= ph[k + 1]
    if not inside:
        return
    c.close(m["ampPeakPIfit"], pk, "peak-amplitude", rtol=rt, what="fitted amplitude")
    c.close(m["dAmpPeakPIfit"], noise[k] / sens[k], "amplitude-error", rtol=rt, what="amplitude error")
    snr = pk * sens[k] / noise[k]
    c.close(m["snrPIfit"], snr, "snr", rtol=rt, what="signal to noise")
    eff = np.sqrt(pk ** 2 - 2.3 * (noise[k] / sens[k]) ** 2) if snr >= 5 else pk
    if abs(snr - 5) > .01:
        c.close(m["ampPeakPIfitEff"], eff, "bias-correction", rtol=2 * rt, what="bias-corrected amplitude")
    c.close(m["dPhiPeakPIfit_rm2"], fwhm / (2 * snr), "depth-error", rtol=2 * rt, what="depth error")
    c.close(m["dPolAngleFit_deg"], np.degrees(.5 / snr), "angle-error", rtol=2 * rt, what="angle error")
    re, im = np.interp(v, ph, FDF.real), np.interp(v, ph, FDF.imag)
    c.close([m["peakFDFrealFit"], m["peakFDFimagFit"]], [re, im], "peak-components", rtol=1e-4, atol=1e-3 * abs(re + 1j * im), what="real and imaginary part at the peak")
    ang = np.degrees(np.arctan2(im, re)) / 2
    c.close((m["polAngleFit_deg"] - ang + 90) % 180 - 90, 0.0, "angle", atol=.02, what="polarisation angle")
    c.close((m["polAngle0Fit_deg"] - ang + np.degrees(m["phiPeakPIfit_rm2"] * l0) + 90) % 180 - 90, 0.0, "angle0", atol=.02, what="derotated angle")
    c.check(0 <= m["polAngleFit_deg"] <= 180 and 0 <= m["polAngle0Fit_deg"] <= 180, "angle-range", lambda: "%r %r" % (m["polAngleFit_deg"], m["polAngle0Fit_deg"]))
    c.close(m["fracPol"], pk / If, "fraction", rtol=rt, what="fractional polarisation")
    c.close(m["dQU"], np.nanmedian(dqu), "noise", rtol=1e-6, what="median noise")
    # the source itself
    if abs(src["phi"]) <= .8 * top and not noI and not noisy and wtype == "variance" and sens[k] > 1e-3 and not flags:
        far = np.abs(ph - src["phi"]) > 2 * d
        side = (np.abs(FDF) / noise)[far].max() / sn[k] if far.any() else 0
        if side < .97:
            c.event("recovered")
            # the corrected spectrum of a source weighted by its own errors peaks in signal to noise at its depth
            c.check(abs(ph[k] - src["phi"]) <= 1.01 * d, "recovery-depth", lambda: "peak at %r, source at %r, step %r" % (ph[k], src["phi"], d))
            j = np.interp(src["phi"], ph, amp / If)
            c.check(abs(j - src["p"]) <= .05 * src["p"] + np.abs(np.diff(amp / If)[k - 1:k + 1]).max(), "recovery-fraction", lambda: "%r, source %r" % (j, src["p"]))
            # exactly at the source's depth the corrected spectrum has its fraction and angle
            g = np.asarray(a["dirtyFDF"]) / If
            at0 = abs(ph - src["phi"]).argmin()
            Rs, R0 = average(F, Wd, src["phi"]), R[at0]
            want0 = src["p"] * np.exp(2j * np.radians(src["psi"])) * np.exp(2j * ph[at0] * l0) * (ww * Rs * R0.conj()).sum() / (ww * np.abs(R0) ** 2).sum()
            c.close(g[at0], want0, "recovery-value", rtol=2e-3, atol=4 * at[at0] / If, what="corrected spectrum next to the source")
    c.observed((c.seed, c.idx), c.context)
