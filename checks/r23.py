"""R23: extra scatter in Q/U residuals against a direct likelihood grid, invariances, statistical calibration; second moment of components."""
import io, contextlib
import numpy as np
from rvm import gen

CASES = {"quick": 900, "thorough": 30000}
RULE = ("random spectra (thin source with or without injected scatter, outliers, second component, flags in either parameter or the errors, unequal errors) measured and "
        "compared with the likelihood summed by the monitor; the same spectra reordered, scaled, with flagged channels removed, with another source; ensembles of "
        "pure noise and of injected scatter; full 1D runs; component lists shifted and scaled; distinct by draw")
MIN_EVENTS = {"measures": 1200, "flagged": 150, "one_sided_flags": 60, "reordered": 250, "rescaled": 250, "flags_removed": 120, "other_source": 250, "null_cases": 120,
              "injected": 60, "pipeline": 60, "moments": 150, "ensembles": 4}
ASSUMPTIONS = ["the posterior is that of a scale-free prior on a grid of a thousand steps up to the range of the data, as documented in the code"]
CASE_LIMIT = {"quick": 120, "thorough": 150}
C = 299792458.0


def posterior(y, dy, n=1000):
    g = np.isfinite(y) & np.isfinite(dy)
    y, dy = y[g], dy[g]
    rng = (y + dy).max() - (y - dy).min()
    s = np.linspace(rng / n, rng, n)
    v = dy[:, None] ** 2 + s ** 2
    lp = -np.log(s) - .5 * np.log(v).sum(0) - .5 * (y[:, None] ** 2 / v).sum(0)
    p = np.exp(lp - lp.max())
    return s, np.cumsum(p) / p.sum()


def percentile(s, cdf, q):
    i = int(np.argmax(cdf > q))
    if i == 0:
        return s[0]
    return s[i - 1] + (q - cdf[i - 1]) * (s[i] - s[i - 1]) / (cdf[i] - cdf[i - 1])


def expected(y, dy):
    s, cdf = posterior(y, dy)
    m, lo, hi = (percentile(s, cdf, q) for q in (.5, .1572, .8427))
    return m, hi - m, m - lo, s[1] - s[0]


def thin(f, t):
    return t["p"] * np.exp(2j * (np.radians(t["psi"]) + t["phi"] * (C / f) ** 2))


def measure(f, q, u, dq, du, t):
    from RMutils.util_RM import measure_qu_complexity
    return measure_qu_complexity(freqArr_Hz=f, qArr=q, uArr=u, dqArr=dq, duArr=du, fracPol=t["p"], psi0_deg=t["psi"], RM_radm2=t["phi"])


def compare(c, m, rq, ru, mech, slack=1e-6):
    """reported medians and intervals of the normalised residuals"""
    for suf, y in (("Q", rq), ("U", ru), ("C", np.concatenate([rq, ru]))):
        md, pl, mi, step = expected(y, np.ones(len(y)))
        at = slack * (md + pl) + 1e-9
        # where the cumulative distribution is flat, rounding moves the percentile by a step
        c.close(m["sigmaAdd" + suf], md, mech, rtol=1e-5, atol=at, what="extra scatter " + suf)
        c.close(m["dSigmaAddPlus" + suf], pl, mech + "-interval", rtol=1e-5, atol=at, what="upper interval " + suf)
        c.close(m["dSigmaAddMinus" + suf], mi, mech + "-interval", rtol=1e-5, atol=at, what="lower interval " + suf)


def run_case(c):
    k = c.idx % 15
    if c.idx % 150 == 7:
        ensemble(c)
    elif k < 10:
        spectrum(c)
    elif k < 12:
        pipeline(c)
    else:
        moment(c)


def spectrum(c):
    r = c.rng
    f = np.asarray(gen.freqs(r, n=int(r.integers(10, 120)) if r.random() > .03 else int(r.integers(400, 2000))), float)
    n = len(f)
    t = dict(p=float(r.uniform(0, .8)), psi=float(r.uniform(0, 180)), phi=float(r.normal() * 10 ** r.uniform(0, 3)))
    sc = 10 ** r.uniform(-4, 0)
    dq = sc * r.uniform(.2, 3, n)
    du = dq * r.uniform(.3, 3, n) if r.random() < .5 else dq.copy()
    kind = str(r.choice(["noise", "scatter", "outlier", "second", "none"]))
    rq, ru = r.normal(size=n), r.normal(size=n)
    s = 0.0
    if kind == "scatter":
        s = float(r.uniform(1, 8))
        rq, ru = rq * np.hypot(1, s), ru * np.hypot(1, s)
    elif kind == "outlier":
        rq[int(r.integers(n))] += r.choice([-1, 1]) * r.uniform(5, 50)
    elif kind == "second":
        x = r.uniform(1, 10) * np.exp(2j * r.normal() * 30 * gen.lam2(f))
        rq, ru = rq + x.real, ru + x.imag
    elif kind == "none":
        rq, ru = rq * .05, ru * .05
    P = thin(f, t)
    q, u = P.real + rq * dq, P.imag + ru * du
    fl = r.random() < .4
    which = ""
    if fl:
        z = r.random(n) < .3
        z[:6] = False
        which = str(r.choice(["both", "q", "u", "dq", "all", "errors"]))
        for nm, arr in (("q", q), ("u", u), ("dq", dq), ("du", du)):
            if which == "all" or (which == "both" and nm in "qu") or which == nm or (which == "errors" and nm[0] == "d"):
                arr[z] = np.nan
        fl = bool(z.any())
    c.label = "spectrum-" + kind
    c.context = dict(n=n, source=t, kind=kind, flags=which, noise=sc)
    snap = c.snapshot(f=f, q=q, u=u, dq=dq, du=du)
    m, pd = measure(f, q, u, dq, du, t)
    c.unchanged(snap)
    c.event("measures")
    c.event("flagged", fl)
    c.event("one_sided_flags", fl and which in ("q", "u", "dq"))
    R = ((q - P.real) / dq, (u - P.imag) / du)
    # the residual is a difference: its rounding, in units of the noise
    eps = 1e-13 * (1 + abs(t["phi"]) * gen.lam2(f).max()) / sc * 10 + 1e-7
    compare(c, m, *R, "extra-scatter", slack=max(1e-6, eps))
    if kind in ("noise",):
        # nothing but the stated noise
        for suf, y in (("Q", R[0]), ("U", R[1]), ("C", np.concatenate(R))):
            g = np.isfinite(y)
            c.event("null_cases")
            lim = 6 * np.sqrt(2.0 / g.sum())
            c.check(m["sigmaAdd" + suf] ** 2 < max(lim, np.mean(y[g] ** 2) - 1 + lim), "null", lambda: "%s: %r with %d values of rms %r" % (suf, m["sigmaAdd" + suf], g.sum(), y[g].std()))
    if s:
        for suf, y in (("C", np.concatenate(R)),):
            N = np.isfinite(y).sum()
            c.event("injected")
            sd = (1 + s * s) * np.sqrt(2.0 / N) / (2 * s)
            c.check(abs(m["sigmaAdd" + suf] - s) < 6.5 * sd + .05 * s, "injected", lambda: "%r injected %r, expected error %r" % (m["sigmaAdd" + suf], s, sd))
            w = m["dSigmaAddPlus" + suf] + m["dSigmaAddMinus" + suf]
            c.check(.4 < w / (2 * sd) < 2.5, "interval-width", lambda: "%r, expected near %r" % (w, 2 * sd))
    KEYS = [a + b for b in "QUC" for a in ("sigmaAdd", "dSigmaAddPlus", "dSigmaAddMinus")]
    # channel order
    o = r.permutation(n)
    m2, _ = measure(f[o], q[o], u[o], dq[o], du[o], t)
    c.event("measures")
    c.event("reordered")
    for k in KEYS:
        c.close(m2[k], m[k], "channel-order", rtol=1e-6, atol=1e-9, what=k)
    # units
    S = float(10 ** r.uniform(-6, 6))
    m2, _ = measure(f, q * S, u * S, dq * S, du * S, dict(t, p=t["p"] * S))
    c.event("measures")
    c.event("rescaled")
    for k in KEYS:
        c.close(m2[k], m[k], "scaling", rtol=1e-5 + 10 * eps, atol=1e-9, what=k)
    # another source under the same residuals
    t2 = dict(p=float(r.uniform(0, .8)), psi=float(r.uniform(0, 180)), phi=float(r.normal() * 30))
    P2 = thin(f, t2)
    m2, _ = measure(f, q - P.real + P2.real, u - P.imag + P2.imag, dq, du, t2)
    c.event("measures")
    c.event("other_source")
    for k in KEYS:
        c.close(m2[k], m[k], "source-dependence", rtol=1e-5 + 20 * eps, atol=1e-8, what=k)
    # flagged channels carry nothing
    if fl:
        g = np.isfinite(q) & np.isfinite(u) & np.isfinite(dq) & np.isfinite(du)
        if which not in ("q", "u", "dq"):
            m2, _ = measure(f[g], q[g], u[g], dq[g], du[g], t)
            c.event("measures")
            c.event("flags_removed")
            for k in KEYS:
                c.close(m2[k], m[k], "flagged-channels", rtol=1e-6, atol=1e-9, what=k)
    else:
        # blank channels added
        k_ = int(r.integers(1, 20))
        nanz = np.full(k_, np.nan)
        fx = np.linspace(f.min(), f.max(), k_)
        m2, _ = measure(np.r_[f, fx], np.r_[q, nanz], np.r_[u, nanz], np.r_[dq, np.full(k_, sc)], np.r_[du, np.full(k_, sc)], t)
        c.event("measures")
        c.event("flags_removed")
        for k in KEYS:
            c.close(m2[k], m[k], "flagged-channels", rtol=1e-6, atol=1e-9, what=k)
    # curves handed to the figure
    for suf, y in (("Q", R[0]), ("U", R[1])):
        s_, cdf = posterior(y, np.ones(len(y)))
        pr = np.asarray(pd["probArr" + suf])
        if len(pr) == len(s_):
            c.close(pd["sigmaAddArr" + suf], s_, "curves", rtol=1e-5, atol=eps * 10, what="grid")
            c.close(np.cumsum(pr) / pr.sum(), cdf, "curves", rtol=0, atol=1e-4 + 100 * eps, what="cumulative posterior")
            c.close((pr * (s_[1] - s_[0])).sum(), 1.0, "curves", rtol=1e-4, what="area of the posterior")
    c.observed((c.seed, c.idx), c.context)


def ensemble(c):
    """frequencies of the reported intervals over many draws"""
    r = c.rng
    n, N = 40, 60
    f = np.linspace(8e8, 1.8e9, n)
    s = float(r.uniform(1.5, 5))
    t = dict(p=.4, psi=30.0, phi=50.0)
    P = thin(f, t)
    d = np.full(n, .01)
    hit, up = 0, 0
    for j in range(N):
        h = np.hypot(1, s) * .01
        m, _ = measure(f, P.real + h * r.normal(size=n), P.imag + h * r.normal(size=n), d, d, t)
        v, pl, mi = m["sigmaAddC"], m["dSigmaAddPlusC"], m["dSigmaAddMinusC"]
        hit += v - mi <= s <= v + pl
        up += v > s
    c.event("ensembles")
    c.event("measures", N)
    c.label = "ensemble"
    c.context = dict(scatter=s, draws=N, inside=int(hit), above=int(up))
    # binomial with p near 0.68 and 0.5; limits beyond five standard deviations
    c.check(N * .68 - 5 * np.sqrt(N * .22) <= hit <= N * .68 + 5 * np.sqrt(N * .22), "coverage", lambda: "%d of %d intervals contain the injected scatter" % (hit, N))
    c.check(abs(up - N * .5) <= 5 * np.sqrt(N * .25), "coverage", lambda: "%d of %d above the injected scatter" % (up, N))
    c.observed((c.seed, c.idx), c.context)


def pipeline(c):
    """what the 1D tool reports is the measure of its own data minus its own thin source"""
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    from RMutils.util_misc import create_frac_spectra
    r = c.rng
    f = np.linspace(8e8, r.uniform(1.1e9, 2e9), int(r.integers(30, 90)))
    n = len(f)
    t = dict(p=float(r.uniform(.05, .6)), psi=float(r.uniform(0, 180)), phi=float(r.uniform(-150, 150)))
    snr = r.uniform(20, 200)
    s = t["p"] / snr * np.sqrt(n) / 3
    dq = s * r.uniform(.6, 1.5, n)
    du = dq * r.uniform(.7, 1.4)
    k = r.choice([1.0, 3.0]) if r.random() < .5 else 1.0
    P = thin(f, t)
    q, u = P.real + k * dq * r.normal(size=n), P.imag + k * du * r.normal(size=n)
    cols = [f, q, u, dq, du]
    withI = r.random() < .4
    if withI:
        I = 3 * (f / 1e9) ** -.7
        cols = [f, I, q * I, u * I, I * 1e-4, dq * I, du * I]
    fl = r.random() < .5
    if fl:
        z = r.random(n) < .15
        w = str(r.choice(["both", "q", "u"]))
        for j in ((-4, -3) if w == "both" else (-4,) if w == "q" else (-3,)):
            cols[j if not withI else {-4: 2, -3: 3}[j]][z] = np.nan
    c.label = "pipeline"
    c.context = dict(n=n, source=t, I=withI, flags=fl)
    with contextlib.redirect_stdout(io.StringIO()):
        m, a = run_rmsynth([x.copy() for x in cols], polyOrd=1, phiMax_radm2=600.0, verbose=False)
        if withI:
            x = cols
        else:
            x = [f, np.ones(n), cols[1], cols[2], np.zeros(n), dq, du]
        _, qq, uu, dqq, duu, fit = create_frac_spectra(freqArr=f, IArr=x[1], QArr=x[2], UArr=x[3], dIArr=x[4], dQArr=x[5], dUArr=x[6], polyOrd=1)
    if m.get("phiPeakPIfit_rm2") is None or not np.isfinite(m["phiPeakPIfit_rm2"]):
        return
    T = dict(p=m["fracPol"], psi=m["polAngle0Fit_deg"], phi=m["phiPeakPIfit_rm2"])
    M = thin(f, T)
    c.event("pipeline")
    c.event("measures")
    compare(c, m, (qq - M.real) / dqq, (uu - M.imag) / duu, "reported-scatter", slack=1e-4)
    c.observed((c.seed, c.idx), c.context)


def moment(c):
    from RMutils.util_RM import measure_fdf_complexity
    from RMutils.util_misc import calc_mom2_FDF
    r = c.rng
    n = int(r.integers(3, 400))
    ph = np.sort(r.uniform(-1000, 1000, n)) if r.random() < .3 else np.linspace(-1, 1, n) * r.uniform(10, 3000) + r.normal() * 100
    k = int(r.integers(1, min(n, 8) + 1)) if r.random() < .7 else n
    cc = np.zeros(n, complex)
    at = r.choice(n, k, replace=False)
    cc[at] = 10 ** r.uniform(-6, 2) * (r.normal(size=k) + 1j * r.normal(size=k))
    if r.random() < .3:
        cc = cc.astype("complex64")
    w = np.abs(cc).astype(float)
    mu = (w * ph).sum() / w.sum()
    want = np.sqrt((w * (ph - mu) ** 2).sum() / w.sum())
    e = 1e-6 if cc.dtype == "complex64" else 1e-10
    tol = e * np.abs(ph).max() if k > 1 else 3e-3 * np.sqrt(e) * np.abs(ph).max() + np.sqrt(e) * np.abs(ph).max()
    c.label = "moment"
    c.context = dict(n=n, components=k, dtype=str(cc.dtype))
    snap = c.snapshot(cc=cc, ph=ph)
    got = measure_fdf_complexity(phiArr=ph, FDF=cc)
    c.unchanged(snap)
    c.event("moments")
    c.close(got, want, "second-moment", rtol=1e-5, atol=tol, what="second moment of %d components" % k)
    c.close(calc_mom2_FDF(cc, ph), want, "second-moment", rtol=1e-5, atol=tol, what="second moment")
    if k == 1:
        c.check(got <= tol, "second-moment", lambda: "single component: %r" % got)
    d = float(r.normal() * 500)
    c.close(measure_fdf_complexity(phiArr=ph + d, FDF=cc), want, "moment-shift", rtol=1e-5, atol=tol + 2 * e * abs(d) + (np.sqrt(e) * abs(d) if k == 1 else 0), what="after shifting the depths")
    c.close(measure_fdf_complexity(phiArr=ph * 3.0, FDF=cc * np.complex64(7j)), 3 * want, "moment-scale", rtol=1e-5, atol=3 * tol, what="after scaling")
    o = r.permutation(n)
    c.close(measure_fdf_complexity(phiArr=ph[o], FDF=cc[o]), want, "moment-order", rtol=1e-5, atol=tol, what="after reordering")
    c.observed((c.seed, c.idx), c.context)
