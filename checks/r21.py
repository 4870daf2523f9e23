"""R21: QU fitting observed through the sampler interface: the likelihood handed to it, the statistics made of what it returns, and real fits."""
import io, json, os, contextlib
import numpy as np
from rvm import gen
from checks.r09 import run_main, write_table
from checks.r20 import want, MODELS, component

CASES = {"quick": 180, "thorough": 2500}
RULE = ("spectra (fractional or with Stokes I, flags in either parameter, unequal errors) x model (shipped, or the user's own with fixed parameters) x command line or "
        "library: a sampler registered with the sampling library records the likelihood over draws of the prior and returns a chosen posterior (angles near the "
        "wrap included); real nested-sampling fits of known sources; repeated runs after the data changed; distinct by draw")
MIN_EVENTS = {"stub_runs": 80, "likelihoods_compared": 2000, "summaries_compared": 220, "wrapped_angles": 30, "fixed_parameters": 8, "flagged": 35, "one_sided_flags": 12,
              "with_I": 15, "cli_runs": 10, "real_fits": 2, "files_compared": 80, "reruns": 5}
ASSUMPTIONS = ["q, u and their errors are those of create_frac_spectra, decided by R06", "models are decided by R20",
               "only the nestle sampler is compatible with the installed libraries; others enter through the same interface"]
CASE_LIMIT = {"quick": 400, "thorough": 500}

STATE = {}


def register():
    """a sampler for bilby's public run_sampler: records the likelihood and returns the posterior planned for the case"""
    from bilby.core import sampler as S
    from bilby.core.sampler.base_sampler import NestedSampler
    if "rvm" in S.IMPLEMENTED_SAMPLERS._samplers:
        return

    # listing the installed packages takes most of a run: once per process
    import functools
    if hasattr(S, "env_package_list"):
        S.env_package_list = functools.lru_cache(None)(S.env_package_list)

    class Stub(NestedSampler):
        sampler_name = "rvm"
        default_kwargs = dict(nlive=100)

        def _verify_external_sampler(self):
            pass

        def run_sampler(self):
            st = STATE
            st["called"] = st.get("called", 0) + 1
            keys = list(self.search_parameter_keys)
            st["keys"], st["fixed"] = keys, list(self.fixed_parameter_keys)
            st["priors"] = self.priors
            st["draws"] = []
            for t in st["draw_points"](keys, self.prior_transform):
                st["draws"].append((dict(zip(keys, t)), float(self.log_likelihood(np.array(t)))))
            smp = st["posterior"](keys)
            self.result.samples = smp.copy()
            st["samples"] = smp.copy()
            k = len(smp) if len(smp) < 40 else 40
            ll = np.array([self.log_likelihood(x) for x in smp[:k]])
            ll = np.concatenate([ll, np.full(len(smp) - k, ll.min() - 1)])
            self.result.log_likelihood_evaluations = ll
            st["ll"] = ll
            self.result.log_evidence, self.result.log_evidence_err = st["lnz"], st["dlnz"]
            self.result.sampling_time = 1.0
            self.result.num_likelihood_evaluations = 10
            if st.get("noplot", True):
                import matplotlib.pyplot as plt
                self.result.plot_corner = lambda *a, **kw: plt.figure()
            st["result"] = self.result
            return self.result

    class Entry:
        @staticmethod
        def load():
            return Stub

    S.IMPLEMENTED_SAMPLERS._samplers["rvm"] = Entry


def quiet_plots(K):
    if hasattr(K, "plot_Ipqu_spectra_fig"):
        K.plot_Ipqu_spectra_fig = lambda *a, **k: None


LOCAL = '''import bilby
import numpy as np
def model(pDict, lamSqArr_m2):
    return pDict["fracPol"] * np.exp(2j * (np.radians(pDict["psi0_deg"]) + pDict["RM_radm2"] * lamSqArr_m2)) * np.exp(-2.0 * pDict["sigmaRM_radm2"] ** 2 * lamSqArr_m2 ** 2)
U, D = bilby.prior.Uniform, bilby.prior.DeltaFunction
priors = {
%s}
'''


def write_local(d, num, fixed, rm=100.0):
    """the user's own model: external dispersion with some parameters fixed"""
    full = [("sigmaRM_radm2", 0.0, 20.0, None), ("fracPol", 0.0, 1.0, None), ("psi0_deg", 0.0, 180.0, "periodic"), ("RM_radm2", -rm, rm, None)]
    txt = ""
    for k, lo, hi, b in full:
        if k in fixed:
            txt += '    "%s": D(%r, name="%s", latex_label="x"),\n' % (k, fixed[k], k)
        else:
            txt += '    "%s": U(minimum=%r, maximum=%r, name="%s", latex_label="x"%s),\n' % (k, lo, hi, k, ', boundary="periodic"' if b else "")
    os.makedirs(os.path.join(d, "models_ns"), exist_ok=True)
    open(os.path.join(d, "models_ns", "m%d.py" % num), "w").write(LOCAL % txt)


def spectrum(r, m, single=False):
    f = np.asarray(gen.freqs(r), float)
    n = int(r.integers(12, 70))
    while len(f) < n:
        f = np.sort(np.unique(np.concatenate([f, r.uniform(f.min(), f.max() * 1.3 + 1e6, n)])))
    if len(f) > n:
        f = f[np.sort(r.choice(len(f), n, replace=False))]
    l2 = gen.lam2(f)
    return f, l2


def run_case(c):
    import warnings
    warnings.simplefilter("ignore")
    import bilby
    bilby.core.utils.logger.setLevel("ERROR")
    register()
    if c.idx % 20 == 3:
        return real_fit(c)
    if c.idx % 20 == 13:
        return rerun(c)
    stub(c)


def make(c, m, fixed):
    from rvm import gen
    r = c.rng
    f, l2 = spectrum(r, m)
    from checks.r20 import load
    q0 = {}
    return f, l2


def names_of(m):
    from RMtools_1D.do_QUfit_1D_mnest import load_model
    mod = load_model(m)
    return mod, [k for k, v in mod.priors.items() if v.__class__.__name__ != "Constraint"]


def planned(r, keys, truth, n):
    """a posterior cloud, and what it should be summarised as"""
    S = np.empty((n, len(keys)))
    for i, k in enumerate(keys):
        w = STATE["width"][k]
        S[:, i] = truth[k] + w * r.normal(size=n)
        if k.startswith("psi"):
            S[:, i] %= 180
        elif k.startswith("fracPol"):
            S[:, i] = np.abs(S[:, i])
    return S


def stub(c):
    from RMtools_1D import do_QUfit_1D_mnest as K
    from RMutils.util_misc import create_frac_spectra
    r = c.rng
    quiet_plots(K)
    d = c.tmpdir()
    own = r.random() < .2
    fixed = {}
    here = os.getcwd()
    if own:
        m = int(r.choice([61, 1, 905]))
        names = ["sigmaRM_radm2", "fracPol", "psi0_deg", "RM_radm2"]
        for k in names:
            if r.random() < .4 and len(fixed) < 3:
                fixed[k] = float({"sigmaRM_radm2": r.uniform(0, 20), "fracPol": r.uniform(.1, .9), "psi0_deg": r.uniform(0, 180), "RM_radm2": r.uniform(-90, 90)}[k])
        write_local(d, m, fixed)
        c.event("fixed_parameters", len(fixed) > 0)
        formula = lambda q, l2: component(l2, q["fracPol"], q["psi0_deg"], q["RM_radm2"], sig=q["sigmaRM_radm2"])
        bounds = {k: ([fixed[k]] * 2 if k in fixed else b) for k, b in zip(names, [[0.0, 20.0], [0.0, 1.0], [0.0, 180.0], [-100.0, 100.0]])}
    else:
        m = int(r.choice(MODELS))
        os.chdir(d)
        try:
            mod, names = names_of(m)
        finally:
            os.chdir(here)
        formula = lambda q, l2: want(m, q, l2)
        bounds = {k: [float(mod.priors[k].minimum), float(mod.priors[k].maximum)] for k in names}
    f, l2 = spectrum(r, m)
    truth = {k: float(r.uniform(b[0], b[1])) for k, b in bounds.items()}
    fr = [k for k in names if k.startswith("fracPol") and k not in fixed]
    for k in fr:
        truth[k] = float(r.uniform(.05, .9) / len(fr))
    width = {}
    for k, b in bounds.items():
        width[k] = float(10 ** r.uniform(-3, -1.6) * (b[1] - b[0]))
        if k.startswith("psi") and k not in fixed and r.random() < .5:
            truth[k] = float(r.choice([0.0, 180.0]) + r.normal() * width[k]) % 180       # near the wrap
    STATE.clear()
    STATE["width"] = width
    n = len(f)
    P = formula(truth, l2)
    snr = 10 ** r.uniform(.5, 2.5)
    sq = .3 / snr * r.uniform(.5, 2, n)
    su = sq * r.uniform(.3, 4, n)
    q, u = P.real + sq * r.normal(size=n), P.imag + su * r.normal(size=n)
    withI = r.random() < .3
    if withI:
        c.event("with_I")
        I = 10 ** r.uniform(-3, 1) * (f / f.mean()) ** r.uniform(-1, 1)
        dI = I * 1e-3
        data = [f, I * (1 + 1e-3 * r.normal(size=n)), q * I, u * I, dI, sq * I, su * I]
    else:
        data = [f, q, u, sq, su]
    fl = r.random()
    if fl < .5:
        c.event("flagged")
        z = r.random(n) < .2
        z[:4] = False
        cols = [2, 3] if withI else [1, 2]
        which = str(r.choice(["both", "q", "u", "err"]))
        if which != "both" and z.any():
            c.event("one_sided_flags")
        if which == "err":
            data[-1] = np.where(z, np.nan, data[-1])
        else:
            for j in cols if which == "both" else [cols[0] if which == "q" else cols[1]]:
                data[j] = np.where(z, np.nan, data[j])
    noI = False
    if withI and r.random() < .2:
        noI = True          # told to ignore Stokes I: Q and U are then taken as fractional
    cli = r.random() < .25
    ncloud = 301
    STATE["lnz"], STATE["dlnz"] = float(r.normal() * 500), float(r.uniform(.01, 1))
    seed = int(r.integers(2 ** 31))

    def points(keys, transform):
        rr = np.random.default_rng(seed)
        for j in range(40):
            if j % 2:
                yield [truth[k] + 3 * width[k] * rr.normal() for k in keys]
            else:
                yield [float(x) for x in transform(rr.uniform(size=len(keys)))]
    STATE["draw_points"] = points
    STATE["posterior"] = lambda keys: planned(np.random.default_rng(seed + 1), keys, truth, ncloud)
    order = int(r.choice([-2, 0, 1, 2]))
    fn = str(r.choice(["log", "linear"]))
    c.label = "stub-own" if own else "stub-m%d" % m
    c.context = dict(model=m, own=own, fixed=fixed, n=n, withI=withI, noI=noI, cli=cli, flags=fl < .5, truth=truth)
    pre = os.path.join(d, str(r.choice(["src", "a.b", "x_m1"])))
    used = [np.array(x) for x in data]
    snap = c.snapshot(data=data)
    rec = io.StringIO()
    if cli:
        p = pre + ".dat"
        used = [v.astype("float32") for v in write_table(r, p, data)]
        argv = ["qufit", p, "-m", str(m), "-o", str(order), "-f", fn, "--sampler", "rvm", "--nlive", "50"] + (["-i"] if noI else [])
        c.event("cli_runs")
        with contextlib.redirect_stdout(rec):
            run_main(K.main, argv, d)
    else:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(rec):
                K.run_qufit(data, m, polyOrd=order, noStokesI=noI, sampler="rvm", fit_function=fn, nlive=50, prefixOut=pre)
        finally:
            os.chdir(here)
        c.unchanged(snap)
    if not STATE.get("called"):
        c.inconclusive.append("the registered sampler was not used")
        return
    c.event("stub_runs")
    # the data the fit should use
    if len(used) == 7 and not noI:
        F, I_, Q_, U_, dI_, dQ_, dU_ = used
    elif len(used) == 7:
        F, _, Q_, U_, _, dQ_, dU_ = used
        I_, dI_ = np.ones_like(Q_), np.zeros_like(Q_)
    else:
        F, Q_, U_, dQ_, dU_ = used
        I_, dI_ = np.ones_like(Q_), np.zeros_like(Q_)
    with contextlib.redirect_stdout(io.StringIO()):
        _, qq, uu, dq, du, fit = create_frac_spectra(freqArr=F, IArr=I_, QArr=Q_, UArr=U_, dIArr=dI_, dQArr=dQ_, dUArr=dU_, polyOrd=order, fit_function=fn)
    lam = (299792458.0 / F.astype(float)) ** 2
    gq, gu = np.isfinite(qq) & np.isfinite(dq), np.isfinite(uu) & np.isfinite(du)
    eps = 3e-7 if cli else 1e-13

    def chi2(par):
        md = formula(dict(par, **fixed), lam)
        a, b = (qq - md.real)[gq] / dq[gq], (uu - md.imag)[gu] / du[gu]
        ph = 2 * lam * max([abs(v) for k, v in dict(par, **fixed).items() if "RM" in k] + [1]) + 6
        amp = sum(abs(v) for k, v in dict(par, **fixed).items() if k.startswith("fracPol")) * 3
        e = (2 * np.abs(a) * eps * (ph * amp)[gq] / dq[gq]).sum() + (2 * np.abs(b) * eps * (ph * amp)[gu] / du[gu]).sum()
        return float((a ** 2).sum() + (b ** 2).sum()), float(e)
    # outside the constraints of the priors the sampler sees no likelihood
    X = [(chi2(p), L) for p, L in STATE["draws"] if L > -1e300]
    STATE["draws"] = [x for x in STATE["draws"] if x[1] > -1e300]
    if not X:
        return
    off = np.array([L + x / 2 for (x, e), L in X])
    tol = np.array([e + (1e-10 if not cli else 2e-6) * (abs(x) + abs(L)) for (x, e), L in X]) + 1e-7
    c.event("likelihoods_compared", len(X))
    ref_ = off[np.argmin(tol)]
    bad = np.abs(off - ref_) > 3 * (tol + tol.min())
    c.check(not bad.any(), "likelihood", lambda: "log-likelihood + chi2/2 is not constant: %r at %r, %r at %r" % (
        ref_, STATE["draws"][int(np.argmin(tol))], off[bad][0], STATE["draws"][int(np.argmax(bad))]))
    # reported summary
    js, dat = "%s_m%d_rvm.json" % (pre, m), "%s_m%d_rvm.dat" % (pre, m)
    if not c.check(os.path.exists(js) and os.path.exists(dat), "result-files", lambda: "missing; present: %s" % os.listdir(d)):
        return
    D = json.load(open(js))
    c.event("files_compared")
    c.check(D["parNames"] == names, "parameter-names", lambda: "%s, model has %s" % (D["parNames"], names))
    keys, S = STATE["keys"], STATE["samples"]
    nfree = len(names) - len(fixed)
    nd = int(gq.sum() + gu.sum())
    best = {}
    for j, k in enumerate(D["parNames"]):
        v, pl, mi = D["values"][j], D["errPlus"][j], D["errMinus"][j]
        c.check(list(np.float64(D["bounds"][j])) == bounds[k], "bounds", lambda: "%s: %s, prior %s" % (k, D["bounds"][j], bounds[k]))
        if k in fixed:
            c.close(v, fixed[k], "fixed-parameter", rtol=1e-12, what=k)
            c.close([pl, mi], [0.0, 0.0], "fixed-parameter", atol=1e-9, what="error of " + k)
            best[k] = v
            continue
        s = S[:, keys.index(k)]
        c.event("summaries_compared")
        if k.startswith("psi"):
            cen = np.degrees(np.angle(np.exp(2j * np.radians(s)).mean())) / 2 % 180
            z = (s - cen + 90) % 180 - 90
            lo, me, hi = np.quantile(z, [.16, .5, .84])
            if ((s < 45).any() and (s >= 135).any()):
                c.event("wrapped_angles")
            c.close((v - (me + cen) + 90) % 180 - 90, 0.0, "angle", atol=1e-6, what=k)
            c.check(0 <= v <= 180, "angle-range", lambda: "%s = %r" % (k, v))
        else:
            lo, me, hi = np.quantile(s, [.16, .5, .84])
            c.close(v, me, "median", rtol=1e-9, atol=1e-12, what=k)
        c.close([pl, mi], [hi - me, me - lo], "uncertainties", rtol=1e-6, atol=1e-9, what=k)
        best[k] = v
    x2, e2 = chi2(best)
    c.close(D["chiSq"], x2, "chi-squared", rtol=1e-9 if not cli else 1e-4, atol=3 * e2 + 1e-9, what="chi squared of the reported values")
    c.close(D["dof"], nd - nfree - 1, "dof", rtol=0, what="degrees of freedom (%d values, %d free)" % (nd, nfree))
    c.close(D["chiSqRed"], D["chiSq"] / (nd - nfree - 1), "chi-squared", rtol=1e-9, what="reduced")
    L = STATE["ll"].max()
    c.check(D["nFree"] == nfree, "free-parameters", lambda: "%s, expected %d" % (D["nFree"], nfree))
    c.close(D["AIC"], 2 * nfree - 2 * L, "aic", rtol=1e-9, atol=1e-6, what="AIC")
    c.close(D["AICc"], 2 * nfree - 2 * L + 2 * nfree * (nfree + 1) / (nd - nfree - 1), "aicc", rtol=1e-9, atol=1e-6, what="AICc")
    c.close(D["BIC"], nfree * np.log(nd) - 2 * L, "bic", rtol=1e-9, atol=1e-6, what="BIC")
    kz = [k for k in D if k.strip() == "ln(EVIDENCE)"][0]
    c.close([D[kz], D["dLn(EVIDENCE)"]], [STATE["lnz"], STATE["dlnz"]], "evidence", rtol=1e-12, what="evidence")
    c.close(D["IfitPolyOrd"], fit.polyOrd, "I-model", rtol=0, what="order of the Stokes I fit")
    c.close([float(x) for x in D["Imodel"].split(",")], np.asarray(fit.params, "float32"), "I-model", rtol=1e-6, what="Stokes I coefficients")
    # the table of results says the same
    T = dict(line.rstrip("\n").split("=", 1) for line in open(dat))
    for k in D:
        if c.check(k in T, "dat-file", lambda: "%s missing" % k):
            w = D[k] if isinstance(D[k], str) else repr(D[k])
            try:
                same = T[k] == str(D[k]) or json.loads(T[k].replace("'", '"').replace("None", "null")) == D[k]
            except Exception:
                same = T[k] == str(D[k])
            c.check(same, "dat-file", lambda: "%s: %r against %r" % (k, T[k], D[k]))
    # samples other than angles come out of the post-processing as they went in
    res = STATE["result"].samples
    for j, k in enumerate(keys):
        dlt = res[:, j] - S[:, j]
        if k.startswith("psi"):
            dlt = (dlt + 90) % 180 - 90
        c.close(dlt, np.zeros(len(dlt)), "samples-changed", atol=1e-9, what=k)
    c.observed((c.seed, c.idx), c.context)


def real_fit(c):
    """nested sampling with the sampler available here, of sources the model can represent"""
    import bilby
    from RMtools_1D import do_QUfit_1D_mnest as K
    r = c.rng
    d = c.tmpdir()
    quiet_plots(K) if r.random() < .7 else None
    bilby.core.utils.random.seed(int(r.integers(2 ** 31)))
    np.random.seed(int(r.integers(2 ** 31)))
    f = np.linspace(8e8, 1.8e9, 40) * r.uniform(.8, 1.5)
    l2 = gen.lam2(f)
    kind = "shipped" if c.tier == "thorough" and c.idx % 100 == 3 else "own"
    m = 1 if kind == "shipped" else 77
    t = dict(fracPol=float(r.uniform(.1, .6)), psi0_deg=float(r.choice([r.uniform(0, 180), r.uniform(-2, 2) % 180])), RM_radm2=float(r.uniform(-50, 50)), sigmaRM_radm2=0.0)
    fixed = {}
    if kind == "own":
        if r.random() < .5:
            fixed = {"sigmaRM_radm2": 0.0}
        else:
            t["sigmaRM_radm2"] = float(r.uniform(4, 10))
        write_local(d, m, fixed, rm=60.0)
    P = component(l2, t["fracPol"], t["psi0_deg"], t["RM_radm2"], sig=t["sigmaRM_radm2"])
    s = .01 * r.uniform(.5, 2)
    k = r.uniform(1.5, 4)
    q, u = P.real + s * r.normal(size=40), P.imag + s * k * r.normal(size=40)
    if r.random() < .5:
        q[3:6] = u[3:6] = np.nan
    data = [f, q, u, np.full(40, s), np.full(40, s * k)]
    c.label = "real-" + kind
    c.context = dict(kind=kind, truth=t, fixed=fixed)
    here = os.getcwd()
    os.chdir(d)
    # a fit that has not converged after this many evaluations is left undecided
    import nestle
    cap = 25000 if kind == "own" else 300000
    calls, lost = [0], [False]
    inner = nestle.sample

    def bounded(loglikelihood, prior_transform, ndim, **kw):
        def ll(x):
            calls[0] += 1
            return loglikelihood(x)
        kw["maxcall"] = cap
        out = inner(ll, prior_transform, ndim, **kw)
        free = [x for x in ("sigmaRM_radm2", "fracPol", "psi0_deg", "RM_radm2") if x not in fixed and not (x == "sigmaRM_radm2" and kind != "own")]
        # a sampler that lost the maximum of the likelihood it was given says nothing about the code around it
        lost[0] = out.logl.max() < loglikelihood(np.array([t[x] for x in free])) - 5
        return out
    nestle.sample = bounded
    try:
        K.run_qufit(data, m, sampler="nestle", nlive=50 if kind == "own" else 40, noStokesI=True, prefixOut="./o")
        D = json.load(open("o_m%d_nestle.json" % m))
        out = os.listdir(".")
    except Exception:
        # corner plots of a handful of distinct samples fail inside the plotting library
        if calls[0] < cap and not lost[0]:
            raise
        D = None
    finally:
        nestle.sample = inner
        os.chdir(here)
    c.event("likelihood_evaluations_of_real_fits", calls[0])
    if calls[0] >= cap or lost[0]:
        c.event("real_fits_undecided")
        return
    c.event("real_fits")
    for j, kk in enumerate(D["parNames"]):
        if kk in fixed:
            c.close(D["values"][j], fixed[kk], "fixed-parameter", rtol=1e-12, what=kk)
            continue
        v, e = D["values"][j], max(D["errPlus"][j], D["errMinus"][j])
        dl = v - t[kk]
        if kk.startswith("psi"):
            dl = (dl + 90) % 180 - 90
            c.check(0 <= v <= 180 and e < 45, "recovery", lambda: "%s = %r +- %r" % (kk, v, e))
        floor = {"fracPol": .002, "psi0_deg": .3, "RM_radm2": .1, "sigmaRM_radm2": .5}[kk]
        c.check(abs(dl) <= 7 * e + floor, "recovery", lambda: "%s = %r +- %r, source has %r" % (kk, v, e, t[kk]))
    c.check(D["chiSqRed"] < 3, "recovery", lambda: "reduced chi squared %r" % D["chiSqRed"])
    for x in ("ofig_m%d_specfit.pdf" % m, "ofig_m%d_corner.pdf" % m):
        c.check(x in out, "figure-files", lambda: "%s missing of %s" % (x, out))
    c.observed((c.seed, c.idx), c.context)


def rerun(c):
    """the same output name again, with other data: the results are those of the data given"""
    from RMtools_1D import do_QUfit_1D_mnest as K
    r = c.rng
    quiet_plots(K)
    d = c.tmpdir()
    f, l2 = spectrum(r, 1)
    n = len(f)
    names = ["fracPol", "psi0_deg", "RM_radm2"]
    here = os.getcwd()
    c.label = "rerun"
    got, L = [], []
    base = gen.thin(l2, 20.0, .3, 40.0) + .01 * (r.normal(size=n) + 1j * r.normal(size=n))
    change = str(r.choice(["data", "errors", "flag", "frequencies"]))
    c.context = dict(change=change, n=n)
    for j in range(2):
        t = dict(fracPol=.3 + .1 * j, psi0_deg=60.0 + 20 * j, RM_radm2=20.0 - 60 * j)
        x = [f.copy(), base.real.copy(), base.imag.copy(), np.full(n, .01), np.full(n, .02)]
        if j:
            if change == "data":
                x[1] = x[1] + .05 * r.normal(size=n)
            elif change == "errors":
                x[4] = x[4] * 1.7
            elif change == "flag":
                x[1][2] = x[2][2] = np.nan
            else:
                x[0] = x[0] * 1.01
        STATE.clear()
        STATE.update(width={k: 1e-3 * abs(v) for k, v in t.items()}, lnz=float(j), dlnz=.1, draw_points=lambda keys, tr: [])
        STATE["posterior"] = lambda keys, t=t: planned(np.random.default_rng(5), keys, t, 101)
        os.chdir(d)
        try:
            K.run_qufit(x, 1, sampler="rvm", nlive=50, noStokesI=True, prefixOut="./o")
            D = json.load(open("o_m1_rvm.json"))
        finally:
            os.chdir(here)
        for k, v in zip(D["parNames"], D["values"]):
            c.close(v, t[k], "stale-result", rtol=2e-3, what="%s of run %d" % (k, j + 1))
    c.event("reruns")
    c.observed((c.seed, c.idx), c.context)
