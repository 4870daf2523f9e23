"""R06: Stokes I fits and fractional spectra against an independent least-squares oracle."""
import contextlib
import numpy as np
from scipy.optimize import least_squares
from rvm import gen

CASES = {"quick": 8000, "thorough": 150000}
RULE = ("random spectra (power laws with curvature, polynomials, flat; noiseless or noisy) x errors (uniform, varying, zero) x flags x order "
        "-5..5 x form x precision; distinct by draw; non-trivial when a fit was made or refused")
MIN_EVENTS = {"fits": 900, "linear_optimum": 300, "log_optimum": 250, "exact_recoveries": 150, "dynamic_orders": 150, "flag_isolation": 200,
              "fractional_spectra": 900, "fallbacks": 40, "supplied_models": 80, "negative_models": 15, "faint_models": 60, "covariances": 400, "fitter_failures": 100}
SOFT_EVENTS = {"fitter_failures"}
ASSUMPTIONS = ["log-polynomial optima are judged where a reference minimiser started from the returned parameters, and from the generating "
               "ones, converges; the fit may exceed the best known chi-squared by 1e-3 of itself plus 1e-2"]


def poly(p, x):
    return sum(c * x ** k for k, c in zip(range(5, -1, -1), p))


def logpoly(p, x):
    L = np.log10(x)
    return p[5] * 10 ** (p[0] * L ** 5 + p[1] * L ** 4 + p[2] * L ** 3 + p[3] * L ** 2 + p[4] * L)


def model(fn, p, x):
    return poly(p, x) if fn == "linear" else logpoly(p, x)


def jac(fn, p, x):
    p = np.array(p, float)
    if fn == "linear":
        return np.array([x ** k for k in range(5, -1, -1)]).T
    L = np.log10(x)
    m = logpoly(p, x)
    cols = [m * np.log(10) * L ** k for k in range(5, 0, -1)] + [m / p[5]]
    return np.array(cols).T


def make(r):
    n = int(r.integers(12, 90)) if r.random() > .02 else int(r.integers(500, 3000))
    f = gen.freqs(r, n, str(r.choice(["uniform", "gap", "irregular", "low", "wide"])))
    if r.random() < .25:
        f = f[::-1].copy()
    fn = str(r.choice(["linear", "log"]))
    ref = 1 / np.sqrt(np.mean(1 / f ** 2))
    x = f / ref
    amp = 10 ** r.uniform(-4, 2)
    shape = str(r.choice(["own", "own", "power", "flat"]))
    k = int(r.integers(0, 4))
    true = np.zeros(6)
    if shape == "own":
        if fn == "linear":
            true[5] = amp
            for j in range(1, k + 1):
                true[5 - j] = amp * r.normal() * .4
        else:
            true[5] = amp
            for j in range(1, k + 1):
                true[5 - j] = r.normal() * (.8 if j == 1 else 1.0)
        I = model(fn, true, x)
    elif shape == "power":
        I = amp * x ** r.uniform(-2, 1)
        k = -1
    else:
        I = np.full(n, amp)
        true[5] = amp
        k = 0
    noise = str(r.choice(["none", "some", "some", "much"]))
    s = np.full(n, amp * (0.02 if noise != "much" else 0.5)) * (r.uniform(.4, 2.5, n) if r.random() < .6 else 1)
    if noise in ("some", "much"):
        I = I + s * r.normal(size=n)
    return f, fn, I, s, true, k, noise, amp, shape


def run_case(c):
    [fit, fit, fit, fractional, impossible][c.idx % 5](c)


def chi2(fn, p, x, y, s):
    return float(np.sum(((model(fn, p, x) - y) / s) ** 2))


def fit(c):
    from RMutils.util_misc import fit_StokesI_model, calculate_StokesI_model
    r = c.rng
    f, fn, I, s, true, k, noise, amp, shape = make(r)
    n = len(f)
    order = int(r.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, -5]))
    bad = np.zeros(n, bool)
    if r.random() < .5:
        bad = r.random(n) < .2
        if (~bad).sum() < 9:
            bad[:] = False
    y, e = I.copy(), s.copy()
    y[bad] = np.nan
    if bad.any() and r.random() < .4:
        y[bad] = I[bad]
        e[bad] = np.nan
    if r.random() < .08:
        e[np.isfinite(e)] = 0.0
    zero_err = not np.nansum(e) > 0
    c.label = "%s-%s" % (fn, "dynamic" if order < 0 else "fixed")
    c.context = dict(kind="fit", fn=fn, order=order, n=n, bad=int(bad.sum()), noise=noise, shape=shape, true=true, amp=amp, zero_err=zero_err)
    snap = c.snapshot(f=f, y=y, e=e)
    R = fit_StokesI_model(f, y, e, order, fn)
    c.unchanged(snap)
    c.event("fits")
    good = ~bad
    x = f[good] / R.reference_frequency_Hz
    yy = I[good]
    ss = np.ones(good.sum()) if zero_err else s[good]
    if not c.check(f.min() * .999 <= R.reference_frequency_Hz <= f.max() * 1.001, "reference-frequency", repr(R.reference_frequency_Hz)):
        return
    c.close(R.reference_frequency_Hz, 1 / np.sqrt(np.mean(1 / f[good] ** 2)), "reference-frequency", rtol=1e-9)
    p = np.array(R.params, float)
    if not c.check(p.shape == (6,) and np.isfinite(p).all(), "params", repr(p)):
        return
    po = R.polyOrd
    c.check(0 <= po <= abs(order) and (order < 0 or po == order), "order", "%r for %r" % (po, order))
    c.check(np.all(p[:5 - po] == 0), "higher-orders", lambda: "order %d but %r" % (po, p))
    got = chi2(fn, p, x, yy, ss)
    c.close(R.chiSq, got, "chi-squared", rtol=1e-6, atol=1e-9, what="reported chi-squared")
    c.close(R.AIC, 2 * (po + 1) + got, "aic", rtol=1e-6, atol=1e-8, what="AIC")
    c.check(R.dof == good.sum() - po - 1, "dof", lambda: "dof %r, %d usable channels, order %d" % (R.dof, good.sum(), po))
    if good.sum() - po - 1 > 0:
        c.close(R.chiSqRed, got / (good.sum() - po - 1), "chi-squared-red", rtol=1e-6, atol=1e-9, what="reduced chi-squared")
    c.check(R.fit_function == fn, "fit-function", repr(R.fit_function))
    # optimum
    best, conv = optimum(fn, p, x, yy, ss, po, true if k >= 0 and po >= k else None, f, R.reference_frequency_Hz)
    lim = best * (1 + 1e-3) + 1e-2 + (1e-4 * np.sum((yy / ss) ** 2) * 1e-6)
    sv = np.linalg.svd(jac(fn, p, x)[:, 5 - po:] / ss[:, None], compute_uv=False)
    if not sv[-1] / sv[0] > 2e-7:
        c.event("ill_conditioned")
        lim = best * 1.4 + 3 + lim - best
    if conv:
        c.event("%s_optimum" % fn)
        c.check(got <= lim, "not-optimal", lambda: "chi-squared %.8g, best known %.8g (order %d)" % (got, best, po))
    # covariance
    if conv and noise != "none" and shape != "flat" and got <= best * (1 + 1e-4) + 1e-4 and R.pcov is not None:
        J = jac(fn, p, x)[:, 5 - po:] / ss[:, None]
        U, S, V = np.linalg.svd(J, full_matrices=False)
        # (numerical derivatives lose their digits next to a parameter of zero)
        act = np.abs(p[5 - po:]) * np.abs(J * ss[:, None]).max(0)
        if S[-1] / S[0] > (1e-5 if fn == "linear" else 1e-3) and act.min() > 1e-3 * np.abs(model(fn, p, x)).max():
            cov = np.linalg.inv(J.T @ J)
            c.event("covariances")
            c.close(np.array(R.perror)[5 - po:], np.sqrt(np.diag(cov)), "parameter-errors", rtol=0.05 if fn == "log" else .01, what="errors")
            full = np.zeros((6, 6))
            full[5 - po:, 5 - po:] = cov
            sg = np.sqrt(np.diag(full))
            c.close(np.array(R.pcov), full, "covariance", rtol=0.05, atol=0.05 * np.outer(sg, sg) + 1e-300, what="covariance")
    if noise == "none" and k >= 0 and abs(order) >= k and shape != "power":
        # exact recovery in the fit's own reference frequency
        m = calculate_StokesI_model(R, f)
        want = model(fn, true, f / (1 / np.sqrt(np.mean(1 / f ** 2))))
        if order >= 0 or order < 0 and po >= k:
            c.event("exact_recoveries")
            c.close(m[good], want[good], "exact-recovery", rtol=2e-3, atol=2e-3 * amp, what="model of a spectrum of exactly that form")
    m = calculate_StokesI_model(R, f)
    c.close(m, model(fn, p, f / R.reference_frequency_Hz), "model-values", rtol=1e-9, atol=1e-12 * amp, what="model evaluated")
    if order < 0:
        c.event("dynamic_orders")
        # the order rule, from fixed-order fits
        aics = [fit_StokesI_model(f, y, e, o, fn).AIC for o in range(0, min(abs(order), po + 1) + 1)]
        for o in range(1, po + 1):
            c.check(aics[o] < aics[o - 1], "order-rule", lambda: "order %d chosen but AIC %r" % (po, aics))
        if po < abs(order):
            c.check(not aics[po + 1] < aics[po], "order-rule", lambda: "stopped at %d but AIC %r" % (po, aics))
        c.close(R.AIC, aics[po], "order-rule", rtol=1e-9)
    if bad.any():
        c.event("flag_isolation")
        Z = fit_StokesI_model(f[good], I[good], (np.zeros(good.sum()) if zero_err else s[good]), order, fn)
        c.close(Z.params, p, "flagged-influence", rtol=1e-6, atol=1e-9 * amp, what="parameters with flagged channels deleted")
        c.check(Z.dof == R.dof, "flagged-influence", "dof %r %r" % (Z.dof, R.dof))
        y2 = y.copy()
        y2[bad & np.isfinite(y2)] = 1e6 * amp
        Y = fit_StokesI_model(f, y2, e, order, fn)
        c.close(Y.params, p, "flagged-influence", rtol=1e-9, what="parameters with other values in flagged channels")
    c.observed((c.seed, c.idx), dict(c.context, chi2=got))


def optimum(fn, p, x, y, s, po, true, f, ref):
    free = slice(5 - po, 6)
    if fn == "linear":
        A = np.array([x ** j for j in range(po, -1, -1)]).T / s[:, None]
        q, res, rank, sv = np.linalg.lstsq(A, y / s, rcond=None)
        if sv[-1] / sv[0] < 1e-9:
            return 0, False
        return float(np.sum((A @ q - y / s) ** 2)), True
    best = np.inf
    starts = [p[free]]
    if true is not None:
        # the generating parameters refer to another reference frequency; a cheap start is enough
        starts.append(true[free])
    pos = y > 0
    if pos.sum() > po + 2:
        L = np.log10(x[pos])
        q = np.polyfit(L, np.log10(y[pos]), po)
        z = q.copy()
        z[-1] = 10 ** q[-1]
        starts.append(z)
    for z in starts:
        def fun(q):
            P = np.zeros(6)
            P[free] = q
            with np.errstate(all="ignore"):
                return np.clip(np.nan_to_num((logpoly(P, x) - y) / s, nan=1e8, posinf=1e8, neginf=-1e8), -1e8, 1e8)
        try:
            t = least_squares(fun, z, method="lm" if len(x) >= po + 1 else "trf", xtol=1e-12, ftol=1e-12, max_nfev=2000)
            if 2 * t.cost < best:
                best = 2 * t.cost
        except Exception:
            pass
    return best, np.isfinite(best) and np.median(y / s) > 3


def fractional(c):
    from RMutils.util_misc import create_frac_spectra
    r = c.rng
    f, fn, I, s, true, k, noise, amp, shape = make(r)
    n = len(f)
    dt = str(r.choice(["float32", "float64"]))
    if r.random() < .15:
        I = I - amp * r.uniform(.9, 1.3)                       # negative parts
    Q, U = amp * r.normal(size=(2, n))
    dQ, dU = s * r.uniform(.5, 2, n), s * r.uniform(.5, 2, n)
    arr = [a.astype(dt) for a in (f, I, Q, U, s, dQ, dU)]
    for j in range(1, 7):
        if r.random() < .3:
            arr[j][r.random(n) < .1] = np.nan
    mod = None
    if r.random() < .35:
        mod = (amp * (f / f[0]) ** -.7).astype(dt)
        if r.random() < .5:
            mod[int(r.integers(n))] = 0
        if r.random() < .5:
            mod[int(r.integers(n))] = np.nan
    order = int(r.choice([0, 1, 2, 3, -3]))
    c.label = "fractional-" + ("given" if mod is not None else fn)
    c.context = dict(kind="fractional", fn=fn, order=order, n=n, dtype=dt, noise=noise, amp=amp, given=mod is not None)
    names = ["f", "I", "Q", "U", "dI", "dQ", "dU"]
    snap = c.snapshot(**dict(zip(names, arr)), mod=mod)
    kw = {} if mod is None else dict(modStokesI=mod)
    IM, q, u, dq, du, R = create_frac_spectra(*arr, polyOrd=order, fit_function=fn, **kw)
    c.unchanged(snap)
    c.event("fractional_spectra")
    m = np.asarray(IM, "float64")
    F = [a.astype("float64") for a in arr]
    if not c.check(m.shape == (n,), "model-shape", str(m.shape)):
        return
    rt = 4e-6 if dt == "float32" else 1e-11
    if mod is not None:
        c.event("supplied_models")
        c.same(IM, mod, "supplied-model", "model used")
        c.check(R.fitStatus == 0, "supplied-status", lambda: "status %r although nothing was fitted" % (R.fitStatus,))
    elif R.fitStatus != 9:
        with np.errstate(all="ignore"):
            pp = np.array(R.params, float)
            size = np.abs(pp).sum() if fn == "linear" else np.max(np.abs(model(fn, pp, F[0] / R.reference_frequency_Hz))) * (1 + np.abs(pp[:5]).sum())
            c.close(m, model(fn, pp, F[0] / R.reference_frequency_Hz), "model-values", rtol=1e-6 if dt == "float32" else 1e-9, atol=size * (5e-6 if dt == "float32" else 1e-11) * np.max(np.maximum(1, F[0] / R.reference_frequency_Hz)) ** 4, what="model from its coefficients")
        base = R.fitStatus % 64
        neg, faint = bool((m < 0).any()), bool((m < F[4]).any())
        mn, df = np.nanmin(m), m - F[4]
        if abs(mn) > 1e-5 * amp and np.nanmin(np.abs(df)) > 1e-5 * amp:
            c.event("negative_models", neg)
            c.event("faint_models", faint)
            c.check(R.fitStatus == base + 128 * neg + 64 * faint, "status-flags", lambda: "status %r, negative %s, faint %s" % (R.fitStatus, neg, faint))
    for got, num, nm in ((q, F[2], "q"), (u, F[3], "u"), (dq, F[5], "dq"), (du, F[6], "du")):
        with np.errstate(all="ignore"):
            want = num / m
        want = np.where(np.isfinite(want), want, np.nan)
        if np.nanmax(np.abs(want), initial=0) > 1e30:
            continue
        c.close(np.asarray(got, "float64"), want, "fraction-" + nm, rtol=rt * 10, what=nm)
    c.observed((c.seed, c.idx), c.context)


@contextlib.contextmanager
def broken_fitter(r, on):
    """the minimiser fails part way, as it does on a numerical accident"""
    from RMutils import mpfit as M
    if not on:
        yield
        return
    old = M.mpfit.__init__
    err = [ValueError("injected"), np.linalg.LinAlgError("injected"), FloatingPointError("injected"), ZeroDivisionError("injected")][int(r.integers(4))]

    def bad(self, *a, **k):
        if r.random() < .5:
            old(self, *a, **k)
        raise err
    M.mpfit.__init__ = bad
    try:
        yield
    finally:
        M.mpfit.__init__ = old


def impossible(c):
    from RMutils.util_misc import create_frac_spectra
    r = c.rng
    n = int(r.integers(3, 20))
    f = gen.freqs(r, n)
    kind = str(r.choice(["all-nan", "too-few", "all-inf-errors", "nan-errors", "crash", "crash"]))
    I, Q, U = r.normal(size=(3, n)) + 3
    s = np.full(n, .1)
    order = int(r.choice([2, 3, 5, -3]))
    if kind == "all-nan":
        I[:] = np.nan
    elif kind == "too-few":
        order = abs(order)
        keep = r.permutation(n)[:order]
        m = np.ones(n, bool)
        m[keep] = False
        I[m] = np.nan
    elif kind == "all-inf-errors":
        s[:] = np.inf
    else:
        s[:] = np.nan
    fn = str(r.choice(["linear", "log"]))
    c.label = "impossible-" + kind
    c.context = dict(kind=kind, order=order, fn=fn, n=n)
    dQ = np.full(n, .2)
    dt = str(r.choice(["float32", "float64"])) if kind == "crash" else "float64"
    arr = [a.astype(dt) for a in (f, I, Q, U, s, dQ, dQ)]
    f, I, Q, U, s, dQ, _ = [a.astype("float64") for a in arr]
    with broken_fitter(r, kind == "crash"):
        IM, q, u, dq, du, R = create_frac_spectra(*arr, polyOrd=order, fit_function=fn, debug=kind == "crash" and bool(r.random() < .5))
    rt = 1e-6 if dt == "float32" else 1e-12
    c.event("fallbacks")
    if kind == "crash":
        c.event("fitter_failures", int(R.fitStatus == 9))
        c.check(R.fitStatus == 9, "crash-status", lambda: "the fitter failed but the status is %r" % (R.fitStatus,))
    c.check(R.fitStatus % 64 in (0, 9), "fallback-status", lambda: "an impossible fit reports status %r" % (R.fitStatus,))
    m = np.asarray(IM, float)
    c.check(m.shape == (n,), "fallback-shape", str(m.shape))
    if R.fitStatus == 9:
        c.same(m, np.ones(n), "fallback-model", "model")
        # the reported coefficients describe the model that was used
        from RMutils.util_misc import calculate_StokesI_model
        c.close(np.asarray(calculate_StokesI_model(R, f), float), np.ones(n), "fallback-coefficients", rtol=1e-12, what="model from the reported coefficients")
    with np.errstate(all="ignore"):
        c.close(np.asarray(q, float), Q / m, "fallback-q", rtol=rt, what="q")
        c.close(np.asarray(du, float), dQ / m, "fallback-du", rtol=rt, what="du")
    c.observed((c.seed, c.idx), c.context)
