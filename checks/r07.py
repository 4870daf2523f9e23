"""R07: moving the reference frequency of a Stokes I model."""
import numpy as np
from math import comb
from rvm import gen
from checks.r06 import make, model

CASES = {"quick": 6000, "thorough": 120000}
RULE = ("models from real fits and drawn coefficient/covariance sets x both forms x target frequencies 0.3 to 3 times the old; "
        "distinct by draw")
MIN_EVENTS = {"fitted_models": 800, "drawn_models": 1500, "error_propagations": 2500, "round_trips": 3000, "log_order5": 300}
ASSUMPTIONS = ["the covariance returned with a rescaled model is the original fit's: only parameter errors are claimed to be propagated"]


def transform(fn, p, x):
    """new coefficients and the Jacobian d(new)/d(old), derived by binomial expansion"""
    J = np.zeros((6, 6))
    if fn == "linear":
        new = np.array([c * x ** k for k, c in zip(range(5, -1, -1), p)])
        return new, np.diag([x ** k for k in range(5, -1, -1)])
    l = np.log10(x)
    # exponent polynomial e(L) = sum_k c_k L^k, k=1..5; L = L' + l
    new = np.zeros(6)
    for k in range(5, 0, -1):
        for j in range(k, 6):
            t = comb(j, k) * l ** (j - k)
            J[5 - k, 5 - j] = t
            new[5 - k] += t * p[5 - j]
    e = sum(p[5 - j] * l ** j for j in range(1, 6))
    new[5] = p[5] * 10 ** e
    for j in range(1, 6):
        J[5, 5 - j] = new[5] * np.log(10) * l ** j
    J[5, 5] = 10 ** e
    return new, J


def run_case(c):
    from RMutils.util_misc import FitResult, fit_StokesI_model, renormalize_StokesI_model, calculate_StokesI_model
    r = c.rng
    fitted = r.random() < .35
    fn = str(r.choice(["linear", "log"]))
    if fitted:
        f, fn, I, s, true, k, noise, amp, shape = make(r)
        order = int(r.integers(0, 6))
        R = fit_StokesI_model(f, I, s, order, fn)
        if R.pcov is None or not np.isfinite(np.array(R.params)).all() or R.fitStatus == 0:
            return
        if fn == "log" and not (I > 0).mean() > .9:
            return
        c.event("fitted_models")
    else:
        f = gen.freqs(r)
        order = int(r.integers(0, 6))
        p = np.zeros(6)
        p[5] = 10 ** r.uniform(-4, 2)
        p[5 - order:5] = r.normal(size=order) * (1 if fn == "log" else p[5])
        A = np.zeros((6, 6))
        k = order + 1
        A[6 - k:, :] = r.normal(size=(k, 6)) * .1
        A[5] *= p[5]
        cov = A @ A.T
        R = FitResult(params=p, fitStatus=1, chiSq=3.0, chiSqRed=1.5, AIC=7.0, polyOrd=order, nIter=4,
                      reference_frequency_Hz=float(f.mean() * r.uniform(.8, 1.2)), dof=2, pcov=cov, perror=np.sqrt(np.diag(cov)), fit_function=fn)
        c.event("drawn_models")
    x = float(r.choice([1.0, r.uniform(.9, 1.1), r.uniform(.3, 3)], p=[.05, .5, .45]))
    new_ref = R.reference_frequency_Hz * x
    size = np.abs(np.array(R.params)[:5]).sum() if fn == "log" else 0
    want, J = transform(fn, np.array(R.params, float), x)
    if size > 1e4 or not np.isfinite(want).all() or not np.isfinite(J).all() or (fn == "log" and not 1e-200 < abs(want[5]) < 1e200):
        c.event("astronomical_coefficients_skipped")
        return
    c.label = "%s-%s" % (fn, "fit" if fitted else "drawn")
    c.context = dict(fn=fn, order=order, x=x, fitted=fitted, params=np.array(R.params))
    if fn == "log" and order == 5:
        c.event("log_order5")
    snap = c.snapshot(params=R.params, pcov=R.pcov, perror=R.perror)
    N = renormalize_StokesI_model(R, new_ref)
    c.unchanged(snap)
    c.check(R.reference_frequency_Hz != new_ref or x == 1.0, "input-modified", "the original reference frequency changed")
    c.close(N.reference_frequency_Hz, new_ref, "reference-frequency", rtol=1e-14)
    for q in ("polyOrd", "chiSq", "chiSqRed", "AIC", "dof", "fitStatus", "fit_function", "nIter"):
        a, b = getattr(N, q), getattr(R, q)
        c.check(a == b or (a != a and b != b), "statistics-" + q, lambda: "%r became %r" % (b, a))
    p0 = np.array(R.params, float)
    p1 = np.array(N.params, float)
    if not c.check(p1.shape == (6,), "params", str(p1.shape)):
        return
    l = abs(np.log10(x))
    c.close(p1, want, "coefficients", rtol=1e-9, atol=(1e-11 * size * 10 * (1 + l) ** 5 if fn == "log" else 0), what="rescaled coefficients")
    ff = np.linspace(f.min(), f.max(), 17)
    with np.errstate(all="ignore"):
        m0, m1 = calculate_StokesI_model(R, ff), calculate_StokesI_model(N, ff)
    tol = 1e-9 * (1 + size) if fn == "log" else 0
    lin = np.abs(p0).sum() * max(1, (f.max() / R.reference_frequency_Hz)) ** 5 if fn == "linear" else 0
    if np.isfinite(m0).all():
        c.close(m1, m0, "model-changed", rtol=1e-9 + tol, atol=1e-11 * lin, what="model values at the new reference frequency")
    cov = np.array(R.pcov, float)
    V = J @ cov @ J.T
    mag = np.abs(J) @ np.abs(cov) @ np.abs(J).T
    with np.errstate(all="ignore"):
        e = np.sqrt(np.diag(V))
    # propagated variance far above the rounding of its own terms
    ok = np.diag(V) > 1e-9 * np.diag(mag)
    g = np.array(N.perror, float)
    c.check(g.shape == (6,), "errors-shape", str(g.shape))
    c.event("error_propagations")
    c.close(np.where(ok, g, 0), np.where(ok, e, 0), "errors", rtol=1e-5, what="propagated parameter errors")
    B = renormalize_StokesI_model(N, R.reference_frequency_Hz)
    c.event("round_trips")
    c.close(np.array(B.params, float), p0, "round-trip", rtol=1e-8, atol=(1e-10 * size * 100 * (1 + l) ** 5 if fn == "log" else 0), what="coefficients after rescaling there and back")
    c.observed((c.seed, c.idx), c.context)
