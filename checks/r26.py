"""R26: the least-squares fitter against constrained and unconstrained solutions computed by other means."""
import io, contextlib, copy
import numpy as np
from scipy.optimize import lsq_linear

CASES = {"quick": 12000, "thorough": 400000}
RULE = ("random linear problems (1-6 parameters, up to 30 data) with any mix of free, fixed, bounded and tied parameters, started inside or on their bounds, and non-linear ones "
        "(Gaussian, power law, exponentials, trigonometric), with and without bounds; fitter settings, iteration limits, iteration callbacks, refusals and user stops; every "
        "evaluation of the user's function is recorded; distinct by problem")
MIN_EVENTS = {"linear": 3800, "constrained": 2200, "active_bounds": 1500, "tied": 2300, "fixed": 2300, "covariances": 3400, "nonlinear": 1400, "limited_iterations": 800,
              "refusals": 400, "user_stops": 100, "max_steps": 650, "broken_functions": 40, "short_floats": 50, "tight_tolerances": 20, "evaluations": 160000}
ASSUMPTIONS = ["tied expressions refer to untied parameters", "derivatives are evaluated numerically (the default); damping is not used"]
CASE_LIMIT = {"quick": 120, "thorough": 200}


class Problem:
    """residuals A p - b (or any fun) with a record of each evaluation"""

    def __init__(self, fun, stop_at=None):
        self.fun, self.calls, self.seen, self.stop_at, self.kw = fun, 0, [], stop_at, None

    def __call__(self, p, fjac=None, **kw):
        self.calls += 1
        self.kw = kw
        self.seen.append(np.array(p, float))
        return [(-7 if self.calls == self.stop_at else 0), self.fun(np.array(p, float))]


def run_case(c):
    k = c.idx % 10
    if k < 6:
        linear(c)
    elif k < 8:
        nonlinear(c)
    elif k == 8:
        refusals(c)
    else:
        stepping(c)


def setup(c, n, x0, allow=("free", "fixed", "tied", "bounded"), scale=1.0):
    r = c.rng
    role = [str(r.choice(allow)) for _ in range(n)]
    if all(x in ("fixed", "tied") for x in role):
        role[int(r.integers(n))] = "bounded" if "bounded" in allow and r.random() < .5 else "free"
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    base = [j for j in range(n) if role[j] != "tied"]
    ties = {}
    info = []
    for j in range(n):
        e = dict(value=float(x0[j]))
        if r.random() < .3:
            e["parname"] = "par%d" % j
        if role[j] == "fixed":
            e["fixed"] = [True, 1][int(r.integers(2))]
        elif role[j] == "tied":
            i = int(r.choice(base))
            a, b = float("%.3g" % r.uniform(-2, 2)), float("%.3g" % r.normal())
            ties[j] = (i, a, b)
            e["tied"] = str(r.choice(["%r * p[%d] + %r", " %r*p[%d]+%r "])) % (a, i, b)
        elif role[j] == "bounded":
            k = int(r.integers(1, 4))
            if k & 1:
                lo[j] = x0[j] - abs(r.normal()) * scale * (r.random() < .75)
            if k & 2:
                hi[j] = x0[j] + abs(r.normal()) * scale * (r.random() < .75)
            if k == 3 and hi[j] - lo[j] < 1e-2 * scale:
                hi[j] = lo[j] + scale
            e["limited"] = [bool(np.isfinite(lo[j])), bool(np.isfinite(hi[j]))]
            e["limits"] = [lo[j] if np.isfinite(lo[j]) else 0.0, hi[j] if np.isfinite(hi[j]) else 0.0]
        elif r.random() < .2:
            e["fixed"], e["limited"], e["limits"] = False, [False, False], [0.0, 0.0]
        info.append(e)
    free = [j for j in range(n) if role[j] in ("free", "bounded")]
    # p = S q + s for the free parameters q
    S, s = np.zeros((n, len(free))), np.zeros(n)
    for k, j in enumerate(free):
        S[j, k] = 1
    for j in range(n):
        if role[j] == "fixed":
            s[j] = x0[j]
    for j, (i, a, b) in ties.items():
        S[j] = a * S[i]
        s[j] = a * s[i] + b
    return role, info, lo, hi, free, S, s, ties


def common(c, mp, prob, x0, lo, hi, free, S, s, F, F0, nprint):
    """what every returned fit satisfies"""
    p = np.asarray(mp.params, float)
    fixed = [j for j in range(len(x0)) if not S[j].any()]
    c.check((p >= lo).all() and (p <= hi).all(), "out-of-bounds", lambda: "%r outside %r to %r" % (p, lo, hi))
    c.close(p[fixed], s[fixed], "fixed", rtol=1e-14, atol=1e-300, what="fixed parameters")
    c.close(p, S @ p[free] + s, "tied", rtol=1e-12, atol=1e-12, what="tied parameters")
    c.check(F <= F0 * (1 + 1e-10) + 1e-300, "worse-than-start", lambda: "sum of squares %r, %r at the start" % (F, F0))
    c.close(mp.fnorm, F, "reported-sum", rtol=1e-9, atol=1e-25 * (1 + F0), what="reported sum of squares")
    c.check(mp.nfev == prob.calls, "evaluation-count", lambda: "%r reported, %r made" % (mp.nfev, prob.calls))
    seen = np.array(prob.seen)
    c.event("evaluations", len(seen))
    c.check((seen[:, fixed] == s[fixed]).all() if fixed else True, "fixed", "a fixed parameter was moved while fitting")
    c.check(np.allclose(seen, seen[:, free] @ S.T + s, rtol=1e-12, atol=1e-12), "tied", "a tied parameter was not tied while fitting")


def linear(c):
    from RMutils.mpfit import mpfit
    r = c.rng
    n = int(r.integers(1, 7))
    m = n + int(r.integers(1, 25))
    sc = 10 ** r.uniform(-1, 1, n) if r.random() < .8 else 10 ** r.uniform(-2, 2, n)
    A = r.normal(size=(m, n)) / sc
    if r.random() < .15:
        A = np.linalg.qr(A)[0] / sc          # orthogonal columns
    x0 = sc * r.normal(size=n) * (0 if r.random() < .1 else 10 ** r.uniform(-1, 1))
    role, info, lo, hi, free, S, s, ties = setup(c, n, x0)
    xt = x0 + sc * r.normal(size=n) * 10 ** r.uniform(-1, 1.5)
    noise = 0.0 if r.random() < .15 else 10 ** r.uniform(-2, 1)
    b = A @ xt + noise * r.normal(size=m)
    J = A @ S
    sv = np.linalg.svd(J, compute_uv=False)
    sv2 = np.linalg.svd(J / np.maximum(np.linalg.norm(J, axis=0), 1e-300), compute_uv=False)
    if not np.linalg.norm(J, axis=0).all() or sv2[-1] < 1e-2:
        return
    prob = Problem(lambda p: A @ p - b)
    nprint = int(r.choice([0, 1, 3]))
    kw = dict(nprint=nprint, quiet=bool(r.random() < .7))
    style = int(r.integers(4))
    if r.random() < .2:
        kw["functkw"] = dict(tag=3)
    if r.random() < .15:
        kw["factor"] = float(r.choice([2.5, 7.0, 1000.0]))
    if r.random() < .2:
        for e in info:
            k = str(r.choice(["step", "relstep", "mpside", "none"]))
            if k == "step":
                e[k] = float(1e-6 * sc[info.index(e)])
            elif k == "relstep":
                e[k] = 1e-6
            elif k == "mpside":
                e[k] = int(r.choice([-1, 1, 2]))
        style = 9
    if style == 1 and not any("tied" in e for e in info) and r.random() < .3:
        for e in info:
            e["mpprint"] = 0
    lim = r.random() < .12
    if lim:
        kw["maxiter"] = int(r.integers(0, 3))
    c.label = "linear" + ("-limited" if lim else "")
    c.context = dict(roles=role, n=n, m=m, noise=noise, settings={k: str(v) for k, v in kw.items()}, ties=str(ties))
    keep = copy.deepcopy(info)
    with contextlib.redirect_stdout(io.StringIO()):
        if style == 2:
            for e in info:
                del e["value"]
            keep = copy.deepcopy(info)
            start = x0.copy()
            mp = mpfit(prob, start, parinfo=info, **kw)
            c.check((start == x0).all(), "start-modified", "the array of starting values was changed")
        elif style == 3 and set(role) == {"free"}:
            mp = mpfit(prob, list(x0), **kw)
        else:
            mp = mpfit(prob, parinfo=info, **kw)
    c.check(info == keep, "parinfo-modified", "the description of the parameters was changed")
    if not c.check(mp.status > 0, "not-fitted", lambda: "status %r, %r" % (mp.status, mp.errmsg)):
        return
    if "functkw" in kw:
        c.check(prob.kw == dict(tag=3), "keywords", "the user's keywords were not passed")
    q0 = x0[free]
    p0 = S @ q0 + s
    F0 = float(((A @ p0 - b) ** 2).sum())
    F = float(((A @ np.asarray(mp.params) - b) ** 2).sum())
    common(c, mp, prob, x0, lo, hi, free, S, s, F, F0, nprint)
    one = not any(e.get("mpside", 0) in (-1, 2) for e in info)
    if one:
        seen = np.array(prob.seen)
        c.check(((seen >= lo) & (seen <= hi))[:, free].all(), "evaluated-out-of-bounds", lambda: "the function was evaluated outside the bounds")
    c.check(mp.dof == m - len(free), "degrees-of-freedom", lambda: "%r for %d data and %d free parameters" % (mp.dof, m, len(free)))
    c.event("tied", bool(ties))
    c.event("fixed", "fixed" in role)
    if lim:
        c.event("limited_iterations")
        c.check(mp.niter <= kw["maxiter"] + 1, "iteration-limit", lambda: "%r iterations of %r" % (mp.niter, kw["maxiter"]))
        c.observed((c.seed, c.idx), c.context)
        return
    c.event("linear")
    # the constrained minimum
    if F0 > 1e10 * max(m * noise ** 2, 1e-12 * float((b ** 2).sum())):
        c.event("far_starts")       # derivatives by differences cannot resolve the minimum
        return
    N = np.linalg.norm(J, axis=0)
    res = lsq_linear(J / N, b - A @ s, (lo[free] * N, hi[free] * N), tol=1e-14, method="bvls" if len(free) > 1 else "trf", max_iter=300)
    q = res.x / N
    Fm = float(((J @ q - (b - A @ s)) ** 2).sum())
    scale = float((b ** 2).sum() + (A ** 2 @ p0 ** 2).sum() + F0)
    if np.isfinite(lo).any() or np.isfinite(hi).any():
        c.event("constrained")
    if mp.status != 5:
        c.check(F <= Fm * (1 + 1e-6) + 1e-12 * scale, "not-a-minimum", lambda: "sum of squares %r, constrained minimum %r, %r at the start; status %r" % (F, Fm, F0, mp.status))
    else:
        c.event("iterations_exhausted")
        return
    got = np.asarray(mp.params)[free]
    # curvature bounds the distance to the minimum
    d = np.abs(got - q) * N
    c.check(d.max() <= 1e-4 * np.sqrt(Fm) / sv2[-1] + 1e-5 * np.sqrt(scale) / sv2[-1], "solution", lambda: "%r, expected %r" % (got, q))
    peg = (got == lo[free]) | (got == hi[free])
    c.event("active_bounds", peg.any())
    # covariance of the parameters not on a bound; one on a bound counts as fixed if the fit wants to cross it
    C = np.zeros((n, n))
    g = 2 * J.T @ (A @ np.asarray(mp.params) - b)
    out = (got == lo[free]) & (g > 0) | (got == hi[free]) & (g < 0)
    weak = (peg & (np.abs(g) < 1e-6 * N * np.sqrt(max(F, 1e-300)))) | (~peg & ((np.abs(got - lo[free]) * N < 1e-8 * np.sqrt(scale)) | (np.abs(got - hi[free]) * N < 1e-8 * np.sqrt(scale))))
    if weak.any() or mp.niter < 2 and peg.any():
        c.event("covariance_undecided")
    elif not _settled(prob, lo, hi, free, got):
        c.event("covariance_undecided")
    else:
        f2 = [j for j, o in zip(free, out) if not o]
        JJ = J[:, ~out]
        if len(f2):
            M = JJ / np.linalg.norm(JJ, axis=0)
            V = np.linalg.inv(M.T @ M) / np.outer(np.linalg.norm(JJ, axis=0), np.linalg.norm(JJ, axis=0))
            C[np.ix_(f2, f2)] = V
        c.event("covariances")
        sd = np.sqrt(np.diag(C))
        at = 3e-4 / sv2[-1] ** 2 * np.outer(sd, sd)
        c.close(mp.covar, C, "covariance", rtol=2e-3, atol=10 * at, what="covariance")
        c.close(mp.perror, sd, "errors", rtol=3e-3 + 3e-4 / sv2[-1] ** 2, atol=0, what="errors")
    c.observed((c.seed, c.idx), c.context)


def _settled(prob, lo, hi, free, got):
    """the covariance is of the last Jacobian: that of the final pattern of active bounds only if the fit stayed there"""
    seen = np.array(prob.seen)[:, free]
    k = len(free)
    # the last Jacobian is evaluated around a point equal to the solution in its active bounds
    tail = seen[-(k + 2):]
    return all(((t == lo[free]) | (t == hi[free]) == ((got == lo[free]) | (got == hi[free]))).all() for t in tail[-2:]) and \
        np.abs(seen[-2:] - got).max() <= 1e-6 * (1e-300 + np.abs(got).max())


def nonlinear(c):
    from RMutils.mpfit import mpfit
    r = c.rng
    kind = str(r.choice(["gauss", "power", "exp", "trig"]))
    m = int(r.integers(12, 60))
    x = np.sort(r.uniform(.5, 4, m))
    if kind == "gauss":
        x = np.linspace(-3, 3, m)
        f = lambda p: p[0] * np.exp(-(x - p[1]) ** 2 / (2 * p[2] ** 2))
        pt = np.array([r.uniform(.5, 5), r.uniform(-1, 1), r.uniform(.6, 1.5)])
    elif kind == "power":
        f = lambda p: p[0] * x ** (p[1] + p[2] * np.log(x))
        pt = np.array([r.uniform(.5, 5), r.uniform(-2, 1), r.uniform(-.4, .4)])
    elif kind == "exp":
        f = lambda p: p[0] * np.exp(-p[1] * x) + p[2]
        pt = np.array([r.uniform(1, 5), r.uniform(.3, 1.2), r.uniform(-1, 1)])
    else:
        f = lambda p: p[0] * np.cos(p[1] * x + p[2])
        pt = np.array([r.uniform(1, 5), r.uniform(.5, 1.2), r.uniform(-1, 1)])
    err = 10 ** r.uniform(-2, 0)
    y = f(pt) + err * r.normal(size=m) * (r.random() < .85)
    x0 = pt * (1 + .15 * r.uniform(-1, 1, 3))
    role, info, lo, hi, free, S, s, ties = setup(c, 3, x0, allow=("free", "free", "bounded", "fixed"), scale=.3)
    fun = lambda p: (f(p) - y) / err
    prob = Problem(fun)
    np_ = int(r.choice([0, 1]))
    kw = dict(nprint=np_, quiet=True)
    lim = r.random() < .2
    if lim:
        kw["maxiter"] = int(r.integers(0, 4))
    c.label = "nonlinear-" + kind
    c.context = dict(kind=kind, roles=role, m=m, err=err, truth=list(pt), start=list(x0), maxiter=kw.get("maxiter"))
    mp = mpfit(prob, parinfo=info, **kw)
    if not c.check(mp.status > 0, "not-fitted", lambda: "status %r, %r" % (mp.status, mp.errmsg)):
        return
    F0, F = float((fun(x0) ** 2).sum()), float((fun(np.asarray(mp.params)) ** 2).sum())
    common(c, mp, prob, x0, lo, hi, free, S, s, F, F0, np_)
    c.event("nonlinear")
    if lim:
        c.event("limited_iterations")
        c.check(mp.niter <= kw["maxiter"] + 1, "iteration-limit", lambda: "%r" % mp.niter)
    elif mp.status != 5 and F > 1e-12 * F0:
        # stationary: no free parameter can be moved inside its bounds to reduce the sum
        p = np.array(mp.params, float)
        R = fun(p)
        J = np.empty((m, len(free)))
        for k, j in enumerate(free):
            h = 1e-5 * max(abs(p[j]), .1)
            a, b = p.copy(), p.copy()
            a[j] += h
            b[j] -= h
            J[:, k] = (fun(a) - fun(b)) / (2 * h)
        N = np.linalg.norm(J, axis=0)
        if (N * np.abs(p[free]) < 1e-5 * np.sqrt(F)).any():
            c.event("flat_directions")
            return
        cs = (J / np.maximum(N, 1e-300)).T @ R / np.sqrt(F)
        ok = (np.abs(cs) < 2e-3) | (p[free] == lo[free]) & (cs > 0) | (p[free] == hi[free]) & (cs < 0)
        c.check(ok.all(), "not-stationary", lambda: "cosines %r at %r (status %r)" % (cs, p, mp.status))
        peg = (p[free] == lo[free]) | (p[free] == hi[free])
        sv = np.linalg.svd(J / np.maximum(N, 1e-300), compute_uv=False)
        c.event("active_bounds", peg.any())
        if not peg.any() and sv[-1] > .02 and mp.niter > 1:
            V = np.linalg.inv(J.T @ J)
            c.event("covariances")
            sd = np.sqrt(np.diag(V))
            c.close(np.asarray(mp.perror)[free], sd, "errors", rtol=.03, what="errors of a non-linear fit")
    c.observed((c.seed, c.idx), c.context)


def refusals(c):
    from RMutils.mpfit import mpfit
    r = c.rng
    n = int(r.integers(1, 5))
    m = n + 6
    A = r.normal(size=(m, n))
    b = r.normal(size=m)
    x0 = r.normal(size=n)
    j = int(r.integers(n))
    info = [dict(value=float(v)) for v in x0]
    kind = str(r.choice(["below", "above", "inconsistent", "no-free", "few-data", "length", "nothing", "tolerance", "integers", "single", "user-first", "user-stop", "callback-stop", "callback-stop",
                        "not-a-list", "no-values", "no-function", "scales", "scales", "non-finite", "non-finite", "tight", "short-floats", "short-floats"]))
    prob = Problem(lambda p: A @ p - b)
    kw = dict(quiet=True)
    c.label = "refusal-" + kind
    c.context = dict(kind=kind, n=n)
    if kind == "below":
        info[j].update(limited=[True, False], limits=[x0[j] + 1.0, 0.0])
    elif kind == "above":
        info[j].update(limited=[False, True], limits=[0.0, x0[j] - 1.0])
    elif kind == "inconsistent":
        info[j].update(limited=[True, True], limits=[float(x0[j])] * 2)
    elif kind == "no-free":
        for e in info:
            e["fixed"] = True
    elif kind == "few-data":
        prob = Problem(lambda p: (A @ p - b)[:n - 1])
    if kind in ("below", "above", "inconsistent", "no-free") or kind == "few-data" and n > 1:
        mp = mpfit(prob, parinfo=info, **kw)
        c.event("refusals")
        c.check(mp.status == 0 and mp.errmsg.startswith("ERROR"), "improper-input", lambda: "status %r message %r" % (mp.status, mp.errmsg))
        c.check(mp.covar is None, "improper-input", "a covariance is reported")
    elif kind == "length":
        mp = mpfit(prob, list(x0) + [1.0], parinfo=info, **kw)
        c.event("refusals")
        c.check(mp.status == 0 and mp.errmsg.startswith("ERROR"), "improper-input", lambda: "status %r message %r" % (mp.status, mp.errmsg))
    elif kind == "nothing":
        mp = mpfit(prob, **kw)
        c.event("refusals")
        c.check(mp.status == 0 and mp.errmsg.startswith("ERROR"), "improper-input", lambda: "status %r message %r" % (mp.status, mp.errmsg))
    elif kind == "tolerance":
        kw[str(r.choice(["ftol", "xtol", "gtol", "factor"]))] = float(r.choice([0, -1]))
        mp = mpfit(prob, parinfo=info, **kw)
        c.event("refusals")
        c.check(mp.status == 0 and mp.errmsg.startswith("ERROR"), "improper-input", lambda: "status %r message %r" % (mp.status, mp.errmsg))
    elif kind in ("integers", "single", "few-data"):
        prob = Problem(lambda p: A @ p - b)
        p = [int(v) for v in np.round(3 * x0)] if kind != "single" else x0.astype("f4")
        mp = mpfit(prob, p, **kw)
        c.event("other_types")
        want = np.linalg.lstsq(A, b, rcond=None)[0]
        if np.linalg.cond(A) < 1e3:
            c.close(mp.params, want, "solution", rtol=1e-4, atol=1e-4, what="solution from %s starting values" % kind)
            c.check(np.asarray(mp.params).dtype == np.float64, "precision", "solution in %s" % np.asarray(mp.params).dtype)
    elif kind in ("not-a-list", "no-values", "no-function"):
        q = None
        if kind == "not-a-list":
            info = [tuple(info), [1.0] * n, "values"][int(r.integers(3))]
        elif kind == "no-values":
            for k in range(n):
                if k == j or r.random() < .5:
                    del info[k]["value"]
                    info[k]["fixed"] = False
        mp = mpfit(None if kind == "no-function" else prob, parinfo=info, **kw)
        c.event("refusals")
        c.check(mp.status == 0 and mp.errmsg and prob.calls == 0, "improper-input", lambda: "status %r message %r after %d evaluations" % (mp.status, mp.errmsg, prob.calls))
    elif kind == "scales":
        diag = 10 ** r.uniform(-1, 1, n)
        bad = str(r.choice(["short", "zero", "negative", "fine", "fine"]))
        diag = diag[:-1] if bad == "short" else diag
        if bad in ("zero", "negative"):
            diag[j] *= 0 if bad == "zero" else -1
        mp = mpfit(prob, parinfo=info, rescale=1, diag=diag, **kw)
        if bad == "fine":
            c.event("own_scales")
            c.check(mp.status > 0 and not mp.errmsg, "not-fitted", lambda: "status %r, %r" % (mp.status, mp.errmsg))
            want = np.linalg.lstsq(A, b, rcond=None)[0]
            if np.linalg.cond(A) < 1e3:
                c.close(mp.params, want, "solution", rtol=1e-4, atol=1e-4, what="solution with the caller's scales")
        else:
            c.event("refusals")
            c.check(mp.status == 0 and mp.errmsg.startswith("ERROR"), "improper-input", lambda: "status %r message %r" % (mp.status, mp.errmsg))
    elif kind == "non-finite":
        # the function breaks down at some evaluation, and from then on or at the far side of a wall
        at = int(r.integers(2, 3 * n + 6))
        wall = bool(r.random() < .4)
        want = np.linalg.lstsq(A, b, rcond=None)[0]
        def f(p, fjac=None):
            f.calls += 1
            v = A @ p - b
            if (wall and (p - x0) @ (want - x0) > .5 * ((want - x0) @ (want - x0))) or not wall and f.calls >= at:
                v = v * [np.nan, np.inf][int(wall and at % 2)]
                f.broke = True
            return [0, v]
        f.calls, f.broke = 0, False
        with np.errstate(all="ignore"):
            mp = mpfit(f, parinfo=info, maxiter=60, **kw)
        if f.broke:
            c.event("broken_functions")
            F = float(((A @ np.asarray(mp.params, float) - b) ** 2).sum())
            F0 = float(((A @ x0 - b) ** 2).sum())
            c.check(np.isfinite(mp.params).all() and F <= F0 * (1 + 1e-9), "broken-function", lambda: "%r with sum %r, %r at the start (status %r)" % (mp.params, F, F0, mp.status))
            c.check(mp.status != 0 and (mp.status > 0 or mp.errmsg.startswith("ERROR")), "broken-function", lambda: "status %r message %r" % (mp.status, mp.errmsg))
            if mp.status < 0:
                c.event("breakdowns_reported")
                c.check(mp.covar is None and mp.perror is None, "broken-function", "a covariance is reported")
    elif kind == "tight":
        # no tolerance can be met: the fitter says so, at the minimum
        t = float(r.choice([1e-17, 1e-25]))
        mp = mpfit(prob, parinfo=info, ftol=t, xtol=t, gtol=t, **kw)
        c.event("tight_tolerances")
        c.check(mp.status in (1, 2, 3, 4, 5, 6, 7, 8), "tight-status", lambda: "status %r" % mp.status)
        if np.linalg.cond(A) < 1e3:
            c.close(mp.params, np.linalg.lstsq(A, b, rcond=None)[0], "solution", rtol=1e-5, atol=1e-5, what="solution with impossible tolerances")
    elif kind == "short-floats":
        sc = 10 ** r.uniform(-15, 15)
        g = lambda p: (sc * (A @ p - b)).astype("f4")
        prob = Problem(g)
        mp = mpfit(prob, parinfo=info, **kw)
        want = np.linalg.lstsq(A, b, rcond=None)[0]
        c.event("short_floats")
        if c.check(mp.status > 0, "not-fitted", lambda: "status %r, %r" % (mp.status, mp.errmsg)) and np.linalg.cond(A) < 30:
            F, F1 = float(((A @ mp.params - b) ** 2).sum()), float(((A @ want - b) ** 2).sum())
            c.check(F <= F1 * 1.01 + 1e-4 * float(((A @ x0 - b) ** 2).sum()), "short-floats", lambda: "sum %r, minimum %r (status %r)" % (F, F1, mp.status))
            c.check(mp.dof == m - n, "degrees-of-freedom", repr(mp.dof))
            c.close(mp.fnorm, float((np.asarray(g(np.asarray(mp.params)), float) ** 2).sum()), "reported-sum", rtol=1e-3, what="reported sum of squares")
    elif kind == "user-first":
        prob.stop_at = 1
        mp = mpfit(prob, parinfo=info, **kw)
        c.event("user_stops")
        c.check(mp.status == -7 and mp.errmsg, "user-stop", lambda: "status %r message %r" % (mp.status, mp.errmsg))
    elif kind == "user-stop":
        prob.stop_at = n + 2                    # the first trial step
        mp = mpfit(prob, parinfo=info, **kw)
        c.event("user_stops")
        c.check(mp.status == -7 and mp.errmsg, "user-stop", lambda: "status %r message %r" % (mp.status, mp.errmsg))
        c.check(prob.calls == n + 2, "user-stop", lambda: "%d calls" % prob.calls)
    else:
        log = []

        def it(fcn, p, niter, fnorm, functkw=None, parinfo=None, quiet=0, dof=None, tag=None):
            log.append((niter, np.array(p), fnorm, dof, tag))
            return -3 if stop and len(log) == 2 else None
        stop = r.random() < .5
        nl = lambda p: np.concatenate([np.exp(.3 * (A @ p)) - np.exp(.3 * b), .1 * p])
        prob = Problem(nl)
        step = int(r.choice([1, 2]))
        mp = mpfit(prob, parinfo=info, iterfunct=it, iterkw=dict(tag=5), nprint=step, **kw)
        c.event("user_stops", stop)
        c.event("callbacks", len(log))
        if stop and len(log) >= 2:
            c.check(mp.status == -3 and mp.errmsg and len(log) == 2, "user-stop", lambda: "status %r message %r" % (mp.status, mp.errmsg))
        for q, (niter, p, fn, dof, tag) in enumerate(log):
            c.check(niter == 1 + q * step, "callbacks", lambda: "iterations %r" % [x[0] for x in log])
            c.check(dof == len(nl(p)) - n and tag == 5, "callbacks", lambda: "dof %r tag %r" % (dof, tag))
            c.close(fn, float((nl(p) ** 2).sum()), "callbacks", rtol=1e-9, what="sum of squares passed to the callback")
        fs = [x[2] for x in log]
        c.check(all(b_ <= a_ * (1 + 1e-12) for a_, b_ in zip(fs, fs[1:])), "monotone", lambda: "sums of squares %r" % fs)
    c.observed((c.seed, c.idx), c.context)


def stepping(c):
    """no iteration moves a parameter by more than its maximum step"""
    from RMutils.mpfit import mpfit
    r = c.rng
    n = int(r.integers(2, 6))
    m = n + 8
    A = r.normal(size=(m, n))
    x0 = r.normal(size=n)
    role, info, lo, hi, free, S, s, ties = setup(c, n, x0, allow=("free", "free", "fixed", "bounded"), scale=3.0)
    ms = np.full(n, np.inf)
    for j in free:
        if r.random() < .7:
            ms[j] = 10 ** r.uniform(-1.5, 0)
            info[j]["mpmaxstep"] = float(ms[j])
    b = A @ (x0 + r.normal(size=n) * 3) + .1 * r.normal(size=m)
    prob = Problem(lambda p: A @ p - b)
    log = []

    def it(fcn, p, niter, fnorm, functkw=None, parinfo=None, quiet=0, dof=None):
        log.append(np.array(p))
    c.label = "max-step"
    c.context = dict(roles=role, steps=[float(v) for v in ms])
    mp = mpfit(prob, parinfo=info, iterfunct=it, quiet=True)
    if not c.check(mp.status > 0, "not-fitted", lambda: "status %r, %r" % (mp.status, mp.errmsg)):
        return
    P = np.array(log + [np.asarray(mp.params)])
    c.event("max_steps", np.isfinite(ms).any())
    d = np.abs(np.diff(P, axis=0))
    c.check((d <= ms * (1 + 1e-9) + 1e-12).all(), "maximum-step", lambda: "steps up to %r of %r" % (d.max(0), ms))
    F0, F = float(((A @ x0 - b) ** 2).sum()), float(((A @ np.asarray(mp.params) - b) ** 2).sum())
    common(c, mp, prob, x0, lo, hi, free, S, s, F, F0, 1)
    J = A[:, free]
    if mp.status != 5 and np.linalg.cond(J) < 1e3:
        res = lsq_linear(J, b - A @ s, (lo[free], hi[free]), tol=1e-14, method="bvls" if len(free) > 1 else "trf")
        c.check(F <= 2 * res.cost * (1 + 1e-6) + 1e-10 * F0, "not-a-minimum", lambda: "sum of squares %r, constrained minimum %r, %r at the start; status %r" % (F, 2 * res.cost, F0, mp.status))
    c.observed((c.seed, c.idx), c.context)
