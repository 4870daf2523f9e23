"""R20: QU models against direct integrals over their Faraday-depth distributions, and their priors."""
import os
import numpy as np
from rvm import gen

CASES = {"quick": 2200, "thorough": 100000}
RULE = ("each of the ten models x parameters drawn from its own priors, from the ends of their ranges, and at vanishing dispersion or thickness x wavelength set "
        "(double, single precision, one channel); against quadrature over the depth distribution; prior draws; models found in the working directory; distinct by draw")
MIN_EVENTS = dict({"model_%d" % k: 120 for k in (1, 2, 3, 4, 5, 6, 7, 11, 111, 12)}, spectra_compared=1500, single_precision=300, zero_limit=250, at_range_end=250,
                  linearity=1500, rotation=1500, prior_draws=1500, reductions=600, local_models=20, conjugates=250)
ASSUMPTIONS = ["published forms: thin source, Burn slab, external dispersion and internal dispersion of Sokoloff et al. (1998), for uniform emissivity"]
CASE_LIMIT = {"quick": 60, "thorough": 60}
MODELS = [1, 2, 3, 4, 5, 6, 7, 11, 111, 12]
XG, WG = np.polynomial.legendre.leggauss(64)
XH, WH = np.polynomial.hermite_e.hermegauss(80)


class Track(dict):
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.read = set()

    def __getitem__(self, k):
        self.read.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.read.add(k)
        return dict.get(self, k, d)


def integral(S):
    """int_0^1 exp(-S t) dt, panel by panel, for complex S with Re S >= 0"""
    out = np.empty(len(S), complex)
    for i, s in enumerate(S):
        # the integrand is negligible beyond t = 45 / Re S
        top = 1.0 if s.real < 45 else 45 / s.real
        n = int(min(max(8, np.ceil(abs(s) * top / 15)), 4000))
        e = np.linspace(0, top, n + 1)
        mid, half = (e[1:] + e[:-1]) / 2, top / n / 2
        t = mid[:, None] + half * XG
        out[i] = (np.exp(-s * t) @ WG).sum() * half
    return out


def component(l2, p, psi, rm, sig=0.0, slab=0.0, inner=0.0):
    """emission spread uniformly over a slab of depth range `slab`, dispersed inside (inner) and in front (sig)"""
    z = p * np.exp(2j * (np.radians(psi) + rm * l2))
    if slab or inner:
        z = z * integral(2 * inner ** 2 * l2 ** 2 - 2j * slab * l2)
    return z * np.exp(-2 * sig ** 2 * l2 ** 2)


def want(m, q, l2):
    g = lambda k, j="": q[k[0] + j + k[1]]
    F, A, R = ("fracPol", ""), ("psi0", "_deg"), ("RM", "_radm2")
    c = lambda j="", **k: component(l2, g(F, j), g(A, j), g(R, j), **k)
    if m == 1:
        return c()
    if m == 2:
        return c(sig=q["sigmaRM_radm2"])
    if m == 3:
        return c("1", sig=q["sigmaRM_radm2"]) + c("2", sig=q["sigmaRM_radm2"])
    if m == 4:
        return c("1", sig=q["sigmaRM1_radm2"]) + c("2", sig=q["sigmaRM2_radm2"])
    if m == 5:
        return c(slab=q["deltaRM_radm2"])
    if m == 6:
        return c("1", slab=q["deltaRM1_radm2"]) + c("2", slab=q["deltaRM2_radm2"])
    if m == 7:
        return c(slab=q["deltaRM_radm2"], inner=q["sigmaRM_radm2"])
    if m == 11:
        return c("1") + c("2")
    if m == 111:
        return c("1") + c("2") + c("3")
    return component(l2, q["fracPol"], q["psi0_deg"], q["RM_screen"], sig=q["sigmaRM_radm2_FG"], slab=q["deltaRM_radm2"], inner=q["sigmaRM_radm2"])


REDUCE = {2: ["sigmaRM_radm2"], 3: ["sigmaRM_radm2"], 4: ["sigmaRM1_radm2", "sigmaRM2_radm2"], 5: ["deltaRM_radm2"], 6: ["deltaRM1_radm2", "deltaRM2_radm2"],
          7: ["sigmaRM_radm2", "deltaRM_radm2"], 12: ["sigmaRM_radm2", "deltaRM_radm2", "sigmaRM_radm2_FG"]}
SIMPLER = {2: 1, 3: 11, 4: 11, 5: 1, 6: 11, 7: 1}


def load(n):
    from RMtools_1D.do_QUfit_1D_mnest import load_model
    return load_model(n)


def run_case(c):
    import bilby, warnings
    warnings.simplefilter("ignore")
    r = c.rng
    if c.idx % 60 == 17:
        return local(c)
    m = MODELS[c.idx % 10] if c.idx % 3 else int(r.choice(MODELS))
    cwd = os.getcwd()
    os.chdir(c.tmpdir())
    try:
        mod = load(m)
    finally:
        os.chdir(cwd)
    c.event("model_%d" % m)
    c.label = "m%d" % m
    free = [k for k, v in mod.priors.items() if v.__class__.__name__ != "Constraint"]
    f = np.asarray(gen.freqs(r), float)
    if r.random() < .05:
        f = f[:1]
    if len(f) > 60:
        f = f[np.sort(r.choice(len(f), 60, replace=False))]
    l2 = gen.lam2(f)
    single = r.random() < .25
    how = str(r.choice(["prior", "prior", "ends", "small", "zero"]))
    q = {}
    for k in free:
        v = mod.priors[k]
        lo, hi = float(v.minimum), float(v.maximum)
        q[k] = float(r.uniform(lo, hi))
        if how == "ends" and r.random() < .5:
            q[k] = lo if r.random() < .5 else hi
    if how == "ends":
        c.event("at_range_end")
    vanish = REDUCE.get(m, [])
    if how in ("small", "zero") and vanish:
        for k in vanish:
            if r.random() < .7 and k in q:
                q[k] = 0.0 if how == "zero" else float(10 ** r.uniform(-14, 0))
        c.event("zero_limit")
    if m == 12:
        # its own reference: screen depth
        pass
    c.context = dict(model=m, n=len(f), how=how, parameters=q, single=single, lambda2=[float(l2.min()), float(l2.max())])
    x = l2.astype("float32") if single else l2
    if single:
        c.event("single_precision")
    t = Track(q)
    snap = c.snapshot(x=x, q=dict(q))
    with np.errstate(all="ignore"):
        got = np.asarray(mod.model(t, x))
    c.unchanged(snap)
    c.check(dict(t) == q, "input-modified", "parameter dictionary changed")
    c.check(t.read <= set(free), "prior-names", lambda: "model uses %s without a prior" % sorted(t.read - set(free)))
    c.check(set(free) <= t.read, "prior-names", lambda: "priors %s not used by the model" % sorted(set(free) - t.read))
    x8 = x.astype(float)
    names_known = True
    try:
        W = want(m, q, x8)
    except KeyError as e:
        # parameters renamed consistently by the repository: the formula cannot be matched by name
        c.inconclusive.append("unknown parameter name %s" % e)
        names_known = False
    tot = sum(v for k, v in q.items() if k.startswith("fracPol"))
    ph = max([abs(v) for k, v in q.items() if "RM" in k] + [1]) * x8
    tol = tot * (1e-9 + 4e-13 * ph if not single else 4e-6 + 6e-7 * ph)
    if names_known:
        c.event("spectra_compared")
        c.close(got, W, "formula", rtol=0, atol=tol, what="model %d" % m)
    with np.errstate(all="ignore"):
        c.check((np.abs(got) <= tot * (1 + (1e-9 if not single else 1e-5)) + 1e-300).all(), "modulus", lambda: "modulus %g exceeds %g" % (np.abs(got).max(), tot))
        # one call per wavelength
        i = int(r.integers(len(x)))
        c.close(mod.model(dict(q), x[i:i + 1]), got[i:i + 1], "channel-independent", rtol=0, atol=tol[i:i + 1] if np.ndim(tol) else tol, what="one channel alone")
        # scaling of the fractions, rotation of the angles, reversal of the depths
        s = float(r.uniform(0, 1))
        c.event("linearity")
        c.close(mod.model({k: v * s if k.startswith("fracPol") else v for k, v in q.items()}, x), got * s, "linearity", rtol=1e-6, atol=tol, what="scaled fractions")
        a = float(r.uniform(0, 180))
        c.event("rotation")
        c.close(mod.model({k: v + a if k.startswith("psi") else v for k, v in q.items()}, x), got * np.exp(2j * np.radians(a)), "rotation", rtol=1e-6,
                atol=tol * 2, what="turned angles")
        if m in (1, 2, 3, 4, 11, 111):
            c.event("conjugates")
            c.close(mod.model({k: -v if (k.startswith("RM") or k.startswith("psi")) else v for k, v in q.items()}, x), np.conj(got), "conjugate", rtol=1e-6, atol=tol, what="reversed")
        # sum of components
        if m in (3, 4, 6, 11, 111):
            tot_ = 0
            n = 3 if m == 111 else 2
            for j in range(1, n + 1):
                tot_ = tot_ + mod.model({k: 0.0 if (k.startswith("fracPol") and k != "fracPol%d" % j) else v for k, v in q.items()}, x)
            c.close(tot_, got, "components-add", rtol=1e-6, atol=tol, what="components of model %d" % m)
        # vanishing dispersion or thickness gives the simpler shipped model
        if m in SIMPLER:
            simple = load_quiet(SIMPLER[m], c)
            z = {k: 0.0 if k in vanish else v for k, v in q.items()}
            zs = {k: z[k] for k in z if k not in vanish}
            c.event("reductions")
            c.close(mod.model(z, x), simple.model(zs, x), "reduction", rtol=1e-6, atol=tol, what="model %d without dispersion or thickness" % m)
    # draws from the priors are physical
    P = mod.priors if isinstance(mod.priors, bilby.core.prior.PriorDict) else bilby.core.prior.PriorDict(dict(mod.priors))
    state = np.random.get_state()
    try:
        try:
            bilby.core.utils.random.seed(int(r.integers(2 ** 31)))
        except AttributeError:
            np.random.seed(int(r.integers(2 ** 31)))
        draw = P.sample()
    finally:
        np.random.set_state(state)
    c.event("prior_draws")
    fr = [v for k, v in draw.items() if k.startswith("fracPol")]
    c.check(sum(fr) <= 1 + 1e-12 and min(fr) >= 0, "prior-physical", lambda: "fractions %s" % fr)
    rms = [draw[k] for k in sorted(draw) if k.startswith("RM") and k[2:3].isdigit()]
    if len(rms) > 1:
        c.check(all(a >= b for a, b in zip(rms, rms[1:])), "prior-ordering", lambda: "component depths %s" % rms)
    for k in free:
        if "sigma" in k or "delta" in k:
            c.check(draw[k] >= 0, "prior-physical", lambda: "%s = %g" % (k, draw[k]))
        if k.endswith("_deg"):
            c.check(float(P[k].maximum) - float(P[k].minimum) == 180 and P[k].boundary == "periodic", "prior-angle", lambda: "%s: %r" % (k, P[k]))
    with np.errstate(all="ignore"):
        ln = P.ln_prob({k: draw[k] for k in free})
    c.check(np.isfinite(ln), "prior-density", lambda: "a draw has density %r" % ln)
    c.observed((c.seed, c.idx), c.context)


_cache = {}


def load_quiet(n, c):
    if n not in _cache:
        cwd = os.getcwd()
        os.chdir(c.tmpdir())
        try:
            _cache[n] = load(n)
        finally:
            os.chdir(cwd)
    return _cache[n]


def local(c):
    """a model file in the working directory is preferred to the shipped one of the same number"""
    r = c.rng
    d = c.tmpdir()
    os.makedirs(os.path.join(d, "models_ns"))
    n = int(r.choice([1, 7, 42, 913]))
    tag = float(r.uniform(2, 3))
    open(os.path.join(d, "models_ns", "m%d.py" % n), "w").write("priors = {}\ndef model(pDict, lamSqArr_m2):\n    return %r * lamSqArr_m2\n" % tag)
    cwd = os.getcwd()
    os.chdir(d)
    c.label = "local"
    c.context = dict(model=n)
    try:
        g = load(n).model({}, np.array([1.0, 2.0]))
        o = load(2).model(dict(fracPol=.5, psi0_deg=0., RM_radm2=0., sigmaRM_radm2=0.), np.array([1.0]))
        try:
            load(5555)
            gone = False
        except SystemExit:
            gone = True
    finally:
        os.chdir(cwd)
    c.event("local_models")
    c.close(g, np.array([tag, 2 * tag]), "local-model", what="model from the working directory")
    c.close(o, np.array([.5 + 0j]), "shipped-model", what="model from the installation")
    c.check(gone, "missing-model", "a model that does not exist was loaded")
    c.observed((c.seed, c.idx), c.context)
