"""R03: conservation identities of RM-CLEAN for every pixel."""
import numpy as np
from rvm import gen, ref, cleanw

CASES = {"quick": 6000, "thorough": 120000}
RULE = ("random dispersion functions with their own response per pixel x dimensionality x precision x gain x cutoff x iteration limit "
        "x window x blank pixels; distinct by the draw; non-trivial when at least one iteration was performed or a pixel was left alone")
MIN_EVENTS = {"pixels_cleaned": 1500, "pixels_left_alone": 150, "components": 5000, "blank_pixels": 80, "window_runs": 200,
              "limit_hit": 150}
ASSUMPTIONS = ["depth axes contain zero and the doubled axis is the one the response tool makes"]


def run_case(c):
    from RMutils.util_RM import do_rmclean_hogbom
    r = c.rng
    big = gen.scale_draw(r, .015)
    d = cleanw.make(r, big=big)
    if big:
        c.event("large_" + big)
    nphi, npix = len(d["phi"]), d["npix"]
    pk = d["peak"] or 1.0
    cutoff = pk * 10 ** r.uniform(-2, 0.1)
    gain = float(r.choice([0.05, 0.1, 0.3, 0.7, 1.0]))
    maxit = int(r.choice([0, 1, 3, 20, 100, 400]))
    if big:
        maxit = min(maxit, 20)
    win = [np.nan, np.nan, cutoff * 0.5, cutoff * 0.9, 0.0, cutoff * 2][int(r.integers(6))]
    lay = str(r.choice(["C", "C", "F", "strided", "swapped", "readonly"]))
    dirty, rm = gen.layout(d["dirty"], lay), gen.layout(d["rmsf"], lay)
    c.label = "%dd-%s" % (d["nd"], "win" if win == win else "plain")
    c.context = dict(nd=d["nd"], bits=d["bits"], shape=d["shape"], gain=gain, cutoff=cutoff, maxIter=maxit, window=win, layout=lay,
                     nphi=nphi)
    snap = c.snapshot(dirty=dirty, rmsf=rm, phi=d["phi"], phi2=d["phi2"], fwhm=d["fwhm"])
    kw = {} if win != win and r.random() < 0 else dict(window=win)
    res = do_rmclean_hogbom(dirty, d["phi"], rm, d["phi2"], d["fwhm"], cutoff, maxIter=maxit, gain=gain, nBits=d["bits"],
                            verbose=c.idx % 5 == 3, log=lambda *a, **k: None, **kw)
    if not c.check(res[0] is not None, "refused", "call refused"):
        return
    c.unchanged(snap)
    clean, cc, it, resid = res[0], res[1], res[2], res[3]
    for nm, a in (("clean", clean), ("cc", cc), ("resid", resid)):
        if not c.check(np.size(a) == nphi * npix and np.iscomplexobj(a), "result-size", "%s %s" % (nm, np.shape(a))):
            return
    if not c.check(np.size(it) == npix, "result-size", "iterations %s" % (np.shape(it),)):
        return
    clean, cc, resid = cleanw.flat(clean, nphi), cleanw.flat(cc, nphi), cleanw.flat(resid, nphi)
    it = np.ravel(it)
    D, R = cleanw.flat(d["dirty"]), cleanw.flat(d["rmsf"])
    W = np.ravel(d["fwhm"])
    eps = 4e-7 if d["bits"] == 32 else 4e-15
    for p in range(npix):
        if d["blank"][p]:
            c.event("blank_pixels")
            c.check(not np.isfinite(clean[:, p]).any() and not np.isfinite(resid[:, p]).any(), "blank-filled", "pixel %d" % p)
            c.check(np.all(cc[:, p] == 0) and it[p] == 0, "blank-components", "pixel %d" % p)
            continue
        c.check(np.isfinite(clean[:, p]).all() and np.isfinite(cc[:, p]).all() and np.isfinite(resid[:, p]).all(), "not-finite", "pixel %d" % p)
        c.event("components", int((cc[:, p] != 0).sum()))
        if it[p] == 0:
            c.event("pixels_left_alone")
            c.same(cc[:, p], np.zeros(nphi), "uncleaned-has-components", "pixel %d" % p)
            c.same(clean[:, p], D[:, p], "uncleaned-changed", "pixel %d" % p)
            c.same(resid[:, p], D[:, p], "uncleaned-changed", "pixel %d residual" % p)
            continue
        c.event("pixels_cleaned")
        if it[p] >= maxit:
            c.event("limit_hit")
        k = cc[:, p].astype("complex128")
        back = resid[:, p].astype("complex128") + cleanw.response_matrix(R[:, p].astype("complex128"), nphi) @ k
        scale = max(np.max(np.abs(D[:, p])), np.max(np.abs(k)))
        tol = eps * scale * (8 + it[p])
        c.close(back, D[:, p].astype("complex128"), "flux-not-conserved", rtol=0, atol=tol, what="dirty - (residual + response*components), pixel %d" % p)
        rest = resid[:, p].astype("complex128") + cleanw.gaussian_matrix(d["phi"], W[p]) @ k
        c.close(clean[:, p].astype("complex128"), rest, "restored-wrong", rtol=0, atol=tol + 3e-6 * scale * (d["bits"] == 32) + 1e-9 * scale, what="clean - (residual + gaussians), pixel %d" % p)
    if win == win:
        c.event("window_runs")
    c.observed((c.seed, c.idx), dict(c.context, iterations=it[:6]))
