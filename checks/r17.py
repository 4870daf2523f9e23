"""R17: Stokes I cube fitting against each pixel's own fit, under serial, pooled and scrambled execution."""
import os, multiprocessing as mp
import numpy as np
import astropy.io.fits as pf
from rvm import gen, cube, cleanw, hooks
from checks.r06 import model
from checks.r09 import run_main, sha
from checks.r12 import sky

CASES = {"quick": 640, "thorough": 9000}
RULE = ("cubes with a different source in every pixel (layouts, shapes, flagged planes, blank pixels, noise-only pixels) x order x form x threshold x "
        "masking x header or file frequencies; the library with a scrambled in-process pool, and the command-line tool with real pools; distinct by draw")
# depends on how the tool asks for its workers: reported, not required
SOFT_EVENTS = {"scrambled"}
MIN_EVENTS = {"runs": 340, "pixels_fitted": 1500, "pixels_masked": 300, "noise_vectors": 330, "masks": 150, "blank_pixels": 30, "flagged_planes": 60,
              "command_line": 10, "real_pools": 10, "scrambled": 250, "displayed_progress": 60, "log": 100, "linear": 100, "dynamic": 60,
              "truth_recovered": 300, "sky_kept": 300, "model_from_maps": 1500, "no_unit": 60, "beside_input": 4}
ASSUMPTIONS = ["the single-spectrum fit is decided by R06", "floating-point cubes; planes with at least six pixels of distinct values for the noise estimate",
               "a pixel without data has a blank model and a blank constant term; its other products are not specified"]
CASE_LIMIT = {"quick": 200, "thorough": 240}


def mad(a):
    a = a[np.isfinite(a)]
    if a.size == 0:
        return np.nan, np.nan
    m = np.median(a)
    return m, np.median(np.abs(a - m)) / .6745


def noise(I, thr):
    """two-pass noise and the emission mask; third result: pixels too close to a threshold to call"""
    n, ny, nx = I.shape
    rms = np.full(n, np.nan)
    msk, near = np.zeros((ny, nx), bool), np.zeros((ny, nx), bool)
    tie = np.zeros(n, bool)
    for i in range(n):
        p = I[i].astype(float)
        if np.isnan(p).all():
            continue
        m1, s1 = mad(p[p < thr] if thr > 0 else p)
        lim = m1 + 3 * s1
        tie[i] = np.any(np.abs(p - lim) <= 1e-5 * (abs(lim) + s1)) if np.isfinite(lim) else False
        m2, rms[i] = mad(p[p < lim])
        cut = thr if thr > 0 else m2 + abs(thr) * rms[i]
        msk |= p > cut
        near |= np.abs(p - cut) <= 1e-5 * (abs(cut) + abs(rms[i]))
    return rms, msk, near, tie


def run_case(c):
    from RMtools_3D import do_fitIcube as K
    from RMutils.util_misc import fit_StokesI_model
    from RMtools_3D.make_freq_file import get_freq_array
    r = c.rng
    cli = c.idx % 24 == 5
    layout = str(r.choice(cube.LAYOUTS))
    ny, nx = gen.image(c, [(3, 4), (4, 3), (2, 5), (1, 8), (8, 1), (5, 5), (3, 3)], .02, 9, 16)
    ffile = bool(r.random() < .5)
    n = int(r.integers(8, 30))
    f = gen.freqs(r, n, None if ffile else "uniform")
    if r.random() < .3:
        f = f[::-1].copy()
    bits = int(r.choice([32, 32, 64]))
    fn = str(r.choice(["log", "linear"]))
    order = int(r.choice([0, 1, 2, 2, 3, -1, -2, -3, 4, 5]))
    f0 = f.mean()
    amp = 10 ** r.uniform(-3, 2)
    src = r.random((ny, nx)) < .7
    T = np.zeros((n, ny, nx))
    alpha = r.uniform(-1.5, .5, (ny, nx))
    A = amp * r.uniform(.5, 3, (ny, nx)) * src
    T[:] = A * (f[:, None, None] / f0) ** alpha if fn == "log" else A * (1 + alpha * (f[:, None, None] / f0 - 1))
    sg = amp * .01 * r.uniform(.7, 1.5, n)
    I = T + sg[:, None, None] * r.normal(size=T.shape)
    if r.random() < .35:
        k = r.random(n) < .15
        if k.sum() < n - 7:
            I[k] = np.nan
            c.event("flagged_planes", int(k.any()))
    blank = np.zeros((ny, nx), bool)
    if r.random() < .25:
        blank[int(r.integers(ny)), int(r.integers(nx))] = True
        I[:, blank] = np.nan
        c.event("blank_pixels")
    part = r.random() < .25
    if part:
        m = r.random(I.shape) < .08
        m &= ~(np.isfinite(I).sum(0) < 9)[None]
        I[m] = np.nan
    d = c.tmpdir()
    unit = bool(r.random() < .7)
    h = cube.header(r, layout, f, ctype="FREQ", unit=unit)
    if "BUNIT" not in h:
        c.event("no_unit")
    path = os.path.join(d, "i.fits")
    cube.write(path, I, layout, h, bits)
    hs = sha(path)
    fp = os.path.join(d, "f.txt")
    np.savetxt(fp, f)
    D = cube.unplace(cube.read(path)[0][0], layout)
    H0 = cube.read(path)[0][1]
    mask = bool(r.random() < .55)
    thr = float(r.choice([-3, -5, -8])) if r.random() < .6 else float(amp * r.uniform(.1, 1.5))
    out = os.path.join(d, "out")
    os.makedirs(out)
    pre = str(r.choice(["", "p_", "x."]))
    verbose = bool(r.random() < .35)
    cores, chunk = int(r.integers(1, 5)), int(r.choice([1, 2, 7, 100]))
    c.label = ("cli-" if cli else "lib-") + fn + ("-dyn" if order < 0 else "")
    c.context = dict(unit=unit, layout=layout, ny=ny, nx=nx, n=n, bits=bits, fn=fn, order=order, mask=mask, thr=thr, ffile=ffile, verbose=verbose, cores=cores,
                     chunk=chunk, blank=int(blank.sum()), part=part, cli=cli)
    M, before = None, ()
    if cli:
        c.event("command_line")
        c.event("real_pools")
        a = ["do_fitIcube.py", path, "-f", fn, "-p", str(order), "-n", str(cores), "-c", str(chunk), "-t", repr(thr), "-o", pre]
        if r.random() < .5:
            a += ["-odir", out]
        else:
            out = d
            before = set(os.listdir(d))
            c.event("beside_input")
        a += ["-freqFile", fp] if ffile else []
        a += ["-m"] if mask else []
        a += ["-v"] if verbose else []
        c.event("displayed_progress", int(verbose))
        run_main(K.main, a, d)
        fused = f
    else:
        dc, hd = K.open_datacube(path)
        fused = f if ffile else get_freq_array(path)
        snap = c.snapshot(cube=np.array(dc), f=fused)
        order_ = str(r.choice(["random", "reversed"]))
        made = []
        with hooks.pools(K, lambda: (made.append(1), cleanw.ScrambledPool(c.rng, order_))[1]):
            M = K.make_model_I(datacube=dc, header=hd, freqArr_Hz=fused, polyOrd=order, prefixOut=pre, outDir=out, nBits=32, threshold=thr,
                               apply_mask=mask, num_cores=cores if r.random() < .8 else 1, chunk_size=chunk, verbose=verbose, fit_function=fn)
        c.event("scrambled", len(made))
        c.event("displayed_progress", int(verbose))
        c.same(np.array(dc), snap["cube"][1], "input-modified", "the caller's cube")
        c.unchanged(c.snapshot(f=fused))
    if mp.get_start_method(allow_none=True) not in (None, "fork"):
        mp.set_start_method("fork", force=True)
    c.check(sha(path) == hs, "input-file-altered")
    c.event("runs")
    c.event("log" if fn == "log" else "linear")
    c.event("dynamic", int(order < 0))
    judge(c, K, fit_StokesI_model, D, H0, f, fused, out, pre, order, fn, mask, thr, layout, blank, T, sg, src, M, bits, before)
    c.observed((c.seed, c.idx), c.context)


def unstable(c, fit, fused, sp, got, order, fn, W, e, wild):
    """does the single-spectrum fit itself move when its inputs are changed by their rounding?"""
    x1 = fused / W.reference_frequency_Hz
    p = np.array(W.params, float)
    for k in range(6):
        sc = 1 + 3e-6 * c.rng.uniform(-1, 1, len(got))
        V = fit(fused.astype(float), sp * (1 + 1e-7 * c.rng.uniform(-1, 1, len(sp))), got.astype(float) * sc, order, fn)
        q = np.array(V.params, float)
        if np.any(np.abs(q - p) > .01 * e + 1e-4 * np.abs(p)) or np.any(np.abs(np.array(V.perror, float) - e) > 5e-3 * e):
            return True
        m0, m1 = model(fn, p, x1)[~wild], model(fn, q, x1)[~wild]
        if np.any(np.abs(m1 - m0) > 5e-3 * np.nanmin(got) + 1e-5 * np.abs(m0)):
            return True
    return False


def judge(c, K, fit, D, H0, f, fused, out, pre, order, fn, mask, thr, layout, blank, T, sg, src, M, bits, before=()):
    n, ny, nx = D.shape
    P = lambda x: os.path.join(out, pre + x)
    want = ["mask.fits", "reffreq.fits", "covariance.fits", "model.i.fits", "noise.dat"] + \
           ["coeff%d%s.fits" % (k, e) for k in range(abs(order) + 1) for e in ("", "err")]
    have = sorted(set(os.listdir(out)) - set(before))
    if not c.check(have == sorted(pre + x for x in want), "products", lambda: "wrote %r" % have):
        return
    rms, msk, near, tie = noise(D, thr)
    got = np.atleast_1d(np.loadtxt(P("noise.dat")))
    c.event("noise_vectors")
    if not c.check(got.shape == (n,), "noise-shape", str(got.shape)):
        return
    ok = ~tie
    c.close(got[ok], rms[ok], "noise", rtol=1e-4, atol=1e-6 * np.nanmedian(sg), what="channel noise")
    mk, hm = cube.read(P("mask.fits"))[0]
    if not c.check(mk.shape == (ny, nx), "mask-shape", str(mk.shape)):
        return
    if not mask:
        c.check(np.all(mk == 1), "mask-unrequested", "mask applied without being asked for")
        sel = np.ones((ny, nx), bool)
    else:
        sel = mk == 1
        c.event("masks")
        c.check(np.all(sel | np.isnan(mk)), "mask-values", lambda: repr(np.unique(mk)))
        if not tie.any():
            bad = (sel != msk) & ~near
            c.check(not bad.any(), "mask", lambda: "mask differs from the threshold at %r" % (np.argwhere(bad)[:4].tolist(),))
    R, C, E = {}, {}, {}
    ref, hr = cube.read(P("reffreq.fits"))[0]
    cov = cube.read(P("covariance.fits"))[0][0]
    mod, hmod = cube.read(P("model.i.fits"))[0]
    for k in range(abs(order) + 1):
        C[k] = cube.read(P("coeff%d.fits" % k))[0][0]
        E[k] = cube.read(P("coeff%derr.fits" % k))[0][0]
    if not c.check(ref.shape == (ny, nx) and all(x.shape == (ny, nx) for x in list(C.values()) + list(E.values())) and cov.shape == (6, 6, ny, nx)
                   and mod.shape == (n, ny, nx), "map-shapes", lambda: repr((ref.shape, cov.shape, mod.shape, C[0].shape))):
        return
    if M is not None:
        c.same(np.array(M, float), np.array(mod, float), "returned-model", "returned model cube and the file")
    # geometry
    s0 = cube.sky_of(H0, nx, ny)
    for nm, hh in (("coefficient", cube.read(P("coeff0.fits"))[0][1]), ("model", hmod), ("mask", hm), ("reffreq", hr)):
        c.close(cube.sky_of(hh, nx, ny), s0, "sky", rtol=0, atol=1e-8, what="sky of the %s product" % nm)
        c.event("sky_kept")
    fa = cube.find(hmod, "FREQ")
    if c.check(fa == 3, "model-axes", "frequency axis of the model cube: %d" % fa):
        f0 = cube.lin(H0, cube.find(H0, "FREQ"))
        c.close(cube.lin(hmod, 3), f0, "model-axes", rtol=1e-10, what="frequencies in the model cube's header")
    hc = cube.read(P("coeff0.fits"))[0][1]
    hist = [str(x) for x in hc.get("HISTORY", [])]
    c.check(any("%s-polynomial" % fn in x for x in hist), "history", lambda: "HISTORY %r" % hist)
    allc = np.full((6, ny, nx), 0.0)
    for k in C:
        allc[5 - k] = C[k]
    for y in range(ny):
        for x in range(nx):
            if not sel[y, x]:
                c.event("pixels_masked")
                v = [C[k][y, x] for k in C] + [E[k][y, x] for k in E] + [ref[y, x]] + list(mod[:, y, x]) + list(cov[:, :, y, x].ravel())
                c.check(np.all(np.isnan(v)), "masked-pixel", lambda: "pixel (%d,%d) is outside the mask but has products %r" % (y, x, v[:6]))
                continue
            sp = D[:, y, x]
            usable = np.isfinite(sp) & np.isfinite(got)
            if usable.sum() == 0:
                c.check(np.all(np.isnan(mod[:, y, x])) and np.isnan(C[0][y, x]), "blank-pixel", lambda: "blank pixel has model %r" % (mod[:, y, x],))
                continue
            if usable.sum() <= abs(order) + 1:
                continue
            c.event("pixels_fitted")
            W = fit(fused.astype(float), sp, got.astype(float), order, fn)
            p, e = np.array(W.params, float), np.array(W.perror, float)
            g = allc[:, y, x]
            x1 = fused / W.reference_frequency_Hz
            mw = model(fn, p, x1)
            # high orders are close to degenerate: the minimiser may stop anywhere in a flat valley
            flat = abs(order) >= 4
            atol = (1.0 if flat else 2e-2) * got[np.isfinite(got)].min() + 2e-6 * np.abs(mw).max()
            c.close(ref[y, x], W.reference_frequency_Hz, "reference-frequency", rtol=1e-6, what="reference frequency at (%d,%d)" % (y, x))
            # a fit may run away between usable channels
            wild = np.abs(mw) > 1e3 * np.nanmax(np.abs(sp))
            mw = np.where(wild, 0, mw)
            mo = np.where(wild, 0, mod[:, y, x])
            atol += 1e-6 * np.abs(g).sum()
            ge = np.zeros(6)
            for k in E:
                ge[5 - k] = E[k][y, x]
            todo = [("pixel-model", mo, mw, 1e-4, atol, "model")]
            if not flat:
                todo += [("pixel-coefficients", g, p, 1e-3, .05 * e + 1e-6 * np.abs(p).max(), "coefficients"),
                         ("pixel-errors", ge, e, 2e-2, 1e-6 * np.abs(e).max(), "errors")]
                if W.pcov is not None:
                    V = np.array(W.pcov, float)
                    sgm = np.sqrt(np.abs(np.diag(V)))
                    todo.append(("pixel-covariance", cov[:, :, y, x], V, 2e-2, 2e-2 * np.outer(sgm, sgm) + 1e-30, "covariance"))
            if not all(np.allclose(a, b, rtol=rt, atol=at, equal_nan=True) if np.ndim(at) == 0 else
                       np.all((np.abs(np.asarray(a, float) - b) <= at + rt * np.abs(b)) | (np.isnan(a) & np.isnan(b))) for _, a, b, rt, at, _ in todo) \
                    and unstable(c, fit, fused, sp, got, order, fn, W, e, wild):
                # where rounding of the noise moves the fit itself, there is no one answer to compare with
                c.event("ill_conditioned")
                continue
            for key, a, b, rt, at, nm in todo:
                c.close(a, b, key, rtol=rt, atol=at, what="%s of pixel (%d,%d)" % (nm, y, x))
            # the maps alone give the model product
            c.event("model_from_maps")
            with np.errstate(all="ignore"):
                m2 = np.where(wild, 0, model(fn, g, fused / float(ref[y, x])))
            c.close(m2, mo, "model-from-maps", rtol=1e-4, atol=1e-4 * np.abs(mw).max() + 1e-6 * np.abs(g).sum(), what="model from the maps at (%d,%d)" % (y, x))
            if src[y, x] and 1 <= order <= 3 and usable.sum() > 8 and W.fitStatus % 64 in (1, 2, 3, 4):
                c.event("truth_recovered")
                dev = np.abs(mod[usable, y, x] - T[usable, y, x]) / (np.nanmax(sg) * 8 + .1 * np.abs(T[usable, y, x]))
                c.check(np.median(dev) < 1, "truth", lambda: "model of pixel (%d,%d) is far from its source: %r vs %r" % (y, x, mod[:3, y, x], T[:3, y, x]))
