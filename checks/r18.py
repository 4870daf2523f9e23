"""R18: rescaled Stokes I coefficient maps describe the same spectra, with propagated errors."""
import os
import numpy as np
import astropy.io.fits as pf
from rvm import gen, cube, cleanw, hooks
from checks.r06 import model
from checks.r09 import run_main, sha

CASES = {"quick": 1100, "thorough": 16000}
RULE = ("coefficient, error, covariance and reference-frequency maps (random, or written by the fitting tool) x order x form x blank pixels x target "
        "(given, from a synthesis product, or unspecified) x worker count x shape; by the command-line tool and by the library; distinct by draw")
# depends on how the tool asks for its workers: reported, not required
SOFT_EVENTS = {"scrambled"}
MIN_EVENTS = {"runs": 1000, "pixels_rescaled": 8000, "pixels_blank": 700, "errors_compared": 6000, "to_given": 120, "to_product": 100, "to_mean": 100,
              "per_pixel_targets": 150, "worker_counts": 600, "scrambled": 150, "log": 400, "linear": 400, "from_fitting_tool": 15, "files_unchanged": 3000,
              "zero_planes": 20, "overwrite_guard": 30}
ASSUMPTIONS = ["single-precision maps: parameters agree to single precision, errors to the single-precision cancellation of their propagation"]
CASE_LIMIT = {"quick": 150, "thorough": 200}


def jac(fn, p, x):
    """d new / d old, parameters highest order first, by exact differentiation of the change of variable"""
    J = np.zeros((6, 6))
    if fn == "linear":
        return np.diag([x ** k for k in range(5, -1, -1)])
    L = np.log10(x)
    from math import comb
    # exponent polynomial: sum_k c_k t^k, k = 5..1, t = L_new + L ; constant term goes into the amplitude
    for j in range(5):            # new coefficient of power kj = 5 - j
        kj = 5 - j
        for i in range(5):
            ki = 5 - i
            if ki >= kj:
                J[j, i] = comb(ki, kj) * L ** (ki - kj)
    s = sum(p[i] * L ** (5 - i) for i in range(5))
    for i in range(5):
        J[5, i] = p[5] * 10 ** s * np.log(10) * L ** (5 - i)
    J[5, 5] = 10 ** s
    return J


def transform(fn, p, x):
    if fn == "linear":
        return np.array([p[i] * x ** (5 - i) for i in range(6)])
    J = jac(fn, p, x)
    q = J @ np.array(list(p[:5]) + [0.0])
    L = np.log10(x)
    q[5] = p[5] * 10 ** sum(p[i] * L ** (5 - i) for i in range(5))
    return q


def run_case(c):
    from RMtools_3D import rescale_I_model_3D as K
    r = c.rng
    if c.idx % 40 == 7:
        return fitted(c, K)
    fn = str(r.choice(["log", "linear"]))
    order = int(r.integers(0, 6))
    ny, nx = gen.image(c, [(3, 4), (4, 3), (2, 6), (1, 5), (5, 1), (1, 1), (9, 13)], .015, 16, 36)
    C = np.zeros((6, ny, nx))
    amp = 10 ** r.uniform(-4, 2)
    C[5] = amp * r.uniform(.3, 3, (ny, nx)) * np.where(r.random((ny, nx)) < .15, -1, 1)
    for k in range(1, order + 1):
        C[5 - k] = (amp if fn == "linear" else 1) * r.normal(size=(ny, nx))
    dyn = r.random() < .3
    if dyn:
        for k in range(2, order + 1):
            C[5 - k][r.random((ny, nx)) < .4] = 0
    if order >= 2 and not dyn and r.random() < .15:
        z = int(r.integers(1, order))
        C[5 - z] = 0
        if fn == "linear":
            c.event("zero_planes")
    V = np.zeros((6, 6, ny, nx))
    for y in range(ny):
        for x in range(nx):
            A = r.normal(size=(order + 1, order + 1)) * .05
            B = A @ A.T
            sc = np.array([(amp if fn == "linear" or k == 0 else 1) for k in range(order, -1, -1)])
            V[5 - order:, 5 - order:, y, x] = B * np.outer(sc, sc)
    if dyn:                      # a parameter the pixel's order does not have has no covariance
        for k in range(2, order + 1):
            z0 = C[5 - k] == 0
            V[5 - k][:, z0] = 0
            V[:, 5 - k, z0] = 0
    ref = np.full((ny, nx), 1.2e9) * (1 + .02 * r.normal(size=(ny, nx)) * (r.random() < .5))
    blank = r.random((ny, nx)) < (.2 if r.random() < .6 else 0)
    if blank.all():
        blank[:] = False
    C[:, blank] = np.nan
    V[:, :, blank] = np.nan
    ref[blank] = np.nan
    bits = "float32" if r.random() < .8 else "float64"
    C, V, ref = C.astype(bits), V.astype(bits), ref.astype(bits)
    if (C[:, ~blank] == 0).all():
        return
    # the order found in the maps decides which files exist
    lib = r.random() < .45
    c.label = ("lib-" if lib else "cli-") + fn
    c.context = dict(fn=fn, order=order, ny=ny, nx=nx, dyn=dyn, bits=bits, blank=int(blank.sum()), lib=lib)
    cores = int(r.integers(1, 5))
    if lib:
        kind = str(r.choice(["pixel", "common"]))
        new = ref * (1 + r.uniform(-.3, .4, (ny, nx))) if kind == "pixel" else np.full((ny, nx), 1.2e9 * (1 + r.uniform(-.3, .4)))
        new = new.astype(bits)
        if kind == "pixel":
            c.event("per_pixel_targets")
        snap = c.snapshot(V=V, ref=ref, new=new, C=C)
        scr = r.random() < .5
        if scr:
            with hooks.pools(K, lambda: (c.event("scrambled"), cleanw.ScrambledPool(r, "random"))[1]):
                nf, nc, ne = K.rescale_I_model_3D(V, ref, new, C, fn, num_cores=cores)
        else:
            c.event("worker_counts")
            nf, nc, ne = K.rescale_I_model_3D(V, ref, new, C, fn, num_cores=cores)
        c.unchanged(snap)
        c.same(np.asarray(nf), new, "returned-frequency", "returned reference frequencies")
        c.event("runs")
        judge(c, fn, C, V, ref, np.asarray(new, float), np.asarray(nc), np.asarray(ne), bits, amp)
        c.observed((c.seed, c.idx), c.context)
        return
    d = c.tmpdir()
    base = os.path.join(d, str(r.choice(["", "p_", "x.", "coeff_"])))
    h = cube.header(r, "3", np.array([1e9, 1.1e9]))
    from RMutils.util_misc import remove_header_third_fourth_axis
    h2 = pf.Header()
    for k in h:
        if k[-1:] in "12" or k in ("EQUINOX", "OBJECT", "BMAJ"):
            h2[k] = h[k]
    h2["HISTORY"] = "Stokes I model fitted by RM-Tools"
    h2["HISTORY"] = ("Fit model is dynamic order %s-polynomial, max order %d" % (fn, order)) if dyn else "Fit model is %d-order %s-polynomial" % (order, fn)
    for k in range(order + 1):
        pf.writeto(base + "coeff%d.fits" % k, C[5 - k], h2)
        E = np.sqrt(np.abs(V[5 - k, 5 - k]))
        pf.writeto(base + "coeff%derr.fits" % k, E, h2)
    h3 = h2.copy()
    h3["BUNIT"] = "Hz"
    pf.writeto(base + "reffreq.fits", ref, h3)
    pf.writeto(base + "covariance.fits", V, h2)
    hs = {x: sha(os.path.join(d, x)) for x in os.listdir(d)}
    a = ["rescale", base + "covariance.fits", "-n", str(cores)]
    c.event("worker_counts")
    kind = str(r.choice(["given", "product", "mean"]))
    if kind == "given":
        new = float("%.9g" % (1.2e9 * (1 + r.uniform(-.3, .4))))
        a += ["-f", repr(new)]
    elif kind == "product":
        l0 = float((gen.C / (1.2e9 * (1 + r.uniform(-.2, .3)))) ** 2)
        fdf = pf.PrimaryHDU(np.zeros((3, 2, 2), "float32"))
        fdf.header["LAMSQ0"] = l0
        fdf.writeto(os.path.join(d, "FDF_tot.fits"))
        new = gen.C / np.sqrt(fdf.header["LAMSQ0"])
        a += ["-l", os.path.join(d, "FDF_tot.fits")]
    else:
        new = float(np.nanmean(ref.astype(float)))
    c.event("to_" + kind)
    outp = base
    if r.random() < .5:
        os.makedirs(os.path.join(d, "o"))
        outp = os.path.join(d, "o", "q_")
        a += ["-o", outp]
    guard = r.random() < .1
    if guard:
        pf.writeto(outp + "newcoeff0.fits", np.full((2, 2), 7.0))
        a += ["-w"]
        c.event("overwrite_guard")
    c.context.update(kind=kind, new=new, args=a[2:])
    run_main(K.command_line, a, d)
    c.event("runs")
    for x, v in hs.items():
        c.event("files_unchanged")
        c.check(sha(os.path.join(d, x)) == v, "input-file-altered", x)
    nc, ne = np.zeros((6, ny, nx)), np.zeros((6, ny, nx))
    top = max(k for k in range(6) if np.any(np.nan_to_num(C[5 - k].astype(float)) != 0))
    for k in range(6):
        ex = [os.path.exists(outp + "newcoeff%d%s.fits" % (k, e)) for e in ("", "err")]
        c.check(ex == [k <= top] * 2 or (ex == [True, True] and k <= order), "products", lambda: "order %d: files for coefficient %d exist: %r" % (top, k, ex))
        if not all(ex):
            if blank.any():
                nc[5 - k, blank] = ne[5 - k, blank] = np.nan
            continue
        for dst, e in ((nc, ""), (ne, "err")):
            q, hq = cube.read(outp + "newcoeff%d%s.fits" % (k, e))[0]
            if not c.check(q.shape == (ny, nx), "map-shape", str(q.shape)):
                return
            dst[5 - k] = q
            c.close(float(hq.get("REFFREQ", np.nan)), new, "reference-in-header", rtol=3e-7, what="REFFREQ")
            c.close(cube.sky_of(hq, nx, ny), cube.sky_of(cube.read(base + "reffreq.fits")[0][1], nx, ny), "sky", rtol=0, atol=1e-9, what="sky")
    judge(c, fn, C, V, ref, np.full((ny, nx), new), nc, ne, bits, amp)
    c.observed((c.seed, c.idx), c.context)


def judge(c, fn, C, V, ref, new, nc, ne, bits, amp, order=5):
    eps = 3e-7 if bits == "float32" else 1e-12
    ny, nx = ref.shape
    if not c.check(nc.shape == C.shape and ne.shape == C.shape, "shape", "%s %s" % (nc.shape, ne.shape)):
        return
    for y in range(ny):
        for x in range(nx):
            p, q = C[:, y, x].astype(float), nc[:, y, x].astype(float)
            if np.isnan(p).any():
                c.event("pixels_blank")
                c.check(np.isnan(q[5]) and np.all(np.isnan(q) | (q == 0)), "blank-pixel", lambda: "blank pixel (%d,%d) became %r" % (y, x, q))
                continue
            c.event("pixels_rescaled")
            c.event(fn)
            R, N = float(ref[y, x]), float(new[y, x])
            xr = N / R
            w = transform(fn, p, xr)
            J = jac(fn, p, xr)
            # rounding of the frequency ratio and of the stored coefficients
            tol = 4 * eps * (np.abs(J) @ np.abs(p) + np.abs(p)) + 8 * eps * np.abs(w)
            if fn == "log":
                tol[5] = np.abs(w[5]) * eps * 40 * (1 + np.abs(p[:5]).sum())
                tol[:5] += 12 * eps * np.abs(p[:5]).sum()
            c.close(q, w, "coefficients", rtol=0, atol=tol, what="coefficients of pixel (%d,%d)" % (y, x))
            f = R * np.linspace(.75, 1.4, 9)
            m0, m1 = model(fn, p, f / R), model(fn, q, f / N)
            at = 30 * eps * np.abs(q) @ np.array([(1.8 / .7) ** k for k in range(5, -1, -1)]) if fn == "linear" else np.abs(m0) * eps * 60 * (1 + np.abs(q[:5]).sum() + np.abs(p[:5]).sum())
            c.close(m1, m0, "spectrum", rtol=0, atol=at, what="model spectrum of pixel (%d,%d)" % (y, x))
            cv = V[:, :, y, x].astype(float)
            if np.isnan(cv).any():
                continue
            var = np.diag(J @ cv @ J.T)
            mag = np.diag(np.abs(J) @ np.abs(cv) @ np.abs(J).T)
            Ja, Jb = jac(fn, p, xr * (1 + 2 * eps)), jac(fn, p, xr * (1 - 2 * eps))
            slack = np.abs(np.diag(Ja @ cv @ Ja.T) - np.diag(Jb @ cv @ Jb.T))      # rounding of the frequency ratio
            c.event("errors_compared")
            e2 = ne[:, y, x].astype(float) ** 2
            # a variance that is rounding noise around zero may come out as not-a-number
            solid = var > 60 * eps * mag
            c.close(e2[solid], var[solid], "errors", rtol=1e-5, atol=(60 * eps * mag + slack)[solid], what="squared errors of pixel (%d,%d)" % (y, x))


def fitted(c, K):
    """maps written by the fitting tool itself"""
    from RMtools_3D import do_fitIcube as FI
    r = c.rng
    fn = str(r.choice(["log", "linear"]))
    order = int(r.choice([1, 2, 3, -2]))
    n, ny, nx = 16, 2, 3
    f = np.linspace(1e9, 1.4e9, n)
    I = (r.uniform(1, 3, (1, ny, nx)) * (f[:, None, None] / 1.2e9) ** r.uniform(-1, 0, (1, ny, nx)) + .02 * r.normal(size=(n, ny, nx))).astype("float32")
    d = c.tmpdir()
    h = cube.header(r, "3", f, ctype="FREQ")
    cube.write(os.path.join(d, "i.fits"), I, "3", h)
    np.savetxt(os.path.join(d, "f.txt"), f)
    with hooks.pools(FI, lambda: cleanw.ScrambledPool(r, "random")):
        run_main(FI.main, ["fit", os.path.join(d, "i.fits"), "-f", fn, "-p", str(order), "-odir", d, "-o", "t_", "-v", "-freqFile", os.path.join(d, "f.txt")], d)
    c.label = "fitted-" + fn
    new = 1.2e9 * (1 + r.uniform(-.1, .15))
    c.context = dict(fn=fn, order=order, new=new)
    b = os.path.join(d, "t_")
    run_main(K.command_line, ["rescale", b + "covariance.fits", "-f", repr(new), "-n", "2"], d)
    c.event("runs")
    c.event("from_fitting_tool")
    M = cube.read(b + "model.i.fits")[0][0].astype(float)
    q = np.zeros((6, ny, nx))
    for k in range(6):
        if os.path.exists(b + "newcoeff%d.fits" % k):
            q[5 - k] = cube.read(b + "newcoeff%d.fits" % k)[0][0]
    for y in range(ny):
        for x in range(nx):
            m = model(fn, q[:, y, x], f / new)
            c.close(m, M[:, y, x], "spectrum", rtol=3e-5, atol=3e-6 * np.abs(q[:, y, x]).sum(), what="model spectrum of pixel (%d,%d)" % (y, x))
    c.observed((c.seed, c.idx), c.context)
