"""R19: maps of the 3D peak-fitting tool against the measurement of each pixel on its own."""
import os
import numpy as np
import astropy.io.fits as pf
from rvm import gen, ref, cube, cleanw
from checks.r09 import run_main, sha
from checks import r05

CASES = {"quick": 700, "thorough": 10000}
RULE = ("dispersion-function cubes (hand made, or written by the synthesis and cleaning tools) x layout x image shape (two-axis and degenerate included) x "
        "blank pixels x own widths x noise given or not x weighting x Stokes I cube x product list x output location; distinct by draw")
MIN_EVENTS = {"runs": 380, "maps_compared": 4500, "pixels_compared": 2500, "pixels_blank": 250, "with_noise": 200, "noise_measured": 100, "with_I": 120, "super_resolution": 20, "negative_I": 20,
              "descending": 100, "degenerate_images": 120, "two_axis": 30, "four_axis": 120, "all_products": 100, "peak_products": 100, "from_tools": 20,
              "oracle_pixels": 1000, "files_unchanged": 1200, "new_directory": 20, "flagged_noise": 40}
ASSUMPTIONS = ["measure_FDF_parms on one spectrum is decided by R05", "cubes and maps are single precision"]
CASE_LIMIT = {"quick": 150, "thorough": 200}
PEAK = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]
DEFAULT = PEAK[:6] + ["peakFDFimagFit", "peakFDFrealFit", "Ifreq0", "lam0Sq_m2", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]
ALL = ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "indxPeakPIfit",
       "peakFDFimagFit", "peakFDFrealFit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg", "Ifreq0", "dFDFth",
       "lam0Sq_m2", "freq0_Hz", "fwhmRMSF", "min_freq", "max_freq", "N_channels", "median_channel_width", "fracPol"]
UNIT = {k: "flux" for k in ["dFDFcorMAD", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "peakFDFimagFit", "peakFDFrealFit", "Ifreq0", "dFDFth"]}
UNIT.update({k: "rad/m^2" for k in ["phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "fwhmRMSF"]})
UNIT.update({k: "deg" for k in ["polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg", "dPolAngle0Fit_deg"]})
UNIT.update({k: "Hz" for k in ["freq0_Hz", "min_freq", "max_freq", "median_channel_width"]})
UNIT["lam0Sq_m2"] = "m^2"
CL = 299792458.0


def quiet(*a, **k):
    pass


def write_fdf(path, a, layout, h, phi, two=False):
    h = h.copy()
    fa = 2 if two else 4 if layout == "4s3" else 3
    k = len(phi) // 2
    if two:
        for x in list(h):
            if x[-1:] in "34" or x in ("CTYPE2", "CRVAL2", "CRPIX2", "CDELT2", "CUNIT2"):
                h.remove(x, ignore_missing=True)
    h["CTYPE%d" % fa], h["CUNIT%d" % fa] = "FDEP", "rad/m^2"
    h["CRPIX%d" % fa], h["CRVAL%d" % fa] = k + 1.0, float(phi[k])
    h["CDELT%d" % fa] = float(phi[1] - phi[0])
    if two:
        pf.writeto(path, a[:, 0].astype("float32"), h, overwrite=True)
    else:
        cube.write(path, a, layout, h)


def run_case(c):
    from RMtools_3D import RMpeakfit_3D as K
    from RMutils.util_RM import measure_FDF_parms, fits_make_lin_axis
    r = c.rng
    c.single = True
    layout = str(r.choice(cube.LAYOUTS))
    ny, nx = gen.image(c, [(2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (1, 1), (2, 5)], .02, 8, 13)
    two = ny == 1 and r.random() < .5
    if two:
        layout = "3"
        c.event("two_axis")
    if layout != "3":
        c.event("four_axis")
    if 1 in (ny, nx):
        c.event("degenerate_images")
    f = np.asarray(gen.freqs(r), float)
    if len(f) < 5:
        return
    if len(f) > 60:
        f = f[np.sort(r.choice(len(f), 60, replace=False))]
    if r.random() < .3:
        f = f[::-1].copy()
    if f[0] > f[-1]:
        c.event("descending")
    l2 = gen.lam2(f)
    lam0 = float(np.mean(l2) * r.uniform(.97, 1.03)) if r.random() > .1 else 0.0
    fw = gen.fwhm_of(l2)
    tools = c.idx % 25 == 11 and not two
    d = c.tmpdir()
    if r.random() < .3:
        d = os.path.join(d, str(r.choice(["im_real", "my_image", "a_tot_b", "FDF_clean_im"])))
        os.makedirs(d)
    pre = str(r.choice(["", "p_", "src_im_", "x_real.", "n_tot_"]))
    kind = str(r.choice(["dirty", "clean"]))
    P = lambda x: os.path.join(d, pre + x)
    nm = (lambda x: P("FDF_%s_dirty.fits" % x)) if kind == "dirty" else (lambda x: P("FDF_clean_%s.fits" % x))
    blank = r.random((ny, nx)) < (.25 if r.random() < .6 else 0)
    if tools:
        if not make_with_tools(c, d, pre, kind, layout, ny, nx, f, l2, blank):
            return
    else:
        n = int(r.integers(12, 90))
        dphi = fw / r.uniform(2.5, 10)
        off = 0 if r.random() < .7 else r.uniform(-1.5, 1.5) * n * dphi
        phi = (np.arange(n) - n // 2) * dphi + off
        amp = 10 ** r.uniform(-5, 2)
        F = amp * .1 * (r.normal(size=(n, ny, nx)) + 1j * r.normal(size=(n, ny, nx)))
        for y, x in np.ndindex(ny, nx):
            for _ in range(int(r.integers(0, 3))):
                F[:, y, x] += amp * r.uniform(.2, 3) * np.exp(2j * r.uniform(0, 3.15)) * ref.gaussian(phi, r.uniform(phi[0], phi[-1]), fw)
            if r.random() < .1:
                F[:, y, x] += amp * 5 * np.exp((phi - phi[-1]) / dphi / 6)
        F[:, blank] = np.nan
        h = cube.header(r, layout, np.array([1e9, 1.1e9]))
        for k in ("DATAMAX", "DATAMIN"):
            h.remove(k, ignore_missing=True)
        h["LAMSQ0"] = lam0
        for x, a in (("real", F.real), ("im", F.imag), ("tot", np.abs(F))):
            write_fdf(nm(x), a, layout, h, phi, two)
        wid = (fw * r.uniform(.9, 1.1, (ny, nx))).astype("float32")
        h2 = pf.Header()
        for k in h:
            if k[-1:] in "12" or k in ("BUNIT", "EQUINOX"):
                h2[k] = h[k]
        pf.writeto(P("RMSF_FWHM.fits"), wid[0] if two else wid if r.random() < .7 else wid[None], h2, overwrite=True)
    # what is in the files
    Dr, H = cube.read(nm("real"))[0]
    Di = cube.read(nm("im"))[0][0]
    fa = cube.find(H, "FDEP")
    phi = fits_make_lin_axis(H, axis=fa - 1)
    phi8 = cube.lin(H, fa)
    F = (Dr + 1j * Di).astype("complex64")
    F = F[:, None] if two else cube.unplace(F, layout)
    wid = cube.read(P("RMSF_FWHM.fits"))[0][0].astype("float32").reshape(ny, nx)
    lam0 = H["LAMSQ0"]
    sky0 = None if two else cube.sky_of(H, nx, ny)
    ff = os.path.join(c.tmpdir(), "f.txt")
    np.savetxt(ff, f, fmt="%.18e")
    argv = ["peakfit", nm(str(r.choice(["tot", "real", "im"]))), ff]
    out = c.tmpdir()
    loc = int(r.integers(4))
    name = ["m_", os.path.join(out, "m_"), "new/m_", os.path.join(out, "new", "")][loc]
    c.event("new_directory", loc >= 2)
    argv.append(name)
    pl = int(r.integers(3))
    if pl == 1:
        argv.append("-a")
        c.event("all_products")
    elif pl == 2:
        argv.append("-p")
        c.event("peak_products")
    names = [DEFAULT, ALL, PEAK][pl]
    I0 = np.ones((ny, nx))
    if lam0 == 0:
        c.event("super_resolution")
    f0 = CL / np.sqrt(lam0) if lam0 > 0 else float(np.mean(f))
    useI = r.random() < .35
    if useI:
        c.event("with_I")
        slope = r.uniform(-1.5, 1, (ny, nx))
        I = 10 ** r.uniform(-2, 1) * r.uniform(.5, 2, (ny, nx)) * (f[:, None, None] / f.mean()) ** slope
        I[:, r.random((ny, nx)) < .08] = np.nan
        if r.random() < .4:
            neg = r.random((ny, nx)) < .2
            I[:, neg] *= -1
            c.event("negative_I", int(neg.any()))
        I = I.astype("float32")
        hi = cube.header(r, layout, f)
        ip = os.path.join(d, "I.fits")
        cube.write(ip, I, layout, hi)
        argv += ["-i", ip]
        # the frequencies as the tool has them, bracketing the reference frequency
        o = np.argsort(f)
        up = min(max(int(np.searchsorted(f[o], f0)), 1), len(f) - 1)
        a, b = o[up - 1], o[up]
        t = (f0 - f[a]) / (f[b] - f[a])
        I0 = (1 - t) * I[a].astype(float) + t * I[b].astype(float)
    dF = None
    w = str(r.choice(["uniform", "variance"]))
    if r.random() < .6:
        c.event("with_noise")
        sg = 10 ** r.uniform(-5, 0) * r.uniform(.5, 2, len(f))
        if r.random() < .4:
            sg[r.random(len(f)) < .2] = np.nan
            c.event("flagged_noise")
            if np.isnan(sg).all():
                return
        np_ = os.path.join(d, "n.txt")
        np.savetxt(np_, sg, fmt="%.18e")
        argv += ["-n", np_]
        if w == "variance" or r.random() < .3:
            argv += ["-w", w]
        else:
            w = "uniform"
        wt = np.where(np.isnan(sg), 0, 1.0 if w == "uniform" else 1 / sg ** 2)
        dF = np.abs(I0) * np.sqrt(np.nansum(wt ** 2 * sg ** 2)) / wt.sum()
    else:
        c.event("noise_measured")
    c.label = layout + ("-two" if two else "")
    c.context = dict(layout=layout, two=two, image=(ny, nx), nphi=len(phi), argv=[os.path.basename(x) for x in argv[1:]], dir=os.path.basename(d), prefix=pre,
                     noise=dF is not None, I=useI, descending=bool(f[0] > f[-1]))
    hs = {x: sha(os.path.join(d, x)) for x in os.listdir(d) if os.path.isfile(os.path.join(d, x))}
    run_main(K.main, argv, out, local=os.path.isabs(name))
    c.event("runs")
    for x in hs:
        c.check(sha(os.path.join(d, x)) == hs[x], "input-file-modified", x)
        c.event("files_unchanged")
    base = name if os.path.isabs(name) else os.path.join(out, name)
    wantf = {os.path.basename(base + k + ".fits") for k in names}
    gotf = set(os.listdir(os.path.dirname(base) if not base.endswith(os.sep) else base))
    c.check({x for x in gotf if x.endswith(".fits")} == wantf, "map-files", lambda: "%s, expected %s" % (sorted(gotf), sorted(wantf)))
    # expected
    E, T = {k: np.full((ny, nx), np.nan) for k in ALL}, {k: np.zeros((ny, nx)) for k in ALL}
    fl = CL / np.sqrt((CL / f) ** 2)
    for y, x in np.ndindex(ny, nx):
        s = F[:, y, x]
        if not np.isfinite(s).any():
            c.event("pixels_blank")
            continue
        c.event("pixels_compared")
        res = []
        for ax in (phi, phi8):
            with np.errstate(all="ignore"):
                m = measure_FDF_parms(s.copy(), ax, wid[y, x], dFDF=None if dF is None else dF[y, x], lamSqArr_m2=(CL / f) ** 2, lam0Sq=lam0, snrDoBiasCorrect=5.0)
            m = dict(m, lam0Sq_m2=lam0, freq0_Hz=f0, fwhmRMSF=wid[y, x], Ifreq0=I0[y, x], min_freq=fl.min(), max_freq=fl.max(), N_channels=len(f),
                     median_channel_width=np.median(np.abs(np.diff(fl))), dFDFth=np.nan if dF is None else dF[y, x])
            m["fracPol"] = (np.nan if m["ampPeakPIfitEff"] is None else m["ampPeakPIfitEff"]) / I0[y, x]
            res.append({k: np.nan if m[k] is None else float(m[k]) for k in ALL})
        dp = abs(phi8[1] - phi8[0])
        top = np.nanmax(np.abs(s))
        for k in ALL:
            a, b = res[0][k], res[1][k]
            E[k][y, x] = a
            atol = 2e-5 * {"phiPeakPIfit_rm2": dp + abs(phi8).max() * .1, "indxPeakPIfit": 1 + abs(phi8).max() / dp * .1, "peakFDFimagFit": top,
                           "peakFDFrealFit": top}.get(k, 0)
            T[k][y, x] = 5 * (abs(a - b) if a == a and b == b else 0) + 3e-6 * abs(a) + atol
            if k in ("polAngleFit_deg", "polAngle0Fit_deg"):
                T[k][y, x] += 5e-3
        # and the independent measurement, where it is well conditioned
        if np.isfinite(res[0]["ampPeakPIfit"]) and np.isfinite(s).all():
            o = r05.oracle(s, phi8, float(wid[y, x]), None if dF is None else dF[y, x], (CL / f) ** 2, lam0, 5.0)
            if not o["outside"] and o["curv"] > 1e-3 * top and abs(phi8).max() < 300 * dp:
                c.event("oracle_pixels")
                c.close(res[1]["phiPeakPIfit_rm2"], o["phiPeakPIfit_rm2"], "independent-depth", rtol=0, atol=.02 * dp, what="pixel %s" % ((y, x),))
    for k in names:
        p = base + k + ".fits"
        if not os.path.exists(p):
            continue
        g, hh = cube.read(p)[0]
        c.event("maps_compared")
        if not c.check(g.dtype.kind == "f" and g.shape == (ny, nx), "map-shape", lambda: "%s: %s %s, image is %s" % (k, g.dtype, g.shape, (ny, nx))):
            continue
        want = E[k]
        if k in ("polAngleFit_deg", "polAngle0Fit_deg"):      # compare as angles
            dlt = (g - want + 90) % 180 - 90
            ok = np.isfinite(want)
            # an angle of a vanishing vector is undetermined
            if not c.check((np.isfinite(g) == ok).all(), "map-" + k, lambda: "blank where %s, expected where %s" % (np.argwhere(~np.isfinite(g)).tolist(), np.argwhere(~ok).tolist())):
                continue
            c.close(np.where(ok, dlt, 0), np.zeros_like(want), "map-" + k, atol=np.where(ok, T[k], 1), what=k)
            c.check(((g[ok] >= -1e-4) & (g[ok] <= 180.0001)).all(), "map-" + k, "angle outside [0, 180)")
        else:
            c.close(g.astype(float), want, "map-" + k, rtol=1e-6, atol=np.nan_to_num(T[k]), what=k)
        u = UNIT.get(k, "")
        u = H.get("BUNIT", "") if u == "flux" else u
        c.check(hh.get("BUNIT", "") == u, "map-unit", lambda: "%s is in %r, expected %r" % (k, hh.get("BUNIT"), u))
        if sky0 is not None:
            c.close(np.asarray(cube.sky_of(hh, nx, ny)), np.asarray(sky0), "map-sky", rtol=0, atol=1e-9, what=k)
            c.check(hh["NAXIS"] == 2, "map-axes", k)
        for q in ("OBJECT", "EQUINOX", "BMAJ"):
            if q in H:
                c.check(hh.get(q) == H[q], "map-header", lambda: "%s lost from %s" % (q, k))
    c.observed((c.seed, c.idx), c.context)


def make_with_tools(c, d, pre, kind, layout, ny, nx, f, l2, blank):
    from RMtools_3D import do_RMsynth_3D as S, do_RMclean_3D as Q
    r = c.rng
    c.event("from_tools")
    n = len(f)
    h = cube.header(r, layout, f)
    Pq = np.zeros((n, ny, nx), complex)
    fw = gen.fwhm_of(l2)
    for y, x in np.ndindex(ny, nx):
        Pq[:, y, x] = gen.thin(l2, r.uniform(-3, 3) * fw, r.uniform(.5, 2), r.uniform(0, 180))
    Pq += .05 * (r.normal(size=Pq.shape) + 1j * r.normal(size=Pq.shape))
    Pq[:, blank] = np.nan
    cube.write(os.path.join(d, "q.fits"), Pq.real, layout, h, stokes=2)
    cube.write(os.path.join(d, "u.fits"), Pq.imag, layout, h, stokes=3)
    np.savetxt(os.path.join(d, "fr.txt"), f, fmt="%.18e")
    run_main(S.main, ["rmsynth3d", os.path.join(d, "q.fits"), os.path.join(d, "u.fits"), os.path.join(d, "fr.txt"), "-o", pre, "-l", repr(float(8 * fw)), "-d", repr(float(fw / 4))], d)
    if kind == "clean":
        run_main(Q.main, ["rmclean3d", os.path.join(d, pre + "FDF_tot_dirty.fits"), os.path.join(d, pre + "RMSF_tot.fits"), "-c", "0.2", "-o", pre], d)
    return True
