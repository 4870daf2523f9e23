"""R24: simulated spectra and cubes against the published formulae of their catalogue, and recovered by the synthesis tools."""
import io, os, contextlib
import numpy as np
from rvm import gen
from checks.r09 import run_main, sha

CASES = {"quick": 2200, "thorough": 60000}
RULE = ("random catalogues (both model types, one to four components, comments and other model types mixed in) x frequency set-up x noise level and template x flag "
        "ranges; spectra and cubes read back from disk against formulae evaluated by the monitor, exactly without noise and statistically with it; command line and "
        "library; simulated thin sources run through the 1D synthesis; distinct by draw")
MIN_EVENTS = {"formula_calls": 1500, "tables": 2400, "tables_noiseless": 1000, "tables_noisy": 1000, "tables_flagged": 300, "templates": 300, "cubes": 130, "cubes_flagged": 30,
              "recovered": 250, "cli_runs": 250, "elliptical_beams": 80}
ASSUMPTIONS = ["sources in cubes have the size of the beam (the catalogue's own sizes are not used by the simulator)",
               "the cube simulator's catalogue fluxes are at the reference frequency set in its module, as its header documents"]
CASE_LIMIT = {"quick": 120, "thorough": 200}
C = 299792458.0


def burn(f, comps):
    l2 = (C / f) ** 2
    return sum(p * np.exp(2j * (np.radians(a) + rm * l2)) * np.exp(-2 * s ** 2 * l2 ** 2) for p, a, rm, s in comps)


def layers(f, comps):
    """emitting slabs listed from the far side: each is rotated by half its own depth and by everything in front of it"""
    l2 = (C / f) ** 2
    out = 0
    for i, (p, a, rm) in enumerate(comps):
        front = sum(x[2] for x in comps[i + 1:])
        z = rm * l2
        with np.errstate(all="ignore"):
            s = np.where(np.abs(z) < 1e-9, 1.0, np.sin(z) / z)
        out = out + p * s * np.exp(2j * (np.radians(a) + (rm / 2 + front) * l2))
    return out


def comp(r, kind, wide=False):
    # floats that print and read back as themselves
    rd = lambda x, n=6: float("%.*g" % (n, x))
    base = [rd(r.uniform(.01, .8)), rd(r.uniform(-200, 200)), rd(r.normal() * 10 ** r.uniform(0, 2.7))]
    if kind == 1:
        base.append(0.0 if r.random() < .4 else rd(10 ** r.uniform(-1, 2)))
    elif r.random() < .1:
        base[2] = 0.0
    return base


def spectrum(f, kind, comps, flux, si, f0):
    P = burn(f, comps) if kind == 1 else layers(f, comps)
    I = flux * (f / f0) ** si
    return I, I * P.real, I * P.imag


def catalogue(r, path, sky=None, simple=False, offgrid=True):
    rows, txt = [], ["# made for a check", "#1, 2, 3"]
    rd = lambda x: float("%.7g" % x)
    for i in range(int(r.integers(1, 6))):
        k = 1 if simple else int(r.choice([1, 1, 2, 2, 3], p=[.3, .2, .25, .15, .1]))
        kk = k if k != 3 else 1
        comps = [comp(r, kk) for _ in range(1 if simple else int(r.integers(1, 5)))]
        if simple:
            comps[0][3] = 0.0
            comps[0][2] = float("%.6g" % r.uniform(-200, 200))
        x, y = (float("%.9g" % v) for v in (sky(r) if sky else (r.uniform(0, 360), r.uniform(-90, 90))))
        flux, si = rd(10 ** r.uniform(-1, 3)), rd(r.uniform(-2, 1.5) if r.random() < .8 else 0.0)
        vals = [k, x, y, rd(r.uniform(0, 9)), rd(r.uniform(0, 9)), rd(r.uniform(0, 180)), flux, si] + [v for q in comps for v in q]
        sep = str(r.choice([", ", ",", " ,  "]))
        line = sep.join((("%d" % v) if j == 0 else ("%+r" % v if False else repr(v))) for j, v in enumerate(vals))
        if r.random() < .3:
            line = "  " + line + "   # source %d, 1" % i
        txt.append(line)
        if r.random() < .2:
            txt += ["", "   ", "# note"]
        rows.append(dict(kind=k, x=x, y=y, flux=flux, si=si, comps=comps))
    open(path, "w").write("\n".join(txt) + ("\n" if r.random() < .8 else ""))
    return rows


def template(r, d, f):
    n = int(r.integers(2, 12))
    xp = np.sort(r.uniform(f.min() * .9, f.max() * 1.1, n))
    while np.diff(xp).min() < (f.max() - f.min()) * .02:
        n = max(2, n - 1)
        xp = np.linspace(f.min() * r.uniform(.8, 1.1), f.max() * r.uniform(.9, 1.2), n)
        break
    yp = r.uniform(1, 1.6, n) * 10 ** r.uniform(-3, 3)
    p = os.path.join(d, "noise.txt")
    np.savetxt(p, np.column_stack([xp, yp]), fmt="%.18e")
    y = yp / np.median(yp)
    w = np.interp(f, xp, y)
    lo, hi = f < xp[0], f > xp[-1]
    w = np.where(lo, y[0] + (f - xp[0]) * (y[1] - y[0]) / (xp[1] - xp[0]), w)
    w = np.where(hi, y[-1] + (f - xp[-1]) * (y[-1] - y[-2]) / (xp[-1] - xp[-2]), w)
    return p, w


def run_case(c):
    k = c.idx % 10
    if k < 2:
        formulae(c)
    elif k == 9:
        cube(c)
    else:
        table(c)


def formulae(c):
    from RMutils import util_misc as M
    r = c.rng
    f = np.asarray(gen.freqs(r), float)
    l2 = gen.lam2(f)
    for j in range(4):
        k = int(r.choice([0, 1, 2]))
        n = 1 if k == 0 else int(r.integers(1, 5))
        comps = [comp(r, 2 if k == 2 else 1) for _ in range(n)]
        if k == 0:
            comps[0][3] = 0.0
        cols = [list(x) for x in zip(*comps)]
        if r.random() < .5:
            cols = [np.array(x) for x in cols]
        F = list(f) if r.random() < .2 and k else f
        flux, si = 10 ** r.uniform(-3, 3), r.uniform(-2, 2)
        f0 = None if r.random() < .4 else float(r.uniform(1e8, 3e9))
        c.label = "formula-%d" % k
        c.context = dict(kind=k, comps=comps, flux=flux, index=si, f0=f0)
        nos = k == 1 and r.random() < .25
        if nos:
            for x in comps:
                x[3] = 0.0
        P = layers(f, comps) if k == 2 else burn(f, comps)
        ph = l2.max() * sum(abs(x[2]) for x in comps)
        at = 1e-14 * (10 + ph) * sum(x[0] for x in comps) * 4
        snap = c.snapshot(F=F, cols=cols)
        if k == 0:
            a = (cols[0][0], cols[1][0], cols[2][0])
            got = M.create_pqu_spectra_RMthin(f, *a)
            iqu = M.create_IQU_spectra_RMthin(f, flux, si, *a, freq0_Hz=f0)
        elif k == 1:
            sg = None if nos else cols[3]
            got = M.create_pqu_spectra_burn(F, cols[0], cols[1], cols[2], sg)
            iqu = M.create_IQU_spectra_burn(f, flux, si, cols[0], cols[1], cols[2], sg, freq0_Hz=f0)
        else:
            got = M.create_pqu_spectra_diff(F, cols[0], cols[1], cols[2])
            iqu = M.create_IQU_spectra_diff(f, flux, si, cols[0], cols[1], cols[2], freq0_Hz=f0)
        c.unchanged(snap)
        c.event("formula_calls", 2)
        c.close(np.asarray(got[1]) + 1j * np.asarray(got[2]), P, "fractional-spectrum", rtol=1e-11, atol=at, what="q and u")
        if k:
            c.close(got[0], np.abs(P), "fractional-spectrum", rtol=1e-11, atol=2 * at, what="p")
        I = flux * (f / (f[0] if f0 is None else f0)) ** si
        c.close(iqu[0], I, "power-law", rtol=1e-11, what="Stokes I")
        c.close(np.asarray(iqu[1]) + 1j * np.asarray(iqu[2]), I * P, "flux-spectrum", rtol=1e-10, atol=at * I, what="Stokes Q and U")
    c.observed((c.seed, c.idx), c.context)


def flag_ranges(r, f):
    lst = []
    for _ in range(int(r.integers(1, 4))):
        a = float("%.6g" % r.uniform(f.min() * .95, f.max()))
        lst += [a, float("%.6g" % (a + r.uniform(.01, .2) * (f.max() - f.min())))]
    if r.random() < .3:
        lst[0] = float(f[int(r.integers(len(f)))])      # a limit on a channel: inclusive
        lst[1] = max(lst[1], lst[0])
    z = np.zeros(len(f), bool)
    for a, b in zip(lst[::2], lst[1::2]):
        z |= (f >= a) & (f <= b)
    return lst, z


def table(c):
    from RMtools_1D import mk_test_ascii_data as K
    r = c.rng
    d = c.tmpdir()
    n = int(r.integers(4, 130))
    lo = float("%.5g" % r.uniform(200, 2000))
    hi = float("%.5g" % (lo * r.uniform(1.1, 3)))
    f = np.linspace(lo * 1e6, hi * 1e6, n)
    simple = r.random() < .35
    if simple:
        lo, hi, n = 800.0, 1800.0, int(r.integers(40, 130))
        f = np.linspace(lo * 1e6, hi * 1e6, n)
    cat = os.path.join(d, "cat.csv")
    rows = catalogue(r, cat, simple=simple)
    sig = 0.0 if r.random() < .5 else float("%.4g" % (10 ** r.uniform(-4, 0)))
    if simple and sig:
        sig = float("%.4g" % (min(x["flux"] * x["comps"][0][0] for x in rows) / r.uniform(10, 100) * .3))
    lst, z = flag_ranges(r, f) if r.random() < .4 else ([], np.zeros(n, bool))
    tp, w = template(r, d, f) if r.random() < .4 else (None, np.ones(n))
    if (w <= 0).any():
        tp, w = None, np.ones(n)
    f0 = float("%.5g" % r.uniform(100, 3000)) if r.random() < .4 else None
    ref = f0 * 1e6 if f0 else f[0]
    out = os.path.join(d, str(r.choice(["out", "a/b/c", "out/"])))
    np.random.seed(int(r.integers(2 ** 31)))
    cli = r.random() < .3
    c.label = "table-simple" if simple else "table"
    c.context = dict(n=n, range=[lo, hi], rows=len(rows), noise=sig, flags=lst, template=tp is not None, f0=f0, cli=cli)
    h = sha(cat)
    with contextlib.redirect_stdout(io.StringIO()):
        if cli:
            argv = ["testdata", cat, out, "-f", repr(lo), repr(hi), "-c", str(n), "-n", repr(sig)]
            argv += (["-f0", repr(f0)] if f0 else []) + (["-t", tp] if tp else []) + (["-l", ",".join(repr(x) for x in lst)] if lst else [])
            run_main(K.main, argv, d)
            count = None
            c.event("cli_runs")
        else:
            tmpl = np.loadtxt(tp, unpack=True) if tp else None
            count = K.create_IQU_ascii_data(out, cat, lo * 1e6, hi * 1e6, n, sig, tmpl, list(zip(lst[::2], lst[1::2])), f0 * 1e6 if f0 else None)
    c.check(sha(cat) == h, "input-file-modified", cat)
    known = [(i + 1, x) for i, x in enumerate(rows) if x["kind"] in (1, 2)]
    c.check(sorted(os.listdir(out)) == sorted("Source%d.dat" % i for i, _ in known), "files", lambda: "%s for %d sources" % (os.listdir(out), len(known)))
    if count is not None:
        c.check(count == len(known), "count", lambda: "%r of %d" % (count, len(known)))
    c.event("templates", tp is not None)
    c.event("tables_flagged", z.any())
    res = []
    for i, x in known:
        p = os.path.join(out, "Source%d.dat" % i)
        if not os.path.exists(p):
            continue
        T = np.loadtxt(p, unpack=True)
        if not c.check(T.shape == (7, n), "table-shape", lambda: "%s" % (T.shape,)):
            continue
        c.event("tables")
        c.close(T[0], f, "frequencies", rtol=1e-12, what="frequencies")
        I, Q, U = spectrum(f, x["kind"], x["comps"], x["flux"], x["si"], ref)
        ph = gen.lam2(f).max() * sum(abs(q[2]) for q in x["comps"])
        for nm, got, want in (("I", T[1], I), ("Q", T[2], Q), ("U", T[3], U)):
            c.check(not np.isfinite(got[z]).any(), "flags", lambda: "flagged channels of %s have values" % nm)
            c.check(np.isfinite(got[~z]).all(), "flags", lambda: "unflagged channels of %s are blank" % nm)
            if not sig:
                c.close(got[~z], want[~z], "noiseless-spectrum", rtol=1e-9, atol=1e-12 * (10 + ph) * np.abs(I[~z]) * len(x["comps"]), what="Stokes " + nm)
            else:
                res.append(((got - want) / (sig * w))[~z])
        for nm, got in (("dI", T[4]), ("dQ", T[5]), ("dU", T[6])):
            g = got[~z]
            c.check((np.abs(g - (sig * w)[~z]) <= .4 * (sig * w)[~z] + 1e-300).all(), "errors", lambda: "%s: %r to %r of %r" % (nm, np.nanmin(g), np.nanmax(g), sig))
            if sig and len(g) > 20:
                q = g / (sig * w)[~z]
                c.check(abs(q.mean() - 1) < .05 * 6 / np.sqrt(len(g)) and .02 < q.std() < .09, "errors", lambda: "%s: mean %r, scatter %r of the stated noise" % (nm, q.mean(), q.std()))
        if sig:
            c.event("tables_noisy")
        else:
            c.event("tables_noiseless")
    if res and sum(map(len, res)) > 60:
        v = np.concatenate(res)
        N = len(v)
        c.check(abs(v.mean()) < 6 / np.sqrt(N) and abs((v ** 2).mean() - 1) < 7 * np.sqrt(2 / N), "noise", lambda: "mean %r, variance %r of %d residuals in units of the stated noise" % (v.mean(), (v ** 2).mean(), N))
        # Stokes parameters and sources have their own noise
        m = min(map(len, res))
        if m > 25:
            A = np.array([x[:m] for x in res])
            R = np.corrcoef(A)[np.triu_indices(len(A), 1)]
            c.check(np.abs(R).max() < min(.97, 7 / np.sqrt(m)), "noise-independence", lambda: "correlation %r between spectra" % R[np.abs(R).argmax()])
    if simple:
        recover(c, out, known, sig, z)
    c.observed((c.seed, c.idx), c.context)


def recover(c, out, known, sig, z):
    if (~z).sum() < 25 or not known:
        return
    from RMtools_1D.do_RMsynth_1D import run_rmsynth, readFile
    i, x = known[0]
    p, a, rm, _ = x["comps"][0]
    with contextlib.redirect_stdout(io.StringIO()):
        data = readFile(os.path.join(out, "Source%d.dat" % i), 64, verbose=False)
        if not sig:
            data = list(data)
            for j in (4, 5, 6):
                data[j] = np.full(len(data[0]), x["flux"] * 1e-4)
        m, _ = run_rmsynth(data, polyOrd=1, phiMax_radm2=400.0, dPhi_radm2=2.0, verbose=False)
    snr = m["snrPIfit"]
    if not (snr and np.isfinite(snr) and snr > 12):
        return
    c.event("recovered")
    c.check(abs(m["phiPeakPIfit_rm2"] - rm) < 6 * m["dPhiPeakPIfit_rm2"] + .5, "recovery", lambda: "depth %r +- %r of %r" % (m["phiPeakPIfit_rm2"], m["dPhiPeakPIfit_rm2"], rm))
    c.check(abs(m["fracPol"] - p) < p * (6 / snr + .03), "recovery", lambda: "fraction %r of %r, signal to noise %r" % (m["fracPol"], p, snr))
    da = (m["polAngle0Fit_deg"] - a + 90) % 180 - 90
    c.check(abs(da) < 6 * m["dPolAngle0Fit_deg"] + 3, "recovery", lambda: "angle %r +- %r of %r" % (m["polAngle0Fit_deg"], m["dPolAngle0Fit_deg"], a))


def cube(c):
    from RMtools_3D import mk_test_cube_data as K
    from astropy.io import fits
    from astropy.wcs import WCS
    r = c.rng
    d = c.tmpdir()
    n = int(r.integers(2, 12))
    nx, ny = int(r.integers(6, 40)), int(r.integers(6, 40))
    lo = float(r.uniform(.3e9, 1.5e9))
    hi = lo * r.uniform(1.1, 2.5)
    f = np.linspace(lo, hi, n)
    pix = float(r.uniform(.2, 3) / 3600)
    bmin = pix * r.uniform(2, 6)
    bmaj = bmin * (1.0 if r.random() < .2 else r.uniform(1, 3))
    pa = float(r.uniform(-180, 180))
    sysm = str(r.choice(["EQU", "GAL"]))
    xc, yc = (float(r.uniform(0, 360)), float(r.uniform(-60, 60)))
    if sysm == "GAL":
        yc = float(r.choice([0.0, r.uniform(-5, 5)]))
    cosd = max(.3, np.cos(np.radians(yc)))
    cat = os.path.join(d, "cat.csv")
    sky = lambda rr: ((xc + rr.uniform(-.45, .45) * nx * pix / cosd) % 360, yc + rr.uniform(-.45, .45) * ny * pix)
    rows = catalogue(r, cat, sky=sky)
    sig = 0.0 if r.random() < .6 else float(10 ** r.uniform(-3, 0))
    lst, z = flag_ranges(r, f) if r.random() < .35 else ([], np.zeros(n, bool))
    tp, w = template(r, d, f) if r.random() < .3 else (None, np.ones(n))
    if (w <= 0).any():
        tp, w = None, np.ones(n)
    out = os.path.join(d, "cubes")
    np.random.seed(int(r.integers(2 ** 31)))
    cli = r.random() < .3
    c.label = "cube"
    c.context = dict(n=n, shape=[ny, nx], beam=[bmin / pix, bmaj / pix, pa], system=sysm, centre=[xc, yc], noise=sig, flags=lst, template=tp is not None, rows=rows[:2], cli=cli)
    par = dict(startFreq_Hz=lo, endFreq_Hz=hi, nChans=n, rmsNoise=sig, beamMinFWHM_deg=bmin, beamMajFWHM_deg=bmaj, beamPA_deg=pa, pixScale_deg=pix, xCent_deg=xc, yCent_deg=yc,
               nPixX=nx, nPixY=ny, coordSys=sysm)
    ref = K.freq0_Hz
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if cli:
            # the set-up of the command line is edited at the top of its module
            old = {k: getattr(K, k) for k in list(par) + ["freq0_Hz"]}
            try:
                for k, v in par.items():
                    setattr(K, k, v)
                K.freq0_Hz = ref = lo
                run_main(K.main, ["testdata3d", cat, out] + (["-n", tp] if tp else []) + (["-f", ",".join(repr(x) for x in lst)] if lst else []), d)
            finally:
                for k, v in old.items():
                    setattr(K, k, v)
            c.event("cli_runs")
        else:
            cnt = K.create_IQU_cube_data(dataPath=out, inCatFile=cat, noiseTmpArr=np.loadtxt(tp, unpack=True) if tp else None, flagRanges_Hz=list(zip(lst[::2], lst[1::2])), **par)
            c.check(cnt == sum(x["kind"] in (1, 2) for x in rows), "count", lambda: "%r" % cnt)
    c.event("cubes")
    some = any(x["kind"] in (1, 2) for x in rows)      # blank planes come from the spectra of the sources
    c.event("cubes_flagged", z.any())
    c.event("elliptical_beams", bmaj > bmin * 1.1)
    c.close(np.loadtxt(os.path.join(out, "freqs_Hz.dat")), f, "frequencies", rtol=1e-12, what="frequency file")
    y, x = np.indices((ny, nx)).astype(float)
    s = 2 * np.sqrt(2 * np.log(2))
    smaj, smin = bmaj / pix / s, bmin / pix / s
    spec, amp = [], np.zeros((3, n, ny, nx))
    tol = np.zeros((3, n, ny, nx))
    for row in rows:
        if row["kind"] not in (1, 2):
            continue
        S = spectrum(f, row["kind"], row["comps"], row["flux"], row["si"], ref)
        hd = fits.getheader(os.path.join(out, "StokesI.fits"))
        wc = WCS(hd).celestial
        px, py = (float(v) for v in wc.wcs_world2pix(row["x"], row["y"], 0))
        # position angle from north towards increasing longitude, which this axis order draws to the right
        sgn = np.sign(hd["CDELT1"])
        th = np.radians(pa)
        al = (x - px) * sgn * np.sin(th) + (y - py) * np.cos(th)
        ac = (x - px) * sgn * np.cos(th) - (y - py) * np.sin(th)
        G = np.exp(-.5 * (al / smaj) ** 2 - .5 * (ac / smin) ** 2)
        for j in range(3):
            amp[j] += S[j][:, None, None] * G
            tol[j] += np.abs(S[0])[:, None, None] * (1e-6 * G + 1e-12)
        # astropy and the header agree to a small part of a pixel
    for j, st in enumerate("IQU"):
        fn = os.path.join(out, "Stokes%s.fits" % st)
        if not c.check(os.path.exists(fn), "files", lambda: "%s" % os.listdir(out)):
            return
        with fits.open(fn) as hh:
            D, hd = hh[0].data.astype(float), hh[0].header.copy()
        if not c.check(D.shape == (1, n, ny, nx), "cube-shape", lambda: "%s" % (D.shape,)):
            return
        W = WCS(hd)
        c.close([hd["BMIN"], hd["BMAJ"], hd["BPA"]], [bmin, bmaj, pa], "beam", rtol=1e-9, what="beam keywords")
        c.close(W.sub([3]).wcs_pix2world(np.arange(n), 0)[0] if n > 1 else lo, f, "frequency-axis", rtol=1e-9, what="frequency axis")
        c.close(hd["CRVAL4"] + (1 - hd["CRPIX4"]) * hd["CDELT4"], j + 1.0, "stokes-axis", what="Stokes axis of " + st)
        cx, cy = (float(v) for v in W.celestial.wcs_world2pix(xc, yc, 0))
        c.close([cx, cy], [(nx - 1) / 2, (ny - 1) / 2], "field-centre", atol=2e-3, what="pixel of the field centre")
        c.close([abs(hd["CDELT1"]), abs(hd["CDELT2"])], [pix, pix], "pixel-scale", rtol=1e-9, what="pixel size")
        c.check(not some or not np.isfinite(D[0][z]).any(), "flags", lambda: "flagged planes of %s have values" % st)
        c.check(np.isfinite(D[0][~z]).all(), "flags", lambda: "unflagged planes of %s are blank" % st)
        if not sig:
            c.close(D[0][~z], amp[j][~z], "noiseless-cube", rtol=3e-6, atol=tol[j][~z] * 3, what="Stokes " + st)
        else:
            v = ((D[0] - amp[j]) / (sig * w)[:, None, None])[~z].ravel()
            lim = 1e-6 * np.abs(amp[j]).max() / (sig * w.min())
            if len(v) > 60 and lim < .05:
                N = len(v)
                c.check(abs(v.mean()) < 6 / np.sqrt(N) + lim and abs((v ** 2).mean() - 1) < 7 * np.sqrt(2 / N) + lim, "noise", lambda: "Stokes %s: mean %r, variance %r of %d" % (st, v.mean(), (v ** 2).mean(), N))
                for k in np.flatnonzero(~z):
                    q = ((D[0][k] - amp[j][k]) / (sig * w[k])).ravel()
                    c.check(abs((q ** 2).mean() - 1) < 8 * np.sqrt(2 / len(q)) + lim, "noise", lambda: "channel %d: variance %r" % (k, (q ** 2).mean()))
    c.observed((c.seed, c.idx), c.context)
