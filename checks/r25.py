"""R25: the RMSF report against its channel set, and predictions from clean components against their definition and the data."""
import io, os, re, json, contextlib
import numpy as np
from scipy.optimize import least_squares
from rvm import gen, ref
from checks.r09 import run_main, sha, write_table

CASES = {"quick": 1100, "thorough": 28000}
RULE = ("random channel sets (files of one or two columns, integers or decimals, separate weight files, frequency ranges) x weights x depth range and step x super-resolution, "
        "command line and library, printed report, plot and its text; random component lists x axes x reference wavelengths x Stokes I models; whole pipelines "
        "(synthesis, clean, prediction) on simulated spectra; distinct by draw")
MIN_EVENTS = {"reports": 300, "cli_runs": 250, "plots_saved": 20, "widths": 150, "sidelobes": 180, "predictions": 280, "resyntheses": 280, "saved": 60, "pipelines": 100, "explained": 70}
ASSUMPTIONS = ["largest depth and theoretical width are those of all listed channels, weighted or not, as the report states"]
CASE_LIMIT = {"quick": 120, "thorough": 200}
C = 299792458.0
LABELS = {"theory": r"Theoretical \(unweighted\) FWHM:\s+(\S+)", "measured": r"Measured FWHM:\s+(\S+)", "scale": r"Theoretical largest FD scale probed:\s+(\S+)",
          "largest": r"Theoretical maximum FD\*?:\s+(\S+)", "side": r"First sidelobe FD and amplitude:\s+(\S+)", "amp": r"([-\d.e+]+) % of peak",
          "low": r"Lowest frequency/wavelength \[GHz/cm\]:\s+(\S+)", "high": r"Highest frequency/wavelength \[GHz/cm\]:\s+(\S+)", "n": r"# of channels:\s+(\S+)"}


def run_case(c):
    k = c.idx % 20
    if k < 9:
        report(c)
    elif k < 17:
        predict(c)
    else:
        pipeline(c)


def channels(r):
    """(frequencies as read, weights or None, command-line source builder)"""
    f = np.asarray(gen.freqs(r), float)
    kind = str(r.choice(["ints", "floats", "high"]))
    if kind != "floats":
        f = np.round(f)
    if kind == "high":
        f = np.round(f * 5)
    w = gen.weights(r, len(f), str(r.choice(["none", "none", "variance", "holes", "ones", "nan"])))
    return f, w, kind


def report(c):
    from RMtools_1D import calculate_RMSF as K
    from matplotlib import pyplot as plt
    r = c.rng
    f, w, kind = channels(r)
    d = c.tmpdir()
    if r.random() < .3:
        f = f[::-1].copy()
        w = None if w is None else w[::-1].copy()
    src = str(r.choice(["lib", "file1", "file2", "range", "weights", "weights2"]))
    argv = ["calcrmsf"]
    files = []

    def num(v):
        return "%d" % v if kind != "floats" and r.random() < .7 else "%.17g" % v

    def put(name, cols):
        p = os.path.join(d, name)
        rows = []
        mix = r.random() < .5
        for i in range(len(cols[0])):
            if r.random() < .05:
                rows.append("# comment")
            a = "%d" % cols[0][i] if name != "w.txt" and kind != "floats" and (not mix or r.random() < .8) else "%.17g" % cols[0][i]
            rows.append("  ".join([a] + ["%.17g" % x for x in [q[i] for q in cols[1:]]]))
        open(p, "w").write("\n".join(rows) + "\n")
        files.append((p, sha(p)))
        return p
    if src in ("lib", "weights", "weights2") and w is None or src == "file2" and w is None:
        w = r.uniform(.2, 3, len(f))
    if src == "file1":
        argv.append(put("f.txt", [f]))
        w = None
    elif src == "file2":
        argv.append(put("f.txt", [f, w]))
    elif src == "weights":
        argv += [put("f.txt", [f]), put("w.txt", [w])]
    elif src == "weights2":
        argv += [put("f.txt", [f, r.uniform(.1, 9, len(f))]), put("w.txt", [w])]
    elif src == "range":
        a, n, dw = np.round(r.uniform(3e8, 3e9)), int(r.integers(8, 200)), np.round(r.uniform(1e5, 2e7))
        argv += ["-f", repr(float(a)), repr(float(a + dw * (n - .5))), repr(float(dw))]
        f, w = a + dw * np.arange(n), None
    l2 = gen.lam2(f)
    width = 2 * np.sqrt(3) / (l2.max() - l2.min())
    pm = None if r.random() < .4 else float(width * 10 ** r.uniform(.5, 1.3))
    dp = None if r.random() < .4 else float(width / r.uniform(5, 25))
    sup = r.random() < .25
    plot = os.path.join(d, "p.png") if r.random() < .08 else None
    name = "My channels" if r.random() < .2 else None
    if src != "lib":
        argv += ([] if pm is None else ["-m", repr(pm)]) + ([] if dp is None else ["-d", repr(dp)]) + (["-r"] if sup else []) + (["-n", name] if name else []) + (["-s", plot] if plot else [])
    c.label = "report-" + src
    c.context = dict(kind=kind, n=len(f), source=src, phi_max=pm, dphi=dp, super=bool(sup), argv=argv[1:] if src != "lib" else None)
    plt.close("all")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if src == "lib":
            snap = c.snapshot(f=f, w=w)
            K.determine_RMSF_parameters(f, w, pm, dp, plot, name, sup)
            c.unchanged(snap)
        else:
            run_main(K.main, argv, d)
            c.event("cli_runs")
    for p, h in files:
        c.check(sha(p) == h, "input-file-modified", p)
    if plot:
        c.event("plots_saved")
        c.check(os.path.exists(plot) and os.path.getsize(plot) > 1000, "plot", "not saved")
    txt = out.getvalue()
    got = {k: re.search(v, txt) for k, v in LABELS.items()}
    got = {k: float(v.group(1)) for k, v in got.items() if v}
    c.event("reports")
    R4 = dict(rtol=6e-4)
    dl = np.median(np.abs(np.diff(l2)))
    for k, v in (("theory", 3.8 / (l2.max() - l2.min())), ("scale", np.pi / l2.min()), ("largest", np.sqrt(3) / dl)):
        if c.check(k in got, "missing", lambda: "no %s width or depth in %r" % (k, txt)):
            c.close(got[k], v, "report-" + k, what="reported " + k, **R4)
    # the response function that was drawn
    fig = plt.gcf()
    ax = fig.axes
    lines = {l.get_label(): l for l in ax[0].get_lines()} if ax else {}
    if not c.check({"Stokes Q", "Stokes U", "Amplitude"} <= set(lines), "plot", lambda: "curves %s" % list(lines)):
        return
    x = np.asarray(lines["Amplitude"].get_xdata(), float)
    D, M = dp or .1 * width, pm or 10 * width
    c.close(np.diff(x), np.full(len(x) - 1, D), "depth-step", rtol=1e-5, atol=1e-9 * M, what="depth step")
    c.check(-x[0] >= M * .999999 - 1.01 * D and x[-1] >= M * .999999 - 1.51 * D and -x[0] <= M + 2.01 * D and x[-1] <= M + 2.01 * D, "depth-range", lambda: "%r to %r for %r, step %r" % (x[0], x[-1], M, D))
    if sup:
        want, lam0, _ = ref.rmsf(l2, x, w, lam0=0.0)
    else:
        want, lam0, _ = ref.rmsf(l2, x, w)
    want = want[:, 0]
    at = 1e-5 + 4e-7 * np.abs(x).max() * np.abs(l2 - lam0).max()
    A = np.asarray(lines["Amplitude"].get_ydata(), float)
    G = np.asarray(lines["Stokes Q"].get_ydata(), float) + 1j * np.asarray(lines["Stokes U"].get_ydata(), float)
    c.close(G, want, "response", rtol=0, atol=at, what="drawn response")
    c.close(A, np.abs(want), "response", rtol=0, atol=at, what="drawn amplitude")
    if name:
        c.check(ax[0].get_title() == name, "plot", ax[0].get_title())
    # the measured width: a Gaussian fitted to the main lobe
    Y = want.real if sup else np.abs(want)
    pk = int(np.argmax(Y))
    if c.check("measured" in got, "missing", "no measured width"):
        low = np.flatnonzero(Y[pk:] < .4)
        lw = np.flatnonzero(Y[:pk + 1][::-1] < .4)
        if len(low) and len(lw) and min(low[0], lw[0]) >= 4 and abs(int(low[0]) - int(lw[0])) <= 1:
            k = min(low[0], lw[0])
            sl = slice(pk - k + 1, pk + k)
            fit = least_squares(lambda q: q[0] * np.exp(-4 * np.log(2) * ((x[sl] - q[1]) / q[2]) ** 2) - Y[sl], [1, x[pk], x[sl][-1] - x[sl][0]])
            if np.sqrt(2 * fit.cost / (2 * k - 1)) < .05:
                c.event("widths")
                c.close(got["measured"], abs(fit.x[2]), "measured-width", rtol=.04, what="measured width")
    # highest secondary maximum at positive depths
    h = slice(x.size // 2, None)
    B, X = np.abs(want)[h], x[h]
    pkx = [i for i in range(1, len(B) - 1) if B[i] > B[i - 1] and B[i] > B[i + 1]]
    clear = all(abs(B[i] - B[i - 1]) > 4 * at and abs(B[i] - B[i + 1]) > 4 * at for i in pkx)
    flat = (np.abs(np.diff(B)) < 4 * at).any()
    if not pkx and not flat:
        c.check("side" not in got, "sidelobe", "a sidelobe is reported where there is none")
    elif pkx and not flat and clear:
        i = max(pkx, key=lambda k: B[k])
        o = sorted(B[k] for k in pkx)
        if c.check("side" in got and "amp" in got, "missing", lambda: "no sidelobe in %r" % txt):
            c.event("sidelobes")
            c.close(got["amp"], 100 * B[i], "sidelobe", rtol=1e-3, atol=200 * at, what="sidelobe amplitude")
            if len(o) < 2 or o[-1] - o[-2] > 4 * at:
                c.close(got["side"], X[i], "sidelobe", rtol=1e-3, atol=1e-6 * M, what="sidelobe depth")
    # the text next to the plot says the same
    t2 = "\n".join(t.get_text() for t in ax[1].texts) if len(ax) > 1 else ""
    g2 = {k: re.search(v, t2) for k, v in LABELS.items()}
    g2 = {k: v.group(1) for k, v in g2.items() if v}
    for k in ("theory", "measured", "scale", "largest", "side", "amp"):
        if c.check((k in g2) == (k in got), "plot-text", lambda: "%s in the report or the plot only" % k) and k in got:
            c.close(float(g2[k]), got[k], "plot-text", rtol=1e-9, what=k + " next to the plot")
    for k, fr in (("low", f.min()), ("high", f.max())):
        if c.check(k in g2 and "/" in g2[k], "plot-text", lambda: "%s missing in %r" % (k, t2)):
            a, b = g2[k].split("/")
            c.close([float(a), float(b)], [fr / 1e9, C / fr * 100], "plot-text", rtol=6e-4, what=k + "est frequency and its wavelength")
    if c.check("n" in g2, "plot-text", "no channel count") and len(f) < 10000:
        c.check(float(g2["n"]) == len(f), "plot-text", lambda: "%s channels of %d" % (g2["n"], len(f)))
    plt.close("all")
    c.observed((c.seed, c.idx), c.context)


def stokes_I(fn, p, x):
    if fn == "linear":
        return sum(q * x ** (5 - i) for i, q in enumerate(p))
    return p[5] * 10.0 ** sum(q * np.log10(x) ** (5 - i) for i, q in enumerate(p[:5]))


def predict(c):
    from RMtools_1D import clean_model as K
    r = c.rng
    f = np.asarray(gen.freqs(r), float)
    l2 = gen.lam2(f)
    phi = np.asarray(gen.phi_axis(r, l2), float)
    cc = np.zeros(len(phi), complex)
    k = r.permutation(len(phi))[: int(r.integers(1, 8))]
    cc[k] = (r.normal(size=len(k)) + 1j * r.normal(size=len(k))) * 10 ** r.uniform(-4, 2)
    lam0 = float(np.mean(l2) * r.uniform(.8, 1.2))
    fn = str(r.choice(["log", "linear"]))
    style = str(r.choice(["none", "default", "full", "zero"]))
    kw, p, f0 = {}, [0, 0, 0, 0, 0, 1], C / np.sqrt(lam0)
    if style != "none":
        p = [0.0] * 5 + [float(10 ** r.uniform(-3, 2))]
        o = int(r.integers(0, 4))
        for i in range(1, o + 1):
            p[5 - i] = float(r.normal() * .7 / i) * (p[5] * .2 if fn == "linear" else 1)
        if r.random() < .3:
            p = np.array(p)
        kw["Iparms"] = p
    if style == "default":
        fn = "log"
    elif style != "none":
        kw["fit_function"] = fn
        if style == "zero":
            lam0 = 0.0
        if style == "zero" or r.random() < .5:
            kw["freq0_Hz"] = f0 = float(f.mean() * r.uniform(.8, 1.2))
    c.label = "predict-" + style
    c.context = dict(n=len(f), axis=len(phi), components=len(k), lam0=lam0, Iparms=[float(x) for x in p], function=fn, f0=f0)
    snap = c.snapshot(f=f, phi=phi, cc=cc)
    QU, I = K.calculate_QU_model(f, phi, cc, lam0, **kw)
    c.unchanged(snap)
    wI = stokes_I(fn, p, f / f0)
    w0 = stokes_I(fn, p, 1.0)
    want = np.array([(cc * np.exp(2j * phi * (x - lam0))).sum() for x in l2]) * wI / w0
    at = 1e-12 * (1 + np.abs(phi).max() * np.abs(l2 - lam0).max()) * np.abs(cc).sum() * np.abs(wI / w0).max()
    c.event("predictions")
    c.close(I, wI, "stokes-I", rtol=1e-9, what="Stokes I model")
    c.close(QU, want, "prediction", rtol=1e-9, atol=at, what="predicted Q and U")
    # re-synthesis of the fractional spectrum gives the components seen through the response function
    from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
    w = r.uniform(.2, 3, len(f))
    q = QU / I * w0
    D, _ = do_rmsynth_planes(q.real, q.imag, l2, phi, weightArr=w, lam0Sq_m2=lam0, nBits=64, log=lambda *a, **k: None)
    R = ref.rmsf(l2, (phi[:, None] - phi[k][None, :]).ravel(), w, lam0=lam0)[0].reshape(len(phi), len(k))
    c.event("resyntheses")
    c.close(D, R @ cc[k], "resynthesis", rtol=0, atol=2e-5 * np.abs(cc).sum(), what="re-synthesised spectrum")
    if r.random() < .3:
        t = os.path.join(c.tmpdir(), "m.dat")
        K.save_model(t, f, I, QU)
        T = np.loadtxt(t, unpack=True)
        c.event("saved")
        if c.check(T.shape == (4, len(f)), "saved", "%s" % (T.shape,)):
            c.close(T, [f, I, QU.real, QU.imag], "saved", rtol=1e-14, what="saved model")
    c.observed((c.seed, c.idx), c.context)


def pipeline(c):
    from RMtools_1D import do_RMsynth_1D as S, do_RMclean_1D as CL, clean_model as K
    r = c.rng
    n = int(r.integers(60, 160))
    f = np.linspace(.8e9, 1.8e9, n)
    l2 = gen.lam2(f)
    flux, si = float(10 ** r.uniform(-2, 2)), float(r.uniform(-1.5, 1))
    withI = r.random() < .75
    fn = str(r.choice(["log", "linear"]))
    comps = [(float(r.uniform(.05, .3)), float(r.uniform(-90, 90)), float(r.uniform(-300, 300))) for _ in range(int(r.integers(1, 3)))]
    I = flux * (f / 1.2e9) ** si if withI else np.full(n, 1.0)
    if fn == "linear" and withI:
        I = flux * (1 + .3 * si * (f / 1.2e9 - 1))
    P = sum(p * np.exp(2j * (np.radians(a) + rm * l2)) for p, a, rm in comps)
    sig = 1e-3 * flux if withI else 1e-3
    e = np.full(n, sig)
    Q, U = I * P.real + sig * r.normal(size=n), I * P.imag + sig * r.normal(size=n)
    t = c.tmpdir()
    p = os.path.join(t, str(r.choice(["src.dat", "a.b.txt"])))
    cols = [f, I, Q, U, e, e, e] if withI else [f, Q, U, e, e]
    sup = r.random() < .25
    cols = write_table(r, p, cols)
    f = cols[0]
    l2 = gen.lam2(f)
    argv = ["rmsynth1d", p, "-S", "-l", "600", "-d", "4", "-f", fn, "-o", "2"] + (["-b"] if r.random() < .5 else []) + (["-r"] if sup else [])
    c.label = "pipeline-%s%s" % (fn if withI else "noI", "-super" if sup else "")
    c.context = dict(n=n, flux=flux, index=si, withI=bool(withI), function=fn, comps=comps, super=bool(sup))
    pre = os.path.splitext(p)[0]
    o = os.path.join(t, "out.dat")
    with contextlib.redirect_stdout(io.StringIO()):
        run_main(S.main, argv, t)
        run_main(CL.main, ["rmclean1d", p, "-S", "-c", "-3", "-n", "3000"], t)
        h = [sha(x) for x in (p, pre + "_RMsynth.json", pre + "_FDFmodel.dat")]
        run_main(K.main, ["clean_model", p, pre + "_RMsynth.json", pre + "_FDFmodel.dat", o], t)
    c.check(h == [sha(x) for x in (p, pre + "_RMsynth.json", pre + "_FDFmodel.dat")], "input-file-modified", "an input of the prediction was changed")
    m = json.load(open(pre + "_RMsynth.json"))
    phi, cr, ci = np.loadtxt(pre + "_FDFmodel.dat", unpack=True)
    T = np.loadtxt(o, unpack=True)
    c.event("pipelines")
    if not c.check(T.shape == (4, n), "saved", "%s" % (T.shape,)):
        return
    c.close(T[0], f, "frequencies", rtol=1e-14, what="frequencies of the prediction")
    pc = [float(x) for x in m["polyCoeffs"].split(",")]
    wI = stokes_I(fn, pc, f / m["freq0_Hz"])
    c.close(T[1], wI, "stokes-I", rtol=1e-9, what="Stokes I of the prediction")
    c.close(T[1], cols[1] if withI else np.ones(n), "stokes-I-of-data", rtol=.02, what="Stokes I of the prediction against the data")
    cc = cr + 1j * ci
    want = np.array([(cc * np.exp(2j * phi * (x - m["lam0Sq_m2"]))).sum() for x in l2]) * wI / m["Ifreq0"]
    c.close(T[2] + 1j * T[3], want, "prediction", rtol=1e-5, atol=1e-6 * np.abs(cc).sum() * np.abs(wI).max() / abs(m["Ifreq0"]), what="predicted Q and U")
    # what is left of the data after subtracting the prediction: a clean to three times the noise of the spectrum leaves little
    if not sup:
        k = 2 if withI else 1
        left = np.abs((cols[k] + 1j * cols[k + 1]) - (T[2] + 1j * T[3]))
        total = np.abs(cols[k] + 1j * cols[k + 1])
        c.event("explained")
        c.check(np.sqrt((left ** 2).mean()) < .15 * np.sqrt((total ** 2).mean()) + 5 * sig, "data-not-explained", lambda: "residual %r of %r, noise %r" % (np.sqrt((left ** 2).mean()), np.sqrt((total ** 2).mean()), sig))
    c.observed((c.seed, c.idx), c.context)
