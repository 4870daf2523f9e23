"""R27: what a run draws and prints, against the arrays and measurements it returned."""
import io, os, re, contextlib
import numpy as np
from rvm import gen
from checks import r08

CASES = {"quick": 320, "thorough": 6000}
RULE = ("1D synthesis (with complexity figures), 1D cleaning, QU fitting with a planned posterior and bandwidth-depolarisation runs of random sources, flags, errors, models, "
        "orders of channels; figures shown, saved, both or neither; every curve, error bar, marker line and printed number is read back from the figure objects at the "
        "moment they are shown or saved, and from the log; distinct by draw")
MIN_EVENTS = {"spectra_figures": 150, "depth_figures": 130, "clean_figures": 45, "complexity_figures": 50, "noise_figures": 40, "fit_figures": 12, "bwdepol_figures": 28, "curves": 2500,
              "error_bars": 700, "marked_peaks": 130, "reports": 120, "report_values": 2200, "saved_files": 14, "unasked": 35, "unaffected": 35, "bands": 12}
ASSUMPTIONS = ["arrays and measurements themselves are decided by R05, R06, R08, R10, R21, R22 and R23", "styles, limits and layout of figures are not judged",
               "the error bars of polarised intensity are not judged (the scatter of q and u is drawn)"]
CASE_LIMIT = {"quick": 200, "thorough": 240}
C = 299792458.0


class Watch:
    """records figures at the moment they are shown or saved"""

    def __init__(self, r, write):
        self.r, self.write, self.shown, self.saved = r, write, 0, []

    def __enter__(self):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.F = plt, Figure
        plt.close("all")
        self.old = plt.show, Figure.savefig, Figure.show
        w = self

        def show(*a, **k):
            w.shown += 1

        def savefig(fig, fname, *a, **k):
            w.saved.append((fig, str(fname), figure(fig)))
            if w.write:
                return w.old[1](fig, fname, *a, **k)
            open(fname, "w").write("drawn")
        plt.show, Figure.savefig, Figure.show = show, savefig, show
        return self

    def __exit__(self, *a):
        self.plt.show, self.F.savefig, self.F.show = self.old
        self.figs = [figure(self.plt.figure(n)) for n in self.plt.get_fignums()]
        self.plt.close("all")


def figure(fig):
    return [axes(a) for a in fig.axes]


def axes(a):
    d = dict(x=a.get_xlabel(), y=a.get_ylabel(), title=a.get_title(), lines={}, unnamed=[], bars={}, vert=[], horiz=[], bands=[], points=[], texts=[t.get_text() for t in a.texts])
    inbars = set()
    for k in a.containers:
        if type(k).__name__ != "ErrorbarContainer":
            continue
        line = k[0]
        inbars.update(id(x) for x in [line] + list(k[1]))
        seg = []
        for col in k[2]:
            inbars.add(id(col))
            seg.append([np.array(s, float) for s in col.get_segments()])
        d["bars"].setdefault(k.get_label() if not str(k.get_label()).startswith("_") else "", []).append(
            dict(x=arr(line.get_xdata()), y=arr(line.get_ydata()), seg=seg, color=str(line.get_color()), mec=str(line.get_markeredgecolor())))
    for l in a.lines:
        if id(l) in inbars:
            continue
        x, y = arr(l.get_xdata()), arr(l.get_ydata())
        if x.shape == (2,) and list(y) == [0, 1] and x[0] == x[1] or x.shape == (2,) and list(y) == [0, 1] and np.isnan(x).all():
            d["vert"].append((x[0], str(l.get_color())))
        elif y.shape == (2,) and list(x) == [0, 1] and (y[0] == y[1] or np.isnan(y).all()):
            d["horiz"].append((y[0], l.get_label()))
        elif str(l.get_label()).startswith("_"):
            d["unnamed"].append((x, y, str(l.get_color())))
        else:
            d["lines"].setdefault(l.get_label(), []).append((x, y))
    for p in a.collections:
        nm = type(p).__name__
        if nm in ("PolyCollection", "FillBetweenPolyCollection") and p.get_paths():
            d["bands"].append(np.concatenate([q.vertices for q in p.get_paths()]))
        elif nm == "PathCollection":
            d["points"].append(np.ma.filled(p.get_offsets(), np.nan))
    return d


def arr(v):
    return np.ma.filled(np.ma.masked_array(np.asarray(v)), np.nan).astype(float)


def run_case(c):
    k = c.idx % 16
    if k < 8:
        synthesis(c)
    elif k < 12:
        cleaning(c)
    elif k < 15:
        bwdepol(c)
    else:
        qufit(c)


def pick(c, figs, *ylabels):
    """the figure having axes of these labels"""
    out = [f for f in figs if all(any(y in a["y"] for a in f) for y in ylabels)]
    return out


def curve(c, a, label, x, y, mech, rtol=1e-6, atol=None):
    c.event("curves")
    if not c.check(label in a["lines"] and len(a["lines"][label]) == 1, mech, lambda: "no curve %r in %r" % (label, list(a["lines"]))):
        return
    gx, gy = a["lines"][label][0]
    scale = np.nanmax(np.abs(y)) if np.isfinite(y).any() else 0.0
    if c.close(gx, x, mech, rtol=1e-6, atol=1e-6 * np.nanmax(np.abs(x)), what="positions of the curve %r" % label):
        c.close(gy, y, mech, rtol=rtol, atol=(1e-6 * scale if atol is None else atol), what="curve %r" % label)


def errorbars(c, b, x, y, e, mech, what, judge=True, slack=0.0, rt=2e-5):
    c.event("curves")
    sc = np.nanmax(np.abs(y)) if np.isfinite(y).any() else 0.0
    if not (c.close(b["x"], x, mech, rtol=rt, atol=1e-6 * np.nanmax(np.abs(x)), what="positions of " + what) and c.close(b["y"], y, mech, rtol=rt, atol=rt * sc + slack, what=what)):
        return
    if e is None or not judge:
        return
    c.event("error_bars")
    e = np.broadcast_to(np.asarray(e, float), y.shape)
    ok = np.isfinite(y) & np.isfinite(e) & np.isfinite(x)
    lo, hi = [], []
    segs = [s for s in b["seg"] if any(np.isfinite(q).all() and q[0][0] == q[1][0] and q[0][1] != q[1][1] for q in s if q.shape == (2, 2))]
    if not ok.any() or not (e[ok] > 0).all():
        return
    if not c.check(len(segs) == 1, mech + "-bars", lambda: "%d sets of vertical bars for %s" % (len(segs), what)):
        return
    got = {}
    for q in segs[0]:
        if q.shape == (2, 2) and np.isfinite(q).all():
            got.setdefault(round(float(q[0][0]) / np.nanmax(np.abs(x)), 9), []).append(sorted((q[0][1], q[1][1])))
    bad = []
    for i in np.where(ok)[0]:
        w = (y[i] - e[i], y[i] + e[i])
        near = got.get(round(float(b["x"][i]) / np.nanmax(np.abs(x)), 9), [])
        if not any(abs(p[0] - w[0]) + abs(p[1] - w[1]) <= rt * (abs(e[i])) + 2 * rt * (abs(y[i]) + sc) + 2 * slack for p in near):
            bad.append(i)
    c.check(not bad, mech + "-bars", lambda: "%s: bar of channel %d is %r, expected %r" % (what, bad[0], got.get(round(float(b["x"][bad[0]]) / np.nanmax(np.abs(x)), 9)), (y[bad[0]] - e[bad[0]], y[bad[0]] + e[bad[0]])))


def spectra(c, f, arrs, mod, units, figs, rt=2e-5):
    """the four-panel figure: Stokes I, fractions, angle, q against u"""
    I, q, u, dI, dq, du = [np.asarray(v, float) for v in arrs]
    got = pick(c, figs, "Fractional Polarisation", "Stokes u")
    if not c.check(len(got) >= 1, "spectra-figure", lambda: "no spectra figure among %r" % [[a["y"] for a in g] for g in figs]):
        return
    fig = got[-1]
    c.event("spectra_figures")
    ax = {}
    for a in fig:
        for key, y in (("I", "Flux Density"), ("p", "Fractional Pol"), ("psi", "psi"), ("qu", "Stokes u")):
            if y in a["y"]:
                ax[key] = a
    if not c.check(set(ax) == {"I", "p", "psi", "qu"}, "spectra-figure", lambda: "panels %r" % [a["y"] for a in fig]):
        return
    c.check(units is None or "(%s)" % units in ax["I"]["y"], "spectra-units", lambda: "%r for %r" % (ax["I"]["y"], units))
    l2 = gen.lam2(f)
    if c.check(list(ax["I"]["bars"]) == ["Stokes I"], "stokes-I", lambda: repr(list(ax["I"]["bars"]))):
        errorbars(c, ax["I"]["bars"]["Stokes I"][0], f / 1e9, I, np.abs(dI), "stokes-I", "Stokes I")
    if mod is not None and c.check("I Model" in ax["I"]["lines"], "model-curve", lambda: repr(list(ax["I"]["lines"]))):
        x, y = ax["I"]["lines"]["I Model"][0]
        c.event("curves")
        c.check(len(x) > 100 and abs(x.min() * 1e9 / f.min() - 1) < 1e-4 and abs(x.max() * 1e9 / f.max() - 1) < 1e-4, "model-curve", lambda: "from %r to %r GHz" % (x.min(), x.max()))
        w = mod(x * 1e9)
        c.close(y, w, "model-curve", rtol=1e-4, atol=2e-5 * np.nanmax(np.abs(w)) + 1e-12, what="Stokes I model")
    p = np.hypot(q, u)
    B = ax["p"]["bars"]
    if c.check({"Stokes q", "Stokes u", "Intensity p"} <= set(B), "fractions", lambda: repr(list(B))):
        errorbars(c, B["Stokes q"][0], l2, q, np.abs(dq), "fractions", "fractional q", rt=rt)
        errorbars(c, B["Stokes u"][0], l2, u, np.abs(du), "fractions", "fractional u", rt=rt)
        errorbars(c, B["Intensity p"][0], l2, p, None, "fractions", "fractional p", rt=rt)
    B = [b for v in ax["psi"]["bars"].values() for b in v]
    with np.errstate(all="ignore"):
        ang = np.degrees(np.arctan2(u, q)) / 2
        dang = np.degrees(np.hypot(q * du, u * dq) / (2 * p ** 2))
    if c.check(len(B) == 1, "angles", "%d sets of angles" % len(B)):
        # at the branch cut the sign is a matter of rounding
        g = B[0]["y"]
        cut = np.abs(np.abs(g) - 90) < 1e-3
        errorbars(c, B[0], l2, np.where(cut & (np.abs(np.abs(ang) - 90) < 1e-3), g, ang), np.where(cut, np.nan, dang), "angles", "angle", judge=not cut.any() and p[np.isfinite(p)].min(initial=np.inf) > 1e-20, rt=rt)
    B = [b for v in ax["qu"]["bars"].values() for b in v]
    if c.check(len(B) == 1, "q-u-plane", "%d sets of points" % len(B)):
        c.close(B[0]["x"], q, "q-u-plane", rtol=rt, atol=rt * np.nanmax(np.abs(q)), what="q in the q-u plane")
        c.close(B[0]["y"], u, "q-u-plane", rtol=rt, atol=rt * np.nanmax(np.abs(u)), what="u in the q-u plane")
        # bars along both directions
        for k, z, e in ((0, q, dq), (1, u, du)):
            e = np.abs(np.broadcast_to(np.asarray(e, float), z.shape))
            ok = np.isfinite(q) & np.isfinite(u) & np.isfinite(e)
            if not ok.any() or not (e[ok] > 0).all():
                continue
            segs = [t for t in B[0]["seg"] if any(t_.shape == (2, 2) and np.isfinite(t_).all() and t_[0][k] != t_[1][k] and t_[0][1 - k] == t_[1][1 - k] for t_ in t)]
            if c.check(len(segs) == 1, "q-u-bars", lambda: "%d sets of bars along %s" % (len(segs), "qu"[k])):
                c.event("error_bars")
                have = sorted((max(t[0][k], t[1][k]) - min(t[0][k], t[1][k])) / 2 for t in segs[0] if t.shape == (2, 2) and np.isfinite(t).all())
                want = sorted(e[ok])
                if c.check(len(have) == len(want), "q-u-bars", lambda: "%d bars, %d channels" % (len(have), len(want))):
                    c.close(have, want, "q-u-bars", rtol=5 * rt, atol=rt * np.nanmax(np.abs(z)), what="lengths of the bars along %s" % "qu"[k])
        pts = ax["qu"]["points"]
        if c.check(len(pts) == 1, "q-u-points", lambda: "%d sets of coloured points" % len(pts)):
            have = pts[0][np.isfinite(pts[0]).all(axis=1)]
            ok = np.isfinite(q) & np.isfinite(u)
            if c.check(len(have) == ok.sum(), "q-u-points", lambda: "%d points, %d channels" % (len(have), ok.sum())):
                c.close(have, np.column_stack([q, u])[ok], "q-u-points", rtol=rt, atol=rt * max(np.nanmax(np.abs(q)), np.nanmax(np.abs(u))), what="coloured points of the q-u plane")
    return ax


def noises(c, figs, f, dQ, dU, units):
    got = pick(c, figs, "RMS ")
    if not c.check(len(got) == 1, "noise-figure", lambda: "%d figures of the noise" % len(got)):
        return
    c.event("noise_figures")
    a = got[0][0]
    c.check(a["y"] == "RMS " + units, "noise-units", a["y"])
    L = {k.replace("noise ", "").replace("rms ", ""): v for k, v in a["lines"].items()}
    for k, w in (("<QU>", (dQ + dU) / 2), ("Q", dQ), ("U", dU)):
        c.event("curves")
        if c.check(k in L and len(L[k]) == 1, "noise-curve", lambda: "curves %r" % list(a["lines"])):
            x, y = L[k][0]
            if c.close(x, f / 1e9, "noise-curve", rtol=1e-6, what="frequencies of the noise of " + k):
                c.close(y, w, "noise-curve", rtol=1e-5, what="noise of " + k)


def depth(c, figs, phi, F, phi2, R, fwhm, peak, units, zero=0.0):
    got = pick(c, figs, "Normalised Units", "Flux Density")
    if not c.check(len(got) >= 1, "depth-figure", lambda: "no figure of the spectrum and response among %r" % [[a["y"] for a in g] for g in figs]):
        return
    c.event("depth_figures")
    fig = got[-1]
    a1 = [a for a in fig if "Normalised" in a["y"]][0]
    a2 = [a for a in fig if "Flux" in a["y"]][0]
    for a, x, z, nm in ((a1, phi2, R, "response"), (a2, phi, F, "dispersion")):
        z = np.asarray(z, complex)
        for lab, y in (("Real", z.real), ("Imaginary", z.imag), ("PI", np.abs(z))):
            curve(c, a, lab, np.asarray(x, float), y, nm + "-curve", atol=2e-6 * np.nanmax(np.abs(z)))
    x = np.asarray(phi2, float)
    curve(c, a1, "Gaussian", x, np.nanmax(np.abs(R)) * np.exp(-4 * np.log(2) * ((x - zero) / fwhm) ** 2), "lobe-curve", rtol=1e-4, atol=1e-5)
    c.check("(%s)" % units in a2["y"], "depth-units", lambda: "%r for %r" % (a2["y"], units))
    v = [q[0] for q in a2["vert"] if q[0] == q[0]]
    if np.isfinite(peak):
        c.event("marked_peaks")
        if c.check(len(v) == 1, "peak-mark", lambda: "peak at %r, lines at %r" % (peak, v)):
            c.close(v[0], peak, "peak-mark", rtol=1e-6, atol=1e-6 * np.abs(phi).max(), what="marked peak")
    else:
        c.check(not v, "peak-mark", lambda: "no peak was fitted but %r is marked" % v)


NUM = r"([-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf))"


def report(c, text, want):
    """every 'name = value' line of the report against the returned measurements"""
    c.event("reports")
    lines = [l.strip() for l in text.split("\n")]
    for name, vals in want.items():
        g = [l for l in lines if l.startswith(name + " ") or l.startswith(name + "=")]
        g = [l for l in g if re.match(re.escape(name) + r"\s*=", l)]
        if not c.check(len(g) == 1, "report-line", lambda: "%d lines %r in %r" % (len(g), name, lines[-30:])):
            continue
        v = [float(x) for x in re.findall(r"(?<![\w^.])" + NUM + r"(?![\w^])", g[0].split("=", 1)[1].replace("+/-", " "))]
        if "sigma_add" in name:
            v = [abs(x) for x in v]
        if not c.check(len(v) >= len(vals), "report-line", lambda: "%r" % g[0]):
            continue
        for x, w in zip(v, vals):
            c.event("report_values")
            w = float(w)
            c.check(x == w or x != x and w != w or abs(x - w) <= 6e-4 * abs(w) + 1e-300, "report-value", lambda: "%r, expected %r" % (g[0], [float(z) for z in vals]))


def snr(d):
    return d


def logger(buf):
    return lambda *a, **k: buf.append(" ".join(str(x) for x in a))


def one_file(c, w, d, want, write):
    """files on disk: exactly those asked for"""
    have = sorted(os.listdir(d))
    c.check(have == sorted(want), "figure-files", lambda: "wrote %r, asked for %r" % (have, want))
    if write:
        for x in have:
            c.event("saved_files")
            c.check(open(os.path.join(d, x), "rb").read(5) == b"%PDF-", "figure-files", "%s is no figure" % x)


def prepared(c):
    """synthesis input and its fractional spectra"""
    from RMutils.util_misc import create_frac_spectra, calculate_StokesI_model
    r = c.rng
    d = r08.draw(r)
    while d["n"] > 200:
        d = r08.draw(r)
    step = d["fw"] / r.uniform(4, 8)
    half = int(r.integers(12, 90))
    if r.random() < .15:
        # a peak at zero depth, exactly
        d["t"], d["kind"] = 0.0, "thin"
        psi = np.radians(d["psi"])
        mk = np.isnan(d["Q"]), np.isnan(d["U"])
        d["Q"], d["U"] = [np.where(m, np.nan, g(2 * psi) * d["frac"] * np.abs(d["xtrue"])) for m, g in zip(mk, (np.cos, np.sin))]
    bits = int(r.choice([32, 64]))
    units = str(r.choice(["Jy/beam", "K", "mJy"]))
    data, kw = r08.build(d, dict(polyOrd=d["order"], nBits=bits, weightType=str(r.choice(["variance", "uniform"])), phiMax_radm2=half * step,
                                 dPhi_radm2=step, fit_function=d["fn"], fitRMSF=bool(r.random() < .3), super_resolution=bool(r.random() < .1), units=units))
    return d, data, kw, bits, units


def synthesis(c):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    from RMutils.util_misc import create_frac_spectra, calculate_StokesI_model
    from RMutils.util_RM import measure_qu_complexity
    r = c.rng
    d, data, kw, bits, units = prepared(c)
    show, save, debug, verbose = [bool(r.random() < p) for p in (.5, .55, .45, .6)]
    write = bool(r.random() < .12)
    dd = c.tmpdir()
    pre = os.path.join(dd, str(r.choice(["src", "a.b", "x_y"])))
    c.label = "synthesis" + ("-debug" if debug else "")
    c.context = dict(kind=d["kind"], Ikind=d["Ikind"], n=d["n"], show=show, save=save, debug=debug, verbose=verbose, flags=d["fl"], bits=bits)
    buf = []
    snap = c.snapshot(data=data)
    with Watch(r, write) as w, contextlib.redirect_stdout(io.StringIO()):
        m, a = run_rmsynth(data, showPlots=show, saveFigures=save, debug=debug, verbose=verbose, prefixOut=pre, log=logger(buf), **kw)
    c.unchanged(snap)
    c.check((w.shown > 0) >= show, "not-shown", "plots were asked for but not shown")
    figs = [f for f in w.figs if f]
    # the same without figures
    if r.random() < .3:
        with contextlib.redirect_stdout(io.StringIO()):
            m2, a2 = run_rmsynth([np.array(x) for x in data], log=r08.quiet, **kw)
        c.event("unaffected")
        for k in m2:
            x, y = m[k], m2[k]
            c.check(x == y or x != x and y != y, "figures-change-results", lambda: "%s %r, %r without figures" % (k, x, y))
        for k in a2:
            c.same(np.asarray(a[k]), np.asarray(a2[k]), "figures-change-results", k)
    want = []
    if save:
        base = os.path.basename(pre)
        want = [base + "_spectra-plots.pdf", base + "_RMSF-dirtyFDF-plots.pdf"] + ([base + ".debug-plots.pdf"] if debug else [])
        saved = {os.path.basename(x[1]): x[2] for x in w.saved}
    one_file(c, w, dd, want, write)
    if not (show or save):
        c.event("unasked")
        c.check(not pick(c, figs, "Fractional Polarisation") and not pick(c, figs, "Normalised Units"), "unasked-figures", "figures were drawn")
    # what the figures should hold, from the input at the run's precision
    dt = "float%d" % bits
    D = [np.asarray(x, dt) for x in data]
    if len(D) == 5:
        f, Q, U, dQ, dU = D
        I, dI = np.ones_like(Q), np.zeros_like(Q)
    else:
        f, I, Q, U, dI, dQ, dU = D
        if kw.get("noStokesI"):
            I, dI = np.ones_like(Q), np.zeros_like(Q)
    ms = kw.get("modStokesI")
    with contextlib.redirect_stdout(io.StringIO()):
        IM, q, u, dq, du, fit = create_frac_spectra(f, I, Q, U, dI, dQ, dU, polyOrd=kw["polyOrd"], fit_function=kw["fit_function"], modStokesI=None if ms is None else np.asarray(ms, dt))
    if ms is None:
        mod = lambda x: np.asarray(calculate_StokesI_model(fit, np.asarray(x)), float)
    else:
        o = np.argsort(f)
        mod = lambda x: np.interp(np.asarray(x), np.asarray(f, float)[o], np.asarray(ms, float)[o])
    f8 = np.asarray(f, float)
    arrs = (I, q, u, dI, dq, du)
    # where the Stokes I model nearly vanishes its rounding is magnified
    mag = np.abs(np.asarray(IM, float))
    mag = np.nanmax(mag) / max(np.nanmin(mag), 1e-30 * np.nanmax(mag))
    if show or save:
        sets = [figs] if show or not save else []
        if save:
            for nm in want[:2]:
                c.check(nm in saved, "not-saved", lambda: "%s not among %r" % (nm, list(saved)))
            sets.append(list(saved.values()))
        for s in sets:
            spectra(c, f8, arrs, mod, units, s, rt=2e-5 if mag < 20 or bits == 64 else 1e-6 * mag)
            depth(c, s, a["phiArr_radm2"], a["dirtyFDF"], a["phi2Arr_radm2"], a["RMSFArr"], m["fwhmRMSF"], m["phiPeakPIfit_rm2"], units)
        if save and "_RMSF" in want[1] and want[1] in saved and want[0] in saved:
            c.check(bool(pick(c, [saved[want[0]]], "Fractional")) and bool(pick(c, [saved[want[1]]], "Normalised")), "figures-swapped", "file names and figures do not go together")
    if debug:
        noises(c, figs, f8, np.asarray(dQ, float), np.asarray(dU, float), units)
        complexity(c, m, measure_qu_complexity, f, q, u, dq, du, [saved[want[2]]] if save and want[2] in saved else figs, bits)
    if verbose:
        report(c, "\n".join(buf), {
            "FWHM RMSF": [m["fwhmRMSF"]], "Pol Angle": [m["polAngleFit_deg"], m["dPolAngleFit_deg"]], "Pol Angle 0": [m["polAngle0Fit_deg"], m["dPolAngle0Fit_deg"]],
            "Peak FD": [m["phiPeakPIfit_rm2"], m["dPhiPeakPIfit_rm2"]], "freq0_GHz": [m["freq0_Hz"] / 1e9], "I freq0": [m["Ifreq0"]],
            "Peak PI": [m["ampPeakPIfit"], m["dAmpPeakPIfit"]], "QU Noise": [m["dQU"]], "FDF Noise (theory)": [m["dFDFth"]], "FDF Noise (Corrected MAD)": [m["dFDFcorMAD"]],
            "FDF SNR": [m["snrPIfit"]], "sigma_add (combined)": [m["sigmaAddC"], m["dSigmaAddPlusC"], m["dSigmaAddMinusC"]], "Fitted polynomial order": [m["polyOrd"]]})
        for nm in ("I freq0", "Peak PI", "QU Noise"):
            l = [x for x in buf if x.startswith(nm + " =")]
            c.check(l and l[0].strip().endswith(units), "report-unit", lambda: repr(l))
    c.observed((c.seed, c.idx), c.context)


def complexity(c, m, measure, f, q, u, dq, du, figs, bits=64):
    got = pick(c, figs, "chi", "Cumulative Likelihood")
    if not c.check(len(got) == 1, "complexity-figure", lambda: "%d complexity figures among %r" % (len(got), [[a["y"] for a in g] for g in figs])):
        return
    c.event("complexity_figures")
    fig = got[0]
    mD, p = measure(freqArr_Hz=f, qArr=q, uArr=u, dqArr=dq, duArr=du, fracPol=m["fracPol"], psi0_deg=m["polAngle0Fit_deg"], RM_radm2=m["phiPeakPIfit_rm2"])
    P = {k: np.asarray(v, float) for k, v in p.items()}
    col = {}
    # residuals of single-precision spectra are as good as their rounding
    with np.errstate(all="ignore"):
        slack = {s: 0.0 if bits == 64 else 3e-6 * (2 + abs(np.nan_to_num(m["phiPeakPIfit_rm2"])) * gen.lam2(np.asarray(f, float)).max()) * np.nanmax(np.hypot(q, u) / np.abs(e), initial=0) for s, v, e in (("Q", q, dq), ("U", u, du))}

    def pair(a, curves, what):
        """both curves of a panel, in any order, but always in the same colours"""
        for s in "QU":
            x, y = curves[s]
            ok = [g[2] for g in a["unnamed"] if g[0].shape == x.shape and np.allclose(g[0], x, rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(x), initial=0), equal_nan=True)
                  and np.allclose(g[1], y, rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(y), initial=0), equal_nan=True)]
            c.event("curves")
            if c.check(len(ok) >= 1, what, lambda: "no curve of the %s panel is that of %s" % (what, s)):
                if len(ok) == 1:
                    col.setdefault(s, set()).add(ok[0])
    by = lambda y: [a for a in fig if y in a["y"]]
    a = by("Normalised Residual")
    if c.check(len(a) == 1, "residuals", "%d panels" % len(a)):
        B = [b for v in a[0]["bars"].values() for b in v]
        if c.check(len(B) == 2, "residuals", "%d sets" % len(B)):
            for s, b in zip("QU", B):
                errorbars(c, b, P["xArr" + s], P["yArr" + s], P["dyArr" + s], "residuals", "residuals of " + s, slack=slack[s])
                col.setdefault(s, set()).add(b["color"])
    c.check(len(col) < 2 or col["Q"] != col["U"], "complexity-colours", lambda: repr(col))
    if bits != 64 or not np.isfinite(P["yArrQ"]).any():
        return
    a = by("chi")
    pair(a[0], {s: (P["sigmaAddArr" + s], P["chiSqRedArr" + s]) for s in "QU"}, "chi-squared")
    a = by("P(")
    if c.check(len(a) == 1, "likelihood", "%d panels" % len(a)):
        pair(a[0], {s: (P["sigmaAddArr" + s], P["probArr" + s]) for s in "QU"}, "likelihood")
        c2 = by("Cumulative")[0]
        with np.errstate(all="ignore"):
            pair(c2, {s: (P["sigmaAddArr" + s], np.cumsum(P["probArr" + s]) / np.sum(P["probArr" + s])) for s in "QU"}, "cumulative")
        for z in (a[0], c2):
            have = sorted(v[0] for v in z["vert"])
            exp = sorted(float(v) for s in "QU" for v in (m["sigmaAdd" + s], m["sigmaAdd" + s] + m["dSigmaAddPlus" + s], m["sigmaAdd" + s] - m["dSigmaAddMinus" + s]))
            if c.check(len(have) == 6, "likelihood-marks", lambda: repr(have)):
                c.close(have, exp, "likelihood-marks", rtol=1e-6, atol=1e-9 * max(map(abs, exp)), what="median and interval marks")
    c.check(all(len(v) == 1 for v in col.values()) and col.get("Q") != col.get("U"), "complexity-colours", lambda: repr(col))


def cleaning(c):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    from RMtools_1D.do_RMclean_1D import run_rmclean
    r = c.rng
    d, data, kw, bits, units = prepared(c)
    with contextlib.redirect_stdout(io.StringIO()):
        m, a = run_rmsynth(data, log=r08.quiet, **kw)
    dirty = np.asarray(a["dirtyFDF"], complex)
    pk = np.abs(dirty).max()
    if not np.isfinite(pk) or not m["dFDFth"] > 0:
        return
    target = pk * 10 ** r.uniform(-1.3, -.1)
    cut = target if r.random() < .5 else -target / m["dFDFth"]
    win = None if r.random() < .5 else target * r.uniform(.2, 1) if r.random() < .7 else target * r.uniform(1, 2.5)
    if win is not None and r.random() < .5:
        win = -win / m["dFDFth"]
    show, save, verbose = [bool(r.random() < p) for p in (.5, .55, .7)]
    write = bool(r.random() < .12)
    dd = c.tmpdir()
    pre = os.path.join(dd, str(r.choice(["src", "a.b", "x_y"])))
    c.label = "cleaning" + ("-window" if win is not None else "")
    c.context = dict(kind=d["kind"], cutoff=cut, window=win, show=show, save=save, verbose=verbose, bits=bits)
    buf = []
    args = dict(maxIter=int(r.choice([1000, 30])), gain=float(r.choice([.1, .3])), nBits=bits, **({} if win is None else dict(window=win)))
    snap = c.snapshot(m=m, a=a)
    with Watch(r, write) as w, contextlib.redirect_stdout(io.StringIO()):
        mc, ac = run_rmclean(m, a, cut, showPlots=show, saveFigures=save, verbose=verbose, prefixOut=pre, log=logger(buf), **args)
    c.unchanged(snap)
    c.check((w.shown > 0) >= show, "not-shown", "plots were asked for but not shown")
    if r.random() < .3:
        m2, a2 = run_rmclean(m, a, cut, log=r08.quiet, **args)
        c.event("unaffected")
        for k in m2:
            x, y = mc[k], m2[k]
            c.check(np.all(x == y) or np.all(x != x) and np.all(y != y), "figures-change-results", lambda: "%s %r, %r without figures" % (k, x, y))
    base = os.path.basename(pre)
    one_file(c, w, dd, [base + "_cleanFDF-plots.pdf"] if save else [], write)
    sets = []
    if show:
        sets.append([g for g in w.figs if g])
    if save:
        sets.append([x[2] for x in w.saved])
    if not (show or save):
        c.event("unasked")
        c.check(not pick(c, w.figs, "Flux Density"), "unasked-figures", "figures were drawn")
    ab = lambda v: np.abs(np.asarray(v, complex))
    phi = np.asarray(ac["phiArr_radm2"], float)
    clean, cc, res = [ab(ac[k]) for k in ("cleanFDF", "ccArr", "residFDF")]
    wabs = None if win is None else abs(win) * (m["dFDFth"] if win < 0 else 1)
    for s in sets:
        got = [g for g in s if len(g) == 2 and any("Clean FDF" in x["lines"] for x in g)]
        if not c.check(len(got) == 1, "clean-figure", lambda: "%d figures, panels %r" % (len(got), [[list(x["lines"]) for x in g] for g in s])):
            continue
        c.event("clean_figures")
        top = [x for x in got[0] if "Clean FDF" in x["lines"]][0]
        low = [x for x in got[0] if x is not top][0]
        for x, L in ((top, dict(zip(["Dirty FDF", "Clean Components", "Residual FDF", "Clean FDF"], [ab(dirty), cc, res, clean]))),
                     (low, dict(zip(["Clean Components", "Residual FDF"], [cc, res])))):
            for lab, y in L.items():
                curve(c, x, lab, phi, y, "clean-curve", atol=3e-6 * pk)
            c.check("(%s)" % units in x["y"], "clean-units", x["y"])
            h = {n: v for v, n in x["horiz"]}
            if c.check("Clean cutoff" in h, "cutoff-line", repr(h)):
                c.close(h["Clean cutoff"], abs(target), "cutoff-line", rtol=1e-5, what="cutoff line")
            if wabs is not None and c.check("Window cutoff" in h, "window-line", repr(h)):
                c.close(h["Window cutoff"], wabs, "window-line", rtol=1e-5, what="window line")
            if wabs is None:
                c.check("Window cutoff" not in h, "window-line", repr(h))
    if verbose:
        report(c, "\n".join(buf), {
            "Pol Angle": [mc["polAngleFit_deg"], mc["dPolAngleFitObserved_deg"], mc["dPolAngleFit_deg"]],
            "Pol Angle 0": [mc["polAngle0Fit_deg"], mc["dPolAngleFit0Observed_deg"], mc["dPolAngle0Fit_deg"]],
            "Peak FD": [mc["phiPeakPIfit_rm2"], mc["dPhiObserved_rm2"], mc["dPhiPeakPIfit_rm2"]], "freq0_GHz": [m["freq0_Hz"] / 1e9], "I freq0": [m["Ifreq0"]],
            "Peak PI": [mc["ampPeakPIfit"], mc["dAmpObserved"], mc["dAmpPeakPIfit"]], "QU Noise": [m["dQU"]], "FDF Noise (theory)": [m["dFDFth"]],
            "FDF Noise (Corrected MAD)": [mc["dFDFcorMAD"]], "FDF SNR": [mc["snrPIfit"]]})
    c.observed((c.seed, c.idx), c.context)


def bwdepol(c):
    from RMtools_1D import rmtools_bwdepol as B
    from RMutils.util_misc import create_frac_spectra, calculate_StokesI_model
    from RMutils.util_RM import measure_qu_complexity
    from checks.r22 import channels, average
    r = c.rng
    f, w = channels(r, int(r.integers(14, 40)))
    n = len(f)
    hasI, hasW = r.random() < .6, r.random() < .5
    W = w if hasW else np.full(n, f[1] - f[0])
    l2 = gen.lam2(f)
    fw = 2 * np.sqrt(3) / (l2.max() - l2.min())
    d = fw * r.uniform(.1, .3)
    N = int(r.integers(20, 70))
    phi0 = float(r.uniform(-.6, .6) * N * d)
    p0 = float(r.uniform(.05, .7))
    P = p0 * np.exp(2j * np.radians(r.uniform(0, 180))) * average(f, W, phi0)
    sq = p0 * 10 ** r.uniform(-3, -1.3) * (np.ones(n) if r.random() < .5 else r.uniform(.4, 2, n))
    su = sq * (1 if r.random() < .5 else r.uniform(.5, 2))
    q, u = P.real + sq * r.normal(size=n), P.imag + su * r.normal(size=n)
    I = 10 ** r.uniform(-3, 2) * (f / 1e9) ** r.uniform(-1.5, 1) if hasI else np.ones(n)
    cols = [f] + ([W] if hasW else []) + ([I, q * I, u * I, I * 1e-2 * r.uniform(.5, 2, n), sq * I, su * I] if hasI else [q, u, sq, su])
    if r.random() < .3:
        z = r.random(n) < .15
        z[:3] = False
        for k in (-4, -3) if not hasI else (-5, -4):
            cols[k] = np.where(z, np.nan, cols[k])
    show, debug, verbose = [bool(r.random() < x) for x in (.75, .4, .6)]
    units = str(r.choice(["Jy/beam", "K"]))
    kw = dict(polyOrd=2, phiMax_radm2=N * d, dPhi_radm2=d, weightType=str(r.choice(["variance", "uniform"])), fitRMSF=bool(r.random() < .8))
    c.label = "bwdepol"
    c.context = dict(columns=len(cols), n=n, show=show, debug=debug, verbose=verbose, options=kw)
    buf = []
    with Watch(r, False) as w_, contextlib.redirect_stdout(io.StringIO()):
        m, a = B.run_adjoint_rmsynth([np.array(x) for x in cols], showPlots=show, debug=debug, verbose=verbose, units=units, log=logger(buf), **kw)
    figs = [g for g in w_.figs if g]
    c.check((w_.shown > 0) >= show, "not-shown", "plots were asked for but not shown")
    if not show:
        c.event("unasked")
        c.check(not pick(c, figs, "Fractional Polarisation") and not pick(c, figs, "Normalised Units"), "unasked-figures", "figures were drawn")
    z = cols[2:] if hasW else cols[1:]
    Iz, Q, U, dI, dQ, dU = z if hasI else [np.ones(n), z[0], z[1], np.zeros(n), z[2], z[3]]
    with contextlib.redirect_stdout(io.StringIO()):
        IM, q, u, dq, du, fit = create_frac_spectra(f / 1e9, *[np.asarray(x, float) for x in (Iz, Q, U, dI, dQ, dU)], polyOrd=2)
    if show:
        c.event("bwdepol_figures")
        mod = lambda x: np.asarray(calculate_StokesI_model(fit, np.asarray(x) / 1e9), float)
        spectra(c, f, (Iz, q, u, dI, dq, du), mod, units, figs)
        R = np.asarray(a["RMSFArr"], complex)
        pr = np.asarray(a["phi2Arr_radm2"], float)
        F = np.asarray(a["dirtyFDF"], complex)
        ph = np.asarray(a["phiArr_radm2"], float)
        depth(c, figs, ph, F, pr, R, m["fwhmRMSF"], m["phiPeakPIfit_rm2"], units, zero=lobe(c, figs, pr, R))
        got = pick(c, figs, "S:N multiplier", "Sensitivity")
        if c.check(len(got) == 1, "sensitivity-figure", "%d figures" % len(got)):
            for x in got[0]:
                c.check(len(x["unnamed"]) == 1 and np.allclose(x["unnamed"][0][0], ph, rtol=1e-6, atol=1e-6 * np.abs(ph).max()), "sensitivity-figure", "axis of %r" % x["y"])
            s = [x for x in got[0] if x["y"] == "Sensitivity"][0]["unnamed"][0][1]
            t = [x for x in got[0] if "multiplier" in x["y"]][0]["unnamed"][0][1]
            wt = np.where(np.isfinite(q) & np.isfinite(u), 1.0, 0)
            dqu = (np.asarray(dQ, "float32") + np.asarray(dU, "float32")) / 2.0
            ww = wt / np.where(wt > 0, dqu.astype(float), 1) ** 2 if kw["weightType"] == "variance" else wt
            K = 1 / ww.sum()
            R2 = np.array([np.abs(average(f, W, x)) ** 2 for x in ph])
            sens = K * (ww * R2).sum(axis=1)
            c.close(s, sens, "sensitivity-curve", rtol=2e-3, atol=2e-6, what="sensitivity curve")
            noise = np.sqrt(((ww * np.where(wt > 0, dqu.astype(float), 0)) ** 2 * R2).sum(axis=1))
            c.close(t, sens / noise * noise.max(), "multiplier-curve", rtol=5e-3, atol=5e-6, what="signal-to-noise multiplier")
    if debug:
        if show:
            noises(c, figs, f, np.asarray(dQ, float), np.asarray(dU, float), units)
        complexity(c, m, measure_qu_complexity, f, q, u, dq, du, figs)
    if verbose:
        report(c, "\n".join(buf), {
            "FWHM RMSF": [m["fwhmRMSF"]], "Pol Angle": [m["polAngleFit_deg"], m["dPolAngleFit_deg"]], "Pol Angle 0": [m["polAngle0Fit_deg"], m["dPolAngle0Fit_deg"]],
            "Peak FD": [m["phiPeakPIfit_rm2"], m["dPhiPeakPIfit_rm2"]], "freq0_GHz": [m["freq0_Hz"] / 1e9], "I freq0": [m["Ifreq0"]],
            "Peak PI": [m["ampPeakPIfit"], m["dAmpPeakPIfit"]], "QU Noise": [m["dQU"]], "FDF Noise (Corrected MAD)": [m["dFDFcorMAD"]], "FDF SNR": [m["snrPIfit"]],
            "sigma_add (combined)": [m["sigmaAddC"], m["dSigmaAddPlusC"], m["dSigmaAddMinusC"]]})
    c.observed((c.seed, c.idx), c.context)


def lobe(c, figs, x, R):
    """the depth the response of a bandwidth-depolarised source is centred on: that of the strongest sample of the spectrum"""
    got = pick(c, figs, "Normalised Units", "Flux Density")
    if not got:
        return 0.0
    a = [q for q in got[-1] if "Normalised" in q["y"]][0]
    g = a["lines"].get("Gaussian")
    return float(g[0][0][np.argmax(g[0][1])]) if g else 0.0


def qufit(c):
    import warnings
    warnings.simplefilter("ignore")
    import bilby
    bilby.core.utils.logger.setLevel("ERROR")
    from RMtools_1D import do_QUfit_1D_mnest as K
    from RMutils.util_misc import create_frac_spectra, calculate_StokesI_model
    from checks import r21
    from checks.r20 import want as formula
    r21.register()
    r = c.rng
    S = r21.STATE
    m = int(r.choice([1, 2, 4, 6, 11]))
    d = c.tmpdir()
    here = os.getcwd()
    os.chdir(d)
    try:
        mod, names = r21.names_of(m)
    finally:
        os.chdir(here)
    f, l2 = r21.spectrum(r, m)
    fw = 3.8 / (l2.max() - l2.min())
    bounds = {k: [float(mod.priors[k].minimum), float(mod.priors[k].maximum)] for k in names}
    truth = {k: float(r.uniform(*b)) for k, b in bounds.items()}
    fr = [k for k in names if k.startswith("fracPol")]
    for k in fr:
        truth[k] = float(r.uniform(.05, .9) / len(fr))
    for k in names:
        if k.startswith("psi"):
            truth[k] = float(r.uniform(20, 160))
    S.clear()
    S["width"] = {k: (b[1] - b[0]) * 10 ** r.uniform(-3.5, -2.5) if not (k.startswith("RM") or k.startswith("delta")) else fw * .02 for k, b in bounds.items()}
    n = len(f)
    P = formula(m, truth, l2)
    sq, su = .01 * r.uniform(.5, 2, n), .01 * r.uniform(.5, 2, n)
    q, u = P.real + sq * r.normal(size=n), P.imag + su * r.normal(size=n)
    I = 10 ** r.uniform(-3, 1) * (f / f.mean()) ** r.uniform(-1, 1)
    withI = r.random() < .6
    data = [f, I, q * I, u * I, I * 1e-2, sq * I, su * I] if withI else [f, q, u, sq, su]
    if r.random() < .4:
        z = r.random(n) < .2
        z[:4] = False
        for j in ([2, 3] if withI else [1, 2]):
            data[j] = np.where(z, np.nan, data[j])
    S["lnz"], S["dlnz"] = float(r.normal() * 50), .1
    S["draw_points"] = lambda keys, tr: []
    seed = int(r.integers(2 ** 31))
    S["posterior"] = lambda keys: r21.planned(np.random.default_rng(seed), keys, truth, 301)
    show = bool(r.random() < .5)
    fn = str(r.choice(["log", "linear"]))
    c.label = "qufit-m%d" % m
    c.context = dict(model=m, n=n, withI=withI, show=show, truth=truth)
    pre = os.path.join(d, "src")
    from matplotlib.backends.backend_agg import FigureCanvasAgg as A
    old, A.draw = A.draw, lambda self, *a, **k: None
    os.chdir(d)
    try:
        said = io.StringIO()
        with Watch(r, False) as w, contextlib.redirect_stdout(said):
            K.run_qufit([np.array(x) for x in data], m, polyOrd=2, sampler="rvm", fit_function=fn, nlive=50, prefixOut=pre, showPlots=show)
    finally:
        os.chdir(here)
        A.draw = old
    names_ = [os.path.basename(x[1]) for x in w.saved]
    fit_ = [x for x in w.saved if os.path.basename(x[1]) == "src_fig_m%d_specfit.pdf" % m or os.path.basename(x[1]) == "srcfig_m%d_specfit.pdf" % m]
    if not c.check(len(fit_) == 1 and any("corner" in x for x in names_), "fit-figures", lambda: "saved %r" % names_):
        return
    c.event("fit_figures")
    D = [np.asarray(x, float) for x in data]
    Iz, Q, U, dI, dQ, dU = D[1:] if withI else [np.ones(n), D[1], D[2], np.zeros(n), D[3], D[4]]
    with contextlib.redirect_stdout(io.StringIO()):
        IM, q, u, dq, du, fit = create_frac_spectra(f, Iz, Q, U, dI, dQ, dU, polyOrd=2, fit_function=fn)
    mI = lambda x: np.asarray(calculate_StokesI_model(fit, np.asarray(x)), float)
    ax = spectra(c, f, (Iz, q, u, dI, dq, du), mI, None, [fit_[0][2]])
    if ax is None:
        return
    import json
    js = [x for x in os.listdir(d) if x.endswith("_nest.json") or x.endswith(".json")]
    if not c.check(len(js) >= 1, "fit-result", lambda: repr(os.listdir(d))):
        return
    res = [json.load(open(os.path.join(d, x))) for x in js]
    res = [x for x in res if "values" in x and "parNames" in x]
    if not c.check(len(res) == 1, "fit-result", "no result file"):
        return
    best = dict(zip(res[0]["parNames"], res[0]["values"]))
    lines = said.getvalue().split("\n")
    for k, v, hi, lo in zip(res[0]["parNames"], res[0]["values"], res[0]["errPlus"], res[0]["errMinus"]):
        c.event("report_values")
        g = [l for l in lines if re.match(re.escape(k) + r" = \S+ \(\+", l)]
        if c.check(len(g) == 1, "report-line", lambda: "%d lines for %s" % (len(g), k)):
            t = re.findall(NUM, g[0].split("=", 1)[1])
            z = [float(t[0]), abs(float(t[1])), abs(float(t[2]))]
            c.check(all(abs(x - abs(y) * (np.sign(y) if i == 0 else 1)) <= (6e-4 if i == 0 else 1e-5) * abs(y) + 1e-300 for i, (x, y) in enumerate(zip(z, (v, hi, lo)))), "report-value",
                    lambda: "%r, expected %r" % (g[0], (v, hi, lo)))
    # the posterior drawn from, with the angles as reported
    post = [dict(zip(S["keys"], row)) for row in S["samples"]]
    for lab, part in (("Model q", np.real), ("Model u", np.imag), ("Model p", np.abs)):
        L = ax["p"]["lines"].get(lab)
        if c.check(L is not None and len(L) == 1, "fit-curve", lambda: "curves %r" % list(ax["p"]["lines"])):
            x, y = L[0]
            c.event("curves")
            c.check(len(x) > 100 and abs(x.min() / l2.min() - 1) < 1e-6 and abs(x.max() / l2.max() - 1) < 1e-6, "fit-curve", lambda: "from %r to %r" % (x.min(), x.max()))
            c.close(y, part(formula(m, best, x)), "fit-curve", rtol=1e-5, atol=1e-7, what=lab)
    L = ax["psi"]["lines"]
    g = [v for v in L.values()]
    if c.check(len(g) == 1 and len(g[0]) == 1, "fit-curve", lambda: "angle curves %r" % list(L)):
        x, y = g[0][0]
        c.close(np.exp(2j * np.radians(y)), np.exp(1j * np.angle(formula(m, best, x))), "fit-curve", rtol=0, atol=1e-5 + 1e-6 / np.abs(formula(m, best, x)).min(), what="angle of the model")
    L = ax["qu"]["lines"].get("Model q & u")
    if c.check(L is not None, "fit-curve", lambda: "q-u curves %r" % list(ax["qu"]["lines"])):
        g = ax["p"]["lines"]
        if "Model q" in g and "Model u" in g:
            c.same(L[0][0], g["Model q"][0][1], "fit-curve", "q of the model in the q-u plane")
            c.same(L[0][1], g["Model u"][0][1], "fit-curve", "u of the model in the q-u plane")
    # the band is the central 68 per cent of the posterior's predictions
    xs = None
    for u_ in ax["p"]["unnamed"]:
        if len(u_[0]) > 100:
            xs = u_[0]
            break
    if c.check(xs is not None and len(ax["p"]["bands"]) >= 2, "band", lambda: "%d bands" % len(ax["p"]["bands"])):
        c.event("bands")
        k = np.unique(np.linspace(0, len(xs) - 1, 9).astype(int))
        Z = np.array([formula(m, q_, xs[k]) for q_ in post])
        med = [t for t in ax["p"]["unnamed"] if len(t[0]) == len(xs)]
        for i, part in enumerate((np.real, np.imag, np.abs)):
            if i >= len(med) or i >= len(ax["p"]["bands"]):
                c.check(False, "band", "%d medians, %d bands" % (len(med), len(ax["p"]["bands"])))
                break
            V = part(Z)
            eps = 1e-9 + 1e-6 * np.abs(V).max()
            rank = lambda y: ((V < y - eps).mean(0), (V <= y + eps).mean(0))
            lo, hi = rank(med[i][1][k])
            c.check((lo < .60).all() and (hi > .40).all(), "band-median", lambda: "median curve of %s at ranks %r to %r of the posterior" % (part.__name__, lo, hi))
            v = ax["p"]["bands"][i]
            for j in k:
                col = v[np.abs(v[:, 0] - xs[j]) < 1e-9 * xs[j], 1]
                if len(col) < 2:
                    continue
                a_, b_ = col.min(), col.max()
                W = V[:, list(k).index(j)]
                c.check((W < a_ - eps).mean() < .24 and (W <= a_ + eps).mean() > .08 and (W < b_ - eps).mean() < .92 and (W <= b_ + eps).mean() > .76, "band",
                        lambda: "band of %s from rank %.3f to %.3f" % (part.__name__, (W <= a_).mean(), (W <= b_).mean()))
    c.observed((c.seed, c.idx), c.context)
