"""R16: frequency and linear axes from FITS headers."""
import os
import numpy as np
import astropy.io.fits as pf
from rvm import cube
from checks.r09 import run_main, sha

CASES = {"quick": 1500, "thorough": 40000}
RULE = ("random headers (frequency on axis 1 to 4, units Hz to GHz, either sign of increment, any reference pixel, up to 3000 channels) through the library, "
        "the file-writing tool and the linear-axis reader; every channel against exact rational arithmetic; distinct by draw")
MIN_EVENTS = {"frequency_lists": 700, "channels_compared": 40000, "text_files": 250, "linear_axes": 1200, "axis_samples": 60000, "negative_increments": 300,
              "not_third_axis": 200, "other_units": 150}
ASSUMPTIONS = ["linear frequency axes labelled FREQ"]


def run_case(c):
    from RMtools_3D import make_freq_file as M
    from RMutils.util_RM import fits_make_lin_axis
    from fractions import Fraction as Fr
    r = c.rng
    n = int(r.choice([int(r.integers(1, 60)), int(r.integers(1, 400)), int(r.integers(400, 3000))], p=[.6, .3, .1]))
    if c.idx % 2:
        # any axis of a plain header
        h = pf.Header()
        nd = int(r.integers(1, 5))
        h["NAXIS"] = nd
        ax = int(r.integers(nd))
        for i in range(1, nd + 1):
            h["NAXIS%d" % i] = n if i == ax + 1 else int(r.integers(1, 9))
            h["CRVAL%d" % i] = float("%.6g" % (r.normal() * 10 ** r.uniform(-3, 9)))
            h["CRPIX%d" % i] = float(np.round(r.uniform(-50, n + 50), int(r.integers(0, 3))))
            h["CDELT%d" % i] = float(10 ** r.uniform(-6, 7) * r.choice([1, -1]))
            if r.random() < .5:
                h["CDELT%d" % i] = float(r.choice([.1, .3, -.1, 1 / 3., 1e-3, .7, -.9, 2.5e5]))
        if h["CDELT%d" % (ax + 1)] < 0:
            c.event("negative_increments")
        dt = str(r.choice(["f4", "float64", "float32", "float64"]))
        got = np.asarray(fits_make_lin_axis(h, axis=ax, dtype=dt))
        c.label = "linear"
        c.context = dict(n=n, naxis=nd, axis=ax, dtype=dt, crval=h["CRVAL%d" % (ax + 1)], crpix=h["CRPIX%d" % (ax + 1)], cdelt=h["CDELT%d" % (ax + 1)])
        c.event("linear_axes")
        if c.check(len(got) == n, "axis-length", lambda: "%d entries for %d pixels" % (len(got), n)):
            c.event("axis_samples", n)
            i = str(ax + 1)
            w = np.array([float(Fr(h["CRVAL" + i]) + (k + 1 - Fr(h["CRPIX" + i])) * Fr(h["CDELT" + i])) for k in range(n)])
            big = abs(h["CRVAL" + i]) + abs(h["CDELT" + i]) * (n + abs(h["CRPIX" + i]))
            c.close(got.astype(float), w, "axis-values", rtol=0, atol=big * (1e-13 if dt == "float64" else 1.3e-7), what="linear axis")
            c.check(got.dtype == np.dtype(dt), "axis-type", str(got.dtype))
        c.event("linear_axes")
        c.check(len(fits_make_lin_axis(h, axis=nd)) == 0, "missing-axis", "an axis beyond NAXIS gave values")
        c.observed((c.seed, c.idx), c.context)
        return
    lay = int(r.integers(1, 5))
    nd = int(r.integers(max(lay, 1), 5)) if lay > 1 else int(r.integers(1, 5))
    nd = max(nd, lay)
    h = pf.Header()
    dims = [1] * nd
    dims[lay - 1] = n
    rest = [i for i in range(1, nd + 1) if i != lay]
    if len(rest) >= 2:
        tmp = pf.Header()
        cube.sky(r, tmp)
        for j, i in enumerate(rest[:2]):
            for q in ("CTYPE", "CRVAL", "CDELT", "CRPIX", "CUNIT"):
                h[q + str(i)] = tmp[q + str(j + 1)]
            dims[i - 1] = int(r.integers(1, 4))
    if len(rest) == 3:
        i = rest[2]
        h["CTYPE%d" % i], h["CRVAL%d" % i], h["CDELT%d" % i], h["CRPIX%d" % i] = "STOKES", 1.0, 1.0, 1.0
    unit = str(r.choice(["Hz", "Hz", "Hz", "MHz", "GHz", "kHz", "none"]))
    scale = {"Hz": 1, "MHz": 10 ** 6, "GHz": 10 ** 9, "kHz": 10 ** 3, "none": 1}[unit]
    f0 = float("%.9g" % (r.uniform(5e7, 9e9) / scale))
    df = float("%.7g" % (10 ** r.uniform(3, 7) * (1 if r.random() < .7 else -1) / scale))
    if abs(df) * n > .8 * f0:
        df = float("%.7g" % (np.sign(df) * .5 * f0 / n))
    if df < 0:
        c.event("negative_increments")
    ref = float(r.choice([1., float(r.integers(1, n + 1)), float(np.round(r.uniform(1, n + 1), 1))]))
    s = str(lay)
    h["CTYPE" + s], h["CRVAL" + s], h["CDELT" + s], h["CRPIX" + s] = "FREQ", f0, df, ref
    if unit != "none":
        h["CUNIT" + s] = unit
        if unit != "Hz":
            c.event("other_units")
    if r.random() < .3:
        h["RESTFRQ"] = 1.42e9
    if r.random() < .3:
        h["SPECSYS"] = "TOPOCENT"
    if lay != 3:
        c.event("not_third_axis")
    d = c.tmpdir()
    p = os.path.join(d, "x.fits")
    pf.writeto(p, np.zeros(dims[::-1], "float32"), h, output_verify="silentfix")
    s0 = sha(p)
    want = np.array([float((Fr(f0) + (k + 1 - Fr(ref)) * Fr(df)) * scale) for k in range(n)])
    c.label = "frequency"
    c.context = dict(n=n, axis=lay, naxis=nd, unit=unit, crval=f0, cdelt=df, crpix=ref)
    got = np.asarray(M.get_freq_array(p), float)
    c.event("frequency_lists")
    if c.check(got.shape == (n,), "frequency-count", lambda: "shape %s for %d channels" % (got.shape, n)):
        c.event("channels_compared", n)
        c.close(got, want, "frequency-values", rtol=1e-11, what="channel frequencies")
    if r.random() < .5:
        cwd = c.tmpdir()
        o = os.path.join(cwd, "f.dat")
        run_main(M.save_freq_file, ["rmtools_freqfile", p, "f.dat"], cwd, local=False)
        c.event("text_files")
        g = np.atleast_1d(np.loadtxt(o))
        c.close(g, got, "frequency-file", rtol=1e-15, what="frequency file")
        from RMtools_3D.do_RMsynth_3D import readFreqFile
        if n > 1:
            c.close(np.asarray(readFreqFile(o, False)), got, "frequency-file-read", rtol=1e-15, what="frequency file read by the synthesis tool")
    c.check(sha(p) == s0, "input-file-modified", p)
    c.observed((c.seed, c.idx), c.context)
