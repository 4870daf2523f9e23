"""R28: input that cannot be right is refused, and nothing is written, changed or overwritten."""
import contextlib, importlib, io, os, re, shutil
import numpy as np
import astropy.io.fits as pf
from rvm import gen, cube
from checks.r09 import run_main, sha

CASES = {"quick": 1500, "thorough": 24000}
RULE = ("every command-line tool with intact input (a control for part of the draws) and with one of about 130 faults: missing, empty, ragged or textual files, "
        "cubes, lists and product sets that disagree on one axis, incomplete chunks, limits outside the image, contradictory options, existing outputs; the whole "
        "directory tree compared before and after; mismatched arrays given to the library; distinct by draw")
MIN_EVENTS = {"refusals": 1100, "controls": 250, "files_compared": 6000, "library_refusals": 120, "with_earlier_products": 150}
ASSUMPTIONS = ["a refusal is a message or an exception; the exit status is not claimed", "figures count as files, too"]
CASE_LIMIT = {"quick": 150, "thorough": 200}


def snap(d):
    return {os.path.relpath(os.path.join(q, x), d): sha(os.path.join(q, x)) for q, _, fs in os.walk(d) for x in fs}


def dirs(d):
    return {os.path.relpath(os.path.join(q, x), d) for q, ds, _ in os.walk(d) for x in ds}


# ----------------------------------------------------------------- inputs
class In:
    """a directory with good input for every tool, and the sizes it was made with"""
    def __init__(s, c, r):
        s.c, s.r, s.d = c, r, c.tmpdir()
        s.n = int(r.integers(6, 30))
        s.ny, s.nx = [(3, 4), (2, 5), (4, 4), (1, 4), (3, 1), (5, 2)][int(r.integers(6))]
        s.f = np.linspace(1, r.uniform(1.2, 2), s.n) * 10 ** r.uniform(8.5, 9.5)
        s.l2 = gen.lam2(s.f)
        s.fw = gen.fwhm_of(s.l2)
        s.pre = str(r.choice(["", "a_", "obs1."]))
        s.layout = str(r.choice(cube.LAYOUTS))

    def p(s, *a):
        return os.path.join(s.d, *a)

    def sky(s):
        h = pf.Header()
        for i, t, v, dl in ((1, "RA---SIN", 10., -.01), (2, "DEC--SIN", 20., .01), (3, "FREQ", s.f[0], s.f[1] - s.f[0])):
            h["CTYPE%d" % i], h["CRVAL%d" % i], h["CRPIX%d" % i], h["CDELT%d" % i] = t, v, 1., dl
        h["CUNIT1"] = h["CUNIT2"] = "deg"
        h["CUNIT3"] = "Hz"
        if s.layout == "4f3":
            h["CTYPE4"], h["CRVAL4"], h["CRPIX4"], h["CDELT4"] = "STOKES", 1., 1., 1.
        elif s.layout == "4s3":
            for k in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"):
                h[k + "4"] = h[k + "3"]
            h["CTYPE3"], h["CRVAL3"], h["CRPIX3"], h["CDELT3"], h["CUNIT3"] = "STOKES", 1., 1., 1., ""
        h["BUNIT"] = "Jy/beam"
        return h

    def spec(s, wid=False):
        r, n = s.r, s.n
        P = gen.thin(s.l2, s.fw * r.uniform(-2, 2), .5, 20) + .01 * (r.normal(size=n) + 1j * r.normal(size=n))
        cols = [s.f] + ([np.full(n, s.f[1] - s.f[0])] if wid else []) + [np.linspace(1, 1.2, n), P.real, P.imag] + [np.full(n, .01)] * 3
        np.savetxt(s.p("s.dat"), np.column_stack(cols))

    def cubes(s):
        r = s.r
        h = s.sky()
        P = gen.thin(s.l2, s.fw * r.uniform(-2, 2), .5, 20)[:, None, None] + .01 * (r.normal(size=(s.n, s.ny, s.nx)) + 1j * r.normal(size=(s.n, s.ny, s.nx)))
        I = ((s.f / s.f.mean()) ** -.7)[:, None, None] * r.uniform(1, 3, (s.ny, s.nx))
        for k, a in (("Q", P.real), ("U", P.imag), ("I", I)):
            pf.writeto(s.p(k + ".fits"), cube.place(a, s.layout).astype("f4"), h)
        np.savetxt(s.p("f.dat"), s.f)
        np.savetxt(s.p("n.dat"), np.full(s.n, .01) * r.uniform(.5, 2, s.n))

    def syn1(s):
        s.spec()
        from RMtools_1D import do_RMsynth_1D as T
        quiet(T.main, ["rmsynth1d", s.p("s.dat"), "-S", "-l", repr(4 * s.fw), "-d", repr(s.fw / 4)], s.d)
        for x in os.listdir(s.d):
            if x.endswith("pdf"):
                os.remove(s.p(x))

    def syn3(s):
        s.cubes()
        from RMtools_3D import do_RMsynth_3D as T
        quiet(T.main, ["rmsynth3d", s.p("Q.fits"), s.p("U.fits"), s.p("f.dat"), "-l", repr(3 * s.fw), "-d", repr(s.fw / 3)] + (["-o", s.pre] if s.pre else []), s.d)

    def coeff(s):
        r = s.r
        h = s.sky()
        h2 = h.copy()
        for k in list(h2):
            if k[-1] in "34":
                del h2[k]
        h2["HISTORY"] = "Fit model is %s-polynomial order 2" % r.choice(["log", "linear"])
        sh = (s.ny, s.nx)
        for i in range(3):
            pf.writeto(s.p(s.pre + "coeff%d.fits" % i), r.uniform(.5, 1, sh).astype("f4"), h2)
            pf.writeto(s.p(s.pre + "coeff%derr.fits" % i), r.uniform(.01, .1, sh).astype("f4"), h2)
        pf.writeto(s.p(s.pre + "reffreq.fits"), np.full(sh, s.f.mean(), "f4"), h2)
        cov = np.zeros((6, 6) + sh, "f4")
        cov[range(3, 6), range(3, 6)] = .01
        pf.writeto(s.p(s.pre + "covariance.fits"), cov, h2)

    def chunks(s):
        s.cubes()
        from RMtools_3D import create_chunks as A
        s.per = int(s.r.integers(1, s.nx * s.ny)) if s.nx * s.ny > 1 else 1
        quiet(A.main, ["createchunks", s.p("Q.fits"), str(s.per)], s.d)
        s.ch = sorted(x for x in os.listdir(s.d) if ".C" in x)


def quiet(main, argv, cwd):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        run_main(main, argv, cwd)


# ----------------------------------------------------------------- faults
def rm(name):
    def g(s):
        os.remove(s.p(name.replace("@", s.pre)))
    return g


def tab(name, fn):
    def g(s):
        np.savetxt(s.p(name), fn(np.loadtxt(s.p(name)), s.r))
    return g


def cut(a, r, ax=0):
    k = int(r.integers(1, 4))
    k = min(k, a.shape[ax] - 1)
    return np.delete(a, [0, -1][int(r.integers(2))] if k == 1 else slice(a.shape[ax] - k, None), axis=ax)


def add(a, r, ax=0):
    k = int(r.integers(1, 4))
    return np.concatenate([a, np.take(a, [-1] * k, axis=ax)], axis=ax)


def text(name, what):
    def g(s):
        p = s.p(name)
        L = open(p).read().splitlines()
        if what == "empty":
            L = []
        elif what == "words":
            L.insert(int(s.r.integers(len(L) + 1)), "the quick brown fox jumps over it")
        elif what == "ragged":
            i = int(s.r.integers(1, len(L)))
            L[i] = " ".join(L[i].split()[:-1])
        elif what == "onecell":
            i = int(s.r.integers(len(L)))
            k = L[i].split()
            k[int(s.r.integers(len(k)))] = "abc"
            L[i] = " ".join(k)
        open(p, "w").write("\n".join(L) + "\n")
    return g


def axis_of(s, ax):
    """numpy axis of the channel (0), row (1) or column (2) axis"""
    nd = 3 if s.layout == "3" else 4
    return {0: {"3": 0, "4s3": 0, "4f3": 1}[s.layout], 1: nd - 2, 2: nd - 1}[ax]


def img(name, ax, op, plane=False):
    """another size on one axis (in every file of `name`)"""
    def g(s):
        for nm in name if isinstance(name, (list, tuple)) else [name]:
            p = s.p(nm.replace("@", s.pre))
            with pf.open(p, memmap=False) as L:
                a, h = np.array(L[0].data), L[0].header.copy()
            x = {1: a.ndim - 2, 2: a.ndim - 1}[ax] if plane else axis_of(s, ax)
            if op == "transpose":
                if s.nx == s.ny or 1 in (s.nx, s.ny):         # a turned row is the same row once its axes are squeezed
                    b = np.concatenate([a, a], axis=x)
                else:
                    b = np.swapaxes(a, -1, -2)
            else:
                if op == "one" and a.shape[x] > 1:
                    b = np.take(a, [int(s.r.integers(a.shape[x]))], axis=x)
                elif op == cut and a.shape[x] < 2:
                    b = add(a, np.random.default_rng(s.c.seed + s.c.idx), x)
                else:
                    b = op(a, np.random.default_rng(s.c.seed + s.c.idx), x) if op in (cut, add) else np.repeat(a, 2, axis=x)
            pf.writeto(p, b, h, overwrite=True, output_verify="silentfix")
    return g


def both(a, b):
    def g(s):
        a(s), b(s)
    return g


def stokes4(s):
    """several Stokes parameters in one cube"""
    for k in "QU":
        p = s.p(k + ".fits")
        with pf.open(p, memmap=False) as L:
            a, h = np.array(L[0].data), L[0].header.copy()
        a = cube.unplace(a, s.layout)
        h["CTYPE3"], h["CTYPE4"] = "FREQ", "STOKES"
        for kk in ("CRVAL", "CRPIX", "CDELT"):
            h[kk + "3"], h[kk + "4"] = {"CRVAL": s.f[0], "CRPIX": 1., "CDELT": s.f[1] - s.f[0]}[kk], 1.
        if 1 in (s.ny, s.nx):
            a = np.repeat(np.repeat(a, 2, axis=1), 2, axis=2)
        pf.writeto(p, np.stack([a, a]), h, overwrite=True, output_verify="silentfix")


def nop(s):
    pass


def extra_chunk(s):
    a = s.p(s.ch[-1])
    k = re.search(r"\.C(\d+)\.", s.ch[-1]).group(1)
    nxt = "%0*d" % (len(k), int(k) + 1)
    if len(nxt) == len(k):
        shutil.copy(a, s.p(s.ch[-1].replace(".C%s." % k, ".C%s." % nxt)))
    else:
        os.remove(a)


def lose_chunk(s):
    k = int(s.r.integers(len(s.ch)))
    os.remove(s.p(s.ch[k]))
    s.ch = [x for i, x in enumerate(s.ch) if i != k] or s.ch


def bad_chunk(op, x):
    """one of the chunks is of another size"""
    def g(s):
        k = int(s.r.integers(len(s.ch)))
        p = s.p(s.ch[k])
        with pf.open(p, memmap=False) as L:
            a, h = np.array(L[0].data), L[0].header.copy()
        ax = a.ndim - 1 if x == 1 else axis_of(s, 0)
        if op == "one" and a.shape[ax] > 1:
            b = np.take(a, [0], axis=ax)
        elif op == cut and a.shape[ax] > 1:
            b = cut(a, s.r, ax)
        else:
            b = add(a, s.r, ax)
        pf.writeto(p, b, h, overwrite=True, output_verify="silentfix")
    return g


BADTAB = ["empty", "words", "ragged", "onecell"]
SET3 = ["@RMSF_real.fits", "@RMSF_im.fits", "@RMSF_tot.fits"]
SIZES = [(x, o) for x in (0, 1, 2) for o in (cut, add, "double", "one")]


def tools():
    """name -> (module, function, builder, good argv, [(fault name, fault, argv changes)], runs written over)"""
    T = {}
    spec = [("missing", rm("s.dat"), [])] + [(k, text("s.dat", k), []) for k in BADTAB]
    col = lambda fn: tab("s.dat", fn)
    T["rmsynth1d"] = ("RMtools_1D.do_RMsynth_1D", "main", In.spec, lambda s: [s.p("s.dat"), "-S", "-l", repr(3 * s.fw)],
                      spec + [("columns-4", col(lambda a, r: a[:, :4]), []), ("columns-6", col(lambda a, r: a[:, :6]), []), ("columns-3", col(lambda a, r: a[:, :3]), []),
                              ("columns-8", col(lambda a, r: np.c_[a, a[:, 1]]), [])])
    T["bwdepol"] = ("RMtools_1D.rmtools_bwdepol", "main", lambda s: s.spec(True), lambda s: [s.p("s.dat"), "-S", "-l", repr(3 * s.fw)],
                    spec + [("columns-4", col(lambda a, r: a[:, :4]), []), ("columns-3", col(lambda a, r: a[:, :3]), []),
                            ("columns-9", col(lambda a, r: np.c_[a, a[:, 1]]), [])])
    T["qufit"] = ("RMtools_1D.do_QUfit_1D_mnest", "main", In.spec, lambda s: [s.p("s.dat"), "-m", "1"],
                  spec + [("columns-4", col(lambda a, r: a[:, :4]), []), ("columns-6", col(lambda a, r: a[:, :6]), []), ("model", nop, ["-m", "977"]),
                          ])
    T["bwpredict"] = ("RMtools_1D.rmtools_bwpredict", "main", In.spec, lambda s: [s.p("s.dat"), "-p", s.p("fig.pdf")], [("missing", rm("s.dat"), []), ("ragged", text("s.dat", "ragged"), [])])
    T["rmclean1d"] = ("RMtools_1D.do_RMclean_1D", "main", In.syn1, lambda s: [s.p("s.dat"), "-S", "-c", "0.05", "-n", "30"],
                      [("no-" + x, rm(x), []) for x in ("s_FDFdirty.dat", "s_RMSF.dat", "s_weight.dat", "s_RMsynth.json")] +
                      [("rmsf-short", tab("s_RMSF.dat", lambda a, r: a[:len(a) - int(r.integers(2, 6))]), []), ("rmsf-text", text("s_RMSF.dat", "onecell"), []),
                       ("fdf-ragged", text("s_FDFdirty.dat", "ragged"), []), ("json-broken", text("s_RMsynth.json", "empty"), []),
                       ("fdf-long", tab("s_FDFdirty.dat", lambda a, r: add(a, r)), [])])
    l = lambda s: ["-l", repr(3 * s.fw), "-d", repr(s.fw / 3)] + (["-o", s.pre] if s.pre else [])
    T["rmsynth3d"] = ("RMtools_3D.do_RMsynth_3D", "main", In.cubes, lambda s: [s.p("Q.fits"), s.p("U.fits"), s.p("f.dat")] + l(s),
                      [("no-" + x, rm(x), []) for x in ("Q.fits", "U.fits", "f.dat")] +
                      [("%s-axis%d-%s" % (k, x, getattr(o, "__name__", o)), img(k + ".fits", x, o), []) for k in "QU" for x, o in SIZES] +
                      [("I-axis%d-%s" % (x, getattr(o, "__name__", o)), img("I.fits", x, o), ["-i", "@I.fits"]) for x, o in SIZES] +
                      [("U-transposed", img("U.fits", 1, "transpose"), []), ("I-transposed", img("I.fits", 1, "transpose"), ["-i", "@I.fits"]),
                       ("no-I", rm("I.fits"), ["-i", "@I.fits"]), ("freq-short", tab("f.dat", cut), []), ("freq-long", tab("f.dat", add), []),
                       ("freq-text", text("f.dat", "onecell"), []), ("freq-empty", text("f.dat", "empty"), []),
                       ("noise-short", tab("n.dat", cut), ["-n", "@n.dat", "-w", "variance"]), ("noise-long", tab("n.dat", add), ["-n", "@n.dat", "-w", "variance"]),
                       ("no-noise", rm("n.dat"), ["-n", "@n.dat", "-w", "variance"]), ("noise-text", text("n.dat", "onecell"), ["-n", "@n.dat"]),
                       ("several-stokes", stokes4, []), ("freq-short-no-rmsf", tab("f.dat", cut), ["-R"])])
    FS = ["@FDF_real_dirty.fits", "@FDF_im_dirty.fits"]
    T["rmclean3d"] = ("RMtools_3D.do_RMclean_3D", "main", In.syn3, lambda s: [s.p(s.pre + "FDF_tot_dirty.fits"), s.p(s.pre + "RMSF_tot.fits"), "-c", "0.05", "-n", "20"] + (["-o", s.pre] if s.pre else []),
                      [("no-" + x, rm("@" + x), []) for x in ("FDF_tot_dirty.fits", "FDF_real_dirty.fits", "FDF_im_dirty.fits", "RMSF_tot.fits", "RMSF_real.fits", "RMSF_im.fits", "RMSF_FWHM.fits")] +
                      [("fdf-image-axis%d-%s" % (x, getattr(o, "__name__", o)), img(FS, x, o), []) for x, o in SIZES if x] +
                      [("rmsf-image-axis%d-%s" % (x, getattr(o, "__name__", o)), img(SET3, x, o), []) for x, o in SIZES if x] +
                      [("rmsf-depth-short", img(SET3, 0, cut), []), ("fdf-depth-long", img(FS, 0, add), []), ("fdf-depth-double", img(FS, 0, "double"), [])] +
                      [("%s-axis%d-%s" % (k, x, getattr(o, "__name__", o)), img("@%s.fits" % k, x, o), []) for k in ("FDF_im_dirty", "RMSF_im", "RMSF_real") for x, o in SIZES] +
                      [("fwhm-axis%d-%s" % (x, getattr(o, "__name__", o)), img("@RMSF_FWHM.fits", x, o, True), []) for x, o in SIZES if x])
    T["fitIcube"] = ("RMtools_3D.do_fitIcube", "main", In.cubes, lambda s: [s.p("I.fits"), "-freqFile", s.p("f.dat"), "-o", s.p("fit_"), "-n", "1", "-p", "1", "-t", "0"],
                     [("no-I", rm("I.fits"), []), ("no-freq", rm("f.dat"), []), ("freq-short", tab("f.dat", cut), []), ("freq-long", tab("f.dat", add), []),
                      ("freq-text", text("f.dat", "onecell"), []), ("cube-short", img("I.fits", 0, cut), []), ("cube-long", img("I.fits", 0, add), []),
                      ("not-a-cube", flat, [])])
    T["createchunks"] = ("RMtools_3D.create_chunks", "main", In.cubes, lambda s: [s.p("Q.fits"), "2"], [("missing", rm("Q.fits"), []), ("not-fits", text("f.dat", "ragged"), "f.dat"),
                                                                                                      ("size-0", nop, "0"), ("size-negative", nop, "-3")])
    T["assemblechunks"] = ("RMtools_3D.assemble_chunks", "main", In.chunks, lambda s: [s.p(s.ch[int(s.r.integers(len(s.ch)))]), "-f", s.p("whole.fits")],
                           [("lost", lose_chunk, []), ("lost-overwriting", lose_chunk, ["-o"]), ("lost-over-original", lose_chunk, "original"),
                            ("short-chunk", bad_chunk(cut, 1), []), ("long-chunk", bad_chunk(add, 1), ["-o"]), ("one-pixel-chunk", bad_chunk("one", 1), []), ("one-channel-chunk", bad_chunk("one", 0), ["-o"]),
                            ("fewer-channels-chunk", bad_chunk(cut, 0), []), ("extra", extra_chunk, ["-o"]),
                            ("existing", touch("whole.fits"), []), ("no-chunk-name", nop, "name")])
    box = lambda s: ["1", str(s.nx), "1", str(s.ny)]
    T["extractregion"] = ("RMtools_3D.extract_region", "main", In.cubes, lambda s: [s.p("Q.fits"), s.p("part.fits")] + box(s),
                          [("missing", rm("Q.fits"), []), ("existing", touch("part.fits"), []), ("onto-itself", nop, "self")] +
                          [(k, nop, "box:" + k) for k in ("x-reversed", "y-reversed", "x-beyond", "y-beyond", "x-before", "y-before", "z-reversed", "z-beyond")])
    pk = lambda s: [s.p(s.pre + "FDF_real_dirty.fits"), s.p("f.dat"), s.p("pk_")]
    T["peakfitcube"] = ("RMtools_3D.RMpeakfit_3D", "main", In.syn3, pk,
                        [("no-" + x, rm(x), []) for x in ("@FDF_real_dirty.fits", "@FDF_im_dirty.fits", "@RMSF_FWHM.fits", "f.dat")] +
                        [("fwhm-axis%d-%s" % (x, getattr(o, "__name__", o)), img("@RMSF_FWHM.fits", x, o, True), []) for x, o in SIZES if x] +
                        [("I-axis%d-%s" % (x, getattr(o, "__name__", o)), img("I.fits", x, o), ["-i", "@I.fits"]) for x, o in SIZES] +
                        [("%s-axis%d-%s" % (k, x, getattr(o, "__name__", o)), img("@%s.fits" % k, x, o), []) for k in ("FDF_im_dirty", "FDF_real_dirty") for x, o in SIZES] +
                        [("I-transposed", img("I.fits", 1, "transpose"), ["-i", "@I.fits"]), ("no-I", rm("I.fits"), ["-i", "@I.fits"]),
                         ("noise-short", tab("n.dat", cut), ["-n", "@n.dat"]), ("noise-long", tab("n.dat", add), ["-n", "@n.dat", "-w", "variance"]),
                         ("no-noise", rm("n.dat"), ["-n", "@n.dat"]), ("weights-unknown", nop, ["-n", "@n.dat", "-w", "natural"]), ("both-selections", nop, ["-a", "-p"]),
                         ("freq-text", text("f.dat", "onecell"), [])])
    rs = lambda s: [s.p(s.pre + "covariance.fits"), "-o", s.p("new_"), "-f", repr(float(s.f.mean() * 1.1)), "-n", "1"]
    T["3DIrescale"] = ("RMtools_3D.rescale_I_model_3D", "command_line", In.coeff, rs,
                       [("no-" + x, rm("@" + x), []) for x in ("covariance.fits", "coeff0.fits", "coeff0err.fits", "reffreq.fits", "coeff1.fits")] +
                       [("coeff-axis%d-%s" % (x, getattr(o, "__name__", o)), img("@coeff%d.fits" % k, x, o, True), []) for k in (0, 1) for x, o in SIZES if x and o != add] +
                       [("cov-axis%d-%s" % (x, getattr(o, "__name__", o)), img("@covariance.fits", x, o, True), []) for x, o in SIZES if x] +
                       [("name", nop, "covname"), ("two-references", nop, ["-l", "@covariance.fits"])])
    T["calcRMSF"] = ("RMtools_1D.calculate_RMSF", "main", In.cubes, lambda s: [s.p("f.dat"), s.p("n.dat"), "-s", s.p("rmsf.pdf")],
                     [("no-freq", rm("f.dat"), []), ("no-weights", rm("n.dat"), []), ("weights-short", tab("n.dat", cut), []), ("weights-long", tab("n.dat", add), []), ("nothing", nop, "nofreq")])
    T["freqfile"] = ("RMtools_3D.make_freq_file", "save_freq_file", In.cubes, lambda s: [s.p("Q.fits"), s.p("freq_out.dat")], [("missing", rm("Q.fits"), []), ("not-fits", nop, "n.dat")])
    T["rmsynth1dFITS"] = ("RMtools_1D.do_RMsynth_1D_fromFITS", "main", lambda s: (setattr(s, "layout", "3"), s.cubes()),
                          lambda s: [s.p("Q.fits"), s.p("U.fits"), str(s.nx), str(s.ny), "-S", "-l", repr(3 * s.fw)],
                          [("no-Q", rm("Q.fits"), []), ("no-U", rm("U.fits"), []), ("U-short", img("U.fits", 0, cut), []), ("U-long", img("U.fits", 0, add), []),
                           ("I-short", img("I.fits", 0, cut), ["-i", "@I.fits"]), ("no-I", rm("I.fits"), ["-i", "@I.fits"])] +
                          [("U-image-axis%d-%s" % (x, getattr(o, "__name__", o)), img("U.fits", x, o), []) for x, o in SIZES if x] +
                          [("I-image-axis%d-%s" % (x, getattr(o, "__name__", o)), img("I.fits", x, o), ["-i", "@I.fits"]) for x, o in SIZES if x] +
                          [("pixel-" + k, nop, "pix:" + k) for k in ("right", "left", "above", "below")])
    cat = lambda s: open(s.p("cat.csv"), "w").write("1, 1.4, 0, 0, 0, 1, -0.7, 0.5, 30, 20\n")
    T["testdata1D"] = ("RMtools_1D.mk_test_ascii_data", "main", cat, lambda s: [s.p("cat.csv"), s.p("sim")], [("missing", rm("cat.csv"), [])])
    T["testdata3D"] = ("RMtools_3D.mk_test_cube_data", "main", cat, lambda s: [s.p("cat.csv"), s.p("sim")], [("missing", rm("cat.csv"), [])])
    return T


def touch(name):
    def g(s):
        if not os.path.exists(s.p(name)):
            pf.writeto(s.p(name), np.full((2, 2), 5.0))
    return g


def flat(s):
    with pf.open(s.p("I.fits"), memmap=False) as L:
        a, h = np.array(L[0].data), L[0].header.copy()
    for k in list(h):
        if k[:5] in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT", "NAXIS") and k[-1] in "34":
            del h[k]
    pf.writeto(s.p("I.fits"), cube.unplace(a, s.layout)[0], h, overwrite=True, output_verify="silentfix")


NOCONTROL = {"qufit", "testdata1D", "testdata3D", "bwpredict"}
T = None


def change(s, argv, how):
    """the command line of a fault"""
    if isinstance(how, list):
        return argv + [s.p(x[1:]) if x.startswith("@") and x != "@covariance.fits" else s.p(s.pre + "covariance.fits") if x.startswith("@") else x for x in how]
    if how in ("0", "-3"):
        return argv[:1] + [how]
    if how in ("f.dat", "n.dat"):
        return [s.p(how)] + argv[1:]
    if how == "original":
        return argv[:1] + ["-o"]
    if how == "name":
        return [s.p("U.fits")] + argv[1:]
    if how == "self":
        return [s.p("Q.fits"), s.p("Q.fits")] + argv[2:]
    if how == "nofreq":
        return argv[2:]
    if how == "covname":
        return [s.p(s.pre + "coeff0.fits")] + argv[1:]
    if how.startswith("pix:"):
        k, j = how[4:], int(s.r.integers(1, 4))
        x, y = {"right": (s.nx + j, 1), "left": (1 - j, 1), "above": (1, s.ny + j), "below": (1, 1 - j)}[k]
        return argv[:2] + [str(x), str(y)] + argv[4:]
    k, ax = how[6:], how[4]
    top = {"x": s.nx, "y": s.ny, "z": s.n}[ax]
    lim = {"reversed": (top, top - int(s.r.integers(1, 4)) if top > 4 else top - 1), "beyond": (top + int(s.r.integers(1, 5)), top + 9), "before": (-9, -int(s.r.integers(2, 5)))}[k]
    if lim[1] in (0, -1):
        lim = (top + 1, top + 3)
    b = argv[2:]
    if ax == "z":
        b += ["-z", str(lim[0]), str(lim[1])]
    else:
        i = 0 if ax == "x" else 2
        b[i:i + 2] = [str(x) for x in lim]
    return argv[:2] + b + (["-o"] if s.r.random() < .3 else [])


def run_case(c):
    global T
    r = c.rng
    if c.idx % 8 == 7:
        return lib(c, r)
    T = T or tools()
    names = [k for k in T for _ in range(1 + len(T[k][4]) // 4)]
    tool = str(names[int(r.integers(len(names)))])
    mod, fn, build, good, faults = T[tool]
    main = getattr(importlib.import_module(mod), fn)
    name, fault, how = faults[int(r.integers(len(faults)))]
    s = In(c, r)
    c.label = tool + ":" + name
    c.context = dict(tool=tool, fault=name, layout=s.layout, image=(s.ny, s.nx), channels=s.n, prefix=s.pre)
    build(s)
    cwd = c.tmpdir()
    argv = [tool] + good(s)
    control = tool not in NOCONTROL and r.random() < .25
    if control:
        c.event("controls")
        a = snap(s.d)
        try:
            quiet(main, list(argv), cwd)
        except (Exception, SystemExit) as e:
            return c.violate("good-input-refused", "%s: %r" % (tool, e))
        b = snap(s.d)
        new = set(b) - set(a)
        if not c.check(len(new) > 0, "good-input-without-product", tool):
            return
        for k in a:
            c.check(b.get(k) == a[k], "input-file-modified", k)
        if r.random() < .6:
            c.event("with_earlier_products")
            if tool in ("assemblechunks", "extractregion") and isinstance(how, list) and name != "existing" and "-o" not in how:
                how = how + ["-o"]
            elif tool == "3DIrescale" and isinstance(how, list):
                how = how + ["-w"]
        else:
            for k in new:
                os.remove(s.p(k))
    fault(s)
    if tool == "assemblechunks" and name.startswith("lost"):
        argv[1] = s.p(s.ch[int(r.integers(len(s.ch)))])
        if not os.path.exists(argv[1]):
            argv[1] = s.p(s.ch[0])
    a, da = snap(s.d), dirs(s.d)
    av = [tool] + change(s, argv[1:], how)
    c.context["argv"] = [os.path.basename(x) if x.startswith("/") else x for x in av[1:]]
    ended = None
    try:
        quiet(main, av, cwd)
    except SystemExit as e:
        ended = "exit"
    except Exception as e:
        ended = type(e).__name__
    c.event("refusals")
    c.event("by_" + ("message" if ended == "exit" else "exception"))
    b, db = snap(s.d), dirs(s.d)
    c.check(ended is not None, "accepted", lambda: "%s with %s completed, new files %s" % (tool, name, sorted(set(b) - set(a))))
    c.check(not set(b) - set(a), "written-before-refusal", lambda: "%s with %s: %s" % (tool, name, sorted(set(b) - set(a))))
    for k in a:
        c.event("files_compared")
        c.check(b.get(k) == a[k], "file-changed-by-refused-run", lambda: "%s with %s: %s %s" % (tool, name, k, "is gone" if k not in b else "has other content"))
    c.check(db == da, "directory-made-by-refused-run", lambda: str(db ^ da))
    c.check(os.listdir(cwd) == [], "stray-files", lambda: str(os.listdir(cwd)))
    c.event("tool_" + tool)
    c.observed((c.seed, c.idx), c.context)


# ----------------------------------------------------------------- arrays
def lib(c, r):
    from RMutils import util_RM as U
    n, m = int(r.integers(5, 30)), int(r.integers(5, 20)) * 2 + 1
    sh = [(), (3,), (2, 4), (3, 3)][int(r.integers(4))]
    l2 = np.sort(r.uniform(.01, .1, n))
    phi = np.linspace(-50, 50, m)
    phi2 = np.linspace(-100, 100, 2 * m + 1)
    Q, V = r.normal(size=(n,) + sh), r.normal(size=(n,) + sh)
    w = r.uniform(.5, 2, n)
    said = []
    log = lambda *a, **k: said.append(" ".join(map(str, a)))
    grow = lambda a, ax=0: np.concatenate([a, np.take(a, [0], axis=ax)], axis=ax)
    d = int(r.integers(1, 3))
    which = str(r.choice(["synth", "rmsf", "clean"]))
    if which == "synth":
        kw = dict(dataQ=Q, dataU=V, lambdaSqArr_m2=l2, phiArr_radm2=phi, weightArr=w)
        faults = {"U-depth": dict(dataU=V[:-d]), "Q-depth": dict(dataQ=grow(Q)), "lambda": dict(lambdaSqArr_m2=l2[:-d], weightArr=w[:-d]), "weights-short": dict(weightArr=w[:-d]),
                  "weights-long": dict(weightArr=grow(w)), "axes": dict(dataQ=np.zeros((n, 2, 2, 2)), dataU=np.zeros((n, 2, 2, 2)))}
        if sh:
            faults["U-image"] = dict(dataU=grow(V, 1))
            faults["U-axes"] = dict(dataU=V[..., 0])
        run = lambda k: U.do_rmsynth_planes(nBits=64, log=log, **k)
    elif which == "rmsf":
        msk = np.ones((n,) + sh, bool)
        kw = dict(lambdaSqArr_m2=l2, phiArr_radm2=phi, weightArr=w, mskArr=msk)
        faults = {"weights": dict(weightArr=w[:-d]), "weights-long": dict(weightArr=grow(w)), "mask-depth": dict(mskArr=msk[:-d]), "mask-long": dict(mskArr=grow(msk)),
                  "mask-axes": dict(mskArr=np.ones((n, 2, 2, 2), bool))}
        run = lambda k: U.get_rmsf_planes(nBits=64, log=log, **k)
    else:
        F = r.normal(size=(m,) + sh) + 1j * r.normal(size=(m,) + sh)
        R = r.normal(size=(2 * m + 1,) + sh) + 1j * r.normal(size=(2 * m + 1,) + sh)
        wid = r.uniform(5, 9, sh)
        kw = dict(dirtyFDF=F, phiArr_radm2=phi, RMSFArr=R, phi2Arr_radm2=phi2, fwhmRMSFArr=wid)
        faults = {"fdf-depth": dict(dirtyFDF=F[:-d]), "fdf-long": dict(dirtyFDF=grow(F)), "phi": dict(phiArr_radm2=phi[:-d]), "rmsf-depth": dict(RMSFArr=R[:-d]), "phi2": dict(phi2Arr_radm2=phi2[:-d]),
                  "rmsf-not-double": dict(RMSFArr=R[1 + d:], phi2Arr_radm2=phi2[1 + d:]), "fdf-axes": dict(dirtyFDF=np.zeros((m, 2, 2, 2), complex), RMSFArr=np.zeros((2 * m + 1, 2, 2, 2), complex))}
        if sh:
            faults["rmsf-image"] = dict(RMSFArr=grow(R, 1))
            faults["rmsf-axes"] = dict(RMSFArr=R[..., 0])
            faults["mask"] = dict(mskArr=np.ones((sh[0] + 1,) + sh[1:], bool))
            faults["width"] = dict(fwhmRMSFArr=grow(wid, 0))
        run = lambda k: U.do_rmclean_hogbom(cutoff=.5, maxIter=5, nBits=64, window=0.1, log=log, **k)
    name = str(r.choice(sorted(faults)))
    c.label = "lib-" + which + ":" + name
    c.context = dict(function=which, fault=name, image=sh, channels=n, depths=m)
    if r.random() < .3:
        c.event("controls")
        o = run(dict(kw))
        c.check(o is not None and o[0] is not None, "good-arrays-refused", lambda: "%s" % said[-2:])
    k = {**kw, **faults[name]}
    cp = {x: np.array(v) for x, v in k.items()}
    said.clear()
    try:
        o = run(k)
        how = "values"
        o = [o] if o is None or isinstance(o, np.ndarray) else list(o)
        if all(x is None or isinstance(x, (list, tuple)) and all(y is None for y in x) for x in o):
            how = "message" if said else "silence"
    except Exception as e:
        how = "exception"
    c.event("library_refusals")
    c.check(how in ("message", "exception"), "mismatched-arrays-accepted", lambda: "%s with %s: ended in %s" % (which, name, how))
    for x, v in cp.items():
        c.check(np.array_equal(v, k[x]), "caller-array-modified", x)
    c.observed((c.seed, c.idx), c.context)
