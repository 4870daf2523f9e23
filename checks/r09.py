"""R09: 1D tables and products on disk against the in-memory results; command line against library."""
import hashlib, json, os, sys, zlib
import numpy as np
from rvm import gen, ref
from checks import r08

CASES = {"quick": 900, "thorough": 16000}
RULE = ("tables: random 5/7-column text tables (comments, blanks, NaN, exponents) read at either precision; products: every run's arrays and dictionaries "
        "written and read back, then cleaned from disk; command line: both tools run with random options against the library; distinct by draw")
MIN_EVENTS = {"tables_read": 250, "tables_with_nan": 60, "product_sets": 220, "arrays_read_back": 600, "values_read_back": 12000, "missing_values": 60,
              "cleaned_from_disk": 180, "clean_products": 180, "synth_cli_runs": 60, "clean_cli_runs": 60, "files_unchanged": 300, "unasked": 25}
ASSUMPTIONS = ["the cleaning tool reads products in single precision"]
CASE_LIMIT = {"quick": 150, "thorough": 200}


def quiet(*a, **k):
    pass


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def write_table(r, path, cols):
    style = str(r.choice(["%.18e", "%r", "%.9g"]))
    n = len(cols[0])
    txt = []
    for i in range(n):
        if r.random() < .1:
            txt.append("# comment %d 1 2 3" % i)
        if r.random() < .05:
            txt.append("")
        sep = "\t" if r.random() < .3 else " " * int(r.integers(1, 4))
        row = sep.join((("%r" % float(x)) if style == "%r" else style % x) for x in [c[i] for c in cols])
        if r.random() < .1:
            row += "   # trailing"
        txt.append(row)
    open(path, "w").write("\n".join(txt) + "\n")
    # the value every reader should see is the decimal written
    return [np.array([float(("%r" % float(x)) if style == "%r" else style % x) for x in c]) for c in cols]


def run_case(c):
    k = c.idx % 10
    if k < 4:
        table(c)
    elif k < 9:
        products(c)
    else:
        cli(c)


def table(c):
    from RMtools_1D.do_RMsynth_1D import readFile
    r = c.rng
    n = int(r.integers(2, 300))
    nc = int(r.choice([5, 7]))
    bits = int(r.choice([32, 64]))
    cols = [np.sort(r.uniform(1e8, 1e10, n))] + [10 ** r.uniform(-6, 2) * r.normal(size=n) for _ in range(nc - 1)]
    if r.random() < .3:
        cols[0] = cols[0][::-1]
    if r.random() < .4:
        for x in cols[1:]:
            x[r.random(n) < .1] = np.nan
        c.event("tables_with_nan")
    p = os.path.join(c.tmpdir(), "t.dat")
    vals = write_table(r, p, cols)
    h = sha(p)
    c.label = "table-%d" % nc
    c.context = dict(kind="table", n=n, columns=nc, bits=bits)
    got = readFile(p, bits, verbose=c.idx % 5 == 3)
    c.event("tables_read")
    c.check(len(got) == nc, "columns", "%d columns returned for %d" % (len(got), nc))
    for i, (g, v) in enumerate(zip(got, vals)):
        c.check(np.asarray(g).dtype == "float%d" % bits, "table-precision", lambda: "column %d is %s" % (i, np.asarray(g).dtype))
        c.close(g, v.astype("float%d" % bits), "table-values", rtol=0, what="column %d" % i)
    c.check(sha(p) == h, "input-file-modified", p)
    c.event("files_unchanged")
    c.observed((c.seed, c.idx), c.context)


def same_value(c, got, want, mech, what):
    c.event("values_read_back")
    if isinstance(want, (float, np.floating)):
        if want != want:
            c.event("missing_values")
        ok = isinstance(got, (int, float)) and (got == float(want) or (got != got and want != want))
        # single precision numbers may be written with their shortest decimal form
        if not ok and isinstance(want, np.float32) and isinstance(got, float):
            ok = np.float32(got) == want
        c.check(ok, mech, lambda: "%s: read %r, computed %r" % (what, got, want))
    elif isinstance(want, np.ndarray):
        c.close(np.array(got, float), want, mech, rtol=0, what=what)
    else:
        w = want.item() if isinstance(want, np.generic) else want
        c.check(got == w and type(got) == type(w), mech, lambda: "%s: read %r, computed %r" % (what, got, w))


def parse_keyval(path):
    out = {}
    for line in open(path):
        k, _, v = line.rstrip("\n").partition("=")
        out[k] = v
    return out


def check_dicts(c, m, prefix, tag):
    """prefix.json and prefix.dat hold exactly m"""
    js = json.load(open(prefix + ".json"))
    kv = parse_keyval(prefix + ".dat")
    c.check(set(js) == set(m), tag + "-json-keys", lambda: "missing %s extra %s" % (sorted(set(m) - set(js)), sorted(set(js) - set(m))))
    c.check(set(kv) == set(m), tag + "-keyval-keys", lambda: "missing %s extra %s" % (sorted(set(m) - set(kv)), sorted(set(kv) - set(m))))
    for k, v in m.items():
        if k in js:
            same_value(c, js[k], v, tag + "-json-value", k)
        if k in kv:
            if isinstance(v, (float, np.floating, int, np.integer)) and not isinstance(v, bool):
                try:
                    g = float(kv[k])
                except ValueError:
                    c.violate(tag + "-keyval-value", "%s=%r is not a number" % (k, kv[k]))
                    continue
                same_value(c, g, float(v) if not isinstance(v, np.float32) else v, tag + "-keyval-value", k)
            else:
                c.check(kv[k] == str(v), tag + "-keyval-value", lambda: "%s: %r for %r" % (k, kv[k], v))


def arrays(c, path, want, mech, prec=0.0):
    c.event("arrays_read_back")
    g = np.atleast_2d(np.loadtxt(path, dtype=float)).T
    if not c.check(len(g) == len(want), mech, lambda: "%d columns, expected %d" % (len(g), len(want))):
        return
    for i, (x, y) in enumerate(zip(g, want)):
        c.close(x, np.asarray(y, "float64"), mech, rtol=prec, what="%s column %d" % (os.path.basename(path), i))


def draw_run(r, small=True):
    d = r08.draw(r)
    d["Ikind"] = str(r.choice(["fit", "fit", "five", "dummy", "supplied"]))
    step = d["fw"] / r.uniform(4, 8)
    half = int(r.integers(8, 90))
    bits = int(r.choice([32, 64]))
    data, kw = r08.build(d, dict(polyOrd=d["order"], nBits=bits, weightType=str(r.choice(["variance", "uniform"])), phiMax_radm2=half * step,
                                 dPhi_radm2=step, fit_function=d["fn"], fitRMSF=bool(r.random() < .2), super_resolution=bool(r.random() < .1)))
    if r.random() < .4:
        data = [x.astype("float32") for x in data]
    if r.random() < .15 and half > 3:
        # few samples: the fitted peak may leave the axis, giving missing values
        kw["phiMax_radm2"] = 2.0 * step
        kw["dPhi_radm2"] = step
    return d, data, kw, bits


def products(c):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth, saveOutput
    from RMtools_1D import do_RMclean_1D as CL
    import copy
    r = c.rng
    d, data, kw, bits = draw_run(r)
    c.label = "products-%s" % d["Ikind"]
    c.context = dict(kind="products", Ikind=d["Ikind"], bits=bits, dtype=str(data[0].dtype), kw=kw)
    m, a = run_rmsynth(data, log=quiet, **kw)
    pre = os.path.join(c.tmpdir(), "src.v1")
    want_m, want_a = copy.deepcopy(m), copy.deepcopy(a)
    saveOutput(m, a, pre, False)
    c.event("product_sets")
    for k in want_a:
        c.check(np.array_equal(want_a[k], a[k], equal_nan=True), "arrays-modified", k)
    check_dicts(c, want_m, pre + "_RMsynth", "synth")
    a0 = want_a
    arrays(c, pre + "_FDFdirty.dat", [a0["phiArr_radm2"], a0["dirtyFDF"].real, a0["dirtyFDF"].imag], "synth-spectrum-file")
    arrays(c, pre + "_RMSF.dat", [a0["phi2Arr_radm2"], a0["RMSFArr"].real, a0["RMSFArr"].imag], "synth-response-file")
    arrays(c, pre + "_weight.dat", [a0["freqArr_Hz"], a0["weightArr"]], "synth-weight-file")
    rb = int(r.choice([32, 64]))
    hs = {e: sha(pre + e) for e in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.json", "_RMsynth.dat")}
    m2, a2 = CL.readFiles(pre + "_FDFdirty.dat", pre + "_RMSF.dat", pre + "_weight.dat", pre + "_RMsynth.json", rb)
    for k in a0:
        if k in a2:
            w = np.asarray(a0[k]).astype(("complex%d" % (2 * rb)) if np.iscomplexobj(a0[k]) else "float%d" % rb)
            c.close(np.asarray(a2[k]), w, "read-back-" + k, rtol=0, what=k)
            c.check(np.asarray(a2[k]).dtype == w.dtype, "read-back-precision", lambda: "%s is %s" % (k, np.asarray(a2[k]).dtype))
        else:
            c.violate("read-back-" + k, "not returned")
    dirty = np.asarray(a0["dirtyFDF"], complex)
    if not np.isfinite(dirty).all() or not want_m["dFDFth"] > 0 or len(dirty) < 9:
        c.observed((c.seed, c.idx), c.context)
        return
    cut = float(np.abs(dirty).max() * 10 ** r.uniform(-1, -.1)) if r.random() < .6 else -float(np.abs(dirty).max() / want_m["dFDFth"] * r.uniform(.2, .9))
    if cut < 0 and not want_m["dFDFth"] > 0:
        return
    opt = dict(maxIter=int(r.choice([5, 200])), gain=float(r.choice([.1, .3])), verbose=c.idx % 5 == 3, log=quiet)
    if r.random() < .4:
        opt["window"] = cut * .6
    mem_a = {k: (np.asarray(v).astype(("complex%d" % (2 * rb)) if np.iscomplexobj(v) else "float%d" % rb)) for k, v in a0.items()}
    x, xa = CL.run_rmclean(copy.deepcopy(want_m), mem_a, cut, nBits=rb, **opt)
    y, ya = CL.run_rmclean(m2, a2, cut, nBits=rb, **opt)
    c.event("cleaned_from_disk")
    for k in ("cleanFDF", "ccArr", "residFDF", "phiArr_radm2", "freqArr_Hz"):
        c.close(np.asarray(ya[k]), np.asarray(xa[k]), "clean-from-disk", rtol=0, atol=1e-6 * np.abs(dirty).max() if k.endswith("DF") or k == "ccArr" else 0, what=k)
    for k in x:
        c.close(float(y[k]), float(x[k]), "clean-from-disk-value", rtol=1e-5, what=k)
    pre2 = os.path.join(os.path.dirname(pre), "cl")
    wy, wa = copy.deepcopy(y), copy.deepcopy(ya)
    CL.saveOutput(y, ya, prefixOut=pre2, verbose=c.idx % 5 == 3, log=quiet)
    c.event("clean_products")
    check_dicts(c, wy, pre2 + "_RMclean", "clean")
    arrays(c, pre2 + "_FDFclean.dat", [wa["phiArr_radm2"], np.squeeze(wa["cleanFDF"]).real, np.squeeze(wa["cleanFDF"]).imag], "clean-spectrum-file")
    arrays(c, pre2 + "_FDFmodel.dat", [wa["phiArr_radm2"], np.squeeze(wa["ccArr"]).real, np.squeeze(wa["ccArr"]).imag], "clean-model-file")
    for e, h in hs.items():
        c.check(sha(pre + e) == h, "input-file-modified", e)
    c.event("files_unchanged")
    c.observed((c.seed, c.idx), c.context)


def run_main(main, argv, cwd, local=True):
    """run a command-line tool; a third of the calls from the data's own directory, a third with relative paths"""
    k = zlib.crc32(repr([os.path.basename(a) for a in argv]).encode()) % 3
    dirs = [os.path.dirname(a) for a in argv[1:] if os.path.isabs(a) and a[-1] != "/"]
    if dirs and k == 0 and local:
        cwd = max(sorted(set(dirs)), key=dirs.count)
    if k < 2:
        argv = [argv[0]] + [os.path.relpath(a, cwd) + "/" * (a[-1] == "/") if os.path.isabs(a) else a for a in argv[1:]]
    old, here = sys.argv, os.getcwd()
    try:
        sys.argv = argv
        os.chdir(cwd)
        main()
    finally:
        sys.argv = old
        os.chdir(here)


def cli(c):
    import importlib
    S = importlib.import_module("RMtools_1D.do_RMsynth_1D")
    CL = importlib.import_module("RMtools_1D.do_RMclean_1D")
    r = c.rng
    d, data, kw, bits = draw_run(r)
    while d["Ikind"] == "supplied":
        d, data, kw, bits = draw_run(r)
    t = c.tmpdir()
    cwd = c.tmpdir()
    name = str(r.choice(["src.dat", "my.source.txt", "s"]))
    p = os.path.join(t, name)
    write_table(r, p, [np.asarray(x, float) for x in data])
    h = sha(p)
    argv = ["rmsynth1d", p, "-S"]
    kw2 = {}
    def opt(flags, key, val, show=True):
        argv.extend(flags)
        kw2[key] = val
    half = kw["phiMax_radm2"]
    opt(["-l", repr(float(half))], "phiMax_radm2", float(half))
    if r.random() < .6:
        opt(["-d", repr(float(kw["dPhi_radm2"]))], "dPhi_radm2", float(kw["dPhi_radm2"]))
    else:
        s = float(r.choice([4, 7.5]))
        opt(["-s", repr(s)], "nSamples", s)
    if r.random() < .5:
        opt(["-w", "uniform"], "weightType", "uniform")
    if r.random() < .5:
        opt(["-f", d["fn"]], "fit_function", d["fn"])
    if r.random() < .5:
        opt(["-o", str(d["order"])], "polyOrd", d["order"])
    if d["Ikind"] == "dummy":
        opt(["-i"], "noStokesI", True)
    b64 = r.random() < .5
    if b64:
        argv.append("-b")
    kw2["nBits"] = 64 if b64 else 32
    if r.random() < .2:
        opt(["-t"], "fitRMSF", True)
    if r.random() < .15:
        opt(["-r"], "super_resolution", True)
    if r.random() < .3:
        opt(["-U", "mJy"], "units", "mJy")
    if r.random() < .3:
        argv.append("-v")
    c.label = "cli-" + d["Ikind"]
    c.context = dict(kind="cli", argv=argv[2:])
    if r.random() < .3:
        # nothing is written unless asked for
        run_main(S.main, [x for x in argv if x != "-S"], cwd)
        c.event("unasked")
        c.check(os.listdir(t) == [name] and not os.listdir(cwd), "unasked-files", lambda: "wrote %s" % (os.listdir(t) + os.listdir(cwd)))
    debug = r.random() < .15
    if debug:
        argv.append("-D")
    shown = []
    import matplotlib.pyplot as plt
    old, plt.show = plt.show, lambda *a, **k: shown.append(1)
    show = r.random() < .2
    if show:
        argv.append("-p")
    try:
        run_main(S.main, argv, cwd)
    finally:
        plt.show = old
        plt.close("all")
    c.check(show <= bool(shown), "not-shown", "plots were asked for but not shown")
    c.event("synth_cli_runs")
    lib = S.readFile(p, kw2["nBits"], verbose=c.idx % 5 == 3)
    m, a = S.run_rmsynth(lib, log=quiet, **kw2)
    pre = os.path.splitext(p)[0]
    c.check(os.listdir(cwd) == [], "stray-files", lambda: "written to the working directory: %s" % os.listdir(cwd))
    for e in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.dat", "_RMsynth.json", "_spectra-plots.pdf", "_RMSF-dirtyFDF-plots.pdf"):
        c.check(os.path.exists(pre + e), "cli-missing-product", e)
    c.check(os.path.exists(pre + ".debug-plots.pdf") == debug, "debug-figure", lambda: "%s" % os.listdir(t))
    check_dicts(c, m, pre + "_RMsynth", "cli-synth")
    arrays(c, pre + "_FDFdirty.dat", [a["phiArr_radm2"], a["dirtyFDF"].real, a["dirtyFDF"].imag], "cli-synth-spectrum")
    arrays(c, pre + "_RMSF.dat", [a["phi2Arr_radm2"], a["RMSFArr"].real, a["RMSFArr"].imag], "cli-synth-response")
    arrays(c, pre + "_weight.dat", [a["freqArr_Hz"], a["weightArr"]], "cli-synth-weights")
    dirty = np.asarray(a["dirtyFDF"], complex)
    if np.isfinite(dirty).all() and len(dirty) >= 9 and m["dFDFth"] > 0:
        argv = ["rmclean1d", p, "-S"]
        k = {}
        cut = float(np.abs(dirty).max() * r.uniform(.1, .8))
        if r.random() < .5:
            cut = -cut / m["dFDFth"]
        if r.random() < .85:
            argv += ["-c=" + repr(cut)] if False else ["-c", repr(cut)]
            k["cutoff"] = cut
        else:
            k["cutoff"] = -3
        if r.random() < .4:
            argv += ["-w", repr(cut * .7)]; k["window"] = cut * .7
        if r.random() < .5:
            argv += ["-n", "40"]; k["maxIter"] = 40
        if r.random() < .5:
            argv += ["-g", "0.3"]; k["gain"] = .3
        if r.random() < .4:
            argv.append("-v")
        c.context["clean"] = argv[2:]
        # argparse reads negative numbers in exponent form as options
        argv = [x if not (x.startswith("-") and len(x) > 2 and "e" in x) else "%.12f" % float(x) for x in argv]
        for q, f in (("cutoff", "-c"), ("window", "-w")):
            if f in argv:
                k[q] = float(argv[argv.index(f) + 1])
        hs = {e: sha(pre + e) for e in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.json", "_RMsynth.dat")}
        if r.random() < .3:
            old_ = sorted(os.listdir(t))
            run_main(CL.main, [x for x in argv if x != "-S"], cwd)
            c.event("unasked")
            c.check(sorted(os.listdir(t)) == old_ and not os.listdir(cwd), "unasked-files", lambda: "wrote %s" % (sorted(set(os.listdir(t)) - set(old_)) + os.listdir(cwd)))
        run_main(CL.main, argv, cwd)
        c.event("clean_cli_runs")
        c.check(os.path.exists(pre + "_cleanFDF-plots.pdf"), "cli-missing-product", "figure of the cleaned spectrum")
        mm, aa = CL.readFiles(pre + "_FDFdirty.dat", pre + "_RMSF.dat", pre + "_weight.dat", pre + "_RMsynth.json", 32)
        k.setdefault("maxIter", 1000); k.setdefault("gain", .1)
        x, xa = CL.run_rmclean(mm, aa, nBits=32, verbose=c.idx % 5 == 3, log=quiet, **k)
        check_dicts(c, x, pre + "_RMclean", "cli-clean")
        arrays(c, pre + "_FDFclean.dat", [xa["phiArr_radm2"], np.squeeze(xa["cleanFDF"]).real, np.squeeze(xa["cleanFDF"]).imag], "cli-clean-spectrum")
        arrays(c, pre + "_FDFmodel.dat", [xa["phiArr_radm2"], np.squeeze(xa["ccArr"]).real, np.squeeze(xa["ccArr"]).imag], "cli-clean-model")
        for e, hh in hs.items():
            c.check(sha(pre + e) == hh, "input-file-modified", e)
        c.check(os.listdir(cwd) == [], "stray-files", lambda: "written to the working directory: %s" % os.listdir(cwd))
    c.check(sha(p) == h, "input-file-modified", name)
    c.event("files_unchanged")
    c.observed((c.seed, c.idx), c.context)
