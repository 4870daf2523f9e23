"""R04: trace specification of RM-CLEAN (stopping, placement, counting, window) and independence from the schedule."""
import os, time
import numpy as np
from rvm import gen, ref, cleanw

CASES = {"quick": 3200, "thorough": 60000}
RULE = ("traces: the same spectrum cleaned with every iteration limit 0..K, consecutive results compared step by step; "
        "schedules: the same cube cleaned serially, pixel by pixel, permuted, through an isolating pool that runs chunks in random "
        "order, and through real worker processes with injected delays; distinct by draw and schedule")
MIN_EVENTS = {"trace_steps": 2500, "finished_traces": 100, "below_cutoff_pixels": 8, "window_traces": 80, "window_steps": 200,
              "edge_windows": 8, "isolated_pool_runs": 250, "real_pool_runs": 16, "pixels_compared_across_schedules": 3000}
ASSUMPTIONS = ["window edges are judged to within one depth sample"]

VERB = [False]


def clean(d, cutoff, maxit, gain, win, sel=None, **k):
    from RMutils.util_RM import do_rmclean_hogbom
    dirty, rm, fw = d["dirty"], d["rmsf"], d["fwhm"]
    if sel is not None:
        dirty = cleanw.flat(dirty)[:, sel]
        rm = cleanw.flat(rm)[:, sel]
        fw = np.ravel(fw)[sel]
    nphi = len(d["phi"])
    res = do_rmclean_hogbom(dirty, d["phi"], rm, d["phi2"], fw, cutoff, maxIter=maxit, gain=gain, nBits=d["bits"], verbose=VERB[0],
                            log=lambda *a, **kk: None, window=win, **k)
    cl, cc, it, rs = res[0], res[1], res[2], res[3]
    return [cleanw.flat(cl, nphi), cleanw.flat(cc, nphi), np.ravel(it), cleanw.flat(rs, nphi)]


def step(c, a, b, gain, tag, scale, eps, M, allowed=None, core=None):
    """a -> b is one CLEAN iteration at the current peak"""
    ra, rb = a[3][:, 0], b[3][:, 0]
    dc = b[1][:, 0].astype("complex128") - a[1][:, 0]
    nz = np.where(np.abs(dc) > 20 * eps * scale)[0]
    if not c.check(len(nz) == 1, tag + "-components-per-step", lambda: "components changed at %s" % nz[:8].tolist()):
        return None
    k = int(nz[0])
    m = np.abs(ra)
    pool = np.arange(len(m)) if core is None else np.asarray(core)
    if len(pool):
        c.check(m[k] >= m[pool].max() - 20 * eps * scale, tag + "-not-at-peak", lambda: "step at %d (%g), peak %g at %d" % (
            k, m[k], m[pool].max(), pool[int(np.argmax(m[pool]))]))
    if allowed is not None:
        c.check(k in allowed, tag + "-outside-window", lambda: "component at %d, first-stage components allow %s" % (k, sorted(allowed)[:30]))
    c.close(dc[k], gain * complex(ra[k]), tag + "-wrong-size", rtol=0, atol=60 * eps * scale, what="component added")
    # a step takes away exactly what it adds: the component seen through the response
    c.close(rb.astype("complex128"), ra.astype("complex128") - M[:, k] * dc[k], tag + "-residual", rtol=0, atol=100 * eps * scale,
            what="residual after the step")
    return k


def trace(c):
    r = c.rng
    d = cleanw.make(r, nd=1, blanks=False)
    nphi = len(d["phi"])
    pk = d["peak"] or 1.0
    scale = pk
    eps = 4e-7 if d["bits"] == 32 else 4e-15
    gain = float(r.choice([0.1, 0.2, 0.4, 0.8]))
    cutoff = pk * 10 ** r.uniform(-1.2, 0.03)
    K = 24
    M = cleanw.response_matrix(cleanw.flat(d["rmsf"])[:, 0].astype("complex128"), nphi)
    c.label = "trace"
    c.context = dict(kind="trace", bits=d["bits"], nphi=nphi, gain=gain, cutoff=cutoff)
    prev = clean(d, cutoff, 0, gain, np.nan)
    c.check(prev[2][0] == 0, "count", "limit 0 gives count %r" % prev[2][0])
    for k in range(1, K + 1):
        cur = clean(d, cutoff, k, gain, np.nan)
        m = np.max(np.abs(prev[3]))
        if m < cutoff:
            # finished: nothing more may happen whatever the limit
            c.event("finished_traces")
            if k == 1:
                c.event("below_cutoff_pixels")
            c.check(cur[2][0] == k - 1, "count", "count %r after the residual fell below the cutoff at %d" % (cur[2][0], k - 1))
            c.same(cur[1], prev[1], "continued-below-cutoff", "components")
            big = clean(d, cutoff, 5000, gain, np.nan)
            c.same(big[1], prev[1], "continued-below-cutoff", "components at limit 5000")
            c.check(big[2][0] == k - 1, "count", "%r vs %r" % (big[2][0], k - 1))
            break
        c.event("trace_steps")
        if not c.check(cur[2][0] == k, "stopped-early", lambda: "limit %d, peak %g >= cutoff %g but count %r" % (k, m, cutoff, cur[2][0])):
            break
        if step(c, prev, cur, gain, "step", scale, eps, M) is None:
            break
        prev = cur
    full = clean(d, cutoff, 3000, gain, np.nan)
    c.check(np.max(np.abs(full[3])) < cutoff or full[2][0] == 3000, "residual-above-cutoff", lambda: "peak %g, cutoff %g, count %r" % (
        np.max(np.abs(full[3])), cutoff, full[2][0]))
    c.observed((c.seed, c.idx), dict(c.context, count=full[2]))


def window(c):
    r = c.rng
    d = cleanw.make(r, nd=1, blanks=False, pervoxel=False)
    nphi = len(d["phi"])
    eps = 4e-7 if d["bits"] == 32 else 4e-15
    scale = pk = d["peak"] or 1.0
    phi = d["phi"].astype("float64")
    if r.random() < .3:
        # a strong source close to an edge of the axis
        k = int(r.integers(0, 4))
        k = k if r.random() < .5 else nphi - 1 - k
        P = np.exp(2j * phi[k] * (d["l2"] - d["lam0"])) * 2 * pk
        add = ref.fdf(P.real[:, None], P.imag[:, None], d["l2"], phi, d["w"], d["lam0"])[0][:, 0]
        d["dirty"] = (d["dirty"] + add).astype(d["dirty"].dtype)
        scale = pk = float(np.max(np.abs(d["dirty"])))
    gain = float(r.choice([0.1, 0.3, 0.5]))
    cutoff = pk * r.uniform(0.3, 0.9)
    win = cutoff * r.uniform(0.15, 1.3)
    c.label = "window"
    c.context = dict(kind="window", bits=d["bits"], nphi=nphi, gain=gain, cutoff=cutoff, window=win)
    one = clean(d, cutoff, 4000, gain, np.nan)
    n1 = int(one[2][0])
    two = clean(d, cutoff, 4000, gain, win)
    c.event("window_traces")
    if n1 >= 4000:
        return
    half = float(d["fwhm"]) / 2 / (phi[1] - phi[0])
    first = np.where(one[1][:, 0] != 0)[0]
    if len(first) == 0:
        c.same(two[1], one[1], "window-without-components", "components")
        c.check(two[2][0] == 0, "window-without-components", "count")
        c.observed((c.seed, c.idx), c.context)
        return
    if first.min() < half or first.max() > nphi - 1 - half:
        c.event("edge_windows")
    allowed = {int(j) for i in first for j in range(nphi) if abs(j - i) <= half + 1}
    core = np.array(sorted({int(j) for i in first for j in range(nphi) if abs(j - i) <= half - 1} | {int(i) for i in first} if half >= 1 else []), int)
    N = int(two[2][0])
    c.check(N >= n1, "window-count", "%d < %d" % (N, n1))
    if len(core):
        m = np.max(np.abs(two[3][core, 0]))
        c.check(m < win or N >= 4000, "window-residual-above-threshold", lambda: "residual %g inside the window, threshold %g, count %d" % (m, win, N))
    extra = np.where(np.abs(two[1][:, 0].astype("complex128") - one[1][:, 0]) > 20 * eps * scale)[0]
    c.check(set(extra.tolist()) <= allowed, "window-outside", lambda: "second-stage components at %s" % sorted(set(extra.tolist()) - allowed)[:8])
    if win > cutoff:
        c.check(N == n1, "window-above-cutoff", "window above cutoff but %d extra iterations" % (N - n1))
    prev = clean(d, cutoff, n1, gain, win)
    c.same(prev[1], one[1], "window-first-stage", "components after the first stage")
    M = cleanw.response_matrix(cleanw.flat(d["rmsf"])[:, 0].astype("complex128"), nphi)
    for k in range(n1 + 1, min(N, n1 + 12) + 1):
        cur = clean(d, cutoff, k, gain, win)
        c.event("window_steps")
        if not c.check(cur[2][0] == k, "count", "limit %d count %r" % (k, cur[2][0])):
            break
        mx = max(np.abs(prev[3][sorted(allowed), 0]))
        c.check(mx >= win - 20 * eps * scale, "window-continued", "largest residual in the window %g, threshold %g" % (mx, win))
        if step(c, prev, cur, gain, "window-step", scale, eps, M, allowed, core) is None:
            break
        prev = cur
    c.observed((c.seed, c.idx), dict(c.context, first_stage=n1, total=N))


def compare(c, a, b, ia, ib, tag, tol=0.0):
    c.event("pixels_compared_across_schedules", len(ia))
    for j, nm in ((0, "clean"), (1, "components"), (3, "residual")):
        c.close(a[j][:, ia], b[j][:, ib], "schedule-" + tag, rtol=0, atol=tol, what=nm)
    c.same(a[2][ia], b[2][ib], "schedule-count-" + tag, "iteration counts")


def schedules(c):
    r = c.rng
    nd = int(r.choice([2, 3]))
    shape = (int(r.integers(2, 9)),) if nd == 2 else (int(r.integers(1, 5)), int(r.integers(2, 5)))
    big = c.idx % 40 == 8
    if big:
        # more pixels than any block a schedule is likely to use
        shape = (int(r.integers(120, 300)),) if nd == 2 else (int(r.integers(8, 18)), int(r.integers(8, 18)))
        c.event("large_pixels")
    d = cleanw.make(r, nd=nd, shape=shape, maxn=61 if not big else 31)
    npix = d["npix"]
    pk = d["peak"] or 1.0
    gain = float(r.choice([0.1, 0.3]))
    cutoff = pk * 10 ** r.uniform(-1, -0.1)
    maxit = int(r.choice([15, 200]))
    win = cutoff * .5 if r.random() < .3 else np.nan
    c.label = "schedules"
    c.context = dict(kind="schedules", bits=d["bits"], shape=shape, gain=gain, cutoff=cutoff, maxIter=maxit, window=win)
    base = clean(d, cutoff, maxit, gain, win)
    al = np.arange(npix)
    for p in al if not big else r.choice(al, 20, replace=False):
        one = clean(d, cutoff, maxit, gain, win, sel=[p])
        compare(c, one, base, [0], [p], "alone")
    perm = r.permutation(npix)
    pm = clean(d, cutoff, maxit, gain, win, sel=perm)
    compare(c, pm, base, al, perm, "permuted")
    for order in ("random", "reversed"):
        pool = cleanw.ScrambledPool(r, order)
        cs = [None, 1, 2, 3, npix, npix + 5][int(r.integers(6))]
        k = {} if cs is None else dict(chunksize=cs)
        out = clean(d, cutoff, maxit, gain, win, pool=pool, **k)
        c.event("isolated_pool_runs")
        c.event("chunks", pool.chunks)
        compare(c, out, base, al, al, "isolated-pool")
    if c.idx % 16 == 8:
        real(c, r, d, cutoff, maxit, gain, win, base, al)
    c.observed((c.seed, c.idx), dict(c.context, counts=base[2][:8]))


def real(c, r, d, cutoff, maxit, gain, win, base, al):
    import schwimmbad
    import RMutils.util_RM as U
    cls = getattr(U, "RMcleaner", None)
    orig = getattr(cls, "cleanloop", None) if cls else None
    ms = r.uniform(0, 0.012, 64)
    if orig is not None:
        def slow(self, *a, **k):
            try:
                time.sleep(ms[(int(a[0][0]) * 7 + int(a[0][1]) * 3) % 64])       # injected delay, differs per pixel
            except (TypeError, IndexError, ValueError):
                time.sleep(ms[0])
            return orig(self, *a, **k)
        cls.cleanloop = slow
    try:
        for nw in (2, 4):
            pool = schwimmbad.choose_pool(mpi=False, processes=nw)
            cs = int(r.integers(1, 4))
            try:
                out = clean(d, cutoff, maxit, gain, win, pool=pool, chunksize=cs)
            finally:
                pool.close()
                pool.terminate() if hasattr(pool, "terminate") else None
            c.event("real_pool_runs")
            compare(c, out, base, al, al, "worker-processes")
    finally:
        if orig is not None:
            cls.cleanloop = orig


def run_case(c):
    VERB[0] = c.idx % 5 == 3
    [trace, window, schedules, trace][c.idx % 4](c) if c.idx % 8 else schedules(c)
