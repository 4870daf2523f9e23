"""Shared RM-CLEAN workload: dirty spectra and response functions built by the reference model."""
import pickle, time
import numpy as np
from rvm import gen, ref


def extend(phi):
    """the doubled depth axis: half the axis again on each side"""
    n = len(phi)
    e = int(np.ceil(n / 2.0))
    d = float(phi[1] - phi[0])
    return (np.arange(n + 2 * e) - e) * d + float(phi[0])


def make(r, nd=None, bits=None, shape=None, blanks=True, even=None, maxn=101, weights=True, minres=2.5, pervoxel=True, big=None):
    """dict(dirty, rmsf, phi, phi2, fwhm, truth...) with pixel axes of nd-1 dimensions"""
    bits = bits or int(r.choice([32, 64]))
    nd = nd or int(r.integers(1, 4))
    if shape is None:
        shape = {1: (), 2: (int(r.integers(1, 8)),), 3: (int(r.integers(1, 5)), int(r.integers(1, 5)))}[nd]
        if big == "pixels" and nd > 1:
            shape = (int(r.integers(150, 400)),) if nd == 2 else (int(r.integers(10, 20)), int(r.integers(10, 20)))
    npix = int(np.prod(shape)) if shape else 1
    f = gen.freqs(r)
    l2 = gen.lam2(f)
    n = len(l2)
    fw = gen.fwhm_of(l2)
    nphi = int(r.integers(15, maxn)) if big != "depths" else int(r.integers(900, 2200))
    if even is None:
        even = r.random() < .25
    nphi = nphi + nphi % 2 if even else nphi | 1
    step = fw / r.uniform(minres, 9.0)
    phi = (np.arange(nphi) - (nphi // 2)) * step
    phi2 = extend(phi)
    w = gen.weights(r, n, str(r.choice(["ones", "variance"]))) if weights else np.ones(n)
    lam0 = float((w * l2).sum() / w.sum())
    dirty = np.zeros((nphi, npix), complex)
    rm = np.zeros((len(phi2), npix), complex)
    wid = np.zeros(npix)
    for p in range(npix):
        good = np.ones(n, bool)
        if pervoxel and r.random() < .4 and n > 12:
            good = r.random(n) > .2
            if good.sum() < 4:
                good[:] = True
        ncomp = int(r.integers(0, 4))
        P = np.zeros(n, complex)
        for _ in range(ncomp):
            P += 10 ** r.uniform(-1.5, 0) * np.exp(2j * (r.uniform(0, np.pi) + r.uniform(phi[0], phi[-1]) * (l2 - lam0)))
        P += 10 ** r.uniform(-3, -1) * (r.normal(size=n) + 1j * r.normal(size=n))
        W = w * good
        dirty[:, p] = ref.fdf(P.real[:, None], P.imag[:, None], l2, phi, W, lam0)[0][:, 0]
        rm[:, p] = ref.rmsf(l2, phi2, W, None, lam0)[0][:, 0]
        gl = l2[good]
        wid[p] = gen.fwhm_of(gl) * r.uniform(.8, 1.2)
    blank = np.zeros(npix, bool)
    if blanks and npix > 1 and r.random() < .5:
        blank = r.random(npix) < .25
        blank[int(r.integers(npix))] = False
    dirty[:, blank] = np.nan + 1j * np.nan
    rm[:, blank] = 0
    cd = "complex%d" % (2 * bits)
    fd = "float%d" % bits
    d = dict(nd=nd, bits=bits, shape=shape, npix=npix, blank=blank,
             dirty=dirty.astype(cd).reshape((nphi,) + shape), rmsf=rm.astype(cd).reshape((len(phi2),) + shape),
             phi=phi.astype(fd), phi2=phi2.astype(fd), l2=l2, w=w, lam0=lam0)
    wd = wid.astype(fd)
    d["fwhm"] = wd.reshape(shape) if shape else (float(wd[0]) if r.random() < .5 else wd[0])
    pk = np.nanmax(np.abs(d["dirty"]), axis=0) if not blank.all() else np.zeros(npix)
    d["peak"] = float(np.nanmax(np.abs(np.nan_to_num(dirty))))
    return d


def flat(a, n0=None):
    a = np.asarray(a)
    return a.reshape((a.shape[0], -1)) if n0 is None else a.reshape((n0, -1))


def response_matrix(rm, nphi):
    """column k = response centred on sample k, from the response's own peak sample; needs 2*nphi samples"""
    c = int(np.argmax(rm.real)) if np.any(rm != 0) else len(rm) // 2
    n2 = len(rm)
    j = np.arange(nphi)
    idx = (j[:, None] - j[None, :] + c)
    ok = (idx >= 0) & (idx < n2)
    M = rm[np.clip(idx, 0, n2 - 1)]
    return np.where(ok, M, 0)


def gaussian_matrix(phi, fwhm):
    phi = np.asarray(phi, "float64")
    return ref.gaussian(phi[:, None], phi[None, :], float(fwhm))


class ScrambledPool:
    """A stand-in pool with process-like isolation: every chunk is evaluated on its own pickled copy of the
    function, chunks run in an order chosen by the seed, and only returned values come back."""

    def __init__(self, rng, order="random"):
        self.rng, self.order, self.tasks, self.chunks = rng, order, 0, 0

    def _run(self, func, items, chunksize, star=False):
        items = list(items)
        if chunksize is None or chunksize < 1:
            chunksize = max(1, len(items) // 4 or 1)
        ch = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        idx = list(range(len(ch)))
        if self.order == "random":
            self.rng.shuffle(idx)
        elif self.order == "reversed":
            idx = idx[::-1]
        res = {}
        for i in idx:
            f, part = pickle.loads(pickle.dumps((func, ch[i])))
            res[i] = pickle.loads(pickle.dumps([f(*x) if star else f(x) for x in part]))
            self.tasks += len(part)
            self.chunks += 1
        return idx, res

    def imap(self, func, iterable, chunksize=1):
        idx, res = self._run(func, iterable, chunksize)
        for i in range(len(res)):
            for x in res[i]:
                yield x

    def imap_unordered(self, func, iterable, chunksize=1):
        idx, res = self._run(func, iterable, chunksize)
        for i in idx:
            for x in res[i]:
                yield x

    def map(self, func, iterable, chunksize=None, callback=None):
        return list(self.imap(func, iterable, chunksize))

    def starmap(self, func, iterable, chunksize=None):
        idx, res = self._run(func, iterable, chunksize, star=True)
        return [x for i in range(len(res)) for x in res[i]]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
