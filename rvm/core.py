"""Per-case recorder: random source, event counters, verdicts, scratch space."""
import os, sys, zlib, json, hashlib, shutil, tempfile, copy
import numpy as np


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o[:12]] + (["...%d" % len(o)] if len(o) > 12 else [])
    if isinstance(o, np.ndarray):
        return {"shape": list(o.shape), "head": [str(x) for x in o.ravel()[:6]]}
    if isinstance(o, (np.generic,)):
        return o.item() if not np.iscomplexobj(o) else str(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


class Case:
    def __init__(self, prop, idx, seed, tier, scratch):
        self.prop, self.idx, self.seed, self.tier = prop, idx, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), idx])
        self.events, self.violations, self.inconclusive = {}, [], []
        self.keys, self.samples, self.evals = [], [], 0
        self.label = "default"
        self._scratch_root = scratch
        self._dirs = []
        self.context = {}

    # -- observation -----------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def observed(self, key, sample=None):
        """One evaluation of the oracle on a distinct, non-trivial case."""
        self.evals += 1
        self.keys.append(hashlib.md5(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 1:
            self.samples.append(jsonable(sample))

    def violate(self, mech, detail):
        d = detail if isinstance(detail, str) else json.dumps(jsonable(detail))
        if self.context:
            d += "\ncontext: " + json.dumps(jsonable(self.context))
        self.violations.append(dict(mech=mech, detail=d[:4000]))

    def check(self, cond, mech, detail=""):
        self.event("oracle_checks")
        if not bool(cond):
            self.violate(mech, detail() if callable(detail) else detail)
            return False
        return True

    def close(self, got, want, mech, rtol=1e-7, atol=0.0, what=""):
        """Array agreement with NaN==NaN; atol may be an array."""
        self.event("oracle_checks")
        try:
            g = np.asarray(got); w = np.asarray(want)
            if g.dtype == object:
                g = np.array(g, dtype=complex if any(isinstance(x, complex) for x in g.ravel()) else float)
        except Exception as e:
            self.violate(mech, "%s: not numeric: %r" % (what, e))
            return False
        if g.shape != w.shape:
            self.violate(mech, "%s: shape %s, expected %s" % (what, g.shape, w.shape))
            return False
        if g.size == 0:
            return True
        gn, wn = ~np.isfinite(g), ~np.isfinite(w)
        with np.errstate(all="ignore"):
            bad = np.where(gn | wn, ~((gn & wn) & ((np.isnan(g) & np.isnan(w)) | (g == w))),
                           ~(np.abs(np.where(gn, 0, g) - np.where(wn, 0, w)) <= atol + rtol * np.abs(np.where(wn, 0, w))))
        if np.any(bad):
            k = np.argwhere(np.atleast_1d(bad))
            i = tuple(k[0])
            gg, ww = np.atleast_1d(g)[i], np.atleast_1d(w)[i]
            fin = ~(gn | wn)
            md = np.max(np.abs((g - w)[fin])) if np.any(fin) else None
            self.violate(mech, "%s: %d of %d differ; first at %s: got %r expected %r; max |diff| %r" % (
                what, int(bad.sum()), g.size, i, gg, ww, md))
            return False
        return True

    def same(self, got, want, mech, what=""):
        return self.close(got, want, mech, rtol=0, atol=0, what=what)

    # -- input isolation ---------------------------------------------------------------
    def snapshot(self, **arrays):
        return {k: (v, None if v is None else copy.deepcopy(v)) for k, v in arrays.items()}

    def unchanged(self, snap, mech="input-modified"):
        for k, (now, then) in snap.items():
            if now is None:
                continue
            self.event("input_isolation_checks")
            if not deep_equal(now, then):
                self.violate(mech, "the caller's %s was modified" % k)

    # -- scratch -----------------------------------------------------------------------
    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="c%d_" % self.idx, dir=self._scratch_root)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    def result(self):
        return dict(idx=self.idx, events=self.events, violations=self.violations, inconclusive=self.inconclusive,
                    keys=self.keys, samples=self.samples, evals=self.evals, label=self.label)


def deep_equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b
