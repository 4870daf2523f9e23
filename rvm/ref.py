"""Independent reference models (direct sums in double precision)."""
import numpy as np
C = 299792458.0


def clean_weights(w, n):
    w = np.ones(n) if w is None else np.array(w, dtype="float64")
    return np.where(np.isnan(w), 0.0, w)


def fdf(Q, U, l2, phi, w=None, lam0=None):
    """(nchan, npix) data -> (nphi, npix) complex, lam0.  Unflagged = finite Q and U."""
    Q = np.asarray(Q, dtype="float64"); U = np.asarray(U, dtype="float64")
    n = len(l2)
    w = clean_weights(w, n)
    good = ~(np.isnan(Q) | np.isnan(U))
    if lam0 is None:
        wl = w * good.any(axis=1)
        s = wl.sum()
        lam0 = float((wl * l2).sum() / s) if s > 0 else 0.0
    P = np.where(good, Q, 0) + 1j * np.where(good, U, 0)
    W = w[:, None] * good
    E = np.exp(-2j * np.outer(phi, l2 - lam0))
    S = W.sum(axis=0)
    with np.errstate(all="ignore"):
        F = (E @ (P * W)) / S
    F[:, S == 0] = np.nan + 1j * np.nan
    return F, lam0, S


def rmsf(l2, phi2, w=None, mask=None, lam0=None):
    """mask True = flagged, (nchan, npix)"""
    n = len(l2)
    w = clean_weights(w, n)
    good = np.ones((n, 1), bool) if mask is None else ~np.asarray(mask, bool)
    if lam0 is None:
        wl = w * good.any(axis=1)
        lam0 = float((wl * l2).sum() / wl.sum())
    W = w[:, None] * good
    E = np.exp(-2j * np.outer(phi2, l2 - lam0))
    S = W.sum(axis=0)
    with np.errstate(all="ignore"):
        R = (E @ W.astype(complex)) / S
    R[:, S == 0] = 0
    return R, lam0, S


def gaussian(x, mean, fwhm):
    return np.exp(-4.0 * np.log(2.0) * ((x - mean) / fwhm) ** 2)


def parabola(x, y):
    """vertex through three points, by exact interpolation polynomial"""
    x = np.asarray(x, dtype="float64"); y = np.asarray(y, dtype="float64")
    s = x[1]
    d = x - s
    A = np.vander(d, 3)
    a, b, c = np.linalg.solve(A, y)
    if a == 0:
        return np.nan, np.nan
    xv = -b / (2 * a)
    return xv + s, c - b * b / (4 * a)


def mad(a):
    a = np.asarray(a); a = a[a == a]
    m = np.median(a)
    return np.median(np.abs(a - m)) / 0.6745


def angdiff180(a, b):
    """difference of axial angles in degrees, in [-90, 90)"""
    return (np.asarray(a) - np.asarray(b) + 90.0) % 180.0 - 90.0
