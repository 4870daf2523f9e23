"""Workload generators shared by the checks."""
import numpy as np
C = 299792458.0


def freqs(rng, n=None, kind=None, lo=None, hi=None):
    """Channel frequencies in Hz, ascending."""
    n = int(n or rng.integers(8, 60))
    kind = kind or rng.choice(["uniform", "gap", "irregular", "low", "wide"])
    if kind == "low":
        f = np.linspace(120e6, 120e6 + rng.uniform(20e6, 60e6), n)
    elif kind == "wide":
        f = np.linspace(0.8e9, rng.uniform(3e9, 6e9), n)
    elif kind == "irregular":
        f = np.sort(rng.uniform(0.8e9, 1.8e9, n))
        f += np.arange(n) * 1e5
    elif kind == "gap":
        f = np.linspace(0.8e9, 1.8e9, 2 * n)
        k = np.sort(rng.permutation(2 * n)[:n])
        f = f[k]
    else:
        a = rng.uniform(0.7e9, 1.4e9)
        f = np.linspace(a, a + rng.uniform(0.1e9, 0.8e9), n)
    return f


def scale_draw(rng, rate=.06):
    """None, or which dimension of a case is made much larger than usual"""
    return str(rng.choice(["pixels", "channels", "depths"])) if rng.random() < rate else None


def lam2(f):
    return (C / np.asarray(f, dtype="float64")) ** 2


def fwhm_of(l2):
    return 3.8 / (np.nanmax(l2) - np.nanmin(l2))


def phi_axis(rng, l2, n=None, kind=None, maxn=121):
    """Faraday depth axis; kind: sym, even, shifted, descending?"""
    w = fwhm_of(l2)
    n = int(n or rng.integers(9, maxn))
    kind = kind or rng.choice(["sym", "sym", "even", "shifted"])
    d = w / rng.uniform(2.0, 8.0)
    if kind == "sym":
        n |= 1
        return (np.arange(n) - (n - 1) / 2) * d
    if kind == "even":
        n += n % 2
        return (np.arange(n) - n / 2) * d       # zero is a sample but not the centre
    off = rng.uniform(-20, 20) * w
    return (np.arange(n) - (n - 1) / 2) * d + off


def weights(rng, n, kind=None):
    kind = kind or rng.choice(["none", "ones", "variance", "holes", "nan", "steep"])
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(n)
    w = 1.0 / rng.uniform(0.2, 3.0, n) ** 2
    if kind == "steep":
        w = 10.0 ** rng.uniform(-4, 4, n)
    if kind == "holes":
        w[rng.random(n) < 0.3] = 0.0
    if kind == "nan":
        w[rng.random(n) < 0.3] = np.nan
    if not np.nansum(w) > 0:
        w[0] = 1.0
    return w


def thin(l2, phi, p=1.0, psi0_deg=0.0):
    return p * np.exp(2j * (np.radians(psi0_deg) + phi * np.asarray(l2)))


def thick_phi_limit(l2):
    return np.pi / np.min(l2)


def layout(a, kind):
    """the same values in another memory layout (as FITS readers, transposes and slices produce)"""
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "swapped":
        return a.astype(a.dtype.newbyteorder(">"))
    if kind == "strided":
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        b[..., 1::2] = 1e9
        return b[..., ::2]
    if kind == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    return a


def image(c, small, rate=.03, lo=10, hi=18):
    """(ny, nx): one of the small shapes, sometimes a much larger one (more pixels than any block or buffer of a loop)"""
    r = c.rng
    if r.random() >= rate:
        return small[int(r.integers(len(small)))]
    c.event("large_images")
    a, b = int(r.integers(lo, hi)), int(r.integers(lo, hi))
    return [(a, b), (a, b), (1, a * b), (a * b, 1)][int(r.integers(4))]
