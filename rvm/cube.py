"""FITS cubes in the layouts the tools accept, and an independent reader."""
import os, warnings
import numpy as np
import astropy.io.fits as pf
from astropy.wcs import WCS
warnings.filterwarnings("ignore", module="astropy")

LAYOUTS = ["3", "4s3", "4f3"]


def sky(r, h):
    k = str(r.choice(["sin", "tan", "gal"]))
    h["CTYPE1"], h["CTYPE2"] = {"sin": ("RA---SIN", "DEC--SIN"), "tan": ("RA---TAN", "DEC--TAN"), "gal": ("GLON-CAR", "GLAT-CAR")}[k]
    h["CRVAL1"] = float(r.uniform(10, 350))
    h["CRVAL2"] = float(r.uniform(-60, 60)) if k != "gal" else 0.0
    d = 10 ** r.uniform(-4, -1.5)
    h["CDELT1"], h["CDELT2"] = -d, d * r.uniform(.5, 2)
    h["CRPIX1"], h["CRPIX2"] = float(np.round(r.uniform(-20, 40), 2)), float(np.round(r.uniform(-20, 40), 2))
    h["CUNIT1"] = h["CUNIT2"] = "deg"
    if r.random() < .25:
        a = np.radians(r.uniform(-40, 40))
        h["PC1_1"], h["PC1_2"], h["PC2_1"], h["PC2_2"] = np.cos(a), -np.sin(a), np.sin(a), np.cos(a)
    return k


def header(r, layout, f, ctype=None, unit=True):
    """header without NAXIS cards for image axes 1, 2 and the layout's frequency/Stokes axes"""
    h = pf.Header()
    sky(r, h)
    ctype = ctype or str(r.choice(["FREQ", "FREQ", "FREQ", "OBSFREQ", "Frequency", "freq"]))
    fa = 4 if layout == "4s3" else 3
    h["CTYPE%d" % fa] = ctype
    if r.random() < .5:
        ref = int(r.integers(1, len(f) + 1))
    else:
        ref = 1
    h["CRPIX%d" % fa] = float(ref)
    h["CRVAL%d" % fa] = float(f[ref - 1])
    h["CDELT%d" % fa] = float(f[1] - f[0]) if len(f) > 1 else 1e6
    if unit:
        h["CUNIT%d" % fa] = "Hz"
    if layout != "3":
        sa = 3 if layout == "4s3" else 4
        h["CTYPE%d" % sa] = "STOKES"
        h["CRPIX%d" % sa], h["CDELT%d" % sa], h["CRVAL%d" % sa] = 1.0, 1.0, 1.0
        if r.random() < .5:
            h["CUNIT%d" % sa] = ""
    if r.random() < .7:
        h["BUNIT"] = str(r.choice(["Jy/beam", "K", "mJy/beam"]))
    if r.random() < .5:
        h["BMAJ"], h["BMIN"], h["BPA"] = .01, .008, 12.0
    if r.random() < .4:
        h["OBJECT"] = "src_%d" % r.integers(99)
    if r.random() < .3:
        h["RESTFRQ"] = 1.4e9
    if r.random() < .3:
        h["EQUINOX"] = 2000.0
    if r.random() < .2:
        h["DATAMAX"], h["DATAMIN"] = 3.0, -3.0
    if r.random() < .3:
        h["PC3_3"] = 1.0
    return h


def place(a, layout):
    """(n, ny, nx) -> array in the file's axis order"""
    if layout == "3":
        return a
    if layout == "4s3":
        return a[:, None]          # freq is FITS axis 4, Stokes axis 3
    return a[None]                 # freq is FITS axis 3, Stokes axis 4


def unplace(a, layout):
    if layout == "3":
        return a
    return a[:, 0] if layout == "4s3" else a[0]


def write(path, a, layout, h, bits=32, stokes=None):
    h = h.copy()
    if stokes and layout != "3":
        h["CRVAL%d" % (3 if layout == "4s3" else 4)] = float(stokes)
    pf.writeto(path, place(a, layout).astype("float%d" % bits), h, overwrite=True, output_verify="silentfix")


def lin(h, ax):
    """linear world coordinates of every pixel on a FITS axis"""
    n = h["NAXIS%d" % ax]
    return h["CRVAL%d" % ax] + (np.arange(1, n + 1) - h["CRPIX%d" % ax]) * h["CDELT%d" % ax]


def find(h, key):
    for i in range(1, h["NAXIS"] + 1):
        if key in str(h.get("CTYPE%d" % i, "")).upper():
            return i
    return 0


def sky_of(h, nx, ny):
    """world coordinates of every image pixel, from the celestial part of a header"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = WCS(h).celestial
        x, y = np.meshgrid(np.arange(nx), np.arange(ny))
        return np.array(w.all_pix2world(x, y, 0))


def read(path):
    with pf.open(path, memmap=False) as L:
        return [(np.array(x.data), x.header.copy()) for x in L]
