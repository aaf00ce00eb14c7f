"""Stored images keep their pixels and their mask."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("images of 2x3 and 3x3 pixels, every pixel and mask bit symbolic; "
          "real, integer, complex, masked and masked complex arrays in "
          "single and double precision; returned or written to a file, over "
          "an existing one too; read back as data and as SingleImage")
OUTSIDE = ("rounding to single precision; files read by other programs")


def content(w):
    k, shape = w.cfg["kind"], tuple(w.cfg["shape"])
    if k == "int":
        a = w.arr("I", shape, -50, 99, dtype="i4", kind="i")
        return a, a * 1, None
    a = w.arr("I", shape, -40, 99, dtype=w.cfg.get("dtype", "f8"))
    re = a * 1
    if "complex" in k:
        a = a + 1j * w.arr("J", shape, -8, 8)
    if "masked" in k:
        m = w.mask("m", shape) if w.cfg["mask"] == "any" else \
            w.const(np.eye(*shape, dtype=bool))
        m0 = m.copy()
        if w.cfg["mask"] == "none":
            # an array of the masked kind without any mask
            m0 = w.const(np.zeros(shape, bool))
            return w.np.ma.MaskedArray(a), re, m0
        return w.masked(a, m), re, m0
    return a, re, None


def plain(w, a):
    return a.data if hasattr(a, "mask") else a


def same(w, label, a, b):
    w.check_eq(label, w.np.asarray(a).astype(float), b)


def scn(w):
    u = w.mod("utils")
    img, re, m = content(w)
    path = None
    fits = K.fits(w)
    F_ = w.load().imp("astropy.io.fits", fromlist=("open",))
    if w.cfg["path"]:
        path = K.path(w, "stored.fits")
        if w.cfg["path"] == "over":
            F_.PrimaryHDU(w.np.ones((5, 5))).writeto(path)
    im0 = plain(w, img) * 1
    got = w.run("the image is stored", lambda: u.store_img(img, path) if
                w.cfg["pos"] else u.store_img(img=img, path=path))
    if path is not None:
        h = w.run("the file opens", lambda: F_.open(path))
        hs = list(h)
    else:
        hs = list(got) if isinstance(got, (list, fits.HDUList)) else [got]
    same(w, "the pixels are stored", hs[0].data, re)
    w.check("one extension for the mask, none without", len(hs) == (
        1 if m is None else 2))
    if m is not None:
        w.check_eq("the mask is stored: one for bad, zero for good",
                   w.np.asarray(hs[1].data).astype(float), w.np.where(
                       m, w.q(1), w.q(0)))
        w.check("the mask extension says what it is",
                hs[1].header["IMG_TYPE"] == "BAD_PIXEL_MASK")
    w.check_eq("the caller's pixels stay", plain(w, img), im0)
    if m is not None:
        w.check_eq("the caller's mask stays",
                   w.np.ma.getmaskarray(img), m)
    if path is not None and hasattr(h, "close"):
        h.close()


def scn_back(w):
    """A stored masked image becomes a SingleImage with that mask."""
    u, si = w.mod("utils"), w.mod("single_image")
    shape = (4, 4)
    a = w.arr("I", shape, -40, 99)
    flags = np.zeros(shape, bool)
    flags[1, 2] = flags[3, 0] = True
    m = w.const(flags)
    for n, i in enumerate(((0, 0), (2, 1), (3, 3))):
        m[i] = w.bool(f"m{n}")
    path = K.path(w, "stored.fits")
    w.run("the image is stored", lambda: u.store_img(
        w.masked(a, m.copy()), path))
    src = path
    if w.cfg["how"] == "hdu":
        src = w.run("the image is stored", lambda: u.store_img(
            w.masked(a, m.copy())))
    im = w.run("the stored image is read", lambda: si.SingleImage(
        src, maskthresh=1, stamp_shape=(3, 3)))
    got = w.np.ma.getmaskarray(im.data)
    ref = si.SingleImage(a, mask=m.copy(), stamp_shape=(3, 3))
    w.check_eq("same mask as for the array", got,
               w.np.ma.getmaskarray(ref.data))
    w.check_eq("same pixels as for the array", plain(w, im.data),
               plain(w, ref.data))


def jobs(tier):
    J = []
    for k in ("real", "int", "complex", "masked", "masked complex"):
        for p in (None, "new", "over"):
            if p == "over" and k in ("int", "complex"):
                continue
            for s in ((2, 3),) if tier == "quick" else ((2, 3), (4, 3)):
                J.append(Job(f"{k}_{p}_{s[0]}".replace(" ", "_"), scn, dict(
                    kind=k, path=p, shape=s, mask="any",
                    pos=p != "new"), witness=3))
    for mk in ("none", "eye"):
        for d in ("f4", "f8"):
            J.append(Job(f"mask_{mk}_{d}", scn, dict(
                kind="masked", path="new", shape=(3, 3), mask=mk, dtype=d,
                pos=1), witness=3))
    J.append(Job("f4", scn, dict(kind="real", path=None, shape=(3, 3),
                                 dtype="f4", pos=1), witness=3))
    for h in ("file", "hdu"):
        J.append(Job(f"back_{h}", scn_back, dict(how=h), witness=3))
    return J
