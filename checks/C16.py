"""borders=True trims exactly the empty border, pixels and masks alike."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C15 as G

BOUNDS = ("images of 2x3 and 3x3 pixels, every pixel symbolic and free to be "
          "zero; 6x7 images with empty margins of 0-3 pixels chosen per side "
          "and symbolic pixels at the edge of the exposed area; gain, crop, "
          "given masks of full and of trimmed size")
OUTSIDE = "float32 rounding; larger images"


def box(w, I):
    """First and last row and column with a non zero pixel."""
    n, m = I.shape
    rows = [i for i in range(n) if w.conc(w.any(
        [I[i, j] != 0 for j in range(m)]))]
    cols = [j for j in range(m) if w.conc(w.any(
        [I[i, j] != 0 for i in range(n)]))]
    if not rows:
        return (0, n), (0, m)
    return (rows[0], rows[-1] + 1), (cols[0], cols[-1] + 1)


def check(w, I, src, keep, g, **kw):
    si = w.mod("single_image")
    im = w.run("the image is built", lambda: si.SingleImage(
        src, stamp_shape=(3, 3), borders=w.cfg.get("borders", True), gain=g,
        **kw))
    (a, b), (c, d) = box(w, keep) if w.cfg.get("borders", True) else \
        ((0, keep.shape[0]), (0, keep.shape[1]))
    cr = kw.get("crop", ((0, 0), (0, 0)))
    a, b, c, d = a + cr[0][0], b - cr[0][1], c + cr[1][0], d - cr[1][1]
    w.check("trimmed to the exposed area",
            tuple(im.data.shape) == (b - a, d - c))
    w.check_eq("pixels of the exposed area are kept", im.data.data,
               keep[a:b, c:d] * g)
    return im, (a, b, c, d)


def scn_free(w):
    shape = tuple(w.cfg["shape"])
    I = w.arr("pix", shape, -8, 8)
    keep = I.copy()
    g = w.real("gain", F(1, 2), 3)
    check(w, I, K.source(w, w.cfg["kind"], I), keep, g)


def scn_margin(w):
    shape = tuple(w.cfg["shape"])
    t, b = w.choice("margin_y", ((0, 0), (1, 2), (3, 0), (0, 1)))
    l, r = w.choice("margin_x", ((0, 0), (2, 1), (0, 3), (1, 0)))
    I = w.np.zeros(shape)
    y0, y1, x0, x1 = t, shape[0] - b, l, shape[1] - r
    for i in range(y0, y1):
        for j in range(x0, x1):
            if (i + j) % 3 != 1:
                I[i, j] = w.q(F(i + 2 * j + 1, 4))
    # symbolic pixels on the edge of the exposed area, and inside
    for n, p in enumerate(((y0, x0 + 1), (y1 - 1, x1 - 1), (y0 + 1, x0))):
        I[p] = w.real(f"edge{n}", -8, 8)
    keep = I.copy()
    kw = {}
    how = w.cfg["mask"]
    m = None
    if w.cfg["crop"]:
        kw["crop"] = ((1, 0), (0, 1))
    if how == "full":
        m = np.zeros(shape, bool)
        m[y0 + 1, x0 + 2] = m[y1 - 2, x1 - 2] = m[0, 0] = True
        kw["mask"] = w.const(m)
    src = K.source(w, w.cfg["kind"], I)
    im, (a, b, c, d) = check(w, I, src, keep, w.q(2), **kw)
    if how == "full":
        got = w.np.ma.getmaskarray(im.data)
        want = G.grow(w, G.obj(m[a:b, c:d]), 7)
        w.check("mask has the trimmed size", tuple(got.shape) == want.shape)
        for i in np.ndindex(*want.shape):
            w.check("given mask follows the trimmed image",
                    w.any([w.all([want[i], got[i]]),
                           w.all([w.not_(want[i]), w.not_(got[i])])]))


def jobs(tier):
    J = []
    kinds = ("ndarray", "hdu", "file") if tier == "quick" else K.KINDS
    for k in kinds:
        for sh in ((2, 3), (3, 3)) if tier == "quick" else (
                (2, 3), (3, 3), (3, 4)):
            if k != "ndarray" and sh != (2, 3):
                continue
            J.append(Job(f"free_{k}_{sh[0]}{sh[1]}", scn_free, dict(
                shape=sh, kind=k), max_paths=3000,
                budget=60 if tier == "quick" else 300))
        for mask in ("none", "full"):
            for crop in (0, 1):
                J.append(Job(f"margin_{k}_{mask}_{crop}", scn_margin, dict(
                    shape=(6, 7), kind=k, mask=mask, crop=crop),
                    max_paths=1000))
    J.append(Job("off", scn_free, dict(shape=(2, 3), kind="ndarray",
                                       borders=False)))
    return J
