"""Background and noise are those of the good pixels of the scaled image."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("images of 3x4 symbolic pixels of every input kind; symbolic gain; "
          "masks given, guessed from bad values or read from an extension, "
          "of 0-3 pixels; two images whose masked pixels differ")
OUTSIDE = "the estimate itself (sep); larger images"

SHAPE = (3, 4)
MASKS = {"none": (), "one": ((1, 2),), "two": ((0, 0), (2, 3)),
         "three": ((0, 1), (1, 3), (2, 0))}


def good(w, m):
    return [(i, j) for i in range(SHAPE[0]) for j in range(SHAPE[1])
            if not bool(w.conc(m[i, j]))]


def build(w, base, I, kind, m, how, g, tag=""):
    si = w.mod("single_image")
    kw = dict(stamp_shape=(3, 3))
    if g is not None:
        kw["gain"] = g
    if w.cfg.get("thresh"):
        kw["maskthresh"] = w.cfg["thresh"]
    ext = None
    if how == "given":
        kw["mask"] = w.const(m)
    elif how == "ext":
        ext = w.const(m.astype("i4") * 50)
    else:
        I = I.copy()
        for p in zip(*np.nonzero(m)):
            I[p] = w.q(70000)
    return w.run("the image is built", lambda: getattr(si, base)(
        K.source(w, kind, I, ext=ext, tag=tag), **kw))


def scn(w):
    """The estimate is made of all good pixels and of no other."""
    base = w.cfg["base"]
    kind = w.cfg["kind"]
    how = w.cfg["how"]
    m = np.zeros(SHAPE, bool)
    for p in MASKS[w.choice("mask", w.cfg["masks"])]:
        m[p] = True
    I = w.arr("pix", SHAPE, 1, 9)
    g = w.real("gain", F(1, 2), 4) if w.cfg["gain"] else None
    im = build(w, base, I, kind, m, how, g)
    B = w.run("the background is given", lambda: im.background)
    var = w.run("the noise is given", lambda: im.var)
    ev = w.evs("sepbkg")
    w.check("the background is estimated", len(ev) >= 1)
    M = w.np.asarray(im.mask)
    used = ev[-1]["mask"]
    w.check_eq("the background is the estimate", B, ev[-1]["obj"].back())
    w.check("the noise is the estimate's", var == ev[-1]["obj"].globalrms)
    D = w.np.asarray(w.np.ma.getdata(ev[-1]["data"]))
    w.check("the estimate is of the image", tuple(D.shape) == SHAPE)
    for i in range(SHAPE[0]):
        for j in range(SHAPE[1]):
            bad = bool(w.conc(M[i, j]))
            hid = False if used is None else bool(w.conc(
                w.np.asarray(used)[i, j]))
            w.check("bad pixels and only these are left out", bad == hid)
            if not bad:
                w.check("the estimate is of the scaled pixels", D[i, j] ==
                        I[i, j] * (1 if g is None else g))
    # another image that only differs where it cannot be trusted
    J = I.copy()
    for p in zip(*np.nonzero(m)):
        J[p] = w.real("other", -9, 99)
    im2 = build(w, base, J, kind, m, how, g, "b")
    w.check_eq("masked values do not matter to the background",
               im2.background, im.background)
    w.check("masked values do not matter to the noise", im2.var == im.var)
    consistent(w, im)


def consistent(w, im):
    D = w.np.asarray(w.np.ma.getdata(im.data)) * 1
    M = w.np.asarray(im.mask) * 1
    B = w.run("the background is given", lambda: im.background) * 1
    sub = w.run("the background is subtracted", lambda: im.bkg_sub_img)
    w.check("what is left is a masked image", hasattr(sub, "mask"))
    if not hasattr(sub, "mask"):
        return
    w.check("the background has the image's size",
            tuple(B.shape) == tuple(sub.shape) == SHAPE)
    for p in good(w, M):
        w.check("image = background + background subtracted image",
                w.np.ma.getdata(sub)[p] == D[p] - B[p])
    w.check_eq("the mask carries over", w.np.ma.getmaskarray(sub) * 1, M)
    # the result is the caller's: writing to it leaves the image alone
    sub[0, 1] = w.q(33)
    sub.mask[1, 1] = True
    w.check_eq("the image is left alone", w.np.ma.getdata(im.data), D)
    w.check_eq("the image's mask is left alone",
               w.np.ma.getmaskarray(im.data) * 1, M)
    again = im.bkg_sub_img
    for p in good(w, M):
        w.check("the same when asked again",
                w.np.ma.getdata(again)[p] == D[p] - B[p])
    w.check_eq("the same background when asked again", im.background, B)


def scn_after(w):
    """Using the image leaves its background as it was."""
    m = np.zeros(SHAPE, bool)
    for p in MASKS[w.choice("mask", ("none", "one"))]:
        m[p] = True
    w.env["cr"] = "sym"
    I = w.arr("pix", SHAPE, 1, 9)
    im = build(w, "SingleImage", I, "ndarray", m, "given", None)
    B, v = im.background * 1, im.var
    what = w.choice("use", ("interped", "zp", "mask", "sources"))
    if what == "interped":
        im.interped
    elif what == "zp":
        im.zp = w.q(3)
    elif what == "mask":
        im.mask
    else:
        im.update_sources(K.catalog(w, "s", [1, 2], [1, 2], [3, 4]))
        im.best_sources
    w.check_eq("same background after use", im.background, B)
    w.check("same noise after use", im.var == v)
    consistent(w, im)


def jobs(tier):
    J = []
    for kind in K.KINDS:
        for how in ("given", "ext", "value"):
            if how == "ext" and kind not in ("hdulist", "file"):
                continue
            J.append(Job(f"{kind}_{how}", scn, dict(
                base="SingleImage", kind=kind, how=how, gain=0,
                masks=list(MASKS)), witness=3))
    J.append(Job("gain", scn, dict(base="SingleImage", kind="ndarray",
                                   how="given", gain=1, masks=("none",
                                   "two")), witness=3))
    J.append(Job("gauss", scn, dict(
        base="SingleImageGaussPSF", kind="hdu", how="given", gain=1,
        masks=("one", "three")), witness=3))
    for t in (1, 16, 40):
        J.append(Job(f"thresh_{t}", scn, dict(
            base="SingleImage", kind="file", how="ext", gain=0,
            masks=("none", "one", "two"), thresh=t), witness=3))
        J.append(Job(f"thresh_given_{t}", scn, dict(
            base="SingleImage", kind="ndarray", how="given", gain=0,
            masks=("none", "one", "two"), thresh=t), witness=3))
    J.append(Job("after", scn_after, {}, witness=3))
    return J
