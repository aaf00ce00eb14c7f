"""The interpolated image: good pixels untouched, every bad one replaced."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("images of 2x3 and 3x3 pixels: pixels (also NaN), mask, cosmic-ray "
          "map, background and interpolated values all symbolic; up to two "
          "rounds of interpolation")
OUTSIDE = ("what the cosmic-ray finder and the interpolation compute; larger "
           "images")


def scn(w):
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    w.env["cr"] = w.cfg["cr"]
    if w.cfg["left"]:
        w.env["interp_leaves_nan"] = True
    if w.cfg["flat"]:
        w.env["flat_background"] = True
    if w.cfg["nan"]:
        I = w.arr_or_nan("pix", shape, -40, 40)
    else:
        I = w.arr("pix", shape, -40, 40)
    how = w.cfg["mask"]
    kw = {}
    m = w.np.zeros(shape, dtype=bool)
    if how == "given":
        # sparse enough not to grow, and never the whole image
        for n, p in enumerate(w.cfg["bits"]):
            m[tuple(p)] = w.bool(f"m{n}")
        kw["mask"] = m.copy()
    elif how == "noguess":
        kw["guessmask"] = False
    im = w.run("the image is built", lambda: si.SingleImage(
        I.copy(), stamp_shape=(3, 3), **kw))
    before = im.data.copy()
    mb = w.np.ma.getmaskarray(im.data).copy()
    bg = im.background
    got = w.run("the image is interpolated", lambda: im.interped)
    w.check("size", tuple(got.shape) == shape)
    ev = w.evs("cosmics")
    cr = ev[0]["found"] if ev else w.np.zeros(shape, dtype=bool)
    iv = [e["vals"] for e in w.evs("interp")]
    for i in np.ndindex(*shape):
        bad = w.any([mb[i], cr[i], w.isnan(I[i])])
        w.check("no pixel is left undefined", w.not_(w.isnan(got[i])))
        good = before.data[i] - bg[i]
        w.check("good pixels are the background-subtracted data",
                w.any([bad, got[i] == good]))
        if w.cfg["left"]:
            continue
        w.check("bad pixels are interpolated",
                w.any([w.not_(bad)] + [got[i] == v[i] for v in iv]))
    w.check_eq("pixels are not changed by the interpolation",
               im.data.data, before.data)
    w.check_eq("the mask is not changed by the interpolation",
               w.np.ma.getmaskarray(im.data), mb)
    again = im.interped
    w.check_eq("asking again gives the same image", again, got)


def jobs(tier):
    J = []
    for sh in ((2, 3),) if tier == "quick" else ((2, 3), (3, 3)):
        for mask in ("given", "noguess", "guess"):
            for cr in ("none", "any"):
                for nan in (0, 1):
                    for left in (0, 1):
                        if left and (not nan and cr == "none" or
                                     mask == "noguess"):
                            continue
                        J.append(Job(
                            f"{mask}_{cr}_{nan}{left}_{sh[0]}{sh[1]}", scn,
                            dict(shape=sh, mask=mask, cr=cr, nan=nan,
                                 left=left, flat=0,
                                 bits=[(0, 0), (1, 2)])))
    return J
