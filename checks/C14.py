"""The image's pixels are gain * input[crop], for every kind of input."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("images of 2x3 to 5x4 symbolic pixels; crops of 0-2 pixels on each "
          "of the four sides by choice; ndarray, masked array, HDU, HDU list "
          "(with and without extension) and file; gain explicit, from the "
          "header or absent, symbolic; mask guessed, given or not guessed")
OUTSIDE = "float32 rounding of the stored pixels; larger images"


def scn(w):
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    kind = w.cfg["kind"]
    I = w.arr("pix", shape, -10, 100)
    if w.cfg.get("dtype"):
        I = w.arr("pix", shape, -10, 100, dtype=w.cfg["dtype"], kind="i")
    keep = I.copy()
    c = [w.choice(f"crop{i}", (0, 1, 2) if n > 2 else (0, 1)) for i, n in
         enumerate((shape[0] - 1, 2, shape[1], shape[1]))]
    if not w.cfg["crop"]:
        c = [0, 0, 0, 0]
    w.assume(c[0] + c[1] < shape[0] and c[2] + c[3] < shape[1])
    how = w.cfg["gain"]
    g = w.q(0) if w.cfg.get("zero") else w.real("gain", F(1, 4), 4)
    hdr = kind in ("hdu", "hdulist", "file")
    ext = None
    if w.cfg.get("ext"):
        ext = w.const(np.zeros(shape, "i2"))
    src = K.source(w, kind, I, gain=g if how == "header" and hdr else
                   w.q("5/2") if how == "both" and hdr else None,
                   ext=ext)
    kw = dict(stamp_shape=(3, 3), crop=((c[0], c[1]), (c[2], c[3])))
    if how in ("explicit", "both"):
        kw["gain"] = g
    if w.cfg["mask"] == "given":
        n = (shape[0] - c[0] - c[1], shape[1] - c[2] - c[3])
        kw["mask"] = w.const(np.zeros(n, bool))
    elif w.cfg["mask"] == "noguess":
        kw["guessmask"] = False
    im = w.run("the image is built", lambda: si.SingleImage(src, **kw))
    used = g if how in ("explicit", "both") or (how == "header" and hdr) else 1
    E = keep[c[0]: shape[0] - c[1], c[2]: shape[1] - c[3]] * used
    w.check("size of the cropped image",
            tuple(im.data.shape) == tuple(E.shape))
    w.check_eq("pixels are gain times the cropped input", im.data.data, E)
    w.check("gain is reported", im.gain == used)
    w.check("no good pixel is masked", w.not_(w.any(
        list(w.np.ma.getmaskarray(im.data).ravel()))))
    if kind in ("ndarray", "masked"):
        w.check_eq("the caller's array is unchanged",
                   w.np.asarray(src.data if kind == "masked" and not w.sym
                                else w.np.ma.getdata(src)), keep)
    if hdr:
        w.check("header is kept", ("GAIN" in im.header) ==
                (how in ("header", "both")))


def jobs(tier):
    J = []
    for kind in K.KINDS:
        for mask in ("guess", "given", "noguess"):
            for how in ("explicit", "header", "none", "both"):
                for crop in (0, 1):
                    if how == "both" and (kind in K.KINDS[:2] or crop):
                        continue
                    if tier == "quick" and (crop and how == "none" or
                                            mask != "guess" and
                                            how == "header"):
                        continue
                    J.append(Job(f"{kind}_{mask}_{how}_{crop}", scn, dict(
                        shape=(4, 3) if crop else (2, 3), kind=kind,
                        mask=mask, gain=how, crop=crop,
                        ext=kind in ("hdulist", "file") and mask == "guess"
                        and how == "explicit"),
                        max_paths=100))
    for kind in K.KINDS:
        for how in ("explicit", "header"):
            if how == "header" and kind in K.KINDS[:2]:
                continue
            J.append(Job(f"{kind}_{how}_zero", scn, dict(
                shape=(2, 3), kind=kind, mask="guess", gain=how, crop=0,
                zero=1)))
        J.append(Job(f"{kind}_int", scn, dict(
            shape=(2, 3), kind=kind, mask="guess", gain="explicit", crop=0,
            dtype="i4")))
    return J
