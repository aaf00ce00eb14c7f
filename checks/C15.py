"""Which pixels of an image end up masked: invalid ones, extension masks,
given masks, thresholds, growth."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("images of 2x3 (thorough 3x4) symbolic pixels (also NaN), every "
          "pixel and mask bit symbolic, and of 8x9 with four symbolic pixels; extension and file masks with 2-3 symbolic pixels and "
          "symbolic threshold; growth on 12x12 images from seeds by choice "
          "with symbolic pixels")
OUTSIDE = "infinite pixels; images larger than the ones named"


def window(m, i, j):
    """The 3x3 neighbourhood, reflected at the border."""
    n, k = m.shape

    def r(a, n):
        return -a - 1 if a < 0 else 2 * n - 1 - a if a >= n else a
    return [m[r(i + a, n), r(j + b, k)] for a in (-1, 0, 1)
            for b in (-1, 0, 1)]


def grow(w, m, steps=7):
    if not m.size:
        return m
    for _ in range(steps):
        o = np.empty(m.shape, object)
        for i, j in np.ndindex(*m.shape):
            win = window(m, i, j)
            if all(isinstance(x, (bool, np.bool_)) for x in win):
                o[i, j] = bool(m[i, j]) or sum(map(int, win)) >= 3
                continue
            s = w.np.array(win).astype(int).sum()
            o[i, j] = w.any([m[i, j], s >= 3])
        if all(isinstance(x, bool) for x in o.ravel()) and \
                (o == m).all():
            return o
        m = o
    return m


def expect(w, label, im, m):
    got = w.np.ma.getmaskarray(im.data)
    w.check("mask has the image's size",
            tuple(got.shape) == tuple(m.shape) == tuple(im.data.shape))
    for i in np.ndindex(*m.shape):
        w.check(label, w.any([w.all([got[i], m[i]]),
                              w.all([w.not_(got[i]), w.not_(m[i])])]))


def obj(m):
    o = np.empty(m.shape, object)
    for i in np.ndindex(*m.shape):
        o[i] = m[i]
    return o


def threshold(w, x):
    return w.any([x < -50, x > 65000])


def scn_given(w):
    """A mask passed by the caller, or none at all."""
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    at = w.cfg.get("sym")
    if at:
        I, m = w.np.ones(shape), w.np.zeros(shape, dtype=bool)
        m[0, 1] = True
        for n, p in enumerate(at):
            I[p] = w.real(f"pix{n}", -200, 70000)
        for n, p in enumerate(at[1:]):
            m[p] = w.bool(f"m{n}")
    else:
        I = w.arr("pix", shape, -200, 70000)
        m = w.mask("m", shape)
    g = w.q(w.cfg.get("gain", 1))
    kw = dict(stamp_shape=(3, 3), gain=g)
    if w.cfg["mask"] == "array":
        kw["mask"] = m
    elif w.cfg["mask"] == "noguess":
        kw["guessmask"] = False
    ref = obj(m)
    im = w.run("the image is built", lambda: si.SingleImage(
        K.source(w, w.cfg["kind"], I), **kw))
    E = np.empty(shape, object)
    for i in np.ndindex(*shape):
        t = threshold(w, I[i] * g)
        E[i] = w.any([ref[i], t]) if w.cfg["mask"] == "array" else t
    expect(w, "masked exactly: given, out of range, grown", im,
           grow(w, E, 7))


def scn_invalid(w):
    """Without a mask the non-finite pixels are the bad ones."""
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    at = w.cfg.get("sym")
    if at:
        I = w.np.ones(shape)
        v = w.arr_or_nan("pix", (len(at),), -100, 70000)
        for n, p in enumerate(at):
            I[p] = v[n]
    else:
        I = w.arr_or_nan("pix", shape, -100, 70000)
    bad = np.empty(shape, object)
    for i in np.ndindex(*shape):
        bad[i] = w.any([w.isnan(I[i]), threshold(w, I[i])])
    src = K.source(w, w.cfg["kind"], I, extend=w.cfg["extend"])
    im = w.run("the image is built", lambda: si.SingleImage(
        src, stamp_shape=(3, 3)))
    expect(w, "masked exactly: invalid, out of range, grown", im,
           grow(w, bad, 7))
    got = w.np.ma.getmaskarray(im.data)
    for i in np.ndindex(*shape):
        w.check("non-finite pixels are masked",
                w.any([w.not_(w.isnan(I[i])), got[i]]))


def scn_ext(w):
    """Mask read from the first extension or from a mask file."""
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    base = w.choice("base", (0, 20))
    ext = np.full(shape, base, object)
    for n, p in enumerate(w.cfg["at"]):
        ext[tuple(p)] = w.int(f"e{n}", 0, 40)
    ext_a = w.np.array(ext.tolist())
    ext_a = ext_a.astype("i4")
    thr = w.int("thr", 1, 30) if w.cfg["thr"] else None
    I = w.np.ones(shape) * w.real("pix", 0, 100)
    c = w.cfg["crop"]
    kw = dict(stamp_shape=(3, 3), crop=c, maskthresh=thr)
    how = w.cfg["how"]
    if how == "maskfile":
        p = K.source(w, "file", ext_a, tag="mask")
        src, kw["mask"] = K.source(w, w.cfg["kind"], I), p
    else:
        src = K.source(w, how, I, ext=ext_a)
    im = w.run("the image is built", lambda: si.SingleImage(src, **kw))
    t = 16 if thr is None else thr
    E = np.empty(shape, object)
    for i in np.ndindex(*shape):
        E[i] = (ext[i] >= t) if base == 0 else (ext[i] <= t)
    (a, b), (d, e) = c
    E = E[a: shape[0] - b, d: shape[1] - e]
    expect(w, "masked exactly: flagged in the extension, grown", im,
           grow(w, E, 7))


def scn_own(w):
    """The mask a masked array brings, and its non-finite pixels."""
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    I = w.np.ones(shape)
    I[0, 0] = w.arr_or_nan("pix", (1,), -100, 70000)[0]
    m = w.mask("m", shape)
    kw = {}
    if w.cfg["crop"]:
        kw["crop"] = ((1, 0), (0, 1))
    E = np.empty(shape, object)
    for i in np.ndindex(*shape):
        E[i] = w.any([m[i], w.isnan(I[i]), threshold(w, I[i])])
    im = w.run("the image is built", lambda: si.SingleImage(
        w.masked(I, m), stamp_shape=(3, 3), **kw))
    if w.cfg["crop"]:
        E = E[1:, :shape[1] - 1]
    expect(w, "masked exactly: its own, invalid, out of range, grown", im,
           grow(w, E, 7))


def scn_off(w):
    """guessmask=False: neither extension nor non-finite pixels."""
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    I = w.np.ones(shape)
    v = w.arr("pix", (2,), -100, 70000)
    I[0, 1], I[2, 2] = v[0], v[1]
    ext = np.zeros(shape, int)
    ext[1, 1] = 30
    src = K.source(w, w.cfg["kind"], I, ext=w.np.array(ext.tolist()).astype(
        "i4") if w.cfg["kind"] in ("hdulist", "file") else None)
    E = np.empty(shape, object)
    for i in np.ndindex(*shape):
        E[i] = threshold(w, I[i])
    im = w.run("the image is built", lambda: si.SingleImage(
        src, stamp_shape=(3, 3), guessmask=False))
    expect(w, "masked exactly: out of range, grown", im, grow(w, E, 7))


SEEDS = {"line": [(1, 1), (1, 2), (1, 3)],
         "corner": [(0, 0), (0, 1), (2, 5)],
         "el": [(5, 5), (5, 6), (6, 5)],
         "two": [(3, 3), (8, 8)],
         "edge": [(11, 4), (11, 5), (11, 6)],
         "side": [(4, 11), (5, 11)]}


def scn_grow(w):
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    seed = w.choice("seed", sorted(SEEDS))
    m = np.zeros(shape, bool)
    for p in SEEDS[seed]:
        m[p] = True
    o = obj(m)
    extra = {}
    for n, p in enumerate(w.cfg["sym"]):
        o[tuple(p)] = w.bool(f"m{n}")
    mm = w.np.array(o.tolist())
    im = w.run("the image is built", lambda: si.SingleImage(
        w.np.ones(shape), mask=mm, stamp_shape=(3, 3)))
    expect(w, "seven steps of growth", im, grow(w, o, 7))


def scn_mono(w):
    """More bad pixels never unmask one."""
    si = w.mod("single_image")
    shape = tuple(w.cfg["shape"])
    a, b = w.mask("a", shape), w.mask("b", shape)
    both = a | b
    im1 = si.SingleImage(w.np.ones(shape), mask=a.copy(), stamp_shape=(3, 3))
    im2 = si.SingleImage(w.np.ones(shape), mask=both, stamp_shape=(3, 3))
    g1, g2 = (w.np.ma.getmaskarray(i.data) for i in (im1, im2))
    for i in np.ndindex(*shape):
        w.check("mask grows with the bad pixels",
                w.any([w.not_(g1[i]), g2[i]]))
        w.check("bad pixels are masked", w.any([w.not_(a[i]), g1[i]]))


def jobs(tier):
    J = []
    sh = (2, 3) if tier == "quick" else (3, 4)
    for kind in ("ndarray", "hdu", "file"):
        for mask in ("array", "noguess"):
            J.append(Job(f"{mask}_{kind}", scn_given, dict(
                shape=sh, kind=kind, mask=mask, gain="3/2")))
    for kind in K.KINDS:
        for ext in ((True,) if kind in ("ndarray", "masked", "hdu")
                    else (True, False, None)):
            J.append(Job(f"invalid_{kind}_{ext}", scn_invalid, dict(
                shape=sh, kind=kind, extend=ext)))
    far = [(2, 2), (2, 3), (3, 2), (5, 5)]
    J.append(Job("array_far", scn_given, dict(
        shape=(8, 9), kind="ndarray", mask="array", sym=far)))
    J.append(Job("invalid_far", scn_invalid, dict(
        shape=(8, 9), kind="ndarray", extend=True, sym=far)))
    for c in (0, 1):
        J.append(Job(f"own_{c}", scn_own, dict(shape=(2, 3) if not c else
                                               (3, 3), crop=c)))
    for kind in ("ndarray", "hdu", "hdulist", "file"):
        J.append(Job(f"off_{kind}", scn_off, dict(shape=(4, 4), kind=kind)))
    at = [(4, 4), (4, 5), (5, 4)]
    for how, kind in (("hdulist", ""), ("file", ""), ("maskfile", "ndarray"),
                      ("maskfile", "file")):
        for thr in (0, 1):
            for crop in (((0, 0), (0, 0)), ((1, 0), (2, 1))):
                if crop[0][0] and (not thr or how == "maskfile" and kind):
                    if tier == "quick":
                        continue
                J.append(Job(f"ext_{how}{kind}_{thr}_{crop[0][0]}", scn_ext,
                             dict(shape=(7, 8), at=at, how=how, kind=kind,
                                  thr=thr, crop=crop)))
    J.append(Job("grow", scn_grow, dict(shape=(12, 12),
                                        sym=[(1, 4), (9, 9)])))
    J.append(Job("monotone", scn_mono, dict(shape=(2, 3))))
    return J
