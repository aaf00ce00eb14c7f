"""Aligning inside an operation = operating on images aligned beforehand."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S
from checks import C06

BOUNDS = ("subtract and coadd of 2-3 images of 3x3 to 4x4 pixels (all pixels "
          "symbolic), the aligned ones of another size too, each moved by "
          "its own whole-pixel shift out of {-1,0,1}^2; masked pixels; "
          "fitted and measured PSFs; one or two workers; registration may "
          "fail at any image")
OUTSIDE = ("the registration itself (astroalign); sub-pixel warps; what a "
           "star catalogue becomes after moving its image")


def klass(w, base):
    """Images of one class and PSF, whose interpolated pixels are their own
    (zero where masked)."""
    u, si = w.mod("utils"), w.mod("single_image")
    C = K.image_class(w, base)
    if base == "SingleImage":
        psf = [S.psf_const(w, "rat", "x")]
    else:
        w.env["gauss_profile"] = S.profile
        g = u.models.Gaussian2D(amplitude=1.0, x_mean=0, y_mean=0,
                                x_stddev=w.q(1), theta=w.q(0),
                                y_stddev=w.q(1))
        psf = [g.render(), g]
    C.spec = {"interped": lambda im: w.np.ma.filled(im.data, 0),
              "sources": K.catalog(w, "c", [10, 30], [12, 40], [1, 10]),
              "psf": psf}
    if base == "SingleImage":
        C.normal_image = property(lambda im: w.np.ones(im.data.shape))
    w.gauss = None
    if base == "SingleImage" and w.cfg.get("mixed"):
        w.gauss = K.image_class(w, "SingleImageGaussPSF")
        w.gauss.spec = C.spec
        w.gauss.normal_image = C.normal_image
    setattr(si, base, C)
    return C


def moved(w, data, mask, sh, shape):
    """What the registration has to deliver."""
    out = w.np.zeros(shape)
    bad = np.zeros(shape, bool)
    n = tuple(data.shape)
    for i in np.ndindex(*shape):
        j = (i[0] + sh[0], i[1] + sh[1])
        if 0 <= j[0] < n[0] and 0 <= j[1] < n[1]:
            out[i] = data[j]
            bad[i] = mask[j]
        else:
            out[i] = w.q(7)         # not covered: any number
            bad[i] = True
    return out, bad


def pixels(w, k, shape):
    if w.cfg["sym"]:
        return w.arr(f"img{k}", shape, 1, 8)
    return w.const([[F(1 + (3 * i + 5 * j + k) % 7) for j in range(shape[1])]
                    for i in range(shape[0])])


def snap(im):
    return im.data.data * 1, im.mask * 1


def unchanged(w, im, s):
    w.check_eq("pixels given are left alone", im.data.data, s[0])
    w.check_eq("mask given is left alone", im.mask * 1, s[1])


def setup(w):
    n = w.cfg["n"]
    shape = tuple(w.cfg["shape"])
    base = w.cfg["base"]
    w.env["rms"] = lambda w, i: w.q("5/4")
    w.env["opt_x"] = lambda w, i, j, n: w.q("5/3") if n != 2 and j == 0 \
        else w.q(0)
    if "ok" in w.cfg:
        w.env["opt_ok"] = w.choice("optimiser succeeds", (True, False))
    # shifts by order of registration
    sh = {k: w.choice(f"shift{k}", w.cfg["shifts"]) for k in range(1, n)}
    C = klass(w, base)
    ims, hand = [], []
    for k in range(n):
        s = shape if k == 0 else tuple(w.cfg.get("shape2", shape))
        d = pixels(w, k, s)
        m = np.zeros(s, bool)
        m[w.cfg["bad"][k]] = True
        kw = dict(stamp_shape=(3, 3)) if k == 0 else {}
        if w.cfg.get("zero") and k:
            d[0, :] = w.q(0)
            d[:, s[1] - 1] = w.q(0)
        D = C if k != 1 or w.gauss is None else w.gauss
        im = D(d, mask=w.const(m), **kw)
        ims.append(im)
        if k == 0:
            hand.append(C(d * 1, mask=w.const(m), **kw))
        else:
            d2, m2 = moved(w, im.data.data, m, sh[k], shape)
            hand.append(D(d2, mask=w.const(m2), **kw))
    return ims, hand, sh


def registered(w, ims, sh):
    """Called by the registration stand-in: the shift of the image given."""
    def f(w, n, source, target):
        for k, im in enumerate(ims):
            if source is im.data:
                w.check("the reference is never moved", k != 0)
                w.check("images move to the first image's frame",
                        target is ims[0].data)
                return sh.get(k, (0, 0))
        # another view of the pixels: by position
        return sh[1 + n % len(sh)]
    w.env["align_shift"] = f


def same(w, A, B):
    for lab, a, b in zip(("first product", "PSF", "third product",
                          "mask"), A, B):
        if lab == "mask" or len(A) == 3 and lab == "third product":
            a, b = a * 1, b * 1
        w.check_eq(f"{lab}: as with images aligned beforehand", a, b)


def scn_coadd(w):
    op = w.mod("operations")
    ims, hand, sh = setup(w)
    C06.prescribe(w, [w.q(F(2 + k, 2)) for k in range(len(ims))])
    registered(w, ims, sh)
    old = [snap(i) for i in ims]
    given = list(ims)
    kw = {} if w.cfg.get("default") else {"align": True}
    A = w.run("coadd aligns and returns", lambda: op.coadd(
        given, n_procs=w.cfg["procs"], **kw))
    for im, s in zip(ims, old):
        unchanged(w, im, s)
    w.check("the list given is left alone", len(given) == len(ims) and
            all(a is b for a, b in zip(given, ims)))
    ev = w.evs("align")
    w.check("every image but the first is registered once",
            len(ev) == len(ims) - 1)
    B = w.run("coadd without alignment returns", lambda: op.coadd(
        hand, align=False, n_procs=w.cfg["procs"]))
    used = w.evs("transparency")[0]["images"]
    w.check("as many images are used as given", len(used) == len(ims))
    for u, im, h in zip(used, ims, hand):
        w.check("aligned images keep their class", type(u) is type(im))
        w.check_eq("aligned masks", u.mask * 1, h.mask * 1)
        w.check_eq("aligned pixels", w.np.ma.filled(u.data, 0),
                   w.np.ma.filled(h.data, 0))
    same(w, A, B)


def scn_sub(w):
    op = w.mod("operations")
    ims, hand, sh = setup(w)
    S.prescribe_zps(w, w.q(1), w.q(2))
    registered(w, ims, sh)
    old = [snap(i) for i in ims]
    kw = dict(w.cfg["kw"], fitted_psf=w.cfg["base"] != "SingleImage")
    A = w.run("subtract aligns and returns", lambda: op.subtract(
        *ims, align=True, **kw))
    for im, s in zip(ims, old):
        unchanged(w, im, s)
    w.check("the new image is registered once", len(w.evs("align")) == 1)
    B = w.run("subtract of aligned images returns", lambda: op.subtract(
        *hand, align=False, **kw))
    same(w, A, B)


def scn_fail(w):
    """No registration: an error, never a product of unaligned images."""
    op = w.mod("operations")
    ims, hand, sh = setup(w)
    at = w.choice("fails at", range(len(ims) - 1))
    registered(w, ims, sh)
    w.env["align_fails"] = lambda n: n == at
    old = [snap(i) for i in ims]
    if w.cfg["op"] == "coadd":
        C06.prescribe(w, [w.q(F(2 + k, 2)) for k in range(len(ims))])
        w.raises("coadd reports a failed registration", ValueError,
                 lambda: op.coadd(list(ims), align=True, n_procs=1))
    else:
        S.prescribe_zps(w, w.q(1), w.q(2))
        w.raises("subtract reports a failed registration", ValueError,
                 lambda: op.subtract(*ims, align=True, fitted_psf=False))
    for im, s in zip(ims, old):
        unchanged(w, im, s)


def jobs(tier):
    J = []
    SH = [(0, 0), (1, 0), (0, -1)] if tier == "quick" else \
        [(a, b) for a in (0, 1, -1) for b in (0, 1, -1)]
    bad = [(2, 2), (0, 1), (1, 0)]
    for p in (1, 2):
        J.append(Job(f"coadd_2_{p}", scn_coadd, dict(
            n=2, shape=(2, 2), shape2=(3, 3), base="SingleImage", procs=p,
            shifts=SH, bad=[(1, 1), (0, 1)], sym=True), budget=90))
        J.append(Job(f"coadd_3_{p}", scn_coadd, dict(
            n=3, shape=(3, 4), base="SingleImage", procs=p, shifts=SH,
            bad=bad, sym=False, default=p == 2)))
    J.append(Job("coadd_zero", scn_coadd, dict(
        n=2, shape=(3, 4), base="SingleImage", procs=1, shifts=SH, bad=bad,
        sym=False, zero=1)))
    J.append(Job("coadd_mixed", scn_coadd, dict(
        n=3, shape=(3, 4), base="SingleImage", procs=2, shifts=SH, bad=bad,
        sym=False, mixed=1)))
    J.append(Job("sub_zero", scn_sub, dict(
        n=2, shape=(3, 4), base="SingleImage", shifts=SH, bad=bad, zero=1,
        kw=dict(beta=False, shift=False), sym=False)))
    for base in ("SingleImage", "SingleImageGaussPSF"):
        J.append(Job(f"sub_{base}", scn_sub, dict(
            n=2, shape=(2, 2), shape2=(3, 3), base=base, shifts=SH,
            kw=dict(beta=False, shift=False), bad=[(1, 1), (0, 1)],
            sym=True), budget=90))
        for b in ((True, False), (False, True), (True, True)):
            J.append(Job(f"sub_{base}_{int(b[0])}{int(b[1])}", scn_sub, dict(
                n=2, shape=(4, 3), shape2=(3, 4), base=base, ok=1, shifts=SH,
                kw=dict(beta=b[0], shift=b[1]), bad=bad, sym=False)))
    for o in ("coadd", "subtract"):
        J.append(Job(f"fail_{o}", scn_fail, dict(
            n=3 if o == "coadd" else 2, shape=(3, 3), base="SingleImage",
            shifts=[(0, 1)], bad=bad, sym=False, op=o)))
    return J
