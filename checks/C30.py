"""Operations take any image source and treat it as the image built from it."""
from fractions import Fraction as F
import warnings

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S
from checks import C06

BOUNDS = ("subtract and coadd of two or three inputs of 2x3 pixels, each an "
          "array, masked array, HDU, HDU list (with and without mask), FITS "
          "file, image of the right class or image of the other class; "
          "symbolic pixels; every combination of two kinds")
OUTSIDE = "inputs of other types (CCDData)"

KINDS = K.KINDS + ("hdulist+mask", "file+mask", "same", "other")
SHAPE = (2, 3)


def klass(w, base):
    u, si, op = (w.mod(m) for m in ("utils", "single_image", "operations"))
    B = getattr(si, base)
    C0 = K.image_class(w, base)

    class C(C0):
        def __init__(self, *a, **k):
            w.event("built", smooth=k.get("smooth_psf", a[8] if len(a) > 8
                                          else False), img=self)
            C0.__init__(self, *a, **k)
    C.__name__ = base
    if base == "SingleImage":
        psf = [S.psf_const(w, "rat", "x")]
    else:
        w.env["gauss_profile"] = S.profile
        g = u.models.Gaussian2D(amplitude=1.0, x_mean=0, y_mean=0,
                                x_stddev=w.q(1), theta=w.q(0),
                                y_stddev=w.q(1))
        psf = [g.render(), g]
    C.spec = C0.spec = {
        "interped": lambda im: w.np.ma.filled(im.data, 0),
        "sources": K.catalog(w, "c", [10, 30], [12, 40], [1, 10]),
        "psf": psf, "normal": w.np.ones(SHAPE)}
    for m in (si, op):
        for n, v in list(vars(m).items()):
            if v is B:
                setattr(m, n, C)
    return C


def given(w, k, kind, C):
    """(what to hand over, the image it stands for)."""
    d = w.arr(f"img{k}", SHAPE, 1, 8) if w.cfg["sym"] else w.const(
        [[F(1 + (3 * i + 5 * j + k) % 7) for j in range(SHAPE[1])]
         for i in range(SHAPE[0])])
    m = np.zeros(SHAPE, bool)
    m[k % 2, k] = True
    if kind == "masked":
        a = w.masked(d, w.const(m))
        return a, C(w.masked(d * 1, w.const(m)), smooth_psf=w.cfg["smooth"])
    if kind in ("same", "other"):
        si = w.mod("single_image")
        if kind == "same":
            D = C
        else:
            D = w.other
        kw = dict(stamp_shape=(3, 3))
        im = D(d, mask=w.const(m), gain=w.q(2), **kw)
        if kind == "same":
            return im, D(d * 1, mask=w.const(m), gain=w.q(2), **kw)
        return im, C(im.data, smooth_psf=w.cfg["smooth"])
    ext = None
    if kind.endswith("+mask"):
        kind = kind[:-5]
        ext = w.const(m.astype(int) * 20)
    gain = None if kind == "ndarray" else F(3, 2)
    a = K.source(w, kind, d, gain=gain if gain is None else w.q(gain),
                 ext=ext, tag=f"{k}")
    b = a if kind not in ("ndarray",) else d * 1
    return a, C(b, smooth_psf=w.cfg["smooth"])


def others(w, base):
    """Before the classes are replaced."""
    si = w.mod("single_image")
    o = "SingleImageGaussPSF" if base == "SingleImage" else "SingleImage"
    w.other = getattr(si, o)


def same(w, A, B):
    w.check("as many products", len(A) == len(B))
    for i, (x, y) in enumerate(zip(A, B)):
        w.check_eq(f"product {i}: as with images built explicitly", x * 1,
                   y * 1)


def pixels(a):
    return [(x, x * 1) for x in a if hasattr(x, "dtype")]


def untouched(w, keep):
    for x, y in keep:
        w.check_eq("the caller's arrays are left alone", x, y)


def scn_sub(w):
    op = w.mod("operations")
    base = w.cfg["base"]
    kinds = (w.cfg["first"], w.choice("kind of new", w.cfg["kinds"]))
    others(w, base)
    C = klass(w, base)
    w.env["rms"] = lambda w, i: w.q("5/4")
    S.prescribe_zps(w, w.q(1), w.q(2))
    ab = [given(w, k, t, C) for k, t in enumerate(kinds)]
    keep = pixels([a for a, _ in ab])
    n = len(w.evs("built"))
    kw = dict(beta=False, shift=False, smooth_psf=w.cfg["smooth"],
              fitted_psf=base != "SingleImage")
    f = op.diff if w.cfg.get("wrapper") else op.subtract
    A = call(w, f, [a for a, _ in ab], kw)
    new = w.evs("built")[n:]
    w.check("images are built for the other inputs only",
            len({id(e["img"]) for e in new}) >=
            sum(k != "same" for k in kinds))
    for e in new:
        w.check("smooth_psf is passed on", bool(e["smooth"]) ==
                w.cfg["smooth"])
    untouched(w, keep)
    B = op.subtract(*[b for _, b in ab], **kw)
    same(w, A, B)


def call(w, f, args, kw):
    if not w.cfg.get("wrapper"):
        return w.run("the operation takes these inputs",
                     lambda: f(*args, **kw))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = w.run("the wrapper takes these inputs", lambda: f(*args, **kw))
    w.check("the old name warns", any(issubclass(x.category,
            DeprecationWarning) for x in ws))
    return r


def scn_coadd(w):
    op = w.mod("operations")
    kinds = (w.cfg["first"],) + tuple(
        w.choice(f"kind{i}", w.cfg["kinds"]) for i in range(w.cfg["n"] - 1))
    others(w, "SingleImage")
    C = klass(w, "SingleImage")
    w.env["rms"] = lambda w, i: w.q("5/4")
    w.env["align_shift"] = (0, 0)
    C06.prescribe(w, [w.q(F(2 + k, 2)) for k in range(w.cfg["n"])])
    ab = [given(w, k, t, C) for k, t in enumerate(kinds)]
    lst = [a for a, _ in ab]
    own = list(lst)
    keep = pixels(own)
    arg = tuple(own) if w.cfg.get("tuple") else own
    kw = dict(align=w.cfg["align"], n_procs=w.cfg["procs"])
    f = op.stack_R if w.cfg.get("wrapper") else op.coadd
    A = call(w, f, [arg], kw)
    untouched(w, keep)
    w.check("the caller's list is left alone", len(arg) == len(lst) and
            all(x is y for x, y in zip(arg, lst)))
    B = op.coadd([b for _, b in ab], **kw)
    same(w, A, B)


def scn_bad(w):
    """Nothing an image can be made of: an error."""
    op = w.mod("operations")
    base = w.cfg["base"]
    others(w, base)
    C = klass(w, base)
    S.prescribe_zps(w, w.q(1), w.q(2))
    good = given(w, 0, "ndarray", C)[0]
    bad = w.choice("bad", (None, 3, "no/such/file.fits", object()))
    kw = dict(fitted_psf=base != "SingleImage")
    first = w.choice("first", (True, False))
    w.raises("subtract refuses what is no image", Exception, lambda:
             op.subtract(*((bad, good) if first else (good, bad)), **kw))
    if base == "SingleImage":
        w.raises("coadd refuses what is no image", Exception, lambda:
                 op.coadd([good, bad], align=False))


def jobs(tier):
    J = []
    for base in ("SingleImage", "SingleImageGaussPSF"):
        t = "fit" if base != "SingleImage" else "kl"
        # images with Gaussian PSFs are SingleImages too: taken as they are
        kinds = KINDS if t == "fit" else KINDS[:-1]
        for k in kinds:
            J.append(Job(f"sub_{t}_{k}", scn_sub, dict(
                base=base, first=k, kinds=kinds if tier != "quick" else
                ("ndarray", "file+mask") + kinds[7:], smooth=False,
                sym=k in ("ndarray", "masked")), witness=3))
        J.append(Job(f"sub_{t}_smooth", scn_sub, dict(
            base=base, first="ndarray", kinds=kinds, smooth=True,
            sym=False), witness=3))
        J.append(Job(f"diff_{t}", scn_sub, dict(
            base=base, first="ndarray", kinds=kinds, smooth=True,
            sym=False, wrapper=1), witness=3))
        J.append(Job(f"bad_{t}", scn_bad, dict(
            base=base, sym=False, smooth=False)))
    CK = tuple(k for k in KINDS if k != "other")
    for k in CK:
        J.append(Job(f"coadd_{k}", scn_coadd, dict(
            first=k, kinds=CK, n=2, smooth=False, align=False, procs=1,
            sym=k in ("ndarray", "masked")), witness=3))
    J.append(Job("coadd_3", scn_coadd, dict(
        first="ndarray", kinds=("hdu", "same", "masked"), n=3, smooth=False,
        align=False, procs=2, sym=False), witness=3))
    J.append(Job("coadd_tuple", scn_coadd, dict(
        first="ndarray", kinds=CK, n=2, smooth=False, align=False, procs=2,
        sym=False, tuple=1), witness=3))
    J.append(Job("coadd_align", scn_coadd, dict(
        first="file+mask", kinds=CK, n=2, smooth=False, align=True, procs=1,
        sym=False), witness=3))
    J.append(Job("stack", scn_coadd, dict(
        first="ndarray", kinds=CK, n=2, smooth=False, align=False, procs=1,
        sym=False, wrapper=1), witness=3))
    return J
