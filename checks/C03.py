"""No bad pixel is lost: result masks cover every input's mask."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S

BOUNDS = ("subtract and coadd of 2-3 images of 4x4 / 3x4 pixels, every mask "
          "bit and pixel symbolic; alignment by any integer shift in "
          "{-1,0,1}^2 with symbolic source mask; 1-3 worker threads")
OUTSIDE = "sub-pixel warps inside astroalign (third-party)"


def grid(m, shape):
    """Result mask as an array (a bare False means nothing is masked)."""
    if getattr(m, "shape", ()) == ():
        return None
    return m


def covers(w, label, m, want, shape):
    """want[i] implies m[i] for every pixel."""
    m = grid(m, shape)
    for i in np.ndindex(*shape):
        got = False if m is None else m[i]
        w.check(label, w.any([w.not_(want[i]), got]))


def pre(w):
    w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
    w.env["opt_x"] = lambda w, i, j, n: w.q("5/3") if j == 0 else w.q(0)


def scn_sub(w):
    shape = tuple(w.cfg["shape"])
    op = w.mod("operations")
    pre(w)
    ims = []
    for t in "rn":
        cat = K.catalog(w, t, [10, 30], [12, 40], [1, 10])
        spec = {"interped": w.np.ones(shape) + K.frac(w, [[
            i * 7 % 5 for i in range(shape[1])]] * shape[0]),
                "sources": cat, "psf": [S.psf_const(w, "rat", t)]}
        m = w.mask("m" + t, shape)
        ims.append(K.make_image(w, spec, w.np.zeros(shape), mask=m))
        w.event("in", m=m)
    ref, new = ims
    S.prescribe_zps(w, w.q(1), w.q(2))
    given = [e["m"] for e in w.evs("in")]
    D, P, Sc, M = w.run("subtract returns", lambda: op.subtract(
        ref, new, align=False, beta=w.cfg["beta"], shift=False,
        iterative=False, fitted_psf=False))
    for m, im in zip(given, ims):
        covers(w, "mask passed in is kept in the result", M, m, shape)
        covers(w, "image mask is kept in the result", M,
               w.np.ma.getmaskarray(im.data), shape)


def scn_align(w):
    """subtract(align=True): masked pixels move with the image."""
    shape = tuple(w.cfg["shape"])
    op, si = w.mod("operations"), w.mod("single_image")
    pre(w)
    sh = (w.choice("dy", (0, 1, -1)), w.choice("dx", (0, 1, -1)))
    w.env["align_shift"] = sh
    bad = w.choice("bad", w.cfg["bad"])
    mr = np.zeros(shape, bool)
    mn = np.zeros(shape, bool)
    mn[bad] = True
    calls = []
    P = S.psf_const(w, "rat", "x")

    # every class the operation may build carries the same measurements
    base = w.cfg["base"]
    B = getattr(si, base)
    C = K.image_class(w, base)
    cat = K.catalog(w, "c", [10, 30], [12, 40], [1, 10])
    u = w.mod("utils")
    if base == "SingleImage":
        psf = [P]
    else:
        w.env["gauss_profile"] = S.profile
        g = u.models.Gaussian2D(amplitude=1.0, x_mean=0, y_mean=0,
                                x_stddev=w.q(1), theta=w.q(0),
                                y_stddev=w.q(1))
        psf = [g.render(), g]
    C.spec = {"interped": w.np.ones(shape) + K.frac(
        w, [[i * 7 % 5 for i in range(shape[1])]] * shape[0]),
        "sources": cat, "psf": psf}
    setattr(si, base, C)
    ref = C(w.np.ones(shape), mask=w.const(mr), stamp_shape=(3, 3))
    new = C(w.np.ones(shape) * 2, mask=w.const(mn), stamp_shape=(3, 3))
    S.prescribe_zps(w, w.q(1), w.q(2))
    kw = {"align": True, "beta": False, "shift": False,
          "fitted_psf": base != "SingleImage"}
    D, Ps, Sc, M = w.run("subtract returns",
                         lambda: op.subtract(ref, new, **kw))
    ev = w.evs("align")
    w.check("images are registered once", len(ev) == 1)
    src = w.np.ma.getmaskarray(new.data)
    want = np.zeros(shape, object)
    want[...] = False
    for i in np.ndindex(*shape):
        j = (i[0] + sh[0], i[1] + sh[1])
        inside = 0 <= j[0] < shape[0] and 0 <= j[1] < shape[1]
        want[i] = src[j] if inside else True
    covers(w, "bad and missing pixels stay masked after alignment", M, want,
           shape)


def scn_coadd(w):
    shape = tuple(w.cfg["shape"])
    op = w.mod("operations")
    pre(w)
    n = w.cfg["n"]
    ims, given = [], []
    for k in range(n):
        cat = K.catalog(w, f"c{k}", [10, 30], [12, 40], [1, 10])
        spec = {"interped": w.np.ones(shape) * (k + 1) + K.frac(
            w, [[i * 7 % 5 for i in range(shape[1])]] * shape[0]),
            "sources": cat, "psf": [S.psf_const(w, "rat", "x")],
            "normal": w.np.ones(shape)}
        if n > 3:       # one bad pixel each, to reach long chunks
            m = w.np.zeros(shape, dtype=bool)
            m[k % shape[0], k // shape[0] % shape[1]] = w.bool(
                f"m{k}") if k in (1, n // 2, n - 2) else True
        else:
            m = w.mask(f"m{k}", shape)
        given.append(m)
        ims.append(K.make_image(w, spec, w.np.zeros(shape), mask=m))
    procs = w.choice("procs", w.cfg["procs"])
    R, P, M = w.run("coadd returns", lambda: op.coadd(
        list(ims), align=False, n_procs=procs))
    for m, im in zip(given, ims):
        covers(w, "mask passed in is kept in the coadd", M, m, shape)
        covers(w, "image mask is kept in the coadd", M,
               w.np.ma.getmaskarray(im.data), shape)


def scn_coadd_align(w):
    shape = tuple(w.cfg["shape"])
    op, si = w.mod("operations"), w.mod("single_image")
    pre(w)
    sh = (w.choice("dy", (0, 1, -1)), w.choice("dx", (0, 1, -1)))
    w.env["align_shift"] = sh
    bad = w.choice("bad", w.cfg["bad"])
    C = K.image_class(w)
    C.spec = {"interped": w.np.ones(shape) + K.frac(
        w, [[i * 7 % 5 for i in range(shape[1])]] * shape[0]),
        "sources": K.catalog(w, "c", [10, 30], [12, 40], [1, 10]),
        "psf": [S.psf_const(w, "rat", "x")], "normal": w.np.ones(shape)}
    setattr(si, "SingleImage", C)
    kw0 = dict(stamp_shape=(3, 3))
    m0 = np.zeros(shape, bool)
    m1 = m0.copy()
    m1[bad] = True
    a = C(w.np.ones(shape), mask=w.const(m0), **kw0)
    b = C(w.np.ones(shape) * 2, mask=w.const(m1), **kw0)
    src = w.np.ma.getmaskarray(b.data)
    R, P, M = w.run("coadd returns", lambda: op.coadd(
        [a, b], align=True, n_procs=w.cfg["procs"]))
    want = np.zeros(shape, object)
    for i in np.ndindex(*shape):
        j = (i[0] + sh[0], i[1] + sh[1])
        inside = 0 <= j[0] < shape[0] and 0 <= j[1] < shape[1]
        want[i] = src[j] if inside else True
    covers(w, "bad and missing pixels stay masked in the coadd", M, want,
           shape)


def jobs(tier):
    J = [Job(f"subtract_{b}", scn_sub, dict(shape=(2, 3), beta=b),
             max_paths=40) for b in (True, False)]
    sh = (4, 4)
    bad = [(1, 2), (2, 1), (0, 2)] if tier == "quick" else \
        [(i, j) for i in range(4) for j in range(4)]
    for base in ("SingleImage", "SingleImageGaussPSF"):
        J.append(Job(f"align_{base}", scn_align, dict(
            shape=sh, bad=bad, base=base), max_paths=300))
    for n in (1, 2, 3):
        J.append(Job(f"coadd_{n}", scn_coadd, dict(
            shape=(2, 3) if n < 3 else (2, 2), n=n, procs=(1, 2, 3)),
            max_paths=60))
    for n, p in ((7, (1, 2, 3)), (9, (4, 9))):
        J.append(Job(f"coadd_{n}", scn_coadd, dict(
            shape=(2, 5), n=n, procs=p), max_paths=60))
    for p in (1, 2):
        J.append(Job(f"coadd_align_{p}", scn_coadd_align, dict(
            shape=sh, bad=bad[:3], procs=p), max_paths=100))
    return J
