"""coadd's R and P follow the proper-coaddition formulae."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S

BOUNDS = ("1-3 (and 8) images of (2,2), (1,4), (4,1) or (2,4) pixels; pixels of "
          "every interpolated image symbolic; zero points and noise levels "
          "symbolic (prescribed rationals for three images); constant and "
          "two-term variable PSFs; stamps of "
          "different sizes; sequential and threaded")
OUTSIDE = "larger images and between four and seven of them, more than eight"


# prime length: images differ however often each is estimated
RMS = ("3/4", "5/4", "1", "7/8", "1/2", "3/2", "9/8")


def prescribe(w, zps):
    u = w.mod("utils")

    def transparency(images, master=None):
        assert master is None and len(images) == len(zps)
        w.event("transparency", images=list(images))
        return w.np.array(list(zps)), w.np.array([20.0])
    u.transparency = transparency


def build(w, shape, kinds, conc, var=False, masks=None):
    ims = []
    for k, kind in enumerate(kinds):
        I = w.arr(f"img{k}", shape, -8, 8)
        cat = K.catalog(w, f"c{k}", [10, 30], [12, 40], [1, 10])
        psf = [S.psf_const(w, kind, f"p{k}")]
        spec = {"interped": I, "sources": cat, "psf": psf,
                "normal": w.np.ones(shape)}
        if var:
            # a second basis element and spatial coefficients
            psf.append(S.psf_const(w, "rat2" if 1 not in shape else "half",
                                   "b"))
            c = [w.const([[F(1 + (i * 3 + j + e + k) % 4, 2) for j in
                           range(shape[1])] for i in range(shape[0])])
                 for e in range(2)]
            spec["afields"] = [lambda x, y, c=c, e=e: c[e] for e in range(2)]
            spec["normal"] = w.const([[F(1 + (i + j) % 2) for j in range(
                shape[1])] for i in range(shape[0])])
        # the content tells the images, and so their noise levels, apart
        d = w.np.ones(shape) * (k + 1)
        kw = {}
        if masks:
            kw["mask"] = masks[k]
        if w.cfg.get("stamps"):
            n = w.cfg["stamps"][k]
            kw["stamp_shape"] = (n, n)
        im = K.make_image(w, spec, d, **kw)
        ims.append((im, spec))
    return ims


def s_hat(w, shape, im, spec, zp, var):
    psf = spec["psf"]
    dy, dx = K.com(w, psf[0])
    ph = K.shift_phase(w, shape, dy, dx)
    af = spec.get("afields")
    I = spec["interped"]
    t = 0
    if af is None:
        t = K.fft2(w, I) * w.np.conj(K.fft2(w, psf[0], shape))
    else:
        for p, a in zip(psf, af):
            t = t + K.fft2(w, I * a(None, None) / spec["normal"]) * \
                w.np.conj(K.fft2(w, p, shape))
    return t * ph * (zp / var ** 2)


def expected(w, shape, ims, zps, stamp=(3, 3)):
    Sh, Ph = 0, 0
    for (im, spec), z in zip(ims, zps):
        v = im.var
        Sh = Sh + s_hat(w, shape, im, spec, z, v)
        for p in spec["psf"]:
            Ph = Ph + (z / v) ** 2 * w.np.abs(K.fft2(w, p, shape)) ** 2
    root = w.np.sqrt(Ph)
    n = w.np.sqrt(w.q(shape[0] * shape[1]))
    R = K.ifft2(w, Sh / root) / n      # the backward transform's 1/N
    Q = K.ifft2(w, root * K.shift_phase(w, shape, *stamp))
    return R, Q / Q.sum()


def scn(w):
    shape = tuple(w.cfg["shape"])
    kinds = w.cfg["kinds"]
    op = w.mod("operations")
    n = len(kinds)
    if w.cfg["conc"]:
        zps = [w.q(F(2 + k, 2)) for k in range(n)]
        w.env["rms"] = lambda w, i: w.q(RMS[i % 7])
    else:
        zps = [w.real(f"zp{k}", F(1, 2), 4) for k in range(n)]
    ims = build(w, shape, kinds, w.cfg["conc"], w.cfg.get("var"))
    prescribe(w, zps)
    R, P, M = w.run("coadd returns", lambda: op.coadd(
        [i for i, _ in ims], align=False, inf_loss=0.2,
        n_procs=w.cfg["procs"]))
    st = max(w.cfg.get("stamps", (3,)))
    ER, EP = expected(w, shape, ims, zps, (st, st))
    w.check_eq("R equals the formula", R, ER)
    w.check_eq("P equals the formula", P, EP)
    w.check_eq("P has unit sum", P.sum(), w.q(1) + 0 * EP.sum())
    for (im, _), z in zip(ims, zps):
        w.check("each image carries its zero point",
                im.zp == z)


def jobs(tier):
    J = []
    for procs in (1, 2):
        for sh, kinds, conc in [
                ((2, 2), ("rat",), False), ((2, 2), ("rat", "rat2"), True),
                ((1, 4), ("rat1", "half"), True),
                ((4, 1), ("col", "col2"), True),
                ((1, 2), ("half", "half2"), False),
                ((1, 2), ("half", "half2", "half"), True),
                ((1, 4), ("lobes",), True),
                ((2, 4), ("rat", "rat2"), True)]:
            J.append(Job(f"R_{sh[0]}x{sh[1]}_{'_'.join(kinds)}_{procs}", scn,
                         dict(shape=sh, kinds=kinds, conc=conc,
                              procs=procs)))
        J.append(Job(f"R_var_{procs}", scn, dict(
            shape=(2, 2), kinds=("rat", "rat2"), conc=True, var=True,
            procs=procs)))
    for procs in (1, 2):
        for st in ((2, 3), (5, 2)):
            J.append(Job(f"R_stamps_{st[0]}_{st[1]}_{procs}", scn, dict(
                shape=(2, 4), kinds=("rat", "rat2"), conc=True, procs=procs,
                stamps=st)))
    for procs in (1, 2, 3):
        J.append(Job(f"R_many_{procs}", scn, dict(
            shape=(1, 2), kinds=("half", "half2") * 4, conc=True,
            procs=procs)))
    if tier != "quick":
        J.append(Job("R_4x4", scn, dict(
            shape=(4, 4), kinds=("rat", "rat2", "rat"), conc=True, procs=2)))
        J.append(Job("R_var_4x4", scn, dict(
            shape=(4, 4), kinds=("rat", "rat2"), conc=True, var=True,
            procs=3)))
    return J
