"""Matched-filter component, normalisation image and PSF norm of an image."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S
from checks import C06

BOUNDS = ("images of (2,2), (1,4), (4,1), (2,4) and (4,4) pixels, every "
          "pixel, zero point and noise level symbolic, constant and two-term "
          "PSFs; normalisation image of 6x7 pixels away from the border")
OUTSIDE = "larger images; the border of the normalisation image"


def scn_s(w):
    shape = tuple(w.cfg["shape"])
    w.env["rms"] = lambda w, i: w.real("rms", F(1, 4), 4)
    [(im, spec)] = C06.build(w, shape, [w.cfg["psf"]], True, w.cfg["var"])
    zp = w.real("zp", F(1, 8), 8)
    im.zp = zp
    E = C06.s_hat(w, shape, im, spec, zp, im.var)
    got = w.run("the component is computed", lambda: im.s_hat_comp)
    w.check_eq("S component in Fourier space", got, E)
    w.check_eq("S component of the image", w.run(
        "the component is computed", lambda: im.s_component),
        w.np.real(K.ifft2(w, E)))
    q = w.run("the norm is computed", lambda: im.psf_hat_sqnorm())
    P = 0
    for p in spec["psf"]:
        P = P + w.np.abs(K.fft2(w, p, shape)) ** 2
    w.check_eq("squared norm of the PSF in Fourier space", q, P)
    st = (3, 3)
    if w.cfg["psf"] == "rat":
        st = (2, 6)
        im.stamp_shape = st
    w.check_eq("squared PSF, moved by half a stamp", w.run(
        "the squared PSF is computed", lambda: im.p_sqnorm()), K.ifft2(
            w, P * K.shift_phase(w, shape, F(st[0], 2), F(st[1], 2))))
    w.check_eq("transform of the interpolated image", im.interped_hat,
               K.fft2(w, spec["interped"]))
    w.check("noise level", im.var == im._bkg.globalrms)


def scn_zp(w):
    """A new zero point scales the component."""
    shape = (2, 2)
    w.env["rms"] = lambda w, i: w.q("3/2")
    [(im, spec)] = C06.build(w, shape, ["rat"], True, False)
    z = w.real("zp", F(1, 8), 8)
    a = im.s_component * 1
    im.zp = z
    w.check_eq("the component follows the zero point", im.s_component, a * z)


def scn_norm(w):
    shape, ps = (6, 7), tuple(w.cfg["ps"])
    n = w.cfg["n"]
    w.env["rms"] = lambda w, i: w.q(1)
    basis = [w.const([[F(1 + (y * 3 + 2 * x + e) % 7, 16) for x in range(
        ps[1])] for y in range(ps[0])]) for e in range(n)]
    for e in range(n):
        basis[e][0, 1] = w.real(f"b{e}", F(1, 8), 1)
    if n == 1:
        basis[0] = basis[0] / basis[0].sum()
    co = [w.const([[F(1 + (i * 3 + j + e) % 4, 2) for j in range(shape[1])]
                   for i in range(shape[0])]) for e in range(n)]
    af = [None] if n == 1 else [
        lambda x, y, e=e: pick(w, co[e], x, y) for e in range(n)]
    im = K.make_image(w, {"interped": w.np.ones(shape), "sources": None,
                          "psf": basis, "afields": af}, w.np.ones(shape))
    keep = [b.copy() for b in basis]
    N = w.run("the normalisation is computed", lambda: im.normal_image)
    w.check("size of the normalisation", tuple(N.shape) == shape)
    hy, hx = ps[0] // 2, ps[1] // 2
    for i in range(hy, shape[0] - hy):
        for j in range(hx, shape[1] - hx):
            if n == 1:
                w.check("a constant PSF needs no normalisation",
                        near(w, N[i, j] - 1))
                continue
            v = w.q(0)
            for e in range(n):
                for a, b in np.ndindex(*ps):
                    v = v + co[e][i + hy - a, j + hx - b] * keep[e][a, b]
            w.check("normalisation: the fields convolved with the basis",
                    near(w, N[i, j] - v))


def pick(w, c, x, y):
    return c


def near(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-4


def jobs(tier):
    J = []
    shapes = [(2, 2), (1, 4), (4, 1), (2, 4)]
    if tier != "quick":
        shapes.append((4, 4))
    for sh in shapes:
        for var in (0, 1):
            for p in ("rat", "half", "rat1") if sh[1] > 2 else (
                    "rat", "half"):
                J.append(Job(f"s_{sh[0]}{sh[1]}_{p}_{var}", scn_s, dict(
                    shape=sh, psf=p, var=var)))
    J.append(Job("zp", scn_zp, {}))
    for ps in ((3, 3), (3, 5), (5, 3)):
        for n in (1, 2, 3):
            J.append(Job(f"norm_{ps[0]}{ps[1]}_{n}", scn_norm, dict(
                ps=ps, n=n)))
    return J
