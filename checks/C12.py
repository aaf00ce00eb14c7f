"""The PSF at any position sums to one and mixes the right values."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("8x9 images, 3x3, 5x3 and 3x4 PSFs with symbolic basis pixels, two "
          "to three components with prescribed coefficient fields; positions "
          "by choice over the whole image, its edges and corners, "
          "fractional ones too")
OUTSIDE = ("other sizes; PSFs whose sum vanishes at a position; beyond the "
           "edge the normalisation is only checked to be finite")


def fields(w, n):
    def mk(e):
        def f(x, y):
            # exact on integer grids of any kind
            x, y = w.np.asarray(x), w.np.asarray(y)
            return x * w.q(F(e + 1, 4)) + y * w.q(F(2 - e, 8)) + w.q(3 + e)
        return f
    return [mk(e) for e in range(n)]


def scn(w):
    shape, ps = tuple(w.cfg["shape"]), tuple(w.cfg["psf"])
    n = w.cfg["n"]
    si = w.mod("single_image")
    basis = []
    for e in range(n):
        b = w.const([[F(2 + (y * 3 + x + e) % 5 - 6 * (e > 0 and (x + y) % 2), 4)
                      for x in range(ps[1])] for y in range(ps[0])])
        b[ps[0] // 2, 1] = w.real(f"basis{e}", F(1, 2), 2)
        if e == 0:
            b[0, 0] = w.real("corner", F(1, 2), 2)
        basis.append(b)
    keep = [b.copy() for b in basis]
    N = w.const([[F(4 + (y * 2 + x) % 3, 4) for x in range(shape[1])]
                 for y in range(shape[0])])
    af = fields(w, n) if n > 1 else [None]
    im = K.make_image(w, {"interped": w.np.ones(shape), "sources": None,
                          "psf": basis, "afields": af, "normal": N},
                      w.np.ones(shape))
    x = w.choice("x", w.cfg["xs"])
    y = w.choice("y", w.cfg["ys"])
    got = w.run("the PSF is given at every position",
                lambda: im.get_psf_xy(w.q(x) if isinstance(x, F) else x,
                                      w.q(y) if isinstance(y, F) else y))
    w.check("the PSF has the basis' size", tuple(got.shape) == ps)
    if n > 1:
        # a component alone is returned as it is
        w.check("the PSF sums to one", near(w, got.sum() - 1))
        r, c = rint(x), rint(y)
        r0, c0 = r - (ps[0] - 1) // 2, c - (ps[1] - 1) // 2
        inside = r0 >= 0 and c0 >= 0 and r0 + ps[0] <= shape[0] and \
            c0 + ps[1] <= shape[1]
        if inside:
            E = np.empty(ps, object)
            t = w.q(0)
            for i, j in np.ndindex(*ps):
                v = w.q(0)
                for e in range(n):
                    v = v + keep[e][i, j] * af[e](r0 + i, c0 + j)
                E[i, j] = v / N[r0 + i, c0 + j]
                t = t + E[i, j]
            for i in np.ndindex(*ps):
                w.check("mix of the components at that place",
                        near(w, got[i] * t - E[i]))
    else:
        w.check_eq("a constant PSF is the same everywhere", got, keep[0])
    for b, k in zip(basis, keep):
        w.check_eq("the basis is not changed", b, k)


def rint(v):
    return int(np.round(float(v)))


def near(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-4


def scn_unit(w):
    """A single measured component is handed out with unit sum."""
    from checks import C10
    n = 3
    st = [w.arr(f"star{i}", (2, 2), F(1, 8), 1) for i in range(n)]
    _, vec, pos = C10.stars(w, n)
    im = C10.image(w, w.const([F(1, 20), F(1, 20), F(9, 10)]), vec, st, pos)
    got = w.run("the PSF is given at every position",
                lambda: im.get_psf_xy(w.choice("x", (0, 3)), 2))
    w.check("the PSF sums to one", near(w, got.sum() - 1))


def jobs(tier):
    J = []
    xs = (0, 1, 4, 7, F(15, 4), F(27, 4))
    ys = (0, 3, 8, F(5, 4))
    for ps in ((3, 3), (5, 3), (3, 4)) if tier == "quick" else (
            (3, 3), (5, 3), (3, 4), (5, 5), (2, 3), (7, 5)):
        for n in (2, 3, 1):
            if n == 3 and ps != (3, 3):
                continue
            J.append(Job(f"psf_{ps[0]}{ps[1]}_{n}", scn, dict(
                shape=(8, 9), psf=ps, n=n, xs=xs, ys=ys), witness=4))
    J.append(Job("unit", scn_unit, {}))
    return J
