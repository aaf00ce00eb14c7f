"""The Gaussian PSF of an image averages one fit per measured star."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C19

BOUNDS = ("images of 1-4 measured stars, square and oblong stamps, symbolic "
          "pixels in one stamp; every fitted parameter and clipped "
          "statistic symbolic; asked for once or twice; fits of any array "
          "up to 3x4 pixels")
OUTSIDE = ("convergence of the least-squares fitter; the clipping itself; "
           "the size of the default rendering box")

SRC = [(5, 6, 9), (9, 3, 8), (F(29, 4), F(11, 2), 7), (3, 10, 8)]


def gauss(w, I, srcs, shape):
    si = w.mod("single_image")
    w.env["rms"] = lambda w, i: w.q("1/2")
    cat = K.catalog(w, "s", [w.q(F(s[1])) for s in srcs],
                    [w.q(F(s[0])) for s in srcs],
                    [w.q(s[2]) for s in srcs])

    class Img(si.SingleImageGaussPSF):
        interped = property(lambda self: I)

        def __init__(self, *a, **k):
            si.SingleImageGaussPSF.__init__(self, *a, **k)
    im = Img(w.np.ones(tuple(I.shape)), stamp_shape=shape)
    im.update_sources(cat)
    return im


def scs(w):
    return w.load().imp("astropy.stats", fromlist=(
        "sigma_clipped_stats",)).sigma_clipped_stats


def scn(w):
    srcs = SRC[: w.cfg["n"]]
    shape = tuple(w.cfg["stamp"])
    I = C19.field(w, (12, 13), srcs, w.cfg["sym"])
    im = gauss(w, I, srcs, shape)
    u = w.mod("utils")
    r = w.run("the PSF is measured", lambda: im.get_variable_psf(
        *w.cfg["args"]))
    n = len(srcs)
    stamps = [im.db.load(i)[0] for i in range(n)]
    fits = list(w.evs("fit"))
    w.check("every star is fitted once", len(fits) == n)
    # the fits of those stamps, again: same arguments, same answers
    again = [u.fit_gaussian2d(s) for s in stamps]
    w.check("the stars' own stamps are fitted",
            sorted(e["id"] for e in fits) ==
            sorted(e["id"] for e in w.evs("fit")[n:]))
    afields, (ren, mod) = r
    w.check("the field is constant", afields == [None] or
            list(afields) == [None])
    for p in ("x_stddev", "y_stddev", "theta"):
        want = scs(w)([getattr(a[0], p).value for a in again])[0]
        w.check_eq(f"{p} is the clipped mean over the stars",
                   getattr(mod, p).value, want)
    for p, v in (("x_mean", 0), ("y_mean", 0), ("amplitude", 1)):
        w.check_eq(f"{p} of the PSF", w.q(0) + getattr(mod, p).value,
                   w.q(v))
    w.check_eq("the rendered PSF is the model's", ren, mod.render())
    r2 = w.run("the PSF is measured again", lambda: im.get_variable_psf())
    w.check_eq("the PSF is the same again", r2[1][0], ren)
    w.check("star count", im.n_sources == n)
    for i in range(n):
        w.check_eq("fitting leaves the stamps alone", im.db.load(i)[0],
                   stamps[i])


def scn_fit(w):
    """fit_gaussian2d: a Gaussian on a constant, over the array's own grid."""
    u = w.mod("utils")
    shape = tuple(w.cfg["shape"])
    a = w.arr("a", shape, -8, 8)
    keep = a * 1
    out = w.run("the fit returns", lambda: u.fit_gaussian2d(a))
    ev = w.evs("fit")
    w.check("one fit", len(ev) == 1)
    yy, xx = np.mgrid[: shape[0], : shape[1]]
    w.check_eq("columns are x", w.q(0) + w.const(ev[0]["x"]), w.const(xx))
    w.check_eq("rows are y", w.q(0) + w.const(ev[0]["y"]), w.const(yy))
    w.check_eq("all pixels are fitted", ev[0]["z"], keep)
    w.check_eq("the array is left alone", a, keep)
    o2 = u.fit_gaussian2d(a, fitter=u.fitting.LevMarLSQFitter())
    for p in ("x_stddev", "y_stddev", "theta", "amplitude", "x_mean",
              "y_mean"):
        w.check_eq(f"{p} with a given fitter", getattr(o2[0], p).value,
                   getattr(out[0], p).value)


def jobs(tier):
    J = []
    for n in (1, 2, 3, 4):
        J.append(Job(f"stars_{n}", scn, dict(
            n=n, stamp=(3, 3), sym=(), args=())))
    J.append(Job("pixels", scn, dict(n=2, stamp=(3, 3), sym=((5, 5),),
                                     args=()), max_paths=60))
    J.append(Job("oblong", scn, dict(n=3, stamp=(3, 5), sym=(), args=())))
    J.append(Job("args", scn, dict(n=3, stamp=(3, 3), sym=(),
                                   args=(0.5, (5, 5)))))
    for sh in ((2, 2), (2, 3), (3, 4)):
        J.append(Job(f"fit_{sh[0]}x{sh[1]}", scn_fit, dict(shape=sh)))
    return J
