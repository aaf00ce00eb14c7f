"""Images of different size are refused, never broadcast together."""
import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S
from checks import C06

BOUNDS = ("every pair of shapes up to 3x3 (quick: 2x2 plus one larger), "
          "pixels symbolic, with and without alignment of footprints")
OUTSIDE = "larger sizes"


def mk(w, tag, shape, k):
    cat = K.catalog(w, tag, [10, 30], [12, 40], [1, 10])
    spec = {"interped": w.arr("i" + tag, shape, -8, 8), "sources": cat,
            "psf": [K.frac(w, [["1/2", "1/4"]])],
            "normal": w.np.ones(shape)}
    return K.make_image(w, spec, w.np.ones(shape))


def shapes(w):
    s = [w.int(f"n{i}", 1, w.cfg["max"]) for i in range(4)]
    s = [int(w.conc(v)) for v in s]
    return (s[0], s[1]), (s[2], s[3])


def scn_sub(w):
    op = w.mod("operations")
    a, b = shapes(w)
    w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
    w.env["opt_x"] = lambda w, i, j, n: w.q("5/3") if j == 0 else w.q(0)
    S.prescribe_zps(w, w.q("3/2"), w.q(2))
    ref, new = mk(w, "r", a, 0), mk(w, "n", b, 1)
    call = lambda: op.subtract(ref, new, align=False,  # noqa
                               beta=w.cfg["beta"], shift=False,
                               fitted_psf=False)
    if a == b:
        w.reach("equal shapes")
        D, P, Sc, M = w.run("equal shapes are subtracted", call)
        w.check("products have the images' shape",
                tuple(D.shape) == a and tuple(P.shape) == a
                and tuple(Sc.shape) == a and tuple(np.shape(M)) == a)
    else:
        w.reach("different shapes")
        w.raises("different shapes are refused", ValueError, call)


def scn_coadd(w):
    op = w.mod("operations")
    a, b = shapes(w)
    w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
    C06.prescribe(w, [w.q("3/2"), w.q(2)])
    ims = [mk(w, "r", a, 0), mk(w, "n", b, 1)]
    call = lambda: op.coadd(ims, align=False, n_procs=w.cfg["procs"])  # noqa
    if a == b:
        w.reach("equal shapes")
        R, P, M = w.run("equal shapes are coadded", call)
        w.check("products have the images' shape",
                tuple(R.shape) == a and tuple(P.shape) == a and
                tuple(np.shape(M)) == a)
    else:
        w.reach("different shapes")
        w.raises("different shapes are refused", ValueError, call)


MUST_REACH = ("equal shapes", "different shapes")


def jobs(tier):
    mx = 2 if tier == "quick" else 3
    return [Job(f"subtract_{b}", scn_sub, dict(max=mx, beta=b),
                max_paths=100) for b in (False, True)] + \
        [Job(f"coadd_{p}", scn_coadd, dict(max=mx, procs=p), max_paths=100)
         for p in (1, 2)]
