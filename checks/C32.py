"""Operations leave their inputs alone and repeat exactly."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S
from checks import C13, C20

BOUNDS = ("two images of 4x4 pixels, three stars each, really measured "
          "(stamps, covariance, fields or Gaussian fits); every sequence of "
          "one (thorough: two) operations out of eight (fitted PSF: of up to "
          "two out of three) between two equal "
          "calls of subtract or coadd")
OUTSIDE = ("randomly sub-sampled catalogues (more than 1800 stars); settings "
           "the caller changes himself in between")

PIX = ([[1, 2, 1, 3], [2, 9, 4, 1], [1, 4, 8, 2], [1, 1, 7, 3]],
       [[2, 1, 3, 1], [1, 7, 5, 2], [2, 3, 9, 1], [3, 2, 6, 2]])


def eigh(w, a):
    n = a.shape[0]
    vals = [F(i + 1, 8) for i in range(n)]
    vecs = [[F((3 * i * j + i + 2 * j) % 5 + 1, 4) for j in range(n)]
            for i in range(n)]
    return w.const(vals), w.const(vecs)


def setup(w):
    w.env["rms"] = lambda w, i: w.q("1/2")
    w.env["eigh"] = eigh
    w.env["poly_field"] = C13.field
    w.env["gauss_profile"] = S.profile
    w.env["align_shift"] = (0, 1)
    si = w.mod("single_image")
    base = w.cfg["base"]
    C = K.image_class(w, base)
    cat = K.catalog(w, "s", [1, 2, 2], [1, 2, 3], [9, 8, 7])
    C.spec = {"interped": lambda im: w.np.where(
        im.mask, w.const([[F(2 * PIX[0][i][j] + j) for j in range(4)]
                          for i in range(4)]), im.data.data),
              "sources": cat}
    setattr(si, base, C)
    # zero points: an exact function of the catalogues (C08 judges them)
    u = w.mod("utils")
    if hasattr(u, "transparency"):
        def transparency(images, master=None):
            return w.np.array([i.best_sources["flux"][0] * w.q("1/6")
                               for i in images]), w.np.array([20.0])
        u.transparency = transparency
    return C


def pair(w, C):
    out = []
    for k in (0, 1):
        d = w.const([[F(v) for v in r] for r in PIX[k]])
        if w.cfg.get("sym"):
            d = d * 1
            d[0, 3] = w.real(f"pix{k}", 1, 8)
        m = np.zeros((4, 4), bool)
        m[3, k] = True
        im = C(d, mask=w.const(m), stamp_shape=(3, 3))
        im.update_sources(K.catalog(w, "s", [1, 2, 2], [1, 2, 3],
                                    [9 + k, 8 + 2 * k, 7 + 5 * k]))
        out.append(im)
    return out


def ops(w, a, b):
    op = w.mod("operations")
    fit = w.cfg["base"] != "SingleImage"
    kw = dict(beta=False, shift=False, fitted_psf=fit)
    return {
        "sub": lambda: op.subtract(a, b, **kw),
        "swap": lambda: op.subtract(b, a, **kw),
        "subalign": lambda: op.subtract(a, b, align=True, **kw),
        "coadd": lambda: op.coadd([a, b], align=False, n_procs=1),
        "coadd2": lambda: op.coadd([b, a], align=False, n_procs=2),
        "coaddalign": lambda: op.coadd([b, a], align=True, n_procs=1),
        "loss": lambda: a.get_variable_psf(inf_loss=w.q("3/5")),
        "s": lambda: b.s_component,
    }


def snap(w, ims):
    out = []
    for im in ims:
        out.append({"pixels": im.data.data * 1, "mask": im.mask * 1,
                    "gain": w.q(0) + im.gain, "star count": im.n_sources,
                    "stamp size": tuple(int(w.conc(v)) for v in
                                        im.stamp_shape),
                    "star positions": im.stamps_pos * 1,
                    "interpolated pixels": im.interped * 1})
    return out


def unchanged(w, ims, old, files):
    w.check("the star databases of the images are kept",
            files <= C20.files(w))
    for im, o in zip(ims, old):
        for k, v in snap(w, [im])[0].items():
            if isinstance(v, (int, tuple)):
                w.check(f"{k} of the images given", v == o[k])
            else:
                w.check_eq(f"{k} of the images given", v, o[k])


def same(w, lab, A, B):
    w.check(f"{lab}: as many products", len(A) == len(B))
    for i, (x, y) in enumerate(zip(A, B)):
        w.check_eq(f"{lab}: product {i}", x * 1, y * 1)


def scn(w):
    seq = [w.choice(f"op{i}", w.cfg["ops"]) for i in range(w.cfg["len"])]
    C = setup(w)
    a, b = pair(w, C)
    old = snap(w, (a, b))
    files = C20.files(w)
    O = ops(w, a, b)
    last = w.cfg["op"]
    first = w.run("the operation works", O[last])
    first = [x * 1 for x in first]
    unchanged(w, (a, b), old, files)
    for o in seq:
        w.run("operations in between work", O[o])
        unchanged(w, (a, b), old, files)
    again = w.run("the operation works again", O[last])
    unchanged(w, (a, b), old, files)
    same(w, "repeated", first, again)
    c, d = pair(w, C)
    O = ops(w, c, d)
    for o in seq:
        O[o]()
    same(w, "on images used before", first, O[last]())


ALL = ("sub", "swap", "subalign", "coadd", "coadd2", "coaddalign", "loss",
       "s")
GAUSS = ("sub", "swap", "subalign")


def jobs(tier):
    J = []
    n = 1 if tier == "quick" else 2
    for o in ("sub", "subalign", "coadd", "coaddalign"):
        J.append(Job(f"{o}", scn, dict(
            base="SingleImage", op=o, ops=ALL, len=n), max_paths=600,
            witness=4, budget=90 if n == 1 else 700))
    for o in ("sub", "subalign"):
        J.append(Job(f"fitted_{o}", scn, dict(
            base="SingleImageGaussPSF", op=o, ops=GAUSS, len=n + (
                o == "sub")), max_paths=600, witness=4,
            budget=90 if n == 1 else 700))
    return J
