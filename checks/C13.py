"""What an image reports depends on its settings, not on earlier calls."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C10

BOUNDS = ("every sequence of three (thorough: four) operations out of seven "
          "on an image of 3 stars, then all products compared with those of "
          "a fresh image with the same settings; symbolic pixels and zero "
          "points")
OUTSIDE = ("settings changed by assigning private attributes; longer "
           "histories")

LOSS = (F(1, 4), F(1, 20), F(3, 5))


def make(w):
    n = 3
    st, vec, pos = C10.stars(w, n)
    im = C10.image(w, w.const([F(1, 10), F(2, 10), F(7, 10)]), vec, st, pos,
                   shape=(2, 4))
    return im


def klass(w):
    si = w.mod("single_image")
    I = w.arr("img", (2, 4), -8, 8)
    si.SingleImage.interped = property(lambda self: I)


def ops(w, im, state):
    def loss(v):
        def f():
            im.get_variable_psf(inf_loss=w.q(v))
            state["loss"] = v
        return f

    def zp(k):
        def f():
            z = w.q(k)
            im.zp = z
            state["zp"] = z
        return f
    return {
        "loss0": loss(LOSS[0]), "loss1": loss(LOSS[1]),
        "loss2": loss(LOSS[2]), "zp1": zp(F(3, 2)), "zp2": zp(F(4, 5)),
        "s": lambda: im.s_component, "n": lambda: im.normal_image,
        "psf": lambda: im.get_variable_psf(),
        "xy": lambda: im.get_psf_xy(1, 1), "p": lambda: im.p_sqnorm(),
        "hat": lambda: im.s_hat_comp,
    }


def report(w, im):
    af, ps = im.get_variable_psf()
    x, y = im.get_afield_domain()
    out = {"number of components": len(ps), "fields": [
        a(x, y) for a in af if a is not None]}
    out["basis"] = list(ps)
    out["normalisation"] = im.normal_image
    out["S component"] = im.s_component
    out["S component in Fourier space"] = im.s_hat_comp
    out["squared PSF norm"] = im.psf_hat_sqnorm()
    out["PSF at a position"] = im.get_psf_xy(0, 1)
    return out


def same(w, a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, list):
            w.check(f"{k} after any history", len(x) == len(y))
            for p, q in zip(x, y):
                w.check_eq(f"{k} after any history", p, q)
        elif isinstance(x, int):
            w.check(f"{k} after any history", x == y)
        else:
            w.check_eq(f"{k} after any history", x, y)


def field(w, fit, x, y):
    return w.q(F(fit % 3 + 2 + int(x) + 2 * int(y), 4))


def scn(w):
    klass(w)
    w.env["poly_field"] = field
    im = make(w)
    state = {"loss": None, "zp": None}
    O = ops(w, im, state)
    seq = [w.cfg["first"]] + [w.choice(f"op{i}", w.cfg["ops"])
                              for i in range(w.cfg["len"] - 1)]
    for o in seq:
        w.run("the operation works", O[o])
    got = w.run("the products are available", lambda: report(w, im))
    fresh = make(w)
    if state["loss"] is not None:
        fresh.get_variable_psf(inf_loss=w.q(state["loss"]))
    if state["zp"] is not None:
        fresh.zp = state["zp"]
    same(w, got, report(w, fresh))


def scn_shape(w):
    """A stamp size asked for too late changes nothing."""
    klass(w)
    im = make(w)
    a = w.run("the PSF is measured", lambda: im.get_variable_psf())
    b = w.run("the PSF is measured again",
              lambda: im.get_variable_psf(shape=(5, 5)))
    w.check("components", len(a[1]) == len(b[1]))
    for p, q in zip(a[1], b[1]):
        w.check_eq("the basis stays", p, q)


def scn_real_stamps(w):
    """Stamps measured once: the same positions and sizes ever after."""
    from checks import C19
    srcs = [(5, 6, 9), (9, 3, 8), (F(29, 4), F(11, 2), 7)]
    I = C19.field(w, (12, 13), srcs)
    im = C19.make(w, I, srcs)
    n = w.cfg["seq"]
    p1 = w.run("stamps", lambda: im.stamps_pos)
    s1 = tuple(im.stamp_shape)
    db1 = [im.db.load(i)[0] * 1 for i in range(im.n_sources)]
    for o in n:
        if o == "shape":
            im._shape = None
            w.run("PSF", lambda: im.get_variable_psf(shape=(5, 5)))
        elif o == "cov":
            w.run("covariance", lambda: im.cov_matrix)
        elif o == "n":
            im.n_sources
        elif o == "pos":
            im.stamps_pos
    w.check_eq("positions stay", im.stamps_pos, p1)
    w.check("stamp size stays", tuple(im.stamp_shape) == s1)
    for i, d in enumerate(db1):
        w.check_eq("stamps stay", im.db.load(i)[0], d)


def jobs(tier):
    J = []
    names = ["loss0", "loss1", "loss2", "zp1", "zp2", "s", "n", "xy", "hat"]
    if tier == "quick":
        names = ["loss0", "loss2", "zp1", "zp2", "s", "n", "xy"]
    for f in names:
        J.append(Job(f"history_{f}", scn, dict(
            first=f, ops=names, len=3 if tier == "quick" else 4),
            max_paths=60 if tier == "quick" else 1000, witness=3,
            budget=60 if tier == "quick" else 500))
    J.append(Job("shape", scn_shape, {}))
    for i, s in enumerate((("cov", "n", "pos"), ("pos", "cov", "pos"))):
        J.append(Job(f"stamps_{i}", scn_real_stamps, dict(seq=s), witness=2))
    return J
