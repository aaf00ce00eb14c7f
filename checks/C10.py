"""How many Karhunen-Loeve components the PSF keeps."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("2-5 stars with symbolic eigenvalues (any non-negative spectrum), "
          "symbolic information loss in [0, 1], asked for in one or two "
          "successive calls, in the branches below and above 250 stars; by "
          "subtract and coadd (one and two workers) with a symbolic or the "
          "default loss, on fresh and on measured images")
OUTSIDE = "the eigen-decomposition itself (LAPACK); rounding of the powers"


class Store:
    def __init__(self, stamps):
        self.stamps = stamps

    def load(self, i):
        return [self.stamps[i]]


def image(w, vals, vecs, stamps, pos, shape=(5, 6), **kw):
    """An image whose stamps and their eigen-decomposition are given."""
    si = w.mod("single_image")

    class Img(si.SingleImage):
        n_sources = property(lambda self: len(stamps))
        stamps_pos = property(lambda self: pos)
        eigenv = property(lambda self: (vals, vecs))
    w.env["rms"] = lambda w, i: w.q(1)
    im = Img(w.np.ones(shape), stamp_shape=tuple(stamps[0].shape), **kw)
    im.db = Store(stamps)
    im.update_sources(K.catalog(
        w, "s", [p[1] for p in pos], [p[0] for p in pos],
        [1] * len(stamps)))
    if len(stamps) <= 250:
        im.cov_matrix
    return im


def spectrum(w, n):
    """Ascending non-negative eigenvalues of unit sum."""
    if w.cfg.get("exact"):
        vs = [w.q(F(v, 16)) for v in w.choice("spectrum", (
            (1, 3, 12), (4, 4, 8), (0, 8, 8), (0, 0, 16), (2, 6, 8)))][:-1]
    else:
        vs = [w.real(f"ev{i}", 0, 1) for i in range(n - 1)]
    last = w.q(1)
    for v in vs:
        last = last - v
    vs.append(last)
    for a, b in zip(vs, vs[1:]):
        w.assume(a <= b)
    vs = [w.q(0)] * (w.cfg.get("pad", 0)) + vs
    sc = w.q(w.cfg.get("scale", 1))
    return vs, [v * sc for v in vs]


def stars(w, n):
    st = [w.const([[F(5 + (3 * i + 2 * y + x) % 4, 32) for x in range(2)]
                   for y in range(2)]) for i in range(n)]
    vec = w.const([[F((3 * i * j + i + 2 * j) % 5 + 1, 4) for j in range(n)]
                   for i in range(n)])
    pos = w.const([[F(i + 1), F((2 * i) % 5)] for i in range(n)])
    return st, vec, pos


def check_k(w, k, vs, loss):
    n = len(vs)
    eps = 0 if w.sym or w.cfg.get("exact") else 1e-9
    w.check("at least one component and at most one per star", 1 <= k <= n)
    lost = w.q(0)
    for v in vs[: n - k]:
        lost = lost + v
    w.check("the discarded information is within the loss allowed",
            lost <= loss + eps)
    if k > 1:
        w.check("one component less would lose too much",
                lost + vs[n - k] > loss - eps)


def scn(w):
    n = w.cfg["n"]
    vs, vals = spectrum(w, n)
    st, vec, pos = stars(w, n + w.cfg.get("pad", 0))
    im = image(w, w.np.array(vals), vec, st, pos)
    for step, how in enumerate(w.cfg["calls"]):
        loss = None
        if how == "default":
            loss = im.inf_loss
            af, ps = w.run("the PSF is measured",
                           lambda: im.get_variable_psf())
        else:
            loss = w.q(0) if how == "zero" else \
                w.q(F(w.choice("at", (0, 1, 2, 4, 8, 16)), 16)) \
                if how == "at" else w.real(f"loss{step}", 0, 1)
            af, ps = w.run("the PSF is measured",
                           lambda: im.get_variable_psf(inf_loss=loss))
        check_k(w, len(ps), vs, loss)
        w.check("one coefficient field per component", len(af) == len(ps))
        w.check("a single component has no field",
                (af[0] is None) == (len(ps) == 1))
        w.check("the basis kept is the one returned",
                len(im.kl_basis) == len(ps) and
                len(im.kl_afields) == len(af))
        w.check("the information loss is remembered", im.inf_loss == loss)


def scn_op(w):
    """Operations measure the PSFs with the loss they are given."""
    from checks import C06, C13
    n, shape = 3, (2, 4)
    op = w.mod("operations")
    w.env["rms"] = lambda w, i: w.q(1)
    w.env["poly_field"] = C13.field
    vs, vals = spectrum(w, n)
    st, vec, pos = stars(w, n)
    ims = []
    for k in range(w.cfg["images"]):
        B = K.image_class(w, "SingleImage")
        B.spec = {
            "interped": w.const([[F((3 * i + 2 * j + k) % 7) for j in
                                  range(shape[1])] for i in range(shape[0])]),
            "normal": w.np.ones(shape),
            "sources": K.catalog(w, f"c{k}", [1, 2, 3], [1, 0, 1], [3, 2, 1])}

        class Img(B):
            n_sources = property(lambda self: n)
            stamps_pos = property(lambda self: pos)
            eigenv = property(lambda self: (w.np.array(vals), vec))
        im = Img(w.np.ones(shape) * (k + 1), stamp_shape=(2, 2))
        im.db = Store(st)
        im.cov_matrix
        ims.append(im)
    C06.prescribe(w, [w.q(1)] * len(ims))
    before = w.choice("measured before", (None, 0, F(1, 2)))
    if before is not None:
        ims[-1].get_variable_psf(inf_loss=w.q(before))
    loss = w.real("loss", 0, 1) if w.cfg.get("loss", True) else None
    kw = {} if loss is None else {"inf_loss": loss}
    if w.cfg["op"] == "subtract":
        w.run("images are subtracted", lambda: op.subtract(
            ims[0], ims[1], beta=False, shift=False, fitted_psf=False, **kw))
        loss = w.q("1/4") if loss is None else loss
    else:
        w.run("images are coadded", lambda: op.coadd(
            ims, align=False, n_procs=w.cfg["procs"], **kw))
        loss = w.q(F(0.2)) if loss is None else loss
    for im in ims:
        w.check_eq("the loss given to the operation is the images'",
                   w.q(0) + im.inf_loss, w.q(0) + loss)
        check_k(w, len(im.kl_basis), vs, loss)
        w.check("as many fields as components",
                len(im.kl_afields) == len(im.kl_basis))


def jobs(tier):
    J = []
    for name, op, n, procs in (("sub", "subtract", 2, 0),
                               ("co1", "coadd", 2, 1),
                               ("co2", "coadd", 3, 2)):
        J.append(Job(f"op_{name}", scn_op, dict(op=op, images=n,
                                                procs=procs)))
        J.append(Job(f"op_{name}_default", scn_op, dict(
            op=op, images=n, procs=procs, loss=False)))
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for calls in (("default",), ("loss",), ("loss", "loss"), ("zero",),
                      ("loss", "zero", "loss")):
            if len(calls) > 1 and n > 3 and tier == "quick":
                continue
            J.append(Job(f"keep_{n}_{'_'.join(calls)}", scn, dict(
                n=n, calls=calls, scale=F(7, 2) if n == 3 else 1)))
    J.append(Job("exact", scn, dict(n=3, calls=("at",), exact=1)))
    for calls in (("loss",), ("zero",), ("loss", "loss")):
        J.append(Job(f"many_{'_'.join(calls)}", scn, dict(
            n=3, calls=calls, pad=249)))
    return J
