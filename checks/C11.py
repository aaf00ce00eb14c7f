"""Karhunen-Loeve basis and coefficient fields fit together."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C10

BOUNDS = ("3-4 stars with symbolic stamps of 2x2 pixels, prescribed spectrum "
          "and eigenvectors, 1-4 components kept by choice; covariance of "
          "2-3 stars; 251 stars for the other branch")
OUTSIDE = ("the eigen-decomposition and the least-squares fit (third-party); "
           "other stamp sizes")


def stamps(w, n):
    return [w.arr(f"star{i}", (2, 2), F(1, 8), 1) for i in range(n)]


def scn_cov(w):
    n = w.cfg["n"]
    st = stamps(w, n)
    vec = C10.stars(w, n)[1]
    pos = C10.stars(w, n)[2]
    im = C10.image(w, w.const([1] * n), vec, st, pos)
    C = w.run("covariance is computed", lambda: im.cov_matrix)
    w.check("one row per star", tuple(C.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            a, b = st[i].ravel(), st[j].ravel()
            ma, mb = a.sum() / 4, b.sum() / 4
            s = ((a - ma) * (b - mb)).sum() / 3
            w.check_eq("covariance of the stamps", C[i, j], s)


def blur(w, a, sigma):
    """Some linear smoothing."""
    s = w.q(F(float(sigma)))
    out = a * 1
    for i, j in np.ndindex(*a.shape):
        out[i, j] = a[i, j] / s + a[i, 1 - j] / 8 + a[1 - i, j] / 16
    return out


def scn_basis(w):
    n = w.cfg["n"]
    k = w.choice("kept", tuple(range(1, n + 1)))
    st = stamps(w, n)
    _, vec, pos = C10.stars(w, n)
    tot = n * (n + 1) // 2
    vals = [F(i + 1, tot) for i in range(n)]
    loss = sum(vals[: n - k], F(0)) + F(1, 100)
    w.env["skgauss"] = blur
    im = C10.image(w, w.const(vals), vec, st, pos,
                   smooth_psf=w.cfg.get("smooth", False))
    if w.cfg.get("first"):
        im.get_variable_psf(inf_loss=w.q(w.cfg["first"]))
    af, ps = w.run("the PSF is measured",
                   lambda: im.get_variable_psf(inf_loss=w.q(loss)))
    w.check("components kept", len(ps) == k)
    E = []
    for i in range(k):
        e = st[0] * 0
        for j in range(n):
            e = e + st[j] * vec[j, n - 1 - i]
        E.append(e)
    if w.cfg.get("smooth"):
        for i in range(k):
            g = blur(w, E[i], 1.5)
            t = g.sum()
            w.check_eq("a smoothed element sums to one", ps[i].sum(),
                       w.q(1))
            w.check_eq("each element smoothed", ps[i], g / t)
    elif k == 1:
        t = E[0].sum()
        w.check("a single PSF sums to one", near(w, ps[0].sum() - 1))
        for a in np.ndindex(2, 2):
            w.check("a single PSF is the leading component",
                    near(w, ps[0][a] * t - E[0][a]))
    if k == 1:
        w.check("no field for a single PSF", af[0] is None)
        return
    for i in range(k if not w.cfg.get("smooth") else 0):
        w.check_eq("basis element: stamps weighted by its eigenvector",
                   ps[i], E[i])
    ev = w.evs("fit")
    for i in range(k):
        f = [e for e in ev if e["id"] == getattr(af[i], "fit", None)]
        w.check("coefficient field is a fit", len(f) > 0)
        if f:
            w.check_eq("field values: the same eigenvector", f[-1]["z"],
                       vec[:, n - 1 - i])
            w.check_eq("field rows: the stars' rows", f[-1]["x"], pos[:, 0])
            w.check_eq("field columns: the stars' columns", f[-1]["y"],
                       pos[:, 1])


def near(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-4


def scn_many(w):
    """Above 250 stars: each element is a unit-sum shifted combination."""
    n = 251
    k = w.choice("kept", (1, 2))
    st, vec, pos = C10.stars(w, n)
    st[3][0, 1] = w.real("pixel", F(1, 4), 1)
    vals = [F(0)] * (n - 2) + [F(1, 3), F(2, 3)]
    loss = F(1, 2) if k == 1 else F(1, 4)
    im = C10.image(w, w.const(vals), vec, st, pos)
    af, ps = w.run("the PSF is measured",
                   lambda: im.get_variable_psf(inf_loss=w.q(loss)))
    w.check("components kept", len(ps) == k)
    for i in range(k):
        e = st[0] * 0
        for j in range(n):
            e = e + st[j] * vec[j, n - 1 - i]
        w.check("basis element sums to one", near(w, ps[i].sum() - 1))
        s, c = list(ps[i].ravel()), list(e.ravel())
        for a in range(2, 4):
            w.check("basis element keeps the contrast of its combination",
                    near(w, ((s[a] - s[0]) * (c[1] - c[0]) -
                             (s[1] - s[0]) * (c[a] - c[0])) /
                         (w.q(1) if w.sym else float(
                             abs(w.np.sum(e)) + 1))))


def jobs(tier):
    J = []
    for n in (2, 3):
        J.append(Job(f"cov_{n}", scn_cov, dict(n=n)))
    for n in (2, 3, 4):
        for first in (0, F(1, 3), F(9, 10)):
            J.append(Job(f"basis_{n}_{first}", scn_basis, dict(
                n=n, first=first)))
    for n in (2, 3):
        J.append(Job(f"smooth_{n}", scn_basis, dict(n=n, smooth=True)))
    J.append(Job("many", scn_many, dict(), witness=2))
    return J
