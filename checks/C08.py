"""Relative zero points: consistent photometry is recovered exactly."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("2-4 images, 1-3 common sources plus unmatched extras in every "
          "image, magnitudes and zero points symbolic reals, catalogue order "
          "of every image free, positions up to 1.8 pixels off (and from 2.2 "
          "pixels taken for others), one or two successive calls in different "
          "image order, with or without a separate master")
OUTSIDE = "least-squares behaviour on inconsistent photometry"


def im_class(w):
    class Im:
        """The part of an image that transparency uses."""

        def __init__(self, cat):
            self.cat = cat

        @property
        def best_sources(self):
            return self.cat

        def update_sources(self, new_sources=None):
            self.cat = new_sources
    return Im


POS = [(10, 10), (40, 12), (25, 33)]


def build(w, n, q, orders, extra, t, m):
    Im = im_class(w)
    ims = []
    for i in range(n):
        rows = []
        for j in range(q):
            x, y = POS[j]
            rows.append((F(x) + F(i, 4) + i * w.cfg.get("off", 0),
                         F(y) - F(i, 8),
                         w.pow10(-(m[j] + t[i]) * F(2, 5) if w.sym else
                                 -(m[j] + t[i]) * 0.4)))
        for e in range(extra[i]):
            rows.append((F(60 + 20 * i + 5 * e), F(80), w.q(7 + e)))
        o = orders[i]
        k = [(r + o) % len(rows) for r in range(len(rows))]
        if w.cfg.get("rev") and i % 2:
            k = k[::-1]
        rows = [rows[r] for r in k]
        cat = w.catalog({
            "x": w.const([r[0] for r in rows]),
            "y": w.const([r[1] for r in rows]),
            "flux": w.np.array([r[2] for r in rows]),
            "npix": w.np.array([9] * len(rows)),
            "flag": w.np.array([0] * len(rows))})
        ims.append(Im(cat))
    return ims


def content(ims):
    return [[{c: r[c] for c in ("x", "y", "flux")} for r in i.cat]
            for i in ims]


def kept(w, ims, was):
    """The catalogues keep their sources, whatever their order."""
    for im, old in zip(ims, was):
        new = content([im])[0]
        w.check("no catalogue loses or gains sources", len(new) == len(old))
        for o in old:
            n = [r for r in new if float(w.conc(r["x"])) ==
                 float(w.conc(o["x"])) and float(w.conc(r["y"])) ==
                 float(w.conc(o["y"]))]
            w.check("every source keeps its place", len(n) == 1)
            if len(n) == 1:
                w.check("every source keeps its flux",
                        n[0]["flux"] == o["flux"])


def check_zps(w, zps, mags, t, q):
    n = len(t)
    w.check("one zero point per image", tuple(zps.shape) == (n,))
    if tuple(zps.shape) != (n,):
        return
    w.check_eq("zero-point differences are recovered",
               w.np.array([zps[i] - zps[0] for i in range(n)]),
               w.np.array([t[i] - t[0] + 0 for i in range(n)]))
    w.check("one mean magnitude per common source",
            tuple(mags.shape) == (q,))


def scn(w):
    u = w.mod("utils")
    n, q = w.cfg["n"], w.cfg["q"]
    t = [w.real(f"t{i}", -2, 2) for i in range(n)]
    m = [w.real(f"m{j}", -2, 2) for j in range(q)]
    extra = w.cfg["extra"]
    orders = [w.choice(f"order{i}", list(range(q + extra[i])))
              for i in range(n)]
    ims = build(w, n, q, orders, extra, t, m)
    was = content(ims)
    if w.cfg.get("master"):
        zps, mags = w.run("transparency returns", lambda: u.transparency(
            ims[1:], master=ims[0]))
    else:
        zps, mags = w.run("transparency returns",
                          lambda: u.transparency(ims))
    check_zps(w, zps, mags, t, q)
    kept(w, ims, was)
    # the weights of the mean magnitudes follow the master's order
    cat0 = [r for r in range(q + extra[0])]
    k = [(r + orders[0]) % (q + extra[0]) for r in cat0]
    common = [r for r in k if r < q]
    w.check_eq("magnitude plus zero point reproduces every source",
               w.np.array([mags[a] + zps[i] for a in range(q)
                           for i in range(n)]),
               w.np.array([m[j] + t[i] + 20 for j in common
                           for i in range(n)]))
    if w.cfg.get("again"):
        p = w.cfg["again"]
        ims2 = [ims[i] for i in p]
        zps, mags = w.run("transparency returns again",
                          lambda: u.transparency(ims2))
        check_zps(w, zps, mags, [t[i] for i in p], q)
        kept(w, ims, was)


def scn_none(w):
    """Nothing in common: unit zero points."""
    u = w.mod("utils")
    n = w.cfg["n"]
    t = [w.real(f"t{i}", -2, 2) for i in range(n)]
    ims = build(w, n, 0, [0] * n, [2] * n, t, [])
    was = content(ims)
    zps, mags = w.run("transparency returns", lambda: u.transparency(ims))
    kept(w, ims, was)
    w.check_eq("unmatched images get unit zero points", zps,
               w.np.ones(n))


def scn_far(w):
    """Sources more than two pixels away are others."""
    u = w.mod("utils")
    t = [w.real(f"t{i}", -2, 2) for i in range(2)]
    m = [w.real(f"m{j}", -2, 2) for j in range(2)]
    ims = build(w, 2, 2, [0, 0], [0, 0], t, m)
    was = content(ims)
    zps, mags = w.run("transparency returns", lambda: u.transparency(ims))
    kept(w, ims, was)
    w.check_eq("unmatched images get unit zero points", zps, w.np.ones(2))


def scn_subset(w):
    """Sources missing from one image take no part."""
    u = w.mod("utils")
    n, q = w.cfg["n"], w.cfg["q"]
    t = [w.real(f"t{i}", -2, 2) for i in range(n)]
    m = [w.real(f"m{j}", -2, 2) for j in range(q)]
    miss_i = w.choice("missing_image", list(range(1, n)))
    miss_j = w.choice("missing_source", list(range(q)))
    ims = build(w, n, q, [0] * n, [1] * n, t, m)
    cat = ims[miss_i].cat
    keep = [r for r in range(q + 1) if r != miss_j]
    ims[miss_i].cat = cat[w.np.array(keep)]
    was = content(ims)
    zps, mags = w.run("transparency returns", lambda: u.transparency(ims))
    kept(w, ims, was)
    check_zps(w, zps, mags, t, q - 1)


def jobs(tier):
    J = []
    T = tier != "quick"
    for n in (2, 3) if not T else (2, 3, 4):
        for q in (1, 2, 3):
            ex = [0, 1, 0, 1][:n]
            if q == 3 and n == 3 and not T:
                ex = [0, 0, 0]
            J.append(Job(f"zp_{n}_{q}", scn, dict(n=n, q=q, extra=ex),
                         max_paths=60 if not T else 600))
    J.append(Job("zp_extra_first", scn, dict(
        n=2, q=2, extra=[2, 1], rev=True), max_paths=60))
    J.append(Job("zp_again", scn, dict(
        n=3, q=2, extra=[0, 1, 0], again=[1, 0, 2]), max_paths=60))
    J.append(Job("zp_again2", scn, dict(
        n=2, q=2, extra=[1, 1], again=[1, 0]), max_paths=60))
    J.append(Job("zp_again3", scn, dict(
        n=3, q=2, extra=[1, 0, 1], again=[2, 1]), max_paths=60))
    J.append(Job("zp_master", scn, dict(
        n=3, q=2, extra=[1, 0, 1], master=True), max_paths=60))
    J.append(Job("zp_master2", scn, dict(
        n=2, q=2, extra=[1, 0], master=True), max_paths=60))
    for off in (F(3, 2), F(-2)):
        J.append(Job(f"zp_off_{float(off):g}", scn, dict(
            n=2, q=2, extra=[1, 1], off=off), max_paths=60))
    for off in (F(2), F(-5, 2)):
        J.append(Job(f"far_{float(off):g}", scn_far, dict(off=off)))
    for n in (2, 3):
        J.append(Job(f"none_{n}", scn_none, dict(n=n)))
        J.append(Job(f"subset_{n}", scn_subset, dict(n=n, q=3),
                     max_paths=60))
    return J
