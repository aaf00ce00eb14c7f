"""Detections of find_S_local_maxima: the connected groups above threshold."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("images of 3x4 to 5x4 pixels with up to five symbolic pixels among "
          "prescribed ones (so that groups merge, split, touch by corners or "
          "reach the border), symbolic mean and threshold, spread by choice")
OUTSIDE = ("the clipped statistics themselves (astropy); groups holding "
           "negative pixels, whose centre of mass is not inside them")


def near(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-5


def groups(flag):
    """Groups of pixels connected through their sides."""
    left = {tuple(i) for i in np.argwhere(flag)}
    out = []
    while left:
        todo, grp = [left.pop()], []
        while todo:
            y, x = todo.pop()
            grp.append((y, x))
            for q in ((y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)):
                if q in left:
                    left.remove(q)
                    todo.append(q)
        out.append(grp)
    return out


def scn(w):
    u = w.mod("utils")
    base = w.cfg["img"]
    shape = (len(base), len(base[0]))
    S = w.np.zeros(shape)
    n = 0
    for i in np.ndindex(*shape):
        v = base[i[0]][i[1]]
        if v == "s":
            S[i] = w.real(f"s{n}", 0, 40)
            n += 1
        else:
            S[i] = w.q(v)
    mean = w.real("mean", *w.cfg.get("mean", (F(-1), F(1))))
    std = w.q(w.choice("std", w.cfg.get("std", (F(1), F(1, 2), F(3)))))
    other = w.real("median", -8, 8)
    w.env["scs"] = lambda w, i, d: (mean, other, std)
    S0 = S * 1
    if w.cfg.get("thr"):
        thr = w.real("thr", F(1, 2), 6)
        args = dict(threshold=thr)
    else:
        thr, args = w.q(F(5, 2)), {}
    got = w.run("the search ends", lambda: u.find_S_local_maxima(S, **args))
    got = list(got)
    flag = np.zeros(shape, bool)
    for i in np.ndindex(*shape):
        flag[i] = bool(w.conc((S0[i] - mean) > thr * std))
    G = groups(flag)
    w.check("one detection per group above the threshold",
            len(got) == len(G))
    w.check("three numbers per detection", all(len(t) == 3 for t in got))
    for g in G:
        t = sum((S0[p] for p in g), w.q(0))
        y = sum((S0[p] * p[0] for p in g), w.q(0)) / t
        x = sum((S0[p] * p[1] for p in g), w.q(0)) / t
        iy, ix = int(w.conc(floor(w, y))), int(w.conc(floor(w, x)))
        sig = (S0[iy, ix] - mean) / std
        w.check("each group is listed at (column, row) of its centre with "
                "the significance there", w.any([w.all([
                    near(w, a - x), near(w, b - y), near(w, c - sig)])
                    for a, b, c in got]))
    if any(len(g) > 1 for g in G):
        w.reach("a group of several pixels")
    w.check_eq("the image is not changed", S, S0)


def floor(w, v):
    f = w.np.floor(v + w.q(0))
    if not w.sym and abs(v - round(float(v))) < 1e-9:
        return round(float(v))
    return f


def scn_none(w):
    """Nothing above the threshold: an empty list."""
    u = w.mod("utils")
    S = w.arr("S", (3, 3), -8, 8)
    w.env["scs"] = lambda w, i, d: (w.q(0), w.q(0), w.q(1))
    thr = w.real("thr", 8, 20)
    got = w.run("the search ends",
                lambda: u.find_S_local_maxima(S, threshold=thr))
    w.check("no detections", len(list(got)) == 0)


Z = "0"
IMGS = {
    "row": [["s", "s", "s", "s"], [Z, Z, Z, Z], [Z, "9", "9", Z]],
    "corner": [["s", Z, "s"], [Z, "7", Z], ["s", Z, "s"]],
    "bridge": [["9", Z, "9", Z], ["s", "s", "s", Z], [Z, Z, Z, "8"]],
    "ring": [["9", "s", "9"], ["s", Z, "s"], ["9", "9", "9"]],
    "two": [["6", Z, Z, "s"], [Z, Z, Z, "s"], [Z, Z, Z, Z],
            ["s", "s", Z, Z], ["s", Z, Z, "5"]],
    "dark": [["20", "s", "1"], ["s", "1", "s"], ["1", "s", "30"]],
}


def jobs(tier):
    J = []
    for k, im in IMGS.items():
        for t in (0, 1):
            J.append(Job(f"{k}_{t}", scn, dict(img=im, thr=t, std=(
                F(1),) if t else (F(1, 2), F(3))), max_paths=250 if
                tier == "quick" else 800, budget=40 if tier == "quick"
                else 400, witness=4))
    J.append(Job("mean", scn, dict(img=IMGS["dark"], mean=(F(4), F(12)),
                                   thr=1, std=(F(2),)),
                 max_paths=250 if tier == "quick" else 800, witness=4))
    J.append(Job("none", scn_none, {}))
    return J
