"""Delta sources: exactly the weights given at exactly the positions given."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("arrays of 1-6 pixels (non-integer sizes excluded), 0-3 distinct "
          "positions of symbolic integer or fractional coordinates, symbolic "
          "weights; positions and weights as lists, arrays, tuples, "
          "zips and generators")
OUTSIDE = "several deltas on one pixel; positions outside the array"


def near(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-6


def wrap(w, how, rows):
    if how == "zip":
        return zip([r[0] for r in rows], [r[1] for r in rows])
    if how == "gen":
        return (tuple(r) for r in rows)
    if how == "tuple":
        return tuple(tuple(r) for r in rows)
    if how == "array":
        return w.np.array([list(r) for r in rows])
    return [tuple(r) for r in rows]


def scn(w):
    sm = w.mod("simtools")
    N, n = w.cfg["N"], w.cfg["n"]
    pos, cell = [], []
    for k in range(n):
        y, x = w.int(f"y{k}", 0, N - 1), w.int(f"x{k}", 0, N - 1)
        cell.append((int(w.conc(y)), int(w.conc(x))))
        f = w.q(w.cfg["frac"])
        pos.append((y + f, x + f) if w.cfg["frac"] else cell[-1])
    w.assume(len(set(cell)) == n)
    wt = [w.real(f"w{k}", -9, 9) for k in range(n)]
    how, wh = w.cfg["how"]
    kw = dict(center=False, xy=wrap(w, how, pos))
    if wh == "list":
        kw["weights"] = list(wt)
    elif wh == "array":
        kw["weights"] = w.np.array(wt)
    elif wh == "gen":
        kw["weights"] = (v for v in wt)
    else:
        wt = [w.q(1)] * n
    m = w.run("the deltas are made", lambda: sm.delta_point(N, **kw))
    w.check("array size", tuple(m.shape) == (N, N))
    for i in np.ndindex(N, N):
        want = wt[cell.index(i)] if i in cell else w.q(0)
        w.check("each weight at its own position, nothing elsewhere",
                near(w, m[i] - want))
    if how in ("list", "tuple") and not w.cfg["frac"]:
        again = sm.delta_point(N, **kw) if wh != "gen" else m
        w.check_eq("asking again gives the same", again, m)


def scn_centre(w):
    sm = w.mod("simtools")
    N = w.choice("N", w.cfg["N"])
    m = w.run("the delta is made", lambda: sm.delta_point(N))
    w.check("array size", tuple(m.shape) == (N, N))
    for i in np.ndindex(N, N):
        w.check("one in the centre, nothing elsewhere",
                m[i] == (1 if i == (N // 2, N // 2) else 0))


def jobs(tier):
    J = [Job("centre", scn_centre, dict(N=tuple(range(1, 7))))]
    q = tier == "quick"
    for how in (("zip", "list"), ("list", "gen"), ("array", "array"),
                ("gen", None), ("tuple", "list"), ("zip", None),
                ("gen", "gen")):
        for n in (0, 1, 2) if q else (0, 1, 2, 3):
            if n == 0 and how[0] == "array":
                continue
            for f in (0, F(3, 4)) if n == 2 and how[0] in (
                    "zip", "array") else (0,):
                J.append(Job(f"{how[0]}_{how[1]}_{n}_{int(4 * f)}", scn,
                             dict(N=3, n=n, how=how, frac=f),
                             max_paths=100 if q else 800, witness=3))
    # more deltas than the array is wide
    for how in (("zip", None), ("list", "list"), ("list", None)):
        for n in (3, 4):
            J.append(Job(f"{how[0]}_{how[1]}_{n}_many", scn,
                         dict(N=2, n=n, how=how, frac=0), max_paths=100,
                         witness=3))
    return J
