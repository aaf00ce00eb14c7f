"""Cross-matching pairs mutual nearest neighbours within the radius."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job

BOUNDS = ("catalogues of 1-3 by 1-3 sources (thorough 3 by 3 and 4 by 2) at "
          "arbitrary real positions in a 8x8 box (ties: 3 by 7 sources at prescribed places), symbolic "
          "match radius")
OUTSIDE = "larger catalogues; which of exactly tied sources is chosen"


def setup(w):
    na, nb = w.cfg["n"]
    d = w.cfg.get("dim", 2)
    fix = w.cfg.get("fix")
    P = [(2, 3), (4, 3), (3, 6), (5, 4)]

    def side(t, n):
        if t == fix:        # prescribed positions, the other ones are free
            return (w.const([F(p[0]) for p in P[:n]]),
                    w.const([F(p[1]) if d == 2 else F(0) for p in P[:n]]))
        return (w.arr(t + "x", (n,), 0, 8),
                w.const([F(2 + 3 * k, 2) for k in range(n)])
                if w.cfg.get("yfix") else
                w.arr(t + "y", (n,), 0, 8) if d == 2 else w.np.zeros(n))
    ax, ay = side("a", na)
    bx, by = side("b", nb)
    d2 = [[(ax[i] - bx[j]) ** 2 + (ay[i] - by[j]) ** 2 for j in range(nb)]
          for i in range(na)]
    flat = [d2[i][j] for i in range(na) for j in range(nb)]
    # a small gap, so that the float replay takes the same decisions
    gap = F(1, 64) if w.sym else 1 / 128
    for i in range(len(flat)):
        for j in range(i):
            if i // nb == j // nb or i % nb == j % nb:
                w.assume(w.any([flat[i] - flat[j] > gap,
                                flat[j] - flat[i] > gap]))
    r = w.q(2) if w.cfg.get("r2") else w.real("radius", 1, 4)
    for v in flat:
        w.assume(w.any([v - r * r > gap, r * r - v > gap]))
    return ax, ay, bx, by, d2, r


def expected(w, d2, r, na, nb):
    """pair[i][j]: i and j are mutual nearest neighbours closer than r."""
    def near(i, j):
        row = [d2[i][j] <= d2[i][k] for k in range(nb)]
        col = [d2[i][j] <= d2[k][j] for k in range(na)]
        return w.all(row + col + [d2[i][j] < r * r])
    return [[near(i, j) for j in range(nb)] for i in range(na)]


def scn_match(w):
    u = w.mod("utils")
    na, nb = w.cfg["n"]
    ax, ay, bx, by, d2, r = setup(w)
    ids = [3, 0, 7, 5][:na]
    A = w.catalog({"x": ax, "y": ay, "sourceid": w.np.array(ids)})
    B = w.catalog({"x": bx, "y": by})
    IDs, mask = w.run("matching returns", lambda: u._matching(
        A, B, masteridskey="sourceid", radius=r, masked=True))
    pair = expected(w, d2, r, na, nb)
    for j in range(nb):
        matched = w.any([pair[i][j] for i in range(na)])
        for i in range(na):
            w.check("matched exactly to the mutual nearest source",
                    w.all([w.any([w.not_(pair[i][j]), IDs[j] == ids[i]]),
                           w.any([pair[i][j], IDs[j] != ids[i]])]))
        w.check("mask tells the matched sources",
                w.any([w.all([matched, mask[j]]),
                       w.all([w.not_(matched), w.not_(mask[j])])]))
    for j in range(nb):
        for k in range(j):
            w.check("no source is used twice",
                    w.any([IDs[j] != IDs[k], w.not_(mask[j])]))


def scn_cross(w):
    u = w.mod("utils")
    na, nb = w.cfg["n"]
    ax, ay, bx, by, d2, r = setup(w)
    X = w.np.stack([ax, ay], axis=1)
    Y = w.np.stack([bx, by], axis=1)
    dist, ind = w.run("crossmatch returns", lambda: u.crossmatch(
        X, Y, max_distance=r))
    for i in range(na):
        best = [w.all([d2[i][j] <= d2[i][k] for k in range(nb)] +
                      [d2[i][j] < r * r]) for j in range(nb)]
        for j in range(nb):
            w.check("index of the nearest source",
                    w.any([w.not_(best[j]), ind[i] == j]))
            w.check("distance to the nearest source",
                    w.any([w.not_(best[j]),
                           w.all([dist[i] * dist[i] - d2[i][j] < F(1, 256)
                                  if w.sym else
                                  abs(dist[i] ** 2 - d2[i][j]) < 1 / 256,
                                  d2[i][j] - dist[i] * dist[i] < F(1, 256)
                                  if w.sym else True])]))
        none = w.not_(w.any(best))
        w.check("unmatched sources are marked",
                w.any([w.not_(none), w.all([ind[i] == nb,
                                            w.np.isinf(dist[i])])]))


def scn_key(w):
    """Without identifiers the master's positions are used."""
    u = w.mod("utils")
    na, nb = w.cfg["n"]
    ax, ay, bx, by, d2, r = setup(w)
    A = w.catalog({"x": ax, "y": ay,
                   "masterindex": w.np.zeros(na, dtype=int)})
    B = w.catalog({"x": bx, "y": by})
    IDs = w.run("matching returns", lambda: u._matching(A, B, radius=r))
    pair = expected(w, d2, r, na, nb)
    for j in range(nb):
        for i in range(na):
            w.check("matched exactly to the mutual nearest source",
                    w.all([w.any([w.not_(pair[i][j]), IDs[j] == i]),
                           w.any([pair[i][j], IDs[j] != i])]))


def scn_ties(w):
    """Sources at exactly equal distances."""
    u = w.mod("utils")
    d = w.choice("d", (0, 1))
    A = [(10, 10), (30, 30), (50, 50 + d)]
    B = [(10 - 1, 10), (10 + 1, 10), (30, 30 + d), (30, 30 - d), (49, 50),
         (50, 51), (70, 70)]
    perm = w.choice("perm", (0, 1, 2, 3))
    B = B[perm:] + B[:perm] if perm < 3 else B[::-1]
    if w.choice("swap", (False, True)):
        A, B = B, A
    r = w.real("radius", F(9, 8), 4)
    ids = [3, 0, 7, 5, 6, 1, 2][: len(A)]
    cA = w.catalog({"x": w.np.array([w.q(p[0]) for p in A]),
                    "y": w.np.array([w.q(p[1]) for p in A]),
                    "sourceid": w.np.array(ids)})
    cB = w.catalog({"x": w.np.array([w.q(p[0]) for p in B]),
                    "y": w.np.array([w.q(p[1]) for p in B])})
    IDs, mask = w.run("matching returns", lambda: u._matching(
        cA, cB, masteridskey="sourceid", radius=r, masked=True))
    got = [int(w.conc(i)) for i in IDs]
    seen = [i for i, m in zip(got, mask) if w.conc(m)]
    w.check("no source is used twice", len(set(seen)) == len(seen))
    w.check("mask tells the matched sources",
            [i for i in got if i in ids] == seen)

    def d2(p, q):
        return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2
    for j, q in enumerate(B):
        for i, p in enumerate(A):
            row = sorted(d2(p, x) for x in B)
            col = sorted(d2(x, q) for x in A)
            e = d2(p, q)
            near_ = e <= 1 and e == row[0] and e == col[0]
            only = near_ and row[1] > e and col[1] > e
            if got[j] == ids[i]:
                w.check("only mutual nearest sources are matched", near_)
            elif only:
                w.check("mutual nearest sources are matched", False)


def jobs(tier):
    J = []
    T = tier != "quick"

    def add(name, fn, n, **k):
        J.append(Job(f"{name}_{n[0]}{n[1]}" + "".join(
            f"_{a}{b}" for a, b in sorted(k.items())), fn, dict(n=n, **k),
            max_paths=400, budget=60 if not T else 400))
    for n in ((1, 1), (1, 2), (2, 1)):
        k = {} if n == (1, 1) or T else {"r2": 1, "fix": "a" if n[0] == 1
                                         else "b"}
        add("match", scn_match, n, **k)
        add("cross", scn_cross, n, **k)
    for fix in "ab":
        add("match", scn_match, (2, 2), fix=fix, r2=1, yfix=1)
        add("cross", scn_cross, (2, 2), fix=fix, r2=1, yfix=1)
        add("match", scn_match, (2, 2), dim=1, fix=fix, r2=1)
        if T or fix == "a":
            add("match", scn_match, (3, 2), dim=1, fix=fix, r2=1)
        if T or fix == "b":
            add("match", scn_match, (2, 3), dim=1, fix=fix, r2=1)
        if T:
            add("match", scn_match, (3, 3), dim=1, fix=fix, r2=1)
            add("match", scn_match, (2, 2), fix=fix, r2=1)
            add("cross", scn_cross, (2, 2), fix=fix, r2=1)
    J.append(Job("ties", scn_ties, {}))
    add("key", scn_key, (2, 2), dim=1, fix="a", r2=1)
    if T:
        add("match", scn_match, (2, 2), dim=1)
        add("match", scn_match, (2, 2))
        add("match", scn_match, (2, 3), fix="b", r2=1)
    return J
