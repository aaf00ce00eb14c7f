"""Pixels under the mask never influence any product."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S
from checks import C06

BOUNDS = ("4x4 images, the masked pixels holding two independent symbolic "
          "values (or NaN, or a saturated value) in two runs, the other "
          "pixels prescribed; background, noise, cosmic rays, interpolation "
          "and statistics differ as soon as the unmasked content differs; "
          "2 masked positions per image (thorough: each of the 16)")
OUTSIDE = "larger images; the C libraries' own use of the masks they are given"


def pair(w, tag, shape, bad, over):
    """The same image twice, differing only below the mask."""
    k = 3 if tag in "ra" else 5
    a = w.const([[F((k * i + 7 * j) % 11 - 3, 2) for j in range(shape[1])]
                 for i in range(shape[0])])
    for p in bad:
        a[p] = w.real(f"under{tag}_{p[0]}_{p[1]}", -8, 8)
    b = a.copy()
    m = np.zeros(shape, bool)
    for p in bad:
        if over == "nan":
            b[p] = float("nan")
        elif over == "sat":
            b[p] = 70000
        else:
            b[p] = w.real(f"other{tag}_{p[0]}_{p[1]}", -8, 8)
        m[p] = True
    return a, b, m


def imgs(w, tag, shape, bad, psf, over):
    a, b, m = pair(w, tag, shape, bad, over)
    cat = K.catalog(w, tag, [10, 30], [12, 40], [1, 10])
    out = []
    for d in (a, b):
        spec = {"sources": cat, "psf": [psf.copy()],
                "normal": w.np.ones(shape)}
        out.append(K.make_image(w, spec, d, mask=w.const(m)))
    return out


def same_cost(w, e1, e2):
    w.check("the optimisers see the same number of problems",
            len(e1) == len(e2))
    for o1, o2 in zip(e1, e2):
        x = o1["x0"]
        if x is None:
            x = w.q("3/2")
        c1 = w.run("cost evaluates", lambda: o1["fun"](x))
        c2 = w.run("cost evaluates", lambda: o2["fun"](x))
        w.check_eq("the fitted cost does not see masked pixels", c1, c2)


def pre(w):
    # a different measurement for every different (unmasked) content
    w.env["rms"] = lambda w, i: w.q(F(3 + i, 4))
    w.env["back"] = lambda w, i, sh: w.const(
        [[F((i + 1) * (y + 2 * x + 1), 8) for x in range(sh[1])]
         for y in range(sh[0])])
    w.env["interp_vals"] = lambda w, i, sh: w.const(
        [[F((i + 2) * (2 * y + x + 1), 8) for x in range(sh[1])]
         for y in range(sh[0])])
    w.env["cr"] = w.cfg.get("cr", "none")
    w.env["opt_x"] = lambda w, i, j, n: w.q("5/3") \
        if (j == 0 and n != 2) else w.q(0)


def scn_sub(w):
    shape = tuple(w.cfg["shape"])
    op = w.mod("operations")
    op.OPT_BORDER = 1
    pre(w)
    S.prescribe_zps(w, w.q("3/2"), w.q(2))
    br = [w.choice("badr", w.cfg["bad"])]
    bn = [w.choice("badn", w.cfg["bad"])] if not w.cfg.get("one") else []
    beta, shift, it = w.cfg["mode"]
    R = imgs(w, "r", shape, br, K.frac(w, [["1"]]), w.cfg["over"])
    N = imgs(w, "n", shape, bn, K.frac(w, [["1"]]), w.cfg["over"])
    res, ev = [], []
    for r, n in zip(R, N):
        before = len(w.evs("opt"))
        # the second run sees the same optimiser
        w.counters["opt"] = 0
        res.append(w.run("subtract returns", lambda: op.subtract(
            r, n, align=False, beta=beta, shift=shift, iterative=it,
            fitted_psf=False)))
        ev.append(w.evs("opt")[before:])
    (D1, P1, S1, M1), (D2, P2, S2, M2) = res
    w.check_eq("D does not see masked pixels", D1, D2)
    w.check_eq("P does not see masked pixels", P1, P2)
    w.check_eq("S_corr does not see masked pixels", S1, S2)
    w.check_eq("the mask does not see masked pixels", M1, M2)
    same_cost(w, *ev)


def scn_coadd(w):
    shape = tuple(w.cfg["shape"])
    op = w.mod("operations")
    pre(w)
    zps = [w.q("3/2"), w.q(2)]
    C06.prescribe(w, zps)
    ba = [w.choice("bada", w.cfg["bad"])]
    bb = [w.choice("badb", w.cfg["bad"])]
    A = imgs(w, "a", shape, ba, K.frac(w, [["1"]]), w.cfg["over"])
    B = imgs(w, "b", shape, bb, K.frac(w, [["1"]]), w.cfg["over"])
    res = [w.run("coadd returns", lambda: op.coadd(
        [a, b], align=False, n_procs=w.cfg["procs"])) for a, b in zip(A, B)]
    for n, x, y in zip(("R", "P", "the mask"), *res):
        w.check_eq(f"{n} does not see masked pixels", x, y)


def jobs(tier):
    J = []
    bad = [(1, 2), (0, 0), (3, 1)]
    full = [(i, j) for i in range(4) for j in range(4)]
    for over in ("num", "nan", "sat"):
        for m in (S.MODES if over == "num" else S.MODES[4:]):
            if tier == "quick" and m[0] and m != S.MODES[0] and \
                    over != "num":
                continue
            J.append(Job(f"sub_{over}_{int(m[0])}{int(m[1])}{int(m[2])}",
                         scn_sub, dict(shape=(4, 4), mode=m, over=over,
                                       bad=bad[:2] if tier == "quick"
                                       else full),
                         max_paths=12 if tier == "quick" else 300))
        for p in (1, 2):
            J.append(Job(f"coadd_{over}_{p}", scn_coadd, dict(
                shape=(4, 4), over=over, procs=p,
                bad=bad[:2] if tier == "quick" else full),
                max_paths=12 if tier == "quick" else 300))
    return J
