"""Fitted beta and shift minimise the residual of the difference image."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S

BOUNDS = ("images of 2x2, 1x2 and 2x4 pixels (3x4, 4x3 and 4x4 with a border of "
          "one pixel where the shift is fitted); every pixel of both "
          "interpolated images and both backgrounds and "
          "four mask bits symbolic; the cost evaluated at a symbolic trial shift and a "
          "prescribed or symbolic trial beta")
OUTSIDE = ("convergence of the optimiser; larger images; the width of the "
           "border (OPT_BORDER)")
MUST_REACH = ("least_squares", "minimize_scalar")


def expected(w, shape, R, N, pr, pn, sr, sn, b, dx, dy, gamma, mask, bd):
    D = S.expected_D(w, shape, R, N, pr, pn, sr, sn, b, dx, dy)
    g = gamma / w.np.sqrt(sn ** 2 + b ** 2 * sr ** 2)
    if dx is not None:
        # whole-pixel part of the shift; half pixels go to the even one
        g = w.np.roll(g, (int(w.conc(round(dx))), int(w.conc(round(dy)))),
                      (0, 1))
    res = w.np.abs(D.real - g)
    tot = 0
    n = 0
    for i in range(bd, shape[0] - bd):
        for j in range(bd, shape[1] - bd):
            tot = tot + w.ite(mask[i, j], 0, res[i, j])
            n += 1
    return tot / n if bd else tot


def scn(w):
    shape = tuple(w.cfg["shape"])
    beta, shift, it = w.cfg["mode"]
    op = w.mod("operations")
    w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
    w.env["opt_ok"] = False
    z = w.choice("zp", w.cfg.get("zps", [("3/2", 2)]))
    zr, zn = w.q(z[0]), w.q(z[1])
    bd = 0
    if shift:
        op.OPT_BORDER = bd = 1
    tr = []
    if beta:
        tr.append(w.real("beta", F(1, 10), 10) if w.cfg.get("symb")
                  else w.q(F(w.choice("beta", w.cfg["trial"]))))
    if shift:
        tr += [w.real("dx", F(-9, 10), F(9, 10)),
               w.q(F(w.choice("dy", w.cfg["dy"])))]
    m = w.const(np.zeros(shape, bool))
    for q in [(0, 0), (1, 1), (1, shape[1] - 2), (shape[0] - 1, 1)]:
        if q[0] < shape[0] and q[1] < shape[1]:
            m[q] = w.bool(f"bad_{q[0]}_{q[1]}")
    masks = {"r": m, "n": np.zeros(shape, bool)}
    (ref, R, pr, _), (new, N, pn, _) = S.build(w, shape, w.cfg["psf"],
                                               mask=masks,
                                               data=w.np.ones(shape))
    if w.cfg.get("few"):        # the other pixels prescribed
        for k, (I, im) in enumerate(((R, ref), (N, new))):
            for q in np.ndindex(*shape):
                if q not in w.cfg["few"]:
                    I[q] = w.q(F((3 * q[0] + 5 * q[1] + 2 * k) % 7 - 3, 2))
    w.env["back"] = lambda w, i, sh: w.arr(f"back{i}", sh, -4, 4) \
        if not w.cfg.get("few") else w.const(
            [[F((i + 1) * (y + 2 * x + 1), 8) for x in range(sh[1])]
             for y in range(sh[0])])
    S.prescribe_zps(w, zr, zn)
    D, P, Sc, M = w.run("subtract returns", lambda: op.subtract(
        ref, new, align=False, beta=beta, shift=shift, iterative=it,
        fitted_psf=False))
    opts = w.evs("opt")
    w.check("the optimiser is consulted once", len(opts) == 1)
    o = opts[0]
    w.reach(o["kind"])
    lo, hi = o["bounds"]
    nb = 1 if beta else 0
    if beta:
        w.check("beta is sought between a tenth and ten",
                abs(lo[0] - 0.1) < 1e-9 and abs(hi[0] - 10) < 1e-9)
    if shift:
        w.check("the shift is sought below a pixel", w.all(
            [abs(lo[k] + 0.9) < 1e-9 and abs(hi[k] - 0.9) < 1e-9
             for k in (nb, nb + 1)]))
    x0 = o["x0"]
    if x0 is not None:
        x0 = list(w.np.ravel(x0))
        w.check("one value for each parameter fitted",
                len(x0) == nb + (2 if shift else 0))
        if beta:
            e = w.q(F(z[1]) / F(z[0]))
            e = w.q(10) if F(z[1]) / F(z[0]) > 10 else \
                w.q("1/10") if F(z[1]) / F(z[0]) < F(1, 10) else e
            w.check("the search starts at the ratio of zero points",
                    abs(x0[0] - e) < 1e-9)
        if shift:
            w.check("the search starts without a shift",
                    w.all([x0[nb] == 0, x0[nb + 1] == 0]))
    x = tr[0] if o["kind"] == "minimize_scalar" else w.np.array(tr)
    c = w.run("the cost evaluates", lambda: o["fun"](x))
    gamma = op.sep.Background(N).back() - op.sep.Background(R).back()
    b = tr[0] if beta else zn / zr
    dx, dy = tr[nb:] if shift else (None, None)
    E = expected(w, shape, R, N, pr, pn, ref.var, new.var, b, dx, dy, gamma,
                 M, bd)
    c = w.np.ravel(c)
    w.check("the cost is one number", len(c) == 1)
    w.check_eq("the cost is the residual of the difference", c[0], E)
    # asked for again, and after another trial, it is the same
    if beta:
        o2 = w.np.array([w.q("9/8")] + tr[1:]) if shift else w.q("9/8")
        w.run("the cost evaluates", lambda: o["fun"](o2))
    c2 = w.run("the cost evaluates", lambda: o["fun"](x))
    w.check_eq("the cost depends on its argument only",
               w.np.ravel(c2)[0], c[0])


def jobs(tier):
    J = []
    zps = [("3/2", 2), (1, 16), (20, 1)]
    for mode in S.MODES[:4]:
        tag = "".join(str(int(v)) for v in mode)
        if mode[1]:
            cases = [((4, 4), ("rat", "rat2"), 0), ((3, 4), ("half", "half2"), 0)]
            if tier != "quick":
                cases.append(((4, 3), ("col", "col2"), 0))
        else:
            cases = [((2, 2), ("rat", "rat2"), 1), ((1, 2), ("half", "half2"), 1),
                     ((2, 4), ("rat", "rat2"), 0)]
        for sh, pk, sb in cases:
            J.append(Job(f"cost_{tag}_{sh[0]}x{sh[1]}", scn,
                         dict(shape=sh, psf=pk, mode=mode, symb=sb,
                              trial=[1.75] if tier == "quick" else
                              [1.75, 0.5], dy=[0.0, 0.75] if
                              tier == "quick" else [0.0, 0.75, -0.5],
                              zps=zps if sb or tier != "quick" else
                              zps[:1], few=[(1, 1), (1, 2), (2, 3)]
                              if mode[1] else None),
                         max_paths=40 if tier == "quick" else 400))
    return J
