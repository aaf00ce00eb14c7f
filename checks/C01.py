"""subtract's difference image follows the proper-subtraction formula."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("image shapes (1,4), (4,1), (2,2), (4,4); every pixel of both "
          "interpolated images and both backgrounds symbolic; PSF stamps of "
          "2-4 symbolic pixels or prescribed rational PSFs (zero and purely "
          "imaginary frequencies included); zero points, noise levels, "
          "optimizer results (success or not) symbolic")
OUTSIDE = "larger images; convergence of the optimiser"
MUST_REACH = ()


def prescribe_zps(w, zr, zn):
    """The photometric zero points become inputs of the check (their own
    correctness is C08's subject)."""
    u = w.mod("utils")
    if hasattr(u, "transparency"):
        def transparency(images, master=None):
            assert master is None and len(images) == 2
            return w.np.array([zr, zn]), w.np.array([20.0])
        u.transparency = transparency


def psf_const(w, kind, tag):
    if kind == "sym2":
        a = w.arr("psf" + tag, (1, 2), F(1, 8), 4)
        return a
    if kind.startswith("uni"):      # [p, 1-p], p symbolic
        p = w.real("psf" + tag, F(1, 8), F(3, 8))
        r = [p, 1 - p]
        return w.np.array([r])
    if kind == "sym22":
        return w.arr("psf" + tag, (2, 2), F(1, 8), 4)
    if kind == "rat":
        return K.frac(w, [["1/2", "1/4"], ["1/8", "1/8"]])
    if kind == "rat2":
        return K.frac(w, [["5/8", "1/8"], ["1/8", "1/8"]])
    if kind == "zero":      # real part of some frequencies vanishes
        return K.frac(w, [["1/2", "1/2"]])
    if kind == "rat1":
        return K.frac(w, [["1/8", "1/2", "1/4"]])
    if kind == "half":
        return K.frac(w, [["3/4", "1/4"]])
    if kind == "tiny":      # a frequency nearly lost
        return K.frac(w, [[F(1, 2) + F(1, 1 << 21),
                            F(1, 2) - F(1, 1 << 21)]])
    if kind == "half2":
        return K.frac(w, [["3/8", "5/8"]])
    if kind == "imag3":
        return K.frac(w, [["1/8", "3/4", "1/8"]])
    if kind == "col":
        return K.frac(w, [["1/8"], ["1/2"], ["1/4"]])
    if kind == "col2":
        return K.frac(w, [["1/2"], ["1/4"]])
    if kind == "lobes":     # the root of its power has negative pixels
        return K.frac(w, [["23/40", "-7/40", "-1/40", "25/40"]])
    if kind == "imag":      # purely imaginary frequencies on length 4
        return K.frac(w, [["1/4", "1/2", "1/4"]])
    raise KeyError(kind)


def profile(w, i, dx, dy):
    """A positive profile, different along x and y and for each star model,
    that decreases from the centre."""
    return w.q(1 / (1 + F(1 + i, 2) * dx * dx + (2 - i) * dy * dy))


def build(w, shape, pk, base="SingleImage", mask=None, data=None):
    ims = []
    for t, k in (("r", pk[0]), ("n", pk[1])):
        I = w.arr("img" + t, shape, -8, 8)
        cat = K.catalog(w, t, [10, 30], [12, 40], [1, 10])
        if base == "SingleImage":
            psf = [psf_const(w, k, t)]
            P = psf[0]
        else:
            u = w.mod("utils")
            w.env["gauss_profile"] = profile
            g = u.models.Gaussian2D(amplitude=1.0, x_mean=0, y_mean=0,
                                    x_stddev=w.q(F(3, 2)), theta=w.q(0),
                                    y_stddev=w.q(2 if t == "r" else 1))
            psf = [g.render(), g]
            # the Gaussian centred on the image
            rows = [[profile(w, 0 if t == "r" else 1,
                             F(j) - F(shape[1], 2), F(i) - F(shape[0], 2))
                     for j in range(shape[1])] for i in range(shape[0])]
            P = w.np.array(rows)
            g._profile(F(1), F(1))       # fixes which profile this is
        spec = {"interped": I, "sources": cat, "psf": psf}
        d = w.arr("dat" + t, shape, w.cfg.get("dlo", 0), 8) if data is None else data.copy()
        im = K.make_image(w, spec, d, base, mask=mask[t] if mask else None)
        ims.append((im, I, P, None))
    return ims


def expected_D(w, shape, R, N, pr, pn, sr, sn, b, dx, dy):
    """Zackay, Ofek & Gal-Yam: D_hat with each PSF's own centre removed."""
    eps = np.finfo(np.float64).eps
    prh, pnh = K.fft2(w, pr, shape), K.fft2(w, pn, shape)
    # frequencies a PSF does not transmit at all are regularised
    prh = w.np.where(prh == 0, eps, prh)
    pnh = w.np.where(pnh == 0, eps, pnh)
    Rh, Nh = K.fft2(w, R), K.fft2(w, N)
    yr, xr = K.com(w, pr)
    yn, xn = K.com(w, pn)
    cr = K.shift_phase(w, shape, -yr, -xr)
    cn = K.shift_phase(w, shape, -yn, -xn)
    num = prh * cr * Nh
    ref = b * pnh * cn * Rh
    if not (dx is None):
        ref = ref * K.shift_phase(w, shape, dx, dy)
    den = w.np.sqrt(sn ** 2 * w.np.abs(prh) ** 2 +
                    sr ** 2 * w.np.abs(pnh) ** 2 * b ** 2)
    return K.ifft2(w, (num - ref) / den)


def scn(w):
    shape = tuple(w.cfg["shape"])
    beta, shift, it = w.cfg["mode"]
    op = w.mod("operations")
    if w.cfg.get("conc"):
        # noise levels, zero points and beta prescribed; pixels and the
        # optimiser's shift stay symbolic
        zr, zn = w.q("3/2"), w.q(2)
        w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
        w.env["opt_x"] = lambda w, i, j, n: (
            w.q("5/3") if beta and j == 0 else
            w.real(f"opt{i}_x{j}", F(-9, 10), F(9, 10)))
    else:
        lo = w.cfg.get("zp", (F(1, 2), F(1, 2)))
        zr = w.real("zp_ref", lo[0], lo[0] * 8)
        zn = w.real("zp_new", lo[1], lo[1] * 8)
    (ref, R, pr, mr), (new, N, pn, mn) = build(
        w, shape, w.cfg["psf"], w.cfg.get("base", "SingleImage"))
    prescribe_zps(w, zr, zn)
    if w.cfg.get("border"):
        op.OPT_BORDER = 1
    for p in (pr, pn):
        if w.cfg["psf"][0].startswith("sym"):
            ph = K.fft2(w, p, shape)
            nz = (ph.real ** 2 + ph.imag ** 2)
            w.assume(w.all([v > F(1, 64) if w.sym else v > 1 / 64
                            for v in nz.ravel()]))
    D, P, S, M = w.run("subtract returns", lambda: op.subtract(
        ref, new, align=False, beta=beta, shift=shift, iterative=it,
        fitted_psf=w.cfg.get("base") is not None))
    opts = w.evs("opt")
    b, dx, dy = zn / zr, None, None
    if beta or shift:
        w.check("the optimiser is consulted once", len(opts) == 1)
        o = opts[0]
        ok = bool(o["ok"])
        w.reach("optimiser ok" if ok else "optimiser failed")
        if ok:
            x = list(o["x"]) if hasattr(o["x"], "__len__") else [o["x"]]
            if beta:
                b = x[0]
                x = x[1:]
            if shift:
                dx, dy = x
                if dx == 0 and dy == 0:     # no shift: same formula
                    dx = dy = None
    E = expected_D(w, shape, R, N, pr, pn, ref.var, new.var, b, dx, dy)
    w.check_eq("D equals the formula", D, E)


MODES = [(True, True, False), (True, False, True), (True, False, False),
         (False, True, False), (False, False, False)]


def jobs(tier):
    J = []
    cases = [((2, 2), ("rat", "rat2")), ((1, 4), ("imag", "rat1")),
             ((1, 4), ("zero", "rat1")), ((4, 1), ("col", "col2")),
             ((1, 2), ("uni", "uni"))]
    if tier != "quick":
        cases += [((4, 4), ("rat", "rat2")), ((1, 3), ("rat1", "imag3")),
                  ((2, 2), ("sym22", "rat2")), ((1, 4), ("rat1", "imag")),
                  ((2, 4), ("rat", "rat2")), ((1, 4), ("rat1", "zero"))]
    for m in MODES:
        for sh, pk in cases:
            J.append(Job(f"D_{sh[0]}x{sh[1]}_{pk[0]}_{pk[1]}_"
                         f"{int(m[0])}{int(m[1])}{int(m[2])}", scn,
                         dict(shape=sh, psf=pk, mode=m,
                              conc=4 in sh or pk[0] == "uni")))
        for pk in (("tiny", "half"), ("half", "tiny")):
            J.append(Job(f"D_{pk[0]}_{pk[1]}_"
                         f"{int(m[0])}{int(m[1])}{int(m[2])}", scn,
                         dict(shape=(1, 2), psf=pk, mode=m, conc=True)))
        if m[0]:        # ratios beyond what the optimiser may return
            for a, b in ((F(1, 16), 2), (4, F(1, 32))):
                J.append(Job(f"D_zp{'up' if a < b else 'down'}_"
                             f"{int(m[0])}{int(m[1])}{int(m[2])}", scn,
                             dict(shape=(1, 2), psf=("half", "half2"),
                                  mode=m, zp=(a, b))))
        for sh in ((2, 4), (4, 2)) if m in MODES[::2] or tier != "quick" \
                else ():
            J.append(Job(f"D_{sh[0]}x{sh[1]}_fitted_"
                         f"{int(m[0])}{int(m[1])}{int(m[2])}", scn,
                         dict(shape=sh, psf=("g", "g"), mode=m, conc=True,
                              base="SingleImageGaussPSF")))
    return J
