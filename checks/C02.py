"""subtract's PSF P and score image S_corr follow the published formulae."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S

BOUNDS = ("P: shapes (2,2), (1,2), (1,4), (4,1) with symbolic noise levels, "
          "zero points and optimiser result; S_corr: the same shapes with "
          "symbolic pixels, interpolated pixels, mask bits and sub-pixel "
          "shift, for prescribed rational PSFs, noise levels and zero points")
OUTSIDE = ("larger images; the reset of "
           "the PSF centre when it is more than 30 pixels from the peak")


def beta_shift(w, zr, zn, beta, shift):
    b, dx, dy = zn / zr, None, None
    opts = w.evs("opt")
    if beta or shift:
        o = opts[0]
        if bool(o["ok"]):
            x = list(o["x"]) if hasattr(o["x"], "__len__") else [o["x"]]
            if beta:
                b, x = x[0], x[1:]
            if shift:
                dx, dy = x
                if dx == 0 and dy == 0:
                    dx = dy = None
    return b, dx, dy


def scn(w):
    shape = tuple(w.cfg["shape"])
    beta, shift, it = w.cfg["mode"]
    score = w.cfg["score"]
    op = w.mod("operations")
    if score:
        zr, zn = w.q("3/2"), w.q(2)
        w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
        w.env["opt_x"] = lambda w, i, j, n: (
            w.q("5/3") if beta and j == 0 else
            w.real(f"opt{i}_x{j}", F(-9, 10), F(9, 10)))
    else:
        zr = w.real("zp_ref", F(1, 2), 4)
        zn = w.real("zp_new", F(1, 2), 4)
    mk = {t: w.mask("mask" + t, shape) for t in "rn"} \
        if w.cfg.get("mask") else None
    (ref, R, pr, _), (new, N, pn, _) = S.build(
        w, shape, w.cfg["psf"], w.cfg.get("base", "SingleImage"), mask=mk)
    S.prescribe_zps(w, zr, zn)
    D, P, Sc, M = w.run("subtract returns", lambda: op.subtract(
        ref, new, align=False, beta=beta, shift=shift, iterative=it,
        fitted_psf=w.cfg.get("base") is not None))
    b, dx, dy = beta_shift(w, zr, zn, beta, shift)
    sr, sn = ref.var, new.var
    eps = np.finfo(np.float64).eps
    prh, pnh = K.fft2(w, pr, shape), K.fft2(w, pn, shape)
    prh = w.np.where(prh == 0, eps, prh)
    pnh = w.np.where(pnh == 0, eps, pnh)
    norm = sn ** 2 * w.np.abs(prh) ** 2 + sr ** 2 * w.np.abs(pnh) ** 2 * b ** 2
    fd = b / w.np.sqrt(sr ** 2 * b ** 2 + sn ** 2)
    Ph = prh * pnh * b / (w.np.sqrt(norm) * fd)
    EP = K.ifft2(w, Ph).real
    w.check_eq("P equals the formula", P, EP)
    if not score:
        return
    yr, xr = K.com(w, pr)
    yn, xn = K.com(w, pn)
    ref_t = b * pnh * K.shift_phase(w, shape, -yn, -xn) * K.fft2(w, R)
    if dx is not None:
        ref_t = ref_t * K.shift_phase(w, shape, dx, dy)
    Dh = (prh * K.shift_phase(w, shape, -yr, -xr) * K.fft2(w, N) - ref_t) \
        / w.np.sqrt(norm)
    py, px = K.com(w, EP)
    Sh = Dh * w.np.conj(Ph) * K.shift_phase(w, shape, py, px)
    score_im = K.ifft2(w, Sh)
    kr = K.ifft2(w, b * w.np.conj(prh) * w.np.abs(pnh) ** 2 / norm)
    kn = K.ifft2(w, w.np.conj(pnh) * w.np.abs(prh) ** 2 / norm)
    dr, dn = ref.data.filled(0), new.data.filled(0)
    V = K.ifft2(w, K.fft2(w, dn + 1) * K.fft2(w, kn ** 2)) + \
        K.ifft2(w, K.fft2(w, dr + 1) * K.fft2(w, kr ** 2))
    E = (score_im / w.np.sqrt(V)).real
    # flux normalisation, zero point and the one unnormalised transform
    sf, ef = list(Sc.ravel()), list(E.ravel())
    scale = fd / zn / w.np.sqrt(w.np.sqrt(w.q(shape[0] * shape[1])))
    w.check_eq("S_corr equals the formula",
               w.np.array(sf), w.np.array([scale * e for e in ef]))


def jobs(tier):
    J = []
    cases = [((2, 2), ("rat", "rat2")), ((1, 4), ("imag", "rat1")),
             ((4, 1), ("col", "col2")), ((1, 2), ("uni", "uni"))]
    modes = [(True, True, False), (True, False, True), (False, False, False),
             (True, False, False), (False, True, False)]
    for m in modes:
        for sh, pk in cases:
            for score in (False, True):
                if tier == "quick" and not score and m != (True, False, True):
                    continue
                if not score and 4 in sh:
                    continue
                if score and pk[0] == "uni":
                    continue
                if score and sh == (2, 2) and m[1] and tier == "quick":
                    continue        # 4 free phases: thorough tier only
                J.append(Job(f"{'S' if score else 'P'}_{sh[0]}x{sh[1]}_"
                             f"{pk[0]}_{int(m[0])}{int(m[1])}{int(m[2])}",
                             scn, dict(shape=sh, psf=pk, mode=m,
                                       score=score),
                             budget=60 if tier == "quick" else 400))
    J.append(Job("S_masked", scn, dict(
        shape=(1, 2), psf=("half", "half2"), mode=(False, False, False),
        score=True, mask=True), max_paths=64))
    J.append(Job("S_negative", scn, dict(
        shape=(1, 2), psf=("half", "half2"), mode=(False, False, False),
        score=True, dlo=F(-3, 4)), max_paths=64))
    J.append(Job("S_fitted", scn, dict(
        shape=(2, 4), psf=("g", "g"), mode=(False, False, False),
        score=True, base="SingleImageGaussPSF")))
    return J
