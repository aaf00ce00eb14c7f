"""Simulated exposures: their composition, reproducibility and storage."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("master images of 3x3 and 5x5 pixels with symbolic fluxes, "
          "symbolic signal to noise, bias and standard deviation, both noise "
          "kinds, any seed in {0, 1, 7, none} after any number of earlier "
          "draws; four-quadrant frames of 2x(32..48) pixels with symbolic "
          "star positions; five epochs")
OUTSIDE = ("the distribution of the random draws (numpy); rotated PSFs are "
           "taken as the library's spline rotation gives them")


def near(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-5


def eqa(w, label, a, b):
    a, b = w.np.asarray(a), w.np.asarray(b)
    w.check(label, tuple(a.shape) == tuple(b.shape))
    for i in np.ndindex(*a.shape):
        w.check(label, near(w, a[i] - b[i]))


def kernel(w):
    """A prescribed narrow PSF (its own properties are checked apart)."""
    sm = w.mod("simtools")
    calls = []

    def psf(N, X_FWHM, Y_FWHM=0, theta=0):
        calls.append((N, X_FWHM, Y_FWHM, theta))
        return w.const([[F(1, 16), F(1, 8), F(1, 16)],
                        [F(1, 8), F(1, 4), F(1, 8)],
                        [F(1, 16), F(1, 8), F(1, 16)]])
    sm.Psf = psf
    return calls


def master(w, shape):
    # one brightest pixel, so that the maximum is known
    m = w.arr("mf", shape, 0, 1)
    m[tuple(w.choice("at", ((shape[0] // 2, shape[1] // 2), (0, 1),
                            (shape[0] - 1, 0))))] = w.real("peak", 60, 90)
    return m


def scn_image(w):
    sm = w.mod("simtools")
    shape = (w.cfg["N"],) * 2
    calls = kernel(w)
    MF = master(w, shape)
    X, Y = w.q(w.choice("X", (F(2), F(5, 2)))), w.q(w.choice(
        "Y", (F(0), F(3))))
    th = w.choice("theta", (0, 30))
    SN = w.real("SN", F(1, 2), 50)
    kw = dict(Y_FWHM=Y, theta=th, seed=w.choice("seed", w.cfg["seeds"]))
    bias = w.q(100)
    if w.cfg["bias"]:
        bias = kw["bias"] = w.real("bias", -50, 500)
    gauss = w.cfg["pdf"] == "gaussian"
    if w.cfg["pdf"]:
        kw["bkg_pdf"] = w.cfg["pdf"]
    std = None
    if w.cfg["std"] == "sym":
        std = kw["std"] = w.real("std", F(1, 16), 9)
    elif w.cfg["std"] == 0:
        std = kw["std"] = 0.0
    M0 = MF * 1
    got = w.run("the image is made", lambda: sm.image(
        MF, w.cfg["N"], 1, X, SN, **kw))
    w.check_eq("the master image stays", MF, M0)
    sky = sm.convol_gal_psf_fft(MF, sm.Psf(3, 1))
    w.check("one PSF, of the widths and angle asked for", len(calls) == 2)
    n, x, y, t = calls[0]
    w.check("one PSF, of the widths and angle asked for", w.all([
        x == X, y == Y, t == th]))
    w.check("the PSF array holds five times the width", w.conc(
        n) >= 5 * max(w.conc(X), w.conc(Y)))
    dr = w.evs("draw")
    w.check("one random draw", len(dr) == 1)
    dr = dr[0]
    w.check("one draw per pixel", tuple(int(w.conc(k)) for k in
                                        dr["size"]) == shape)
    w.check("the kind of noise asked for", dr["kind"] == (
        "normal" if gauss else "poisson"))
    peak = sky[0, 0]
    for i in np.ndindex(*shape):
        peak = w.ite(sky[i] > peak, sky[i], peak)
    if not gauss:
        w.check("mean of the Poisson sky is the peak over the S/N",
                near(w, dr["args"][0] * SN - peak))
        C = draws(w, 0, shape, 0, 64)
    else:
        Z = draws(w, 0, shape, -4, 4)
        C = Z * (std if std is not None else peak / SN)
    eqa(w, "image = convolved sources + noise + bias", got, C + sky + bias)


def draws(w, i, shape, lo, hi):
    return w.arr(f"rng{i}", shape, lo, hi)


def scn_seed(w):
    """Same seed, same exposure; no seed, fresh noise."""
    sm = w.mod("simtools")
    shape = (3, 3)
    kernel(w)
    MF = w.const([[0, 1, 0], [2, 9, 0], [0, 0, 3]])
    pdf = w.cfg["pdf"]

    def img(seed, k=0):
        return sm.image(MF, 3, 1, w.q(1), w.q(3), bkg_pdf=pdf, seed=seed,
                        std=w.q(2))
    s = w.choice("seed", (0, 1, 7))
    a = w.run("the image is made", lambda: img(s))
    for k in range(w.choice("between", (0, 1, 2))):
        img(w.choice(f"b{k}", (None, 0, 1, 5)))
    if w.choice("global", (False, True)):
        w.np.random.seed(3) if w.sym else w.load().imp(
            "numpy").random.seed(3)
    b = w.run("the image is made", lambda: img(s))
    eqa(w, "the same seed gives the same image", a, b)
    n0 = len(w.evs("draw"))
    un = []
    for k in (None, None, s + 1, None):
        img(k)
        e = w.evs("draw")[-1]
        un.append((e["stream"], e["pos"]))
    first = w.evs("draw")[0]
    w.check("another seed is another stream", un.pop(2) !=
            (first["stream"], first["pos"]))
    w.check("without seed the noise is never repeated", len(set(un)) == 3)


def scn_frame(w):
    """Four quadrants, one PSF angle each."""
    sm = w.mod("simtools")
    N, n = w.cfg["N"], w.cfg["n"]
    thetas = w.cfg["thetas"]
    calls = []

    def image(MF, N_, t_exp, X_FWHM, SN, Y_FWHM=0, theta=0,
              bkg_pdf="poisson", std=None, seed=None, bias=100.0):
        calls.append(dict(MF=MF, N=N_, X=X_FWHM, Y=Y_FWHM, th=theta,
                          SN=SN, pdf=bkg_pdf, seed=seed, bias=bias))
        return MF * 1 + len(calls) * 16384
    sm.image = image
    kw = dict(N=N, seed=w.choice("seed", (0, 5)))
    SN = w.real("SN", 1, 90)
    # stars of one quadrant on different rows
    fw = [3 * (5 + 5 * t / 180) for t in thetas]
    for k in range(4):
        r = w.arr(f"rng{2 * k}", (n // 4,), int(fw[k]),
                  int(np.ceil(N - fw[k])) - 1, "i8", kind="i")
        for a in range(n // 4):
            for b in range(a):
                w.assume(r[a] != r[b])
    if w.cfg["args"]:
        kw.update(SN=SN, thetas=list(thetas))
    fr = w.run("the frame is made", lambda: sm.sim_varpsf(n, **kw))
    if not w.cfg["args"]:
        thetas, SN = (0, 45, 105, 150), w.q(30)
    w.check("frame size", tuple(fr.shape) == (2 * N, 2 * N))
    w.check("four quadrants", len(calls) == 4)
    want = np.linspace(100, 10000, n // 4) if n // 4 else []
    for k, c in enumerate(calls):
        w.check("the angles asked for, in order", c["th"] == thetas[k])
        w.check("signal to noise is handed on", c["SN"] == SN)
        w.check("the seed is handed on", c["seed"] == kw["seed"])
        w.check("quadrant size", c["N"] == N)
        w.check("gaussian sky", c["pdf"] == "gaussian")
        w.check("the PSF widens with its angle", w.all([
            near(w, c["X"] - (5 + 5 * F(thetas[k], 180) if w.sym else
                              5 + 5 * thetas[k] / 180)), c["Y"] == 5]))
        q = w.np.asarray(c["MF"])
        # quadrants run down the columns
        i, j = k % 2, k // 2
        part = fr[i * N:(i + 1) * N, j * N:(j + 1) * N]
        off = part[0, 0]
        stars = []
        w.check_eq("each quadrant shows its own stars", part - off, q)
        for p in np.ndindex(N, N):
            v = q[p]
            if w.conc(v != 0):
                stars.append((p, v))
        w.check("quadrants are laid out in order", w.all([
            off >= (k + 1) * 16384, off < (k + 1) * 16384 + 8192]))
        w.check("as many stars as fit in a quarter, away from the edges",
                len(stars) == n // 4 and all(
                    15 <= p[0] <= N - 15 and 15 <= p[1] <= N - 15
                    for p, _ in stars))
        vals = sorted(float(w.conc(v)) for _, v in stars)
        w.check("fluxes run from 100 to 10000", len(vals) == len(want) and
                np.allclose(vals, want))


def scn_store(w):
    sm = w.mod("simtools")
    a = w.arr("I", (3, 4), -9, 99)
    jd = w.choice("jd", (2451545.0, 2458849.75, 2459000.123456))
    i = w.choice("i", (0, 3, 12))
    zero = w.choice("zero", (0.0, 25.5, 24.98765))
    texp = w.choice("texp", (1, 60.5))
    d = w.tmp()
    import os
    sub = os.path.join(d, "out")
    os.makedirs(sub, exist_ok=True)
    t = jd
    from astropy.time import Time
    ref = Time(jd, format="jd", scale="utc")
    if w.cfg["kind"] == "time":
        t = ref
    for _ in range(w.cfg["times"]):
        p = w.run("the image is stored", lambda: sm.store_fits(
            a, t, texp, i, zero, path=sub))
    w.check("file name", os.path.abspath(p) == os.path.join(
        os.path.abspath(sub), f"image00{i}.fits"))
    f = w.load().imp("astropy.io.fits", fromlist=("open",))
    got = f.getdata(p)
    h = f.getheader(p)
    w.check_eq("pixels are stored", w.np.asarray(got).astype(float), a)
    iso = ref.iso
    w.check("date and time", h["DATE-OBS"] == iso[:10] and
            h["TIME-OBS"] == iso[11:24])
    w.check("epoch, exposure and zero point", h["JD"] == ref.jd and
            h["EXPTIME"] == texp and h["ZERO_P"] == zero)


def jobs(tier):
    J = []
    for pdf, std in ((None, None), ("poisson", "sym"), ("gaussian", None),
                     ("gaussian", "sym"), ("gaussian", 0)):
        for N in (3,) if tier == "quick" else (3, 5):
            for b in (0, 1):
                J.append(Job(f"image_{pdf}_{std}_{N}_{b}", scn_image, dict(
                    pdf=pdf, std=std, N=N, bias=b, seeds=(
                        0, 7, None)), witness=3))
    for pdf in ("poisson", "gaussian"):
        J.append(Job(f"seed_{pdf}", scn_seed, dict(pdf=pdf), witness=4))
    J.append(Job("frame_args", scn_frame, dict(
        N=32, n=4, thetas=(0, 0, 0, 0), args=1), witness=2,
        max_paths=10 if tier == "quick" else 300))
    J.append(Job("frame_angles", scn_frame, dict(
        N=34, n=9, thetas=(0, 12, 6, 18), args=1), witness=2, max_paths=6))
    for k, t in (("jd", 1), ("time", 2)):
        J.append(Job(f"store_{k}", scn_store, dict(kind=k, times=t),
                     witness=3, max_paths=40))
    return J
