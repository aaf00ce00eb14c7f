"""Mock PSFs, galaxies and coordinate products of the simulation tools."""
import math
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("PSFs of 4-9 pixels (7.5 too) with symbolic widths from 0.4 to 12 "
          "pixels, Airy patterns of 3-6 pixels and Sersic profiles of 4-7 "
          "pixels with symbolic width or index; products of 1-3 symbolic "
          "lists of up to 3 entries; convolutions of 3x4 with 3x3 pixels")
OUTSIDE = "rotated PSFs (spline rotation is third-party); larger arrays"


def profile(w, i, dx, dy):
    a, b = sorted((abs(dx), abs(dy)))
    return w.real(f"prof{i}_{a}_{b}".replace("/", "q"), F(1, 64), F(15, 16))


def scn_psf(w):
    w.env["gauss_profile"] = profile
    sm = w.mod("simtools")
    N = w.cfg["N"]
    X = w.real("X", *w.cfg["range"])
    n = int(N)
    args = (w.q(N) if isinstance(N, F) else N, X)
    if w.cfg["two"]:
        Y = w.real("Y", *w.cfg["range"])
        a = w.run("the PSF is made", lambda: sm.Psf(*args, Y))
        b = w.run("the PSF is made", lambda: sm.Psf(args[0], Y, X))
        for i, j in np.ndindex(n, n):
            w.check("exchanged widths give the transposed PSF",
                    near(w, a[i, j] - b[j, i]))
    elif w.cfg["fn"] == "Psf":
        a = w.run("the PSF is made", lambda: sm.Psf(*args))
    else:
        a = w.run("the PSF is made", lambda: sm.astropy_Psf(*args))
    props(w, a, n, True)
    if not w.cfg["two"]:
        for i, j in np.ndindex(n, n):
            w.check("equal widths give a PSF without preferred axis",
                    near(w, a[i, j] - a[j, i]))


def props(w, a, n, unit):
    w.check("the PSF has the size asked for", tuple(a.shape) == (n, n))
    if unit:
        w.check("the PSF sums to one", near(w, a.sum() - 1))
    for i, j in np.ndindex(n, n):
        w.check("the PSF is centred on the array (rows)",
                near(w, a[i, j] - a[n - 1 - i, j]))
        w.check("the PSF is centred on the array (columns)",
                near(w, a[i, j] - a[i, n - 1 - j]))
        w.check("no pixel is negative or undefined",
                w.all([w.not_(w.isnan(a[i, j])), a[i, j] >= 0]))


def near(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-6


def scn_peak(w):
    """Values fall from the centre; wide axis first."""
    sm = w.mod("simtools")
    n = w.cfg["N"]
    X = w.choice("X", (F(1), F(5, 2), F(6)))
    Y = w.choice("Y", (F(3, 2), F(4)))
    w.env["gauss_exact"] = lambda w, sx, sy, th, dx, dy: w.q(F(math.exp(
        -float(dx) ** 2 / 2 / float(w.conc(sx)) ** 2
        - float(dy) ** 2 / 2 / float(w.conc(sy)) ** 2)))
    a = sm.Psf(n, float(X), float(Y))
    b = sm.astropy_Psf(n, float(X))
    v = np.array([[float(w.conc(x)) for x in r] for r in a])
    u = np.array([[float(w.conc(x)) for x in r] for r in b])
    c = (n - 1) // 2
    for m in (v, u):
        for k in range(1, c + 1):
            w.check("the PSF falls from its centre",
                    m[c - k, c] <= m[c - k + 1, c] and
                    m[c, c - k] <= m[c, c - k + 1])
    for m, wx, wy in ((v, X, Y), (u, X, X)):
        for q, wd in ((m[c - 1, c], wx), (m[c, c - 1], wy)):
            s = wd / 2 / math.sqrt(2 * math.log(2))
            w.check("the widths are the full widths at half maximum",
                    abs(math.log(m[c, c] / q) * 2 * s * s - 1) < 0.05)
    w.check("the first width runs along the rows",
            (v[c - 1, c] > v[c, c - 1]) == (X > Y))


def scn_airy(w):
    sm = w.mod("simtools")
    n = w.cfg["N"]
    if w.cfg["fn"] == "airy":
        wd = w.real("width", F(1, 2), 8)
        a = w.run("the pattern is made", lambda: sm.airy_patron(n, wd))
        if n % 2:
            w.check("the peak is one", a[n // 2, n // 2] == 1)
    else:
        idx = w.real("n", F(1, 2), 8) if w.cfg["fn"] == "sersic" else 1
        a = w.run("the galaxy is made", lambda: sm.gal_sersic(n, idx))
    w.check("size", tuple(a.shape) == (n, n))
    for i, j in np.ndindex(n, n):
        w.check("symmetric about the centre",
                near(w, a[i, j] - a[n - 1 - i, j]))
        w.check("symmetric about the centre",
                near(w, a[i, j] - a[j, i]))
    if w.cfg["fn"] != "airy":
        for i in range(n):
            w.check("the galaxy reaches every edge it covers",
                    w.not_(a[n - 1, n // 2] == 0))


def scn_formula(w):
    """Every pixel of the pattern has the value of its profile."""
    sm = w.mod("simtools")
    n = w.cfg["N"]
    mu = F(n - 1, 2)
    if w.cfg["fn"] == "airy":
        wd = w.real("width", F(1, 2), 8)
        j1 = w.load().imp("scipy.special", fromlist=("j1",)).j1
        a = w.run("the pattern is made", lambda: sm.airy_patron(n, wd))
    else:
        k = w.choice("index", (1, 4, 0.5, 2))
        a = w.run("the galaxy is made", lambda: sm.gal_sersic(n, k))
    for i, j in np.ndindex(n, n):
        r2 = (i - mu) ** 2 + (j - mu) ** 2
        if w.cfg["fn"] == "airy":
            if r2 == 0:
                e = 1
            else:
                t = w.np.sqrt(w.q(r2)) / wd
                e = (2 * j1(t) / t) ** 2
            w.check_eq("the pattern follows the Airy profile", a[i, j], e)
        else:
            x = math.sqrt(r2) * 6 / (n - 1)
            v = float(w.conc(a[i, j]))
            e = math.exp(-(1.999 * k - 0.327) * x ** (1 / k)) if x else 1.0
            if x <= 4:
                w.check("the galaxy follows the Sersic profile",
                        abs(v - e) < 1e-6 * e)


def scn_prod(w):
    sm = w.mod("simtools")
    ls = [w.arr(f"a{i}", (m,), -8, 8) for i, m in enumerate(w.cfg["n"])]
    if w.cfg.get("ints"):
        ls[0] = w.np.arange(w.cfg["n"][0])
    got = w.run("the product is made", lambda: sm.cartesian_product(ls))
    idx = list(np.ndindex(*w.cfg["n"]))
    w.check("one row per combination", tuple(got.shape) ==
            (len(idx), len(ls)))
    for r, ix in enumerate(idx):
        for c, i in enumerate(ix):
            w.check("every combination once, last list fastest",
                    got[r, c] == ls[c][i])


def scn_conv(w):
    sm = w.mod("simtools")
    sh, ks = w.cfg["sh"], w.cfg["ks"]
    a = w.arr("gal", sh, -8, 8)
    k = w.const([[F(1 + 2 * i + j, 8) for j in range(ks[1])]
                 for i in range(ks[0])])
    k[0, 1] = w.real("k", F(1, 8), 2)
    got = w.run("convolution", lambda: sm.convol_gal_psf_fft(a, k))
    w.check("the galaxy's size", tuple(got.shape) == tuple(sh))
    c = ((ks[0] - 1) // 2, (ks[1] - 1) // 2)
    for y, x in np.ndindex(*sh):
        v = w.q(0)
        for i, j in np.ndindex(*ks):
            p, q = y + c[0] - i, x + c[1] - j
            if 0 <= p < sh[0] and 0 <= q < sh[1]:
                v = v + a[p, q] * k[i, j]
        w.check("convolution of galaxy and pattern", near(w, got[y, x] - v))


def jobs(tier):
    J = []
    for N in (4, 5, 7, 8, F(15, 2)) if tier == "quick" else (
            3, 4, 5, 6, 7, 8, 9, F(15, 2), F(25, 2)):
        for fn, two in (("Psf", 0), ("Psf", 1), ("astropy", 0)):
            if fn == "astropy" and isinstance(N, F) or (
                    two and N in (7, 8) and tier == "quick"):
                continue
            for r in ((F(2, 5), F(3, 2)), (F(3, 2), 12)):
                J.append(Job(f"psf_{fn}_{two}_{N}_{r[1]}", scn_psf, dict(
                    N=N, fn=fn, two=two, range=r), witness=3))
    for n in (5, 9):
        J.append(Job(f"peak_{n}", scn_peak, dict(N=n)))
    for n in (4, 5) if tier == "quick" else (3, 4, 5, 6, 7):
        for fn in ("airy", "sersic", "exp"):
            J.append(Job(f"{fn}_{n}", scn_airy, dict(N=n, fn=fn)))
    for n in (4, 5, 7):
        for fn in ("airy", "sersic"):
            J.append(Job(f"{fn}_values_{n}", scn_formula, dict(N=n, fn=fn)))
    for n in ((2,), (2, 3), (3, 1), (2, 2, 2)):
        J.append(Job(f"prod_{len(n)}_{n[-1]}", scn_prod, dict(n=n)))
    J.append(Job("prod_ints", scn_prod, dict(n=(3, 3), ints=1)))
    for ks in ((3, 3), (2, 3), (3, 2)):
        J.append(Job(f"conv_{ks[0]}{ks[1]}", scn_conv, dict(
            sh=(4, 3), ks=ks)))
    return J
