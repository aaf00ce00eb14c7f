"""Star stamps: normalised cutouts of the image around their own source."""
from fractions import Fraction as F

import numpy as np

from symx.core import Unsupported
from symx.drive import Job
from checks import common as K

BOUNDS = ("12x13 interpolated images (16x16 with 21 sources for the strict "
          "selection), up to three symbolic pixels, 3-4 sources at "
          "positions by choice, also at the image edge and with fractional "
          "coordinates; stamps of 3x3 growing to 9x9")
OUTSIDE = ("which stars the strict selection rejects (heuristic); other stamp "
           "sizes")


def cutout(w, I, pos, shape, fill):
    """Pixels around pos, the fill value beyond the edges."""
    out = np.empty(shape, object)
    y0 = int(np.ceil(pos[0] - shape[0] / 2))
    x0 = int(np.ceil(pos[1] - shape[1] / 2))
    for i, j in np.ndindex(*shape):
        y, x = y0 + i, x0 + j
        inside = 0 <= y < I.shape[0] and 0 <= x < I.shape[1]
        out[i, j] = I[y, x] if inside else fill
    return out


def check_stamps(w, im, I, rms, n_max, shape):
    pos = w.run("stamps are measured", lambda: im.stamps_pos)
    n = w.run("number of sources", lambda: im.n_sources)
    w.check("one position per stamp", len(pos) == n <= n_max)
    sh = tuple(im.stamp_shape)
    w.check("padded stamp size", sh == (shape[0] + 6, shape[1] + 6))
    P = []
    for i in range(n):
        p = (float(w.conc(pos[i][0])), float(w.conc(pos[i][1])))
        P.append(p)
        S = w.run("the stamp is stored", lambda: im.db.load(i)[0])
        w.check("stamp has the stamp size", tuple(S.shape) == sh)
        w.check("stamp sums to one", abs_le(w, S.sum() - 1))
        C = cutout(w, I, p, sh, rms)
        s = list(S.ravel())
        c = list(C.ravel())
        # affine: pairs of pixels keep their contrast
        a = max(range(len(c)), key=lambda k: rank(w, c[k]))
        b = min(range(len(c)), key=lambda k: rank(w, c[k]))
        for k in range(len(c)):
            w.check("stamp shows the pixels around its source", abs_le(
                w, (s[k] - s[b]) * (c[a] - c[b]) -
                (s[a] - s[b]) * (c[k] - c[b])))
    return P


def rank(w, v):
    try:
        return float(v)
    except (Unsupported, TypeError, ValueError):
        return 0.0


def abs_le(w, d):
    if w.sym:
        return d == 0
    return abs(complex(d)) < 1e-4


def field(w, shape, srcs, sym=()):
    I = np.empty(shape, object)
    for y, x in np.ndindex(*shape):
        v = F((7 * y + 3 * x) % 5, 8)
        for sy, sx, fl in srcs:
            d = abs(y - round(sy)) + abs(x - round(sx))
            v += F(fl, 2 ** d) if d < 5 else 0
        I[y, x] = v
    for n, p in enumerate(sym):
        I[tuple(p)] = w.real(f"pix{n}", 1, 4)
    return w.const(I.tolist()) if not sym else w.np.array(
        [[w.q(v) if isinstance(v, F) else v for v in r] for r in I.tolist()])


def make(w, I, srcs, strict=False, shape=(3, 3), src=None):
    w.env["rms"] = lambda w, i: w.q("1/2")
    cat = K.catalog(w, "s", [w.q(F(s[1])) for s in srcs],
                    [w.q(F(s[0])) for s in srcs],
                    [w.q(s[2]) for s in srcs])
    si = w.mod("single_image")

    class Img(si.SingleImage):
        interped = property(lambda self: I)
    im = Img(w.np.ones(tuple(I.shape)) if src is None else src,
             strict_star_pick=strict,
             stamp_shape=shape)
    im.update_sources(cat)
    return im


def scn_plain(w):
    shape = tuple(w.cfg["shape"])
    srcs = [(5, 6, 9), (w.choice("y", (2, 0, 11)), w.choice("x", (12, 3)), 8),
            (F(29, 4), F(11, 2), 7)][: w.cfg["n"]]
    I = field(w, shape, srcs, w.cfg["sym"])
    if w.cfg.get("bright"):
        # all pixels of the image above the value beyond its edges
        I = I + w.q(2)
    im = make(w, I, srcs, shape=tuple(w.cfg["stamp"]))
    P = check_stamps(w, im, I, w.q("1/2"), len(srcs), w.cfg["stamp"])
    w.check("every source has its stamp, in order",
            P == [(float(a), float(b)) for a, b, _ in srcs])


def scn_strict(w):
    """Rejected stars leave no trace in stamps, positions and sources."""
    g = w.cfg["grid"]
    srcs = [(4 + g * (i // 6) + i % 2, 5 + g * (i % 6), 6 + i % 3)
            for i in range(w.cfg["n"])]
    shape = (6 + g * (w.cfg["n"] // 6), 5 + 6 * g)
    bad = [w.choice("bad", tuple(range(0, len(srcs), 5))), 7]
    I = field(w, shape, srcs)
    for b in bad:
        y, x, f = srcs[b]
        I[min(y + 4, shape[0] - 1), x] = w.q(300)
    im = make(w, I, srcs, strict=True)
    w.env["scs"] = lambda w, i, d: (w.q(0), w.q(0), w.q(1))
    P = check_stamps_pos(w, im, len(srcs)) if w.cfg.get("alone") else \
        check_stamps(w, im, I, w.q("1/2"), len(srcs), (3, 3))
    all_ = [(float(a), float(b)) for a, b, _ in srcs]
    if w.cfg.get("alone"):
        # the same field without the defects: stars away from them get the
        # same verdict
        im2 = make(w, field(w, shape, srcs), srcs, strict=True)
        P2 = [(float(w.conc(p[0])), float(w.conc(p[1])))
              for p in im2.stamps_pos]
        for i, p in enumerate(all_):
            if not {i, i - 6, i + 6} & set(bad):
                w.check("rejected stars do not take others along",
                        (p in P) == (p in P2))
    it = iter(all_)
    w.check("stamps follow the order of the sources",
            all(p in it for p in P))
    left = [(float(w.conc(r["y"])), float(w.conc(r["x"])))
            for r in im.best_sources]
    w.event("n", n=len(P))
    if len(P) < len(all_):
        w.reach("some star is rejected")
    if len(P) >= 15:
        w.check("rejected stars leave the selection", left == P)
    else:
        w.check("the selection is kept whole", left == all_)


def scn_nan(w):
    """Stars with undefined pixels go, all others stay."""
    n, g = w.cfg["n"], 7
    srcs = [(4 + g * (i // 6) + i % 2, 5 + g * (i % 6), 6 + i % 3)
            for i in range(n)]
    shape = (6 + g * ((n + 5) // 6), 5 + 6 * g)
    I = field(w, shape, srcs)
    gone = [i for i in w.cfg["bad"] if w.choice(f"bad{i}", (0, 1))]
    for i in gone:
        I[srcs[i][0], srcs[i][1] + 1] = w.q(1) * w.np.nan
    im = make(w, I, srcs)
    P = check_stamps_pos(w, im, n)
    all_ = [(float(a), float(b)) for a, b, _ in srcs]
    keep = [p for i, p in enumerate(all_) if i not in gone]
    w.check("exactly the stars without undefined pixels are measured",
            P == keep)
    left = [(float(w.conc(r["y"])), float(w.conc(r["x"])))
            for r in im.best_sources]
    w.check("rejected stars leave the selection when 15 are left",
            left == (keep if len(keep) >= 15 else all_))
    for k, p in enumerate(P):
        S = im.db.load(k)[0]
        C = cutout(w, I, p, tuple(S.shape), w.q("1/2"))
        y, x = np.unravel_index(int(np.argmax(
            [float(w.conc(v)) for v in S.ravel()])), tuple(S.shape))
        ref = [float(w.conc(v)) for v in C.ravel()]
        w.check("stamps stay with their stars",
                ref[y * S.shape[1] + x] == max(v for v in ref if v == v))


def check_stamps_pos(w, im, n):
    pos = w.run("stamps are measured", lambda: im.stamps_pos)
    w.check("one position per stamp", len(pos) == im.n_sources <= n)
    return [(float(w.conc(p[0])), float(w.conc(p[1]))) for p in pos]


def scn_default(w):
    """Without a shape asked for, stamps are odd squares that fit the
    sources."""
    m = w.mod("single_image")
    n = w.int("npix", 1, w.cfg["max"])
    big = w.int("big", w.cfg["max"], 900)
    cat = K.catalog(w, "", [3, 5, 7, 9, 11], [4, 6, 8, 10, 5],
                    [10, 30, 20, 25, 15], npix=[n, 1, n, big, n])
    C = K.image_class(w)
    C.spec = {"sources": cat}
    im = w.run("the image is made", lambda: C(w.np.ones((12, 13))))
    sh = tuple(im.stamp_shape)
    w.check("the default stamp is square", len(sh) == 2 and sh[0] == sh[1])
    k = int(w.conc(sh[0]))
    w.check("the default stamp has a central pixel", k % 2 == 1)
    # three times the root of the 65th percentile of the sources' areas
    w.check("the default stamp holds the sources", w.any(
        [k == 5, 9 * n < (k + 1) ** 2]))
    w.check("the default stamp is no larger than needed", w.any(
        [k == 5, 9 * n >= (k - 1) ** 2]))
    w.check("the default stamp is at least five pixels wide", k >= 5)
    w.check("five pixels are for small sources", w.any(
        [k > 5, 9 * n < 36]))


def jobs(tier):
    J = [Job("default_shape", scn_default,
             dict(max=40 if tier == "quick" else 200), witness=6)]
    for n, bad in ((18, (0, 4, 17)), (16, (3, 4)), (8, (0, 5))):
        J.append(Job(f"undefined_{n}", scn_nan, dict(n=n, bad=bad),
                     witness=2))
    J.append(Job("strict_alone", scn_strict, dict(n=21, grid=8, alone=1),
                 witness=2))
    for st in ((3, 3), (5, 5)) if tier == "quick" else (
            (3, 3), (5, 5), (3, 5), (7, 7)):
        for n in (2, 3):
            J.append(Job(f"plain_{st[0]}{st[1]}_{n}", scn_plain, dict(
                shape=(12, 13), stamp=st, n=n, sym=[]), witness=3))
    for st in ((5, 5), (5, 3)):
        J.append(Job(f"bright_{st[0]}{st[1]}", scn_plain, dict(
            shape=(12, 13), stamp=st, n=2, sym=[], bright=1), witness=3))
    J.append(Job("sym", scn_plain, dict(shape=(12, 13), stamp=(3, 3), n=2,
                                        sym=[(5, 5)]), witness=3,
                 max_paths=250 if tier == "quick" else 600))
    for n, g in ((21, 8), (23, 4), (26, 8), (18, 8)):
        J.append(Job(f"strict_{n}", scn_strict, dict(n=n, grid=g),
                     witness=2))
    return J
