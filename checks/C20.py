"""Cleaning up: the star database of an image does not outlive its block."""
from fractions import Fraction as F

import os

from symx.core import Unsupported
from symx.drive import Job
from checks import common as K
from checks import C19

BOUNDS = ("one image with 0-3 measured stars (symbolic pixels in one stamp) "
          "and a second image measured at the same time; the block raises at "
          "any of five points or not at all; every removal may fail "
          "(symbolic faults); two images of one source of any kind; files "
          "removed beforehand; repeated cleaning")
OUTSIDE = ("images never cleaned nor used as context managers; several "
           "processes sharing one temporary folder")


class Boom(Exception):
    pass


def files(w):
    """Star database files in the scratch folder of the run."""
    out = set()
    for d, _, fs in os.walk(w.tmp()):
        out |= {os.path.join(d, f) for f in fs}
    return out


def build(w, sym=False, n=3):
    srcs = [(5, 6, 9), (9, 3, 8), (F(29, 4), F(11, 2), 7)]
    srcs = srcs[:n]
    I = C19.field(w, (12, 13), srcs, [(5, 5)] if sym else ())
    return C19.make(w, I, srcs)


def scn(w):
    sm = w.mod("single_image")
    faults = []

    def fails(w, n, p):
        b = w.bool(f"fault{n}") if w.cfg["faults"] else False
        b = bool(w.conc(b))
        faults.append((p, b))
        return b
    other = build(w, n=1)
    before0 = files(w)
    w.run("stars are measured", lambda: other.stamps_pos)
    mine0 = files(w)
    w.check("measuring stars makes a database", len(mine0) > len(before0))
    im = build(w, w.cfg["sym"], 2)
    stage = w.choice("stage", w.cfg["stages"])
    raises = w.choice("raises", (False, True))
    w.env["remove_fails"] = fails
    seen = None
    left = {}

    def body():
        with im as got:
            w.check("the block gets the image", got is im)
            if stage >= 1:
                im.best_sources
            if stage >= 2:
                im.stamps_pos
            if stage >= 3:
                im.cov_matrix
            left["f"] = files(w) - mine0
            if stage >= 2:
                w.check("the image has its own files", len(left["f"]) > 0)
            if stage == 4:
                for f in sorted(left["f"])[: w.cfg["gone"]]:
                    os.unlink(f)
            if raises:
                raise Boom("in the block")
    try:
        body()
    except (w_skip(), Unsupported):
        raise
    except Exception as e:
        seen = e
    if raises:
        w.check("the exception of the block comes through",
                isinstance(seen, Boom))
    else:
        w.check("leaving the block raises nothing", seen is None)
    stuck = {p for p, b in faults if b}
    now = files(w) - mine0
    w.check("nothing but files that cannot be removed is left", now <= stuck)
    w.check("files of other images stay", mine0 <= files(w))
    if now:
        w.reach("a removal failed")
    # a later attempt gets what is left, and is harmless when nothing is
    w.env["remove_fails"] = None
    for _ in range(2):
        w.run("cleaning again works", lambda: im._clean())
        w.check("cleaning again removes the rest", not (files(w) - mine0))
        w.check("files of other images stay", mine0 <= files(w))
    a = w.run("the other image still works",
              lambda: other.db.load(0)[0])
    w.check("the other image keeps its stars", tuple(a.shape) ==
            tuple(other.stamp_shape))


def w_skip():
    from symx.world import Skip
    return Skip


def scn_faults(w):
    """Measuring fails half way: still nothing is left behind."""
    sm = w.mod("single_image")
    srcs = [(5, 6, 9), (9, 3, 8), (F(29, 4), F(11, 2), 7)]
    base = files(w)
    I = C19.field(w, (12, 13), srcs)
    im = C19.make(w, I, srcs)
    point = w.choice("point", (1, 2, 3))
    n = [0]
    err = w.choice("error", (OSError, ValueError, MemoryError, KeyError))

    def interped(self):
        n[0] += 1
        if n[0] > 2 * point:
            raise err("while measuring")
        return I
    type(im).interped = property(interped)
    seen = None
    try:
        with im:
            im.stamps_pos
    except (w_skip(), Unsupported):
        raise
    except Exception as e:
        seen = e
    w.check("the error comes through", type(seen) is err)
    w.check("a half measured image leaves nothing", files(w) == base)


def scn_shared(w):
    """Two images of one and the same source keep to their own stars."""
    kind = w.choice("source", w.cfg["kinds"])
    srcs = [[(5, 6, 9), (9, 3, 8)], [(F(29, 4), F(11, 2), 7), (5, 6, 9),
                                     (3, 8, 8)]]
    I = [C19.field(w, (12, 13), s) for s in srcs]
    src = K.source(w, kind, w.np.ones((12, 13)))
    ims = [C19.make(w, i, s, src=src) for i, s in zip(I, srcs)]
    alone = [C19.make(w, i, s) for i, s in zip(I, srcs)]
    n = [len(a.stamps_pos) for a in alone]
    want = [[a.db.load(k)[0] * 1 for k in range(m)]
            for a, m in zip(alone, n)]
    first = w.choice("first", (0, 1))
    base = files(w)
    own = []
    for k in (first, 1 - first):
        f = files(w)
        w.run("stars are measured", lambda: ims[k].stamps_pos)
        own.append(files(w) - f)
        w.check("each image has its own files", len(own[-1]) > 0)

    def mine(k):
        w.check("number of stars", ims[k].n_sources == n[k])
        for j in range(n[k]):
            w.check_eq("each image loads its own stars", w.run(
                "stars are loaded", lambda: ims[k].db.load(j)[0]),
                want[k][j])
    mine(0)
    mine(1)
    k = w.choice("cleaned", (0, 1))
    with ims[k]:
        pass
    left = own[0] if k != first else own[1]
    w.check("the files of the other image stay", files(w) - base == left)
    mine(1 - k)
    w.check_eq("and serve it", w.run("the covariance is measured",
               lambda: ims[1 - k].cov_matrix), alone[1 - k].cov_matrix)


def jobs(tier):
    J = [Job("shared", scn_shared, dict(kinds=K.KINDS), witness=3)]
    for f in (False, True):
        J.append(Job(f"block_{int(f)}", scn, dict(
            faults=f, stages=(0, 1, 2, 3), gone=0, sym=0), max_paths=400,
            witness=3))
        for g in (1, 2):
            J.append(Job(f"gone{g}_{int(f)}", scn, dict(
                faults=f, stages=(4,), gone=g, sym=0), witness=3))
    J.append(Job("pixels", scn, dict(
        faults=False, stages=(2,), gone=0, sym=1), max_paths=20 if
        tier == "quick" else 600, witness=3))
    J.append(Job("half", scn_faults, {}, witness=3))
    return J
