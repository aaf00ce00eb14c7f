"""The coadd does not depend on the number of workers nor on their order."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C01 as S
from checks import C06

BOUNDS = ("1-4 (5 and 8 in one completion order) images of 1x2, 2x2 or 2x3 "
          "symbolic pixels, 1..6 workers (more "
          "workers than images included), every completion order of the "
          "workers, symbolic masks; up to three workers of 1x2 pixel "
          "images, one of them interrupted at any of the first 60 lines of "
          "the package it executes (two of them in the thorough tier), with "
          "images listed once or several times")
OUTSIDE = ("interruptions within one line or inside library calls; more "
           "than two interruptions")


def scn(w):
    shape = tuple(w.cfg["shape"])
    n = w.cfg["n"]
    op = w.mod("operations")
    kinds = (["half", "half2"] * 5)[:n] if shape[0] == 1 else \
        (["rat", "rat2"] * 5)[:n]
    zps = [w.q(F(2 + k, 2)) for k in range(n)]
    w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
    w.env["order"] = not w.cfg.get("ordered")

    def mask(k):
        m = w.np.zeros(shape, dtype=bool)
        if w.cfg.get("mask") == "one":
            m[k % shape[0], k // shape[0] % shape[1]] = w.bool(
                f"m{k}") if k in (1, n - 1) else True
        elif w.cfg.get("mask"):
            m = w.mask(f"m{k}", shape)
        return m
    masks = [mask(k) for k in range(n)]
    C06.prescribe(w, zps)
    procs = w.choice("procs", w.cfg["procs"])
    out = []
    for p in (1, procs):
        ims = C06.build(w, shape, kinds, True, masks=masks)
        out.append(w.run("coadd returns", lambda: op.coadd(
            [i for i, _ in ims], align=False, n_procs=p)))
    (R1, P1, M1), (R2, P2, M2) = out
    w.check_eq("same R for any number of workers", R1, R2)
    w.check_eq("same P for any number of workers", P1, P2)

    def full(m):
        if getattr(m, "shape", ()) == ():
            return w.np.zeros(shape, dtype=bool)
        return m
    w.check_eq("same mask for any number of workers", full(M1), full(M2))
    if procs > 1:
        w.check("R has the images' shape",
                tuple(R2.shape) == shape and tuple(P2.shape) == shape)


def scn_interleave(w):
    """Workers interrupted anywhere, images listed more than once."""
    shape = tuple(w.cfg["shape"])
    idx = w.cfg["images"]
    op = w.mod("operations")
    n = max(idx) + 1
    zps = [w.q(F(2 + k, 2)) for k in idx]
    for a, k in enumerate(idx):
        zps[a] = zps[idx.index(k)]
    w.env["rms"] = lambda w, i: w.q(("3/4", "5/4", "1")[i % 3])
    w.env["order"] = True
    at = [w.choice(f"line{k}", list(range(*r)))
          for k, r in enumerate(w.cfg["lines"])]
    C06.prescribe(w, zps)
    out = []
    for p in (1, w.cfg["procs"]):
        kinds = (["rat", "rat2", "rat"] if 1 not in shape else
                 ["half", "half2", "half"])[:n]
        masks = [w.const([[(i + j + k) % 3 == 0 for j in range(shape[1])]
                          for i in range(shape[0])], bool)
                 for k in range(n)]
        ims = C06.build(w, shape, kinds, True, masks=masks,
                        var=w.cfg.get("var"))
        if w.cfg.get("used"):
            # computed before, with another zero point
            for im, _ in ims:
                im.zp = w.q("7/3")
                im.s_hat_comp
        if p > 1:
            w.env["preempt"] = at
        out.append(w.run("coadd returns", lambda: op.coadd(
            [ims[k][0] for k in idx], align=False, n_procs=p)))
        w.env.pop("preempt", None)
    (R1, P1, M1), (R2, P2, M2) = out
    w.check_eq("same R however the workers interleave", R1, R2)
    w.check_eq("same P however the workers interleave", P1, P2)
    w.check_eq("same mask however the workers interleave", M1, M2)


def jobs(tier):
    J = []
    T = tier != "quick"
    for nm, idx, procs, kw in (
            ("two", (0, 1), 2, {}), ("twice", (0, 0), 2, {}),
            ("used", (0, 0), 2, dict(used=1)),
            ("var", (0, 0), 2, dict(var=1)),
            ("three", (0, 1, 0), 2 if not T else 3, {})):
        for lo in range(0, 60, 20):
            J.append(Job(f"interleave_{nm}_{lo}", scn_interleave, dict(
                shape=(1, 2), images=idx, procs=procs,
                lines=[(lo, lo + 20)], **kw), max_paths=200, witness=3))
        if not T:
            continue
        for lo in range(0, 60, 12):
            for hi in range(0, 60, 12):
                J.append(Job(f"interleave_{nm}_{lo}_{hi}", scn_interleave,
                             dict(shape=(1, 2), images=idx, procs=procs,
                                  lines=[(lo, lo + 12, 2), (hi, hi + 12, 3)],
                                  **kw), max_paths=200, witness=2))
    for n in (1, 2, 3, 4):
        J.append(Job(f"procs_{n}", scn, dict(
            shape=(1, 2), n=n,
            procs=(2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6)),
            max_paths=200))
    J.append(Job("procs_mask", scn, dict(
        shape=(1, 2), n=2, procs=(2, 3), mask=True), max_paths=200))
    J.append(Job("procs_masks", scn, dict(
        shape=(2, 3), n=5, procs=(2, 3, 5), mask="one", ordered=1),
        max_paths=200))
    J.append(Job("procs_8", scn, dict(
        shape=(1, 2), n=8, procs=(2, 3), ordered=1), max_paths=200))
    J.append(Job("procs_2x2", scn, dict(shape=(2, 2), n=3, procs=(2, 3)),
                 max_paths=100))
    return J
