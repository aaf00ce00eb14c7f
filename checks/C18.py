"""Source selection: fallbacks of the extraction and quality cuts."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K

BOUNDS = ("up to four extraction attempts, each failing or returning 0-7 "
          "sources by choice; 6 sources of which two have symbolic size, "
          "flux and flag; catalogues of 1802-1804 sources; what is "
          "searched and how deep for images of 3x4 symbolic pixels")
OUTSIDE = "what the extraction itself finds (sep)"


def table(w, n, tag=0):
    return w.catalog({
        "x": w.np.array([w.q(i + 1) for i in range(n)]),
        "y": w.np.array([w.q(2 * i + 1) for i in range(n)]),
        "flux": w.np.array([w.q((7 * i) % 5 + 1) for i in range(n)]),
        "npix": w.np.array([9 + (5 * i) % 7 for i in range(n)]),
        "flag": w.np.array([0 for i in range(n)]),
        "tag": w.np.array([tag for i in range(n)])})


def image(w, **kw):
    si = w.mod("single_image")
    w.env["rms"] = lambda w, i: w.q(1)
    kw.setdefault("stamp_shape", (3, 3))
    return si.SingleImage(w.np.ones((4, 4)), **kw)


def scn_fallback(w):
    """Faults of the extraction at any attempt."""
    im = image(w, min_sources=w.cfg["min"])
    tries = []

    def extract(n, data, thresh, mask, minarea):
        o = w.choice(f"attempt{len(tries)}", w.cfg["outcomes"])
        tries.append(o)
        w.assume(len(tries) <= 4)
        if o == "fail":
            raise Exception("internal pixel buffer full")
        return table(w, o, len(tries))
    w.env["extract"] = extract
    w.env["scs"] = lambda w, i, d: (w.real("mean", -5, 70000),
                                 w.real("median", -5, 5),
                                 w.real("std", 0, 5))
    try:
        got = im.best_sources
        err = None
    except Exception as e:
        got, err = None, e
    done = [t for t in tries if t != "fail"]
    best = max(done) if done else None
    w.check("an extraction is attempted", len(tries) >= 1)
    if err is not None:
        ok = isinstance(err, ValueError)
        if ok:
            w.check("ValueError only with less than two sources",
                    best is not None and best < 2)
        else:
            w.check("errors only when extraction fails twice in a row",
                    tries[-2:] == ["fail", "fail"])
        return
    w.check("less than two sources are refused", best >= 2)
    # the catalogues here have no flags and pass the cuts or are too few
    first = done[0]
    w.check("a failed extraction is retried", len(tries) > 1 or
            tries[0] != "fail")
    if first < w.cfg["min"]:
        w.check("too few sources make it look deeper", len(tries) >= 2)
    else:
        w.check("enough sources end the search", done == [first])
    n = {float(w.conc(t)) for t in got["tag"]}
    w.check("one catalogue is used", len(n) == 1)
    src = tries[int(n.pop()) - 1]
    w.check("the longest catalogue is used", src == best)
    w.check("sources are not lost", len(got) <= best and
            (len(got) == best or len(got) >= 5))
    again = im.best_sources
    w.check("the selection is stable", len(again) == len(got))


def scn_cuts(w):
    """Size, flux and flag cuts."""
    n = w.cfg["n"]
    im = image(w, min_sources=1)
    t = table(w, n, 1)
    npix = [9 + (5 * i) % 7 for i in range(n)]
    flux = [w.q((7 * i) % 5 + 1) for i in range(n)]
    flag = [0] * n
    k = w.cfg["sym"]
    if "npix" in k:
        npix[1] = w.int("npix", 5, 40)
    if "flux" in k:
        flux[2] = w.real("flux", F(1, 2), 9)
    if "flag" in k:
        for i in (0, 3, n - 1):
            flag[i] = w.choice(f"flag{i}", (0, 1, 2))
    t = w.catalog({"x": t["x"], "y": t["y"], "flux": w.np.array(flux),
                   "npix": w.np.array(npix), "flag": w.np.array(flag)})
    w.env["extract"] = lambda *a: t.copy()
    got = w.run("sources are selected", lambda: im.best_sources)
    lo, hi = w.np.percentile(t["npix"], q=[20, 80])
    fl, fh = w.np.percentile(t["flux"], q=[15, 85])
    keep = []
    for i in range(n):
        good = w.conc(w.all([npix[i] >= lo, npix[i] <= hi, flux[i] >= fl,
                             flux[i] <= fh, flag[i] == 0]))
        if good:
            keep.append(i)
    if len(keep) < 5:
        keep = list(range(n))
    w.check("number of selected sources", len(got) == len(keep))
    for j, i in enumerate(keep):
        for c, v in (("flux", flux), ("npix", npix), ("flag", flag)):
            w.check("exactly the sources passing the cuts, complete",
                    got[c][j] == v[i])
        w.check("positions are kept", got["x"][j] == t["x"][i])
        w.check("positions are kept", got["y"][j] == t["y"][i])


def scn_many(w):
    n = w.cfg["n"]
    im = image(w, min_sources=1)
    w.env["extract"] = lambda *a: w.catalog({
        "x": w.np.array([w.q(i) for i in range(n)]),
        "y": w.np.array([w.q(i) for i in range(n)]),
        "flux": w.np.array([w.q(1)] * n), "npix": w.np.array([9] * n),
        "flag": w.np.array([0] * n)})

    def pick(w, a, size, replace):
        # an arbitrary distinct selection if so asked, else all the same
        start = w.choice("start", (0, 2))
        size = int(size)
        return w.np.array([(start + i * (not replace)) % int(a)
                           for i in range(size)])
    w.env["rng_choice"] = pick
    got = w.run("sources are selected", lambda: im.best_sources)
    xs = [float(w.conc(x)) for x in got["x"]]
    w.check("no more than 1800 sources", len(xs) == min(n, 1800))
    w.check("no source is selected twice", len(set(xs)) == len(xs))


def scn_update_many(w):
    """A catalogue given is used whole, however long."""
    n = w.cfg["n"]
    im = image(w, min_sources=1)
    w.env["extract"] = lambda *a: table(w, 3, 1)
    new = w.catalog({
        "x": w.np.array([w.q(i) for i in range(n)]),
        "y": w.np.array([w.q(i) for i in range(n)]),
        "flux": w.np.array([w.q(1)] * n), "npix": w.np.array([9] * n),
        "flag": w.np.array([0] * n)})
    w.run("sources are replaced", lambda: im.update_sources(new))
    got = im.best_sources
    w.check("the given sources are used",
            [float(w.conc(x)) for x in got["x"]] == [float(i) for i in
                                                     range(n)])


def scn_update(w):
    """update_sources replaces the selection, or measures it anew."""
    im = image(w, min_sources=1)
    calls = []

    def extract(*a):
        calls.append(1)
        return table(w, 3, len(calls))
    w.env["extract"] = extract
    if w.cfg["before"]:
        im.best_sources
    new = table(w, 4, 77)
    w.run("sources are replaced", lambda: im.update_sources(new))
    got = im.best_sources
    w.check("the given sources are used", len(got) == 4 and
            bool(w.conc(w.all([t == 77 for t in got["tag"]]))))
    n = len(calls)
    im._n_sources = 3
    w.run("sources are measured again", lambda: im.update_sources())
    got = im.best_sources
    w.check("measured again", len(calls) == n + 1 and len(got) == 3)


def scn_args(w):
    """What is searched, and how deep, in each attempt."""
    outcomes = w.cfg["outcomes"]
    si = w.mod("single_image")
    seen = []
    for rms in (F(1), w.choice("rms", (F(5, 2), F(1, 8)))):
        I = w.arr("pix", (3, 4), 1, 9)
        back = w.const([[F(1 + (i + 2 * j) % 3, 4) for j in range(4)]
                        for i in range(3)])
        m = np.zeros((3, 4), bool)
        if w.cfg["mask"]:
            m[1, 2] = True
        w.env["rms"] = lambda w, i, r=rms: w.q(r)
        w.env["back"] = lambda w, i, sh: back * 1
        calls = []

        def extract(n, data, thresh, mask, minarea):
            o = outcomes[len(calls)]
            D = w.np.asarray(w.np.ma.getdata(data))
            for i in range(3):
                for j in range(4):
                    if not m[i, j]:
                        w.check("the search is of the image without its "
                                "background", D[i, j] == I[i, j] -
                                back[i, j])
            M = w.const(m * 0) if mask is None else w.np.asarray(mask)
            w.check_eq("masked pixels are not searched", M * 1,
                       w.np.asarray(im.mask) * 1)
            calls.append(thresh)
            if o == "fail":
                raise Exception("internal pixel buffer full")
            return table(w, o, len(calls))
        im = si.SingleImage(I, mask=w.const(m), min_sources=3,
                            stamp_shape=(3, 3))
        w.env["extract"] = extract
        w.run("sources are selected", lambda: im.best_sources)
        w.check("number of attempts", len(calls) == len(outcomes))
        for t in calls:
            w.check("thresholds are positive", t > 0)
        for k in range(1, len(calls)):
            if outcomes[0] == "fail" and k == 1:
                w.check("a failed search is repeated with a higher "
                        "threshold", calls[1] > calls[0])
            else:
                w.check("too few sources make it search deeper",
                        calls[k] < calls[0])
        seen.append((rms, calls))
    (r0, a), (r1, b) = seen
    for s, t in zip(a, b):
        w.check("thresholds are multiples of the noise",
                t * w.q(r0) == s * w.q(r1))


def scn_limit_after_cuts(w):
    """The limit is on the sources selected, not on those found."""
    n = 1804
    im = image(w, min_sources=1)
    big = w.choice("ends", (4, 40))
    npix = [9] * (n - 2 * big) + [5] * big + [50] * big
    w.env["extract"] = lambda *a: w.catalog({
        "x": w.np.array([w.q(i) for i in range(n)]),
        "y": w.np.array([w.q(i) for i in range(n)]),
        "flux": w.np.array([w.q(1)] * n), "npix": w.np.array(npix),
        "flag": w.np.array([0] * n)})
    w.env["rng_choice"] = lambda w, a, size, replace: w.np.array(
        [i % int(a) for i in range(int(size))])
    got = w.run("sources are selected", lambda: im.best_sources)
    xs = sorted(float(w.conc(x)) for x in got["x"])
    w.check("all and only the sources passing the cuts",
            xs == [float(i) for i in range(n - 2 * big)])


def jobs(tier):
    J = []
    for oc in ([4], ["fail", 4], [2, 5], [2, "fail", 5],
               ["fail", 2, 5], ["fail", 2, "fail", 5]):
        for m in (0, 1):
            J.append(Job(f"args_{'_'.join(map(str, oc))}_{m}", scn_args,
                         dict(outcomes=oc, mask=m)))
    J.append(Job("limit_after_cuts", scn_limit_after_cuts, {}))
    for mn in (1, 3, 20):
        J.append(Job(f"fallback_{mn}", scn_fallback, dict(
            min=mn, outcomes=["fail", 0, 1, 2, 4, 7]), max_paths=2000))
    for sym in (("npix",), ("flux",), ("flag",), ("npix", "flag")):
        for n in (6, 9):
            J.append(Job(f"cuts_{'_'.join(sym)}_{n}", scn_cuts, dict(
                n=n, sym=sym), max_paths=400))
    for n in (1799, 1802):
        J.append(Job(f"many_{n}", scn_many, dict(n=n), witness=1))
    for b in (0, 1):
        J.append(Job(f"update_{b}", scn_update, dict(before=b)))
    J.append(Job("update_many", scn_update_many, dict(n=1802), witness=1))
    return J
