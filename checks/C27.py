"""Plots show the data they announce, each component on its own axes."""
from fractions import Fraction as F

import numpy as np

from symx.drive import Job
from checks import common as K
from checks import C10

BOUNDS = ("any number of PSF components from 1 to 12 (thorough: 60), square "
          "and oblong stamps, axes made by the plot or given (as a list, a "
          "grid, a single one, exactly enough, more, too few); symbolic "
          "pixels; every name of up to 12 characters in a list of plot "
          "names for the dispatch")
OUTSIDE = "what matplotlib draws; figure sizes"


def image(w, n, shape=(4, 5), stamp=(3, 3), base="SingleImage"):
    """An image with a PSF of n components and its coefficient fields."""
    C = K.image_class(w, base)
    basis = [w.const([[F(1 + (i + 2 * y + 3 * x) % 5, 16) for x in
                       range(stamp[1])] for y in range(stamp[0])])
             for i in range(n)]
    af = [None] if n == 1 else [
        lambda x, y, i=i: w.q(F(i + 2, 3)) * x + y * y - i for i in range(n)]
    C.spec = {"psf": basis, "afields": af}
    d = w.arr("p", shape, 1, 8)
    w.env["rms"] = lambda w, i: w.q(1)
    return C(d, stamp_shape=stamp), basis, af


def shown(w, n0=0):
    return w.evs("imshow")[n0:]


def axes(w, n):
    """Axes of the caller's own."""
    kind = w.cfg["axs"]
    plt = w.load().imp("matplotlib.pyplot", fromlist=("gcf",))
    f = plt.figure()
    if kind == "list":
        return list(np.ravel(f.subplots(1, n, squeeze=False)))
    if kind == "grid":
        return f.subplots(2, (n + 1) // 2 + 1, squeeze=False)
    if kind == "single":
        return f.subplots(1, 1)
    return None


def check_axes(w, out, ev, n):
    used = [e["ax"] for e in ev]
    w.check("every component has axes of its own",
            len({id(a) for a in used}) == n)
    got = list(np.ravel(np.array(out, dtype=object)))
    w.check("the axes used are returned, in order",
            all(a is b for a, b in zip(used, got)) and len(got) >= n)


def scn_psf(w):
    n = w.choice("n", range(w.cfg["lo"], w.cfg["hi"] + 1))
    im, basis, _ = image(w, n, stamp=w.cfg["stamp"])
    keep = im.data.data * 1
    mine = axes(w, n)
    loss = w.q("1/8")
    kw = {} if mine is None else {"axs": mine}
    iso = w.cfg.get("iso", False)
    ikw = w.cfg.get("iso_kw")
    if ikw:
        kw["iso_kw"] = dict(ikw)
    if w.cfg.get("cmap_kw"):
        kw["cmap_kw"] = dict(w.cfg["cmap_kw"])
    call = (lambda: im.plot("autopsf", inf_loss=loss, iso=iso, **kw)) \
        if w.cfg.get("named") else \
        (lambda: im.plot.autopsf(inf_loss=loss, iso=iso, **kw))
    out = w.run("the PSF is plotted", call)
    ev = shown(w)
    w.check("one picture per component", len(ev) == n)
    for e, b in zip(ev, basis):
        w.check_eq("component shown", e["data"], b)
    check_axes(w, out, ev, n)
    if mine is not None:
        w.check("the axes given are the ones used", all(
            a is b["ax"] for a, b in zip(
                np.ravel(np.array(mine, dtype=object)), ev)))
    w.check("the information loss asked for is used",
            all(e["inf_loss"] == loss for e in w.evs("get_psf")) and
            len(w.evs("get_psf")) > 0)
    cs = w.evs("contour")
    w.check("contours where asked for", len(cs) == (n if iso else 0))
    for c, e, b in zip(cs, ev, basis):
        w.check_eq("contours of the component", c["data"], b)
        w.check("contours on the picture they belong to",
                c["ax"] is e["ax"])
        if c["x"] is not None:
            # either axis positions or the positions of every pixel
            ys, xs = np.mgrid[:w.cfg["stamp"][0], :w.cfg["stamp"][1]]
            w.check_eq("contour columns", w.q(0) + w.const(c["x"]),
                       w.const(xs if np.ndim(c["x"]) == 2 else xs[0]))
            w.check_eq("contour rows", w.q(0) + w.const(c["y"]),
                       w.const(ys if np.ndim(c["y"]) == 2 else ys[:, 0]))
        for k, v in (ikw or {}).items():
            w.check("contour options are honoured", c["k"].get(k) == v)
    if ikw:
        w.check("the caller's contour options are left alone",
                kw["iso_kw"] == dict(ikw))
    bars = w.evs("colorbar")
    for k, v in (w.cfg.get("cmap_kw") or {}).items():
        w.check("colour bar options are honoured",
                all(b["k"].get(k) == v for b in bars) and len(bars) == n)
        w.check("the caller's options are left alone",
                kw["cmap_kw"] == dict(w.cfg["cmap_kw"]))
    w.check_eq("plotting leaves the image alone", im.data.data, keep)


def scn_coef(w):
    n = w.choice("n", range(max(w.cfg["lo"], 2), w.cfg["hi"] + 1))
    im, _, af = image(w, n)
    keep = im.data.data * 1
    mine = axes(w, n)
    kw = {} if mine is None else {"axs": mine}
    lim = w.cfg.get("lim")
    if lim:
        kw["vmin"], kw["vmax"] = lim
    loss = w.q("1/8")
    ck = w.choice("bar", (None, {"shrink": 0.5}, {}, {"aspect": 20}))
    if ck is not None:
        kw["cmap_kw"] = ck = dict(ck)
    was = dict(ck or {})
    out = w.run("the coefficients are plotted", lambda: im.plot.autopsf_coef(
        inf_loss=loss, **kw))
    w.check("the caller's settings are left alone", (ck or {}) == was)
    ev = shown(w)
    w.check("one picture per field", len(ev) == n)
    x, y = np.mgrid[:4, :5]
    for e, a in zip(ev, af):
        w.check_eq("field shown at the pixels of the image", e["data"],
                   a(w.const(x), w.const(y)))
        if lim:
            w.check("limits given are honoured", e["k"]["vmin"] == lim[0]
                    and e["k"]["vmax"] == lim[1])
    check_axes(w, out, ev, n)
    bars = w.evs("colorbar")
    for k, v in was.items():
        w.check("colour bar options are honoured",
                all(b["k"].get(k) == v for b in bars) and len(bars) == n)
    w.check("the information loss asked for is used",
            all(e["inf_loss"] == loss for e in w.evs("get_psf")) and
            len(w.evs("get_psf")) > 0)
    w.check_eq("plotting leaves the image alone", im.data.data, keep)
    if not lim:
        # the same fields in another order
        type(im).spec["afields"] = af[1:] + af[:1]
        w.run("the coefficients are plotted", lambda:
              im.plot.autopsf_coef(inf_loss=loss, **kw))
        ev2 = shown(w)[n:]
        w.check("one picture per field", len(ev2) == n)
        for e, f in zip(ev, ev2[-1:] + ev2[:-1]):
            for v in ("vmin", "vmax"):
                w.check("shades do not depend on the other fields",
                        w.q(0) == 0 if e["k"].get(v) is None
                        and f["k"].get(v) is None
                        else e["k"].get(v) == f["k"].get(v))


def scn_few(w):
    """Fewer axes than components: an error before anything is drawn."""
    n = w.choice("n", range(2, w.cfg["hi"] + 1))
    m = w.choice("axes", (1, n - 1, 0))
    im, _, _ = image(w, n)
    plt = w.load().imp("matplotlib.pyplot", fromlist=("gcf",))
    f = plt.figure()
    axs = f.subplots(1, m) if m else []
    if m and w.choice("as a list", (False, True)):
        axs = list(np.ravel(np.array(axs, dtype=object)))
    w.raises("too few axes for the PSF", ValueError,
             lambda: im.plot.autopsf(axs=axs))
    w.raises("too few axes for the coefficients", ValueError,
             lambda: im.plot.autopsf_coef(axs=axs))
    w.check("nothing was drawn", not w.evs("imshow"))


def scn_const(w):
    """A constant PSF has no coefficients to show."""
    m = w.mod("plot")
    base = w.cfg["base"]
    if base == "SingleImage":
        im, basis, _ = image(w, 1)
    else:
        im, _, _ = image(w, 1, base=base)
        u = w.mod("utils")
        g = u.models.Gaussian2D(amplitude=1.0, x_mean=0, y_mean=0,
                                x_stddev=w.q(1), theta=w.q(0),
                                y_stddev=w.q(1))
        r = g.render()
        type(im).get_variable_psf = lambda self, inf_loss=None, shape=None: \
            [[None], [r, g]]
        basis = [r]
    w.check("the error is a ValueError", issubclass(m.NoDataToPlot,
                                                    ValueError))
    w.raises("no coefficients to plot", m.NoDataToPlot,
             lambda: im.plot.autopsf_coef())
    w.check("nothing was drawn", not w.evs("imshow"))
    out = w.run("the PSF is plotted", lambda: im.plot.autopsf())
    ev = shown(w)
    w.check("one picture", len(ev) == 1)
    w.check_eq("the PSF is shown", ev[0]["data"], basis[0])


NAMES = ("imshow", "autopsf", "autopsf_coef", "_foo", "foo", "si",
         "__class__", "__init__", "_", "", "DEFAULT_PLOT", "IMSHOW",
         "__call__", "plot", None)


def scn_names(w):
    im, basis, af = image(w, 2)
    name = w.choice("name", NAMES)
    ax = axes(w, 1)
    if name in ("imshow", None):
        out = w.run("the image is plotted", lambda: im.plot(
            **({} if name is None else {"plot": name}), ax=ax))
        ev = shown(w)
        w.check("one picture", len(ev) == 1)
        w.check_eq("the image is shown", ev[0]["data"] * 1, im.data * 1)
        w.check("on the axes given", ev[0]["ax"] is ax and out is ax)
        w.check("rows upwards", ev[0]["k"].get("origin") == "lower")
    elif name in ("autopsf", "autopsf_coef"):
        w.run("the plot is made by name", lambda: im.plot(name))
        for e, i in zip(shown(w), range(2)):
            w.check_eq("the data asked for", e["data"], basis[i] if
                       name == "autopsf" else af[i](*(
                           w.const(v) for v in np.mgrid[:4, :5])))
        w.check("two pictures", len(shown(w)) == 2)
    elif name == "":
        return
    else:
        w.raises("no such plot", ValueError, lambda: im.plot(name))
        w.check("nothing was drawn", not w.evs("imshow"))


def scn_imshow(w):
    im, _, _ = image(w, 1)
    keep, m = im.data.data * 1, im.mask * 1
    o = w.choice("origin", (None, "upper"))
    ax = w.run("the image is plotted", lambda: im.plot.imshow(
        **({} if o is None else {"origin": o})))
    ev = shown(w)
    w.check("one picture", len(ev) == 1)
    w.check_eq("the image is shown", ev[0]["data"] * 1, im.data * 1)
    w.check("options are honoured", ev[0]["k"].get("origin") ==
            (o or "lower"))
    plt = w.load().imp("matplotlib.pyplot", fromlist=("gca",))
    w.check("on the current axes", ax is plt.gca() and ev[0]["ax"] is ax)
    w.check_eq("plotting leaves the image alone", im.data.data, keep)
    w.check_eq("plotting leaves the mask alone", im.mask * 1, m)


def scn_SR(w):
    """plot_S and plot_R: the image given, and where it goes."""
    m = w.mod("plot")
    kind = w.choice("kind", ("plain", "masked", "complex", "maskedcomplex"))
    which = w.cfg["which"]
    if which == "S" and "complex" in kind:
        return
    d = w.arr("p", (2, 3), 1, 8)
    a = d * 1
    if "complex" in kind:
        a = d + 1j * w.arr("q", (2, 3), 1, 2)
    bad = np.zeros((2, 3), bool)
    bad[0, 0] = True
    if kind.startswith("masked"):
        a = w.masked(a, w.const(bad))
    keep = a * 1
    path = w.choice("path", (None, "/x/plot.png"))
    nbook = w.choice("notebook", (False, True))
    f = m.plot_S if which == "S" else m.plot_R
    w.run("the plot is made", lambda: f(a, path=path, nbook=nbook))
    ev = shown(w)
    w.check("one picture", len(ev) == 1)
    want = d if which == "S" else w.np.log10(d)
    for i in np.ndindex(2, 3):
        if not (kind.startswith("masked") and bad[i]):
            w.check_eq("pixels shown", ev[0]["data"][i], want[i])
    w.check_eq("the array is left alone", a, keep) if \
        kind in ("plain", "complex") else None
    ops = [e["op"] for e in w.evs("plt")]
    w.check("stored when a path is given",
            ops.count("savefig") == (path is not None))
    if path is not None:
        w.check("stored at the path given", [
            e for e in w.evs("plt") if e["op"] == "savefig"][0]["a"][0] ==
            path)
    w.check("shown when no path is given",
            ops.count("show") == (path is None))
    w.check("closed unless in a notebook",
            ("close" in ops) == (not nbook))


def jobs(tier):
    hi = 12 if tier == "quick" else 60
    J = []
    for axs in (None, "list", "grid"):
        J.append(Job(f"psf_{axs}", scn_psf, dict(
            lo=1, hi=hi, axs=axs, stamp=(3, 3)), max_paths=80, witness=4))
        J.append(Job(f"coef_{axs}", scn_coef, dict(
            lo=2, hi=hi, axs=axs), max_paths=80, witness=4))
    J.append(Job("psf_single", scn_psf, dict(
        lo=1, hi=1, axs="single", stamp=(3, 5))))
    J.append(Job("psf_iso", scn_psf, dict(
        lo=1, hi=4, axs=None, stamp=(3, 5), iso=True, named=1), witness=4))
    for n, k in enumerate(({"colors": "red"}, {"alpha": 1.0, "levels": 3},
                           {"cmap": "viridis"})):
        J.append(Job(f"psf_iso{n}", scn_psf, dict(
            lo=1, hi=3, axs=None, stamp=(3, 3), iso=True, iso_kw=k,
            cmap_kw={"shrink": 0.5} if n else {"aspect": 20}), witness=4))
    J.append(Job("coef_limits", scn_coef, dict(
        lo=2, hi=3, axs=None, lim=(-1, 2))))
    J.append(Job("few", scn_few, dict(hi=5), max_paths=80, witness=4))
    for b in ("SingleImage", "SingleImageGaussPSF"):
        J.append(Job(f"const_{b}", scn_const, dict(base=b)))
    J.append(Job("names", scn_names, dict(axs="single"), witness=15))
    J.append(Job("imshow", scn_imshow, dict(axs=None)))
    for k in "SR":
        J.append(Job(f"plot_{k}", scn_SR, dict(which=k), witness=8))
    return J
