"""numpy look-alike used by the code under symbolic execution."""

import builtins as B
import itertools
import operator
import types
from fractions import Fraction

import numpy as np

from . import arr, core, ma as M, rec as R
from .arr import A, asany, ew, from_nested, from_objects, oarr, unwrap, wrap
from .core import SB, SC, SN, Unsupported, num

real = np


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        o = getattr(o, "_real", o)
        return isinstance(o, type) and issubclass(o, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __repr__(cls):
        return repr(cls._real)


def mkclass(name, realcls, make, **ns):
    return _Meta(name, (), {"_real": realcls, "_make": staticmethod(make),
                            **ns})


def scalar_class(name):
    d = np.dtype(name)

    def make(x=0, *a):
        if isinstance(x, (A, list, tuple)):
            r = asany(x).astype(d)
            return r if r.ndim else r.elem(())
        if isinstance(x, str):
            return wrap(d.type(x))
        return arr.cast_scalar(core.lift(x) if type(x) is not SB else x, d)
    return mkclass(name, d.type, make, _dtype_name=d.str)


def _nd_make(shape, dtype=float, *a, **k):
    return _empty(shape, dtype)


ndarray = mkclass("ndarray", np.ndarray, _nd_make, _is_ndarray_cls=True)
MaskedArray = mkclass("MaskedArray", np.ma.MaskedArray, M.new,
                      _is_ma_cls=True)


# ------------------------------------------------------------- construction
def _shape(s):
    if isinstance(s, A):
        s = list(s)
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(x) for x in s)
    return (operator.index(s),)


def _full(shape, v, dtype):
    d = arr.dt(dtype)
    shape = _shape(shape)
    if B.any(x < 0 for x in shape):
        raise ValueError("negative dimensions are not allowed")
    if d.kind == "c":
        return A(oarr(shape, num(v)), oarr(shape, SN({}, "f")), d)
    if d.kind == "O":
        return A(np.full(shape, v, object), None, d)
    if d.kind == "b":
        return A(oarr(shape, bool(v)), None, d)
    if d.names:
        raise Unsupported("structured allocation")
    return A(oarr(shape, arr.cast_scalar(num(v), d)), None, d)


def zeros(shape, dtype=float, order="C", **k):
    return _full(shape, 0, dtype)


def ones(shape, dtype=float, order="C", **k):
    return _full(shape, 1, dtype)


def _empty(shape, dtype=float, order="C", **k):
    """Uninitialised memory: distinct unknown values."""
    a = _full(shape, 0, dtype)
    c = core.ctx()
    if a.dtype.kind in "fc":
        for i in np.ndindex(*a.shape):
            a.re[i] = garbage()
            if a.im is not None:
                a.im[i] = garbage()
    return a


def garbage():
    c = core.ctx()
    at = c.atom(f"garbage{len(c.atoms)}", kind="garbage")
    at.ev = lambda env: 0.0
    return SN({((at.id, 1),): core.F1}, "f")


def full(shape, fill_value, dtype=None, **k):
    v = asany(fill_value)
    if v.ndim:
        sh = _shape(shape)
        return A(np.broadcast_to(v.re, sh).copy(), None if v.im is None
                 else np.broadcast_to(v.im, sh).copy(), v.dtype)
    d = arr.dt(dtype) if dtype is not None else v.dtype
    r = A(oarr(_shape(shape), None), None, d)
    x = v.elem(())
    if d.kind == "c":
        x = core.to_sc(x)
        return A(oarr(_shape(shape), x.re), oarr(_shape(shape), x.im), d)
    return A(oarr(_shape(shape), False), None, d) if x is False else A(
        oarr(_shape(shape), arr.cast_scalar(x, d)), None, d)


def _like(f):
    def g(a, dtype=None, shape=None, **k):
        src = asany(a)
        r = f(src.shape if shape is None else shape,
              src.dtype if dtype is None else dtype)
        if isinstance(src, M.MA) and k.get("subok", True):
            m = src._mask
            return M.MA(r.re, r.im, r.dtype,
                        m if M._is_nomask(m) else m.copy())
        return r
    return g


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(_empty)


def full_like(a, v, dtype=None, **k):
    a = asany(a)
    return full(a.shape, v, a.dtype if dtype is None else dtype)


def array(x, dtype=None, copy=True, ndmin=0, subok=False, order=None, **k):
    if isinstance(x, R.Rec):
        return x.copy() if copy else x
    if isinstance(x, (list, tuple)) and dtype is None and x and B.all(
            isinstance(v, str) for v in x):
        return real.array(x)
    a = asany(x)
    if isinstance(a, M.MA) and not subok:
        a = a.data
    if dtype is not None:
        a = a.astype(dtype) if arr.dt(dtype) != a.dtype or copy else a
    elif copy:
        a = a.copy()
    if hasattr(a, "weak"):
        a = A(a.re, a.im, a.dtype)
    while a.ndim < ndmin:
        a = a[None]
    return a


def asarray(x, dtype=None, **k):
    if isinstance(x, R.Rec):
        return x
    if isinstance(x, A) and not isinstance(x, M.MA) and (
            dtype is None or arr.dt(dtype) == x.dtype):
        return x
    if isinstance(x, M.MA):
        x = x.data
    return array(x, dtype, copy=False)


def asanyarray(x, dtype=None, **k):
    if isinstance(x, A) and (dtype is None or arr.dt(dtype) == x.dtype):
        return x
    return array(x, dtype, copy=False, subok=True)


def ascontiguousarray(x, dtype=None, **k):
    a = asarray(x, dtype)
    return a if a.ndim else a.reshape((1,))


def arange(*a, dtype=None, **k):
    a = [unwrap(x) if not core.is_sym(x) else operator.index(x) for x in a]
    r = wrap(real.arange(*a))
    return r.astype(dtype) if dtype is not None else r


def linspace(start, stop, n=50, endpoint=True, **k):
    n = operator.index(n)
    s, e = num(start), num(stop)
    div = n - 1 if endpoint else n
    out = [s + (e - s) * num(Fraction(i, div)) if div else s
           for i in range(n)]
    return from_nested([SN(x.p, "f", x.nan, x.pinf, x.ninf) for x in out])


# ------------------------------------------------------------- elementwise
def _ufunc(name, reflected_ok=True):
    def f(a, b, out=None, where=True, casting="same_kind", dtype=None, **k):
        if where is not True:
            if out is None:
                raise Unsupported("ufunc where= without out=")
            o = out[0] if isinstance(out, tuple) else out
            o[...] = arr.where(where, f(a, b, **k), o)
            return o
        if isinstance(a, M.MA) or isinstance(b, M.MA):
            r = M.binop(a, b, name)
        else:
            r = arr.binary(name, asany(a), asany(b))
        if dtype is not None and isinstance(r, A):
            r = r.astype(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            rr = asany(r)
            if not real.can_cast(rr.dtype, o.dtype, casting):
                raise TypeError(
                    f"Cannot cast ufunc '{name}' output from {rr.dtype!r} "
                    f"to {o.dtype!r} with casting rule '{casting}'")
            if real.broadcast_shapes(rr.shape, o.shape) != o.shape:
                raise ValueError(
                    "non-broadcastable output operand with shape "
                    f"{o.shape} doesn't match the broadcast shape "
                    f"{rr.shape}")
            o[...] = M.plain(rr)
            if isinstance(o, M.MA) and isinstance(rr, M.MA) and \
                    not M._is_nomask(rr._mask):
                o.mask = rr._mask
            return o
        return r

    class U:
        __name__ = name

        def __call__(self, *a, **k):
            return f(*a, **k)

        @staticmethod
        def reduce(x, axis=0, **k):
            x = asany(x)
            m = {"add": "sum", "mul": "prod", "or": "any", "and": "all",
                 "max": "max", "min": "min"}.get(name)
            if m is None:
                raise Unsupported("reduce of " + name)
            return getattr(x, m)(axis=axis)

        @staticmethod
        def accumulate(x, axis=0, **k):
            x = asany(x)
            if name == "add":
                return x.cumsum(axis=axis)
            if x.ndim != 1:
                raise Unsupported("accumulate of " + name)
            out = [x[0]]
            for i in range(1, len(x)):
                out.append(f(out[-1], x[i]))
            return from_nested(out)

        @staticmethod
        def outer(x, y, **k):
            x, y = asany(x), asany(y)
            return f(x.reshape(x.shape + (1,) * y.ndim), y)

        @staticmethod
        def at(x, ind, v):
            x[ind] = f(x[ind], v)
    return U()


add = _ufunc("add")
subtract = _ufunc("sub")
multiply = _ufunc("mul")
divide = true_divide = _ufunc("truediv")
floor_divide = _ufunc("floordiv")
mod = remainder = _ufunc("mod")
power = float_power = _ufunc("pow")
less = _ufunc("lt")
less_equal = _ufunc("le")
greater = _ufunc("gt")
greater_equal = _ufunc("ge")
equal = _ufunc("eq")
not_equal = _ufunc("ne")
maximum = fmax = _ufunc("max")
minimum = fmin = _ufunc("min")
bitwise_and = _ufunc("and")
bitwise_or = _ufunc("or")
bitwise_xor = _ufunc("xor")


class _Logical:
    def __init__(self, name):
        self.name = name

    def __call__(self, a, b, out=None, **k):
        ma_ = isinstance(a, M.MA) or isinstance(b, M.MA)
        r = arr.logical(self.name, M.plain(asany(a)), M.plain(asany(b)))
        if ma_:
            mm = M.nomask
            for x in (a, b):
                g = M.getmask(x)
                if not M._is_nomask(g):
                    mm = g if M._is_nomask(mm) else arr.logical("or", mm, g)
            return M.MA(r.re, None, r.dtype, mm)
        return arr._out(r, out)

    def reduce(self, x, axis=0, **k):
        x = asany(x)
        return x.any(axis) if self.name == "or" else x.all(axis)


logical_and = _Logical("and")
logical_or = _Logical("or")
logical_xor = _Logical("xor")


def logical_not(a, out=None, **k):
    if type(a) is SB:
        return ~a
    x = asany(a)
    if isinstance(x, M.MA):
        return M.wrap1(x, lambda d: ~d.astype(bool))
    if x.ndim == 0:
        return arr.core_not(x.astype(bool).elem(()))
    return arr._out(~x.astype(bool), out)


def invert(a, **k):
    return ~(a if isinstance(a, (A, bool)) else asany(a)) \
        if not isinstance(a, bool) else not a


def _round1(f, cf=None):
    return arr.ufunc1(f, None, cf)


sqrt = arr.ufunc1(core.sn_sqrt, None, core.sc_sqrt)
floor = arr.ufunc1(core.sn_floor)
ceil = arr.ufunc1(lambda x: -core.sn_floor(-x))
rint = arr.ufunc1(core.sn_rint)
square = arr.ufunc1(lambda x: x * x, None, lambda x: x * x)
log10 = arr.ufunc1(core.sn_log10)


def trunc(a, **k):
    def f(x):
        r = core.sn_trunc(x)
        return SN(r.p, "f")
    return arr.ufunc1(f)(a)


fix = trunc


def _pexp(x):
    return core.ufun("exp", x, pyf=real.exp, sign="+")


def _trans(name, sign=None):
    f = getattr(real, name)
    return arr.ufunc1(lambda x: core.ufun(name, x, pyf=f, sign=sign))


exp = _trans("exp", "+")
log = _trans("log")
log2 = _trans("log2")
sin = _trans("sin")
cos = _trans("cos")
tan = _trans("tan")
arctan = _trans("arctan")
tanh = _trans("tanh")
arcsin = _trans("arcsin")
arccos = _trans("arccos")


def arctan2(a, b):
    return wrap(real.arctan2(unwrap(a), unwrap(b)))


def hypot(a, b, **k):
    return sqrt(asany(a) * asany(a) + asany(b) * asany(b))


def abs(a, out=None, **k):
    if isinstance(a, (SN, SB)) or type(a) is SC:
        return core.sn_abs(a)
    return arr._out(arr.absolute(a), out)


absolute = fabs = abs


def sign(a, **k):
    def f(x):
        return core.sn_ite(core.mkbool(x.z() > 0), num(1),
                           core.sn_ite(core.mkbool(x.z() < 0), num(-1),
                                       num(0)))
    return arr.ufunc1(f)(a)


def negative(a, **k):
    return -asany(a) if not isinstance(a, SN) else -a


def reciprocal(a, **k):
    return 1.0 / a


def isnan(a, **k):
    return arr.nonfinite(a, "nan")


def isinf(a, **k):
    return arr.nonfinite(a, "inf")


def isfinite(a, **k):
    return arr.nonfinite(a, "finite")


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x0 = asany(x)
    r = arr.where(isnan(x0), num(nan), x0)
    if any_flag(x0, "pinf"):
        raise Unsupported("nan_to_num of infinities")
    if isinstance(x, A):
        if not copy:
            x[...] = r
            return x
        return r
    return r.elem(())


def any_flag(a, which):
    return builtins_any(getattr(v, which, None) is not None
                        for v in a.re.flat)


def builtins_any(it):
    for x in it:
        if x:
            return True
    return False


def conj(a, **k):
    return a.conj() if hasattr(a, "conj") else wrap(real.conj(a))


conjugate = conj


def real_(a):
    return a.real


def imag_(a):
    return a.imag


def angle(a, **k):
    return wrap(real.angle(unwrap(a)))


def around(a, decimals=0, out=None):
    if isinstance(a, M.MA):
        return M.wrap1(a, lambda d: arr.rint(d, decimals))
    return arr.rint(a, decimals)


round = round_ = around


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    return arr._out(asany(a).clip(a_min, a_max), out)


def where(c, *xy):
    return arr.where(c, *xy)


def select(conds, choices, default=0):
    r = asany(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = arr.where(c, v, r)
    return r


def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = arr.where(where, src, dst)


def putmask(a, mask, v):
    copyto(a, v, where=mask)


# --------------------------------------------------------------- reductions
def _red(name):
    def f(a, axis=None, *args, **k):
        if name == "sum" and isinstance(a, types.GeneratorType):
            a = list(a)
        k.pop("where", None)
        if k.get("initial") is not None:
            raise Unsupported("initial=")
        k.pop("initial", None)
        out = k.pop("out", None)
        if isinstance(a, (list, tuple)) or not isinstance(a, A):
            a = asany(a)
        if args and args[0] is not None:
            k["dtype"] = args[0]
        if k.get("keepdims", False) is None:
            k.pop("keepdims")
        return arr._out(getattr(a, name)(axis=axis, **k), out)
    f.__name__ = name
    return f


sum = _red("sum")
prod = _red("prod")
mean = _red("mean")
std = _red("std")
var = _red("var")
max = amax = _red("max")
min = amin = _red("min")
any = _red("any")
all = _red("all")
cumsum = _red("cumsum")
argmax = _red("argmax")
argmin = _red("argmin")
ptp = lambda a, axis=None: asany(a).ptp(axis)  # noqa


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    w = asany(weights)
    return (asany(a) * w).sum(axis) / w.sum(axis)


def _nanred(name):
    def f(a, axis=None, **k):
        a = M.plain(asany(a))
        if axis is not None:
            if isinstance(axis, (tuple, list)) and len(axis) != 1:
                if len(axis) != a.ndim:
                    raise Unsupported("nan reduction along several axes")
                return f(a, **k)
            ax = axis[0] if isinstance(axis, (tuple, list)) else axis
            return apply_along_axis(lambda v: f(v), ax, a)
        bad = isnan(a)
        n = (~bad).sum()
        s = arr.where(bad, num(0), a).sum()
        if name == "sum":
            return s
        if name == "mean":
            return s / n
        mask = bad
        keep = a[~mask]
        if name == "std":
            return keep.std()
        if name == "median":
            return median(keep)
        return getattr(keep, name)()
    return f


nansum = _nanred("sum")
nanmean = _nanred("mean")
nanmax = _nanred("max")
nanmin = _nanred("min")
nanstd = _nanred("std")
nanmedian = _nanred("median")


def count_nonzero(a, axis=None, **k):
    return asany(a).astype(bool).sum(axis)


def percentile(a, q, axis=None, **k):
    if axis is not None:
        raise Unsupported("percentile axis")
    a = M.plain(asany(a))
    q = [core.num(x) for x in asany(q).re.reshape(-1)] \
        if asany(q).ndim else q
    return arr.percentile(a, q if not isinstance(q, list)
                          else from_nested(q))


def quantile(a, q, axis=None, **k):
    return percentile(a, asany(q) * 100, axis)


def median(a, axis=None, **k):
    a = asany(a)
    if isinstance(a, M.MA):
        a = a.data
    if axis is not None:
        mv = np.moveaxis(a.re, axis, -1)
        out = oarr(mv.shape[:-1])
        for i in np.ndindex(*out.shape):
            out[i] = _median1(list(mv[i]))
        return from_objects(out)
    return _median1(list(a.re.reshape(-1)))


def _median1(els):
    els = [core.to_num(e) for e in els]
    if not els:
        return num(float("nan"))
    bad = core.zor(*[e.special for e in els])
    if bad is not None:
        raise Unsupported("median of non finite values")
    if len(els) == 1:
        return SN(els[0].p, "f")
    k = ("median", frozenset(_count([e.key() for e in els]).items()))
    if len(els) > 4 and B.any(core.is_sym(e) for e in els):
        return _median_atom(els, k)
    s = [els[i] for i in arr._argsort_list(els)]
    n = len(s)
    r = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    return SN(r.p, "f")


def _count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def _median_atom(els, k):
    """Median through order-statistic atoms (no forking)."""
    c = core.ctx()
    r = c.memo.get(k)
    if r is not None:
        return r
    z3 = core.z3
    n = len(els)
    zs = [e.z() for e in els]

    def order(kth, nm):
        at = c.atom(f"{nm}{len(c.atoms)}", kind="order")
        at.defs.append(z3.Or(*[at.z == z for z in zs]))
        at.defs.append(z3.Sum(*[z3.If(z <= at.z, 1, 0) for z in zs])
                       >= kth + 1)
        at.defs.append(z3.Sum(*[z3.If(z >= at.z, 1, 0) for z in zs])
                       >= n - kth)
        ps = [e.p for e in els]
        at.ev = lambda env: sorted(core.p_eval(p, env) for p in ps)[kth]
        return SN({((at.id, 1),): core.F1}, "f")
    if n % 2:
        r = order(n // 2, "med")
    else:
        r = (order(n // 2 - 1, "medlo") + order(n // 2, "medhi")) / 2
    c.memo[k] = r
    return r


def sort(a, axis=-1, **k):
    return arr.sort(a, axis)


def argsort(a, axis=-1, **k):
    return arr.argsort(a, axis)


def unique(a, **k):
    if k:
        return wrap(real.unique(unwrap(a), **k))
    s = arr.sort(asany(a).ravel())
    out = []
    for x in s.re:
        if not out or core.to_zbool(x == out[-1]) is None or not bool(
                x == out[-1]):
            out.append(x)
    return from_nested(out) if out else s


def isin(a, b, **k):
    a, b = asany(a), asany(b)
    def f(x):
        r = False
        for y in b.re.reshape(-1):
            r = arr.core_or(r, x == y)
        return r
    return A(ew(f, a.re), None, np.dtype(bool))


in1d = isin


def searchsorted(a, v, side="left", **k):
    return asany(a).searchsorted(v, side, **k)


def compress(cond, a, axis=None, out=None):
    c = asany(cond).astype(bool)
    if isinstance(a, R.Rec):
        return a.compress(c)
    a = asany(a)
    keep = c.nonzero()[0]
    return arr._out(a.ravel()[keep] if axis is None else
                    a.take(keep, axis), out)


def extract(cond, a):
    return compress(asany(cond).ravel(), a)


def place(a, mask, vals):
    m = asany(mask).astype(bool)
    v = asany(vals).ravel()
    if v.size == 1:
        a[m] = v[0]
        return
    n = asany(a)[m].size
    a[m] = v[[i % v.size for i in range(n)]]


def kron(a, b):
    a, b = asany(a), asany(b)
    nd = B.max(a.ndim, b.ndim)
    a = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    sh = tuple(x * y for x, y in zip(a.shape, b.shape))
    a2 = a.reshape(tuple(v for x in a.shape for v in (x, 1)))
    b2 = b.reshape(tuple(v for x in b.shape for v in (1, x)))
    return (a2 * b2).reshape(sh)


def positive(a, **k):
    return asany(a).copy() if isinstance(a, A) else +a


def divmod(a, b, **k):
    return floor_divide(a, b), mod(a, b)


def fromiter(it, dtype=float, count=-1, **k):
    return array(list(it), dtype)


def fromfunction(f, shape, dtype=float, **k):
    g = indices(shape)
    return f(*[g[i].astype(dtype) for i in range(len(_shape(shape)))], **k)


def partition(a, kth, axis=-1, **k):
    return arr.sort(a, axis)


def ediff1d(a, **k):
    a = asany(a).ravel()
    return a[1:] - a[:-1]


def cumprod(a, axis=None, **k):
    a = asany(a)
    if axis is None:
        a = a.ravel()
    elif a.ndim != 1:
        raise Unsupported("cumprod axis")
    out, p = [], num(1)
    for x in a.re:
        p = p * core.to_num(x)
        out.append(p)
    r = from_nested(out)
    return r.astype(a.dtype) if a.dtype.kind != "b" else r


def deg2rad(a, **k):
    return a * (np.pi / 180)


radians = deg2rad


def rad2deg(a, **k):
    return a * (180 / np.pi)


degrees = rad2deg


def nanpercentile(a, q, axis=None, **k):
    if axis is not None:
        raise Unsupported("nanpercentile axis")
    a = M.plain(asany(a))
    return percentile(a[~isnan(a)], q)


nanquantile = lambda a, q, **k: nanpercentile(a, asany(q) * 100)  # noqa


def lexsort(keys, axis=-1):
    keys = [asany(x) for x in keys]
    idx = list(range(len(keys[0])))
    for c in keys:
        idx = [idx[i] for i in arr._argsort_list([c.re[j] for j in idx])]
    return wrap(real.array(idx))


def histogram(*a, **k):
    return tuple(wrap(x) for x in real.histogram(
        *[unwrap(x) for x in a], **{kk: unwrap(v) for kk, v in k.items()}))


def intersect1d(a, b, **k):
    a, b = unique(a), asany(b)
    return a[isin(a, b)]


def setdiff1d(a, b, **k):
    a, b = unique(a), asany(b)
    return a[~isin(a, b)]


def array_equiv(a, b):
    a, b = broadcast_arrays(a, b)
    return (a == b).all()


def argpartition(a, kth, axis=-1, **k):
    return arr.argsort(a, axis)


def nonzero(a):
    return asany(a).nonzero()


def flatnonzero(a):
    return asany(a).ravel().nonzero()[0]


def argwhere(a):
    t = asany(a).nonzero()
    return from_nested([x for x in t]).T if t else t


def array_equal(a, b, **k):
    a, b = asany(a), asany(b)
    if a.shape != b.shape:
        return False
    return (a == b).all() if a.ndim else a == b


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return (abs(asany(a) - asany(b)) <= atol + rtol * abs(asany(b))).all()


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return abs(asany(a) - asany(b)) <= atol + rtol * abs(asany(b))


# ---------------------------------------------------------------- structure
def _struct(name, nat=1):
    """Structural function applied to both planes."""
    fn = getattr(real, name)

    def f(a, *args, **k):
        args = [unwrap(x) for x in args]
        k = {kk: unwrap(v) for kk, v in k.items()}
        if isinstance(a, R.Rec):
            if name == "delete":
                return a.delete(args[0])
            raise Unsupported(f"{name} of a catalogue")
        a = asany(a)
        if isinstance(a, M.MA):
            if name in ("ravel", "reshape", "transpose", "swapaxes",
                        "squeeze", "copy"):
                return getattr(a, name)(*args, **k)
            m = a._mask
            d = f(a.data, *args, **k)
            if M._is_nomask(m):
                return M.MA(d.re, d.im, d.dtype)
            mm = A(fn(m.re, *args, **k), None, M.BOOL)
            return M.MA(d.re, d.im, d.dtype, mm)
        re = fn(a.re, *args, **k)
        im = None if a.im is None else fn(a.im, *args, **k)
        if isinstance(re, (list, tuple)):
            ims = im if im is not None else [None] * len(re)
            return type(re)(A(r, i, a.dtype) for r, i in zip(re, ims))
        if not isinstance(re, np.ndarray):
            return re
        return A(re, im, a.dtype)
    f.__name__ = name
    return f


for _n in ("moveaxis", "swapaxes", "rollaxis", "transpose", "tile", "rot90",
           "flip", "fliplr", "flipud", "expand_dims", "squeeze", "ravel",
           "reshape", "delete", "split", "array_split", "hsplit", "vsplit",
           "diag", "diagonal", "triu", "tril", "broadcast_to", "resize"):
    globals()[_n] = _struct(_n)


def copy(a, **k):
    return asany(a).copy()


def take(a, ind, axis=None, **k):
    return a.take(ind, axis) if isinstance(a, R.Rec) else \
        asany(a).take(ind, axis)


def _joinf(name):
    fn = getattr(real, name)

    def f(arrs, *a, **k):
        arrs = list(arrs)
        if arrs and isinstance(arrs[0], R.Rec):
            if name not in ("concatenate", "hstack"):
                raise Unsupported("stacking catalogues")
            return R.Rec({n: stack_cat([r.cols[n] for r in arrs])
                          for n in arrs[0].names})
        k.pop("dtype", None)
        return arr.stack_like(fn, [M.plain(asany(x)) for x in arrs], *a, **k)
    f.__name__ = name
    return f


for _n in ("concatenate", "hstack", "vstack", "dstack", "stack",
           "column_stack", "row_stack"):
    if hasattr(real, _n):
        globals()[_n] = _joinf(_n)
stack_cat = globals()["concatenate"]


def append(a, v, axis=None):
    if axis is None:
        return stack_cat([asany(a).ravel(), asany(v).ravel()])
    return stack_cat([a, v], axis=axis)


def insert(a, ind, v, axis=None):
    a = asany(a)
    vv = asany(v).astype(a.dtype)
    re = real.insert(a.re, unwrap(ind), vv.re if vv.ndim else vv.elem(()),
                     axis)
    return A(re, None, a.dtype)


def atleast_1d(*xs):
    r = [asany(x) if asany(x).ndim else asany(x).reshape((1,)) for x in xs]
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in xs:
        x = asany(x)
        while x.ndim < 2:
            x = x[None]
        r.append(x)
    return r[0] if len(r) == 1 else r


def broadcast_arrays(*xs, **k):
    xs = [asany(x) for x in xs]
    sh = real.broadcast_shapes(*[x.shape for x in xs])
    return tuple(A(np.broadcast_to(x.re, sh), None if x.im is None else
                   np.broadcast_to(x.im, sh), x.dtype) for x in xs)


def ix_(*seqs):
    out = []
    nd = len(seqs)
    for k, s in enumerate(seqs):
        a = asany(list(s) if isinstance(s, range) else s)
        if a.size == 0:
            a = a.astype(int)
        out.append(a.reshape((1,) * k + (a.size,) + (1,) * (nd - k - 1)))
    return tuple(out)


def meshgrid(*xi, indexing="xy", **k):
    xs = [asany(x) for x in xi]
    idx = real.meshgrid(*[real.arange(len(x)) for x in xs],
                        indexing=indexing)
    return [A(x.re[i], None, x.dtype) for x, i in zip(xs, idx)]


def roll(a, shift, axis=None):
    if isinstance(a, M.MA):
        d = arr.roll(a.data, shift, axis)
        m = a._mask if M._is_nomask(a._mask) else arr.roll(a._mask, shift,
                                                           axis)
        return M.MA(d.re, d.im, d.dtype, m)
    return arr.roll(a, shift, axis)


def pad(a, pw, mode="constant", **k):
    return arr.pad(a, pw, mode, **k)


def repeat(a, n, axis=None):
    return arr.repeat(a, n, axis)


def shape(a):
    return a.shape if hasattr(a, "shape") else asany(a).shape


def size(a, axis=None):
    if not isinstance(a, (A, R.Rec)):
        try:
            a = asany(a)
        except (TypeError, Unsupported):
            a = np.asarray(a, dtype=object)     # axes and the like
    return a.size if axis is None else a.shape[axis]


def ndim(a):
    return asany(a).ndim


class _MGrid:
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        def one(s):
            g = (lambda v: v if v is None else operator.index(v)
                 if not isinstance(v, float) else v)
            return slice(g(s.start), g(s.stop), g(s.step))
        key = tuple(one(s) for s in key) if isinstance(key, tuple) else \
            one(key)
        r = (real.ogrid if self.sparse else real.mgrid)[key]
        return wrap(r) if not isinstance(r, (tuple, list)) else \
            [wrap(x) for x in r]


mgrid = _MGrid(False)
ogrid = _MGrid(True)


def indices(dims, dtype=int, **k):
    return wrap(real.indices(_shape(dims)))


def unravel_index(i, shape, **k):
    i = operator.index(i) if isinstance(i, SN) else unwrap(i)
    return tuple(wrap(x) if isinstance(x, np.ndarray) else num(int(x))
                 for x in real.unravel_index(i, _shape(shape)))


def ndindex(*s):
    s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
    return real.ndindex(*[operator.index(x) for x in s])


def ndenumerate(a):
    a = asany(a)
    for i in real.ndindex(*a.shape):
        yield i, a.elem(i)


# ------------------------------------------------------------------ algebra
def dot(a, b, out=None):
    return arr._out(arr.matmul(M.plain(asany(a)), M.plain(asany(b))), out)


def matmul(a, b, **k):
    return arr.matmul(M.plain(asany(a)), M.plain(asany(b)))


def vdot(a, b):
    a, b = asany(a).ravel(), asany(b).ravel()
    return (a.conj() * b).sum()


def inner(a, b):
    a, b = asany(a), asany(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    return arr.matmul(a, b.T)


def outer(a, b):
    a, b = asany(a).ravel(), asany(b).ravel()
    return a.reshape((-1, 1)) * b.reshape((1, -1))


def tensordot(a, b, axes=2):
    a, b = asany(a), asany(b)
    if isinstance(axes, int):
        axa = list(range(a.ndim - axes, a.ndim))
        axb = list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if isinstance(axa, int) else list(axa)
        axb = [axb] if isinstance(axb, int) else list(axb)
    axa = [x % a.ndim for x in axa]
    axb = [x % b.ndim for x in axb]
    fa = [i for i in range(a.ndim) if i not in axa]
    fb = [i for i in range(b.ndim) if i not in axb]
    sa = [a.shape[i] for i in fa]
    sb = [b.shape[i] for i in fb]
    k = int(np.prod([a.shape[i] for i in axa], dtype=int))
    a2 = a.transpose(*(fa + axa)).reshape((-1, k)) if a.ndim else a
    b2 = b.transpose(*(axb + fb)).reshape((k, -1))
    r = arr.matmul(a2, b2)
    r = r.reshape(tuple(sa + sb))
    return r if r.ndim else r.elem(())


def einsum(spec, *ops, **k):
    ops = [asany(o) for o in ops]
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        cnt = _count(lhs.replace(",", ""))
        rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    terms = lhs.split(",")
    dim = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dim[c] = n
    summed = [c for c in dim if c not in rhs]
    out = oarr(tuple(dim[c] for c in rhs))
    for i in np.ndindex(*out.shape):
        e = dict(zip(rhs, i))
        s = None
        for j in itertools.product(*[range(dim[c]) for c in summed]):
            e.update(zip(summed, j))
            p = None
            for t, o in zip(terms, ops):
                v = o.elem(tuple(e[c] for c in t))
                v = core.to_num(v) if type(v) is SB or v is True or \
                    v is False else v
                p = v if p is None else p * v
            s = p if s is None else s + p
        out[i] = s if s is not None else num(0.0)
    r = from_objects(out)
    return r if r.ndim else r.elem(())


def trace(a, **k):
    return asany(a).trace()


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None or ddof is not None or bias:
        raise Unsupported("cov options")
    x = asany(m)
    if x.ndim == 1:
        x = x.reshape((1, -1))
    elif not rowvar and x.shape[0] != 1:
        x = x.T
    n = x.shape[1]
    mu = x.mean(axis=1, keepdims=True)
    d = x - mu
    r = arr.matmul(d, d.conj().T) / float(n - 1) if n > 1 else \
        arr.matmul(d, d.conj().T) * num(float("nan"))
    return r.squeeze() if 1 in r.shape and r.size == 1 else r


def interp(x, xp, fp, **k):
    return wrap(real.interp(unwrap(x), unwrap(xp), unwrap(fp)))


def diff(a, n=1, axis=-1):
    a = asany(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def cross(*a, **k):
    raise Unsupported("cross")


def shares_memory(a, b, *x):
    return real.shares_memory(a.re, b.re)


def may_share_memory(a, b):
    return shares_memory(a, b)


def isscalar(x):
    return isinstance(x, (SN, bool, int, float, complex)) or type(x) in (
        SB, SC)


def iscomplexobj(x):
    return (isinstance(x, A) and x.im is not None) or type(x) is SC or \
        isinstance(x, complex)


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplex(x):
    x = asany(x)
    return x.imag != 0


def issubdtype(a, b):
    a = np.dtype(arr.dt(a)) if not isinstance(a, np.dtype) else a
    b = getattr(b, "_real", b)
    return np.issubdtype(a, b)


def result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, A) else arr.dt(x)
                            for x in a])


promote_types = result_type


def can_cast(a, b, casting="safe"):
    return np.can_cast(a.dtype if isinstance(a, A) else arr.dt(a),
                       arr.dt(b), casting)


def dtype_(x, *a, **k):
    return arr.dt(x)


def array_str(a, *x, **k):
    return repr(a)


def vectorize(f, **k):
    def g(*a):
        r = ew(f, *[arr.objs(asany(x)) for x in a])
        return from_objects(r)
    return g


def frompyfunc(f, nin, nout):
    return vectorize(f)


def apply_along_axis(f, axis, a, *args, **k):
    a = asany(a)
    mv = moveaxis(a, axis, -1)  # noqa
    out = [f(mv[i], *args, **k) for i in np.ndindex(*mv.shape[:-1])]
    r = from_nested(out)
    r = r.reshape(mv.shape[:-1] + r.shape[1:])
    if r.ndim == a.ndim:
        r = moveaxis(r, -1, axis)  # noqa
    return r


class _ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


# ------------------------------------------------------------------- module
class Fallback(types.ModuleType):
    """Module facade: modelled names first, then real functions on concrete
    arguments."""

    def __init__(self, name, realmod, table, subs=None):
        super().__init__(name)
        d = self.__dict__
        d["_real"] = realmod
        d["__path__"] = []
        d.update(table)
        d.update(subs or {})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = getattr(self._real, name)
        v = lift_attr(r, f"{self.__name__}.{name}")
        self.__dict__[name] = v
        return v


def lift_attr(r, name):
    if isinstance(r, types.ModuleType):
        return Fallback(name, r, {})
    if isinstance(r, type):
        if issubclass(r, np.generic) and r not in (
                np.generic, np.number, np.integer, np.floating, np.inexact,
                np.complexfloating, np.bool_, np.void, np.object_,
                np.character, np.flexible, np.str_, np.bytes_,
                np.signedinteger, np.unsignedinteger):
            return scalar_class(np.dtype(r).str)
        if issubclass(r, BaseException):
            return r
        return r
    if callable(r):
        def f(*a, **k):
            return wrap(r(*[unwrap(x) for x in a],
                          **{kk: unwrap(v) for kk, v in k.items()}))
        f.__name__ = name
        f._real = r
        return f
    return wrap(r) if isinstance(r, (np.ndarray, np.generic)) else r


def build(world=None):
    """The numpy facade module."""
    g = globals()
    skip = {"real", "core", "arr", "M", "R", "np", "types", "operator",
            "B", "itertools", "Fallback", "build", "lift_attr", "mkclass",
            "scalar_class", "Fraction", "A", "SN", "SB", "SC", "num", "ew",
            "asany", "from_nested", "from_objects", "oarr", "unwrap",
            "wrap", "Unsupported", "stack_cat", "builtins_any", "any_flag",
            "garbage", "real_", "imag_", "dtype_"}
    t = {k: v for k, v in g.items()
         if not k.startswith("_") and k not in skip}
    t.update(real=real_, imag=imag_, dtype=dtype_, empty=_empty,
             errstate=_ErrState, ndarray=ndarray,
             seterr=lambda **k: {}, float64=scalar_class("f8"),
             float32=scalar_class("f4"), complex128=scalar_class("c16"),
             complex64=scalar_class("c8"), int64=scalar_class("i8"),
             int32=scalar_class("i4"), uint8=scalar_class("u1"),
             bool_=mkclass("bool_", np.bool_, _mkbool, _dtype_name="?"),
             newaxis=None, nan=float("nan"), inf=float("inf"), pi=np.pi,
             e=np.e, finfo=np.finfo, iinfo=np.iinfo, integer=np.integer,
             floating=np.floating, number=np.number, generic=np.generic,
             s_=np.s_, index_exp=np.index_exp, exceptions=np.exceptions)
    mod = Fallback("numpy", np, t)
    mod.__dict__["bool"] = BOOL_CLS
    matab = {
        "MaskedArray": MaskedArray, "masked_array": MaskedArray,
        "array": M.new, "asarray": lambda a, dtype=None, order=None:
            M.new(a, dtype=dtype, copy=False, keep_mask=True),
        "asanyarray": lambda a, dtype=None, **k: M.new(
            a, dtype=dtype, copy=False, keep_mask=True),
        "masked": M.masked, "nomask": M.nomask, "MaskError": np.ma.MaskError,
        "getmask": M.getmask, "getmaskarray": M.getmaskarray,
        "getdata": M.getdata, "make_mask": M.make_mask,
        "make_mask_none": lambda s, dtype=None: _full(s, 0, bool),
        "mask_or": M.mask_or, "filled": M.filled,
        "masked_where": lambda c, a, copy=True: M.masked_where(c, a, copy),
        "masked_invalid": M.masked_invalid,
        "masked_greater": M._mcmp(lambda x, v: greater(x, v)),
        "masked_greater_equal": M._mcmp(lambda x, v: greater_equal(x, v)),
        "masked_less": M._mcmp(lambda x, v: less(x, v)),
        "masked_less_equal": M._mcmp(lambda x, v: less_equal(x, v)),
        "masked_equal": M._mcmp(lambda x, v: equal(x, v)),
        "masked_not_equal": M._mcmp(lambda x, v: not_equal(x, v)),
        "masked_outside": lambda x, lo, hi, copy=True: M.masked_where(
            _filled_false(x, lo, hi), x, copy),
        "fix_invalid": M.fix_invalid,
        "is_masked": lambda x: (False if M._is_nomask(M.getmask(x))
                                else bool(M.getmask(x).any())),
        "isMaskedArray": lambda x: isinstance(x, np.ma.MaskedArray),
        "isMA": lambda x: isinstance(x, np.ma.MaskedArray),
        "isarray": lambda x: isinstance(x, np.ma.MaskedArray),
        "zeros": lambda *a, **k: M.new(zeros(*a, **k)),
        "ones": lambda *a, **k: M.new(ones(*a, **k)),
        "empty": lambda *a, **k: M.new(_empty(*a, **k)),
        "zeros_like": zeros_like, "ones_like": ones_like,
        "sum": lambda a, *x, **k: M.new(a, copy=False).sum(*x, **k),
        "mean": lambda a, *x, **k: M.new(a, copy=False).mean(*x, **k),
        "std": lambda a, *x, **k: M.new(a, copy=False).std(*x, **k),
        "median": _ma_median,
        "logical_or": logical_or, "logical_and": logical_and,
        "sqrt": lambda a, **k: _ma_sqrt(a),
        "abs": abs, "absolute": abs, "where": _ma_where,
        "count_masked": lambda a, axis=None: M.getmaskarray(a).sum(axis),
        "count": lambda a, axis=None: M.new(a, copy=False).count(axis),
        "compressed": lambda a: M.new(a, copy=False).compressed(),
        "copy": lambda a: a.copy(),
    }
    for nm, fn in {
            "add": "add", "subtract": "sub", "multiply": "mul",
            "divide": "truediv", "true_divide": "truediv",
            "floor_divide": "floordiv", "mod": "mod", "remainder": "mod",
            "power": "pow", "less": "lt", "less_equal": "le",
            "greater": "gt", "greater_equal": "ge", "equal": "eq",
            "not_equal": "ne", "maximum": "max", "minimum": "min",
            "bitwise_and": "and", "bitwise_or": "or",
            "bitwise_xor": "xor"}.items():
        matab[nm] = _ma_binary(fn)
    for nm in ("max", "min", "any", "all", "var", "prod", "argmax",
               "argmin", "ravel", "reshape", "transpose", "squeeze",
               "repeat", "take", "clip", "round", "swapaxes"):
        matab[nm] = _ma_method(nm)
    for nm in ("exp", "log", "log10", "floor", "ceil", "negative", "isnan",
               "isfinite", "fabs", "conjugate"):
        if nm in g:
            matab[nm] = _ma_unary(g[nm])
    for nm in ("concatenate", "hstack", "vstack", "stack",
               "column_stack"):
        matab[nm] = _ma_join(g[nm])
    mam = Fallback("numpy.ma", np.ma, matab)
    mam.__dict__["core"] = mam
    mod.__dict__["ma"] = mam
    ffttab = {}
    for inv in (False, True):
        i = "i" if inv else ""

        def f2(a, s=None, axes=(-2, -1), norm=None, out=None, inv=inv, **k):
            return arr._out(arr.fftn(a, s, axes, norm, inv), out)

        def fn(a, s=None, axes=None, norm=None, out=None, inv=inv, **k):
            return arr._out(arr.fftn(a, s, axes, norm, inv), out)

        def f1(a, n=None, axis=-1, norm=None, out=None, inv=inv, **k):
            return arr._out(arr.fftn(a, None if n is None else (n,),
                                     (axis,), norm, inv), out)
        ffttab[i + "fft2"] = f2
        ffttab[i + "fftn"] = fn
        ffttab[i + "fft"] = f1

    def rfftn(a, s=None, axes=None, norm=None, **k):
        r = arr.fftn(a, s, axes, norm)
        return r[..., : r.shape[-1] // 2 + 1]
    ffttab["rfftn"] = rfftn
    ffttab["rfft2"] = lambda a, s=None, axes=(-2, -1), norm=None, **k: \
        rfftn(a, s, axes, norm)

    def irfftn(a, s=None, axes=None, norm=None, **k):
        a = asany(a).astype("c16")
        if a.ndim != 2 or axes not in (None, (-2, -1), (0, 1)):
            raise Unsupported("irfftn")
        n = 2 * (a.shape[-1] - 1) if s is None else operator.index(s[-1])
        m = a.shape[0] if s is None else operator.index(s[0])
        if m != a.shape[0] or a.shape[1] < n // 2 + 1:
            raise Unsupported("irfftn shape")
        full_re, full_im = oarr((m, n)), oarr((m, n))
        for i in range(m):
            for j in range(n):
                if j <= n // 2:
                    full_re[i, j] = a.re[i, j]
                    full_im[i, j] = a.im[i, j]
                else:
                    full_re[i, j] = a.re[-i % m, n - j]
                    full_im[i, j] = -a.im[-i % m, n - j]
        r = arr.fftn(A(full_re, full_im, np.dtype("c16")), None, None, norm,
                     True)
        return A(r.re, None, np.dtype("f8"))
    ffttab["irfftn"] = irfftn
    ffttab["irfft2"] = lambda a, s=None, axes=(-2, -1), norm=None, **k: \
        irfftn(a, s, axes, norm)

    def fftshift(a, axes=None):
        a = asany(a)
        return A(np.fft.fftshift(a.re, axes), None if a.im is None else
                 np.fft.fftshift(a.im, axes), a.dtype)

    def ifftshift(a, axes=None):
        a = asany(a)
        return A(np.fft.ifftshift(a.re, axes), None if a.im is None else
                 np.fft.ifftshift(a.im, axes), a.dtype)
    ffttab["fftshift"] = fftshift
    ffttab["ifftshift"] = ifftshift

    def fftfreq(n, d=1.0, **k):
        n = operator.index(n)
        f = [num(Fraction(k if k < (n + 1) // 2 else k - n, n)) / d
             for k in range(n)]
        return from_nested([SN(x.p, "f") for x in f])
    ffttab["fftfreq"] = fftfreq
    mod.__dict__["fft"] = Fallback("numpy.fft", np.fft, ffttab)
    lin = {"norm": _norm, "LinAlgError": np.linalg.LinAlgError}
    mod.__dict__["linalg"] = Fallback("numpy.linalg", np.linalg, lin)
    rf = {"append_fields": append_fields}
    mod.__dict__["lib"] = Fallback("numpy.lib", np.lib, {
        "recfunctions": Fallback("numpy.lib.recfunctions",
                                 __import__("numpy.lib.recfunctions",
                                            fromlist=["x"]), rf)})
    mod.__dict__["random"] = Fallback("numpy.random", np.random, {})
    return mod


def _ma_binary(name):
    def f(a, b, *x, **k):
        if x or k:
            raise Unsupported("options of masked operations")
        return M.binop(M.new(a, copy=False), b, name)
    return f


def _ma_unary(fn):
    def f(a, **k):
        a = M.new(a, copy=False)
        return M.wrap1(a, fn)
    return f


def _ma_method(name):
    def f(a, *x, **k):
        return getattr(M.new(a, copy=False), name)(*x, **k)
    return f


def _ma_join(fn):
    def f(arrs, *x, **k):
        arrs = list(arrs)
        d = fn([M.plain(asany(v)) for v in arrs], *x, **k)
        if B.all(M._is_nomask(M.getmask(v)) for v in arrs):
            return M.MA(d.re, d.im, d.dtype)
        m = fn([M.getmaskarray(v) for v in arrs], *x, **k)
        return M.MA(d.re, d.im, d.dtype, m)
    return f


def _mkbool(x=False):
    if type(x) is SB:
        return x
    if isinstance(x, A) and x.ndim:
        return x.astype(bool)
    return bool(x)


BOOL_CLS = mkclass("bool", np.bool_, _mkbool, _dtype_name="?")


def _filled_false(x, lo, hi):
    return logical_or(less(x, lo), greater(x, hi))


def _ma_sqrt(a):
    if isinstance(a, M.MA):
        r = M.wrap1(a, arr.sqrt)
        bad = arr.logical("or", M.getmaskarray(a),
                          M.plain(less(a.data, 0)))
        return M.MA(r.re, r.im, r.dtype, bad)
    return sqrt(a)


def _ma_median(a, axis=None, **k):
    a = M.new(a, copy=False)
    if axis is not None:
        raise Unsupported("ma.median axis")
    return median(a.compressed())


def _ma_where(c, *xy):
    if not xy:
        return M.new(c, copy=False).nonzero()
    x, y = xy
    d = arr.where(M.plain(asany(c)), M.plain(asany(x)), M.plain(asany(y)))
    m = arr.where(M.plain(asany(c)), M.getmaskarray(x), M.getmaskarray(y)) \
        .astype(bool)
    return M.MA(d.re, d.im, d.dtype, m)


def _norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    x = asany(x)
    if x.im is not None:
        x = arr.absolute(x)
    s = (x * x).sum(axis)
    return sqrt(s) if isinstance(s, A) else core.sn_sqrt(s)


def append_fields(base, names, data, dtypes=None, fill_value=-1,
                  usemask=True, asrecarray=False):
    if not isinstance(base, R.Rec):
        base = R.from_real(base)
    return base.append(names, data, dtypes)
