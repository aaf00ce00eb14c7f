"""Model of numpy.ma.MaskedArray with symbolic masks."""

import operator

import numpy as np

from . import arr, core
from .arr import A, asany, core_not, core_or, ew, oarr, zero
from .core import SB, SC, SN, Unsupported, num, sn_ite

nomask = np.ma.nomask
masked = np.ma.masked
BOOL = np.dtype(bool)


def _is_nomask(m):
    return m is nomask or (isinstance(m, np.bool_) and not m)


def getmask(x):
    if isinstance(x, MA):
        return x._mask
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmask(x)
        return m if m is nomask else arr.wrap(m)
    return nomask


def getmaskarray(x):
    m = getmask(x)
    if _is_nomask(m):
        return A(oarr(asany(x).shape, False), None, BOOL)
    return m


def getdata(x):
    if isinstance(x, MA):
        return x.data
    return asany(x)


def plain(x):
    """A without mask (view)."""
    a = asany(x)
    return A(a.re, a.im, a.dtype) if isinstance(a, MA) else a


def shrink(m):
    if isinstance(m, A) and m.dtype.kind == "b":
        an = m.any()
        if an is False or not bool(an):
            return nomask
    return m


def make_mask(m, copy=False, shrink=True, dtype=None):
    if m is nomask:
        return nomask
    if isinstance(m, MA):
        m = m.filled(True)
    r = asany(m).astype(BOOL)
    if r is m and copy:
        r = r.copy()
    if r.ndim == 0 and not shrink:
        return r
    if shrink:
        return _shrink(r)
    return r


_shrink = shrink


def mask_or(m1, m2, copy=False, shrink=True):
    if m1 is nomask or m1 is False:
        return make_mask(m2, copy=copy, shrink=shrink)
    if m2 is nomask or m2 is False:
        return make_mask(m1, copy=copy, shrink=shrink)
    if m1 is m2 and isinstance(m1, A) and m1.dtype.kind == "b":
        return _shrink(m1) if shrink else m1
    d1 = getattr(m1, "dtype", None)
    d2 = getattr(m2, "dtype", None)
    if d1 != d2:
        raise ValueError(f"Incompatible dtypes '{d1}'<>'{d2}'")
    return make_mask(arr.logical("or", m1, m2), copy=copy, shrink=shrink)


class MA(A):
    """Masked array; the planes hold the data."""

    def __init__(self, re, im=None, dtype=None, mask=nomask, fill=None):
        super().__init__(re, im, dtype)
        self._mask = mask
        self._fill_value = fill
        self._hardmask = False

    @property
    def __class__(self):
        return np.ma.MaskedArray

    @property
    def data(self):
        return A(self.re, self.im, self.dtype)

    _data = data

    @property
    def mask(self):
        return self._mask if _is_nomask(self._mask) else A(
            self._mask.re, None, BOOL)

    @mask.setter
    def mask(self, m):
        if self._mask is nomask:
            if m is nomask:
                return
            self._mask = A(oarr(self.shape, False), None, BOOL)
        cur = self._mask
        if m is masked:
            m = True
        if isinstance(m, MA):
            m = m.data
        mm = asany(m).astype(BOOL)
        if self._hardmask:
            cur.re[...] = ew(core_or, cur.re, np.broadcast_to(mm.re,
                                                              cur.shape))
        elif mm.ndim == 0:
            cur[...] = mm
        else:
            if mm.size == 0:
                raise ValueError("cannot set a mask from an empty sequence")
            cur.flat = mm

    def __setmask__(self, m, copy=False):
        self.mask = m

    @property
    def recordmask(self):
        return self.mask

    @property
    def fill_value(self):
        if self._fill_value is not None:
            return self._fill_value
        return {"b": True, "i": 999999, "u": 999999, "f": 1e20,
                "c": 1e20 + 0j}.get(self.dtype.kind, None)

    @fill_value.setter
    def fill_value(self, v):
        self._fill_value = v

    def _new(self, re, im=None, dtype=None):
        r = A._new(self, re, im, dtype)
        return r

    def _like(self, a, mask):
        return MA(a.re, a.im, a.dtype, mask, self._fill_value)

    def soften_mask(self):
        self._hardmask = False
        return self

    def harden_mask(self):
        self._hardmask = True
        return self

    def unshare_mask(self):
        if not _is_nomask(self._mask):
            self._mask = self._mask.copy()
        return self

    def shrink_mask(self):
        self._mask = _shrink(self._mask)
        return self

    def filled(self, fill_value=None):
        m = self._mask
        if _is_nomask(m):
            return self.data
        fv = self.fill_value if fill_value is None else fill_value
        f = asany(fv)
        f = f.astype(self.dtype) if f.dtype != self.dtype else f
        return arr.where(m, f, self.data).astype(self.dtype)

    def compressed(self):
        d = self.data.ravel()
        if _is_nomask(self._mask):
            return d
        return d[~self._mask.ravel()]

    def count(self, axis=None, keepdims=False):
        if _is_nomask(self._mask):
            return num(self.size if axis is None else self.shape[axis])
        return (~self._mask).sum(axis, keepdims=keepdims)

    def concrete_ma(self):
        d = self.data.concrete()
        m = nomask if _is_nomask(self._mask) else self._mask.concrete()
        r = np.ma.MaskedArray(d, mask=m)
        if self._fill_value is not None:
            r.fill_value = arr.unwrap(self._fill_value)
        return r

    def concrete(self):
        # np.asarray(masked_array) is the bare data
        return self.data.concrete()

    def sym(self):
        return A.sym(self) or (not _is_nomask(self._mask) and
                               self._mask.sym())

    def key(self):
        return (A.key(self), None if _is_nomask(self._mask)
                else self._mask.key())

    # --- structure
    def __getitem__(self, k):
        d = self.data[k]
        if _is_nomask(self._mask):
            if isinstance(d, A):
                return MA(d.re, d.im, d.dtype, nomask, self._fill_value)
            return d
        m = self._mask[k]
        if not isinstance(d, A):
            if bool(m):
                return masked
            return d
        return MA(d.re, d.im, d.dtype, m, self._fill_value)

    def __setitem__(self, k, v):
        if v is masked:
            if _is_nomask(self._mask):
                self._mask = A(oarr(self.shape, False), None, BOOL)
            self._mask[k] = True
            return
        vm = getmask(v)
        dv = plain(v)
        if self._hardmask:
            raise Unsupported("hard mask assignment")
        self.data[k] = dv
        if _is_nomask(self._mask):
            if not _is_nomask(vm):
                self._mask = A(oarr(self.shape, False), None, BOOL)
                self._mask[k] = vm
        else:
            self._mask[k] = False if _is_nomask(vm) else vm

    def _map(self, name, *a, **k):
        d = getattr(self.data, name)(*a, **k)
        m = self._mask if _is_nomask(self._mask) else getattr(
            self._mask, name)(*a, **k)
        if not isinstance(d, A):
            return masked if bool(m) else d
        return MA(d.re, d.im, d.dtype, m, self._fill_value)

    def reshape(self, *s, **k):
        return self._map("reshape", *s, **k)

    def flatten(self, *a):
        return self._map("flatten", *a)

    def ravel(self, *a, **k):
        return self._map("ravel", *a, **k)

    def transpose(self, *a):
        return self._map("transpose", *a)

    def swapaxes(self, *a):
        return self._map("swapaxes", *a)

    def squeeze(self, *a, **k):
        return self._map("squeeze", *a, **k)

    def copy(self, *a, **k):
        return self._map("copy")

    def repeat(self, *a, **k):
        return self._map("repeat", *a, **k)

    def take(self, *a, **k):
        return self._map("take", *a, **k)

    @property
    def T(self):
        return self.transpose()

    def view(self, t=None, **kw):
        if t is None or getattr(t, "_is_ma_cls", False):
            return MA(self.re, self.im, self.dtype, self._mask,
                      self._fill_value)
        if getattr(t, "_is_ndarray_cls", False):
            return self.data
        return A.view(self, t)

    def astype(self, t, *a, **k):
        d = self.data.astype(t)
        m = self._mask if _is_nomask(self._mask) else self._mask.copy()
        return MA(d.re, d.im, d.dtype, m, self._fill_value)

    @property
    def real(self):
        d = self.data.real
        return MA(d.re, d.im, d.dtype, self._mask, None)

    @property
    def imag(self):
        d = self.data.imag
        return MA(d.re, d.im, d.dtype, self._mask, None)

    def conj(self):
        d = self.data.conj()
        return MA(d.re, d.im, d.dtype, self._mask, self._fill_value)

    conjugate = conj

    # --- operators
    def _bin(self, o, name, reflected=False):
        if isinstance(o, (str, dict)) or o is None:
            return NotImplemented
        if o is masked:
            r = self.copy()
            r._mask = A(oarr(self.shape, True), None, BOOL)
            return r
        if not arr._arrayish(o):
            return NotImplemented
        return binop(self, o, name, reflected)

    def _inplace(self, o, name):
        m = getmask(o)
        od = plain(getdata(o))
        if name in ("truediv", "floordiv"):
            # divisions out of the domain become masked and are not done
            bad = arr.nonfinite(arr.binary(name, self.data, od), "finite")
            bad = A(ew(core_not, np.broadcast_to(asany(bad).re,
                                                 self.shape)), None, BOOL)
            dz = ew(lambda x: x == 0, np.broadcast_to(asany(od).re,
                                                      self.shape))
            bad = A(ew(core_or, bad.re, dz), None, BOOL)
            od = asany(od)
            od = A(np.broadcast_to(od.re, self.shape).copy(), None
                   if od.im is None else
                   np.broadcast_to(od.im, self.shape).copy(), od.dtype)
            one = A(arr.obox(num(1)), None, od.dtype)
            od = arr.where(bad, one, od).astype(od.dtype)
            bn = bad if _is_nomask(m) else arr.logical("or", bad, m)
            if _is_nomask(self._mask):
                if bool(bn.any()):
                    self._mask = bn
            else:
                self._mask[...] = arr.logical("or", self._mask, bn)
            if not _is_nomask(self._mask):
                od = arr.where(self._mask, one, od).astype(od.dtype)
            A._inplace(self.data, od, name)
            return self
        if _is_nomask(self._mask):
            if not _is_nomask(m) and bool(m.any()):
                self._mask = A(oarr(self.shape, False), None, BOOL)
                self._mask[...] = m
        elif not _is_nomask(m):
            self._mask[...] = arr.logical("or", self._mask, m)
        if name in ("and", "or", "xor"):
            A._inplace(self.data, od, name)
            return self
        if not _is_nomask(self._mask):
            neutral = 1 if name in ("mul", "pow") else 0
            z = A(arr.obox(num(neutral)), None, od.dtype)
            od = arr.where(self._mask, z.astype(od.dtype), od)
        A._inplace(self.data, od, name)
        return self

    def __neg__(self):
        return wrap1(self, operator.neg)

    def __abs__(self):
        return wrap1(self, arr.absolute)

    def __invert__(self):
        return wrap1(self, operator.invert)

    # --- reductions
    def _red(self, name, fillv, axis=None, keepdims=False, **kw):
        if _is_nomask(self._mask):
            d = self.data
            r = getattr(d, name)(axis=axis, keepdims=keepdims)
            if isinstance(r, A):
                return MA(r.re, r.im, r.dtype)
            return r
        am = self._mask.all(axis, keepdims=keepdims)
        r = getattr(self.filled(fillv), name)(axis=axis, keepdims=keepdims)
        if isinstance(r, A):
            return MA(r.re, r.im, r.dtype, am)
        if bool(am):
            return masked
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._red("sum", 0, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._red("prod", 1, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return self._red("any", False, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return self._red("all", True, axis, keepdims)

    def max(self, axis=None, out=None, fill_value=None, keepdims=False):
        return self._red("max", -np.inf if self.dtype.kind == "f"
                         else -2 ** 62, axis, keepdims)

    def min(self, axis=None, out=None, fill_value=None, keepdims=False):
        return self._red("min", np.inf if self.dtype.kind == "f"
                         else 2 ** 62, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        if _is_nomask(self._mask):
            return self.data.mean(axis, keepdims=keepdims)
        s = self.sum(axis, keepdims=keepdims)
        if s is masked:
            return masked
        return s / self.count(axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        if _is_nomask(self._mask):
            return self.data.var(axis, ddof=ddof)
        m = self.mean(axis, keepdims=True) if axis is not None else \
            self.mean()
        if m is masked:
            return masked
        d = self - m
        s = (d * d).sum(axis)
        return s / (self.count(axis) - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        v = self.var(axis, ddof=ddof)
        return v if v is masked else arr_sqrt(v)

    def cumsum(self, *a, **k):
        raise Unsupported("masked cumsum")

    def argmax(self, axis=None, fill_value=None, **k):
        return self.filled(-np.inf).argmax(axis)

    def argmin(self, axis=None, fill_value=None, **k):
        return self.filled(np.inf).argmin(axis)

    def nonzero(self):
        return self.filled(0).nonzero()

    def sort(self, *a, **k):
        raise Unsupported("masked sort")

    def clip(self, *a, **k):
        return wrap1(self, lambda d: d.clip(*a, **k))

    def round(self, *a, **k):
        return wrap1(self, lambda d: d.round(*a, **k))

    def dot(self, o):
        raise Unsupported("masked dot")

    def tolist(self):
        return self.filled().tolist()

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def _one(self):
        return A._one(self.data)

    def __bool__(self):
        return A.__bool__(self.data)

    def elem(self, i):
        return A.elem(self, i)


def arr_sqrt(v):
    return wrap1(v, arr.sqrt) if isinstance(v, MA) else (
        arr.sqrt(v) if isinstance(v, A) else core.sn_sqrt(v))


def wrap1(a, f):
    """Unary ufunc on a masked array through __array_wrap__."""
    d = f(a.data)
    m = getmaskarray(a).copy()
    return MA(d.re, d.im, d.dtype, m, a._fill_value)


def binop(a, b, name, reflected=False):
    if reflected:
        a, b = b, a
    da, db = plain(getdata(a)), plain(getdata(b))
    ma_, mb_ = getmask(a), getmask(b)
    src = a if isinstance(a, MA) else b
    if name in arr._CMP:
        m = mask_or(nomask if _is_nomask(ma_) else ma_,
                    nomask if _is_nomask(mb_) else mb_, copy=True) \
            if not (_is_nomask(ma_) and _is_nomask(mb_)) else nomask
        r = arr.binary(name, da, db)
        if not isinstance(r, A):
            return masked if (not _is_nomask(m) and bool(m)) else r
        if not _is_nomask(m):
            if m.shape != r.shape:
                m = A(np.broadcast_to(m.re, r.shape).copy(), None, BOOL)
        return MA(r.re, None, r.dtype, m)
    if name in ("truediv", "floordiv", "mod"):
        r = arr.binary(name, da, db)
        if not isinstance(r, A):
            r = asany(r)
        # domain: non finite results and unsafe divisors are masked
        bad = arr.nonfinite(r, "finite")
        bad = A(ew(core_not, bad.re if isinstance(bad, A) else
                   arr.obox(bad)), None, BOOL)
        bshape = r.shape
        if db.im is None:
            dz = ew(lambda x: x == 0, np.broadcast_to(db.re, bshape))
            bad = A(ew(core_or, bad.re, dz), None, BOOL)
        m = bad
        for mm in (ma_, mb_):
            if not _is_nomask(mm):
                m = A(ew(core_or, m.re, np.broadcast_to(mm.re, bshape)),
                      None, BOOL)
        if not r.ndim:
            return masked if bool(m.elem(())) else r.elem(())
        # masked entries keep the numerator
        try:
            keep = A(np.broadcast_to(da.re, bshape).copy(), None if
                     da.im is None else np.broadcast_to(da.im, bshape)
                     .copy(), da.dtype).astype(r.dtype)
            r = arr.where(m, keep, r).astype(r.dtype)
        except TypeError:
            pass
        return MA(r.re, r.im, r.dtype, m, src._fill_value)
    if name == "pow":
        r = arr.binary(name, da, db)
        m = nomask
        if not (_is_nomask(ma_) and _is_nomask(mb_)):
            m = arr.logical("or", getmaskarray(a), getmaskarray(b))
        return MA(r.re, r.im, r.dtype, m, src._fill_value)
    r = arr.binary(name, da, db)
    if _is_nomask(ma_) and _is_nomask(mb_):
        m = nomask
    else:
        m = arr.logical("or", getmaskarray(a), getmaskarray(b))
    if not isinstance(r, A):
        mm = m.elem(()) if isinstance(m, A) and m.ndim == 0 else m
        if not _is_nomask(mm) and bool(mm):
            return masked
        return r
    if not _is_nomask(m):
        try:
            dab = A(np.broadcast_to(da.re, r.shape),
                    None if da.im is None else np.broadcast_to(da.im,
                                                               r.shape),
                    da.dtype)
            if dab.dtype != r.dtype:
                dab = dab.astype(r.dtype)
            r = arr.where(m, dab, r).astype(r.dtype)
        except TypeError:
            pass
    return MA(r.re, r.im, r.dtype, m, src._fill_value)


def from_real(x):
    if x is masked:
        return x
    d = arr.wrap(np.asarray(x.data))
    m = nomask if x._mask is nomask else arr.wrap(np.asarray(x._mask))
    return MA(d.re, d.im, d.dtype, m)


def new(data=None, mask=nomask, dtype=None, copy=False, subok=True, ndmin=0,
        fill_value=None, keep_mask=True, hard_mask=None, shrink=True,
        order=None):
    if isinstance(data, np.ma.MaskedArray) and not isinstance(data, MA):
        data = from_real(data)
    d = plain(asany(data))
    if dtype is not None and arr.dt(dtype) != d.dtype:
        d = d.astype(dtype)
    elif copy:
        d = d.copy()
    dm = getmask(data)
    if mask is nomask:
        if not keep_mask:
            m = nomask
        else:
            m = dm
            if not _is_nomask(m) and copy:
                m = m.copy()
    else:
        if mask is None:
            mask = False
        if mask is True or (isinstance(mask, np.bool_) and mask):
            m = A(oarr(d.shape, True), None, BOOL)
        elif mask is False or isinstance(mask, np.bool_):
            m = A(oarr(d.shape, False), None, BOOL)
        else:
            mm = plain(mask)
            m = mm.astype(BOOL) if mm.dtype != BOOL else (
                mm.copy() if copy else mm)
        if m.shape != d.shape:
            if m.size == 1:
                m = A(oarr(d.shape, m.elem((0,) * m.ndim)), None, BOOL)
            elif m.size == d.size:
                m = m.reshape(d.shape)
            else:
                raise np.ma.MaskError(
                    "Mask and data not compatible: data size is "
                    f"{d.size}, mask size is {m.size}.")
        if not _is_nomask(dm) and keep_mask:
            m = arr.logical("or", m, dm)
    fv = fill_value
    if fv is None and isinstance(data, MA):
        fv = data._fill_value
    r = MA(d.re, d.im, d.dtype, m, fv)
    if hard_mask:
        r._hardmask = True
    return r


def masked_where(cond, a, copy=True, shrink_=True):
    c = make_mask(cond, shrink=False)
    data = plain(asany(a))
    if c.shape and c.shape != data.shape:
        raise IndexError("Inconsistent shape between the condition and the "
                         f"input (got {c.shape} and {data.shape})")
    if isinstance(a, MA):
        c = mask_or(c, a._mask)
    d = data.copy() if copy else data
    fv = a._fill_value if isinstance(a, MA) else None
    c = _shrink(c) if not _is_nomask(c) else c
    base = nomask
    if isinstance(a, MA):
        base = a._mask if _is_nomask(a._mask) else (
            a._mask.copy() if copy else a._mask)
    r = MA(d.re, d.im, d.dtype, base, fv)
    r.mask = c
    return r


def masked_invalid(a, copy=True):
    bad = ~arr.asany(arr.nonfinite(plain(asany(a)), "finite"))
    r = masked_where(bad, a, copy=copy)
    if _is_nomask(r._mask):
        r._mask = A(oarr(r.shape, False), None, BOOL)
    return r


def _mcmp(op):
    def f(x, value, copy=True):
        c = op(x, value)
        return masked_where(c, x, copy=copy)
    return f


def filled(a, fill_value=None):
    if isinstance(a, MA):
        return a.filled(fill_value)
    return a


def fix_invalid(a, mask=nomask, copy=True, fill_value=None):
    r = new(a, mask=mask, copy=copy, subok=True)
    bad = ~arr.asany(arr.nonfinite(r.data, "finite"))
    if not bool(bad.any()):
        return r
    if _is_nomask(r._mask):
        r._mask = A(oarr(r.shape, False), None, BOOL)
    r._mask[...] = arr.logical("or", r._mask, bad)
    fv = r.fill_value if fill_value is None else fill_value
    r.data[bad] = fv
    return r
