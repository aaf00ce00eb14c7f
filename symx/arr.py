"""Symbolic n-dimensional arrays (own ndarray model on object planes)."""

import math
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import (SB, SC, SN, Unsupported, ctx, lift, num, sn_abs, sn_floor,
                   sn_ite, sn_max, sn_min, sn_rint, sn_sqrt, sn_trunc, to_num,
                   to_sc)

_PYINT = int
_PYFLOAT = float


def DT(x):
    return np.dtype(x)


_NAMEMAP = {}


def dt(t):
    """Anything that names a dtype -> np.dtype."""
    if t is None:
        return np.dtype("f8")
    if isinstance(t, np.dtype):
        return t
    k = getattr(t, "_dtype_name", None)
    if k is not None:
        return np.dtype(k)
    if t is bool or t is SB:
        return np.dtype(bool)
    return np.dtype(t)


def kind(d):
    return d.kind


def cast_scalar(x, d):
    k = d.kind
    if k == "O":
        return x
    if k == "b":
        if type(x) is SB or isinstance(x, (bool, np.bool_)):
            return x if type(x) is SB else bool(x)
        return x != 0
    if k in "iu":
        if type(x) is SC:
            x = x.re
        x = num(to_num(x))
        if x.special is not None:
            if x.is_concrete():
                # C cast of a non-finite float: unspecified
                return SN(core.p_const(Fraction(-2 ** 63)), "i")
            x = SN(x.p, x.k)
        if x.k == "i":
            return x
        return sn_trunc(x)
    if k == "f":
        if type(x) is SC:
            x = x.re
        x = to_num(x)
        if x.k == "i":
            r = SN(x.p, "f", x.nan, x.pinf, x.ninf)
            return r
        return x
    if k == "c":
        return to_sc(to_num(x) if type(x) is SB else x)
    raise Unsupported(f"dtype {d}")


_F = {}


def _ufn(fn, nin):
    k = (fn, nin)
    r = _F.get(k)
    if r is None:
        r = np.frompyfunc(fn, nin, 1)
        _F[k] = r
    return r


def ew(fn, *planes):
    """Elementwise on object planes, always returns an object ndarray."""
    r = np.frompyfunc(fn, len(planes), 1)(*planes)
    if not isinstance(r, np.ndarray):
        o = np.empty((), object)
        o[()] = r
        return o
    return r


def oarr(shape, fill=None):
    o = np.empty(shape, object)
    if fill is not None:
        for i in np.ndindex(*o.shape):
            o[i] = fill
    return o


def obox(x):
    o = np.empty((), object)
    o[()] = x
    return o


ZERO = None


def zero():
    return SN({}, "f")


class Flat:
    def __init__(self, a):
        self.a = a

    def __len__(self):
        return self.a.size

    def __iter__(self):
        for i in range(self.a.size):
            yield self[i]

    def __getitem__(self, i):
        return self.a.ravel()[i]

    def __setitem__(self, i, v):
        a = self.a
        flat = a.re.reshape(-1)
        if not np.shares_memory(flat, a.re) and a.size:
            raise Unsupported("flat assignment on non contiguous array")
        tmp = A(flat, None if a.im is None else a.im.reshape(-1), a.dtype)
        tmp[i] = v


class A:
    """ndarray model."""

    __array_priority__ = 10.0
    __array_ufunc__ = None

    def __init__(self, re, im=None, dtype=None):
        self.re = re
        self.im = im
        self.dtype = dtype if dtype is not None else np.dtype("f8")

    @property
    def __class__(self):
        return np.ndarray

    # ---------------------------------------------------------------- basics
    shape = property(lambda s: s.re.shape)
    ndim = property(lambda s: s.re.ndim)
    size = property(lambda s: s.re.size)
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.size * s.dtype.itemsize)
    flags = property(lambda s: s.re.flags)

    @shape.setter
    def shape(self, s):
        self.re = self.re.reshape(s)
        if self.im is not None:
            self.im = self.im.reshape(s)

    def _new(self, re, im=None, dtype=None):
        if not isinstance(re, np.ndarray):
            re = obox(re)
            if im is not None and not isinstance(im, np.ndarray):
                im = obox(im)
        return A(re, im, self.dtype if dtype is None else dtype)

    def elem(self, i):
        """Element at an index tuple as a scalar."""
        r = self.re[i]
        if self.im is not None:
            return SC(r, self.im[i],
                      "c8" if self.dtype.itemsize == 8 else "c16")
        return r

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.re.shape[0]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def sym(self):
        for x in self.re.flat:
            if core.is_sym(x):
                return True
        if self.im is not None:
            for x in self.im.flat:
                if core.is_sym(x):
                    return True
        return False

    def concrete(self):
        """Real ndarray, or Unsupported."""
        if self.sym():
            raise Unsupported("a concrete array is needed here")
        k = self.dtype.kind
        if k == "O":
            return self.re.copy()
        out = np.empty(self.shape, self.dtype)
        for i in np.ndindex(*self.shape):
            x = self.re[i]
            if k == "b":
                out[i] = bool(x)
            elif self.im is not None:
                out[i] = complex(float(x), float(self.im[i]))
            else:
                v = num(x).concrete()
                with np.errstate(all="ignore"):
                    out[i] = v
        return out

    def __array__(self, dtype=None, copy=None):
        r = self.concrete()
        return r if dtype is None else r.astype(dt(dtype))

    def key(self):
        def k1(x):
            if isinstance(x, SN):
                return x.key()
            if type(x) is SB:
                ctx().keep.append(x.z)
                return ("b", x.z.get_id())
            return x if not isinstance(x, np.bool_) else bool(x)
        return (self.shape, tuple(k1(x) for x in self.re.flat),
                None if self.im is None else
                tuple(k1(x) for x in self.im.flat))

    def __repr__(self):
        return f"A({self.shape},{self.dtype}, {self.re.ravel()[:4]!r})"

    def __format__(self, s):
        return f"<symbolic array {self.shape}>"

    __hash__ = None

    def __bool__(self):
        if self.size == 1:
            return bool(self.re.reshape(-1)[0] if self.im is None
                        else self.elem((0,) * self.ndim) != 0)
        if self.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous.")
        raise ValueError(
            "The truth value of an array with more than one element is "
            "ambiguous. Use a.any() or a.all()")

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else (a[0],)] if self.ndim != 1 \
                else self[a[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a "
                             "Python scalar")
        return self.elem((0,) * self.ndim)

    def __float__(self):
        return float(self._one())

    def _one(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python"
                            " scalars")
        return self.elem((0,) * self.ndim)

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to "
                            "a scalar index")
        return operator.index(self._one())

    def __complex__(self):
        return complex(self._one())

    def __round__(self, nd=None):
        return round(self._one(), nd)

    def _sym_scalar(self):
        if self.ndim == 0:
            return self.elem(())
        return None

    # ---------------------------------------------------------------- index
    def _key(self, key):
        def one(k):
            if isinstance(k, A):
                if k.dtype.kind == "b":
                    return np.array([bool(x) for x in k.re.flat],
                                    bool).reshape(k.shape)
                return np.array([operator.index(cast_index(x))
                                 for x in k.re.flat],
                                int).reshape(k.shape)
            if isinstance(k, SN):
                return operator.index(k)
            if type(k) is SB:
                return bool(k)
            if isinstance(k, slice):
                f = (lambda v: v if v is None else operator.index(v))
                return slice(f(k.start), f(k.stop), f(k.step))
            if isinstance(k, (list,)):
                return [one(x) for x in k]
            return k
        if isinstance(key, tuple):
            return tuple(one(k) for k in key)
        return one(key)

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError(
                "only integers, slices (`:`), ellipsis (`...`), "
                "numpy.newaxis (`None`) and integer or boolean arrays are "
                "valid indices")
        k = self._key(key)
        r = self.re[k]
        if not isinstance(r, np.ndarray):
            if self.im is not None:
                return SC(r, self.im[k],
                          "c8" if self.dtype.itemsize == 8 else "c16")
            return r
        return self._new(r, None if self.im is None else self.im[k])

    def __setitem__(self, key, v):
        v = asany(v)
        if isinstance(key, A) and key.dtype.kind == "b" and key.sym() \
                and v.size == 1 and key.shape == self.shape:
            vv = v.elem((0,) * v.ndim)
            vv = cast_assign(vv, self.dtype)
            for i in np.ndindex(*self.shape):
                c = key.re[i]
                if c is False:
                    continue
                self._setel(i, sn_ite(c, vv, self.elem(i)))
            return
        k = self._key(key)
        if self.dtype.kind == "O":
            self.re[k] = v.re if v.ndim else v.re[()]
            return
        v = v.astype(self.dtype) if v.dtype != self.dtype else v
        if np.isscalar(k) or isinstance(k, int) or (
                isinstance(k, tuple) and len(k) == self.ndim and
                all(isinstance(x, int) for x in k)):
            tgt = self.re[k]
            if not isinstance(tgt, np.ndarray):
                if v.size != 1:
                    raise ValueError("setting an array element with a "
                                     "sequence.")
                x = v.elem((0,) * v.ndim)
                if self.im is not None:
                    self.re[k], self.im[k] = x.re, x.im
                else:
                    self.re[k] = x
                return
        self.re[k] = v.re
        if self.im is not None:
            self.im[k] = v.im

    def _setel(self, i, x):
        if self.im is not None:
            x = to_sc(x)
            self.re[i], self.im[i] = x.re, x.im
        else:
            self.re[i] = x

    # ------------------------------------------------------------- arithmetic
    def _bin(self, o, name, reflected=False):
        if isinstance(o, (str, bytes, dict)) or o is None:
            return NotImplemented
        from . import ma
        if isinstance(o, ma.MA) and not isinstance(self, ma.MA):
            return ma.binop(o, self, name, not reflected)
        if not _arrayish(o):
            return NotImplemented
        a, b = (asany(o, like=self), self) if reflected else \
            (self, asany(o, like=self))
        return binary(name, a, b)

    def _inplace(self, o, name):
        b = asany(o, like=self)
        r = binary(name, self, b)
        if not np.can_cast(r.dtype, self.dtype, "same_kind"):
            raise TypeError(
                f"Cannot cast ufunc '{name}' output from {r.dtype!r} to "
                f"{self.dtype!r} with casting rule 'same_kind'")
        if r.shape != self.shape:
            raise ValueError(
                f"non-broadcastable output operand with shape {self.shape} "
                f"doesn't match the broadcast shape {r.shape}")
        r = r.astype(self.dtype)
        self.re[...] = r.re
        if self.im is not None:
            self.im[...] = r.im
        return self

    # ---------------------------------------------------------------- unary
    def __neg__(self):
        if self.dtype.kind == "b":
            raise TypeError("The numpy boolean negative, the `-` operator, "
                            "is not supported")
        return self._new(ew(operator.neg, self.re),
                         None if self.im is None else
                         ew(operator.neg, self.im))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        return logical_not_bits(self)

    @property
    def real(self):
        if self.im is None:
            return self
        return self._new(self.re, None, _realdt(self.dtype))

    @real.setter
    def real(self, v):
        self.real[...] = v

    @property
    def imag(self):
        if self.im is None:
            return A(oarr(self.shape, zero()), None, self.dtype)
        return self._new(self.im, None, _realdt(self.dtype))

    @imag.setter
    def imag(self, v):
        self.imag[...] = v

    def conj(self):
        if self.im is None:
            return self.copy()
        return self._new(self.re.copy(), ew(operator.neg, self.im))

    conjugate = conj

    @property
    def T(self):
        return self._new(self.re.T, None if self.im is None else self.im.T)

    @property
    def flat(self):
        return Flat(self)

    @flat.setter
    def flat(self, v):
        v = asany(v).astype(self.dtype)
        vr = v.re.reshape(-1)
        n = len(vr)
        for j, i in enumerate(np.ndindex(*self.shape)):
            self.re[i] = vr[j % n]
            if self.im is not None:
                self.im[i] = v.im.reshape(-1)[j % n]

    def transpose(self, *axes):
        return self._new(self.re.transpose(*axes),
                         None if self.im is None else
                         self.im.transpose(*axes))

    def swapaxes(self, a, b):
        return self._new(self.re.swapaxes(a, b), None if self.im is None
                         else self.im.swapaxes(a, b))

    def reshape(self, *s, order="C", **kw):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        s = tuple(operator.index(x) for x in (s if isinstance(s, (tuple,
                                                                  list))
                                              else (s,)))
        return self._new(self.re.reshape(s, order=order),
                         None if self.im is None
                         else self.im.reshape(s, order=order))

    def flatten(self, order="C"):
        return self._new(self.re.flatten(order),
                         None if self.im is None else self.im.flatten(order))

    def ravel(self, order="C"):
        return self._new(self.re.ravel(order),
                         None if self.im is None else self.im.ravel(order))

    def squeeze(self, axis=None):
        return self._new(self.re.squeeze(axis),
                         None if self.im is None else self.im.squeeze(axis))

    def copy(self, order="C"):
        return self._new(self.re.copy(),
                         None if self.im is None else self.im.copy())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, t=None, **kw):
        if t is None or getattr(t, "_is_ndarray_cls", False):
            return A(self.re, self.im, self.dtype)
        from . import ma
        if getattr(t, "_is_ma_cls", False):
            return ma.MA(self.re, self.im, self.dtype)
        d = dt(t)
        if d == self.dtype:
            return self._new(self.re, self.im)
        if d.kind == "f" and self.dtype.kind == "c":
            raise Unsupported("complex as float view")
        raise Unsupported("view with another dtype")

    def astype(self, t, order="K", casting="unsafe", subok=True, copy=True):
        d = dt(t)
        if d == self.dtype:
            return self.copy() if copy else self
        if d.kind == "O":
            if self.im is not None:
                r = oarr(self.shape)
                for i in np.ndindex(*self.shape):
                    r[i] = self.elem(i)
                return self._new(r, None, d)
            return self._new(self.re.copy(), None, d)
        if d.kind == "c":
            if self.im is not None:
                return self._new(self.re.copy(), self.im.copy(), d)
            r = ew(lambda x: cast_scalar(x, np.dtype("f8")), self.re)
            return self._new(r, oarr(self.shape, zero()), d)
        if self.dtype.kind == "O":
            try:
                return self._new(ew(lambda x: cast_scalar(x, d), self.re),
                                 None, d)
            except TypeError:
                raise
        if d.kind == "b" and self.im is not None:
            r = oarr(self.shape)
            for i in np.ndindex(*self.shape):
                r[i] = self.elem(i) != 0
            return self._new(r, None, d)
        return self._new(ew(lambda x: cast_scalar(x, d), self.re), None, d)

    def byteswap(self, inplace=False):
        raise Unsupported("byteswap")

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if self.ndim == 0:
            return self.elem(())
        return [x.tolist() if isinstance(x, A) else x for x in self]

    # ------------------------------------------------------------ reductions
    def _reduce(self, f, axis=None, keepdims=False, dtype=None, init=None):
        """f(list of scalars) -> scalar."""
        nd = self.ndim
        if axis is None:
            axes = tuple(range(nd))
        else:
            axes = axis if isinstance(axis, (tuple, list)) else (axis,)
            axes = tuple(operator.index(a) for a in axes)
            for a in axes:
                if a < -nd or a >= nd:
                    raise np.exceptions.AxisError(a, nd)
            axes = tuple(a % nd for a in axes)
        rest = [i for i in range(nd) if i not in axes]
        rshape = tuple(self.shape[i] for i in rest)
        perm = rest + list(axes)
        re = self.re.transpose(perm).reshape(rshape + (-1,)) if self.size \
            else self.re.reshape(rshape + (0,))
        im = None if self.im is None else \
            self.im.transpose(perm).reshape(re.shape)
        out = oarr(rshape)
        cplx = False
        for i in np.ndindex(*rshape):
            if im is None:
                els = list(re[i])
            else:
                els = [SC(a, b) for a, b in zip(re[i], im[i])]
            out[i] = f(els)
            if type(out[i]) is SC:
                cplx = True
        if not rest and not keepdims:
            r = out[()]
            if type(r) is SC:
                return SC(r.re, r.im, "c16")
            return r
        d = self.dtype if dtype is None else dtype
        if keepdims:
            out = out.reshape(tuple(1 if i in axes else self.shape[i]
                                    for i in range(nd)))
        return from_objects(out, d)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        d = np.dtype("i8") if self.dtype.kind in "bui" else self.dtype
        if dtype is not None:
            d = dt(dtype)

        def f(els):
            r = None
            for x in els:
                x = to_num(x) if self.dtype.kind == "b" else x
                r = x if r is None else r + x
            if r is None:
                r = SN({}, "i" if d.kind == "i" else "f")
            return r
        r = self._reduce(f, axis, keepdims, d)
        return _out(r, out)

    def prod(self, axis=None, dtype=None, keepdims=False, **kw):
        def f(els):
            r = num(1)
            for x in els:
                r = (to_num(x) if type(x) is SB else x) * r
            return r
        return self._reduce(f, axis, keepdims,
                            np.dtype("i8") if self.dtype.kind in "bi"
                            else self.dtype)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        s = self.sum(axis, keepdims=keepdims)
        n = self.size if axis is None else np.prod(
            [self.shape[a] for a in (axis if isinstance(axis, tuple)
                                     else (axis,))])
        if n == 0:
            return num(math.nan)
        return s / int(n)

    def var(self, axis=None, dtype=None, ddof=0, keepdims=False, **kw):
        m = self.mean(axis, keepdims=True)
        d = self - m
        if self.im is not None:
            d = absolute(d)
        sq = d * d
        n = self.size if axis is None else self.shape[axis]
        return sq.sum(axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, ddof=0, keepdims=False, **kw):
        v = self.var(axis, ddof=ddof, keepdims=keepdims)
        return sn_sqrt(v) if not isinstance(v, A) else sqrt(v)

    def _extreme(self, f, axis, keepdims):
        if self.size == 0:
            raise ValueError("zero-size array to reduction operation "
                             "maximum/minimum which has no identity")

        def g(els):
            if self.dtype.kind == "b":
                r = els[0]
                for x in els[1:]:
                    r = (r | x) if f is sn_max else (r & x)
                return r
            r = els[0]
            for x in els[1:]:
                r = f(r, x)
            return r
        if self.im is not None:
            raise Unsupported("complex ordering")
        return self._reduce(g, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return self._extreme(sn_max, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return self._extreme(sn_min, axis, keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        b = self.astype(bool)

        def f(els):
            zs = [core.to_zbool(x) for x in els]
            return core.mkbool(core.z3.Or(*zs)) if zs else False
        return b._reduce(f, axis, keepdims, np.dtype(bool))

    def all(self, axis=None, out=None, keepdims=False, **kw):
        b = self.astype(bool)

        def f(els):
            zs = [core.to_zbool(x) for x in els]
            return core.mkbool(core.z3.And(*zs)) if zs else True
        return b._reduce(f, axis, keepdims, np.dtype(bool))

    def _argx(self, better, axis):
        if axis is not None and self.ndim > 1:
            rest = [i for i in range(self.ndim) if i != axis % self.ndim]
            out = oarr(tuple(self.shape[i] for i in rest))
            mv = np.moveaxis(self.re, axis, -1)
            for i in np.ndindex(*out.shape):
                out[i] = num(_argbest(list(mv[i]), better))
            return A(out, None, np.dtype("i8"))
        if self.size == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        return num(_argbest(list(self.re.reshape(-1)), better))

    def argmax(self, axis=None, **kw):
        return self._argx(operator.gt, axis)

    def argmin(self, axis=None, **kw):
        return self._argx(operator.lt, axis)

    def cumsum(self, axis=None, **kw):
        a = self.ravel() if axis is None else self
        ax = 0 if axis is None else axis
        a = a.astype("i8") if a.dtype.kind == "b" else a.copy()
        re = np.moveaxis(a.re, ax, 0)
        for i in range(1, re.shape[0]):
            re[i] = ew(operator.add, re[i - 1 : i], re[i : i + 1])[0]
        if a.im is not None:
            im = np.moveaxis(a.im, ax, 0)
            for i in range(1, im.shape[0]):
                im[i] = ew(operator.add, im[i - 1 : i], im[i : i + 1])[0]
        return a

    def nonzero(self):
        b = self.astype(bool)
        m = np.array([bool(x) for x in b.re.flat], bool).reshape(self.shape)
        return tuple(wrap(x) for x in np.nonzero(m))

    def round(self, decimals=0, **kw):
        return rint(self, decimals)

    def clip(self, min=None, max=None, **kw):
        r = self
        if min is not None:
            r = maximum(r, min)
        if max is not None:
            r = minimum(r, max)
        return r

    def dot(self, o):
        return matmul(self, o)

    def __matmul__(self, o):
        if not _arrayish(o):
            return NotImplemented
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def sort(self, axis=-1, **kw):
        r = sort(self, axis)
        self.re[...] = r.re

    def argsort(self, axis=-1, **kw):
        return argsort(self, axis)

    def take(self, ind, axis=None, **kw):
        if axis is None:
            return self.ravel()[ind]
        k = self._key(ind)
        return self._new(np.take(self.re, k, axis),
                         None if self.im is None else
                         np.take(self.im, k, axis))

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def diagonal(self, *a):
        return self._new(self.re.diagonal(*a), None if self.im is None else
                         self.im.diagonal(*a))

    def trace(self):
        return self.diagonal().sum()

    def searchsorted(self, v, side="left", sorter=None):
        if sorter is not None:
            return self[sorter].searchsorted(v, side)
        if isinstance(v, (list, tuple)):
            v = asany(v)
        if isinstance(v, A) and v.ndim:
            return A(ew(lambda x: self.searchsorted(x, side), v.re), None,
                     np.dtype("i8"))
        x = v
        n = num(0)
        for e in self.re.flat:
            c = (e < x) if side == "left" else (e <= x)
            n = n + (to_num(c) if type(c) is SB else int(c))
        return n

    def setflags(self, *a, **k):
        pass

    def filled(self, *a, **k):
        raise AttributeError(
            "'numpy.ndarray' object has no attribute 'filled'")

    def __getattr__(self, name):
        if name in ("filled", "mask", "soften_mask", "harden_mask"):
            raise AttributeError(
                f"'numpy.ndarray' object has no attribute '{name}'")
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(np.ndarray, name):
            def f(*a, **k):
                return wrap(getattr(self.concrete(), name)(
                    *[unwrap(x) for x in a],
                    **{kk: unwrap(v) for kk, v in k.items()}))
            if callable(getattr(np.ndarray, name)):
                return f
            return getattr(self.concrete(), name)
        raise AttributeError(
            f"'numpy.ndarray' object has no attribute '{name}'")

    @property
    def data(self):
        return self

    def __contains__(self, x):
        r = self == x
        return bool(r.any())


del A.filled


def cast_index(x):
    if isinstance(x, SN):
        if x.k != "i":
            raise IndexError("arrays used as indices must be of integer (or "
                             "boolean) type")
        return x
    return x


def cast_assign(v, d):
    if d.kind != "c" and type(v) is SC:
        raise TypeError("float() argument must be a string or a real number,"
                        " not 'complex'")
    return cast_scalar(v, d)


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


def _argbest(els, better):
    bi = 0
    for i in range(1, len(els)):
        if bool(better(els[i], els[bi])):
            bi = i
    return bi


def _realdt(d):
    if d.kind == "c":
        return np.dtype("f4") if d.itemsize == 8 else np.dtype("f8")
    return d


def _arrayish(o):
    return (isinstance(o, (A, SN, int, float, complex, bool, np.ndarray,
                           np.generic, list, tuple, Fraction))
            or type(o) in (SB, SC) or hasattr(o, "__array__"))


def from_objects(o, d=None):
    """object ndarray of scalars -> A."""
    cplx = any(type(x) is SC for x in o.flat)
    if cplx:
        re, im = oarr(o.shape), oarr(o.shape)
        for i in np.ndindex(*o.shape):
            x = to_sc(o[i])
            re[i], im[i] = x.re, x.im
        return A(re, im, d if d is not None and d.kind == "c"
                 else np.dtype("c16"))
    if d is None:
        kinds = set()
        for x in o.flat:
            if type(x) is SB or isinstance(x, (bool, np.bool_)):
                kinds.add("b")
            elif isinstance(x, SN):
                kinds.add(x.k)
            else:
                kinds.add("O")
        if "O" in kinds:
            d = np.dtype(object)
        elif "f" in kinds or not kinds:
            d = np.dtype("f8")
        elif "i" in kinds:
            d = np.dtype("i8")
        else:
            d = np.dtype(bool)
    if d.kind in "fiub":
        o2 = oarr(o.shape)
        for i in np.ndindex(*o.shape):
            o2[i] = cast_scalar(o[i], d)
        o = o2
    if d.kind == "c":
        re, im = oarr(o.shape), oarr(o.shape)
        for i in np.ndindex(*o.shape):
            x = to_sc(o[i])
            re[i], im[i] = x.re, x.im
        return A(re, im, d)
    return A(o, None, d)


def wrap(x):
    """Real numpy result -> model value."""
    from . import ma, rec
    if isinstance(x, A) or isinstance(x, SN):
        return x
    if isinstance(x, np.ma.MaskedArray):
        return ma.from_real(x)
    if type(x) is np.recarray or (isinstance(x, np.ndarray) and
                                  x.dtype.names):
        return rec.from_real(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in "biufc":
            return x
        o = np.empty(x.shape, object)
        if x.dtype.kind == "b":
            for i in np.ndindex(*x.shape):
                o[i] = bool(x[i])
            return A(o, None, x.dtype.newbyteorder("="))
        if x.dtype.kind == "c":
            im = np.empty(x.shape, object)
            for i in np.ndindex(*x.shape):
                v = complex(x[i])
                o[i], im[i] = num(v.real), num(v.imag)
            return A(o, im, x.dtype.newbyteorder("="))
        for i in np.ndindex(*x.shape):
            o[i] = lift(x[i])
        return A(o, None, x.dtype.newbyteorder("="))
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.generic):
        r = lift(x)
        return r if r is not None else x
    if type(x) is tuple:
        return tuple(wrap(v) for v in x)
    if type(x) is list:
        return [wrap(v) for v in x]
    return x


def unwrap(x):
    """Model value -> concrete real value (Unsupported if symbolic)."""
    if isinstance(x, A):
        from . import ma
        if isinstance(x, ma.MA):
            return x.concrete_ma()
        return x.concrete()
    if isinstance(x, SN):
        return x.concrete()
    if type(x) is SC:
        return complex(x)
    if type(x) is SB:
        raise Unsupported("concrete boolean needed")
    if hasattr(x, "_sym_unwrap"):
        return x._sym_unwrap()
    if getattr(x, "_dtype_name", None) is not None and isinstance(x, type):
        return np.dtype(x._dtype_name).type
    if type(x) is tuple:
        return tuple(unwrap(v) for v in x)
    if type(x) is list:
        return [unwrap(v) for v in x]
    if type(x) is dict:
        return {k: unwrap(v) for k, v in x.items()}
    if isinstance(x, slice):
        return slice(unwrap(x.start), unwrap(x.stop), unwrap(x.step))
    return x


def asany(x, like=None):
    """Anything -> A (or MA)."""
    if isinstance(x, A):
        return x
    if isinstance(x, np.ma.MaskedArray) or isinstance(x, np.ndarray):
        w = wrap(x)
        if isinstance(w, A):
            return w
        return A(np.asarray(x, dtype=object), None, np.dtype(object))
    if type(x) is SB or isinstance(x, (bool, np.bool_)):
        return A(obox(x if type(x) is SB else bool(x)), None,
                 np.dtype(bool))
    if isinstance(x, (list, tuple)):
        return from_nested(x)
    if hasattr(x, "_sym_array"):
        return x._sym_array()
    s = lift(x)
    if s is None:
        if hasattr(x, "__array__"):
            return wrap(np.asarray(x))
        if isinstance(x, range):
            return from_nested(list(x))
        return A(obox(x), None, np.dtype(object))
    if type(s) is SC:
        a = A(obox(s.re), obox(s.im), np.dtype("c16"))
        a.weak = isinstance(x, complex) and s.cdtype is None
        return a
    if isinstance(x, np.generic):
        a = A(obox(s), None, x.dtype)
        return a
    a = A(obox(s), None, np.dtype("i8" if s.k == "i" else "f8"))
    a.weak = True
    return a


def from_nested(x):
    x = list(x)
    if not x:
        return A(np.empty((0,), object), None, np.dtype("f8"))
    parts = [asany(v) for v in x]
    sh = parts[0].shape
    if any(p.shape != sh for p in parts):
        raise ValueError(
            "setting an array element with a sequence. The requested array "
            "has an inhomogeneous shape after 1 dimensions.")
    d = parts[0].dtype
    for p in parts[1:]:
        d = np.result_type(d, p.dtype)
    parts = [p.astype(d) for p in parts]
    re = np.empty((len(parts),) + sh, object)
    im = np.empty((len(parts),) + sh, object) if d.kind == "c" else None
    for i, p in enumerate(parts):
        re[i] = p.re if sh else p.re[()]
        if im is not None:
            im[i] = p.im if sh else p.im[()]
    return A(re, im, d)


_PYOP = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul,
    "truediv": operator.truediv, "floordiv": operator.floordiv,
    "mod": operator.mod, "pow": operator.pow, "lt": operator.lt,
    "le": operator.le, "gt": operator.gt, "ge": operator.ge,
    "eq": operator.eq, "ne": operator.ne, "max": sn_max, "min": sn_min,
}
_CMP = {"lt", "le", "gt", "ge", "eq", "ne"}


def _elbool(op, x, y):
    return op(x, y)


def rtype(a, b):
    wa, wb = getattr(a, "weak", False), getattr(b, "weak", False)
    if wa and not wb:
        return np.result_type(b.dtype, _weak(a))
    if wb and not wa:
        return np.result_type(a.dtype, _weak(b))
    return np.result_type(a.dtype, b.dtype)


def _weak(a):
    return {"i": 0, "f": 0.0, "c": 0j, "b": False}[a.dtype.kind]


def binary(name, a, b):
    """Elementwise binary operation on A operands."""
    a, b = asany(a), asany(b)
    if name in ("and", "or", "xor"):
        return bitop(name, a, b)
    try:
        np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        raise ValueError(
            "operands could not be broadcast together with shapes "
            f"{a.shape} {b.shape}")
    if a.dtype.kind == "O" or b.dtype.kind == "O":
        if name in ("eq", "ne"):
            r = ew(lambda x, y: _objeq(x, y, name), a.re, b.re)
            return _sc0(A(r, None, np.dtype(bool)))
        raise Unsupported("object array arithmetic")
    d = rtype(a, b)
    op = _PYOP[name]
    cplx = a.im is not None or b.im is not None
    if name in _CMP:
        if cplx:
            if name not in ("eq", "ne"):
                raise Unsupported("complex ordering")
            A_, B_ = a.astype("c16"), b.astype("c16")
            e1 = ew(operator.eq, A_.re, B_.re)
            e2 = ew(operator.eq, A_.im, B_.im)
            r = ew(core_and, e1, e2)
            if name == "ne":
                r = ew(core_not, r)
            return _sc0(A(r, None, np.dtype(bool)))
        if a.dtype.kind == "b" or b.dtype.kind == "b":
            f = (lambda x, y: _bcmp(name, x, y))
            return _sc0(A(ew(f, a.re, b.re), None, np.dtype(bool)))
        return _sc0(A(ew(op, a.re, b.re), None, np.dtype(bool)))
    if name == "sub" and a.dtype.kind == "b" and b.dtype.kind == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not "
                        "supported, use the bitwise_xor, the `^` operator, "
                        "or the logical_xor function instead.")
    if name == "truediv" and d.kind in "biu":
        d = np.dtype("f8")
    if name == "add" and d.kind == "b":
        return bitop("or", a, b)
    if name == "mul" and d.kind == "b":
        return bitop("and", a, b)
    if cplx:
        A_, B_ = a, b
        if name in ("add", "sub"):
            # keep real operands real
            ai = A_.im if A_.im is not None else oarr(A_.shape, zero())
            bi = B_.im if B_.im is not None else oarr(B_.shape, zero())
            return _sc0(A(ew(op, _numpl(A_), _numpl(B_)), ew(op, ai, bi), d))
        if name == "mul":
            if A_.im is None:
                p = _numpl(A_)
                return _sc0(A(ew(op, p, B_.re), ew(op, p, B_.im), d))
            if B_.im is None:
                p = _numpl(B_)
                return _sc0(A(ew(op, A_.re, p), ew(op, A_.im, p), d))
        if name == "truediv" and B_.im is None:
            p = _numpl(B_)
            return _sc0(A(ew(op, A_.re, p), ew(op, A_.im, p), d))
        av = objs(A_)
        bv = objs(B_)
        r = from_objects(ew(op, av, bv), d)
        return _sc0(r)
    r = A(ew(op, _numpl(a), _numpl(b)), None, d)
    if d.kind in "iu" and name == "pow":
        pass
    return _sc0(r)


def objs(a):
    if a.im is None:
        return a.re
    o = oarr(a.shape)
    for i in np.ndindex(*a.shape):
        o[i] = SC(a.re[i], a.im[i])
    return o


def _numpl(a):
    if a.dtype.kind == "b":
        return ew(to_num, a.re)
    return a.re


def _objeq(x, y, name):
    r = x == y
    return r if name == "eq" else (not r)


def _bcmp(name, x, y):
    bx = type(x) is SB or isinstance(x, (bool, np.bool_))
    by = type(y) is SB or isinstance(y, (bool, np.bool_))
    if bx and by and name in ("eq", "ne"):
        z = core.to_zbool(x) == core.to_zbool(y)
        return core.mkbool(z if name == "eq" else core.z3.Not(z))
    return _PYOP[name](to_num(x), to_num(y))


def core_and(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return x & y


def core_or(x, y):
    if x is True or y is True:
        return True
    if x is False:
        return y
    if y is False:
        return x
    return x | y


def core_not(x):
    if type(x) is SB:
        return ~x
    return not x


def core_xor(x, y):
    return core.mkbool(core.z3.Xor(core.to_zbool(x), core.to_zbool(y)))


def bitop(name, a, b):
    a, b = asany(a), asany(b)
    np.broadcast_shapes(a.shape, b.shape)
    if a.dtype.kind == "b" and b.dtype.kind == "b":
        f = {"and": core_and, "or": core_or, "xor": core_xor}[name]
        return _sc0(A(ew(f, a.re, b.re), None, np.dtype(bool)))
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        raise TypeError(f"ufunc 'bitwise_{name}' not supported for the input "
                        "types")
    f = {"and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor}
    return wrap(f[name](a.concrete(), b.concrete()))


def logical(name, a, b):
    return bitop(name, asany(a).astype(bool), asany(b).astype(bool))


def logical_not_bits(a):
    if a.dtype.kind == "b":
        return _sc0like(a, A(ew(core_not, a.re), None, np.dtype(bool)))
    if a.dtype.kind in "fc":
        raise TypeError("ufunc 'invert' not supported for the input types")
    return wrap(~a.concrete())


def _sc0like(a, r):
    return r


def _sc0(r):
    """0-d results become scalars."""
    if isinstance(r, A) and r.ndim == 0:
        return r.elem(())
    return r


def _mk(name, refl):
    def f(self, o):
        return self._bin(o, name, refl)
    return f


def _mki(name):
    def f(self, o):
        return self._inplace(o, name)
    return f


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    setattr(A, f"__{_n}__", _mk(_n, False))
    setattr(A, f"__r{_n}__", _mk(_n, True))
    setattr(A, f"__i{_n}__", _mki(_n))
for _n in ("and", "or", "xor"):
    setattr(A, f"__{_n}__", _mk(_n, False))
    setattr(A, f"__r{_n}__", _mk(_n, True))
    setattr(A, f"__i{_n}__", _mki(_n))
for _n in _CMP:
    setattr(A, f"__{_n}__", _mk(_n, False))


# --------------------------------------------------------------------------
# elementwise unary functions
# --------------------------------------------------------------------------
def _un(a, f, d=None, cf=None):
    """f on real elements (SN); cf on complex elements."""
    scalar = not isinstance(a, A)
    a = asany(a)
    if a.im is not None:
        if cf is None:
            raise Unsupported("complex argument")
        r = from_objects(ew(cf, objs(a)), None)
        if d is not None:
            r = r.astype(d)
    else:
        dd = d
        if dd is None:
            dd = a.dtype if a.dtype.kind == "f" else np.dtype("f8")
        r = A(ew(f, _numpl(a)), None, dd)
    if scalar or a.ndim == 0:
        return r.elem(())
    return r


def ufunc1(f, d=None, cf=None):
    def g(a, out=None, where=True, **kw):
        from . import ma
        if isinstance(a, ma.MA):
            return ma.wrap1(a, lambda x: _un(x, f, d, cf))
        return _out(_un(a, f, d, cf), out)
    return g


def sqrt(a):
    return _un(a, sn_sqrt, None, core.sc_sqrt)


def absolute(a):
    from . import ma
    if isinstance(a, ma.MA):
        return ma.wrap1(a, absolute)
    if not isinstance(a, A):
        a0 = asany(a)
        if a0.ndim == 0:
            return abs(a0.elem(())) if a0.dtype.kind != "b" else a0.elem(())
        a = a0
    if a.dtype.kind == "b":
        return a.copy()
    if a.im is not None:
        return A(ew(core.sc_abs, objs(a)), None, _realdt(a.dtype))
    return A(ew(sn_abs, a.re), None, a.dtype)


def maximum(a, b):
    return _minmax("max", a, b)


def minimum(a, b):
    return _minmax("min", a, b)


def _minmax(name, a, b):
    a, b = asany(a), asany(b)
    return binary(name, a, b)


def rint(a, decimals=0):
    if decimals != 0:
        a = asany(a)
        if int(decimals) > 0 and a.dtype.kind == "f":
            k = Fraction(10) ** int(decimals)
            return rint(a * k) / k
        return wrap(np.round(a.concrete(), decimals))
    a0 = asany(a)
    if a0.dtype.kind in "iu":
        return a
    return _un(a, sn_rint, None, lambda z: SC(sn_rint(z.re), sn_rint(z.im)))


def _nonfinite_test(which):
    def f(x):
        x = num(x)
        if which == "nan":
            z = x.nan
        elif which == "inf":
            z = core.zor(x.pinf, x.ninf)
        else:
            z = x.special
        if z is None:
            r = False
        elif z is True:
            r = True
        else:
            r = core.mkbool(z)
        if which == "finite":
            return core_not(r)
        return r
    return f


def nonfinite(a, which):
    from . import ma
    if isinstance(a, ma.MA):
        return ma.wrap1(a, lambda x: nonfinite(x, which))
    scalar = not isinstance(a, A)
    a = asany(a)
    f = _nonfinite_test(which)
    r = ew(f, _numpl(a))
    if a.im is not None:
        r2 = ew(f, a.im)
        r = ew(core_and if which == "finite" else core_or, r, r2)
    r = A(r, None, np.dtype(bool))
    return r.elem(()) if scalar or a.ndim == 0 else r


def where(c, *xy):
    if not xy:
        return asany(c).nonzero()
    x, y = xy
    c, x, y = asany(c).astype(bool), asany(x), asany(y)
    d = rtype(x, y)
    c_, x_, y_ = np.broadcast_arrays(c.re, np.empty(x.shape),
                                     np.empty(y.shape), subok=False)
    sh = c_.shape
    cb = np.broadcast_to(c.re, sh)
    xr, yr = x.astype(d), y.astype(d)
    re = ew(sn_ite, cb, np.broadcast_to(xr.re, sh),
            np.broadcast_to(yr.re, sh))
    im = None
    if d.kind == "c":
        im = ew(sn_ite, cb, np.broadcast_to(xr.im, sh),
                np.broadcast_to(yr.im, sh))
    return A(re, im, d)


def matmul(a, b):
    a, b = asany(a), asany(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError(
                f"shapes {a.shape} and {b.shape} not aligned")
        return (a * b).sum()
    a2 = a.reshape((1, -1)) if a.ndim == 1 else a
    b2 = b.reshape((-1, 1)) if b.ndim == 1 else b
    if a2.shape[1] != b2.shape[0]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    d = rtype(a, b)
    n, m = a2.shape[0], b2.shape[1]
    o = oarr((n, m))
    ao, bo = objs(a2), objs(b2)
    for i in range(n):
        for j in range(m):
            s = None
            for k in range(a2.shape[1]):
                t = to_num_any(ao[i, k]) * to_num_any(bo[k, j])
                s = t if s is None else s + t
            o[i, j] = s if s is not None else zero()
    r = from_objects(o, d)
    if a.ndim == 1:
        r = r[0]
    elif b.ndim == 1:
        r = r[:, 0]
    return r


def to_num_any(x):
    return to_num(x) if type(x) is SB or isinstance(x, bool) else x


def _lt(x, y):
    return bool(x < y)


def _argsort_list(els):
    idx = []
    for i, e in enumerate(els):
        # insertion sort, stable
        j = len(idx)
        while j > 0 and _lt(e, els[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def argsort(a, axis=-1, **kw):
    a = asany(a)
    if a.ndim == 1:
        return from_nested(_argsort_list(list(a.re))).astype("i8")
    if axis is None:
        return argsort(a.ravel())
    mv = np.moveaxis(a.re, axis, -1)
    out = oarr(mv.shape)
    for i in np.ndindex(*mv.shape[:-1]):
        for j, v in enumerate(_argsort_list(list(mv[i]))):
            out[i + (j,)] = num(v)
    return A(np.moveaxis(out, -1, axis), None, np.dtype("i8"))


def sort(a, axis=-1, **kw):
    a = asany(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    mv = np.moveaxis(a.re, axis, -1)
    out = oarr(mv.shape)
    for i in np.ndindex(*mv.shape[:-1]):
        els = list(mv[i])
        for j, v in enumerate(_argsort_list(els)):
            out[i + (j,)] = els[v]
    return A(np.moveaxis(out, -1, axis), None, a.dtype)


def repeat(a, n, axis=None):
    a = asany(a)
    n = unwrap(n)
    if axis is None:
        a = a.ravel()
        axis = 0
    return A(np.repeat(a.re, n, axis),
             None if a.im is None else np.repeat(a.im, n, axis), a.dtype)


def percentile(a, q, axis=None):
    a = asany(a)
    els = list(a.re.reshape(-1))
    qs = asany(q)
    if not els:
        raise IndexError("index -1 is out of bounds for axis 0 with size 0")
    for e in els:
        if isinstance(e, SN) and e.special is not None:
            raise Unsupported("percentile of non-finite values")
    els = [to_num(e) for e in els]
    srt = [els[i] for i in _argsort_list(els)]
    n = len(srt)
    out = []
    for qq in qs.re.reshape(-1):
        qv = core.p_constval(num(qq).p) if num(qq).is_concrete() else None
        if qv is None:
            raise Unsupported("symbolic percentile")
        if qv < 0 or qv > 100:
            raise ValueError("Percentiles must be in the range [0, 100]")
        pos = qv / 100 * (n - 1)
        lo = math.floor(pos)
        hi = min(lo + 1, n - 1)
        fr = pos - lo
        r = srt[lo] + (srt[hi] - srt[lo]) * num(fr)
        out.append(SN(r.p, "f"))
    if qs.ndim == 0:
        return out[0]
    return from_nested(out).reshape(qs.shape)


def stack_like(fn, arrs, *a, **k):
    arrs = [asany(x) for x in arrs]
    d = np.result_type(*[x.dtype for x in arrs])
    arrs = [x.astype(d) for x in arrs]
    re = fn([x.re for x in arrs], *a, **k)
    im = fn([x.im for x in arrs], *a, **k) if d.kind == "c" else None
    return A(re, im, d)


# --------------------------------------------------------------------------
# DFT
# --------------------------------------------------------------------------
def _dft1(re, im, axis, sign):
    """Unnormalised DFT along an axis of object planes."""
    n = re.shape[axis]
    mre, mim = np.moveaxis(re, axis, -1), np.moveaxis(im, axis, -1)
    tw = [core.cis_turns(Fraction(sign * k, n)) for k in range(n)]
    ore, oim = oarr(mre.shape), oarr(mre.shape)
    for i in np.ndindex(*mre.shape[:-1]):
        xr, xi = mre[i], mim[i]
        for k in range(n):
            sr, si = None, None
            for j in range(n):
                t = tw[(j * k) % n]
                a = _cmul_fast(xr[j], xi[j], t)
                sr = a[0] if sr is None else sr + a[0]
                si = a[1] if si is None else si + a[1]
            ore[i + (k,)] = sr
            oim[i + (k,)] = si
    return np.moveaxis(ore, -1, axis), np.moveaxis(oim, -1, axis)


def _cmul_fast(a, b, t):
    c, s = t.re, t.im
    return a * c - b * s, a * s + b * c


def fftn(a, s=None, axes=None, norm=None, inverse=False, ndim=None,
         **kw):
    from . import ma
    if isinstance(a, ma.MA):
        a = a.data
    a = asany(a)
    nd = a.ndim
    if s is not None and axes is None:
        s = tuple(operator.index(x) for x in s)
        axes = tuple(range(nd - len(s), nd))
    if axes is None:
        axes = tuple(range(nd)) if ndim is None else tuple(
            range(nd - ndim, nd))
    axes = tuple(x % nd for x in axes)
    if s is None:
        s = tuple(a.shape[x] for x in axes)
    s = tuple(operator.index(x) for x in s)
    if len(s) != len(axes):
        raise ValueError("Shape and axes have different lengths.")
    a = a.astype("c16")
    re, im = a.re, a.im
    for ax, n in zip(axes, s):
        if n < 1:
            raise ValueError(f"Invalid number of data points ({n}) "
                             "specified.")
        m = re.shape[ax]
        if n < m:
            sl = [slice(None)] * nd
            sl[ax] = slice(0, n)
            re, im = re[tuple(sl)], im[tuple(sl)]
        elif n > m:
            sh = list(re.shape)
            sh[ax] = n
            r2, i2 = oarr(tuple(sh), zero()), oarr(tuple(sh), zero())
            sl = [slice(None)] * nd
            sl[ax] = slice(0, m)
            r2[tuple(sl)], i2[tuple(sl)] = re, im
            re, im = r2, i2
    if re.size == 0:
        raise ValueError("empty FFT input")
    if norm not in (None, "ortho", "backward", "forward"):
        raise ValueError(f'Invalid norm value {norm}')
    sign = 1 if inverse else -1
    N = 1
    for ax in axes:
        re, im = _dft1(re, im, ax, sign)
        N *= re.shape[ax]
    if norm == "ortho":
        f = num(1) / sn_sqrt(num(N))
    elif (norm in (None, "backward")) == inverse:
        f = num(Fraction(1, N))
    else:
        f = None
    if f is not None:
        re = ew(lambda x: x * f, re)
        im = ew(lambda x: x * f, im)
    return A(re, im, np.dtype("c16"))


def fourier_shift(a, shift, n=-1, axis=-1, output=None):
    a = asany(a)
    if not isinstance(shift, (list, tuple, A, np.ndarray)):
        sh = [shift] * a.ndim
    else:
        sh = list(shift)
    if len(sh) != a.ndim:
        raise RuntimeError("sequence argument must have length equal to "
                           "input rank")
    if n is not None and n >= 0:
        raise Unsupported("fourier_shift of an rfft")
    r = a.astype("c16")
    re, im = r.re, r.im
    for ax in range(a.ndim):
        N = a.shape[ax]
        s = num(sh[ax])
        ph = []
        for k in range(N):
            kk = k if k < (N + 1) // 2 else k - N
            # scipy multiplies by exp(-2 pi i kk s / N)
            ph.append(core.cis_turns(s * num(Fraction(-kk, N))))
        mre, mim = np.moveaxis(re, ax, -1), np.moveaxis(im, ax, -1)
        ore, oim = oarr(mre.shape), oarr(mre.shape)
        for i in np.ndindex(*mre.shape):
            x, y = _cmul_fast(mre[i], mim[i], ph[i[-1]])
            ore[i], oim[i] = x, y
        re, im = np.moveaxis(ore, -1, ax), np.moveaxis(oim, -1, ax)
    res = A(re, im, np.dtype("c16"))
    if output is not None and isinstance(output, A):
        output[...] = res
        return output
    return res


def roll(a, shift, axis=None):
    a = asany(a)

    def one(s):
        return operator.index(s)
    if isinstance(shift, (tuple, list)):
        shift = tuple(one(s) for s in shift)
    else:
        shift = one(shift)
    return A(np.roll(a.re, shift, axis),
             None if a.im is None else np.roll(a.im, shift, axis), a.dtype)


def ndconvolve(inp, weights, output=None, mode="reflect", cval=0.0,
               origin=0, correlate=False):
    from . import ma
    if isinstance(inp, ma.MA):
        inp = inp.data
    a, w = asany(inp), asany(weights)
    if a.ndim != w.ndim:
        raise RuntimeError("filter weights array has incorrect shape.")
    if a.im is not None or w.im is not None:
        raise Unsupported("complex ndimage.convolve")
    if origin not in (0, (0,) * a.ndim):
        raise Unsupported("convolve origin")
    npmode = {"reflect": "symmetric", "nearest": "edge", "mirror": "reflect",
              "wrap": "wrap", "grid-wrap": "wrap",
              "grid-mirror": "symmetric"}
    d = a.dtype
    if d.kind == "b":
        d = np.dtype(bool)
    idx = np.arange(a.size).reshape(a.shape)
    pads = []
    for s in w.shape:
        c = s // 2
        if correlate:
            pads.append((c, s - 1 - c))
        else:
            pads.append((s - 1 - c, c))
    if mode in ("constant", "grid-constant"):
        pidx = np.pad(idx, pads, mode="constant", constant_values=-1)
    elif mode in npmode:
        if any(max(p) > (s - 1 if npmode[mode] == "reflect" else s)
               for p, s in zip(pads, a.shape)):
            # np.pad keeps reflecting, same rule as scipy
            pass
        pidx = np.pad(idx, pads, mode=npmode[mode])
    else:
        raise RuntimeError("boundary mode not supported")
    flat = [to_num(x) if a.dtype.kind == "b" else x
            for x in a.re.reshape(-1)]
    wv = w.re if correlate else w.re[tuple(slice(None, None, -1)
                                           for _ in w.shape)]
    out = oarr(a.shape)
    cv = num(cval)
    wl = [(k, wv[k]) for k in np.ndindex(*w.shape)]
    wl = [(k, to_num(x)) for k, x in wl]
    wl = [(k, x) for k, x in wl if not (x.is_concrete() and
                                        x.concrete() == 0)]
    for i in np.ndindex(*a.shape):
        s = zero()
        for k, x in wl:
            j = pidx[tuple(p + q for p, q in zip(i, k))]
            v = cv if j < 0 else flat[j]
            s = s + v * x
        if d.kind in "iu":
            if s.is_concrete():
                s = num(int(s.concrete()))
            else:
                s = sn_trunc(SN(s.p, "f")) if not _intcoef(s.p) else \
                    SN(s.p, "i")
        out[i] = s
    r = A(out, None, d)
    if d.kind == "b":
        r = A(ew(lambda x: x != 0, out), None, d)
    if output is not None and isinstance(output, A):
        output[...] = r
        return output
    return r


def _intcoef(p):
    atoms = ctx().atoms
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            at = atoms[a]
            if e < 0 or not (at.isint or (at.data or {}).get("b2n")
                             is not None):
                return False
    return True


def center_of_mass(inp, labels=None, index=None):
    from . import ma
    if isinstance(inp, ma.MA):
        inp = inp.data
    a = asany(inp)
    if labels is not None or index is not None:
        L = np.asarray(asany(labels).concrete()) if labels is not None \
            else np.ones(a.shape, int)
        if index is None:
            return center_of_mass(where_mask(a, L != 0))
        if isinstance(index, (int, np.integer)):
            return center_of_mass(where_mask(a, L == int(index)))
        idx = [int(unwrap(i)) for i in (
            index.re.reshape(-1) if isinstance(index, A) else index)]
        return [center_of_mass(where_mask(a, L == i)) for i in idx]
    if a.im is not None:
        raise Unsupported("center_of_mass of complex")
    tot = a.sum()
    out = []
    for ax in range(a.ndim):
        g = np.arange(a.shape[ax])
        mv = np.moveaxis(a.re, ax, 0)
        s = None
        for i in range(a.shape[ax]):
            for x in mv[i].reshape(-1):
                t = to_num(x) * int(g[i])
                s = t if s is None else s + t
        if core.is_sym(s) or core.is_sym(tot):
            out.append(_ratio_atom(s, tot))
        else:
            out.append(s / tot)
    return tuple(out)


def where_mask(a, m):
    out = a.re.copy()
    for i in np.ndindex(*a.shape):
        if not m[i]:
            out[i] = num(0)
    return A(out, None, a.dtype)


def _ratio_atom(s, t):
    """s / t as a single atom (keeps phases simple)."""
    c = ctx()
    q = num(s) / num(t)
    if core.p_isconst(q.p):
        return q
    k = ("com", core.p_key(q.p))
    at = c.memo.get(k)
    if at is None:
        at = c.atom(f"com{len(c.atoms)}", kind="com")
        zs, zt = num(s).z(), num(t).z()
        at.defs.append(core.z3.Implies(zt != 0, at.z * zt == zs))
        at.ev = (lambda env, p=num(s).p, r=num(t).p:
                 core._safe(lambda a, b: a / b, core.p_eval(p, env),
                            core.p_eval(r, env)))
        c.memo[k] = at
    return SN({((at.id, 1),): core.F1}, "f", q.nan)


def pad(a, pad_width, mode="constant", **kw):
    a = asany(a)
    pw = unwrap(pad_width)
    pa = np.asarray(pw)
    if not pa.dtype.kind == "i":
        raise TypeError("`pad_width` must be of integral type.")
    pw = np.broadcast_to(pa, (a.ndim, 2)).tolist()
    if any(x < 0 for p in pw for x in p):
        raise ValueError("index can't contain negative values")
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        out = np.full([s + p[0] + p[1] for s, p in zip(a.shape, pw)], None,
                      object)
        v = num(cv)
        for i in np.ndindex(*out.shape):
            out[i] = v
        sl = tuple(slice(p[0], p[0] + s) for s, p in zip(a.shape, pw))
        out[sl] = a.re
        return A(out, None, a.dtype)
    if mode == "linear_ramp":
        ev = num(kw.get("end_values", 0))
        re = a.re
        for ax, (b, e) in enumerate(pw):
            mv = np.moveaxis(re, ax, 0)
            rows = []
            for k in range(b):
                w = num(Fraction(k, b))
                rows.append(ew(lambda x: ev + (x - ev) * w, mv[0]))
            rows.extend(list(mv))
            for k in range(e):
                w = num(Fraction(e - 1 - k, e))
                rows.append(ew(lambda x: ev + (x - ev) * w, mv[-1]))
            o = np.empty((len(rows),) + mv.shape[1:], object)
            for k, r in enumerate(rows):
                o[k] = r
            re = np.moveaxis(o, 0, ax)
        return A(re.copy(), None, a.dtype)
    if mode in ("edge", "reflect", "symmetric", "wrap"):
        idx = np.pad(np.arange(a.size).reshape(a.shape), pw, mode=mode)
        return A(a.re.reshape(-1)[idx],
                 None if a.im is None else a.im.reshape(-1)[idx], a.dtype)
    raise Unsupported(f"pad mode {mode}")
