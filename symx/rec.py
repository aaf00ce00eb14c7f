"""Structured one-dimensional arrays (source catalogues) as columns."""

import numpy as np

from . import arr, core
from .arr import A, asany
from .core import Unsupported


class DType:
    def __init__(self, names):
        self.names = tuple(names)
        self.fields = {n: None for n in names}

    kind = "V"


class Row:
    """One row; item access by column name (writes go to the catalogue)."""

    def __init__(self, rec, i):
        self._rec = rec
        self._i = i

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._rec[k][self._i]
        return self._rec.cols[self._rec.names[k]][self._i]

    def __setitem__(self, k, v):
        self._rec[k][self._i] = v

    @property
    def dtype(self):
        return self._rec.dtype

    def __len__(self):
        return len(self._rec.names)


class Rec:
    __array_ufunc__ = None

    def __init__(self, cols):
        self.cols = dict(cols)

    @property
    def __class__(self):
        return np.ndarray

    @property
    def names(self):
        return tuple(self.cols)

    @property
    def dtype(self):
        return DType(self.cols)

    def __len__(self):
        for c in self.cols.values():
            return len(c)
        return 0

    @property
    def shape(self):
        return (len(self),)

    size = property(__len__)
    ndim = 1

    def __iter__(self):
        for i in range(len(self)):
            yield Row(self, i)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError(f"no field of name {k}")
            return self.cols[k]
        if isinstance(k, (list, tuple)) and k and all(
                isinstance(x, str) for x in k):
            return Rec({n: self.cols[n] for n in k})
        any_col = next(iter(self.cols.values()))
        kk = any_col._key(asany(k) if isinstance(k, list) else k)
        if isinstance(kk, (int, np.integer)):
            n = len(self)
            if kk < -n or kk >= n:
                raise IndexError(f"index {kk} is out of bounds for axis 0 "
                                 f"with size {n}")
            return Row(self, int(kk))
        return Rec({n: c[kk] for n, c in self.cols.items()})

    def __setitem__(self, k, v):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError(f"no field of name {k}")
            self.cols[k][...] = v
            return
        raise Unsupported("row assignment on a catalogue")

    def copy(self):
        return Rec({n: c.copy() for n, c in self.cols.items()})

    def argsort(self, order=None, **kw):
        if order is None:
            raise Unsupported("unordered record sort")
        order = [order] if isinstance(order, str) else list(order)
        idx = list(range(len(self)))
        for name in reversed(order):
            c = self.cols[name]
            idx = [idx[i] for i in arr._argsort_list([c.re[j] for j in idx])]
        return idx

    def sort(self, axis=-1, kind=None, order=None):
        idx = self.argsort(order=order)
        for n, c in self.cols.items():
            c.re[...] = c.re[idx]

    def take(self, ind, axis=None):
        return self[ind]

    def compress(self, cond, axis=None):
        return self[asany(cond).astype(bool)]

    def tolist(self):
        return [tuple(c[i] for c in self.cols.values())
                for i in range(len(self))]

    def delete(self, ind):
        keep = np.delete(np.arange(len(self)), arr.unwrap(ind))
        return self[list(int(i) for i in keep)]

    def append(self, names, data, dtypes=None):
        names = [names] if isinstance(names, str) else list(names)
        if len(names) == 1 and (isinstance(data, A) or
                                not isinstance(data, (list, tuple))
                                or not any(isinstance(d, (A, list, tuple))
                                           for d in data)):
            data = [data]
        out = {n: c.copy() for n, c in self.cols.items()}
        if dtypes is None:
            dtypes = [None] * len(names)
        elif not isinstance(dtypes, (list, tuple)):
            dtypes = [dtypes] * len(names)
        for n, d, t in zip(names, data, dtypes):
            if n in out:
                raise ValueError(f"field '{n}' occurs more than once")
            d = asany(d)
            if len(d) != len(self):
                raise Unsupported("append_fields with another length")
            out[n] = d.astype(t) if t is not None else d.copy()
        return Rec(out)

    def key(self):
        return tuple((n, c.key()) for n, c in self.cols.items())

    def sym(self):
        return any(c.sym() for c in self.cols.values())

    def _sym_unwrap(self):
        dts = [(n, c.dtype) for n, c in self.cols.items()]
        out = np.empty(len(self), dts)
        for n, c in self.cols.items():
            out[n] = c.concrete()
        return out

    def __repr__(self):
        return f"Rec({list(self.cols)}, {len(self)})"

    __hash__ = None


def from_real(x):
    return Rec({n: arr.wrap(np.ascontiguousarray(x[n]))
                for n in x.dtype.names})
