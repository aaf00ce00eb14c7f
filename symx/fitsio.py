"""FITS objects of the symbolic world (in memory; files are names)."""

import os
import types

import numpy as np

from . import arr, npf, ma as M
from .arr import A, asany
from .core import Unsupported


class Header(dict):
    def set(self, k, v=None, comment=None, **kw):
        self[k.upper()] = v

    def __setitem__(self, k, v):
        super().__setitem__(k.upper() if isinstance(k, str) else k,
                            v[0] if isinstance(v, tuple) else v)

    def __getitem__(self, k):
        k = k.upper() if isinstance(k, str) else k
        if k not in self.keys():
            raise KeyError(f"Keyword {k!r} not found.")
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        return k.upper() in dict.keys(self) if isinstance(k, str) else False

    def get(self, k, d=None):
        return self[k] if k in self else d

    def copy(self, *a):
        h = Header()
        h.update(self)
        return h


def _store(a):
    """What a FITS file keeps of an array."""
    if a is None:
        return None
    a = asany(a)
    if isinstance(a, M.MA):
        a = a.data
    if a.im is not None or a.dtype.kind == "c":
        raise KeyError(f"complex{a.dtype.itemsize * 8}")
    if a.dtype.kind == "b":
        raise KeyError("bool")
    if a.dtype.kind == "O":
        raise Unsupported("object image")
    return a


class _HDU:
    is_image = True

    def __init__(self, data=None, header=None, name=None, uint=None, **k):
        if k:
            raise TypeError(f"unexpected keyword {sorted(k)}")
        self.header = Header()
        if isinstance(self, PrimaryHDU):
            self.header["SIMPLE"] = True
            self.header["EXTEND"] = True
        if header is not None:
            self.header.update(header)
        self.data = _store(data)

    def scale(self, type=None, option="old", bscale=None, bzero=None):
        if bscale is not None or bzero is not None:
            raise Unsupported("scaled HDU")
        if type is not None:
            self.data = self.data.astype(type)

    @property
    def shape(self):
        return self.data.shape


class PrimaryHDU(_HDU):
    pass


class ImageHDU(_HDU):
    pass


class HDUList(list):
    def __init__(self, hdus=(), **k):
        super().__init__([hdus] if isinstance(hdus, _HDU) else hdus)

    def close(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make(w):
    disk = w.fs.setdefault("fits", {})

    def big(a):
        return a

    def write(path, hdus, overwrite):
        path = os.path.abspath(str(path))
        w.event("fits_write", path=path)
        if path in disk and not overwrite:
            raise OSError(f"File {path!r} already exists.")
        disk[path] = [type(h).__call__() if False else _copy(h)
                      for h in hdus]

    def _copy(h):
        n = type(h)(None if h.data is None else h.data.copy())
        n.header = h.header.copy()
        return n

    def hwrite(self, path, overwrite=False, **k):
        write(path, [self], overwrite)

    def lwrite(self, path, overwrite=False, **k):
        write(path, list(self), overwrite)

    class P(PrimaryHDU):
        writeto = hwrite

    class I(ImageHDU):
        writeto = hwrite

    class L(HDUList):
        writeto = lwrite

    P.__name__, I.__name__, L.__name__ = "PrimaryHDU", "ImageHDU", "HDUList"

    def opn(path, *a, **k):
        p = os.path.abspath(str(path))
        if p not in disk:
            raise FileNotFoundError(2, "No such file or directory", p)
        return L([_copy(h) for h in disk[p]])

    def getdata(path, ext=None, header=False, **k):
        hs = opn(path)
        h = hs[ext if isinstance(ext, int) else 0]
        if ext is None and h.data is None:
            h = hs[1]
        return (h.data, h.header) if header else h.data

    def getheader(path, ext=0, **k):
        return opn(path)[ext].header

    def writeto(path, data, header=None, overwrite=False, **k):
        P(data, header=header).writeto(path, overwrite=overwrite)

    return {"PrimaryHDU": P, "ImageHDU": I, "HDUList": L, "open": opn,
            "getdata": getdata, "getheader": getheader, "writeto": writeto,
            "Header": Header}
