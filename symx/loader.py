"""Executes the package source of the tree under test, afresh for every
explored path, against a given world's environment."""

import builtins
import importlib
import math
import os
import sys
import types

import numpy as np

from . import arr, core, npf
from .arr import A
from .core import SB, SC, SN, Unsupported
from . import world as W

_CODE = {}


def code_of(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(k)
    if c is None:
        with open(path, "rb") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _CODE[k] = c
    return c


def _sym_int(x=0, *a):
    if a or isinstance(x, (str, bytes)):
        return int(x, *a)
    if isinstance(x, A):
        return x.__int__()
    if type(x) is SN:
        return core.sn_trunc(x)
    if type(x) is SB:
        return x._n()
    if type(x) is SC:
        raise TypeError("int() argument must not be complex")
    return int(x)


def _sym_float(x=0.0):
    if isinstance(x, str):
        return float(x)
    if isinstance(x, A):
        x = x._one()
    if type(x) is SB:
        x = x._n()
    if type(x) is SC:
        raise TypeError("float() argument must not be complex")
    if type(x) is SN:
        return SN(x.p, "f", x.nan, x.pinf, x.ninf)
    return float(x)


def _sym_complex(re=0, im=0):
    if isinstance(re, str):
        return complex(re)
    if isinstance(re, A):
        re = re._one()
    if type(re) is SC or type(im) is SC or type(re) is SN \
            or type(im) is SN:
        return core.to_sc(re) + core.to_sc(im) * SC(
            SN({}, "f"), SN(core.p_const(core.F1), "f"))
    return complex(re, im)


def _minmax(f, pick):
    def g(*a, key=None, default=g_none, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if len(a) == 1:
            a = (xs,)       # an iterator is consumed once
        if key is None and xs and any(type(x) is SN for x in xs) and all(
                isinstance(x, (SN, int, float, np.number)) for x in xs):
            r = core.num(core.lift(xs[0]))
            for x in xs[1:]:
                r = pick(r, core.num(core.lift(x)))
            return r
        kk = {}
        if key is not None:
            kk["key"] = key
        if default is not g_none:
            kk["default"] = default
        return f(*a, **kk)
    return g


g_none = object()


class Loader:
    def __init__(self, world):
        from . import libs
        self.w = world
        self.mods = {}
        self.root = os.path.join(W.SRC, "properimage")
        self.stubs = libs.build(world)
        b = dict(vars(builtins))
        b["__import__"] = self.imp
        b["print"] = lambda *a, **k: None
        if world.sym:
            b["int"] = npf.mkclass("int", int, _sym_int, _dtype_name="i8")
            b["float"] = npf.mkclass("float", float, _sym_float,
                                     _dtype_name="f8")
            b["complex"] = npf.mkclass("complex", complex, _sym_complex,
                                       _dtype_name="c16")
            b["max"] = _minmax(max, core.sn_max)
            b["min"] = _minmax(min, core.sn_min)
            b["type"] = type
        self.builtins = b

    # ----------------------------------------------------------------
    def package(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parts = name.split(".")
        parent = None
        if len(parts) > 1:
            parent = self.package(".".join(parts[:-1]))
            m = self.mods.get(name)
            if m is not None:
                return m
        base = os.path.join(self.root, *parts[1:])
        ispkg = os.path.isdir(base) and os.path.exists(
            os.path.join(base, "__init__.py"))
        path = os.path.join(base, "__init__.py") if ispkg else base + ".py"
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else ".".join(parts[:-1])
        if ispkg:
            m.__path__ = [base]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        sys.modules[name] = m
        try:
            exec(code_of(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            sys.modules.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, parts[-1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[: len(pkg) - level + 1]
            full = ".".join(pkg + ([name] if name else []))
            return self._own(full, fromlist, full)
        top = name.split(".")[0]
        if top == "properimage":
            return self._own(name, fromlist, top)
        st = self.stubs.get(top)
        if st is None:
            if self.w.sym and top in FACADED:
                st = npf.Fallback(top, importlib.import_module(top), {})
                self.stubs[top] = st
            else:
                return builtins.__import__(name, globals, locals, fromlist,
                                           level)
        m = st
        for p in name.split(".")[1:]:
            m = self._attr(m, p)
        if not fromlist:
            return st
        for f in fromlist:
            if f != "*":
                self._attr(m, f, True)
        return m

    def _attr(self, m, p, soft=False):
        """Attribute or submodule p of the (stub) module m."""
        try:
            return getattr(m, p)
        except AttributeError:
            pass
        real = getattr(m, "_real", None)
        if real is not None:
            try:
                importlib.import_module(f"{real.__name__}.{p}")
                return getattr(m, p)
            except (ImportError, AttributeError):
                pass
        if soft:
            return None
        raise ModuleNotFoundError(f"No module named {m.__name__}.{p}")

    def _own(self, full, fromlist, top):
        m = self.package(full)
        if not fromlist:
            return self.package(top)
        for f in fromlist:
            if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                try:
                    self.package(full + "." + f)
                except ModuleNotFoundError as e:
                    if e.name != full + "." + f:
                        raise
        return m


FACADED = {"numpy", "scipy", "astropy", "skimage", "pyfftw", "sep",
           "astroscrappy", "astroalign", "math", "cmath", "matplotlib",
           "PIL", "numbers"} - {"numbers", "PIL"}
