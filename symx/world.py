"""The two worlds a scenario runs in.

SymWorld: the real source of properimage executed on symbolic values.
ConWorld: the same source executed on concrete values (real numpy, real
scipy), taken from a solver model; used to confirm counterexamples and to
validate every explored path.
"""

import builtins
import hashlib
import math
import os
import random
import shutil
import sys
import tempfile
from fractions import Fraction

import numpy as np

from . import arr, core, ma as M, rec as R
from .arr import A, asany, unwrap, wrap
from .core import SB, SC, SN, Unsupported, num

SRC = os.environ.get("PROPERIMAGE_SRC", "/repo")


class Skip(Exception):
    """The scenario does not apply on this path."""


class Failure:
    def __init__(self, label, detail=""):
        self.label = label
        self.detail = detail

    def __repr__(self):
        return f"{self.label}: {self.detail}"


def h32(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:4],
                          "big")


class World:
    sym = False

    def __init__(self, cfg=None, seed=0):
        self.cfg = dict(cfg or {})
        self.env = {}              # environment options set by scenarios
        self.seed = seed
        self.events = []
        self.failures = []
        self.scratch = None
        self.fs = {}
        self.counters = {}
        self.reached = set()
        self.hooks = {}
        self._mods = None

    # names -----------------------------------------------------------------
    def fresh(self, kind):
        n = self.counters.get(kind, 0)
        self.counters[kind] = n + 1
        return n

    def tmp(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="pi_symx_")
        return self.scratch

    def close(self):
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def load(self):
        from . import loader
        if self._mods is None:
            self._mods = loader.Loader(self)
        return self._mods

    @property
    def pi(self):
        return self.load().package("properimage")

    def mod(self, name):
        return self.load().package("properimage." + name)

    def event(self, _ev, **k):
        self.events.append((_ev, k))

    def evs(self, kind):
        return [k for n, k in self.events if n == kind]

    def reach(self, label):
        self.reached.add(label)

    def fail(self, label, detail=""):
        self.check(label, False, detail)


# --------------------------------------------------------------------------
class SymWorld(World):
    sym = True

    def __init__(self, cfg=None, seed=0):
        super().__init__(cfg, seed)
        from . import npf
        self.np = npf.build(self)
        self.tape = {}
        self.cmemo = {}
        self.pending = []         # (label, z3 violation, kind, margin)
        self.on_check = None

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nz=False):
        c = core.ctx()
        a = c.byname.get(name)
        if a is None:
            sign = "+" if pos or (lo is not None and lo > 0) else (
                "0+" if lo is not None and lo == 0 else None)
            a = c.atom(name, kind="input", sign=sign)
            a.lo = None if lo is None else Fraction(lo)
            a.hi = None if hi is None else Fraction(hi)
            c.inputs.append(a)
            z3 = core.z3
            if lo is not None:
                a.defs.append(a.z >= z3.RealVal(str(Fraction(lo))))
            if hi is not None:
                a.defs.append(a.z <= z3.RealVal(str(Fraction(hi))))
            if sign == "+" and (lo is None or lo <= 0):
                a.defs.append(a.z > 0)
            if nz:
                a.defs.append(a.z != 0)
                a.data = {"nz": True}
        return SN({((a.id, 1),): core.F1}, "f")

    def int(self, name, lo, hi):
        c = core.ctx()
        a = c.byname.get(name)
        if a is None:
            a = c.atom(name, kind="input", isint=True,
                       sign="+" if lo > 0 else ("0+" if lo == 0 else None))
            a.lo = None if lo is None else Fraction(lo)
            a.hi = None if hi is None else Fraction(hi)
            a.defs += [a.z >= lo, a.z <= hi]
            c.inputs.append(a)
        return SN({((a.id, 1),): core.F1}, "i")

    def bool(self, name):
        c = core.ctx()
        b = c.boolnames.get(name)
        if b is None:
            b = core.z3.Bool(name)
            c.boolnames[name] = b
            c.keep.append(b)
            c.bool_inputs.append(name)
        return SB(b)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[core.concretise_int(i)]

    def arr(self, name, shape, lo=None, hi=None, dtype="f8", pos=False,
            kind="f", cls=None):
        o = arr.oarr(tuple(shape))
        for i in np.ndindex(*o.shape):
            nm = name + "".join(f"_{k}" for k in i)
            if kind == "i":
                o[i] = self.int(nm, lo, hi)
            else:
                o[i] = self.real(nm, lo, hi, pos)
        return A(o, None, np.dtype(dtype))

    def arr_or_nan(self, name, shape, lo=None, hi=None, dtype="f8"):
        """Pixels that may be NaN (boolean input <name>nan_..)."""
        a = self.arr(name, shape, lo, hi, dtype)
        for i in np.ndindex(*a.shape):
            b = self.bool(name + "nan" + "".join(f"_{k}" for k in i))
            a.re[i] = SN(a.re[i].p, "f", nan=b.z)
        return a

    def mask(self, name, shape):
        o = arr.oarr(tuple(shape))
        for i in np.ndindex(*o.shape):
            o[i] = self.bool(name + "".join(f"_{k}" for k in i))
        return A(o, None, np.dtype(bool))

    def const(self, v, dtype=None):
        """Concrete nested list / array of rationals -> array."""
        def conv(x):
            if isinstance(x, (list, tuple)):
                return [conv(y) for y in x]
            return num(x) if isinstance(x, Fraction) else x
        if isinstance(v, np.ndarray):
            r = wrap(v)
        else:
            r = arr.from_nested(conv(v))
        return r.astype(dtype) if dtype is not None else r

    def q(self, v):
        """Exact rational constant."""
        return num(Fraction(v))

    def masked(self, data, mask):
        return M.new(data, mask=mask)

    def catalog(self, cols):
        return R.Rec({n: asany(c).copy() for n, c in cols.items()})

    def pow10(self, x):
        return core.sn_pow10(x)

    def assume(self, cond):
        if isinstance(cond, A):
            cond = cond.all()
        core.ctx().assume(cond)

    # ---- checks
    def check(self, label, cond, detail=""):
        if isinstance(cond, A):
            cond = cond.all()
        z = core.to_zbool(cond)
        self.pending.append((label, core.z3.Not(z), None))
        if self.on_check:
            self.on_check(self, label, core.z3.Not(z), None)

    def check_eq(self, label, a, b, tol=None):
        """Elementwise equality (exact here, within tol when replayed)."""
        bad, margin = _eq_terms(a, b)
        z3 = core.z3
        if bad is True:
            self.check(label, False)
            return
        self.on_check(self, label, z3.Or(*bad) if bad else z3.BoolVal(False),
                      z3.Or(*margin) if margin else None,
                      parts=bad, mparts=margin)

    def run(self, label, f):
        """f must not raise an ordinary exception."""
        try:
            return f()
        except Exception as e:
            self.check(label, False, f"{type(e).__name__}: {e}")
            raise Skip()

    def raises(self, label, exc, f):
        try:
            f()
        except exc as e:
            self.check(label, True)
            return e
        except Exception as e:  # noqa
            self.check(label, False, f"raised {type(e).__name__}: {e}")
            return None
        self.check(label, False, "did not raise")

    # ---- environment
    def content_id(self, stub, *content):
        k = (stub,) + tuple(canon(x) for x in content)
        i = self.cmemo.get(k)
        if i is None:
            i = sum(1 for kk in self.cmemo if kk[0] == stub)
            self.cmemo[k] = i
        self.tape.setdefault(stub, []).append(i)
        return i

    def frac(self, x):
        return x

    def lt(self, a, b):
        return a < b

    def ite(self, c, a, b):
        if isinstance(c, A) or isinstance(a, A) or isinstance(b, A):
            return arr.where(c, a, b)
        return core.sn_ite(c, a, b)

    def any(self, xs):
        return core.mkbool(core.z3.Or(*[core.to_zbool(x) for x in xs]))

    def all(self, xs):
        return core.mkbool(core.z3.And(*[core.to_zbool(x) for x in xs]))

    def not_(self, x):
        return arr.core_not(x)

    def conc(self, x):
        """Fork until the value is concrete (small integers/bools)."""
        if isinstance(x, SB):
            return builtins.bool(x)
        if isinstance(x, SN) and not x.is_concrete():
            return core.concretise_int(x)
        return unwrap(x)

    def isnan(self, x):
        return self.np.isnan(x)


def mask_data(x):
    return x


def canon(x):
    """Content key: what lies under a mask or a NaN does not count."""
    if isinstance(x, M.MA):
        m = x._mask
        if M._is_nomask(m):
            return ("ma", canon(x.data))
        z = A(arr.obox(num(0)), None, x.dtype) if x.im is None else None
        d = x.filled(0)
        return ("ma", canon(d), m.key())
    if isinstance(x, A):
        if x.dtype.kind in "fc" and _has_flags(x):
            return (x.shape, tuple(_ckey(v) for v in x.re.flat),
                    None if x.im is None else
                    tuple(_ckey(v) for v in x.im.flat))
        return x.key()
    if isinstance(x, R.Rec):
        return x.key()
    if isinstance(x, SN):
        return _ckey(x)
    if type(x) is SC:
        return (_ckey(x.re), _ckey(x.im))
    if type(x) is SB:
        core.ctx().keep.append(x.z)
        return ("b", x.z.get_id())
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, canon(v)) for k, v in sorted(x.items()))
    if isinstance(x, np.ndarray):
        return canon(wrap(x)) if x.dtype.kind in "biufc" else repr(x)
    if isinstance(x, (int, float, complex, Fraction)):
        r = core.lift(x)
        return canon(r)
    if hasattr(x, "_sym_array"):
        return canon(x._sym_array())
    return repr(x) if isinstance(x, (str, bytes, type(None))) else builtins.id(x)


def _has_flags(a):
    for v in a.re.flat:
        if isinstance(v, SN) and not v.finite():
            return True
    if a.im is not None:
        for v in a.im.flat:
            if not v.finite():
                return True
    return False


def _ckey(v):
    if not isinstance(v, SN):
        return v
    sp = v.special
    if sp is None:
        return v.key()
    if sp is True:
        return ("special", builtins.bool(v.nan), builtins.bool(v.pinf))
    r = core.sn_ite(core.mkbool(sp), SN({}, v.k), SN(v.p, v.k))
    return (r.key(),) + v.key()[1:]


def _eq_terms(a, b):
    """Lists of z3 terms: each says one element differs (exact / margin)."""
    z3 = core.z3
    if a is None or b is None:
        return ([], []) if a is b else (True, True)
    a0, b0 = a, b
    if isinstance(a, R.Rec) or isinstance(b, R.Rec):
        raise Unsupported("catalogue equality")
    a, b = asany(a), asany(b)
    if isinstance(a, M.MA):
        a = a.data
    if isinstance(b, M.MA):
        b = b.data
    if a.shape != b.shape:
        return True, True
    bad, margin = [], []
    planes = [(a.re, b.re)]
    if a.im is not None or b.im is not None:
        planes.append((a.im if a.im is not None else
                       arr.oarr(a.shape, arr.zero()),
                       b.im if b.im is not None else
                       arr.oarr(b.shape, arr.zero())))
    for pa, pb in planes:
        for i in np.ndindex(*a.shape):
            x, y = pa[i], pb[i]
            if type(x) is SB or type(y) is SB or isinstance(
                    x, (builtins.bool, np.bool_)):
                zx, zy = core.to_zbool(x), core.to_zbool(y)
                t = z3.simplify(zx != zy)
                if not z3.is_false(t):
                    bad.append(t)
                    margin.append(t)
                continue
            x, y = num(x), num(y)
            t, m = neq_terms(x, y)
            if t is not None:
                bad.append(t)
                margin.append(m)
    return bad, margin


def neq_terms(x, y):
    z3 = core.z3
    fl = []
    for f in ("nan", "pinf", "ninf"):
        u, v = getattr(x, f), getattr(y, f)
        if u is None and v is None:
            continue
        zu = z3.BoolVal(True) if u is True else (
            z3.BoolVal(False) if u is None else u)
        zv = z3.BoolVal(True) if v is True else (
            z3.BoolVal(False) if v is None else v)
        t = z3.simplify(zu != zv)
        if not z3.is_false(t):
            fl.append(t)
    anysp = core.zor(x.special, y.special)
    d = core.p_add(x.p, core.p_scale(y.p, -core.F1))
    terms, mterms = list(fl), list(fl)
    if anysp is not True:
        nsp = [z3.Not(anysp)] if anysp is not None else []
        if d or not nsp:
            N = clear_inv(d) if d else d
            ne = core.p_z3(N) != 0
            terms.append(z3.And(*(nsp + [ne])) if nsp else ne)
            if d:
                dz = core.p_z3(d)
                mg = z3.Or(dz >= z3.RealVal("1/16"),
                           dz <= z3.RealVal("-1/16"))
                mterms.append(z3.And(*(nsp + [mg])) if nsp else mg)
    if not terms:
        return None, None
    return (terms[0] if len(terms) == 1 else z3.Or(*terms),
            mterms[0] if len(mterms) == 1 else
            (z3.Or(*mterms) if mterms else z3.BoolVal(False)))


def clear_inv(d):
    """Multiply by the (non-zero) denominators of all inverse atoms."""
    atoms = core.ctx().atoms
    for _ in range(8):
        need = {}
        for m in d:
            for a, e in m:
                if e < 0:
                    need[a] = max(need.get(a, 0), -e)
        if not need:
            return d
        if sum(len(atoms[a].data["poly"]) * k if atoms[a].kind == "inv"
               else k for a, k in need.items()) > 4000:
            return d
        D = tuple(sorted(need.items()))
        q = {}
        for m, c in d.items():
            mm = core._mono_mul(m, D)
            q[mm] = q.get(mm, core.F0) + c
        q = {m: c for m, c in q.items() if c}
        try:
            d = core.p_norm(q)
        except Unsupported:
            return d
        if not d:
            return d
    return d


# --------------------------------------------------------------------------
class ConWorld(World):
    sym = False

    def __init__(self, cfg=None, seed=0, values=None, tape=None):
        super().__init__(cfg, seed)
        self.values = values or {}
        self.tape = {k: list(v) for k, v in (tape or {}).items()}
        self.pos = {}
        self.cmemo = {}
        self.np = np
        self.defaults_used = set()
        self.ambiguous = set()
        self.diverged = False
        self.checks = 0

    def _default(self, name, lo, hi, isint=False, nz=False):
        self.defaults_used.add(name)
        r = random.Random(h32(self.seed, name))
        if isint:
            return r.randint(lo, hi)
        l = -8 if lo is None else float(lo)
        u = (l + 16 if l >= -8 else 8) if hi is None else float(hi)
        if lo is None and hi is not None:
            l = u - 16
        v = Fraction(r.randint(0, 256), 256) * (Fraction(u) - Fraction(l)) \
            + Fraction(l)
        if v == 0 and nz:
            v = Fraction(1, 2)
        return v

    def real(self, name, lo=None, hi=None, pos=False, nz=False):
        v = self.values.get(name)
        if v is None:
            if pos and (lo is None or lo <= 0):
                lo = Fraction(1, 8)
            v = self._default(name, lo, hi, nz=nz or pos)
            self.values[name] = v
        return np.float64(float(v))

    def int(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = self._default(name, lo, hi, True)
            self.values[name] = v
        return builtins.int(v)

    def bool(self, name):
        v = self.values.get(name)
        if v is None:
            v = builtins.bool(h32(self.seed, name) & 1)
            self.values[name] = v
        return builtins.bool(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def arr(self, name, shape, lo=None, hi=None, dtype="f8", pos=False,
            kind="f", cls=None):
        o = np.empty(tuple(shape), dtype)
        for i in np.ndindex(*o.shape):
            nm = name + "".join(f"_{k}" for k in i)
            o[i] = self.int(nm, lo, hi) if kind == "i" else \
                self.real(nm, lo, hi, pos)
        return o

    def arr_or_nan(self, name, shape, lo=None, hi=None, dtype="f8"):
        a = self.arr(name, shape, lo, hi, dtype)
        for i in np.ndindex(*a.shape):
            if self.bool(name + "nan" + "".join(f"_{k}" for k in i)):
                a[i] = np.nan
        return a

    def mask(self, name, shape):
        o = np.empty(tuple(shape), bool)
        for i in np.ndindex(*o.shape):
            o[i] = self.bool(name + "".join(f"_{k}" for k in i))
        return o

    def const(self, v, dtype=None):
        if not isinstance(v, np.ndarray):
            v = np.array(_tofloat(v))
        else:
            v = v.copy()
        return v.astype(dtype) if dtype is not None else v

    def q(self, v):
        return float(Fraction(v))

    def masked(self, data, mask):
        return np.ma.MaskedArray(data, mask=mask)

    def catalog(self, cols):
        cols = {n: np.asarray(c) for n, c in cols.items()}
        n = len(next(iter(cols.values())))
        out = np.empty(n, [(k, c.dtype) for k, c in cols.items()])
        for k, c in cols.items():
            out[k] = c
        return out

    def pow10(self, x):
        return 10.0 ** x

    def assume(self, cond):
        if not np.all(cond):
            raise Skip()

    def check(self, label, cond, detail=""):
        self.checks += 1
        if not np.all(cond):
            self.failures.append(Failure(label, detail))

    def check_eq(self, label, a, b, tol=None):
        self.checks += 1
        ok, why = _close(a, b, 2e-4 if tol is None else tol)
        if not ok:
            self.failures.append(Failure(label, why))

    def run(self, label, f):
        try:
            return f()
        except Exception as e:
            self.check(label, False, f"{type(e).__name__}: {e}")
            raise Skip()

    def raises(self, label, exc, f):
        try:
            f()
        except exc as e:
            self.check(label, True)
            return e
        except Exception as e:  # noqa
            self.check(label, False, f"raised {type(e).__name__}: {e}")
            return None
        self.check(label, False, "did not raise")

    def content_id(self, stub, *content):
        t = self.tape.get(stub)
        p = self.pos.get(stub, 0)
        self.pos[stub] = p + 1
        k = (stub,) + tuple(ccanon(x) for x in content)
        if t is not None and p < len(t):
            if self.cmemo.get(k, t[p]) != t[p]:
                self.ambiguous.add(k)
            self.cmemo[k] = t[p]
            return t[p]
        if k in self.ambiguous:
            # contents that were told apart symbolically coincide in this
            # model: beyond the tape there is no telling which one is meant
            self.diverged = True
        i = self.cmemo.get(k)
        if i is None:
            i = 1 + max([v for kk, v in self.cmemo.items()
                         if kk[0] == stub], default=-1)
            self.cmemo[k] = i
        return i

    def frac(self, x):
        return float(x)

    def ite(self, c, a, b):
        if np.ndim(c) or np.ndim(a) or np.ndim(b):
            return np.where(c, a, b)
        return a if c else b

    def any(self, xs):
        return builtins.any(builtins.bool(x) for x in xs)

    def all(self, xs):
        return builtins.all(builtins.bool(x) for x in xs)

    def not_(self, x):
        return not x

    def conc(self, x):
        return x.item() if hasattr(x, "item") else x

    def isnan(self, x):
        return np.isnan(x)


def _tofloat(v):
    if isinstance(v, (list, tuple)):
        return [_tofloat(x) for x in v]
    if isinstance(v, Fraction):
        return float(v)
    return v


def ccanon(x):
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", ccanon(np.asarray(x.filled(0))),
                ccanon(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                v = np.asarray(x, dtype=np.complex128).ravel()
                v = tuple((float(f"{a.real:.5e}"), float(f"{a.imag:.5e}"))
                          for a in v)
            return (x.shape, repr(v))
        return (x.shape, repr(x.tolist()))
    if isinstance(x, (list, tuple)):
        return tuple(ccanon(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, ccanon(v)) for k, v in sorted(x.items()))
    if isinstance(x, (float, np.floating)):
        return float(f"{x:.5e}") if x == x else "nan"
    if isinstance(x, (int, complex, str, bytes, type(None), np.integer)):
        return x
    if hasattr(x, "__array__"):
        return ccanon(np.asarray(x))
    return repr(type(x))


def _close(a, b, tol):
    if a is None or b is None:
        return (a is b), "None"
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False, f"shapes {a.shape} != {b.shape}"
    if a.dtype.kind == "b" or b.dtype.kind == "b":
        bad = a.astype(bool) != b.astype(bool)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad)) if a.ndim else ()
            return False, f"differs at {i}"
        return True, ""
    a = a.astype(complex)
    b = b.astype(complex)
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False, "NaN pattern differs"
    ia, ib = np.isinf(a) & ~na, np.isinf(b) & ~nb
    if (ia != ib).any():
        return False, "inf pattern differs"
    fin = ~(na | ia)
    if not fin.any():
        return True, ""
    sc = 1.0 + max(np.abs(a[fin]).max(), np.abs(b[fin]).max())
    d = np.abs(a - b)
    bad = fin & (d > tol * sc)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad)) if a.ndim else ()
        return False, f"at {i}: {a[i]} != {b[i]}"
    return True, ""
