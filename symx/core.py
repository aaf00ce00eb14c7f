"""Symbolic scalars, path exploration and solver queries.

Numbers are exact: every symbolic number is a polynomial with rational
coefficients over *atoms* (solver variables).  Operations that leave the
polynomials (square root, division, comparison-selected values, rounding,
phases, transcendental functions) introduce a new atom together with its
defining solver constraints, and are memoised on their (canonical) argument.
Booleans are solver terms.  Converting a symbolic boolean to a Python bool is
a branch: the explorer re-executes the program for every feasible side.
"""

import math
import sys
import time
from fractions import Fraction

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import z3  # noqa: E402


class EngineSignal(BaseException):
    """Not an Exception: code under test cannot swallow it."""


class Unsupported(EngineSignal):
    """The code did something to a symbolic value the engine cannot encode."""


class Infeasible(EngineSignal):
    """The current path condition became unsatisfiable."""


class OutOfBudget(EngineSignal):
    """Path or time budget reached."""


F0 = Fraction(0)
F1 = Fraction(1)


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "name", "z", "zr", "isint", "sign", "defs", "kind",
                 "data", "ev", "deps", "lo", "hi", "nofix")

    def __init__(self, id, name, isint=False, sign=None, kind="input",
                 data=None):
        self.id = id
        self.name = name
        self.isint = isint
        self.sign = sign          # '+', '0+', None
        self.kind = kind
        self.data = data
        self.z = z3.Int(name) if isint else z3.Real(name)
        self.zr = z3.ToReal(self.z) if isint else self.z
        self.defs = []            # z3 Bool constraints
        self.ev = None            # closure(env)->float for evaluation
        self.lo = self.hi = None


class Ctx:
    """All state of one execution path."""

    def __init__(self, prefix=(), stats=None, opts=None):
        self.atoms = []
        self.byname = {}
        self.memo = {}
        self.pc = []              # list of z3 Bool (branches, assumptions)
        self.prefix = list(prefix)
        self.trace = []           # (choice, n_alternatives-as-list)
        self.stats = stats if stats is not None else Stats()
        self.opts = opts or {}
        self.zvars = {}           # z3 const ast id -> Atom
        self.boolnames = {}
        self.varcache = {}
        self.inputs = []          # input atoms in creation order
        self.bool_inputs = []
        self.keep = []            # keep z3 asts alive (ids are reused)
        self.notes = []
        self.hashed = []          # numbers put in sets or dictionaries
        self.deadline = self.opts.get("deadline")

    # ---- atoms
    def atom(self, name, **kw):
        if name in self.byname:
            k = 2
            while f"{name}~{k}" in self.byname:
                k += 1
            name = f"{name}~{k}"
        a = Atom(len(self.atoms), name, **kw)
        self.atoms.append(a)
        self.byname[name] = a
        self.zvars[a.z.get_id()] = a
        self.keep.append(a.z)
        self.keep.append(a.zr)
        return a

    # ---- variables of a z3 expression
    def vars_of(self, e):
        i = e.get_id()
        r = self.varcache.get(i)
        if r is not None:
            return r
        out = set()
        seen = set()
        stack = [e]
        while stack:
            t = stack.pop()
            ti = t.get_id()
            if ti in seen:
                continue
            seen.add(ti)
            c = self.varcache.get(ti)
            if c is not None:
                out |= c
                continue
            if z3.is_const(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(ti)
            else:
                stack.extend(t.children())
        r = frozenset(out)
        self.varcache[i] = r
        self.keep.append(e)
        return r

    def slice(self, exprs, whole=False, opaque=False):
        """Constraints relevant to exprs (cone of influence); opaque: the
        definitions of named polynomials are left out (recorded in
        self.hidden), which only weakens the constraints."""
        self.hidden = 0
        want = set()
        for e in exprs:
            want |= self.vars_of(e)
        out = []
        used = set()
        pend = list(want)
        done = set()
        pc = [(c, self.vars_of(c)) for c in self.pc]
        if whole:
            for i, (c, v) in enumerate(pc):
                used.add(i)
                out.append(c)
                for x in v:
                    if x not in want:
                        want.add(x)
                        pend.append(x)
        byvar = {}
        for i, (c, v) in enumerate(pc):
            for x in v:
                byvar.setdefault(x, []).append(i)
        while pend:
            x = pend.pop()
            if x in done:
                continue
            done.add(x)
            a = self.zvars.get(x)
            if a is not None and opaque and a.kind == "abbr":
                self.hidden += len(a.data["poly"])
            elif a is not None:
                for d in a.defs:
                    out.append(d)
                    for y in self.vars_of(d):
                        if y not in done:
                            pend.append(y)
            for i in byvar.get(x, ()):
                if i not in used:
                    used.add(i)
                    out.append(pc[i][0])
                    for y in pc[i][1]:
                        if y not in done:
                            pend.append(y)
        return out, done

    def check(self, extra, timeout=None, whole=False, want_model=False,
              kind="branch"):
        """Satisfiability of pc and defs and extra. Returns (res, model)."""
        extra = list(extra)
        to = timeout or self.opts.get("branch_timeout", 3000)
        if kind in ("branch", "simplify") and not want_model:
            # weaker constraints first: unsat there is unsat
            cons, vs = self.slice(extra, whole=whole, opaque=True)
            hid = self.hidden
            if hid:
                s = z3.Solver()
                s.set("timeout", int(min(to, 1500)))
                s.add(*cons)
                s.add(*extra)
                t0 = time.perf_counter()
                r = s.check()
                self.stats.solver_s += time.perf_counter() - t0
                self.stats.queries += 1
                self.stats.bykind[kind] = self.stats.bykind.get(kind, 0) + 1
                if r == z3.unsat:
                    return "unsat", None
                if hid > 300:
                    self.stats.unknown += 1
                    return "unknown", None
        cons, vs = self.slice(extra, whole=whole)
        s = z3.Solver()
        s.set("timeout", int(to))
        seed = self.opts.get("seed", 0)
        s.set("random_seed", seed & 0x7FFFFFFF)
        s.add(*cons)
        s.add(*extra)
        t0 = time.perf_counter()
        r = s.check()
        dt = time.perf_counter() - t0
        self.stats.solver_s += dt
        self.stats.queries += 1
        self.stats.bykind[kind] = self.stats.bykind.get(kind, 0) + 1
        res = "sat" if r == z3.sat else "unsat" if r == z3.unsat \
            else "unknown"
        if res == "unknown":
            self.stats.unknown += 1
        m = None
        if res == "sat" and want_model:
            m = s.model()
        return res, m

    # ---- branching
    def assume(self, b):
        z = to_zbool(b)
        z = z3.simplify(z) if not isinstance(z, bool) else z3.BoolVal(z)
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise Infeasible()
        self.pc.append(z)
        self.keep.append(z)

    def decide(self, z):
        """Fork on the z3 Bool z."""
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        n = len(self.trace)
        if self.deadline and time.perf_counter() > self.deadline:
            raise OutOfBudget("time")
        if n < len(self.prefix):
            v, forced = self.prefix[n]
            self.trace.append((v, forced))
            self.pc.append(z if v else z3.Not(z))
            self.keep.append(z)
            return v
        rt, _ = self.check([z])
        rf, _ = self.check([z3.Not(z)]) if rt != "unsat" else ("sat", None)
        if rt == "unsat" and rf == "unsat":
            raise Infeasible()
        if rt == "unsat":
            v, forced = False, True
        elif rf == "unsat":
            v, forced = True, True
        else:
            v, forced = True, False
            self.stats.branches += 1
        self.trace.append((v, forced))
        self.pc.append(z if v else z3.Not(z))
        self.keep.append(z)
        if len(self.trace) > self.opts.get("max_depth", 4000):
            raise OutOfBudget("depth")
        return v

    def implied(self, z, timeout=800, force=False):
        """True/False if pc decides z, else None (no fork)."""
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        k = ("implied", z.get_id(), len(self.pc))
        if k in self.memo:
            return self.memo[k]
        self.keep.append(z)
        v = None
        if self.pc or force:
            r, _ = self.check([z3.Not(z)], timeout=timeout, kind="simplify")
            if r == "unsat":
                v = True
            else:
                r, _ = self.check([z], timeout=timeout, kind="simplify")
                if r == "unsat":
                    v = False
        self.memo[k] = v
        return v


class Stats:
    def __init__(self):
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.bykind = {}


_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise RuntimeError("no symbolic context")
    return c


def set_ctx(c):
    old = _CTX[0]
    _CTX[0] = c
    return old


# --------------------------------------------------------------------------
# polynomials: dict {mono: Fraction}; mono = tuple of (atom id, exp) sorted
# --------------------------------------------------------------------------
def p_const(c):
    return {(): c} if c else {}


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


def p_add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return p_scale(q, p[()])
    if len(q) == 1 and () in q:
        return p_scale(p, q[()])
    if len(p) * len(q) > 60000:
        # name the larger operand(s) instead of expanding the product
        if len(p) >= len(q):
            p = p_abbrev(p)
        else:
            q = p_abbrev(q)
        return p_mul(p, q)
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m)
            v = c1 * c2 if v is None else v + c1 * c2
            r[m] = v
    r = {m: c for m, c in r.items() if c}
    return p_norm(r)


def p_abbrev(p):
    """A fresh atom defined to equal p."""
    c = ctx()
    k = ("abbr", p_key(p))
    at = c.memo.get(k)
    if at is None:
        at = c.atom(f"abbr{len(c.atoms)}", kind="abbr", data={"poly": p},
                    sign={"+": "+", "0+": "0+"}.get(p_sign(p)))
        at.defs.append(at.z == p_z3_raw(p))
        at.ev = lambda env, p=p: p_eval(p, env)
        c.memo[k] = at
    return {((at.id, 1),): F1}


def p_norm(p):
    """Apply rewrite rules of special atoms (h^2, s^2, poly atoms)."""
    atoms = ctx().atoms
    for m in p:
        for a, e in m:
            at = atoms[a]
            k = at.kind
            if k == "sqrt" and (e >= 2 or e < 0):
                break
            if k == "sin" and e >= 2:
                break
            if k == "inv" and e > 0:
                break
            if k == "algi" and e < 0:
                break
        else:
            continue
        break
    else:
        return p
    out = {}
    for m, c in p.items():
        t = _rewrite_mono(m)
        if t is None:
            v = out.get(m, F0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        else:
            out = p_add(out, p_scale(t, c))
    return out


def _rewrite_mono(m):
    atoms = ctx().atoms
    rest = []
    fac = None
    for a, e in m:
        at = atoms[a]
        if at.kind == "sqrt" and (e >= 2 or e < 0):
            base = at.data["poly"]
            if e >= 2:
                f = p_pow(base, e // 2)
                if e % 2:
                    rest.append((a, 1))
            else:
                # h^e (e<0) = h^(e mod 2) * base^floor(e/2)
                k, r = divmod(e, 2)
                f = p_pow(p_inv(base), -k)
                if r:
                    rest.append((a, 1))
            fac = f if fac is None else p_mul(fac, f)
        elif at.kind == "sin" and e >= 2:
            ca = at.data["cos"]
            one_c2 = {(): F1, ((ca, 2),): -F1}
            f = p_pow(one_c2, e // 2)
            if e % 2:
                rest.append((a, 1))
            fac = f if fac is None else p_mul(fac, f)
        elif at.kind == "inv" and e > 0:
            f = p_pow(at.data["poly"], e)
            fac = f if fac is None else p_mul(fac, f)
        else:
            rest.append((a, e))
    if fac is None:
        return None
    return p_mul({tuple(sorted(rest)): F1}, fac)


def p_pow(p, n):
    r = {(): F1}
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_key(p):
    return frozenset(p.items())


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_constval(p):
    return p.get((), F0)


def _lead(p):
    return min(p)


def p_clear(p):
    """p = N / D, with N without negative exponents; D a monomial dict."""
    need = {}
    for m in p:
        for a, e in m:
            if e < 0:
                need[a] = max(need.get(a, 0), -e)
    if not need:
        return p, ()
    D = tuple(sorted(need.items()))
    atoms = ctx().atoms
    # multiply by D without expanding 'inv' atoms, then expand leftovers
    q = {}
    for m, c in p.items():
        mm = _mono_mul(m, D)
        q[mm] = q.get(mm, F0) + c
    q = {m: c for m, c in q.items() if c}
    return p_norm(q), D


def p_inv(p):
    """1/p as polynomial (with inverse atoms)."""
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return p_norm({tuple((a, -e) for a, e in m): F1 / c})
    N, D = p_clear(p)
    dp = p_norm({D: F1})
    if len(N) == 1:
        return p_mul(dp, p_inv(N))
    # common monomial factor
    common = None
    for m in N:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()
                      if d.get(a, 0) > 0}
        if not common:
            break
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        N = {_mono_mul(m, cm): c for m, c in N.items()}
        inv_common = p_norm({cm: F1})
    else:
        inv_common = {(): F1}
    lc = N[_lead(N)]
    N = p_scale(N, F1 / lc)
    c = ctx()
    k = ("inv", p_key(N))
    at = c.memo.get(k)
    if at is None:
        at = c.atom(f"inv{len(c.atoms)}", kind="inv", data={"poly": N})
        zn = p_z3(N)
        # reciprocal of a non-zero value; the value at zero is unconstrained
        # (callers carry a non-finite flag for that case)
        at.defs.append(z3.Implies(zn != 0, at.z * zn == 1))
        at.ev = lambda env, N=N: (lambda v: 1.0 / v if v else math.inf)(
            p_eval(N, env))
        iv = p_interval(N)
        if iv is not None:
            at.lo, at.hi = _widen(*iv)  # bounds of N, as for other exponents
        if p_sign(N) == "+":
            at.sign = "+"
        # an inv atom stands for N itself with exponent -1
        c.memo[k] = at
    r = {((at.id, -1),): F1 / lc}
    r = p_mul(r, inv_common)
    return p_mul(r, dp)


BIG = 80


def p_z3(p):
    """z3 Real term; long polynomials are named."""
    c = ctx()
    if len(p) > BIG:
        (m, _), = p_abbrev(p).items()
        return c.atoms[m[0][0]].z
    return p_z3_raw(p)


def _coef_z3(v):
    c = ctx()
    r = c.memo.get(("coef", v))
    if r is None:
        r = c.memo[("coef", v)] = z3.RealVal(str(v))
    return r


def _mono_z3(m):
    c = ctx()
    t = c.memo.get(("mono", m))
    if t is not None:
        return t
    fs = []
    for a, e in m:
        at = c.atoms[a]
        if at.kind == "inv":
            z, e2 = at.z, -e
            if e2 < 0:
                raise Unsupported("inv atom positive power")
        elif e < 0:
            z, e2 = recip_var(at), -e
        else:
            z, e2 = at.zr, e
        fs += [z] * e2
    t = fs[0] if len(fs) == 1 else z3.Product(*fs)
    c.memo[("mono", m)] = t
    return t


def p_z3_raw(p):
    c = ctx()
    k = ("z3", p_key(p))
    r = c.memo.get(k)
    if r is not None:
        return r
    terms = []
    for m in sorted(p):
        co = p[m]
        if not m:
            terms.append(_coef_z3(co))
        elif co == 1:
            terms.append(_mono_z3(m))
        else:
            terms.append(_coef_z3(co) * _mono_z3(m))
    r = z3.RealVal(0) if not terms else (
        terms[0] if len(terms) == 1 else z3.Sum(terms))
    c.memo[k] = r
    c.keep.append(r)
    return r


def recip_var(at):
    c = ctx()
    k = ("recip", at.id)
    z = c.memo.get(k)
    if z is None:
        r = c.atom(f"recip_{at.name}", kind="recip", data={"of": at})
        cond = at.zr * r.z == 1
        r.defs.append(cond if at.sign == "+" else
                      z3.Implies(at.zr != 0, cond))
        if at.sign == "+":
            r.defs.append(r.z > 0)
        r.ev = lambda env, at=at: (lambda v: 1.0 / v if v else math.inf)(
            env(at))
        z = r.z
        c.memo[k] = z
    return z


def p_eval(p, env):
    """Float evaluation; env: Atom -> float."""
    atoms = ctx().atoms
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            at = atoms[a]
            if at.kind == "inv":
                v = env(at)
                t *= v ** (-e)
            else:
                v = env(at)
                if v == 0 and e < 0:
                    return math.nan
                t *= v ** e
        s += t
    return s


def atom_value(at, base, cache):
    """Value of an atom given base input values (floats)."""
    if not isinstance(at, Atom):          # a Boolean input
        return base[at.decl().name()]
    v = cache.get(at.id)
    if v is not None:
        return v
    if at.ev is not None:
        v = at.ev(lambda b: atom_value(b, base, cache))
    else:
        v = base.get(at.name)
        if v is None:
            raise KeyError(at.name)
        v = float(v)
    cache[at.id] = v
    return v


def p_sign(p):
    """'+', '0+', '-', '0-', '0' or None by syntactic analysis."""
    if not p:
        return "0"
    s = _p_sign(p)
    if s in ("+", "-"):
        return s
    iv = p_interval(p)
    if iv is not None:
        if iv[0] > 0:
            return "+"
        if iv[1] < 0:
            return "-"
        if s is None and iv[0] >= 0:
            return "0+"
        if s is None and iv[1] <= 0:
            return "0-"
    return s


def _p_sign(p):
    atoms = ctx().atoms
    res = None
    for m, c in p.items():
        s = "+" if c > 0 else "-"
        strict = True
        for a, e in m:
            at = atoms[a]
            if at.sign == "+":
                continue
            if at.sign == "0+":
                if e < 0:
                    return None
                strict = False
                continue
            if e % 2 == 0:
                if e < 0:
                    return None
                strict = False
                continue
            return None
        if res is None:
            res = [s, strict]
        else:
            if res[0] != s:
                return None
            res[1] = res[1] or strict
    return ("" if res[1] else "0") + res[0] if res[1] else "0" + res[0]


def p_interval(p):
    """Bounds (lo, hi) from the declared bounds of the atoms, or None."""
    atoms = ctx().atoms
    lo = hi = F0
    if len(p) > 64 and (len(p) > 4096 or any(
            atoms[a].lo is None for m in p for a, _ in m)):
        return None
    for m, c in p.items():
        l, h = c, c
        for a, e in m:
            at = atoms[a]
            if at.lo is None or at.hi is None:
                return None
            x, y = at.lo, at.hi
            if e < 0:
                if not (x > 0 or y < 0):
                    return None
                x, y = 1 / y, 1 / x
                e = -e
            for _ in range(e):
                v = (l * x, l * y, h * x, h * y)
                l, h = min(v), max(v)
            if e % 2 == 0 and len(m) == 1 and x < 0 < y:
                if c > 0:
                    l = F0
                else:
                    h = F0
        lo += l
        hi += h
    return lo, hi


def cmp_interval(p, op):
    """Truth of p op 0 when the atoms' bounds decide it, else None."""
    iv = p_interval(p)
    if iv is None:
        return None
    lo, hi = iv
    if op == "<":
        return True if hi < 0 else False if lo >= 0 else None
    if op == "<=":
        return True if hi <= 0 else False if lo > 0 else None
    if op == ">":
        return True if lo > 0 else False if hi <= 0 else None
    if op == ">=":
        return True if lo >= 0 else False if hi < 0 else None
    if lo > 0 or hi < 0:
        return op == "!="
    return None


# --------------------------------------------------------------------------
# helpers
# --------------------------------------------------------------------------
def is_sym(x):
    if isinstance(x, SN):
        return not x.is_concrete()
    if type(x) is SB:
        return True
    if type(x) is SC:
        return is_sym(x.re) or is_sym(x.im)
    return False


def zor(*bs):
    out = []
    for b in bs:
        if b is None or b is False:
            continue
        if b is True:
            return True
        out.append(b)
    if not out:
        return None
    if len(out) == 1:
        return out[0]
    # de-duplicate
    seen = {}
    for b in out:
        seen[b.get_id()] = b
    out = list(seen.values())
    return out[0] if len(out) == 1 else z3.Or(*out)


def zand(*bs):
    out = []
    for b in bs:
        if b is None or b is False:
            return None
        if b is True:
            continue
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def znot(b):
    if b is None or b is False:
        return True
    if b is True:
        return None
    return z3.Not(b)


def _fold(z):
    """z3 Bool -> None/True/z3."""
    if z is None or isinstance(z, bool):
        return True if z else None
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return None
    return z


def to_zbool(b):
    if type(b) is SB:
        return b.z
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, SN):
        return to_zbool(b != 0)
    return z3.BoolVal(bool(b))


def mkbool(z):
    """z3 Bool -> Python bool or SB."""
    if z is None:
        return False
    if isinstance(z, bool):
        return z
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    ctx().keep.append(z)
    return SB(z)


class SB:
    """Symbolic boolean."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().decide(self.z)

    def __and__(self, o):
        if isinstance(o, (SN,)):
            return to_num(self) & o
        if o is True or o is False:
            return self if o else False
        if type(o) is SB:
            return mkbool(z3.And(self.z, o.z))
        if _is_boolish(o):
            return self if bool(o) else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SB:
            return mkbool(z3.Or(self.z, o.z))
        if _is_boolish(o):
            return True if bool(o) else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SB:
            return mkbool(z3.Xor(self.z, o.z))
        if _is_boolish(o):
            return mkbool(z3.Not(self.z)) if bool(o) else self
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        if type(o) is SB:
            return mkbool(self.z == o.z)
        if _is_boolish(o):
            return self if bool(o) else mkbool(z3.Not(self.z))
        return to_num(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(to_zbool(r)))

    __hash__ = None

    # numeric promotion
    def _n(self):
        return to_num(self)

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    def __rmul__(self, o):
        return o * self._n()

    def __truediv__(self, o):
        return self._n() / o

    def __rtruediv__(self, o):
        return o / self._n()

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __neg__(self):
        return -self._n()

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return f"SB({self.z})"

    def __format__(self, spec):
        return "<symbolic bool>"

    # numpy scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self._n()

    def item(self):
        return self

    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, arr.dt(t))

    def copy(self):
        return self


def _is_boolish(o):
    return isinstance(o, bool) or type(o).__name__ in ("bool_", "bool")


def to_num(x):
    """bool/SB/python number -> SN."""
    if isinstance(x, SN):
        return x
    if type(x) is SB:
        c = ctx()
        k = ("b2n", x.z.get_id())
        at = c.memo.get(k)
        if at is None:
            at = c.atom(f"b2n{len(c.atoms)}", kind="ite", sign="0+",
                        isint=False)
            at.defs.append(at.z == z3.If(x.z, z3.RealVal(1), z3.RealVal(0)))
            at.defs.append(z3.Or(at.z == 0, at.z == 1))
            at.ev = lambda env, z=x.z: 1.0 if zbool_eval(z, env) else 0.0
            at.data = {"b2n": x.z}
            c.memo[k] = at
            c.keep.append(x.z)
        return SN({((at.id, 1),): F1}, "i")
    return lift(x)


def lift(x):
    """Python/numpy number -> SN (SC for complex)."""
    if isinstance(x, SN) or type(x) is SC:
        return x
    if type(x) is SB:
        return to_num(x)
    if isinstance(x, bool):
        return SN(p_const(Fraction(int(x))), "i")
    if isinstance(x, int):
        return SN(p_const(Fraction(x)), "i")
    if isinstance(x, float):
        return _lift_float(x)
    if isinstance(x, Fraction):
        return SN(p_const(x), "f")
    import numpy as np
    if isinstance(x, np.bool_):
        return SN(p_const(Fraction(int(x))), "i")
    if isinstance(x, np.integer):
        return SN(p_const(Fraction(int(x))), "i")
    if isinstance(x, np.floating):
        return _lift_float(float(x))
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        x = complex(x)
        return SC(_lift_float(x.real), _lift_float(x.imag))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if hasattr(x, "_sym_scalar"):
        return x._sym_scalar()
    return None


def _lift_float(x):
    if x != x:
        return SN({}, "f", nan=True)
    if x == math.inf:
        return SN({}, "f", pinf=True)
    if x == -math.inf:
        return SN({}, "f", ninf=True)
    return SN(p_const(Fraction(x)), "f")


def num(x):
    r = lift(x)
    if r is None:
        raise TypeError(f"not a number: {type(x)}")
    return r


class SN:
    """Symbolic (or exact concrete) real number."""

    __slots__ = ("p", "k", "nan", "pinf", "ninf", "log10v", "dtype_")

    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, p, k="f", nan=None, pinf=None, ninf=None):
        self.p = p
        self.k = k
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.log10v = None

    # --- queries
    @property
    def special(self):
        return zor(self.nan, self.pinf, self.ninf)

    def finite(self):
        return self.nan is None and self.pinf is None and self.ninf is None

    def is_concrete(self):
        if not p_isconst(self.p):
            return False
        return all(f is None or f is True
                   for f in (self.nan, self.pinf, self.ninf))

    def concrete(self):
        if not self.is_concrete():
            raise Unsupported("concrete value of a symbolic number needed")
        if self.nan:
            return math.nan
        if self.pinf:
            return math.inf
        if self.ninf:
            return -math.inf
        v = p_constval(self.p)
        if self.k == "i" and v.denominator == 1:
            return int(v)
        return float(v)

    def key(self):
        def fk(f):
            if f is None or f is True:
                return f
            ctx().keep.append(f)
            return f.get_id()
        return (p_key(self.p), fk(self.nan), fk(self.pinf), fk(self.ninf))

    def z(self):
        return p_z3(self.p)

    def __hash__(self):
        if self.is_concrete():
            h = hash(self.concrete())
            if self.k != "i" and self.finite():
                for o, ho in ctx().hashed:
                    if ho != h and bool(self == o):
                        return ho
                ctx().hashed.append((self, h))
            return h
        if self.k == "i" or not self.finite():
            # plain integers may share the table, unseen by us
            raise Unsupported("hash of a symbolic number")
        # equal numbers must hash alike: decide which earlier one it is
        known = ctx().hashed
        for o, h in known:
            if o is self or bool(self == o):
                return h
        h = 7919 * (len(known) + 1) + 104729
        known.append((self, h))
        return h

    # --- arithmetic
    def _co(self, o):
        if isinstance(o, SN):
            return o
        return lift(o)

    def _flags_add(self, o, neg=False):
        if self.finite() and o.finite():
            return None, None, None
        op, on = (o.ninf, o.pinf) if neg else (o.pinf, o.ninf)
        nan = zor(self.nan, o.nan, zand(self.pinf, on), zand(self.ninf, op))
        pinf = zor(self.pinf, op)
        ninf = zor(self.ninf, on)
        if nan is True:
            return True, None, None
        if nan is not None:
            pinf = _fold_and(pinf, znot(nan))
            ninf = _fold_and(ninf, znot(nan))
        return nan, pinf, ninf

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if type(o) is SC:
            return SC(self + o.re, o.im)
        n, pi, ni = self._flags_add(o)
        return SN(p_add(self.p, o.p), _kk(self, o), n, pi, ni)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if type(o) is SC:
            return SC(self - o.re, -o.im)
        n, pi, ni = self._flags_add(o, neg=True)
        return SN(p_add(self.p, p_scale(o.p, -F1)), _kk(self, o), n, pi, ni)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o.__sub__(self)

    def __neg__(self):
        return SN(p_scale(self.p, -F1), self.k, self.nan, self.ninf,
                  self.pinf)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if type(o) is SC:
            return SC(self * o.re, self * o.im)
        if self.finite() and o.finite():
            return SN(p_mul(self.p, o.p), _kk(self, o))
        return _mul_special(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if type(o) is SC:
            d = o.re * o.re + o.im * o.im
            return SC(self * o.re / d, -(self * o.im) / d)
        return _div(self, o)

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if type(o) is SC:
            return SC(o.re / self, o.im / self)
        return _div(o, self)

    def __floordiv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        r = sn_floor(_div(self, o))
        return SN(r.p, _kk(self, o), r.nan, r.pinf, r.ninf)

    def __rfloordiv__(self, o):
        return num(o).__floordiv__(self)

    def __mod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return self - o * self.__floordiv__(o)

    def __rmod__(self, o):
        return num(o).__mod__(self)

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return q, self - num(o) * q

    def __pow__(self, o, mod=None):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return sn_pow(self, o)

    def __rpow__(self, o):
        return sn_pow(num(o), self)

    def __abs__(self):
        return sn_abs(self)

    # --- comparison
    def _cmp(self, o, op):
        o2 = self._co(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is SC:
            if op == "==":
                return (self == o2.re) & (o2.im == 0)
            if op == "!=":
                return ~as_sb(self._cmp(o, "=="))
            return NotImplemented
        return sn_cmp(self, o2, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        return self._cmp(o, "!=")

    # bit ops on ints that came from booleans
    def __and__(self, o):
        if self.is_concrete() and not is_sym(o):
            return int(self) & int(o)
        raise Unsupported("bitwise and on symbolic int")

    def __bool__(self):
        return bool(self != 0)

    # --- conversion
    def __float__(self):
        if self.is_concrete():
            return float(self.concrete())
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        if self.is_concrete():
            return int(self.concrete())
        return self.__index__()

    def __trunc__(self):
        return sn_trunc(self)

    def __complex__(self):
        return complex(float(self))

    def __index__(self):
        if self.is_concrete():
            v = self.concrete()
            if int(v) != v:
                raise TypeError("float cannot be interpreted as an integer")
            if self.k != "i":
                raise TypeError(
                    "'float' object cannot be interpreted as an integer")
            return int(v)
        if self.k != "i":
            raise TypeError(
                "'float' object cannot be interpreted as an integer")
        return concretise_int(self)

    def __round__(self, nd=None):
        if nd is None:
            r = sn_rint(self)
            return SN(r.p, "i")
        if nd == 0:
            return sn_rint(self)
        if self.is_concrete():
            return num(round(self.concrete(), nd))
        raise Unsupported("round to digits")

    def __floor__(self):
        r = sn_floor(self)
        return SN(r.p, "i")

    def __ceil__(self):
        r = -sn_floor(-self)
        return SN(r.p, "i")

    def __repr__(self):
        if self.is_concrete():
            return repr(self.concrete())
        return f"SN<{p_str(self.p)}{'!' if self.special is not None else ''}>"

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        if self.is_concrete():
            return format(self.concrete(), spec)
        return "<symbolic>"

    # numpy scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SN({}, self.k)

    def conj(self):
        return self

    conjugate = conj

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def any(self):
        return self != 0

    all = any

    def is_integer(self):
        return sn_floor(self) == self

    def round(self, nd=0):
        return sn_rint(self)

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        from . import arr
        return arr.DT("i8" if self.k == "i" else "f8")

    def astype(self, t):
        from . import arr
        return arr.cast_scalar(self, arr.dt(t))

    def sqrt(self):
        return sn_sqrt(self)

    @property
    def __class__(self):
        return int if self.k == "i" else float


def as_sb(b):
    if type(b) is SB:
        return b
    return SBc(bool(b))


class SBc:
    """Concrete bool with working ~ (Python's ~True is -2)."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = bool(v)

    def __invert__(self):
        return not self.v

    def __bool__(self):
        return self.v


def _kk(a, b):
    return "i" if a.k == "i" and b.k == "i" else "f"


def _fold_and(a, b):
    if a is None or b is None:
        return None
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def _mul_special(a, b):
    if a.pinf is None and a.ninf is None and b.pinf is None and \
            b.ninf is None:
        nan = zor(a.nan, b.nan)
        if nan is True:
            return SN({}, "f", nan=True)
        return SN(p_mul(a.p, b.p), _kk(a, b), nan)
    az, bz = a.z(), b.z()

    def isinf(x):
        return zor(x.pinf, x.ninf)

    ai, bi = isinf(a), isinf(b)
    nan = zor(a.nan, b.nan)
    if ai is not None:
        nan = zor(nan, _fold(zand(ai, znot(b.special), _fold(bz == 0))))
    if bi is not None:
        nan = zor(nan, _fold(zand(bi, znot(a.special), _fold(az == 0))))
    if nan is True:
        return SN({}, "f", nan=True)
    pos_a = zor(a.pinf, _fold(zand(znot(a.special), _fold(az > 0))))
    pos_b = zor(b.pinf, _fold(zand(znot(b.special), _fold(bz > 0))))
    anyinf = zor(ai, bi)
    if anyinf is None:
        return SN(p_mul(a.p, b.p), _kk(a, b), nan)
    anyinf = _fold_and(anyinf, znot(nan))
    same = None
    pa = z3.BoolVal(True) if pos_a is True else (
        z3.BoolVal(False) if pos_a is None else pos_a)
    pb = z3.BoolVal(True) if pos_b is True else (
        z3.BoolVal(False) if pos_b is None else pos_b)
    same = _fold(pa == pb)
    pinf = _fold_and(anyinf, same)
    ninf = _fold_and(anyinf, znot(same))
    return SN(p_mul(a.p, b.p), "f", nan, pinf, ninf)


def _known_nonzero(p):
    s = p_sign(p)
    if s in ("+", "-"):
        return True
    return False


def _div(a, b):
    """numpy-like true division; division by zero gives a flagged value."""
    if a.is_concrete() and b.is_concrete():
        av, bv = a.concrete(), b.concrete()
        if a.finite() and b.finite() and bv != 0:
            return SN(p_const(p_constval(a.p) / p_constval(b.p)), "f")
        import numpy as np
        with np.errstate(all="ignore"):
            return num(float(np.float64(av) / np.float64(bv)))
    if b.finite() and p_isconst(b.p) and b.p:
        if a.finite():
            return SN(p_scale(a.p, F1 / p_constval(b.p)), "f")
        r = _mul_special(a, SN(p_const(F1 / p_constval(b.p))))
        return r
    nanf, pi, ni = a.nan, a.pinf, a.ninf
    nan = zor(a.nan, b.nan)
    if not b.p and b.finite():
        zero = True
    elif p_isconst(b.p) and b.p:
        zero = None
    elif _known_nonzero(b.p):
        zero = None
    else:
        zc = b.z() == 0
        imp = ctx().implied(zc)
        zero = True if imp is True else (None if imp is False else zc)
    if b.pinf is not None or b.ninf is not None:
        # finite / inf = 0: not needed by the code base; encode exactly
        binf = zor(b.pinf, b.ninf)
        if a.finite() and binf is not True:
            inv = p_mul(a.p, p_inv(b.p)) if b.p else {}
            q = SN(inv, "f", zor(nan, zero))
            return sn_ite(mkbool(binf), SN({}, "f"), q)
        if a.finite():
            return SN({}, "f", nan)
        raise Unsupported("inf/inf")
    if zero is True:
        if a.is_concrete() and not a.p and a.finite():
            return SN({}, "f", nan=True)
        az = a.z()
        return SN({}, "f", zor(nan, _fold(zand(znot(a.special), az == 0))),
                  _fold(zor(a.pinf, _fold(az > 0))),
                  _fold(zor(a.ninf, _fold(az < 0))))
    invp = p_inv(b.p)
    if a.pinf is None and a.ninf is None and zero is None:
        return SN(p_mul(a.p, invp), "f", nan)
    if a.pinf is None and a.ninf is None:
        # x/0 is +-inf or nan: all are "non finite"; we carry them as nan
        return SN(p_mul(a.p, invp), "f", zor(nan, zero))
    bpos = _fold(b.z() > 0)
    pinf = zor(_fold_and(pi, bpos), _fold_and(ni, znot(bpos)))
    ninf = zor(_fold_and(ni, bpos), _fold_and(pi, znot(bpos)))
    return SN(p_mul(a.p, invp), "f", zor(nan, zero), pinf, ninf)


# --------------------------------------------------------------------------
# decision diagrams: exact canonical form of Boolean combinations, so that
# counts of symbolic bits (masks) do not reach the arithmetic solver
class BDD:
    LIMIT = 60000

    def __init__(self):
        self.node = {}          # (leaf rank, low, high) -> id
        self.info = [None, None]
        self.leaf = {}          # z3 id -> rank
        self.leaves = []
        self.cache = {}
        self.of = {}            # z3 id -> node
        self.zz = {}            # node -> z3
        self.keep = []

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.node.get(k)
        if n is None:
            if len(self.info) > self.LIMIT:
                raise OverflowError("decision diagram too large")
            n = self.node[k] = len(self.info)
            self.info.append(k)
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.info[x][0] for x in k if x > 1)

        def co(x, b):
            if x > 1 and self.info[x][0] == v:
                return self.info[x][1 + b]
            return x
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)),
                    self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.cache[k] = r
        return r

    def parse(self, z):
        i = z.get_id()
        r = self.of.get(i)
        if r is not None:
            return r
        k = z.decl().kind()
        ch = z.children()
        if z3.is_true(z):
            r = 1
        elif z3.is_false(z):
            r = 0
        elif k == z3.Z3_OP_AND:
            r = 1
            for c in ch:
                r = self.ite(r, self.parse(c), 0)
        elif k == z3.Z3_OP_OR:
            r = 0
            for c in ch:
                r = self.ite(r, 1, self.parse(c))
        elif k == z3.Z3_OP_NOT:
            r = self.ite(self.parse(ch[0]), 0, 1)
        elif k == z3.Z3_OP_ITE:
            r = self.ite(*map(self.parse, ch))
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_XOR,
                   z3.Z3_OP_DISTINCT) and len(ch) == 2 and \
                z3.is_bool(ch[0]):
            a, b = map(self.parse, ch)
            nb = self.ite(b, 0, 1)
            r = self.ite(a, b, nb) if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) \
                else self.ite(a, nb, b)
        elif k == z3.Z3_OP_IMPLIES:
            r = self.ite(self.parse(ch[0]), self.parse(ch[1]), 1)
        else:
            v = self.leaf.get(i)
            if v is None:
                v = self.leaf[i] = len(self.leaves)
                self.leaves.append(z)
            r = self.mk(v, 0, 1)
        self.of[i] = r
        self.keep.append(z)
        return r

    def z(self, n):
        if n < 2:
            return z3.BoolVal(n == 1)
        r = self.zz.get(n)
        if r is None:
            v, lo, hi = self.info[n]
            x = self.leaves[v]
            if lo == 0 and hi == 1:
                r = x
            elif lo == 1 and hi == 0:
                r = z3.Not(x)
            elif lo == 0:
                r = z3.And(x, self.z(hi))
            elif hi == 1:
                r = z3.Or(x, self.z(lo))
            elif lo == 1:
                r = z3.Or(z3.Not(x), self.z(hi))
            elif hi == 0:
                r = z3.And(z3.Not(x), self.z(lo))
            else:
                r = z3.If(x, self.z(hi), self.z(lo))
            self.zz[n] = r
            self.of[r.get_id()] = n
            self.keep.append(r)
        return r


def bdd():
    c = ctx()
    b = c.memo.get("bdd")
    if b is None:
        b = c.memo["bdd"] = BDD()
    return b


def bool_canon(z):
    """Canonical equivalent of a Boolean formula, or None if too large."""
    try:
        b = bdd()
        return b.z(b.parse(z))
    except (OverflowError, RecursionError):
        return None


def count_cmp(d, op):
    """sum of coefficients times symbolic bits, compared with zero."""
    at = ctx().atoms
    c0, items = Fraction(0), []
    for m, k in d.items():
        if not m:
            c0 = k
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        b = (at[m[0][0]].data or {}).get("b2n")
        if b is None:
            return None
        items.append((b, k))
    if not items:
        return None
    try:
        B = bdd()
        fs = [(B.parse(b), k) for b, k in items]
        cmp = {"<": lambda x: x < 0, "<=": lambda x: x <= 0,
               ">": lambda x: x > 0, ">=": lambda x: x >= 0,
               "==": lambda x: x == 0, "!=": lambda x: x != 0}[op]
        memo = {}

        def rec(i, s):
            if i == len(fs):
                return 1 if cmp(s) else 0
            r = memo.get((i, s))
            if r is None:
                r = memo[(i, s)] = B.ite(fs[i][0], rec(i + 1, s + fs[i][1]),
                                         rec(i + 1, s))
            return r
        return B.z(rec(0, c0))
    except (OverflowError, RecursionError):
        return None


def mkbool_raw(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    ctx().keep.append(z)
    return SB(z)


def sn_cmp(a, b, op):
    if a.is_concrete() and b.is_concrete():
        x = a.concrete() if not a.finite() else p_constval(a.p)
        y = b.concrete() if not b.finite() else p_constval(b.p)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                "==": x == y, "!=": x != y}[op]
    if a.finite() and b.finite():
        d = p_add(a.p, p_scale(b.p, -F1))
        s = p_sign(d)
        if s is not None:
            t = {"<": {"-": True, "+": False, "0+": False, "0": False},
                 "<=": {"-": True, "0-": True, "0": True, "+": False},
                 ">": {"+": True, "-": False, "0-": False, "0": False},
                 ">=": {"+": True, "0+": True, "0": True, "-": False},
                 "==": {"0": True, "+": False, "-": False},
                 "!=": {"0": False, "+": True, "-": True}}[op].get(s)
            if t is not None:
                return t
        t = cmp_interval(d, op)
        if t is not None:
            return t
        if len(d) <= 40:
            t = count_cmp(d, op)
            if t is not None:
                return mkbool_raw(t)
        if len(d) > BIG:
            dz, zero = p_z3(a.p), p_z3(b.p)
        else:
            dz, zero = p_z3(d), z3.RealVal(0)
        z = {"<": dz < zero, "<=": dz <= zero, ">": dz > zero,
             ">=": dz >= zero, "==": dz == zero, "!=": dz != zero}[op]
        return mkbool(z)
    if op == "!=":
        r = sn_cmp(a, b, "==")
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.z))
    if op == ">":
        return sn_cmp(b, a, "<")
    if op == ">=":
        return sn_cmp(b, a, "<=")
    anynan = zor(a.nan, b.nan)
    az, bz = a.z(), b.z()
    fin = zand(znot(a.special), znot(b.special))
    t = cmp_interval(p_add(a.p, p_scale(b.p, -F1)), op)
    if op == "==":
        core = zor(_fold_and(fin, _fold(az == bz) if t is None else _fold(t)),
                   _fold_and(a.pinf, b.pinf), _fold_and(a.ninf, b.ninf))
    else:
        strict = op == "<"
        base = _fold(t) if t is not None else (
            _fold(az < bz) if strict else _fold(az <= bz))
        core = zor(
            _fold_and(fin, base),
            _fold_and(a.ninf, znot(zor(b.nan, b.ninf)) if strict
                      else znot(b.nan)),
            _fold_and(b.pinf, znot(zor(a.nan, a.pinf)) if strict
                      else znot(a.nan)),
        )
    r = _fold_and(core, znot(anynan))
    return mkbool(r)


def p_str(p):
    try:
        atoms = ctx().atoms
    except RuntimeError:
        return "?"
    out = []
    for m in list(sorted(p))[:6]:
        t = "*".join(f"{atoms[a].name}^{e}" if e != 1 else atoms[a].name
                     for a, e in m)
        out.append(f"{p[m]}*{t}" if t else str(p[m]))
    if len(p) > 6:
        out.append(f"... {len(p)} terms")
    return " + ".join(out) or "0"


# --------------------------------------------------------------------------
# non polynomial scalar functions
# --------------------------------------------------------------------------
def _sqrt_frac(v):
    n, d = v.numerator, v.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def _squarefree(n):
    """n = s^2 * r with small factors extracted."""
    s, r = 1, n
    f = 2
    while f * f <= r and f < 2000:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    return s, r


def sn_sqrt(x):
    x = num(x)
    if type(x) is SC:
        return sc_sqrt(x)
    if x.is_concrete():
        if not x.finite():
            return x if not x.ninf else num(math.nan)
        v = p_constval(x.p)
        if v < 0:
            return num(math.nan)
        if v == 0:
            return SN({}, "f")
        r = _sqrt_frac(v)
        if r is not None:
            return SN(p_const(r), "f")
        # sqrt(n/d) = sqrt(n*d)/d, squarefree part as an algebraic atom
        nd = v.numerator * v.denominator
        s, rr = _squarefree(nd)
        at = _sqrt_atom(p_const(Fraction(rr)))
        return SN({((at.id, 1),): Fraction(s, v.denominator)}, "f")
    if not x.finite():
        neg = _fold(zand(znot(x.special), x.z() < 0))
        r = sn_sqrt(SN(x.p, "f"))
        return SN(r.p, "f", zor(x.nan, x.ninf, neg), x.pinf)
    sg = p_sign(x.p)
    nan = None
    if sg not in ("+", "0+"):
        zc = x.z() < 0
        imp = ctx().implied(zc)
        if imp is True:
            return num(math.nan)
        nan = None if imp is False else zc
    # extract a rational square / monomial square content
    p = x.p
    lc = p[_lead(p)]
    outc = F1
    if lc > 0:
        r = _sqrt_frac(lc)
        if r is not None and r != 1:
            p = p_scale(p, F1 / lc)
            outc = r
    outm = ()
    if len(p) >= 1:
        atoms = ctx().atoms
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                nc = {}
                for a, e in common.items():
                    e2 = d.get(a, 0)
                    if (e > 0) == (e2 > 0) and e2 != 0:
                        nc[a] = min(e, e2) if e > 0 else max(e, e2)
                common = nc
        ev = {a: (e // 2) * 2 if e > 0 else -((-e) // 2) * 2
              for a, e in (common or {}).items()}
        ev = {a: e for a, e in ev.items()
              if e and atoms[a].sign in ("+", "0+")}
        if ev:
            p = {_mono_mul(m, tuple(sorted((a, -e) for a, e in ev.items()))):
                 c for m, c in p.items()}
            outm = tuple(sorted((a, e // 2) for a, e in ev.items()))
    if p_isconst(p):
        r = sn_sqrt(SN(p, "f"))
        return SN(p_mul({outm: outc}, r.p), "f", nan)
    at = _sqrt_atom(p)
    return SN(p_mul({outm: outc}, {((at.id, 1),): F1}), "f", nan)


_SH = 96        # bits behind the point of enclosures


def _root_below(v):
    return Fraction(math.isqrt(int(v * (1 << 2 * _SH))), 1 << _SH)


def _root_above(v):
    return Fraction(math.isqrt(int(v * (1 << 2 * _SH)) + 1) + 1, 1 << _SH)


_PI = Fraction(31415926535897932384626433832795028841971693993751058209749,
               10 ** 58)


def cos_sin_enclosure(x):
    """((lo, hi) of cos, (lo, hi) of sin) at x turns, |x| <= 1."""
    one = 1 << 160
    t = int(2 * _PI * x * one)
    out = []
    for k0, term in ((0, one), (1, t)):
        s, k = term, k0
        while term:
            term = -term * t // one * t // one // ((k + 1) * (k + 2))
            k += 2
            s += term
            if abs(term) < 4:
                break
        e = 1 << 30        # far above the accumulated truncations
        out.append((Fraction((s - e) >> 64, 1 << 96),
                    Fraction(((s + e) >> 64) + 1, 1 << 96)))
    return out


def _widen(lo, hi):
    """Outward rounding, so that bounds do not grow with the expression."""
    q = 1 << _SH
    a = Fraction((lo.numerator * q) // lo.denominator, q)
    b = Fraction(-((-hi.numerator * q) // hi.denominator), q)
    return a, b


def _sqrt_atom(p):
    c = ctx()
    k = ("sqrt", p_key(p))
    at = c.memo.get(k)
    if at is None:
        pos = p_sign(p) == "+"
        at = c.atom(f"sqrt{len(c.atoms)}", kind="sqrt", data={"poly": p},
                    sign="+" if pos else "0+")
        zp = p_z3(p)
        at.defs.append(at.z >= 0)
        if pos:
            at.defs.append(at.z * at.z == zp)
        else:
            at.defs.append(z3.Implies(zp >= 0, at.z * at.z == zp))
        if p_isconst(p):
            # rational bracket, so that linear reasoning works too
            v = p_constval(p)
            lo = Fraction(math.isqrt(int(v * 10 ** 24)), 10 ** 12)
            at.defs.append(at.z > z3.RealVal(str(lo - Fraction(1, 10**9))))
            at.defs.append(at.z < z3.RealVal(str(lo + Fraction(1, 10**9))))
        iv = p_interval(p)
        if iv is not None and iv[0] >= 0:
            at.lo, at.hi = _root_below(iv[0]), _root_above(iv[1])
        at.ev = lambda env, p=p: math.sqrt(max(p_eval(p, env), 0.0))
        c.memo[k] = at
    return at


def _ite_atom(z, a, b, isint, name="ite", sign=None):
    """atom == If(z, a, b) for SN a, b (finite parts)."""
    c = ctx()
    k = ("ite", z.get_id(), p_key(a.p), p_key(b.p))
    at = c.memo.get(k)
    if at is None:
        sa, sb = p_sign(a.p), p_sign(b.p)
        if sign is None:
            if sa == "+" and sb == "+":
                sign = "+"
            elif sa in ("+", "0+", "0") and sb in ("+", "0+", "0"):
                sign = "0+"
        at = c.atom(f"{name}{len(c.atoms)}", kind="ite", sign=sign)
        at.defs.append(at.z == z3.If(z, a.z(), b.z()))
        ia, ib = p_interval(a.p), p_interval(b.p)
        if ia is not None and ib is not None:
            at.lo, at.hi = min(ia[0], ib[0]), max(ia[1], ib[1])
            if name == "abs":
                at.lo = max(at.lo, F0)
        at.ev = (lambda env, z=z, pa=a.p, pb=b.p:
                 p_eval(pa, env) if zbool_eval(z, env) else p_eval(pb, env))
        c.memo[k] = at
        c.keep.append(z)
    return at


def sn_ite(cond, a, b):
    """Numeric if-then-else without forking."""
    if type(cond) is not SB:
        return a if cond else b
    if type(a) is SC or type(b) is SC:
        a, b = to_sc(a), to_sc(b)
        return SC(sn_ite(cond, a.re, b.re), sn_ite(cond, a.im, b.im))
    if (type(a) is SB or _is_boolish(a)) and (type(b) is SB or
                                              _is_boolish(b)):
        return mkbool(z3.If(cond.z, to_zbool(a), to_zbool(b)))
    a, b = num(a), num(b)
    if a.key() == b.key():
        return a
    z = cond.z
    imp = ctx().implied(z)
    if imp is not None:
        return a if imp else b

    def fl(x, y):
        if x is None and y is None:
            return None
        if x is True and y is True:
            return True
        return zor(_fold_and(z, x), _fold_and(z3.Not(z), y))

    nan, pi, ni = fl(a.nan, b.nan), fl(a.pinf, b.pinf), fl(a.ninf, b.ninf)
    k = _kk(a, b)
    if p_key(a.p) == p_key(b.p):
        return SN(a.p, k, nan, pi, ni)
    if a.special is True:
        return SN(b.p, k, nan, pi, ni)
    if b.special is True:
        return SN(a.p, k, nan, pi, ni)
    at = _ite_atom(z, a, b, k == "i")
    return SN({((at.id, 1),): F1}, k, nan, pi, ni)


def sn_abs(x):
    if type(x) is SC:
        return sc_abs(x)
    if type(x) is SB or _is_boolish(x):
        return x
    x = num(x)
    if x.is_concrete():
        return num(abs(x.concrete())) if not x.finite() else SN(
            p_const(abs(p_constval(x.p))), x.k)
    s = p_sign(x.p)
    pinf = zor(x.pinf, x.ninf)
    if s in ("+", "0+"):
        return SN(x.p, x.k, x.nan, pinf)
    if s in ("-", "0-"):
        return SN(p_scale(x.p, -F1), x.k, x.nan, pinf)
    p = x.p
    if len(p) == 1:
        (m, c), = p.items()
        if abs(c) != 1:
            r = sn_abs(SN({m: F1}, x.k))
            return SN(p_scale(r.p, abs(c)), x.k, x.nan, pinf)
    if p[_lead(p)] < 0:
        p = p_scale(p, -F1)
    t = cmp_interval(p, ">=")
    if t is not None:
        return SN(p if t else p_scale(p, -F1), x.k, x.nan, pinf)
    z = p_z3(p) >= 0
    # long expressions are hardly ever of one sign: not worth a query
    imp = ctx().implied(z) if len(p) <= 6 else None
    if imp is True:
        return SN(p, x.k, x.nan, pinf)
    if imp is False:
        return SN(p_scale(p, -F1), x.k, x.nan, pinf)
    at = _ite_atom(z, SN(p), SN(p_scale(p, -F1)), x.k == "i", "abs", "0+")
    return SN({((at.id, 1),): F1}, x.k, x.nan, pinf)


def sn_max(a, b):
    """Python-like max of two numbers, no fork. NaN propagates (numpy)."""
    a, b = num(a), num(b)
    if a.key() == b.key():
        return a
    c = sn_cmp(a, b, ">=")
    r = sn_ite(c, a, b) if type(c) is SB else (a if c else b)
    nan = zor(a.nan, b.nan)
    return SN(r.p, _kk(a, b), nan, r.pinf, r.ninf) if nan is not None else r


def sn_min(a, b):
    a, b = num(a), num(b)
    if a.key() == b.key():
        return a
    c = sn_cmp(a, b, "<=")
    r = sn_ite(c, a, b) if type(c) is SB else (a if c else b)
    nan = zor(a.nan, b.nan)
    return SN(r.p, _kk(a, b), nan, r.pinf, r.ninf) if nan is not None else r


def _int_atom(name, x, mk):
    c = ctx()
    k = (name, p_key(x.p))
    at = c.memo.get(k)
    if at is None:
        at = c.atom(f"{name}{len(c.atoms)}", kind="intfn", isint=True)
        at.defs.extend(mk(at, x.z()))
        f = {"floor": math.floor, "rint": round}[name]
        at.ev = lambda env, p=x.p, f=f: float(f(p_eval(p, env)))
        c.memo[k] = at
    return at


def _is_int_poly(p):
    atoms = ctx().atoms
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not (atoms[a].isint and e > 0):
                return False
    return True


def sn_floor(x):
    x = num(x)
    if x.is_concrete():
        if not x.finite():
            return x
        return SN(p_const(Fraction(math.floor(p_constval(x.p)))), x.k)
    if x.finite() and (x.k == "i" or _is_int_poly(x.p)):
        return x
    at = _int_atom("floor", x, lambda at, z: [
        z3.ToReal(at.z) <= z, z < z3.ToReal(at.z) + 1])
    return SN({((at.id, 1),): F1}, "f", x.nan, x.pinf, x.ninf)


def sn_rint(x):
    x = num(x)
    if x.is_concrete():
        if not x.finite():
            return x
        return SN(p_const(Fraction(round(p_constval(x.p)))), x.k)
    if x.finite() and (x.k == "i" or _is_int_poly(x.p)):
        return x
    half = z3.RealVal("1/2")
    at = _int_atom("rint", x, lambda at, z: [
        z3.ToReal(at.z) - half <= z, z <= z3.ToReal(at.z) + half,
        z3.Implies(z == z3.ToReal(at.z) + half, at.z % 2 == 0),
        z3.Implies(z == z3.ToReal(at.z) - half, at.z % 2 == 0)])
    return SN({((at.id, 1),): F1}, "f", x.nan, x.pinf, x.ninf)


def sn_trunc(x):
    x = num(x)
    if x.is_concrete():
        v = x.concrete()
        return num(int(v)) if x.finite() else num(int(v))
    if x.special is not None:
        raise Unsupported("int() of a possibly non-finite number")
    if x.k == "i" or _is_int_poly(x.p):
        return SN(x.p, "i")
    s = p_sign(x.p)
    f = sn_floor(x)
    if s in ("+", "0+"):
        return SN(f.p, "i")
    g = -sn_floor(-x)
    r = sn_ite(x >= 0, f, g)
    return SN(r.p, "i")


def sn_pow(a, b):
    if type(a) is SC:
        if b.is_concrete() and int(b.concrete()) == b.concrete():
            return sc_ipow(a, int(b.concrete()))
        raise Unsupported("complex power")
    if type(b) is SC:
        raise Unsupported("complex exponent")
    if b.is_concrete() and b.finite():
        e = p_constval(b.p)
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return SN(p_const(F1), _kk(a, b))
            if a.is_concrete() and a.finite():
                v = p_constval(a.p)
                if n < 0 and v == 0:
                    return num(math.inf)
                return SN(p_const(v ** n), _kk(a, b) if n > 0 else "f")
            if n > 0:
                r = a
                for _ in range(n - 1):
                    r = r * a
                return r
            d = a
            for _ in range(-n - 1):
                d = d * a
            return _div(SN(p_const(F1)), d)
        if e.denominator == 2:
            h = sn_sqrt(a)
            n = e.numerator
            return sn_pow(h, SN(p_const(Fraction(n)), "i"))
    if a.is_concrete() and b.is_concrete():
        return num(float(a.concrete()) ** float(b.concrete()))
    if a.is_concrete() and a.concrete() == 10:
        return sn_pow10(b)
    return ufun("pow", a, b, pyf=lambda x, y: x ** y)


_UF = {}


def ufun(name, *args, pyf=None, sign=None, axioms=None):
    """Uninterpreted real function, functionally consistent."""
    args = [num(a) for a in args]
    if all(a.is_concrete() for a in args) and pyf is not None:
        return num(float(pyf(*[float(a.concrete()) for a in args])))
    nan = zor(*[a.special for a in args])
    c = ctx()
    k = ("uf", name) + tuple(p_key(a.p) for a in args)
    at = c.memo.get(k)
    if at is None:
        at = c.atom(f"{name}{len(c.atoms)}", kind="uf", sign=sign,
                    data={"fn": name, "args": [a.p for a in args]})
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(args) + 1)))
        at.defs.append(at.z == f(*[a.z() for a in args]))
        if sign == "+":
            at.defs.append(at.z > 0)
        elif sign == "0+":
            at.defs.append(at.z >= 0)
        if axioms:
            at.defs.extend(axioms(at, [a.z() for a in args]))
        if pyf is not None:
            at.ev = (lambda env, ps=[a.p for a in args], pyf=pyf:
                     _safe(pyf, *[p_eval(p, env) for p in ps]))
        c.memo[k] = at
    return SN({((at.id, 1),): F1}, "f", nan)


def _safe(f, *a):
    try:
        return float(f(*a))
    except (ValueError, ZeroDivisionError, OverflowError):
        return math.nan


def sn_log10(x):
    x = num(x)
    if x.log10v is not None:
        return x.log10v
    if x.is_concrete():
        v = x.concrete()
        if v > 0:
            l = round(math.log10(v))
            if Fraction(10) ** l == p_constval(x.p):
                return num(l)
            return num(math.log10(v))
        return num(-math.inf if v == 0 else math.nan)
    # products with known logs
    if len(x.p) == 1:
        (m, c), = x.p.items()
        atoms = ctx().atoms
        logs = SN({}, "f")
        ok = c > 0
        for a, e in m:
            lg = (atoms[a].data or {}).get("log10")
            if lg is None:
                ok = False
                break
            logs = logs + lg * e
        if ok:
            return logs + sn_log10(SN(p_const(c)))
    neg = None
    if p_sign(x.p) != "+":
        zc = x.z() <= 0
        imp = ctx().implied(zc)
        if imp is True:
            return num(math.nan)
        neg = None if imp is False else zc
    r = ufun("log10", SN(x.p), pyf=math.log10)
    return SN(r.p, "f", zor(x.special, neg))


def sn_pow10(x):
    """10**x as a positive atom that remembers its log10."""
    x = num(x)
    c = ctx()
    k = ("pow10", p_key(x.p))
    at = c.memo.get(k)
    if at is None:
        at = c.atom(f"pow10_{len(c.atoms)}", kind="uf", sign="+",
                    data={"log10": SN(x.p)})
        at.defs.append(at.z > 0)
        at.ev = lambda env, p=x.p: 10.0 ** p_eval(p, env)
        c.memo[k] = at
        # strict monotonicity against the other powers of ten
        for (kk, o) in list(c.memo.items()):
            if isinstance(kk, tuple) and kk[0] == "pow10" and o is not at:
                zo = o.data["log10"].z()
                zx = x.z()
                at.defs.append((at.z < o.z) == (zx < zo))
                at.defs.append((at.z == o.z) == (zx == zo))
    return SN({((at.id, 1),): F1}, "f", x.special)


def concretise_int(x):
    """Fork over the feasible integer values of x."""
    c = ctx()
    if p_isconst(x.p):
        v = p_constval(x.p)
        if v.denominator == 1:
            return int(v)
    lim = c.opts.get("int_limit", 64)
    # candidate values by model enumeration, deterministic order via bounds
    k = ("cint", p_key(x.p), len(c.pc))
    for _ in range(lim):
        n = len(c.trace)
        if n < len(c.prefix):
            # replay: value stored in the prefix entry
            v = c.prefix[n]
            val = v[0]
            if isinstance(val, tuple):
                c.trace.append(v)
                z = p_z3(x.p) == z3.RealVal(val[1])
                c.pc.append(z if val[2] else z3.Not(z))
                c.keep.append(z)
                if val[2]:
                    return val[1]
                continue
            raise RuntimeError("trace mismatch (nondeterministic program)")
        cons_var = p_z3(x.p)
        t = z3.Real("concretise_tmp")
        res, m = c.check([t == cons_var], want_model=True, whole=True)
        if res == "unsat":
            raise Infeasible()
        if res != "sat":
            raise Unsupported("cannot enumerate a symbolic index")
        mv = m.eval(t, model_completion=True)
        if not z3.is_rational_value(mv):
            raise Unsupported("non rational index")
        fv = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
        if fv.denominator != 1:
            raise Unsupported("non integer index")
        v = int(fv)
        z = cons_var == z3.RealVal(v)
        rr, _ = c.check([z3.Not(z)])
        if rr == "sat" and len(c.pc):
            rr, _ = c.check([z3.Not(z)], whole=True)
        forced = rr == "unsat"
        if not forced:
            c.stats.branches += 1
        c.trace.append((("int", v, True), forced))
        c.pc.append(z)
        c.keep.append(z)
        return v
    raise OutOfBudget("too many values for a symbolic index")


# --------------------------------------------------------------------------
# complex
# --------------------------------------------------------------------------
class SC:
    """Symbolic complex number."""

    __slots__ = ("re", "im", "cdtype")
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, re, im, cdtype=None):
        self.re = re
        self.im = im
        self.cdtype = cdtype

    @property
    def __class__(self):
        import numpy as np
        if self.cdtype == "c8":
            return np.complex64
        if self.cdtype == "c16":
            return np.complex128
        return complex

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    shape = ()
    ndim = 0
    size = 1

    def conj(self):
        return SC(self.re, -self.im)

    conjugate = conj

    def __add__(self, o):
        o = to_sc(o)
        if o is None:
            return NotImplemented
        return SC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = to_sc(o)
        if o is None:
            return NotImplemented
        return SC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return to_sc(o) - self

    def __neg__(self):
        return SC(-self.re, -self.im)

    def __mul__(self, o):
        if isinstance(o, SN):
            return SC(self.re * o, self.im * o)
        o = to_sc(o)
        if o is None:
            return NotImplemented
        return SC(self.re * o.re - self.im * o.im,
                  self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SN):
            return SC(self.re / o, self.im / o)
        o = to_sc(o)
        if o is None:
            return NotImplemented
        if not is_sym(o.im) and o.im.finite() and o.im.concrete() == 0:
            return SC(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conj()
        return SC(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return to_sc(o) / self

    def __pow__(self, o):
        o = num(o)
        return sn_pow(self, o)

    def __abs__(self):
        return sc_abs(self)

    def __eq__(self, o):
        o = to_sc(o)
        if o is None:
            return False
        a, b = self.re == o.re, self.im == o.im
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return a & b

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __repr__(self):
        return f"SC({self.re!r}, {self.im!r})"

    def __format__(self, spec):
        return "<symbolic complex>"

    def item(self):
        return self

    def copy(self):
        return self

    def key(self):
        return (self.re.key(), self.im.key())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise TypeError("float() argument must be a string or a real number,"
                        " not 'complex'")


def to_sc(x):
    if type(x) is SC:
        return x
    n = lift(x)
    if n is None:
        return None
    if type(n) is SC:
        return n
    return SC(n, SN({}, "f"))


def sc_abs(x):
    return sn_sqrt(x.re * x.re + x.im * x.im)


def sc_ipow(a, n):
    if n < 0:
        return to_sc(1) / sc_ipow(a, -n)
    r = None
    for _ in range(n):
        r = a if r is None else r * a
    return r if r is not None else to_sc(1)


def sc_sqrt(x):
    """Principal square root."""
    re, im = x.re, x.im
    z0 = im == 0
    if z0 is True or (type(z0) is SB and ctx().implied(z0.z) is True):
        nn = re >= 0
        if type(nn) is SB:
            imp = ctx().implied(nn.z, force=True)
            nn = imp if imp is not None else nn
        if nn is True:
            return SC(sn_sqrt(re), SN({}, "f"))
        if nn is False:
            return SC(SN({}, "f"), sn_sqrt(-re))
        return SC(sn_sqrt(sn_ite(nn, re, num(0))),
                  sn_sqrt(sn_ite(nn, num(0), -re)))
    mod = sc_abs(x)
    a = sn_sqrt((mod + re) / 2)
    b = sn_sqrt((mod - re) / 2)
    neg = im < 0
    return SC(a, sn_ite(neg, -b, b) if type(neg) is SB else
              (-b if neg else b))


# --------------------------------------------------------------------------
# phases
# --------------------------------------------------------------------------
def _exact_cos_sin(fr):
    """cos, sin of 2*pi*fr for fr multiple of 1/8, 1/12; else None."""
    fr = fr - math.floor(fr)
    r2 = None
    tab = {
        Fraction(0): (1, 0), Fraction(1, 4): (0, 1),
        Fraction(1, 2): (-1, 0), Fraction(3, 4): (0, -1),
    }
    if fr in tab:
        c, s = tab[fr]
        return num(Fraction(c)), num(Fraction(s))
    if (fr * 8).denominator == 1:
        h = sn_sqrt(num(Fraction(1, 2)))
        k = int(fr * 8)
        sgn = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}[k]
        return h * sgn[0], h * sgn[1]
    if (fr * 12).denominator == 1:
        k = int(fr * 12)
        h3 = sn_sqrt(num(3)) / 2
        half = num(Fraction(1, 2))
        t = {1: (h3, half), 2: (half, h3), 4: (-half, h3), 5: (-h3, half),
             7: (-h3, -half), 8: (-half, -h3), 10: (half, -h3),
             11: (h3, -half)}
        return t[k]
    return None


def _phase_atoms(key, evf, const=None, zero=None):
    c = ctx()
    k = ("phase", key)
    r = c.memo.get(k)
    if r is None:
        ca = c.atom(f"cos{len(c.atoms)}", kind="cos")
        sa = c.atom(f"sin{len(c.atoms)}", kind="sin", data={"cos": ca.id})
        d = ca.z * ca.z + sa.z * sa.z == 1
        for a in (ca, sa):
            a.defs.append(d)
            a.defs.append(a.z <= 1)
            a.defs.append(a.z >= -1)
        if zero is not None:
            ca.defs.append(z3.Implies(zero, ca.z == 1))
            sa.defs.append(z3.Implies(zero, sa.z == 0))
        if const is not None:
            for a, b in zip((ca, sa), cos_sin_enclosure(const)):
                a.lo, a.hi = b
            ang = 2 * math.pi * float(const)
            for a, v in ((ca, math.cos(ang)), (sa, math.sin(ang))):
                a.defs.append(a.z > z3.RealVal(repr(round(v - 1e-9, 12))))
                a.defs.append(a.z < z3.RealVal(repr(round(v + 1e-9, 12))))
        ca.ev = lambda env: math.cos(2 * math.pi * evf(env))
        sa.ev = lambda env: math.sin(2 * math.pi * evf(env))
        r = (ca, sa)
        c.memo[k] = r
    ca, sa = r
    return SC(SN({((ca.id, 1),): F1}), SN({((sa.id, 1),): F1}))


def cis_turns(x):
    """exp(2*pi*i*x) for a symbolic number x (in turns)."""
    x = num(x)
    if x.special is not None:
        raise Unsupported("phase of a non-finite number")
    out = SC(num(1), SN({}, "f"))
    atoms = ctx().atoms
    for m in sorted(x.p):
        c = x.p[m]
        if m == ():
            e = _exact_cos_sin(c)
            if e is not None:
                f = SC(e[0], e[1])
            elif c.denominator > 32:
                # one phase of its own (multiples are not related)
                c1 = c - math.floor(c)
                neg = c1 > Fraction(1, 2)
                if neg:
                    c1 = 1 - c1
                f = _phase_atoms(("const", c1), lambda env, v=c1: float(v),
                                 const=c1)
                if neg:
                    f = f.conj()
            else:
                d = c.denominator
                base = _phase_atoms(("const", d), lambda env, d=d: 1.0 / d,
                                    const=Fraction(1, d))
                n = c.numerator % d
                if 2 * n > d:
                    f = sc_ipow(base, d - n).conj()
                else:
                    f = sc_ipow(base, n)
        elif all(atoms[a].isint and e > 0 for a, e in m) and \
                c.denominator == 1:
            continue
        else:
            d = c.denominator
            # base angle: monomial / d turns, d normalised to a multiple of 4
            dd = d * 4 // math.gcd(d, 4)
            n = c.numerator * (dd // d)
            base = _phase_atoms(
                (m, dd),
                lambda env, m=m, dd=dd: p_eval({m: Fraction(1, dd)}, env),
                zero=_mono_z3(m) == 0)
            f = sc_ipow(base, abs(n))
            if n < 0:
                f = f.conj()
        out = out * f
    return out


# --------------------------------------------------------------------------
# evaluation of z3 booleans with float environments (for atom closures)
# --------------------------------------------------------------------------
def zbool_eval(z, env):
    """Evaluate a z3 Bool over atoms with env(Atom)->float."""
    c = ctx()

    memo = {}

    def ev(t):
        i = t.get_id()
        if i not in memo:
            memo[i] = ev0(t)
        return memo[i]

    def ev0(t):
        k = t.decl().kind()
        ch = t.children()
        if z3.is_rational_value(t):
            return t.numerator_as_long() / t.denominator_as_long()
        if z3.is_int_value(t):
            return float(t.as_long())
        if z3.is_const(t) and k == z3.Z3_OP_UNINTERPRETED:
            a = c.zvars.get(t.get_id())
            if a is None:
                b = c.boolnames.get(t.decl().name())
                if b is None:
                    raise KeyError(t)
                return env(b)
            return env(a)
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_AND:
            return all(ev(x) for x in ch)
        if k == z3.Z3_OP_OR:
            return any(ev(x) for x in ch)
        if k == z3.Z3_OP_NOT:
            return not ev(ch[0])
        if k == z3.Z3_OP_XOR:
            return bool(ev(ch[0])) != bool(ev(ch[1]))
        if k == z3.Z3_OP_IMPLIES:
            return (not ev(ch[0])) or ev(ch[1])
        if k == z3.Z3_OP_EQ:
            return ev(ch[0]) == ev(ch[1])
        if k == z3.Z3_OP_DISTINCT:
            return ev(ch[0]) != ev(ch[1])
        if k == z3.Z3_OP_ITE:
            return ev(ch[1]) if ev(ch[0]) else ev(ch[2])
        if k == z3.Z3_OP_LE:
            return ev(ch[0]) <= ev(ch[1])
        if k == z3.Z3_OP_GE:
            return ev(ch[0]) >= ev(ch[1])
        if k == z3.Z3_OP_LT:
            return ev(ch[0]) < ev(ch[1])
        if k == z3.Z3_OP_GT:
            return ev(ch[0]) > ev(ch[1])
        if k == z3.Z3_OP_ADD:
            return sum(ev(x) for x in ch)
        if k == z3.Z3_OP_SUB:
            r = ev(ch[0])
            for x in ch[1:]:
                r -= ev(x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -ev(ch[0])
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for x in ch:
                r *= ev(x)
            return r
        if k == z3.Z3_OP_TO_REAL:
            return float(ev(ch[0]))
        if k == z3.Z3_OP_POWER:
            return ev(ch[0]) ** ev(ch[1])
        if k == z3.Z3_OP_DIV:
            return ev(ch[0]) / ev(ch[1])
        if k == z3.Z3_OP_MOD:
            return ev(ch[0]) % ev(ch[1])
        raise KeyError(str(t.decl()))
    return ev(z)
