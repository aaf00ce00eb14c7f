"""Path exploration, queries, counterexample replay."""

import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback
from fractions import Fraction

from . import core
from . import world as W
from .core import Infeasible, OutOfBudget, Stats, Unsupported, z3


class Job:
    """One scenario with one configuration."""

    def __init__(self, name, fn, cfg=None, budget=60, max_paths=400,
                 witness=6, tiers=("quick", "thorough"), query_ms=8000,
                 note=None, opts=None):
        self.name = name
        self.fn = fn
        self.cfg = cfg or {}
        self.budget = budget
        self.max_paths = max_paths
        self.witness = witness
        self.tiers = tiers
        self.query_ms = query_ms
        self.note = note
        self.opts = opts or {}


# --------------------------------------------------------------- models
def _val(m, at):
    v = m.eval(at.z, model_completion=False)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(24)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def pin_value(seed, at):
    r = random.Random(W.h32("pin", seed, at.name))
    lo = -6 if at.lo is None else at.lo
    hi = (lo + 12 if lo > -6 else 6) if at.hi is None else at.hi
    if at.lo is None and at.hi is not None:
        lo = hi - 12
    lo, hi = Fraction(lo), Fraction(hi)
    if at.isint:
        return Fraction(r.randint(int(lo), int(hi)))
    if hi - lo > 16:
        # stay in a moderate range around the smallest magnitudes
        if lo < 0 < hi:
            lo, hi = max(lo, -8), min(hi, 8)
        else:
            hi = lo + 16
    n = r.randint(1, 255)
    return lo + (hi - lo) * Fraction(n, 256)


def find_model(ctx, extra, seed, budget_ms=20000, kind="model", whole=True):
    """A model of pc, the definitions and `extra`, with as many inputs as
    possible at plain values.  Returns (values | None, verdict)."""
    cons, done = ctx.slice(extra, whole=whole)
    s = z3.Solver()
    s.set("random_seed", seed & 0x7FFFFFFF)
    s.add(*cons)
    s.add(*extra)
    pins = {}
    for at in ctx.inputs:
        if at.z.get_id() in done:
            p = z3.Bool(f"pin!{at.id}")
            v = pin_value(seed, at)
            t = z3.IntVal(int(v)) if at.isint else z3.RealVal(str(v))
            s.add(z3.Implies(p, at.z == t))
            pins[p.get_id()] = (p, at)
    rnd = random.Random(seed)
    t0 = time.perf_counter()
    m = None
    verdict = "unknown"
    active = list(pins.values())
    while True:
        left = budget_ms - 1000 * (time.perf_counter() - t0)
        if left <= 0 and m is None:
            break
        s.set("timeout", int(max(500, min(4000 if active else left, left))))
        q0 = time.perf_counter()
        r = s.check(*[p for p, _ in active])
        ctx.stats.solver_s += time.perf_counter() - q0
        ctx.stats.queries += 1
        ctx.stats.bykind[kind] = ctx.stats.bykind.get(kind, 0) + 1
        if r == z3.sat:
            m = s.model()
            verdict = "sat"
            break
        if r == z3.unsat:
            if not active:
                verdict = "unsat"
                break
            core_ids = {c.get_id() for c in s.unsat_core()}
            if not core_ids:
                verdict = "unsat"
                break
            drop = [a for a in active if a[0].get_id() in core_ids]
            if len(drop) > 4:
                rnd.shuffle(drop)
                drop = drop[: max(1, len(drop) // 2)]
            ids = {a[0].get_id() for a in drop}
            active = [a for a in active if a[0].get_id() not in ids]
        else:
            if not active:
                break
            rnd.shuffle(active)
            active = active[: len(active) // 2]
    if m is None:
        return None, verdict
    vals = {}
    pinned = {a.id for _, a in active}
    for at in ctx.inputs:
        v = pin_value(seed, at) if at.id in pinned else _val(m, at)
        if v is None:
            v = pin_value(seed, at)
        vals[at.name] = v
    for n in ctx.bool_inputs:
        v = m.eval(ctx.boolnames[n], model_completion=False)
        vals[n] = bool(z3.is_true(v)) if (z3.is_true(v) or z3.is_false(v)) \
            else bool(W.h32(seed, n) & 1)
    return vals, "sat"


# --------------------------------------------------------------- replay
def replay(fn, cfg, seed, values, tape):
    """Run the scenario on concrete values with the real libraries."""
    old = core.set_ctx(None)
    import warnings
    w = W.ConWorld(cfg, seed, dict(values), tape)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                fn(w)
                status = "ok"
            except W.Skip:
                status = "skip"
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                own = [f for f in tb if f.filename.startswith(W.SRC)]
                where = f" at {os.path.basename(own[-1].filename)}:" \
                    f"{own[-1].name}" if own else ""
                status = "exception"
                w.failures.append(W.Failure(
                    "no unexpected exception",
                    f"{type(e).__name__}: {e}{where}"))
                if not own and isinstance(e, (KeyError, IndexError,
                                              ValueError)):
                    # the check could not read what the code produced
                    w.failures[-1].label = "the result can be examined"
                elif not own:
                    w.harness_error = "".join(traceback.format_exc())
                    w.failures.pop()
                    status = "harness"
        if w.diverged:
            w.failures = []
            status = "diverged"
    finally:
        w.close()
        core.set_ctx(old)
    return status, w


class Result:
    pass


def run_job(job, seed, tier, deadline):
    """Explore one scenario; returns a plain dict."""
    st = Stats()
    t_start = time.perf_counter()
    end = min(deadline, t_start + job.budget)
    out = dict(name=job.name, cfg=repr(job.cfg), paths=0, decisions=0,
               forced=0, discharged=0, trivially=0, sat=0, unknown=0,
               unconfirmed=[], violations=[], witnesses=0, witness_skip=0,
               concretised=0, unsupported={}, infeasible=0, complete=False,
               functions=set(), samples=[], labels={}, mismatches=[],
               errors=[], reached=set())
    prefix = []
    viol_keys = set()
    first = True
    npaths = 0
    skipped = 0

    def handle(w, label, viol, margin, parts=None, mparts=None):
        ctx = core.ctx()
        out["labels"][label] = out["labels"].get(label, 0) + 1
        z = z3.simplify(viol)
        if z3.is_false(z):
            out["trivially"] += 1
            out["discharged"] += 1
            return
        if not parts:
            c = core.bool_canon(z)
            if c is not None:
                z = c
                if z3.is_false(z):
                    out["trivially"] += 1
                    out["discharged"] += 1
                    return
        items = []
        if parts:
            for i, p in enumerate(parts):
                items.append((p, mparts[i] if mparts else None))
        else:
            items.append((z, margin))
        verdicts = []
        # a model of the path alone may already show the difference
        cand = None if label in viol_keys else path_model(ctx)
        if cand is not None:
            base = {k: v if isinstance(v, bool) else float(v)
                    for k, v in cand.items()}
            cache = {}
            hit = False

            def env(a):
                return core.atom_value(a, base, cache)
            for p, mg in items:
                try:
                    hit = core.zbool_eval(
                        mg if mg is not None else p, env)
                except (KeyError, ValueError, OverflowError,
                        ZeroDivisionError, TypeError, RecursionError,
                        AttributeError,
                        Unsupported):
                    hit = False
                if hit:
                    break
            if hit:
                out["candidates"] = out.get("candidates", 0) + 1
                stt, cw = replay(job.fn, job.cfg, seed, cand, w.tape)
                fl = [f for f in cw.failures if f.label == label]
                if fl:
                    out["sat"] += 1
                    viol_keys.add(label)
                    record(cand, w.tape, fl, label)
                    return
        if len(items) > 1:
            # one query for all of them first
            r, _ = ctx.check([z], timeout=job.query_ms // 2, kind="property")
            if r == "unsat":
                out["discharged"] += 1
                return
        for p, mg in items:
            left = 1000 * (end - time.perf_counter())
            if left < 500:
                raise OutOfBudget("time")
            r, _ = ctx.check([p], timeout=min(job.query_ms, left),
                             kind="property")
            if r == "unsat":
                continue
            key = label
            if key in viol_keys:
                verdicts.append("dup")
                break
            if r == "sat":
                out["sat"] += 1
            conf = None
            gone = False
            tries = [(mg, 0), (p, 1), (mg, 2), (p, 3)] if mg is not None \
                else [(p, 0), (p, 1), (p, 2)]
            if r != "sat":
                tries = tries[:1]
            for q, k in tries:
                left = 1000 * (end - time.perf_counter()) + 15000
                vals, v = find_model(ctx, [q], seed + k,
                                     min(12000, max(3000, left)))
                if vals is None:
                    if v == "unsat" and q is p:
                        # unsatisfiable with the whole path condition
                        gone = True
                        break
                    continue
                stt, cw = replay(job.fn, job.cfg, seed, vals, w.tape)
                fl = [f for f in cw.failures if f.label == label] or \
                    cw.failures
                if fl:
                    conf = (vals, fl)
                    break
            if conf:
                verdicts.append("violation")
                viol_keys.add(label)
                record(conf[0], w.tape, conf[1], label)
                break
            if gone:
                continue
            verdicts.append("unconfirmed" if r == "sat" else "unknown")
            if r == "sat":
                out["unconfirmed"].append(f"{label}")
            else:
                out["unknown"] += 1
            if len(verdicts) >= 2:
                break
        if not verdicts:
            out["discharged"] += 1

    pm = {}

    def path_model(ctx):
        k = (id(ctx), len(ctx.pc), len(ctx.inputs), len(ctx.bool_inputs))
        if k not in pm:
            pm.clear()
            pm[k] = find_model(ctx, [], seed, 5000, kind="witness")[0]
        return pm[k]

    def record(vals, tape, fl, label):
        out["violations"].append(dict(
            scenario=job.name, cfg=job.cfg, seed=seed, label=label,
            failures=[repr(f) for f in fl][:6],
            values={k: (v if isinstance(v, bool) else str(v))
                    for k, v in vals.items()},
            tape=tape))

    while True:
        ctx = core.Ctx(prefix, st, {"deadline": end, "seed": seed,
                                    **job.opts})
        core.set_ctx(ctx)
        w = W.SymWorld(job.cfg, seed)
        w.on_check = handle
        if first:
            sys.setprofile(_profiler(out["functions"]))
        status = "ok"
        exc = None
        try:
            job.fn(w)
        except W.Skip:
            status = "skip"
        except Infeasible:
            status = "infeasible"
        except Unsupported as e:
            status = "unsupported"
            exc = str(e)[:120]
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        except OutOfBudget as e:
            status = "budget"
            exc = str(e)
        except RecursionError as e:
            status = "unsupported"
            exc = "recursion"
        except Exception as e:
            status = "exception"
            exc = f"{type(e).__name__}: {e}"[:200]
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        except z3.Z3Exception as e:
            status = "unsupported"
            exc = f"z3: {e}"[:120]
        finally:
            sys.setprofile(None)
            w.close()
        first = False
        npaths += 1
        for k in w.reached:
            out["reached"].add(k)
        if status == "infeasible":
            out["infeasible"] += 1
        elif status == "budget" and exc == "time":
            break
        else:
            out["paths"] += 1
            out["decisions"] += len(ctx.trace)
        want = status in ("unsupported", "exception", "budget") or \
            (status in ("ok",) and (
                out["witnesses"] < job.witness or
                (npaths % 16 == 0 and out["witnesses"] < 4 * job.witness)))
        if want and time.perf_counter() < end + 10:
            vals, v = find_model(ctx, [], seed, 6000, kind="witness")
            if vals is None and status in ("unsupported", "exception"):
                vals = {}
            if vals is not None:
                stt, cw = replay(job.fn, job.cfg, seed, vals, w.tape)
                if stt == "harness" and not getattr(
                        cw, "failures", None):
                    out["errors"].append(cw.harness_error[-600:])
                if stt == "skip":
                    out["witness_skip"] += 1
                else:
                    out["witnesses"] += 1
                if status == "unsupported":
                    out["concretised"] += 1
                if len(out["samples"]) < 2:
                    out["samples"].append(dict(
                        path=[_show(t) for t in ctx.trace][:24],
                        inputs={k: str(x) for k, x in
                                list(vals.items())[:12]},
                        replay=stt, checks=cw.checks))
                if cw.failures:
                    # a concrete failure: seen again with other values?
                    labels = {f.label for f in cw.failures}
                    again = None
                    for k in (11, 12, 13):
                        v2, _ = find_model(ctx, [], seed + k, 6000,
                                           kind="witness")
                        if v2 is None:
                            continue
                        s2, c2 = replay(job.fn, job.cfg, seed, v2, w.tape)
                        hit = {f.label for f in c2.failures} & labels
                        if hit:
                            again = (v2, c2, hit)
                            break
                    if again and not (again[2] <= viol_keys):
                        lab = sorted(again[2] - viol_keys)[0]
                        viol_keys.add(lab)
                        record(again[0], w.tape,
                               [f for f in again[1].failures
                                if f.label == lab], lab)
                    elif not again:
                        out["mismatches"].append(
                            [repr(f) for f in cw.failures][:3])
                elif status == "exception":
                    out["mismatches"].append(
                        [f"symbolic run raised {exc}; replay did not"])
        if status in ("unsupported", "exception"):
            out["unsupported"][exc] = out["unsupported"].get(exc, 0) + 1
        # next path
        tr = list(ctx.trace)
        while tr and tr[-1][1]:
            tr.pop()
        if not tr:
            out["complete"] = True
            break
        v, _ = tr.pop()
        nv = (not v) if isinstance(v, bool) else (v[0], v[1], not v[2])
        prefix = tr + [(nv, True)]
        if npaths >= job.max_paths or time.perf_counter() > end:
            break
        if len(out["violations"]) >= 3:
            break
    core.set_ctx(None)
    out.update(queries=st.queries, solver_s=st.solver_s,
               unknown_queries=st.unknown, branches=st.branches,
               bykind=st.bykind, wall=time.perf_counter() - t_start,
               rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)
    return out


def _show(t):
    v, forced = t
    s = ("T" if v else "F") if isinstance(v, bool) else \
        f"{'' if v[2] else '!'}={v[1]}"
    return s + ("*" if forced else "")


def _profiler(seen):
    root = os.path.join(W.SRC, "properimage")

    def prof(frame, ev, arg):
        if ev == "call":
            c = frame.f_code
            if c.co_filename.startswith(root) and c.co_name != "<module>":
                seen.add(f"{os.path.basename(c.co_filename)}:"
                         f"{getattr(c, 'co_qualname', c.co_name)}")
    return prof


# --------------------------------------------------------------- parallel
def _worker(args):
    modname, idx, seed, tier, deadline = args
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(6000)
    try:
        mod = importlib.import_module(modname)
        job = mod.jobs(tier)[idx]
        return idx, run_job(job, seed, tier, deadline)
    except BaseException:
        return idx, dict(error=traceback.format_exc()[-1500:])


def run_all(modname, tier, seed, wall, procs=8, only=None):
    mod = importlib.import_module(modname)
    jobs = mod.jobs(tier)
    deadline = time.perf_counter() + wall
    idx = [i for i, j in enumerate(jobs) if only is None or only in j.name]
    args = [(modname, i, seed, tier, deadline) for i in idx]
    res = {}
    if procs == 1:
        for a in args:
            i, r = _worker(a)
            res[i] = r
        return jobs, res
    from . import libs
    libs.preload()
    c = mp.get_context("fork")
    with c.Pool(min(procs, max(1, len(args))), maxtasksperchild=1) as pool:
        its = [(a[1], pool.apply_async(_worker, (a,))) for a in args]
        for i, h in its:
            left = deadline + 45 - time.perf_counter()
            try:
                k, r = h.get(max(1, left))
                res[k] = r
            except mp.TimeoutError:
                res[i] = dict(error="timeout", timeout=True)
        pool.terminate()
    return jobs, res
