#!/opt/venv/bin/python
"""Entry point: run.py <property> [--tier quick|thorough] [--only JOB]
               run.py replay <file>"""

import json
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.modules.setdefault("run", sys.modules[__name__])

import warnings  # noqa
warnings.filterwarnings("ignore")

WALL = {"quick": 150, "thorough": 800}


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> scenario=<name> label=<label> :: txt
                head, _, txt = line[len("finding:"):].partition("::")
                d = {}
                rest = head.strip()
                for k in ("property", "scenario", "label"):
                    i = rest.find(k + "=")
                    d[k] = rest[i + len(k) + 1:].split(" | ")[0].strip() \
                        if i >= 0 else None
                d["text"] = txt.strip()
                out.append(d)
    return out


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    procs = int(os.environ.get("SYMX_PROCS", "8"))
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        elif argv[i] == "-1":
            procs = 1
        i += 1
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="pi_check_")
    os.environ["TMPDIR"] = tmp
    os.environ["MPLCONFIGDIR"] = tmp
    tempfile.tempdir = tmp
    try:
        return check(pid, tier, seed, only, procs)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, seed, only, procs):
    from symx import drive
    import importlib
    modname = f"checks.{pid}"
    mod = importlib.import_module(modname)
    t0 = time.time()
    wall = float(os.environ.get("SYMX_WALL", WALL[tier]))
    jobs, res = drive.run_all(modname, tier, seed, wall, procs, only)
    known = known_findings()
    tot = dict(paths=0, decisions=0, discharged=0, trivially=0, sat=0,
               unknown=0, witnesses=0, concretised=0, queries=0,
               solver_s=0.0, branches=0, infeasible=0, witness_skip=0)
    fns, samples, scen, viols, unconf, errs, mism = \
        set(), [], [], [], [], [], []
    reached = set()
    for i in sorted(res):
        r, j = res[i], jobs[i]
        if "error" in r:
            errs.append(f"{j.name}: {r['error'][-400:]}")
            scen.append(dict(scenario=j.name, cfg=repr(j.cfg)[:200],
                             error=r["error"][-300:]))
            continue
        for k in tot:
            tot[k] += r[k]
        fns |= r["functions"]
        reached |= r["reached"]
        samples += [dict(scenario=j.name, **s) for s in r["samples"][:1]]
        unconf += [f"{j.name}: {u}" for u in r["unconfirmed"]]
        errs += [f"{j.name}: {e[-300:]}" for e in r["errors"][:1]]
        mism += [f"{j.name}: {m}" for m in r["mismatches"][:2]]
        viols += r["violations"]
        scen.append(dict(
            scenario=j.name, cfg=repr(j.cfg)[:200], paths=r["paths"],
            complete=r["complete"], discharged=r["discharged"],
            concretised=r["concretised"], unknown=r["unknown"],
            unsupported=r["unsupported"], wall_s=round(r["wall"], 1)))
    want = getattr(mod, "MUST_REACH", ())
    vac = [x for x in want if x not in reached]
    new, kf = [], []
    for v in viols:
        m = [k for k in known if k["property"] == pid and
             k["scenario"] == v["scenario"] and k["label"] == v["label"]]
        (kf if m else new).append((v, m))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(os.path.join(HERE, "evidence")):
        if f.startswith(f"replay_{pid}_"):
            os.unlink(os.path.join(HERE, "evidence", f))
    for v, m in kf:
        print(f"KNOWN-FINDING: property={pid} {m[0]['text']}")
    for n, (v, _) in enumerate(new):
        p = os.path.join(HERE, "evidence", f"replay_{pid}_{n}.json")
        with open(p, "w") as f:
            json.dump(dict(property=pid, **v), f, indent=1, default=str)
        if n < 5:
            print(f"VIOLATION property={pid} replay={p}")
            print(f"  scenario={v['scenario']} check={v['label']!r}: "
                  f"{v['failures'][:1]}")
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        wall_s=round(time.time() - t0, 2), violations=len(new),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        coverage=dict(
            states=tot["paths"], transitions=tot["decisions"],
            traces_validated_against_impl=tot["witnesses"],
            samples=samples[:4] or [{"note": "no witness obtained"}],
            bounds=getattr(mod, "BOUNDS", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            scenarios=len(scen), scenarios_exhausted=sum(
                1 for s in scen if s.get("complete")),
            functions_encoded=sorted(fns), queries=tot["queries"],
            properties_discharged=tot["discharged"],
            discharged_by_normal_form=tot["trivially"],
            undecided=tot["unknown"],
            solver_s=round(tot["solver_s"], 2),
            branch_splits=tot["branches"],
            paths_concretised=tot["concretised"],
            not_reached=vac, unconfirmed=unconf[:10],
            replay_mismatches=mism[:10], errors=errs[:10],
            per_scenario=scen))
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: {len(scen)} scenarios, {tot['paths']} paths, "
          f"{tot['discharged']} checks discharged "
          f"({tot['trivially']} by normal form), {tot['queries']} queries, "
          f"{tot['solver_s']:.1f}s solver, {tot['witnesses']} replays, "
          f"{tot['concretised']} concretised, {tot['unknown']} undecided, "
          f"{time.time() - t0:.1f}s")
    for x in unconf[:5]:
        print("  unconfirmed:", x)
    for x in mism[:5]:
        print("  mismatch:", x)
    for x in errs[:5]:
        print("  error:", x)
    for x in vac:
        print("  not reached:", x)
    if new:
        return 1
    if tot["paths"] + tot["witnesses"] == 0:
        print("nothing could be explored")
        return 2
    return 0


COMMON = [
    "arithmetic over the reals: float rounding, overflow and float32 "
    "quantisation are outside",
    "third-party libraries behave as documented: exact models (numpy, "
    "scipy.ndimage, FFTs, extract_array, lsqr, cKDTree) are validated by "
    "replaying path witnesses with the real libraries; sep, astroscrappy, "
    "astroalign, optimisers, fitters and sigma clipping are arbitrary but "
    "deterministic functions of their arguments",
]


def replay(path):
    from symx import drive
    import importlib
    from fractions import Fraction
    d = json.load(open(path))
    mod = importlib.import_module(f"checks.{d['property']}")
    for tier in ("quick", "thorough"):
        for j in mod.jobs(tier):
            if j.name == d["scenario"] and _same(j.cfg, d["cfg"]):
                vals = {k: (v if isinstance(v, bool) else Fraction(v))
                        for k, v in d["values"].items()}
                st, w = drive.replay(j.fn, j.cfg, d["seed"], vals,
                                     d["tape"])
                print("status", st)
                for f in w.failures:
                    print("FAILED", f)
                return 1 if w.failures else 0
    print("scenario not found")
    return 2


def _same(a, b):
    return json.loads(json.dumps(a, default=str)) == b


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
