#!/opt/venv/bin/python
"""Writes DESIGN.md (run by hand)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
T = os.path.join(HERE, "tools")
ns = {}
exec(open(os.path.join(T, "oracles.py")).read(), ns)
P = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
M = json.load(open(os.path.join(HERE, "MANIFEST.json")))
NA = {d["property"]: d["reason"] for d in M["not_applicable"]}
out = [open(os.path.join(T, "design_head.md")).read()]
for p in P:
    i = p["id"]
    if i in NA:
        continue
    m = importlib.import_module("checks." + i)
    how, sec = ns["O"][i]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n"
               f"* **Decided by** {how}\n"
               f"* **Bounds** (quick; the thorough tier widens them): "
               f"{getattr(m, 'BOUNDS', 'see the check')}.\n"
               f"* **Outside** {getattr(m, 'OUTSIDE', 'longer lists')}.\n"
               f"* **Cost** about {sec} s.\n"
               f"* **Why tests cannot** {p['why_tests_cant']}.\n")
tail = open(os.path.join(T, "design_tail.md")).read()
out.append("""## 3. Common oracle conventions

Fourier transforms are compared up to the library's own constant
normalisation where the property says so; two-run properties compare the
products of both runs as terms, so that an unknown third-party answer cancels
only when both runs asked with provably equal arguments.
""")
rows = ["| bug | property | needs | breaks | caught by |",
        "|---|---|---|---|---|"]
first = {"S02", "S06", "S08", "S12", "S13", "S14", "S16", "S17", "S23",
         "S31"} | set(ns.get("MISSED", ()))
sd = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(sd)):
    d = json.load(open(os.path.join(sd, s, "meta.json")))
    rows.append(f"| {s} | {d['property']} | {d['needs']} | "
                f"{d['what_it_breaks']} | "
                f"{ns.get('NOT_CAUGHT', {}).get(s, d['property'])}"
                f"{' (missed first)' if s in first else ''} |")
tail = tail.replace("@SEEDS@", "\n".join(rows))
fx = []
for line in open(os.path.join(HERE, "known_findings.txt")):
    if line.startswith("fixed:"):
        a = line[6:].split(None, 2)
        fx.append(f"* {a[0].split('=')[1]} `{a[1]}` {a[2].strip()}")
tail = tail.replace("@FIXES@", "\n".join(fx))
tail = tail.replace("@NA@", "\n".join(
    f"* **{p['id']} {p['title']}** {NA[p['id']]}" for p in P
    if p["id"] in NA))
out.append(tail)
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
