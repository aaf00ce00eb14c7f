#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS, SI, U, SIM, PLOT = ("properimage/operations.py",
                         "properimage/single_image.py",
                         "properimage/utils.py", "properimage/simtools.py",
                         "properimage/plot.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, claimed=True,
         note=None, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  claimed=claimed, note=note, reason=reason))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b}
                                      for a, b in p["mech"]]},
        }) + "\n")

NOTE = ("symbolic execution of the current source with every listed input "
        "symbolic; each assertion decided by exact normal form or z3 over "
        "all values within the bounds; counterexamples replayed on the real "
        "code. Arithmetic is over the reals. ")
checks, na = [], []
for p in P:
    if p["claimed"]:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} "
                         "--tier quick",
            "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} "
                            "--tier thorough",
            "technique": "solver-based checking: symbolic execution of the "
                         "real Python source (symx) with z3 deciding each "
                         "assertion and branch over all values in bounds",
            "level": "model_checking",
            "level_note": NOTE + (p["note"] or ""),
        })
    else:
        na.append({"property": p["id"], "reason": p["reason"]})
json.dump({"version": 1,
           "setup_cmd": "/opt/venv/bin/python -c \"import symx.core, z3, "
                        "numpy, scipy, astropy\"",
           "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
