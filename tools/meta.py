#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "src/mssm/src/python/"
CPP = "src/mssm/src/cpp/"
P, NA = [], []
TECH = ("bounded symbolic execution of the real Python and C++ code over symbolic reals, obligations discharged by "
        "z3 (non-linear real arithmetic); counterexamples replayed on the real build")
NOTE = ("every value of the symbolic inputs at the listed sizes, real arithmetic instead of floating point, "
        "library kernels replaced by their definitions (listed in the evidence)")
TESTS = "the stable tests only sample a few fixed HSMM data sets (tests/test_hsmm.py)"


def prop(id, title, statement, over, text, why, files, mech, note=NOTE, na=None, **anch):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": dict({"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, **anch)})
    assert len(title) <= 80, title
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % id,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % id,
                       "technique": TECH, "level": "model_checking", "level_note": note})


CHECKS = []
exec(open(os.path.join(HERE, "tools", "props.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": CHECKS, "not_applicable": NA}, f, indent=1)
