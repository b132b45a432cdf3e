#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from the checks' META and props_na.py"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
from props_na import NOT_APPLICABLE  # noqa: E402

props, checks = [], []
for f in sorted(glob.glob(HERE + "/checks/[a-z][0-9]*.py")):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module("checks." + pid.lower()).META
    assert len(m["title"]) <= 80, (pid, len(m["title"]))
    over, text = m["quant"][0], m["quant"][1]
    props.append({"id": pid, "title": m["title"], "statement": m["statement"],
                  "quantifier": {"over": over if isinstance(over, list) else [over], "text": text},
                  "why_tests_cant": m["why"],
                  "anchors": {"files": m["anchors"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]]}})
    checks.append({"property": pid, "quick_cmd": "python3 sa/run.py %s" % pid, "thorough_cmd": "python3 sa/run.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": "static analysis: " + m["technique"],
                   "level": "other", "level_note": m.get("level_note", m["explanation"])})
na = []
for n in NOT_APPLICABLE:
    props.append({"id": n["id"], "title": n["title"], "statement": n["statement"], "quantifier": {"over": n["over"], "text": n["text"]},
                  "why_tests_cant": n["why"], "anchors": {"files": ["include/dsga.hxx"], "mechanism": [{"name": a, "where": b} for a, b in n["mech"]]}})
    na.append({"property": n["id"], "reason": n["reason"]})
with open(VERIF + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks generate small translation units over /repo/include/dsga.hxx, lower them with clang 18 and analyse the LLVM IR or the AST; nothing of /repo is executed. No hooks are needed in /repo."},
          open(VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
