#!/usr/bin/env python3
"""rewrite the Properties section of DESIGN.md from the checks' META and the last evidence"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
out = ["## Properties"]
for f in sorted(glob.glob(V + "/sa/checks/[a-z][0-9]*.py")):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module("checks." + pid.lower()).META
    e = json.load(open(V + "/evidence/%s.json" % pid))
    out += ["### %s %s" % (pid, m["title"]), "", "*Decided by*: %s — %s." % (m["technique"], m["explanation"]),
            "*Quantified over* (%s): %s." % (m["quant"][0] if isinstance(m["quant"][0], str) else ", ".join(m["quant"][0]), m["quant"][1]),
            "*Why not tests*: " + m["why"]]
    if m.get("assumptions"):
        out.append("*Assumptions*: " + "; ".join(m["assumptions"]) + ".")
    out += ["*Size (quick)*: %d obligations, %d analysed functions, %d s." % (e["coverage"]["obligations"], e["coverage"]["functions_analysed"], e["wall_s"]), ""]
s = open(V + "/DESIGN.md").read()
i = s.index("## Properties")
j = s.find("\n## ", i + 5)
rest = s[j + 1:] if j >= 0 else ""
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n" + rest)
