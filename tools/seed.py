#!/usr/bin/env python3
"""seed.py ID   -- tools/seeds/ID.py holds: property, needs, breaks, edits=[(old,new[,nth])], demo (C++ main body or whole file)
Creates patch.diff, demo.sh, demo.cpp, meta.json in seeded/ID, and validates them in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys, tempfile

def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r "$t"' EXIT
g++ -std=c++20 -O1 -w -I"$PWD/include" "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''
HEAD = '''#include "dsga.hxx"
#include <cmath>
#include <cstdio>
#include <limits>
#include <vector>
#include <array>
#include <string>
using namespace dsga;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); bad = 1; } } while (0)
'''

def main(sid):
    here = os.path.dirname(os.path.abspath(__file__))
    d = os.path.join(os.path.dirname(here), "seeded", sid)
    os.makedirs(d, exist_ok=True)
    ns = {}
    exec(open(os.path.join(here, "seeds", sid + ".py")).read(), ns)
    p = "/repo/include/dsga.hxx"
    s = open(p).read()
    for e in ns["edits"]:
        old, new = e[0], e[1]
        k = e[2] if len(e) > 2 else 0
        n = s.count(old)
        if n == 0 or (n > 1 and len(e) < 3):
            sys.exit("%s: edit matches %d times: %r" % (d, n, old[:80]))
        i = -1
        for _ in range(k + 1):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
    demo = ns["demo"]
    if "int main" not in demo:
        demo = HEAD + ns.get("pre", "") + "int main()\n{\n" + demo + "\n\treturn bad;\n}\n"
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        pass
        sh("cp -a /repo/. %s/" % w)
        open(w + "/include/dsga.hxx", "w").write(s)
        diff = sh("git diff -- include/dsga.hxx", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r0 = sh("bash %s/demo.sh" % d, "/repo")
        r1 = sh("bash %s/demo.sh" % d, w)
        ok = r0.returncode == 0 and r1.returncode != 0 and (r1.returncode != 2 or "--compile" in sys.argv)
        print(os.path.basename(d), "demo clean", r0.returncode, "patched", r1.returncode, r1.stdout.strip()[:300])
        if r0.returncode:
            print(r0.stdout[:600])
        if ok and "--fast" not in sys.argv:
            # tests against the patched tree, in place in /repo (build scripts name /repo)
            a = sh("git apply %s/patch.diff" % d, "/repo")
            try:
                b = sh("bash /opt/vp/build.sh", "/repo")
                t = sh("bash /opt/vp/test.sh /tmp/seed.json", "/repo")
                j = json.load(open("/tmp/seed.json")) if os.path.exists("/tmp/seed.json") else {}
                base = json.load(open("/opt/vp/BASELINE.json"))
                print("  build", b.returncode, "tests", t.returncode, summarize(j, base))
            finally:
                sh("git checkout -- .", "/repo")
    finally:
        shutil.rmtree(w)

def summarize(j, base):
    def flat(x):
        if isinstance(x, dict):
            for k in ("stable", "passed", "pass", "tests"):
                if k in x:
                    return flat(x[k])
        return x
    try:
        want = set(flat(base)) if not isinstance(flat(base), dict) else set(flat(base))
        got = set(j.get("passed", []))
        return "missing: %s" % sorted(want - got)[:5]
    except Exception as e:
        return "?%s" % e

for a in sys.argv[1:]:
    if not a.startswith("-"):
        main(a)
