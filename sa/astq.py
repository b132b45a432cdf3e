"""queries over clang's JSON syntax tree of the header (template patterns included, so every body is seen)"""
import json
import os
import subprocess
import sys

from fw import CLANG, BASEFLAGS  # noqa: F401

sys.setrecursionlimit(20000)
FN = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


def load(path, flags=(), filt="dsga"):
    out = subprocess.run([CLANG] + [f for f in BASEFLAGS if f not in ("-S", "-emit-llvm")] + list(flags) +
                         ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, path],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if out.returncode:
        return None, out.stderr
    s, d, i, docs = out.stdout, json.JSONDecoder(), 0, []
    n = len(s)
    while True:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs, out.stderr


class Tree:
    """depth-first walk giving (node, path of ancestors, file, line); clang prints file/line only when they change"""

    def __init__(self, docs):
        self.file = ""
        self.line = 0
        self.nodes = []
        for d in docs:
            self._walk(d, ())

    def _loc(self, l):
        if not isinstance(l, dict):
            return
        for k in ("spellingLoc", "expansionLoc"):
            if k in l:
                self._loc(l[k])
        if "file" in l:
            self.file = l["file"]
        if "line" in l:
            self.line = l["line"]

    def _walk(self, o, path):
        if not isinstance(o, dict) or "kind" not in o:
            return
        self._loc(o.get("loc"))
        f, ln = self.file, self.line
        r = o.get("range", {})
        self._loc(r.get("begin"))
        if not o.get("loc"):
            f, ln = self.file, self.line
        self._loc(r.get("end"))
        self.nodes.append((o, path, f, ln))
        p = path + (o,)
        for x in o.get("inner", ()):
            self._walk(x, p)


def scope(path):
    return "::".join(p["name"] for p in path if p.get("name") and not p["kind"].startswith("Template"))


def in_function(path):
    return any(p["kind"] in FN or p["kind"] == "LambdaExpr" for p in path)
