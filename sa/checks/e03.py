import os
import re
import shutil
import subprocess

import fw

META = dict(
    title="One self-contained header, usable from any number of translation units",
    statement="Including dsga.hxx by itself compiles under both compilers in C++20 and later, with and without assertions, in one or many translation units that link together: every function and variable it defines outside a template or class is inline, constexpr or otherwise internal, nothing in it needs dynamic initialisation, and the bare header emits no code or data. It declares nothing in the global namespace but namespace dsga and names with a dsga or cxcm prefix, adds nothing to std but specialisations, and leaves no macro without such a prefix behind.",
    quant=("configurations", "every set of translation units, include order and supported language mode; every declaration and macro of the header"),
    why="A non-inline definition, a leaked macro or a name in the global namespace is invisible to a test built from one translation unit per program.",
    anchors=["include/dsga.hxx"],
    mech=[("definitions", "every namespace-scope function and variable definition"), ("names", "global and std declarations, macros"), ("emission", "IR of a unit that only includes the header")],
    explanation="linkage and scope rules are queried on the syntax tree, macros on the preprocessor's record, emission on the IR of a unit containing only the include; planted definitions are the controls",
    technique="syntax-tree queries (linkage, scope), preprocessor record and IR symbol table",
)

IN = 'isExpansionInFileMatching("%s")'
RULES = [
    ("global-name", 'namedDecl({in}, hasParent(translationUnitDecl()), unless(matchesName("^::(dsga|cxcm|DSGA|CXCM|std::)")))', "declared in the global namespace"),
    ("std-name", 'decl({in}, hasParent(namespaceDecl(hasName("std"))), unless(classTemplateSpecializationDecl()), unless(classTemplatePartialSpecializationDecl()), unless(functionDecl()))', "declared in namespace std"),
    ("std-lexical", 'namedDecl({in}, hasDeclContext(namespaceDecl(hasName("std"))), unless(classTemplateSpecializationDecl()))', "declared in namespace std"),
    ("function", 'functionDecl({in}, isDefinition(), unless(isInline()), unless(isConstexpr()), unless(hasParent(functionTemplateDecl())), unless(hasAncestor(cxxRecordDecl())), unless(isStaticStorageClass()), unless(hasParent(namespaceDecl(isAnonymous()))))', "function defined without inline or constexpr"),
    ("member", 'cxxMethodDecl({in}, isDefinition(), unless(isInline()), unless(isConstexpr()), unless(isImplicit()), unless(hasParent(cxxRecordDecl())), unless(hasParent(functionTemplateDecl())), unless(hasDeclContext(classTemplatePartialSpecializationDecl())), unless(hasDeclContext(cxxRecordDecl(hasParent(classTemplateDecl())))))', "member function defined out of class without inline"),
    ("variable", 'varDecl({in}, anyOf(hasParent(translationUnitDecl()), hasParent(namespaceDecl())), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(isStaticStorageClass()), unless(isInline()))', "variable defined without inline or constexpr"),
]
SELF = {"function": "void f_control() {}", "global-name": "struct control_t {};", "std-lexical": "namespace std { struct control_t; }", "std-name": "namespace std { inline int control_v = 0; }", "variable": "namespace cx { int v_control = 0; }",
        "member": "namespace cx { struct cs { void m(); }; void cs::m() {} }"}


def query(src, rules, pattern, extra=()):
    f = src + ".q"
    with open(f, "w") as h:
        for _, q, _ in rules:
            h.write("match " + q.replace("{in}", IN % pattern) + "\n")
    r = subprocess.run(["clang-query-18" if shutil.which("clang-query-18") else "clang-query", "-f", f, src, "--", "-std=c++20", "-I" + fw.REPO + "/include", "-w"] + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    out, cur = [], []
    for ln in r.stdout.split("\n"):
        m = re.match(r'(\S+):(\d+):\d+: note: "root" binds here', ln)
        if m:
            cur.append((os.path.basename(m.group(1)), m.group(2), []))
        elif re.match(r"\s*\d+ \|", ln) and cur and not cur[-1][2]:
            cur[-1][2].append(ln.split("|", 1)[1].strip())
        m = re.match(r"(\d+) match(es)?\.$", ln)
        if m:
            if int(m.group(1)) != len(cur):
                raise fw.Broken("clang-query output not understood")
            out.append(cur)
            cur = []
    if len(out) != len(rules):
        raise fw.Broken("clang-query failed: " + r.stdout[:400])
    return out


def run(c):
    src = os.path.join(c.tmp, "h.cpp")
    with open(src, "w") as f:
        f.write('#include "dsga.hxx"\n')
    ob = 0

    # accepted by both compilers
    for cc in ("/usr/bin/g++", fw.CLANG):
        for std in ("c++20", "c++23" if cc != fw.CLANG else "c++2b"):
            for d in ([], ["-DDISABLE_ASSERTS"], ["-DNDEBUG"]):
                ob += 1
                r = subprocess.run([cc, "-std=" + std, "-fsyntax-only", "-I" + fw.REPO + "/include"] + d + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                if r.returncode:
                    m = [x for x in r.stdout.split("\n") if "error" in x]
                    c.report("accepted/%s.%s" % (os.path.basename(cc), std), "including the header alone does not compile (%s): %s" % (" ".join(d), (m or [""])[0][:300]))
    # scope and linkage
    n = query(src, [("all", "functionDecl({in}, isDefinition())", ""), ("all", "varDecl({in}, hasGlobalStorage())", "")], "dsga.hxx")
    nf, nv = len(n[0]), len(n[1])
    if nf < 700 or nv < 100:
        raise fw.Broken("only %d functions and %d variables seen" % (nf, nv))
    for (name, _, what), hits in zip(RULES, query(src, RULES, "dsga.hxx")):
        ob += nf + nv
        for f, ln, txt in hits:
            c.report("%s/%s:%s" % (name, f, ln), "%s: %s" % (what, (txt or [""])[0][:200]))
    ctl = os.path.join(c.tmp, "ctl.cpp")
    with open(ctl, "w") as f:
        f.write('#include "ctl_h.hxx"\n')
    with open(os.path.join(c.tmp, "ctl_h.hxx"), "w") as f:
        f.write("#include <tuple>\n" + "\n".join(SELF.values()) + "\n")
    for (name, _, _), hits in zip(RULES, query(ctl, RULES, "ctl_h.hxx")):
        if not hits:
            c.broken.append("control for rule %s not recognised" % name)
    # macros
    r = subprocess.run([fw.CLANG, "-std=c++20", "-I" + fw.REPO + "/include", "-E", "-dD", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    cur, live, seen = "", {}, 0
    for ln in r.stdout.split("\n"):
        m = re.match(r'# (\d+) "([^"]*)"', ln)
        if m:
            cur = m.group(2)
        elif cur.endswith("dsga.hxx"):
            m = re.match(r"#define (\w+)", ln)
            if m:
                seen += 1
                live[m.group(1)] = 1
            m = re.match(r"#undef (\w+)", ln)
            if m:
                live.pop(m.group(1), None)
    if seen < 2:
        raise fw.Broken("no macro definitions seen")
    for k in live:
        ob += 1
        if not re.match(r"(DSGA|CXCM|dsga|cxcm)_?", k):
            c.report("macro/" + k, "macro %s stays defined after including the header" % k)
    # emission
    ll = os.path.join(c.tmp, "h.ll")
    r = subprocess.run([fw.CLANG, "-std=c++20", "-I" + fw.REPO + "/include", "-w", "-O0", "-S", "-emit-llvm", src, "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode:
        c.report("emission", "does not compile: " + r.stdout[:300])
    else:
        for ln in open(ll):
            m = re.match(r"define (.*)@(\S+?)\(", ln) or re.match(r"@(\S+) = (.*)", ln)
            if m:
                ob += 1
                if "__ioinit" in ln or "llvm." in ln.split("=")[0] and "global_ctors" not in ln:
                    continue
                c.report("emission", "the bare header emits: " + ln.strip()[:200])
    c.cov["functions_analysed"] = nf
    c.cov["obligations"] += ob + len(RULES)
    c.cov["discharged"] = c.cov["obligations"] - len(c.violations)
    c.cov["groups"]["header"] = {"functions": nf, "global variables": nv, "macros": sorted(live), "rules": [x[0] for x in RULES]}
