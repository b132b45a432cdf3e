import importlib
import re

from fw import Broken, Case, NOASSERT, REPO
from gen import *

META = dict(
    title="Disabling assertions changes nothing but the assertions",
    statement="A program that violates no precondition gets the same values, stores and designated components when built with DISABLE_ASSERTS (or DSGA_DISABLE_ASSERTS and CXCM_DISABLE_ASSERTS) as without: no operation relies on an assertion for its effect, and none of them still terminates, throws or branches on a precondition once assertions are off.",
    quant=("configurations and inputs", "every operand value and form, for operators, constructors, assignment, functions and matrices, in the configuration without assertions"),
    why="The tests build one configuration only; code that moves an effect into an assertion, or is written between the two branches of the macro, is right in that one and wrong in the other.",
    anchors=["include/dsga.hxx"],
    mech=[("assertion macros", "dsga_assertm, dsga_constexpr_assert, cxcm_assertm, cxcm_constexpr_assert and every use of them"), ("operations", "a cross-section of the operations specified by the A, B, C and E properties")],
    explanation="the obligations of the value properties are decided again on IR compiled with the assertions disabled, with the preconditions dropped from the specification (a use outside the precondition then simply computes on what it is given)",
    technique="value numbering over clang LLVM IR of the assertion-free configuration; effect rule on asserted expressions",
)

FROM = ["b01", "b02", "b03", "b05", "b06", "b07", "b08", "b09", "b10", "b11", "b12", "b13", "c01", "c02", "c03", "e04"]
PRE = "\n#undef NEED\n#define NEED(c) ((void)0)\n"


def clamps():
    for T in NUM:
        for n in (1, 2, 3, 4):
            a, lo, hi = operand("vec", T, n, "a"), operand("vec", T, n, "b"), operand("vec", T, n, "d")
            g = "if (!(%s)) return; " % " && ".join("%s <= %s" % (lo.lane(i), hi.lane(i)) for i in range(n))
            impl = "auto r = functions::clamp(a, b, d); " + "".join("o[%d] = r[%d];" % (i, i) for i in range(n)) if n > 1 else "o[0] = functions::clamp(a, b, d);"
            spec = "".join("{T} t{i} = {x} < {l} ? {l} : {h} < {x} ? {h} : {x}; ".format(T=T, i=i, x=a.lane(i), l=lo.lane(i), h=hi.lane(i)) for i in range(n)) + "".join("o[%d] = t%d; " % (i, i) for i in range(n))
            yield Case("clamp.%s.%d" % (T, n), "%s* o, %s, %s, %s" % (T, a.decl, lo.decl, hi.decl), g + impl, "%s* o, %s, %s, %s" % (T, a.raw, lo.raw, hi.raw), g + spec)


def asserted(text):
    """(line, condition) of every assertion in the header"""
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), text, flags=re.S)
    text = re.sub(r'"(?:\\.|[^"\\\n])*"', lambda m: '""', text)
    for m in re.finditer(r"\b(?:(?:dsga|cxcm)_(?:constexpr_assert|assertm)|assert)\s*\(", text):
        ln = text.count("\n", 0, m.start()) + 1
        if text[text.rfind("\n", 0, m.start()) + 1:].lstrip().startswith("#"):
            continue
        d, i = 1, m.end()
        while d and i < len(text):
            d += {"(": 1, ")": -1}.get(text[i], 0)
            i += 1
        yield ln, text[m.end():i - 1]


def effects(cond):
    return re.search(r"(?<![=!<>\[])=(?![=\]])|<<=|>>=|\+\+|--|\b(swap|set|reset|new|delete|throw)\b", cond)


class QUICK:
    tier = "quick"


def run(c):
    full = c.tier == "thorough"
    h = []
    for m in FROM:
        mod = importlib.import_module("checks." + m)
        # clamp's precondition relates its operands; outside it nothing is specified (own obligations below)
        cs = [x for x in mod.cases(QUICK) if x.expect == "same" and not x.name.startswith("clamp.")]
        step = 1 if full else max(1, len(cs) // 80)
        cs = cs[::step]
        cs.sort(key=lambda k: k.name.split(".")[1:2])
        ctl = [Case("control", "int* o, int a, int b", "dsga_constexpr_assert((*o = a) == a, \"\"); *o = *o;", "int* o, int a, int b", "*o = a;", expect="differs"),
               Case("control.kept", "int* o, int a", "assert(a > 0); *o = a;", "int* o, int a", "*o = a;", expect="differs")]
        h.append(c.pairs(m.upper(), cs + ctl, flags=NOASSERT, prelude=getattr(mod, "PRE", "") + PRE if m == "b12" else PRE, minimum=40))
    h.append(c.pairs("clamp", list(clamps()), flags=NOASSERT, prelude=PRE, minimum=20))
    n = 0
    for ln, cond in asserted(open(REPO + "/include/dsga.hxx").read()):
        n += 1
        if effects(cond):
            c.report("assertion/dsga.hxx:%d" % ln, "the asserted expression has an effect that is lost when assertions are off: " + cond[:200])
    if n < 60 or effects("a == b && c <= d && x >= 0 && m != n") or not effects("(a = b) > 0") or not effects("i++ < 3"):
        raise Broken("assertions not recognised (%d)" % n)
    c.cov["groups"]["assertions"] = {"obligations": n, "held": n - len(c.violations)}
    c.cov["obligations"] += n
    c.cov["discharged"] += n - len(c.violations)
    for x in h:
        c.collect(x)
