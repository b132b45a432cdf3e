import importlib

from fw import Case, CONSTEVAL, CONSTOPEN
from gen import *

META = dict(
    title="Compile-time evaluation gives the values run time gives",
    statement="Operators, constructors, conversions, assignment, comparisons, component-wise functions, products, matrix algebra and the array and tuple conversions compute at compile time exactly what their run-time specification says, for every operand: no operation takes a different branch, order or precision in constant evaluation. (The rounding and classification kernels, which are separate code, have their own property; results involving square roots are iterative at compile time and not covered.)",
    quant=("inputs", "all operand values and forms, in constant evaluation"),
    why="A constant is computed once, at compile time, with code the run-time tests never execute if a function asks whether it is being constant-evaluated.",
    anchors=["include/dsga.hxx"],
    mech=[("constant branch", "every operation, with std::is_constant_evaluated() true"), ("kernels", "cxcm functions used by abs, sign, mod, step, mix, smoothstep, isnan, isinf")],
    explanation="the obligations of the value properties are decided again on the program in which every question whether evaluation is constant answers yes; and each operation is value-numbered with the answer bound to no and to yes, which must give the identical value",
    technique="value numbering over clang LLVM IR (constant-evaluated branch selected; both answers compared)",
)

FROM = ["b01", "b02", "b03", "b05", "b06", "b07", "b08", "b09", "b10", "b11", "b12", "b13", "c01", "c02", "c03", "c04", "e04"]
# separate kernels (D01) and iterative square roots
SKIP = {"sqrt", "inversesqrt", "fast_inversesqrt", "trunc", "floor", "ceil", "round", "roundEven", "fract", "mod", "modf", "abs", "length", "distance", "normalize", "refract"}


class QUICK:
    tier = "quick"


def run(c):
    full = c.tier == "thorough"
    h = []
    for m in FROM:
        mod = importlib.import_module("checks." + m)
        cs = [x for x in mod.cases(QUICK) if x.expect == "same" and not (m in ("b10", "b11", "b13") and x.name.split(".")[0] in SKIP and not (x.name.split(".")[0] == "abs" and x.name.split(".")[1] in INTS))]
        every = cs
        step = 1 if full else max(1, len(cs) // (150 if m in ("b11", "b13", "b12") else 60))
        cs = sorted(cs[::step], key=lambda k: k.name.split(".")[1:2])
        ctl = [Case("control", "int* o, int a", "*o = std::is_constant_evaluated() ? a : a + 1;", "int* o, int a", "*o = a + 1;", expect="differs"),
               Case("control.branch", "int* o, int a", "*o = std::is_constant_evaluated() ? a : a + 1;", "int* o, int a", "*o = a;")]
        pre = getattr(mod, "PRE", "") if m == "b12" else ""
        h.append(c.pairs(m.upper(), cs + ctl, flags=CONSTEVAL, prelude=pre, minimum=20))
        # the answer makes no difference at all, not even in the last bit
        tw = [Case(x.name, x.isig, x.impl, x.ssig, None, mode="bits", nonan=x.nonan, ret=x.ret, text=x.text, twin=True, **{k: v for k, v in x.opts.items() if k in ("palign", "ignore_events")}) for x in every[::1 if full else max(1, len(every) // 150)]]
        ctl = [Case("control", "int* o, int a", "*o = std::is_constant_evaluated() ? a : a + 1;", "int* o, int a", None, twin=True, expect="differs"),
               Case("control.order", "float* o, const vec3& a", "*o = std::is_constant_evaluated() ? (a.x + a.y) + a.z : a.x + (a.y + a.z);", "float* o, const float* a", None, twin=True, expect="differs")]
        h.append(c.pairs(m.upper() + "-either-way", sorted(tw, key=lambda k: k.name.split(".")[1:2]) + ctl, flags=CONSTOPEN, prelude=pre, minimum=20))
    for x in h:
        c.collect(x)
