from fw import Case
from gen import *

META = dict(
    title="Angle, trigonometric and exponential functions act on every component",
    statement="For floating-point operands, sin, cos, tan, asin, acos, atan (one and two arguments), sinh … atanh, pow, exp, log, exp2, log2 and sqrt give at each position the standard library's result, in the operand's own precision, for that position's component(s). radians and degrees scale by pi/180 and 180/pi of that precision; inversesqrt and fast_inversesqrt of a vector agree with their scalar overloads. pow asserts every base to be non-negative and excludes a zero base with an exponent <= 0; nothing else asserts. Every operand form is accepted in logical order, and integral, boolean or mismatched operands are rejected.",
    quant=("inputs", "all component values including NaN and infinities, both precisions, lengths and operand forms; every position of an out-of-domain component"),
    why="A component evaluated in the other precision, arguments of atan or pow exchanged for one form, or a domain assertion that looks at some components only, change results for particular inputs alone.",
    anchors=["include/dsga.hxx"],
    mech=[("functions", "functions::radians, degrees, sin … atanh, pow, exp, log, exp2, log2, sqrt, inversesqrt, fast_inversesqrt")],
    explanation="each function instance is lowered and each result component, and each assertion condition, is value-numbered against the standard-library call on that component",
    technique="value numbering of library-call terms and assertion conditions over clang LLVM IR; overload-resolution witnesses",
)
UN = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "exp2", "log2", "sqrt"]
SELF = ["inversesqrt", "fast_inversesqrt"]
ALLF = UN + SELF + ["radians", "degrees"]
PRE = "".join("template <class A> concept U_%s = requires(const A& a) { functions::%s(a); };\n" % (f, f) for f in ALLF) + \
      "".join("template <class A, class B> concept C_%s = requires(const A& a, const B& b) { functions::%s(a, b); };\n" % (f, f) for f in ("atan", "pow"))


def vals(T, n, es, pre=""):
    return pre + "".join("%s t%d=%s; " % (T, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n))


def cases(c):
    full, deep = True, c.tier == "thorough"
    ka, kb = Rot(KINDS), Rot(KINDS[2:] + KINDS[:2] + ["vec"])
    for T in FLOATS:
        for f in ALLF:
            e = {"radians": "%%s * (std::numbers::pi_v<%s> / %s(180))" % (T, T), "degrees": "%%s * (std::numbers::inv_pi_v<%s> * %s(180))" % (T, T)}.get(f, ("functions::%s((%s)%%s)" % (f, T)) if f in SELF else "std::%s((%s)%%s)" % (f, T))
            for n in (1, 2, 3, 4):
                for k in (KINDS if full else [ka() for _ in range(3 if n == 3 else 1)]):
                    k = "iview" if n == 1 and k == "vv" else k
                    a = operand(k, T, n)
                    O = T if n == 1 else vec(T, n)
                    yield Case("%s.%s.%d.%s" % (f, T, n, k), "%s* o, %s" % (O, a.decl), "put<%s>(o, functions::%s(%s));" % (O, f, a.expr), "%s* o, %s" % (T, a.raw), vals(T, n, [e % a.lane(i) for i in range(n)], a.need))
            if f not in SELF:
                yield Case("%s.%s.scalar" % (f, T), "%s* o, %s a" % (T, T), "put<%s>(o, functions::%s(a));" % (T, f), "%s* o, %s a" % (T, T), "*o = %s;" % (e % "a"))
        for f, g in (("atan", "atan2"), ("pow", "pow")):
            dom = lambda xs, ys: "" if f == "atan" else "".join("NEED(%s >= 0); " % x for x in xs) + "".join("NEED(!(%s == 0 && %s <= 0)); " % xy for xy in zip(xs, ys))
            for n in (1, 2, 3, 4):
                for _ in range(32 if deep else 8):
                    a, b = operand(ka(), T, n, "a"), operand(kb(), T, n, "b")
                    xs, ys = [a.lane(i) for i in range(n)], [b.lane(i) for i in range(n)]
                    O = T if n == 1 else vec(T, n)
                    yield Case("%s2.%s.%d.%s-%s" % (f, T, n, a.kind, b.kind), "%s* o, %s, %s" % (O, a.decl, b.decl), "put<%s>(o, functions::%s(%s, %s));" % (O, f, a.expr, b.expr),
                               "%s* o, %s, %s" % (T, a.raw, b.raw), a.need + b.need + dom(xs, ys) + vals(T, n, ["std::%s((%s)%s, (%s)%s)" % (g, T, x, T, y) for x, y in zip(xs, ys)]))
            yield Case("%s2.%s.scalar" % (f, T), "%s* o, %s a, %s b" % (T, T, T), "put<%s>(o, functions::%s(a, b));" % (T, f), "%s* o, %s a, %s b" % (T, T, T), dom(["a"], ["b"]) + "*o = std::%s(a, b);" % g)


def accepts():
    for f in ALLF:
        ts = ["%sU_%s<%s>" % ("" if T in FLOATS else "!", f, vec(T, n)) for T in ALL for n in (2, 3, 4)]
        ts += ["U_%s<basic_view<false,%s,3>>" % (f, T) for T in FLOATS] + ["U_%s<view_vector<%s,4>>" % (f, T) for T in FLOATS]
        yield (f, " && ".join(ts), "%s takes floating-point vectors of every length" % f)
    for f in ("atan", "pow"):
        ts = ["%sC_%s<%s,%s>" % ("" if T in FLOATS else "!", f, vec(T, n), vec(T, n)) for T in ALL for n in (2, 3, 4)]
        ts += ["!C_%s<vec2,vec3>" % f, "!C_%s<vec2,float>" % f, "!C_%s<dvec3,vec3>" % f]
        yield (f + "2", " && ".join(ts), "%s takes two floating-point vectors of one type and length" % f)


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.arg", "vec2* o, const vec2& a, const vec2& b", "*o = functions::atan(a, b);", "float* o, const float* a, const float* b", "float t=std::atan2(b[0],a[0]),u=std::atan2(b[1],a[1]); o[0]=t; o[1]=u;", expect="differs"),
           Case("control.precision", "vec2* o, const vec2& a", "*o = functions::sin(a);", "float* o, const float* a", "float t=std::sin((double)a[0]),u=std::sin((double)a[1]); o[0]=t; o[1]=u;", expect="differs"),
           Case("control.domain", "vec2* o, const vec2& a, const vec2& b", "*o = functions::pow(a, b);", "float* o, const float* a, const float* b", "NEED(a[0]>=0); NEED(a[1]>=0); NEED(!(a[0]==0&&b[0]<=0)); float t=std::pow(a[0],b[0]),u=std::pow(a[1],b[1]); o[0]=t; o[1]=u;", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=180)
    hw = c.witness("accepts", list(accepts()) + [("control", "U_sin<ivec3>", "", "false")], prelude=PRE, minimum=20)
    c.collect(h)
    c.collect_witness(hw)
