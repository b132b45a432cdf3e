from fw import Case
from gen import *

META = dict(
    title="Relational and boolean functions are exact, component by component",
    statement="lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal and notEqual return, at each position, the exact C++ comparison of the two components for every element type, including 64-bit integers beyond 2^53; a NaN component gives false, except true for notEqual. any, all and none are the disjunction, conjunction and negated disjunction of all components; compNot, logicalNot, compAnd and compOr act on each one. Scalar overloads agree with the one-component vectors, and operands must have one element type and length.",
    quant=("inputs", "all component values including NaN and large 64-bit integers, element types, lengths and operand forms"),
    why="Comparisons that go through another type differ from the exact ones only for large values, unordered operands only for NaN, and reductions that skip a component only when exactly that one decides.",
    anchors=["include/dsga.hxx"],
    mech=[("relational functions", "functions::lessThan … notEqual, less_op … not_equal_op"), ("boolean functions", "functions::any, all, none, compNot, compAnd, compOr, logicalNot")],
    explanation="each function instance is lowered and each result value-numbered against the scalar comparison or the reduction over all components",
    technique="value numbering of comparison decision diagrams over clang LLVM IR; overload-resolution witnesses",
)
REL = [("lessThan", "<"), ("lessThanEqual", "<="), ("greaterThan", ">"), ("greaterThanEqual", ">="), ("equal", "=="), ("notEqual", "!=")]
PRE = "".join("template <class A, class B> concept C_%s = requires(const A& a, const B& b) { functions::%s(a, b); };\n" % (f, f) for f, _ in REL) + \
      "".join("template <class A> concept U_%s = requires(const A& a) { functions::%s(a); };\n" % (f, f) for f in ("any", "all", "none", "compNot", "logicalNot")) + \
      "".join("template <class A, class B> concept C_%s = requires(const A& a, const B& b) { functions::%s(a, b); };\n" % (f, f) for f in ("compAnd", "compOr"))


def cases(c):
    full, deep = True, c.tier == "thorough"
    ka, kb = Rot(KINDS), Rot(KINDS[2:] + KINDS[:2] + ["vec"])
    r = 0
    for f, op in REL:
        for T in ALL:
            if T == "bool" and f not in ("equal", "notEqual"):
                continue
            for n in (1, 2, 3, 4):
                for rep in range(16 if deep else 4):
                    a, b = operand(ka(), T, n, "a"), operand(kb(), T, n, "b")
                    O = "bool" if n == 1 else vec("bool", n)
                    yield Case("%s.%s.%d.%s-%s" % (f, T, n, a.kind, b.kind), "%s* o, %s, %s" % (O, a.decl, b.decl), "put<%s>(o, functions::%s(%s, %s));" % (O, f, a.expr, b.expr),
                               "bool* o, %s, %s" % (a.raw, b.raw), a.need + b.need + "".join("bool t%d = %s %s %s; " % (i, a.lane(i), op, b.lane(i)) for i in range(n)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))
            yield Case("%s.%s.scalar" % (f, T), "bool* o, const %s& a, const %s& b" % (T, T), "put<bool>(o, functions::%s(a, b));" % f, "bool* o, const %s* a, const %s* b" % (T, T), "*o = *a %s *b;" % op)
    T = "bool"
    for n in (1, 2, 3, 4):
        for k in KINDS:
            if k == "vv" and n == 1:
                continue
            a = operand(k, T, n)
            ls = [a.lane(i) for i in range(n)]
            for f, e in (("any", " | ".join(ls)), ("all", " & ".join(ls)), ("none", "!(%s)" % " | ".join(ls))):
                yield Case("%s.bool.%d.%s" % (f, n, k), "bool* o, %s" % a.decl, "put<bool>(o, functions::%s(%s));" % (f, a.expr), "bool* o, %s" % a.raw, a.need + "bool r = %s; *o = r;" % e)
            O = "bool" if n == 1 else vec("bool", n)
            for f in ("compNot", "logicalNot"):
                yield Case("%s.bool.%d.%s" % (f, n, k), "%s* o, %s" % (O, a.decl), "put<%s>(o, functions::%s(%s));" % (O, f, a.expr), "bool* o, %s" % a.raw,
                           a.need + "".join("bool t%d=!%s; " % (i, x) for i, x in enumerate(ls)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))
            b = operand(kb() if n > 1 else "swz", T, n, "b")
            for f, op in (("compAnd", "&"), ("compOr", "|")):
                yield Case("%s.bool.%d.%s" % (f, n, k), "%s* o, %s, %s" % (O, a.decl, b.decl), "put<%s>(o, functions::%s(%s, %s));" % (O, f, a.expr, b.expr), "bool* o, %s, %s" % (a.raw, b.raw),
                           a.need + b.need + "".join("bool t%d=%s %s %s; " % (i, x, op, b.lane(i)) for i, x in enumerate(ls)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))
    S = "bool* o, const bool& a", "bool* o, const bool* a"
    for f, e in (("any", "*a"), ("all", "*a"), ("none", "!*a"), ("compNot", "!*a"), ("logicalNot", "!*a")):
        yield Case("%s.bool.scalar" % f, S[0], "put<bool>(o, functions::%s(a));" % f, S[1], "*o = %s;" % e)
    for f, op in (("compAnd", "&"), ("compOr", "|")):
        yield Case("%s.bool.scalar" % f, S[0] + ", const bool& b", "put<bool>(o, functions::%s(a, b));" % f, S[1] + ", const bool* b", "*o = *a %s *b;" % op)


def accepts():
    for f, _ in REL:
        eqf = f in ("equal", "notEqual")
        for T in ALL:
            ok = T != "bool" or eqf
            ts = ["%sC_%s<%s,%s>" % ("" if ok else "!", f, vec(T, n), vec(T, n)) for n in (2, 3, 4)]
            ts += ["!C_%s<%s,%s>" % (f, vec(T, 2), vec(T, 3)), "!C_%s<%s,%s>" % (f, vec(T, 4), T), "!C_%s<%s,%s>" % (f, vec(T, 3), vec("double" if T == "float" else "float", 3))]
            yield ("%s.%s" % (f, T), " && ".join(ts), "accepted operands of %s" % f)
    for f in ("any", "all", "none", "compNot", "logicalNot"):
        yield (f, " && ".join("%sU_%s<%s>" % ("" if T == "bool" else "!", f, vec(T, n)) for T in ALL for n in (2, 3, 4)), "%s takes boolean vectors only" % f)
    for f in ("compAnd", "compOr"):
        yield (f, " && ".join("%sC_%s<%s,%s>" % ("" if T == "bool" else "!", f, vec(T, n), vec(T, n)) for T in ALL for n in (2, 3, 4)) + " && !C_%s<bvec2,bvec3>" % f, "%s takes boolean vectors of one length only" % f)


def run(c):
    cs = list(cases(c))
    cs = sorted(cs, key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.nan", "bvec2* o, const vec2& a, const vec2& b", "*o = functions::lessThan(a, b);", "bool* o, const float* a, const float* b", "o[0]=!(a[0]>=b[0]); o[1]=!(a[1]>=b[1]);", expect="differs"),
           Case("control.double", "bvec2* o, const basic_vector<ll,2>& a, const basic_vector<ll,2>& b", "*o = functions::lessThan(a, b);", "bool* o, const ll* a, const ll* b", "o[0]=(double)a[0]<(double)b[0]; o[1]=(double)a[1]<(double)b[1];", expect="differs"),
           Case("control.any", "bool* o, const bvec3& a", "*o = functions::any(a);", "bool* o, const bool* a", "*o = a[0] | a[1];", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=300)
    hw = c.witness("accepts", list(accepts()) + [("control", "C_equal<vec2,vec3>", "", "false")], prelude=PRE, minimum=50)
    c.collect(h)
    c.collect_witness(hw)
