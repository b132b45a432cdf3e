from fw import Case
from gen import *

META = dict(
    title="== holds exactly when every component compares equal",
    statement="Two vectors of the same length are equal exactly when, at every position, the components are equal after conversion to their common type; NaN equals nothing and 0.0 equals -0.0. != is always the negation, operand order makes no difference, and every operand form (vector, swizzle, view, swizzle of a view, view_vector, scalar with a one-component vector) gives the same answer. Vectors of different lengths cannot be compared.",
    quant=("inputs", "all component values including NaN, signed zero and 64-bit integers, element-type pairs, lengths and operand forms"),
    why="A missed component, an approximate comparison or a comparison in the wrong type is invisible unless exactly that component or magnitude differs.",
    anchors=["include/dsga.hxx"],
    mech=[("equality", "operator == for vector_base"), ("scalar equality", "operator == for one-component vectors")],
    explanation="each comparison is lowered and its truth table over the component comparisons is value-numbered against the conjunction",
    technique="value numbering of comparison decision diagrams over clang LLVM IR; overload-resolution witnesses",
)
PRE = "template <class A, class B> concept Eq = requires(const A& a, const B& b) { a == b; b != a; };\n"


def cases(c):
    full, deep = True, c.tier == "thorough"
    ka, kb = Rot(KINDS), Rot(KINDS[3:] + KINDS[:3] + ["swz"])
    r = 0
    for T in ALL:
        for U in ALL:
            if not (T == U or implicit(T, U) or implicit(U, T)):
                continue
            X = common(T, U)
            for n in (1, 2, 3, 4):
                for rep in range((24 if deep else 6) if T == U else (12 if deep else 3)):
                    r += 1
                    if not full and T != U and r % 2:
                        continue
                    a, b = operand(ka(), T, n, "a"), operand(kb(), U, n, "b")
                    e = " & ".join("((%s)%s == (%s)%s)" % (X, a.lane(i), X, b.lane(i)) for i in range(n))
                    op = "==" if r % 3 else "!="
                    yield Case("eq%s.%s,%s.%d.%s-%s" % (op, T, U, n, a.kind, b.kind), "bool* o, %s, %s" % (a.decl, b.decl), "put<bool>(o, %s %s %s);" % (a.expr, op, b.expr),
                               "bool* o, %s, %s" % (a.raw, b.raw), a.need + b.need + "bool r = %s; *o = %sr;" % (e, "" if op == "==" else "!"))
            k, rev = ka(), r % 2
            if k == "vv":
                k = "view"
            a, b = operand(k, T, 1, "a"), operand("scalar", U, 1, "b")
            l, q = (b, a) if rev else (a, b)
            yield Case("scal.%s,%s.%s.%d" % (T, U, k, rev), "bool* o, %s, %s" % (a.decl, b.decl), "put<bool>(o, %s == %s);" % (l.expr, q.expr), "bool* o, %s, %s" % (a.raw, b.raw),
                       a.need + "*o = (%s)%s == (%s)%s;" % (X, a.lane(0), X, b.lane(0)))


def accepts():
    for T in ALL:
        ts = []
        for n in (2, 3, 4):
            for m in (1, 2, 3, 4):
                ts.append("%sEq<%s,%s>" % ("" if n == m else "!", vec(T, n), vec(T, m)))
                ts.append("%sEq<%s,view_vector<%s,%d>>" % ("" if n == m else "!", vec(T, m), T, n))
            ts.append("!Eq<%s,%s>" % (vec(T, n), T))
            for U in ALL:
                ok = T == U or implicit(T, U) or implicit(U, T)
                ts.append("%sEq<%s,%s>" % ("" if ok else "!", vec(T, n), vec(U, n)))
        yield ("accept.%s" % T, " && ".join(ts), "only vectors of one length and with implicitly convertible element types are comparable")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.nan", "bool* o, const vec2& a", "*o = a == a;", "bool* o, const float* a", "*o = true;", expect="differs"),
           Case("control.cast", "bool* o, const ivec2& a, const vec2& b", "*o = a == b;", "bool* o, const int* a, const float* b", "*o = (a[0]==(int)b[0]) & (a[1]==(int)b[1]);", expect="differs"),
           Case("control.miss", "bool* o, const ivec3& a, const ivec3& b", "*o = a == b;", "bool* o, const int* a, const int* b", "*o = (a[0]==b[0]) & (a[1]==b[1]);", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=180)
    hw = c.witness("accepts", list(accepts()) + [("control", "Eq<vec2,vec3>", "", "false")], prelude=PRE, minimum=8)
    c.collect(h)
    c.collect_witness(hw)
