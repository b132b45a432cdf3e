from fw import Case
from gen import *
from checks.c01 import SHAPES, mt, mop

META = dict(
    title="Matrix +, -, /, scalar arithmetic, ++, -- and == act on every element",
    statement="Adding, subtracting or dividing two matrices of one shape, and applying +, -, * or / to a matrix and a non-boolean scalar in either order, gives at every position the C++ result of the two elements (or element and scalar) in the operands' common type, with operand order kept. Unary + and - act per element; prefix ++ and -- change every element by one in place and return the matrix itself, the postfix forms return its previous value. == holds exactly when every pair of elements compares equal, and != is its negation. Operands of different shapes, booleans and (for * between matrices) element-wise meaning are refused.",
    quant=("inputs", "all element values, matrix shapes, and element and scalar types"),
    why="A missed column, swapped operands of - or / or a result computed in the narrower type is specific to one shape and type pair.",
    anchors=["include/dsga.hxx"],
    mech=[("matrix operators", "operator +, -, *, / with scalar, +, -, / with matrix, unary +, -, ++, --, ==")],
    explanation="each operator instance is lowered and each element value-numbered against the scalar expression; the return designation and acceptance by compile-time witnesses",
    technique="value numbering per operator instantiation over clang LLVM IR; overload-resolution witnesses",
)


def st(O, es):
    return "".join("%s t%d=%s; " % (O, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(len(es)))


def cases(c):
    full = True
    for T in FLOATS:
        for C, R in SHAPES:
            n, M = C * R, mt(T, C, R)
            for U in FLOATS:
                O = common(T, U)
                a, b = mop(T, C, R, "a"), mop(U, C, R, "b")
                for op in "+-/":
                    yield Case("mm%s.%s.%dx%d.%s" % (op, T, C, R, U), "%s* o, %s, %s" % (mt(O, C, R), a.decl, b.decl), "put<%s>(o, a %s b);" % (mt(O, C, R), op), "%s* o, %s, %s" % (O, a.raw, b.raw), st(O, ["(%s)a[%d] %s (%s)b[%d]" % (O, i, op, O, i) for i in range(n)]))
                eq = " && ".join("((%s)a[%d] == (%s)b[%d])" % (O, i, O, i) for i in range(n))
                if implicit(T, U) or implicit(U, T):
                    yield Case("eq.%s.%dx%d.%s" % (T, C, R, U), "%s, %s" % (a.decl, b.decl), "return a == b;", "%s, %s" % (a.raw, b.raw), "return %s;" % eq, ret="bool", budget=2000000)
                    yield Case("ne.%s.%dx%d.%s" % (T, C, R, U), "%s, %s" % (a.decl, b.decl), "return a != b;", "%s, %s" % (a.raw, b.raw), "return !(%s);" % eq, ret="bool", budget=2000000)
            for i, U in enumerate(NUM):
                O = common(T, U)
                a = mop(T, C, R, "a")
                for j, op in enumerate("+-*/"):
                    for k in (0, 1):
                        if not full and T != U and (i + j + k + C + 2 * R) % 3:
                            continue
                        e = ["(%s)a[%d] %s (%s)s" % (O, q, op, O) if k == 0 else "(%s)s %s (%s)a[%d]" % (O, op, O, q) for q in range(n)]
                        yield Case("%s%s.%s.%dx%d.%s" % ("ms" if k == 0 else "sm", op, T, C, R, U), "%s* o, %s, %s s" % (mt(O, C, R), a.decl, U), "put<%s>(o, %s);" % (mt(O, C, R), "a %s s" % op if k == 0 else "s %s a" % op), "%s* o, %s, %s s" % (O, a.raw, U), st(O, e))
            a = mop(T, C, R, "a")
            for op in "+-":
                yield Case("un%s.%s.%dx%d" % (op, T, C, R), "%s* o, %s" % (M, a.decl), "put<%s>(o, %sa);" % (M, op), "%s* o, %s" % (T, a.raw), st(T, ["%sa[%d]" % (op, i) for i in range(n)]))
                x = op * 2
                old = "".join("%s t%d=a[%d]; " % (T, i, i) for i in range(n))
                upd = "".join("a[%d]=t%d %s 1; " % (i, i, op) for i in range(n))
                yield Case("pre%s.%s.%dx%d" % (x, T, C, R), "%s& a" % M, "return &%sa;" % x, "%s* a" % T, old + upd + "return a;", ret="void*")
                yield Case("post%s.%s.%dx%d" % (x, T, C, R), "%s* o, %s& a" % (M, M), "auto r = a%s; static_assert(same_type_<%s, decltype(r)>::value); *o = r;" % (x, M), "%s* o, %s* a" % (T, T), old + upd + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))


OPN = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
PRE = "".join("template <class A, class B> concept X_%s = requires(const A& a, const B& b) { a %s b; };\n" % (n, o) for o, n in OPN.items()) + \
      "template <class A, class B> concept X_eq = requires(const A& a, const B& b) { a == b; a != b; };\n" + \
      "template <class A> concept X_inc = requires(A& a) { ++a; a++; --a; a--; };\n"


def accepts():
    no = lambda ok: "" if ok else "!"
    for C, R in SHAPES:
        for T in FLOATS:
            M = mt(T, C, R)
            ts = []
            for C2, R2 in SHAPES:
                for U in FLOATS:
                    N, same = mt(U, C2, R2), (C, R) == (C2, R2)
                    ts += ["%sX_%s<%s,%s>" % (no(same), k, M, N) for k in ("add", "sub", "div", "eq")] + ["%sX_mul<%s,%s>" % (no(C == R2), M, N)]
            yield ("shapes.%s.%dx%d" % (T, C, R), " && ".join(ts), "element-wise operators need one shape, products matching inner sizes")
            ts = ["%sX_%s<%s> && %sX_%s<%s>" % (no(U != "bool"), k, ",".join([M, U]), no(U != "bool"), k, ",".join([U, M])) for U in ALL for k in ("add", "sub", "mul", "div")]
            ts += ["!X_eq<%s,%s>" % (M, U) for U in ALL] + ["X_inc<%s> && !X_inc<const %s>" % (M, M), "std::same_as<decltype(++std::declval<{0}&>()),{0}&> && std::same_as<decltype(--std::declval<{0}&>()),{0}&>".format(M)]
            yield ("scalars.%s.%dx%d" % (T, C, R), " && ".join(ts), "every non-boolean scalar combines with a matrix")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.order", "mat2* o, const mat2& a, float s", "*o = s - a;", "float* o, const float* a, float s", "float t[4]; for(int i=0;i<4;i++) t[i]=a[i]-s; for(int i=0;i<4;i++) o[i]=t[i];", expect="differs"),
           Case("control.column", "mat3x2* o, const mat3x2& a, const mat3x2& b", "*o = a + b;", "float* o, const float* a, const float* b", "float t[6]; for(int i=0;i<6;i++) t[i]=a[i]+b[i<5?i:4]; for(int i=0;i<6;i++) o[i]=t[i];", expect="differs"),
           Case("control.eq", "const mat2& a, const mat2& b", "return a == b;", "const float* a, const float* b", "return a[0]==b[0] && a[1]==b[1] && a[2]==b[2];", ret="bool", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=300)
    hw = c.witness("accepts", list(accepts()) + [("control", "X_mul<mat2x3,mat2x3>", "", "false")], prelude=PRE, minimum=36)
    c.collect(h)
    c.collect_witness(hw)
