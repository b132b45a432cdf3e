from fw import Case
from gen import *

META = dict(
    title="Binary operators act lane by lane in the common type, whatever the operands",
    statement="For every operator + - * / % << >> & | ^ on vectors, the result at each position is the C++ operator applied to the two components at that position converted to their common type (shifts keep the left type); a scalar or one-component operand acts on every position. The result has the common element type and the longer operand's length, and is a plain scalar when both have one component. Operand forms (vector, swizzle, view, swizzle of a view, view_vector) make no difference, and exactly the documented combinations of element types and lengths compile. A modulus by zero in any component is stopped by an assertion.",
    quant=("inputs", "all component values, all documented element-type pairs, lengths and operand forms of the ten operators"),
    why="Each operator has four overloads per operand arrangement and 49 element-type pairs; a wrong cast order, operand order or lane only shows on specific values (unsigned wrap, negative shift results, NaN, non-commutative operators).",
    anchors=["include/dsga.hxx"],
    mech=[("operators", "operator + - * / % << >> & | ^ (vector_base)"), ("lane machinery", "machinery::apply_unitype_make, apply_multitype_make")],
    explanation="each instantiated operator is lowered to IR and every result lane is value-numbered against the scalar C++ expression in the common type, symbolically in all inputs; acceptance of type/length combinations is decided by overload resolution",
    technique="value numbering of each operator instantiation against the scalar expression over clang LLVM IR; overload-resolution witnesses",
)
PRE = "".join("template <class A, class B> concept Op%s = requires(const A& a, const B& b) { a %s b; };\n" % (n, o) for n, o in
              zip(("Add", "Sub", "Mul", "Div", "Mod", "Shl", "Shr", "And", "Or", "Xor"), OPS))
NAMES = dict(zip(OPS, ("Add", "Sub", "Mul", "Div", "Mod", "Shl", "Shr", "And", "Or", "Xor")))


def cases(c):
    ka, kb = Rot(KINDS), Rot(KINDS[2:] + KINDS[:2] + ["vec"])
    rot = 0
    for op in OPS:
        for T in NUM:
            for U in NUM:
                if not arith_ok(op, T, U):
                    continue
                for form in ("vv", "vs", "sv", "v1", "1v"):
                    rot += 1
                    sizes = (1, 2, 3, 4) * (3 if c.tier == "thorough" else 1)
                    for n in sizes:
                        if form in ("v1", "1v") and n == 1:
                            continue
                        a = operand("scalar" if form == "sv" else ka(), T, 1 if form == "1v" else n, "a")
                        b = operand("scalar" if form == "vs" else kb(), U, 1 if form == "v1" else n, "b")
                        A = [a.lane(0 if a.n == 1 else i) for i in range(n)]
                        B = [b.lane(0 if b.n == 1 else i) for i in range(n)]
                        es = [lane_expr(op, T, U, x, y) for x, y in zip(A, B)]
                        O = es[0][0]
                        OT = O if n == 1 else vec(O, n)
                        yield Case("%s%s.%s,%s.%s.%d" % (form, NAMES[op], T, U, a.kind + "-" + b.kind, n), "%s* o, %s, %s" % (OT, a.decl, b.decl), "put<%s>(o, %s %s %s);" % (OT, a.expr, op, b.expr),
                                   "%s* o, %s, %s" % (O, a.raw, b.raw), a.need + b.need + nonzero(op, T, U, B) + "".join("%s t%d=%s; " % (O, i, e) for i, (_, e) in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))


def accepts(full):
    v = lambda T, n: vec(T, n)
    for op in OPS:
        for i, T in enumerate(ALL):
            for j, U in enumerate(ALL):
                ok = arith_ok(op, T, U)
                if not full and (ok or "bool" in (T, U)) and (i + j + OPS.index(op)) % 3 and (T, U) not in (("int", "float"), ("int", "ll"), ("bool", "bool"), ("float", "float")):
                    continue
                s = "" if ok else "!"
                ts = []
                # one-component operands also convert to scalars, where the built-in operators take over
                for n in (1, 2, 4) if ok else (2, 4):
                    ts += ["%sOp%s<%s,%s>" % (s, NAMES[op], v(T, n), v(U, n)), "%sOp%s<%s,%s>" % (s, NAMES[op], v(T, n), U), "%sOp%s<%s,%s>" % (s, NAMES[op], T, v(U, n))]
                ts += ["%sOp%s<%s,%s>" % (s, NAMES[op], v(T, 3), v(U, 1)), "%sOp%s<%s,%s>" % (s, NAMES[op], v(T, 1), v(U, 4)),
                       "!Op%s<%s,%s>" % (NAMES[op], v(T, 2), v(U, 3)), "!Op%s<%s,%s>" % (NAMES[op], v(T, 4), v(U, 2)), "!Op%s<%s,%s>" % (NAMES[op], v(T, 3), v(U, 4))]
                # swizzles and views in place of vectors
                ts += ["%sOp%s<decltype(std::declval<%s&>().zx),%s>" % (s, NAMES[op], v(T, 3), v(U, 2)), "%sOp%s<view_vector<%s,3>,basic_view<false,%s,3>>" % (s, NAMES[op], T, U)]
                yield ("%s.%s,%s" % (NAMES[op], T, U), " && ".join(ts), "exactly the documented operand types are accepted")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.order", "vec3* o, const vec3& a, const vec3& b", "*o = a - b;", "float* o, const float* a, const float* b", "".join("o[%d]=b[%d]-a[%d]; " % (i, i, i) for i in range(3)), expect="differs"),
           Case("control.cast", "dvec2* o, const vec2& a, const dvec2& b", "*o = a * b;", "double* o, const float* a, const double* b", "".join("o[%d]=a[%d]*(float)b[%d]; " % (i, i, i) for i in range(2)), expect="differs"),
           Case("control.sign", "uvec2* o, const ivec2& a, const uvec2& b", "*o = a / b;", "unsigned* o, const int* a, const int* b", "".join("o[%d]=a[%d]/b[%d]; " % (i, i, i) for i in range(2)), expect="differs"),
           Case("control.mod", "ivec2* o, const ivec2& a, const ivec2& b", "*o = a % b;", "int* o, const int* a, const int* b", "NEED(b[0]!=0); o[0]=a[0]%b[0]; o[1]=a[1]%b[1];", expect="differs")]
    h = c.pairs("lanes", cs + ctl, minimum=900)
    w = list(accepts(True)) + [("control", "OpAdd<vec2,vec3>", "", "false")]
    hw = c.witness("accepts", w, prelude=PRE, minimum=200)
    c.collect(h)
    c.collect_witness(hw)
