from fw import Case
from gen import *
from checks.c01 import SHAPES, mt, mop

META = dict(
    title="Matrix and vector products, outerProduct, transpose follow linear algebra",
    statement="matrix*vector is the combination of the columns weighted by the vector's components, vector*matrix the inner product of the vector with each column, and matrix*matrix multiplies every column of the right operand, for all conforming shapes, element types (integral vectors included) and operand forms, in the common type. outerProduct(a, b) has element a[r]*b[c] in column c, row r; matrixCompMult multiplies element by element; transpose exchanges columns and rows exactly; diagonal_matrix puts a vector on the diagonal of a zero matrix; cross_matrix(u)*v equals cross(u, v). Non-conforming shapes and boolean operands are refused.",
    quant=("inputs", "all element values of all conforming shapes, element types and operand forms, as exact-arithmetic formulas"),
    why="Square or symmetric samples hide exchanged rows and columns; each shape and operand form is its own instantiation.",
    anchors=["include/dsga.hxx"],
    mech=[("linear-algebraic operators", "operator *(matrix, vector), (vector, matrix), (matrix, matrix)"), ("matrix functions", "functions::matrixCompMult, outerProduct, transpose, cross_matrix, diagonal_matrix")],
    explanation="each instance is lowered; each element of the result is normalised to a polynomial in the operand elements and compared with the defining sum of products (summation order is not part of the property)",
    technique="value numbering to polynomials over clang LLVM IR; overload-resolution witnesses",
)


def st(O, es):
    return "".join("%s t%d=%s; " % (O, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(len(es)))


def sums(O, ps):
    return " + ".join("(%s)%s * (%s)%s" % (O, x, O, y) for x, y in ps)


def cases(c):
    full = c.tier == "thorough"
    ka, kb = Rot(KINDS), Rot(KINDS[2:] + KINDS[:2] + ["vec"])

    def case(name, O, W, ps, call, es, mode="poly"):
        return Case(name, "%s* o, %s" % (W, ", ".join(p.decl for p in ps)), "put<%s>(o, %s);" % (W, call), "%s* o, %s" % (O, ", ".join(p.raw for p in ps)), "".join(p.need for p in ps) + st(O, es), mode=mode)
    for T in FLOATS:
        for C, R in SHAPES:
            m = mop(T, C, R, "m")
            for ui, U in enumerate(NUM):
                O = common(T, U)
                for k in (KINDS if full or U == T else [ka(), ka(), ka()] if U in FLOATS else [ka(), ka()]):
                    v = operand(k, U, C, "v")
                    yield case("mv.%s.%dx%d.%s.%s" % (T, C, R, U, k), O, vec(O, R), [m, v], "m * %s" % v.expr, [sums(O, [("m[%d]" % (x * R + y), v.lane(x)) for x in range(C)]) for y in range(R)])
                    v = operand(k, U, R, "v")
                    yield case("vm.%s.%dx%d.%s.%s" % (T, C, R, U, k), O, vec(O, C), [v, m], "%s * m" % v.expr, [sums(O, [(v.lane(y), "m[%d]" % (x * R + y)) for y in range(R)]) for x in range(C)])
            for U in FLOATS:
                O = common(T, U)
                n = mop(U, C, R, "n")
                yield case("compmult.%s.%dx%d.%s" % (T, C, R, U), O, mt(O, C, R), [m, n], "functions::matrixCompMult(m, n)", ["(%s)m[%d] * (%s)n[%d]" % (O, i, O, i) for i in range(C * R)], "bits")
                for C2 in (2, 3, 4):
                    n = mop(U, C2, C, "n")      # m is CxR (R rows), n has C rows
                    yield case("mm.%s.%dx%d.%s.%d" % (T, C, R, U, C2), O, mt(O, C2, R), [m, n], "m * n", [sums(O, [("m[%d]" % (k * R + y), "n[%d]" % (x * C + k)) for k in range(C)]) for x in range(C2) for y in range(R)])
            yield case("transpose.%s.%dx%d" % (T, C, R), T, mt(T, R, C), [m], "functions::transpose(m)", ["m[%d]" % (y * R + x) for x in range(R) for y in range(C)], "bits")
            for U in NUM:
                O = common(T, U)
                for ty in ((T, U), (U, T)):
                    a, b = operand(ka(), ty[0], R, "a"), operand(kb(), ty[1], C, "b")
                    yield case("outer.%s.%dx%d.%s.%s-%s" % (T, C, R, "-".join(ty), a.kind, b.kind), O, mt(O, C, R), [a, b], "functions::outerProduct(%s, %s)" % (a.expr, b.expr), ["(%s)%s * (%s)%s" % (O, a.lane(y), O, b.lane(x)) for x in range(C) for y in range(R)], "bits")
        for k in KINDS:
            for n in (2, 3, 4):
                a = operand(k, T, n)
                yield case("diagonal.%s.%d.%s" % (T, n, k), T, mt(T, n, n), [a], "functions::diagonal_matrix(%s)" % a.expr, [a.lane(x) if x == y else "0" for x in range(n) for y in range(n)], "bits")
            a = operand(k, T, 3, "a")
            l = [a.lane(i) for i in range(3)]
            yield case("crossmat.%s.%s" % (T, k), T, mt(T, 3, 3), [a], "functions::cross_matrix(%s)" % a.expr, ["0", l[2], "-" + l[1], "-" + l[2], "0", l[0], l[1], "-" + l[0], "0"], "bits")
            a, b = operand(k, T, 3, "a"), operand(kb(), T, 3, "b")
            x, y = ([p.lane(i) for i in range(3)] for p in (a, b))
            cr = ["%s*%s - %s*%s" % (x[(q + 1) % 3], y[(q + 2) % 3], x[(q + 2) % 3], y[(q + 1) % 3]) for q in range(3)]
            yield case("crossmat.mul.%s.%s" % (T, k), T, vec(T, 3), [a, b], "functions::cross_matrix(%s) * %s" % (a.expr, b.expr), cr)
            yield case("crossmat.lmul.%s.%s" % (T, k), T, vec(T, 3), [a, b], "%s * functions::cross_matrix(%s)" % (a.expr, b.expr), cr)


PRE = "template <class A, class B> concept X_mul = requires(const A& a, const B& b) { a * b; };\n" + \
      "".join("template <class A, class B> concept B_%s = requires(const A& a, const B& b) { functions::%s(a, b); };\n" % (f, f) for f in ("outerProduct", "matrixCompMult")) + \
      "".join("template <class A> concept U_%s = requires(const A& a) { functions::%s(a); };\n" % (f, f) for f in ("transpose", "cross_matrix", "diagonal_matrix"))


def accepts():
    no = lambda ok: "" if ok else "!"
    for C, R in SHAPES:
        for T in FLOATS:
            M = mt(T, C, R)
            ts = ["%sX_mul<%s,%s> && %sX_mul<%s,%s>" % (no(U != "bool" and n == C), M, vec(U, n), no(U != "bool" and n == R), vec(U, n), M) for U in ALL for n in (2, 3, 4)]
            ts += ["%sB_matrixCompMult<%s,%s>" % (no((C, R) == s), M, mt(U, *s)) for s in SHAPES for U in FLOATS]
            yield ("products.%s.%dx%d" % (T, C, R), " && ".join(ts), "products need matching sizes and non-boolean operands")
    for n in (2, 3, 4):
        for m in (1, 2, 3, 4):
            yield ("outer.%d.%d" % (n, m), " && ".join("%sB_outerProduct<%s,%s>" % (no(m > 1 and "bool" not in (T, U) and (T in FLOATS or U in FLOATS)), vec(T, n), vec(U, m)) for T in ALL for U in ALL), "outerProduct takes two non-boolean vectors, one of them floating-point")
        yield ("vec.%d" % n, " && ".join("%sU_cross_matrix<%s> && %sU_diagonal_matrix<%s>" % (no(T in FLOATS and n == 3), vec(T, n), no(T in FLOATS), vec(T, n)) for T in ALL) + " && !U_transpose<%s>" % vec("float", n), "cross_matrix and diagonal_matrix take floating-point vectors")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.mv", "vec2* o, const mat2& m, const vec2& v", "*o = m * v;", "float* o, const float* m, const float* v", "float p=m[0]*v[0]+m[1]*v[1],q=m[2]*v[0]+m[3]*v[1]; o[0]=p; o[1]=q;", mode="poly", expect="differs"),
           Case("control.outer", "mat2* o, const vec2& a, const vec2& b", "*o = functions::outerProduct(a, b);", "float* o, const float* a, const float* b", "float p=a[0]*b[0],q=a[0]*b[1],r=a[1]*b[0],s=a[1]*b[1]; o[0]=p;o[1]=q;o[2]=r;o[3]=s;", expect="differs"),
           Case("control.transpose", "mat3x2* o, const mat2x3& a", "*o = functions::transpose(a);", "float* o, const float* a", "float t[6]; for(int i=0;i<6;i++) t[i]=a[i]; for(int i=0;i<6;i++) o[i]=t[i];", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=400)
    hw = c.witness("accepts", list(accepts()) + [("control", "U_transpose<vec3>", "", "false")], prelude=PRE, minimum=30)
    c.collect(h)
    c.collect_witness(hw)
