from fw import Case
from gen import *

META = dict(
    title="Geometric functions: dot, cross, length, normalize, reflect, refract",
    statement="innerProduct is the sum of the products of matching components in the common type, for every non-boolean pair of element types; dot the same for floating-point operands. cross is the right-handed product whatever mix of vectors, swizzles and views is passed. length is sqrt(dot(x,x)) (the absolute value of one component), distance the length of the difference. normalize divides by the length and gives NaN components when the length is zero; faceforward(n,i,nref) is n when dot(nref,i) < 0 and otherwise -n; reflect is i-2*dot(n,i)*n; refract is zero when 1-eta^2(1-dot(n,i)^2) is negative and otherwise eta*i-(eta*dot(n,i)+sqrt of it)*n.",
    quant=("inputs", "all component values, lengths, floating-point types and their mixes, and operand forms, for the exact-arithmetic formulas"),
    why="A permuted swizzle in one overload, a wrong sign or a missing branch agrees with the formula for axis-aligned or symmetric samples.",
    anchors=["include/dsga.hxx"],
    mech=[("geometric functions", "functions::innerProduct, dot, cross (3 overloads), length, distance, normalize, faceforward, reflect, refract")],
    explanation="each function instance is lowered; each component is normalised to a rational function of the operand components and compared with the documented formula (rounding order is not part of the property), branch conditions included",
    technique="value numbering to rational functions and decision diagrams over clang LLVM IR; overload-resolution witnesses",
)


def out(T, n):
    return T if n == 1 else vec(T, n)


def st(O, n, es):
    return "".join("%s t%d=%s; " % (O, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n))


def one(k, n):
    return "iview" if n == 1 and k == "vv" else k


def sumprod(O, a, b, n):
    return " + ".join("(%s)%s * (%s)%s" % (O, a.lane(i), O, b.lane(i)) for i in range(n))


def cases(c):
    full, deep = True, c.tier == "thorough"
    ka, kb, kc = Rot(KINDS), Rot(KINDS[2:] + KINDS[:2] + ["vec"]), Rot(KINDS[4:] + ["swz", "vec"])

    def case(name, T, O, n, ps, call, spec, want=None):
        return Case(name, "%s* o, %s" % (want or out(O, n), ", ".join(p.decl for p in ps)), "put<%s>(o, %s);" % (want or out(O, n), call), "%s* o, %s" % (O, ", ".join(p.raw for p in ps)), "".join(getattr(p, "need", "") for p in ps) + spec, mode="poly", anynan=True)
    for T in NUM:
        for U in NUM:
            O = common(T, U)
            for n in (1, 2, 3, 4):
                if not full and T != U and (NUM.index(T) + NUM.index(U) + n) % 4:
                    continue
                a, b = operand(one(ka(), n), T, n, "a"), operand(one(kb(), n), U, n, "b")
                yield case("innerProduct.%s.%s.%d.%s-%s" % (T, U, n, a.kind, b.kind), T, O, 1, [a, b], "functions::innerProduct(%s, %s)" % (a.expr, b.expr), "*o = %s;" % sumprod(O, a, b, n))
    for T in FLOATS:
        for U in FLOATS:
            O = common(T, U)
            for n in (1, 2, 3, 4):
                for _ in range(24 if deep else 6):
                    a, b = operand(one(ka(), n), T, n, "a"), operand(one(kb(), n), U, n, "b")
                    yield case("dot.%s.%s.%d.%s-%s" % (T, U, n, a.kind, b.kind), T, O, 1, [a, b], "functions::dot(%s, %s)" % (a.expr, b.expr), "*o = %s;" % sumprod(O, a, b, n))
                    a, b = operand(one(ka(), n), T, n, "a"), operand(one(kb(), n), U, n, "b")
                    d = ["((%s)%s - (%s)%s)" % (O, a.lane(i), O, b.lane(i)) for i in range(n)]
                    yield case("distance.%s.%s.%d.%s-%s" % (T, U, n, a.kind, b.kind), T, O, 1, [a, b], "functions::distance(%s, %s)" % (a.expr, b.expr),
                               "*o = %s;" % ("std::fabs(%s)" % d[0] if n == 1 else "std::sqrt(%s)" % " + ".join("%s*%s" % (x, x) for x in d)))
            yield Case("distance.%s.%s.scalar" % (T, U), "%s* o, %s a, %s b" % (O, T, U), "put<%s>(o, functions::distance(a, b));" % O, "%s* o, %s a, %s b" % (O, T, U), "*o = std::fabs((%s)a - (%s)b);" % (O, O), mode="poly", anynan=True)
            ks = KINDS
            for i, k1 in enumerate(ks):
                for j, k2 in enumerate(ks):
                    if not full and T != U and (i + j) % 3:
                        continue
                    a, b = operand(k1, T, 3, "a"), operand(k2, U, 3, "b")
                    x, y = (["(%s)%s" % (O, p.lane(q)) for q in range(3)] for p in (a, b))
                    yield case("cross.%s.%s.%s-%s" % (T, U, k1, k2), T, O, 3, [a, b], "functions::cross(%s, %s)" % (a.expr, b.expr), st(O, 3, ["%s*%s - %s*%s" % (x[(q + 1) % 3], y[(q + 2) % 3], y[(q + 1) % 3], x[(q + 2) % 3]) for q in range(3)]))
        for n in (1, 2, 3, 4):
            for k in KINDS:
                if n == 1 and k == "vv":
                    continue
                a = operand(k, T, n)
                l = "std::fabs(%s)" % a.lane(0) if n == 1 else "std::sqrt(%s)" % sumprod(T, a, a, n)
                yield case("length.%s.%d.%s" % (T, n, k), T, T, 1, [a], "functions::length(%s)" % a.expr, "*o = %s;" % l)
                if n > 1:
                    yield case("normalize.%s.%d.%s" % (T, n, k), T, T, n, [a], "functions::normalize(%s)" % a.expr, "%s l = %s; bool z = l == 0; " % (T, l) + st(T, n, ["z ? std::numeric_limits<%s>::quiet_NaN() : %s / l" % (T, a.lane(i)) for i in range(n)]))
            if n == 1:
                continue
            for _ in range(24 if deep else 6):
                a, b, d = operand(ka(), T, n, "a"), operand(kb(), T, n, "b"), operand(kc(), T, n, "d")
                yield case("faceforward.%s.%d.%s-%s-%s" % (T, n, a.kind, b.kind, d.kind), T, T, n, [a, b, d], "functions::faceforward(%s, %s, %s)" % (a.expr, b.expr, d.expr), "bool f = %s < 0; " % ("(%s)" % sumprod(T, d, b, n)) + st(T, n, ["f ? %s : -%s" % (a.lane(i), a.lane(i)) for i in range(n)]))
                a, b = operand(ka(), T, n, "a"), operand(kb(), T, n, "b")
                yield case("reflect.%s.%d.%s-%s" % (T, n, a.kind, b.kind), T, T, n, [a, b], "functions::reflect(%s, %s)" % (a.expr, b.expr), "%s d = %s; " % (T, sumprod(T, a, b, n)) + st(T, n, ["%s - 2 * d * %s" % (a.lane(i), b.lane(i)) for i in range(n)]))
                a, b = operand(ka(), T, n, "a"), operand(kb(), T, n, "b")
                yield Case("refract.%s.%d.%s-%s" % (T, n, a.kind, b.kind), "%s* o, %s, %s, %s eta" % (vec(T, n), a.decl, b.decl, T), "put<%s>(o, functions::refract(%s, %s, eta));" % (vec(T, n), a.expr, b.expr), "%s* o, %s, %s, %s eta" % (T, a.raw, b.raw, T),
                           a.need + b.need + "%s d = %s; %s k = 1 - eta*eta*(1 - d*d); bool t = k < 0; %s g = eta*d + std::sqrt(k); " % (T, sumprod(T, a, b, n), T, T) + st(T, n, ["t ? (%s)0 : eta*%s - g*%s" % (T, a.lane(i), b.lane(i)) for i in range(n)]), mode="poly", anynan=True)
        yield Case("length.%s.scalar" % T, "%s* o, %s a" % (T, T), "put<%s>(o, functions::length(a));" % T, "%s* o, %s a" % (T, T), "*o = std::fabs(a);", anynan=True)


PRE = "".join("template <class A> concept U_%s = requires(const A& a) { functions::%s(a); };\n" % (f, f) for f in ("length", "normalize")) + \
      "".join("template <class A, class B> concept B_%s = requires(const A& a, const B& b) { functions::%s(a, b); };\n" % (f, f) for f in ("innerProduct", "dot", "cross", "distance", "reflect")) + \
      "template <class A, class B, class D> concept T_faceforward = requires(const A& a, const B& b, const D& d) { functions::faceforward(a, b, d); };\ntemplate <class A, class B, class D> concept T_refract = requires(const A& a, const B& b, D d) { functions::refract(a, b, d); };\n"


def accepts():
    no = lambda ok: "" if ok else "!"
    pairs = [(T, U, n) for T in ALL for U in ALL for n in (2, 3, 4)]
    yield ("innerProduct", " && ".join("%sB_innerProduct<%s,%s>" % (no("bool" not in (T, U)), vec(T, n), vec(U, n)) for T, U, n in pairs if n < 4) + " && !B_innerProduct<vec2,vec3>", "innerProduct takes all non-boolean operands of one length")
    for f in ("dot", "distance"):
        yield (f, " && ".join("%sB_%s<%s,%s>" % (no(T in FLOATS and U in FLOATS), f, vec(T, n), vec(U, n)) for T, U, n in pairs) + " && !B_%s<vec2,vec3>" % f, f + " takes floating-point operands of one length")
    yield ("cross", " && ".join("%sB_cross<%s,%s>" % (no(T in FLOATS and U in FLOATS and n == 3), vec(T, n), vec(U, n)) for T, U, n in pairs) + " && !B_cross<vec2,vec3>", "cross takes three-component floating-point operands")
    yield ("reflect", " && ".join("%sB_reflect<%s,%s>" % (no(T in FLOATS and U == T), vec(T, n), vec(U, n)) for T, U, n in pairs), "reflect takes floating-point operands of one type")
    for f in ("length", "normalize"):
        yield (f, " && ".join("%sU_%s<%s>" % (no(T in FLOATS), f, vec(T, n)) for T in ALL for n in (2, 3, 4)) + " && !U_%s<int>" % f, f + " takes floating-point operands")
    yield ("faceforward", "T_faceforward<vec3,vec3,vec3> && T_faceforward<dvec2,dvec2,dvec2> && !T_faceforward<vec3,vec3,vec2> && !T_faceforward<ivec3,ivec3,ivec3> && !T_faceforward<vec3,vec3,dvec3>", "faceforward takes three floating-point operands of one type and length")
    yield ("refract", "T_refract<vec3,vec3,float> && T_refract<dvec2,dvec2,double> && !T_refract<vec3,vec2,float> && !T_refract<ivec3,ivec3,int>", "refract takes two floating-point operands of one type and length and a ratio")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.cross", "vec3* o, const vec3& a, const vec3& b", "*o = functions::cross(a, b);", "float* o, const float* a, const float* b", "float p=a[2]*b[1]-a[1]*b[2],q=a[0]*b[2]-a[2]*b[0],r=a[1]*b[0]-a[0]*b[1]; o[0]=p; o[1]=q; o[2]=r;", mode="poly", anynan=True, expect="differs"),
           Case("control.length", "float* o, const vec3& a", "*o = functions::length(a);", "float* o, const float* a", "*o = std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[1]);", mode="poly", anynan=True, expect="differs"),
           Case("control.faceforward", "vec2* o, const vec2& a, const vec2& b, const vec2& d", "*o = functions::faceforward(a, b, d);", "float* o, const float* a, const float* b, const float* d", "bool f = a[0]*b[0]+a[1]*b[1] < 0; float p=f?a[0]:-a[0],q=f?a[1]:-a[1]; o[0]=p; o[1]=q;", mode="poly", anynan=True, expect="differs"),
           Case("control.precision", "double* o, const vec2& a, const dvec2& b", "*o = functions::dot(a, b);", "double* o, const float* a, const double* b", "*o = (double)(float)(a[0]*(float)b[0]) + a[1]*b[1];", mode="poly", anynan=True, expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=250)
    hw = c.witness("accepts", list(accepts()) + [("control", "U_normalize<ivec3>", "", "false")], prelude=PRE, minimum=9)
    c.collect(h)
    c.collect_witness(hw)
