from fw import Case
from gen import *

META = dict(
    title="Bit casts, byteswap, frexp, ldexp, fma act on every component exactly",
    statement="floatBitsToInt/Uint, doubleBitsToLongLong/UlongLong and their inverses reinterpret the bits of each component unchanged, for every bit pattern including NaN payloads, and each pair is an inverse; byteswap reverses the bytes of each integral component and is its own inverse. frexp returns each component's fraction and writes its exponent to the same position of the second operand; ldexp pairs each component with its own exponent, and fma computes a*b+c per component in one rounding. Scalar overloads agree; to_underlying is the enumerator's value in its underlying type; other element types are rejected.",
    quant=("inputs", "all bit patterns, element types, lengths and operand forms, with the exponent operand a vector, view or swizzle"),
    why="A reinterpretation through the wrong width or an exponent written to the physical instead of the logical position goes unnoticed for symmetric operands or ordinary values.",
    anchors=["include/dsga.hxx"],
    mech=[("functions", "functions::floatBitsToInt … ulongLongBitsToDouble, byteswap, frexp, ldexp, fma, to_underlying")],
    explanation="each function instance is lowered; every byte of every result, and of the written exponents, is traced by value numbering to the byte or library call it must come from",
    technique="value numbering with byte-level provenance over clang LLVM IR; overload-resolution witnesses",
)
CASTS = [("floatBitsToInt", "float", "int"), ("floatBitsToUint", "float", "unsigned"), ("doubleBitsToLongLong", "double", "ll"), ("doubleBitsToUlongLong", "double", "ull"),
         ("intBitsToFloat", "int", "float"), ("uintBitsToFloat", "unsigned", "float"), ("longLongBitsToDouble", "ll", "double"), ("ulongLongBitsToDouble", "ull", "double")]


def out(T, n):
    return T if n == 1 else vec(T, n)


def st(T, n, es):
    return "".join("%s t%d=%s; " % (T, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n))


def swapped(T, x):
    u = "ull" if SIZE[T] == 8 else "unsigned"
    b = SIZE[T]
    return "(%s)(%s)" % (T, " | ".join("((((%s)%s >> %d) & 255) << %d)" % (u, x, 8 * i, 8 * (b - 1 - i)) for i in range(b)))


def cases(c):
    full, deep = True, c.tier == "thorough"
    ka, kb, kc = Rot(KINDS), Rot(KINDS[2:] + KINDS[:2] + ["vec"]), Rot(KINDS[4:] + ["swz", "vec"])
    inv = {}
    for f, A, B in CASTS:
        for g, P, Q in CASTS:
            if (P, Q) == (B, A):
                inv[f] = g
    for f, A, B in CASTS:
        for n in (1, 2, 3, 4):
            for k in (KINDS if full else [ka() for _ in range(3)]):
                a = operand("iview" if n == 1 and k == "vv" else k, A, n)
                yield Case("%s.%s.%d.%s" % (f, A, n, a.kind), "%s* o, %s" % (out(B, n), a.decl), "put<%s>(o, functions::%s(%s));" % (out(B, n), f, a.expr), "%s* o, %s" % (B, a.raw), a.need + st(B, n, ["std::bit_cast<%s>(%s)" % (B, a.lane(i)) for i in range(n)]))
            a = operand("iview" if n == 1 else ka(), A, n)
            yield Case("%s.%s.%d.%s.inverse" % (f, A, n, a.kind), "%s* o, %s" % (out(A, n), a.decl), "put<%s>(o, functions::%s(functions::%s(%s)));" % (out(A, n), inv[f], f, a.expr), "%s* o, %s" % (A, a.raw), a.need + st(A, n, [a.lane(i) for i in range(n)]))
        yield Case("%s.%s.scalar" % (f, A), "%s* o, %s a" % (B, A), "put<%s>(o, functions::%s(a));" % (B, f), "%s* o, %s a" % (B, A), "*o = std::bit_cast<%s>(a);" % B)
    for T in INTS:
        for n in (1, 2, 3, 4):
            for k in (KINDS if full else [ka(), ka()]):
                a = operand("iview" if n == 1 and k == "vv" else k, T, n)
                yield Case("byteswap.%s.%d.%s" % (T, n, a.kind), "%s* o, %s" % (out(T, n), a.decl), "put<%s>(o, functions::byteswap(%s));" % (out(T, n), a.expr), "%s* o, %s" % (T, a.raw), a.need + st(T, n, [swapped(T, a.lane(i)) for i in range(n)]))
            yield Case("byteswap.%s.%d.%s.inverse" % (T, n, a.kind), "%s* o, %s" % (out(T, n), a.decl), "put<%s>(o, functions::byteswap(functions::byteswap(%s)));" % (out(T, n), a.expr), "%s* o, %s" % (T, a.raw), a.need + st(T, n, [a.lane(i) for i in range(n)]))
        yield Case("byteswap.%s.scalar" % T, "%s* o, %s a" % (T, T), "put<%s>(o, functions::byteswap(a));" % T, "%s* o, %s a" % (T, T), "*o = %s;" % swapped(T, "a"))
    for T in FLOATS:
        for n in (1, 2, 3, 4):
            for _ in range(24 if deep else 6):
                a, b, d = operand(ka() if n > 1 else "swz", T, n, "a"), operand(kb() if n > 1 else "view", T, n, "b"), operand(kc() if n > 1 else "vec", T, n, "d")
                ps = [a, b, d]
                yield Case("fma.%s.%d.%s" % (T, n, "-".join(p.kind for p in ps)), "%s* o, %s" % (out(T, n), ", ".join(p.decl for p in ps)), "put<%s>(o, functions::fma(%s));" % (out(T, n), ", ".join(p.expr for p in ps)), "%s* o, %s" % (T, ", ".join(p.raw for p in ps)),
                           "".join(p.need for p in ps) + st(T, n, ["std::fma(%s)" % ", ".join(p.lane(i) for p in ps) for i in range(n)]))
                a, b = operand(ka() if n > 1 else "swz", T, n, "a"), operand(kb() if n > 1 else "cview", "int", n, "b")
                yield Case("ldexp.%s.%d.%s-%s" % (T, n, a.kind, b.kind), "%s* o, %s, %s" % (out(T, n), a.decl, b.decl), "put<%s>(o, functions::ldexp(%s, %s));" % (out(T, n), a.expr, b.expr), "%s* o, %s, %s" % (T, a.raw, b.raw),
                           a.need + b.need + st(T, n, ["std::ldexp(%s, %s)" % (a.lane(i), b.lane(i)) for i in range(n)]))
            for k in ("vec", "swz", "view", "iview", "vv"):
                if n == 1:
                    continue
                a, b = operand(ka(), T, n, "a"), operand(k, "int", n, "b", mut=True)
                yield Case("frexp.%s.%d.%s-%s" % (T, n, a.kind, k), "%s* o, %s, %s" % (vec(T, n), a.decl, b.decl), "put<%s>(o, functions::frexp(%s, %s));" % (vec(T, n), a.expr, b.expr), "%s* o, %s, %s" % (T, a.raw, b.raw),
                           a.need + b.need + "".join("int e%d; %s t%d = std::frexp(%s, &e%d); " % (i, T, i, a.lane(i), i) for i in range(n)) + "".join("%s=e%d; " % (b.lane(i), i) for i in range(n)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))
        yield Case("fma.%s.scalar" % T, "%s* o, %s a, %s b, %s d" % (T, T, T, T), "put<%s>(o, functions::fma(a, b, d));" % T, "%s* o, %s a, %s b, %s d" % (T, T, T, T), "*o = std::fma(a, b, d);")
        yield Case("ldexp.%s.scalar" % T, "%s* o, %s a, int b" % (T, T), "put<%s>(o, functions::ldexp(a, b));" % T, "%s* o, %s a, int b" % (T, T), "*o = std::ldexp(a, b);")
        yield Case("frexp.%s.scalar" % T, "%s* o, %s a, int* b" % (T, T), "put<%s>(o, functions::frexp(a, *b));" % T, "%s* o, %s a, int* b" % (T, T), "int e; %s t = std::frexp(a, &e); *b = e; *o = t;" % T)
    for U in ("unsigned char", "short", "int", "unsigned", "ll", "ull"):
        for cl in ("", "class "):
            e = "E_%s_%s" % (U.replace(" ", ""), "c" if cl else "p")
            yield Case("to_underlying.%s" % e, "%s* o, %s a" % (U, e), "put<%s>(o, functions::to_underlying(a));" % U, "%s* o, %s a" % (U, U), "*o = a;")


PRE = "".join("enum %sE_%s_%s : %s { };\n" % (cl, U.replace(" ", ""), "c" if cl else "p", U) for U in ("unsigned char", "short", "int", "unsigned", "ll", "ull") for cl in ("", "class ")) + \
      "".join("template <class A> concept U_%s = requires(const A& a) { functions::%s(a); };\n" % (f, f) for f in [x[0] for x in CASTS] + ["byteswap", "to_underlying"]) + \
      "template <class A, class B> concept C_frexp = requires(const A& a, B& b) { functions::frexp(a, b); };\ntemplate <class A, class B> concept C_ldexp = requires(const A& a, const B& b) { functions::ldexp(a, b); };\n" + \
      "template <class A, class B, class D> concept T_fma = requires(const A& a, const B& b, const D& d) { functions::fma(a, b, d); };\n"


def accepts():
    no = lambda ok: "" if ok else "!"
    for f, A, B in CASTS:
        yield (f, " && ".join("%sU_%s<%s>" % (no(T == A), f, vec(T, n)) for T in ALL if not (T == "size_t" and A == "ull") for n in (2, 3, 4)), "%s takes %s vectors only" % (f, A))
    yield ("byteswap", " && ".join("%sU_byteswap<%s>" % (no(T in INTS), vec(T, n)) for T in ALL for n in (2, 3, 4)) + " && !U_byteswap<float> && !U_byteswap<bool>", "byteswap takes integral vectors and scalars only")
    yield ("to_underlying", "!U_to_underlying<int> && !U_to_underlying<ivec2> && U_to_underlying<std::byte>", "to_underlying takes enumerations only")
    yield ("frexp", " && ".join("%sC_frexp<%s,%s>" % (no(T in FLOATS and U == "int"), vec(T, n), vec(U, n)) for T in ALL for U in ALL for n in (2, 3)) + " && !C_frexp<vec3,const ivec3> && !C_frexp<vec3,basic_view<false,int,3>> && !C_frexp<vec2,ivec3>", "frexp writes exponents to writable int operands of the same length only")
    yield ("ldexp", " && ".join("%sC_ldexp<%s,%s>" % (no(T in FLOATS and U == "int"), vec(T, n), vec(U, n)) for T in ALL for U in ALL for n in (2, 3)) + " && !C_ldexp<vec2,ivec3>", "ldexp takes a floating-point and an int operand of the same length")
    yield ("fma", " && ".join("%sT_fma<%s,%s,%s>" % (no(T in FLOATS), vec(T, n), vec(T, n), vec(T, n)) for T in ALL for n in (2, 3, 4)) + " && !T_fma<vec2,vec2,dvec2> && !T_fma<vec2,vec2,vec3>", "fma takes three floating-point operands of one type and length")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.bits", "ivec2* o, const vec2& a", "*o = functions::floatBitsToInt(a);", "int* o, const float* a", "int t=(int)a[0],u=(int)a[1]; o[0]=t; o[1]=u;", expect="differs"),
           Case("control.swap", "ivec2* o, const ivec2& a", "*o = functions::byteswap(a);", "int* o, const int* a", "int t=__builtin_rotateleft32(a[0],16),u=a[1]; o[0]=t; o[1]=u;", expect="differs"),
           Case("control.fma", "vec2* o, const vec2& a, const vec2& b, const vec2& d", "*o = functions::fma(a, b, d);", "float* o, const float* a, const float* b, const float* d", "float t=a[0]*b[0]+d[0],u=a[1]*b[1]+d[1]; o[0]=t; o[1]=u;", expect="differs"),
           Case("control.frexp", "vec2* o, const vec2& a, ivec2& b", "*o = functions::frexp(a, b);", "float* o, const float* a, int* b", "int e,f; float t=std::frexp(a[0],&e),u=std::frexp(a[1],&f); b[0]=f; b[1]=e; o[0]=t; o[1]=u;", expect="differs")]
    h = c.pairs("values", cs + ctl, prelude=PRE, minimum=250)
    hw = c.witness("accepts", list(accepts()) + [("control", "U_byteswap<vec3>", "", "false")], prelude=PRE, minimum=13)
    c.collect(h)
    c.collect_witness(hw)
