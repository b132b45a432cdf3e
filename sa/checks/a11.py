from fw import Case, NOASSERT
from gen import *

META = dict(
    title="Runtime swizzle and matrix import reject bad arguments, and only those",
    statement="swizzle(v, i...) returns the components it is asked for, as a scalar for one index and as an independent vector for two to four; any index that is negative or not below the vector length is stopped by the assertion, or by an out_of_range exception when assertions are disabled, and no valid index ever is. Constructing a matrix from a pointer raises invalid_argument exactly when the pointer is null, and otherwise reads exactly columns*rows elements in column order. The exception always reaches the caller; no function on its way is declared noexcept.",
    quant=("inputs", "all index values of every integral type, all sources, lengths and operand forms, with and without assertions, all shapes"),
    why="The set of index values is unbounded and negative indexes only differ after conversion to an unsigned type; tests use a few small values and never run with assertions disabled.",
    anchors=["include/dsga.hxx"],
    mech=[("runtime swizzle", "swizzle(vector_base, Args...)"), ("import constructor", "basic_matrix(const U*)")],
    explanation="each call is lowered with symbolic index values with and without assertions; the condition under which it asserts, throws (and which type) or terminates, and every returned component, are compared with the reference",
    technique="value numbering of results and of exception/assertion conditions over clang LLVM IR",
)
ITY = ["int", "unsigned", "size_t", "ll", "short", "unsigned char", "bool"]


def run(c):
    hs = []
    for tag, flags in (("asserts", []), ("no-asserts", NOASSERT)):
        p = []
        bad = lambda n, m: " || ".join("!((size_t)i%d < %d)" % (k, n) for k in range(m))
        for T in ("float", "int", "bool", "double"):
            for kind in KINDS:
                for n in (1, 2, 3, 4):
                    a = operand(kind, T, n)
                    for m in (1, 2, 3, 4):
                        for it in (ITY if m == 1 and kind in ("vec", "view") else [ITY[(n + m + len(kind) + KINDS.index(kind)) % 4]]):
                            idx = ", ".join("i%d" % k for k in range(m))
                            par = ", ".join("%s i%d" % (it, k) for k in range(m))
                            stop = "NEED(!(%s)); " % bad(n, m) if tag == "asserts" else "if (%s) throw std::out_of_range(\"\"); " % bad(n, m)
                            # sequence: index check, then the null check of the access itself
                            need = a.need if tag == "asserts" else ""
                            lanes = []
                            for k in range(m):
                                e = a.lane(0)
                                for j in range(1, n):
                                    e = "((size_t)i%d==%d ? %s : %s)" % (k, j, a.lane(j), e)
                                lanes.append(e)
                            O = T if m == 1 else vec(T, m)
                            p.append(Case("%s.%s%d.%d.%s" % (kind, T, n, m, it.replace(" ", "")), "%s* o, %s, %s" % (O, a.decl, par), "put<%s>(o, swizzle(%s, %s));" % (O, a.expr, idx),
                                          "%s* o, %s, %s" % (T, a.raw, par), stop + need + "".join("o[%d]=%s; " % (k, e) for k, e in enumerate(lanes))))
        # mixed index types, and the caller sees the exception
        p.append(Case("mixed", "vec3* o, const vec4& a, int i0, size_t i1, short i2", "*o = swizzle(a, i0, i1, i2);", "float* o, const float* a, int i0, size_t i1, short i2",
                      ("NEED(!(%s)); " if tag == "asserts" else "if (%s) throw std::out_of_range(\"\"); ") % bad(4, 3) + "o[0]=a[i0]; o[1]=a[i1]; o[2]=a[i2];"))
        if tag == "no-asserts":
            for bi in ("4", "-1", "size_t(-1)", "0x100000000ll"):
                p.append(Case("caught.%s" % bi, "vec4& a, int* r", "try { (void)swizzle(a, %s); *r=0; } catch (const std::out_of_range&) { *r=1; }" % bi, "float* a, int* r", "*r=1;"))
                p.append(Case("caught3.%s" % bi, "vec4& a, int* r", "try { (void)swizzle(a, 0, %s, 1); *r=0; } catch (const std::logic_error&) { *r=1; }" % bi, "float* a, int* r", "*r=1;"))
        ctl = [Case("control", "float* o, const vec3& a, int i0", "*o = swizzle(a, i0);", "float* o, const float* a, int i0", ("NEED((size_t)i0 < 4); " if tag == "asserts" else "if (!((size_t)i0 < 4)) throw std::out_of_range(\"\"); ") + "*o=a[i0];", expect="differs"),
               Case("control.kind", "float* o, const vec3& a, int i0", "*o = swizzle(a, i0);", "float* o, const float* a, int i0", "if (!((size_t)i0 < 3)) throw std::range_error(\"\"); *o=a[i0];", expect="differs")]
        hs.append(c.pairs("swizzle." + tag, p + ctl, flags=flags, minimum=300))
    m = []
    for C in (2, 3, 4):
        for R in (2, 3, 4):
            for T in FLOATS:
                for U in FLOATS:
                    M = "basic_matrix<%s,%d,%d>" % (T, C, R)
                    n = C * R
                    body = "".join("m[%d]=(%s)p[%d]; " % (i, T, i) for i in range(n))
                    zero = "for(int i=0;i<%d;i++) m[i]=0; " % n
                    m.append(Case("new.%s%dx%d.%s" % (T, C, R, U), "%s* m, const %s* p" % (M, U), "new (m) %s(p);" % M, "%s* m, const %s* p" % (T, U),
                                  "if (!p) throw std::invalid_argument(\"\"); " + body))
                    m.append(Case("caught.%s%dx%d.%s" % (T, C, R, U), "int* r", "try { %s m((const %s*)nullptr); *r=0; } catch (const std::invalid_argument&) { *r=1; }" % (M, U), "int* r", "*r=1;"))
                    m.append(Case("implicit.%s%dx%d.%s" % (T, C, R, U), "%s& m, const %s* p" % (M, U), "m = p;", "%s* m, const %s* p" % (T, U),
                                  "if (!p) throw std::invalid_argument(\"\"); %s t[%d]; for(int i=0;i<%d;i++) t[i]=(%s)p[i]; for(int i=0;i<%d;i++) m[i]=t[i];" % (T, n, n, T, n)))
    ctl = [Case("control", "mat2* m, const float* p", "new (m) mat2(p);", "float* m, const float* p", "m[0]=p[0]; m[1]=p[1]; m[2]=p[2]; m[3]=p[3];", expect="differs")]
    hs.append(c.pairs("matrix", m + ctl, flags=NOASSERT, minimum=100))
    hs.append(c.pairs("matrix.asserts", m[:24] + ctl, minimum=24))
    w = []
    for T in ("float", "bool"):
        for n in (1, 2, 3, 4):
            w.append(("types%d" % n, " && ".join("std::same_as<decltype(swizzle(std::declval<const %s&>()%s)), %s>" % (vec(T, n), ",0" * m, T if m == 1 else vec(T, m)) for m in (1, 2, 3, 4)), "result type"))
            w.append(("noexcept%d" % n, "!noexcept(swizzle(std::declval<const %s&>(),0)) && !noexcept(swizzle(std::declval<const %s&>(),0,0)) && !noexcept(swizzle(std::declval<const %s&>(),0,0,0,0))" % ((vec(T, n),) * 3), "not noexcept"))
            w.append(("count%d" % n, "!Swz<%s> && !Swz<%s,int,int,int,int,int> && Swz<%s,int,int,int,int> && !Swz<%s,const char*>" % ((vec(T, n),) * 4), "one to four indexes"))
    for C in (2, 3, 4):
        for R in (2, 3, 4):
            w.append(("mat%dx%d" % (C, R), "!std::is_nothrow_constructible_v<basic_matrix<float,{0},{1}>, const float*> && !std::is_constructible_v<basic_matrix<float,{0},{1}>, const int*> && std::is_convertible_v<const float*, basic_matrix<double,{0},{1}>>".format(C, R), "pointer constructor may throw, takes floating-point data only"))
    w.append(("control", "noexcept(swizzle(std::declval<const vec2&>(),0))", "", "false"))
    hw = c.witness("types", w, minimum=20, prelude="template <class V, class... A> concept Swz = requires(const V& v, A... a) { swizzle(v, a...); };\n")
    for h in hs:
        c.collect(h)
    c.collect_witness(hw)
