from fw import Case
from gen import *
from checks.c01 import SHAPES, mt, mop

META = dict(
    title="std::array, C array and structured-binding interchange keeps every component",
    statement="to_vector makes the vector holding exactly the elements of a std::array or C array of one to four scalars, to_array the array holding the logical components of any vector, swizzle, view or view_vector, or the elements of a matrix column by column; to_matrix<C,R> takes the first C*R elements column by column and refuses shorter arrays. Round trips are the identity for every bit pattern. tuple_size, tuple_element and get agree with the logical components (columns for a matrix), so structured bindings on a reference designate those components themselves and get beyond the end does not compile.",
    quant=("inputs", "all element values, array lengths, matrix shapes, element types and operand forms"),
    why="Swizzles and views make logical and stored order differ; an exchange in one overload or shape is invisible in the shapes tests use.",
    anchors=["include/dsga.hxx"],
    mech=[("array conversions", "to_vector, to_array, to_matrix"), ("tuple protocol", "std::tuple_size, std::tuple_element specialisations, get<N>")],
    explanation="each conversion is lowered and every stored element value-numbered against the element it must come from; structured bindings are decided as addresses; the protocol's types by compile-time witnesses",
    technique="value numbering and address provenance over clang LLVM IR; type-level witnesses",
)


def st(T, es):
    return "".join("%s t%d=%s; " % (T, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(len(es)))


def cases(c):
    full = c.tier == "thorough"
    for T in ALL:
        for n in (1, 2, 3, 4):
            A = "std::array<%s,%d>" % (T, n)
            el = ["a[%d]" % i for i in range(n)]
            yield Case("from.%s.%d.array" % (T, n), "%s* o, const %s& a" % (vec(T, n), A), "put<%s>(o, to_vector(a));" % vec(T, n), "%s* o, const %s* a" % (T, T), st(T, el))
            yield Case("from.%s.%d.c" % (T, n), "%s* o, const %s (&a)[%d]" % (vec(T, n), T, n), "put<%s>(o, to_vector(a));" % vec(T, n), "%s* o, const %s* a" % (T, T), st(T, el))
            for k in KINDS:
                if n == 1 and k == "vv":
                    continue
                a = operand(k, T, n)
                yield Case("to.%s.%d.%s" % (T, n, k), "%s* o, %s" % (A, a.decl), "put<%s>(o, to_array(%s));" % (A, a.expr), "%s* o, %s" % (T, a.raw), a.need + st(T, [a.lane(i) for i in range(n)]))
                if n > 1:
                    nm = ["p", "q", "r", "s"][:n]
                    m = operand(k, T, n, mut=(k != "cview"))
                    w = ("const " if k == "cview" else "") + T
                    yield Case("bind.%s.%d.%s" % (T, n, k), "const void** o, %s" % m.decl, "auto& [%s] = %s; %s" % (",".join(nm), m.expr, "".join("o[%d]=&%s; " % (i, x) for i, x in enumerate(nm))),
                               "const void** o, %s" % m.raw, m.need + "".join("o[%d]=&%s; " % (i, m.lane(i)) for i in range(n)))
            yield Case("round.%s.%d" % (T, n), "%s* o, const %s& a" % (A, A), "*o = to_array(to_vector(a));", "%s* o, const %s* a" % (T, T), st(T, el))
            nm = ["p", "q", "r", "s"][:n]
            yield Case("bindcopy.%s.%d" % (T, n), "%s* o, const %s& a" % (T, vec(T, n)), "auto [%s] = a; %s" % (",".join(nm), "".join("%s z%d=%s; " % (T, i, x) for i, x in enumerate(nm)) + "".join("o[%d]=z%d; " % (i, i) for i in range(n))), "%s* o, const %s* a" % (T, T), st(T, el))
    for T in FLOATS:
        for C, R in SHAPES:
            n, M = C * R, mt(T, C, R)
            for S in (n, n + 1, n + 5):
                el = ["a[%d]" % i for i in range(n)]
                yield Case("matrix.%s.%dx%d.array%d" % (T, C, R, S), "%s* o, const std::array<%s,%d>& a" % (M, T, S), "put<%s>(o, (to_matrix<%d,%d>(a)));" % (M, C, R), "%s* o, const %s* a" % (T, T), st(T, el))
                yield Case("matrix.%s.%dx%d.c%d" % (T, C, R, S), "%s* o, const %s (&a)[%d]" % (M, T, S), "put<%s>(o, (to_matrix<%d,%d>(a)));" % (M, C, R), "%s* o, const %s* a" % (T, T), st(T, el))
            A = "std::array<%s,%d>" % (T, n)
            yield Case("to.%s.%dx%d" % (T, C, R), "%s* o, const %s& a" % (A, M), "put<%s>(o, to_array(a));" % A, "%s* o, const %s* a" % (T, T), st(T, ["a[%d]" % i for i in range(n)]))
            nm = ["p", "q", "r", "s"][:C]
            for cv in ("", "const "):
                yield Case("bind.%s.%dx%d%s" % (T, C, R, cv.strip()), "const void** o, %s%s& a" % (cv, M), "auto& [%s] = a; %s" % (",".join(nm), "".join("o[%d]=&%s; " % (i, x) for i, x in enumerate(nm))), "const void** o, %s%s* a" % (cv, T), "".join("o[%d]=&a[%d]; " % (i, i * R) for i in range(C)))


PRE = "template <class A> concept ToV = requires(const A& a) { to_vector(a); };\ntemplate <class A> concept ToA = requires(const A& a) { to_array(a); };\n" + \
      "template <int N, class A> concept Get = requires(A& a) { get<N>(a); };\ntemplate <std::size_t C, std::size_t R, class A> concept ToM = requires(const A& a) { to_matrix<C, R>(a); };\n"


def accepts():
    no = lambda ok: "" if ok else "!"
    for T in ALL:
        for n in (1, 2, 3, 4):
            ts = []
            nm = "xyzw"
            forms = [vec(T, n), "basic_view<true,%s,%d>" % (T, n), "basic_view<false,%s,%d>" % (T, n), "view_vector<%s,%d>" % (T, n)]
            for s in (2, 3, 4):
                forms += ["std::remove_cvref_t<decltype(std::declval<%s&>().%s)>" % (o, "yxwz"[:n] if s >= n and n in (2, 4) else "zyx"[:n] if n == 3 and s > 2 else "yyyy"[:n]) for o in (vec(T, s), "basic_view<true,%s,%d>" % (T, s)) if not (n == 4 and s < 4)]
            for V in forms:
                ts += ["std::tuple_size_v<{0}> == {1} && std::tuple_size_v<const {0}> == {1}".format(V, n)]
                ts += ["std::same_as<std::tuple_element_t<{1},{0}>,{2}> && std::same_as<std::tuple_element_t<{1},const {0}>,const {2}>".format(V, i, T) for i in range(n)]
                ts += ["Get<%d,const %s>" % (i, V) for i in range(n)] + ["!Get<%d,%s> && !Get<-1,%s>" % (n, V, V)]
            yield ("tuple.%s%d" % (T, n), " && ".join(ts), "tuple protocol of %d-component vectors of %s" % (n, T))
        yield ("arrays.%s" % T, " && ".join("%sToV<std::array<%s,%d>>" % (no(0 < n < 5), T, n) for n in (0, 1, 2, 3, 4, 5)) + " && !ToV<%s[5]> && ToV<%s[1]> && !ToA<%s>" % (T, T, T), "to_vector takes one to four elements")
    for C, R in SHAPES:
        ts = []
        for T in FLOATS:
            M = mt(T, C, R)
            ts += ["std::tuple_size_v<{0}> == {1} && std::same_as<std::tuple_element_t<0,{0}>,{2}> && std::same_as<std::tuple_element_t<{3},{0}>,{2}> && !Get<{1},{0}> && !Get<-1,{0}>".format(M, C, vec(T, R), C - 1)]
            ts += ["%sToM<%d,%d,std::array<%s,%d>> && %sToM<%d,%d,%s[%d]>" % (no(S >= C * R), C, R, T, S, no(S >= C * R), C, R, T, S) for S in (1, C * R - 1, C * R, C * R + 1, 20)]
        ts += ["!ToM<%d,%d,std::array<int,16>>" % (C, R)]
        yield ("matrix.%dx%d" % (C, R), " && ".join(ts), "tuple protocol and array conversion of %dx%d matrices" % (C, R))
    yield ("shape", "!ToM<1,2,std::array<float,16>> && !ToM<2,5,std::array<float,16>> && !ToM<5,2,std::array<float,16>>", "only matrix shapes from 2x2 to 4x4")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.order", "std::array<float,2>* o, const vec3& a", "*o = to_array(a.zx);", "float* o, const float* a", "float p=a[0],q=a[2]; o[0]=p; o[1]=q;", expect="differs"),
           Case("control.matrix", "mat2* o, const std::array<float,4>& a", "*o = to_matrix<2,2>(a);", "float* o, const float* a", "float t[4]; for(int i=0;i<4;i++) t[i]=a[i]; o[0]=t[0];o[1]=t[2];o[2]=t[1];o[3]=t[3];", expect="differs"),
           Case("control.bind", "const void** o, const vec3& a", "auto& [p,q] = a.zx; o[0]=&p; o[1]=&q;", "const void** o, const float* a", "o[0]=&a[2]; o[1]=&a[1];", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=350)
    hw = c.witness("accepts", list(accepts()) + [("control", "ToV<std::array<int,5>>", "", "false")], prelude=PRE, minimum=45)
    c.collect(h)
    c.collect_witness(hw)
