import itertools
from fw import Case
from gen import *

META = dict(
    title="Matrix constructors, conversions and assignment place every element",
    statement="A matrix built from scalars, vectors, swizzles and views takes their components in argument order, column by column, each cast to the element type; an argument list is accepted exactly when it supplies enough components and its last argument is needed, and never contains a matrix. One value makes a square matrix with that value on the diagonal and zeros elsewhere, and is refused otherwise. A matrix of another shape or element type gives the elements both shapes share, completed by ones on the diagonal of a square result and zeros elsewhere. Only float to double of the same shape converts and assigns implicitly; a value-initialised matrix is zero.",
    quant=("inputs", "all element values, argument shapes and operand forms, all 81 pairs of matrix shapes and both element types"),
    why="Shapes and argument lists number in the thousands; tests build a few square ones. A swapped index, a wrong minimum or a missing diagonal entry shows only in particular non-square pairs.",
    anchors=["include/dsga.hxx"],
    mech=[("constructors and assignment", "basic_matrix constructors, operator=, detail::flatten_args_to_tuple, valid_matrix_component, met_component_count, make_index_range")],
    explanation="each constructor or assignment is lowered and each stored element is value-numbered against the cast of the argument component that belongs there; acceptance and implicitness by overload resolution",
    technique="value numbering per constructor instantiation over clang LLVM IR; overload-resolution witnesses",
)
SHAPES = [(C, R) for C in (2, 3, 4) for R in (2, 3, 4)]
ONE = ["scalar", "vec", "swz", "view", "iview", "cview"]


def mt(T, C, R):
    return "basic_matrix<%s,%d,%d>" % (T, C, R)


def mop(T, C, R, v="m"):
    return Op("mat", T, C * R, v, "const %s& %s" % (mt(T, C, R), v), v, "const %s* %s" % (T, v), lambda i: "%s[%d]" % (v, i))


def case(name, M, T, args, ex, elems, need=""):
    """elements computed first, then stored"""
    return Case(name, ", ".join(["%s* o" % M] + [a.decl for a in args]), "auto r = %s; static_assert(same_type_<%s, decltype(r)>::value); *o = r;" % (ex, M), ", ".join(["%s* o" % T] + [a.raw for a in args]),
                "".join(a.need for a in args) + need + "".join("%s t%d=(%s)%s; " % (T, i, T, e) for i, e in enumerate(elems)) + "".join("o[%d]=t%d; " % (i, i) for i in range(len(elems))))


def comps(n, want, seed):
    """a deterministic selection of accepted argument shapes for n components"""
    out, x = [], seed
    while len(out) < want:
        s, tot = [], 0
        while tot < n:
            x = (x * 1103515245 + 12345) & 0x7fffffff
            k = (x >> 16) % 4 + 1
            s.append(k)
            tot += k
        if s not in out:
            out.append(s)
    return out


def cases(c):
    full = c.tier == "thorough"
    one, knd, typ = Rot(ONE), Rot(KINDS), Rot(ALL)
    for T in FLOATS:
        for C, R in SHAPES:
            n, M = C * R, mt(T, C, R)
            lists = [[R] * C, [1] * n] + comps(n, 40 if full else 14, C * 7 + R * 31 + len(T))
            for s in lists:
                args = [operand(one() if k == 1 else knd(), typ(), k, "a%d" % i) for i, k in enumerate(s)]
                typ()
                fl = [(a, i) for a in args for i in range(a.n)][:n]
                yield case("args.%s%dx%d.%s" % (T, C, R, "+".join(map(str, s))), M, T, args, "%s(%s)" % (M, ", ".join(a.expr for a in args)), [a.lane(i) for a, i in fl])
            # whole columns of each operand form
            for k in (KINDS if full else [knd(), knd(), knd()]):
                for U in (ALL if full else [typ(), typ(), typ()]):
                    args = [operand(k, U, R, "a%d" % i) for i in range(C)]
                    yield case("columns.%s%dx%d.%s.%s" % (T, C, R, U, k), M, T, args, "%s(%s)" % (M, ", ".join(a.expr for a in args)), [a.lane(i) for a in args for i in range(R)])
            if C == R:
                for U in ALL:
                    for k in (ONE if full else [one(), one(), one()]):
                        a = operand(k, U, 1)
                        yield case("diagonal.%s%d.%s.%s" % (T, C, U, k), M, T, [a], "%s(%s)" % (M, a.expr), [a.lane(0) if i % (C + 1) == 0 else "0" for i in range(n)])
            for U in FLOATS:
                for C2, R2 in SHAPES:
                    a = mop(U, C2, R2)
                    el = [a.lane(x * R2 + y) if x < C2 and y < R2 else "1" if C == R and x == y else "0" for x in range(C) for y in range(R)]
                    yield case("convert.%s%dx%d.%s%dx%d" % (T, C, R, U, C2, R2), M, T, [a], "%s(m)" % M, el)
                if implicit(U, T):
                    a = mop(U, C, R)
                    st = "".join("%s t%d=m[%d]; " % (T, i, i) for i in range(n)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n))
                    yield Case("assign.%s%dx%d.%s" % (T, C, R, U), "%s& o, const %s& m" % (M, mt(U, C, R)), "auto& r = (o = m); static_assert(same_type_<%s&, decltype((r))>::value); if (&r != &o) throw 1;" % M, "%s* o, const %s* m" % (T, U), st)
                    yield Case("implicit.%s%dx%d.%s" % (T, C, R, U), "%s* o, const %s& m" % (M, mt(U, C, R)), "auto f = [](const %s& x) { return x; }; *o = f(m);" % M, "%s* o, const %s* m" % (T, U), st)
            z = "".join("o[%d]=0; " % i for i in range(n))
            yield Case("zero.%s%dx%d" % (T, C, R), "%s* o" % M, "*o = %s{};" % M, "%s* o" % T, z)
            yield Case("zero2.%s%dx%d" % (T, C, R), "%s* o" % M, "new (o) %s();" % M, "%s* o" % T, z)


PRE = "template <class M, class... A> concept Made = requires(A&... a) { M(a...); };\ntemplate <class M, class A> concept Set = requires(M& m, A& a) { m = a; };\n"


def of(k, T, n):
    if k == "swz":
        s, p = SWZ[n]
        return "decltype(%s::%s)" % (vec(T, s), "".join(L[i] for i in p))
    return {"vec": vec(T, n), "view": "basic_view<true,%s,%d>" % (T, n), "cview": "basic_view<false,%s,%d>" % (T, n), "vv": "view_vector<%s,%d>" % (T, n), "scalar": T}[k]


def accepts():
    kn, k1, typ = Rot(["vec", "swz", "view", "cview", "vv"]), Rot(["vec", "swz", "scalar", "view", "scalar"]), Rot(ALL)
    for C, R in SHAPES:
        n, T = C * R, FLOATS[(C + R) % 2]
        M = mt(T, C, R)
        no = lambda ok: "" if ok else "!"
        for j, s in enumerate(comps(n, 12, C + 5 * R)):
            ty = lambda q: ",".join(of(k1() if k == 1 else kn(), typ(), k) for k in q)
            ts = ["Made<%s,%s>" % (M, ty(s)), "!Made<%s,%s>" % (M, ty(s[:-1])) if len(s) > 2 else "true", "!Made<%s,%s>" % (M, ty(s + [1 + j % 4])), "!std::is_convertible_v<%s,%s>" % (of("vec", T, s[0]), M)]
            yield ("args%dx%d.%s" % (C, R, "+".join(map(str, s))), " && ".join(ts), "a %dx%d matrix takes argument lists that supply %d components and need their last one" % (C, R, n))
        # no matrices, pointers to integers or other types in a list
        yield ("kinds%dx%d" % (C, R), " && ".join(["!Made<%s,mat2,%s>" % (M, ",".join(["float"] * (n - 4 + k))) for k in (0, 1) if n > 4 - k] +
               ["!Made<%s,%s,mat2>" % (M, ",".join(["float"] * max(1, n - 4)))] + ["!Made<%s,%s>" % (M, ",".join(["const char*"] * n)), "!Made<%s,const int*>" % M, "Made<%s,const float*>" % M]), "matrices and foreign types are not components")
        for T in FLOATS:
            M = mt(T, C, R)
            ts = ["%sMade<%s,%s>" % (no(C == R), M, of(k, U, 1)) for U in ALL for k in ("vec", "swz", "scalar", "view", "cview")]
            ts += ["!std::is_convertible_v<%s,%s> && !Set<%s,const %s>" % (U, M, M, U) for U in ALL]
            yield ("diagonal%dx%d.%s" % (C, R, T), " && ".join(ts), "one value makes square matrices only, explicitly")
            ts = []
            for U in FLOATS:
                for C2, R2 in SHAPES:
                    same, N = (C, R) == (C2, R2), mt(U, C2, R2)
                    ok = same and implicit(U, T)
                    ts += ["std::is_nothrow_constructible_v<%s,const %s&>" % (M, N), "%sstd::is_convertible_v<const %s&,%s>" % (no(ok), N, M), "%sSet<%s,const %s>" % (no(ok), M, N)]
            ts += ["!std::is_assignable_v<const %s&,const %s&>" % (M, M), "!std::is_assignable_v<%s,const %s&>" % (M, M)]
            yield ("implicit%dx%d.%s" % (C, R, T), " && ".join(ts), "every shape converts explicitly, only value-preserving element conversion of the same shape implicitly")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.transposed", "mat2x3* o, const vec4& a, const vec2& b", "*o = mat2x3(a, b);", "float* o, const float* a, const float* b", "float p=a[0],q=a[2],r=b[0],s=a[1],t=a[3],u=b[1]; o[0]=p;o[1]=q;o[2]=r;o[3]=s;o[4]=t;o[5]=u;", expect="differs"),
           Case("control.identity", "mat3* o, const mat2x3& a", "*o = mat3(a);", "float* o, const float* a", "float t[9]; for(int i=0;i<6;i++) t[i]=a[i]; t[6]=t[7]=t[8]=0; for(int i=0;i<9;i++) o[i]=t[i];", expect="differs"),
           Case("control.cast", "mat2* o, const dmat2& a", "*o = mat2(a);", "float* o, const double* a", "float t[4]; for(int i=0;i<4;i++) t[i]=(float)(long long)a[i]; for(int i=0;i<4;i++) o[i]=t[i];", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=500)
    hw = c.witness("accepts", list(accepts()) + [("control", "Made<mat2x3,float>", "", "false")], prelude=PRE, minimum=100)
    c.collect(h)
    c.collect_witness(hw)
