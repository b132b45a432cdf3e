from fw import Case
from gen import *

META = dict(
    title="Vector constructors take their arguments' components in order, converted",
    statement="A vector or view_vector built from one scalar (or one-component vector) holds that value in every component; built from a longer vector or any mix of scalars, vectors, swizzles, views and matrices it holds their components in argument order (matrices column by column), each converted as by a C++ cast (to bool: x != 0). A list is accepted exactly when it supplies enough components and its last argument is needed. Only conversion from a vector that is long enough (exactly long enough for length 4), and whose element type converts implicitly, is implicit.",
    quant=("inputs", "all argument values, argument shapes, operand forms and element types of the vector constructors"),
    why="The number of argument shapes times element types is in the thousands; an off-by-one in the flattening, a wrong cast or a lost component is specific to one shape.",
    anchors=["include/dsga.hxx"],
    mech=[("constructors", "basic_vector<T,1..4> constructors, view_vector constructors"), ("flattening", "detail::to_tuple, flatten_args_to_tuple, component_match, valid_vector_component")],
    explanation="each constructor call is lowered and each stored component is value-numbered against the cast of the argument component that belongs there; acceptance and implicitness are decided by overload resolution",
    technique="value numbering per constructor instantiation over clang LLVM IR; overload-resolution witnesses",
)
PRE = r'''
template <class V, class... A> concept Made = requires(A&... a) { V(a...); };
'''


def seqs(n, maxlen=4):
    """argument-count sequences that are accepted for n components"""
    out = []

    def go(pre, tot):
        for k in (1, 2, 3, 4):
            s = pre + (k,)
            if tot + k >= n:
                out.append(s)
            elif len(s) < maxlen:
                go(s, tot + k)
    go((), 0)
    return [s for s in out if not (s == (1,) and n > 1)]


def mat(T, C, R, v):
    return Op("mat", T, C * R, v, "const basic_matrix<%s,%d,%d>& %s" % (T, C, R, v), v, "const %s* %s" % (T, v), lambda i: "%s[%d]" % (v, i))


def make(target, T, n, args, name):
    """target: vec or vv"""
    comps = [(a, i) for a in args for i in range(a.n)]
    if len(args) == 1 and args[0].n == 1:
        comps = [(args[0], 0)] * n
    ex = "(%s)" % ", ".join(a.expr for a in args)
    V = vec(T, n)
    if target == "vec":
        isig, impl = "%s* o" % V, "auto r = %s%s; static_assert(same_type_<%s, decltype(r)>::value); *o = r;" % (V, ex, V)
    else:
        VV = "view_vector<%s,%d>" % (T, n)
        isig, impl = "%s* o" % T, "const %s r%s; %s" % (VV, ex, "".join("o[%d]=r[%d]; " % (i, i) for i in range(n)))
    need = "".join(a.need for a in args)
    return Case(name, ", ".join([isig] + [a.decl for a in args]), impl, ", ".join(["%s* o" % T] + [a.raw for a in args]),
                need + "".join("%s t%d=(%s)%s; " % (T, i, T, a.lane(k)) for i, (a, k) in enumerate(comps[:n])) + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))


ONE = ["scalar", "vec", "swz", "view", "iview", "cview"]


def cases(c):
    full = c.tier == "thorough"
    one, knd, typ, tgt = Rot(ONE), Rot(KINDS), Rot(ALL), Rot(["vec", "vec", "vv"])
    rot = 0
    for T in ALL:
        for U in ALL:
            # broadcast
            for n in (1, 2, 3, 4):
                for k in (ONE if full or (T, U) in (("float", "int"), ("int", "float")) else (one(), one())):
                    yield make("vec", T, n, [operand(k, U, 1)], "bcast.%s%d.%s-%s" % (T, n, U, k))
                    if n > 1:
                        yield make("vv", T, n, [operand(k, U, 1)], "bcastvv.%s%d.%s-%s" % (T, n, U, k))
            rot += 1
            # one vector argument
            for n in (1, 2, 3, 4):
                for m in range(n, 5):
                    if m == 1:
                        continue
                    rot += 1
                    if not full and T != U and rot % 2:
                        continue
                    for k in (KINDS if full or T == U else (knd(),)):
                        yield make("vec", T, n, [operand(k, U, m)], "conv.%s%d.%s%d-%s" % (T, n, U, m, k))
                    if n > 1:
                        k = knd()
                        if k == "vv" and T == U and n == m:
                            continue        # the copy constructor
                        yield make("vv", T, n, [operand(k, U, m)], "convvv.%s%d.%s%d-%s" % (T, n, U, m, k))
    # flattened argument lists
    for n in (1, 2, 3, 4):
        for s in seqs(n):
            if len(s) < 2:
                continue
            for rep in range(6 if full else 3):
                T = typ()
                args, nm = [], []
                for j, k in enumerate(s):
                    kd, U = (one() if k == 1 else knd()), typ()
                    if k == 1 and kd == "scalar" and rep % 2 == 0:
                        kd = one()
                    args.append(operand(kd, U, k, "abcd"[j]))
                    nm.append("%s%d%s" % (U, k, kd))
                t = tgt()
                yield make(t if n > 1 else "vec", T, n, args, "flat.%s.%s%d.%s#%d" % (t, T, n, "+".join(nm), rep))
            typ()
        # all scalars
        for T in ALL:
            if n > 1:
                args = [operand("scalar", typ(), 1, "abcd"[j]) for j in range(n)]
                yield make("vec", T, n, args, "scal.%s%d.%s" % (T, n, ",".join(a.T for a in args)))
                yield make("vec", T, n, [operand("scalar", T, 1, "abcd"[j]) for j in range(n)], "scal.%s%d" % (T, n))
    # matrices among the arguments
    r = 0
    for C in (2, 3, 4):
        for R in (2, 3, 4):
            r += 1
            for n in (1, 2, 3, 4):
                r += 1
                T, U = ALL[r % 8], FLOATS[r % 2]
                yield make("vec", T, n, [mat(U, C, R, "m")], "mat.%s%d.%s%dx%d" % (T, n, U, C, R))
                if n > 1:
                    yield make("vec", T, n, [operand(one(), typ(), 1, "a"), mat(U, C, R, "m")], "matlast.%s%d.%s%dx%d" % (T, n, U, C, R))
                    yield make("vv", T, n, [mat(U, C, R, "m")], "matvv.%s%d.%s%dx%d" % (T, n, U, C, R))
                if n > 2:
                    yield make("vec", T, n, [operand(knd(), typ(), 2, "a"), mat(U, C, R, "m")], "matlast2.%s%d.%s%dx%d" % (T, n, U, C, R))


def of(k, T, n):
    if k == "swz":
        s, p = SWZ[n]
        return "decltype(%s::%s)" % (vec(T, s), "".join(L[i] for i in p))
    return {"vec": vec(T, n), "view": "basic_view<true,%s,%d>" % (T, n), "cview": "basic_view<false,%s,%d>" % (T, n),
            "vv": "view_vector<%s,%d>" % (T, n), "scalar": T}[k]


def accepts():
    kn = Rot(["vec", "swz", "view", "cview", "vv"])
    k1 = Rot(["vec", "swz", "scalar", "view", "scalar"])
    typ = Rot(ALL)
    import itertools
    for n in (1, 2, 3, 4):
        ok = set(seqs(n)) | {(1,)}
        for ln in (1, 2, 3, 4, 5):
            for i, s in enumerate(itertools.product((1, 2, 3, 4), repeat=ln)):
                if ln >= 4 and s not in ok and (i * 7) % 5:
                    continue
                if ln == 5 and sum(s) > 8:
                    continue
                ts = []
                for T in (typ(), typ()):
                    typ()
                    good = s in ok
                    a = ",".join(of(k1() if k == 1 else kn(), typ(), k) for k in s)
                    ts.append("%sMade<%s,%s>" % ("" if good else "!", vec(T, n), a))
                    if n > 1:
                        ts.append("%sMade<view_vector<%s,%d>,%s>" % ("" if good else "!", T, n, a))
                yield ("args%d.%s" % (n, "+".join(map(str, s))), " && ".join(ts), "a %d-component vector is constructible from arguments of %s components exactly when they fit" % (n, "+".join(map(str, s))))
    for T in ALL:
        for U in ALL:
            ts = []
            for n in (1, 2, 3, 4):
                V = vec(T, n)
                for m in (1, 2, 3, 4):
                    same = T == U and n == m
                    imp = implicit(U, T) and (m >= n if n < 4 else m == 4)
                    for k in ("vec", "swz", "view", "cview", "vv"):
                        if k == "vv" and m == 1:
                            continue
                        if (same and k == "vec"):
                            imp2 = True
                        else:
                            imp2 = imp
                        ts.append("%sstd::is_convertible_v<%s,%s>" % ("" if imp2 else "!", of(k, U, m), V))
                    if n > 1:
                        ts.append("!std::is_convertible_v<%s,view_vector<%s,%d>>" % (vec(U, m), T, n))
                ts.append("%sstd::is_convertible_v<%s,%s>" % ("" if n == 1 and implicit(U, T) else "!", U, V))
                ts.append("std::is_nothrow_constructible_v<%s,%s>" % (V, U))
            yield ("implicit.%s<-%s" % (T, U), " && ".join(ts), "which conversions are implicit")
    for T in ALL:
        for n in (2, 3, 4):
            V = vec(T, n)
            yield ("ctad.%s%d" % (T, n), " && ".join(["std::same_as<decltype(basic_vector(%s)),%s>" % (",".join(["%s{}" % T] + ["int{}"] * (n - 1)), V)] +
                   ["std::same_as<decltype(basic_vector(std::declval<const %s&>())),%s>" % (of(k, T, n), V) for k in ("vec", "swz", "view", "cview", "vv")] +
                   ["std::same_as<decltype(view_vector(%s)),view_vector<%s,%d>>" % (",".join(["%s{}" % T] + ["float{}"] * (n - 1)), T, n),
                    "std::is_nothrow_default_constructible_v<%s>" % V, "std::is_trivially_copyable_v<%s>" % V, "sizeof(%s)==%d*sizeof(%s)" % (V, n, T)]), "deduced type and layout")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.order", "vec3* o, const vec2& a, const float& b", "*o = vec3(a, b);", "float* o, const float* a, const float* b", "float x=a[0],y=a[1],z=*b; o[0]=z;o[1]=x;o[2]=y;", expect="differs"),
           Case("control.cast", "bvec2* o, const vec2& a", "*o = bvec2(a);", "bool* o, const float* a", "bool x=(bool)(int)a[0],y=(bool)(int)a[1]; o[0]=x; o[1]=y;", expect="differs"),
           Case("control.mat", "vec3* o, const mat2& a", "*o = vec3(a);", "float* o, const float* a", "float x=a[0],y=a[2],z=a[1]; o[0]=x;o[1]=y;o[2]=z;", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=900)
    hw = c.witness("accepts", list(accepts()) + [("control", "Made<vec2,vec3,float>", "", "false")], prelude=PRE, minimum=200)
    c.collect(h)
    c.collect_witness(hw)
