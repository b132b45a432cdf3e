from fw import Case
from gen import *

META = dict(
    title="Compound assignment updates each component in place and nothing else",
    statement="a op= b, for each of the ten operators, leaves in every component of a the C++ result of that component op the matching component of b (or the scalar or single component b) in a's element type, changes nothing but the components a designates, and returns a reference to a itself; b is read in full first, so this holds when b is a swizzle, view or component of a. It works alike on vectors, swizzles, views, swizzles of views and view_vectors, and compiles exactly for right operands whose element type converts implicitly to a's and whose length is a's or one.",
    quant=("inputs", "all component values, all documented element-type pairs, lengths and writable operand forms of the ten operators"),
    why="Writes through swizzles and views must permute reads and writes consistently and leave the other components alone; tests look at the written components of a few forms.",
    anchors=["include/dsga.hxx"],
    mech=[("compound operators", "operator += -= *= /= %= <<= >>= &= |= ^= (vector_base)"), ("lane machinery", "machinery::apply_unitype_modify, apply_multitype_modify"), ("set()", "indexed_vector, indexed_view, storage_wrapper, view_wrapper")],
    explanation="each instantiated compound operator is lowered to IR; every byte it writes through any pointer and the returned reference are value-numbered against the scalar assignments, symbolically in all inputs",
    technique="value numbering of stored bytes per instantiation over clang LLVM IR; overload-resolution witnesses",
)
NAMES = dict(zip(OPS, ("Add", "Sub", "Mul", "Div", "Mod", "Shl", "Shr", "And", "Or", "Xor")))
PRE = "".join("template <class A, class B> concept As%s = requires(A& a, const B& b) { a %s= b; };\n" % (NAMES[o], o) for o in OPS)
MUT = ["vec", "swz", "view", "iview", "vv"]


def ok(op, T, U):
    return arith_ok(op, T, U) and implicit(U, T)


def cases(c):
    ka, kb = Rot(MUT), Rot(KINDS[1:] + KINDS[:1] + ["view"])
    rot = 0
    for op in OPS:
        for T in NUM:
            for U in NUM:
                if not ok(op, T, U):
                    continue
                for form in ("v", "s", "1"):
                    for lhs in MUT if c.tier == "thorough" or T == U and T in ("int", "float") and form != "1" else [ka()]:
                        rot += 1
                        sizes = (1, 2, 3, 4)
                        for n in sizes:
                            if form == "1" and n == 1:
                                continue
                            a = operand(lhs, T, n, "a", mut=True)
                            b = operand("scalar" if form == "s" else kb(), U, 1 if form == "1" else n, "b")
                            A = [a.lane(i) for i in range(n)]
                            B = [b.lane(0 if b.n == 1 else i) for i in range(n)]
                            es = [lane_expr(op, T, U, x, y)[1] for x, y in zip(A, B)]
                            yield Case("%s%s.%s,%s.%s.%d" % (form, NAMES[op], T, U, a.kind + "-" + b.kind, n), "%s, %s, int* q" % (a.decl, b.decl),
                                       "auto&& r = (%s %s= %s); static_assert(same_type_<%s, decltype((%s %s= %s))>::value); *q = (void*)&r == (void*)&(%s);" % (a.expr, op, b.expr, self_t(a), a.expr, op, b.expr, a.expr),
                                       "%s, %s, int* q" % (a.raw, b.raw), a.need + b.need + nonzero(op, T, U, B) + "".join("%s t%d=%s; " % (T, i, e) for i, e in enumerate(es)) + "".join("%s=t%d; " % (A[i], i) for i in range(n)) + "*q=1;")


def aliased(c):
    """the right operand designates components of the left one"""
    for op in OPS:
        for T in NUM:
            if not ok(op, T, T):
                continue
            for n in (2, 3, 4):
                allof = "xyzw"[:n]
                rev, rot = allof[::-1], allof[1:] + allof[0]
                ix = lambda s: ["xyzw".index(k) for k in s]
                forms = [(allof, rev), (allof, rot), (rev, allof), (rot, rev), (allof, allof[:1] * n), (rev, rev), (allof, allof[-1]), (rev, "#1"), (allof, "#0"), (rot, allof[0])]
                if n > 2:
                    forms += [("zx", "xz"), ("xy", "yz"), ("yx", "#1"), ("yz", "yx")]
                for m, (l, r) in enumerate(forms):
                    for st in ("vec", "view") if T in ("int", "float") else (("vec", "view")[m % 2],):
                        d = ("%s& a" % vec(T, n), "%s* a" % T, "") if st == "vec" else ("basic_view<true,%s,%d>& a" % (T, n), "%s* const& a" % T, "NEED(a); ")
                        le = "a" if l == allof else "a." + l
                        re_ = "a" if r == allof else "a[%s]" % r[1:] if r[0] == "#" else "a." + r
                        R = [int(r[1:])] if r[0] == "#" else ix(r)
                        R = R * len(l) if len(R) == 1 else R
                        X = ix(l)
                        if op == ">>" and any(x == y for x, y in zip(X, R)):
                            continue        # x >> x is 0 or undefined; the compilers use that
                        es = [lane_expr(op, T, T, "a[%d]" % x, "a[%d]" % y)[1] for x, y in zip(X, R)]
                        yield Case("alias%s.%s.%s%d.%s,%s" % (NAMES[op], T, st, n, l, r), d[0], "%s %s= %s;" % (le, op, re_), d[1],
                                   d[2] + nonzero(op, T, T, ["a[%d]" % y for y in R]) + "".join("%s t%d=%s; " % (T, i, e) for i, e in enumerate(es)) + "".join("a[%d]=t%d; " % (x, i) for i, x in enumerate(X)))


def accepts(full):
    for op in OPS:
        for i, T in enumerate(ALL):
            for j, U in enumerate(ALL):
                if not full and (ok(op, T, U) or "bool" in (T, U)) and (i + j + OPS.index(op)) % 3 and (T, U) not in (("int", "float"), ("float", "int"), ("int", "ll"), ("bool", "bool"), ("double", "float")):
                    continue
                s = "" if ok(op, T, U) else "!"
                v, N = vec, NAMES[op]
                ts = []
                for n in (2, 4) + ((1,) if not s else ()):
                    ts += ["%sAs%s<%s,%s>" % (s, N, v(T, n), v(U, n)), "%sAs%s<%s,%s>" % (s, N, v(T, n), U), "%sAs%s<decltype((std::declval<%s&>().yx)),%s>" % (s, N, v(T, 2), v(U, 2))]
                ts += ["%sAs%s<%s,%s>" % (s, N, v(T, 3), v(U, 1)), "!As%s<%s,%s>" % (N, v(T, 2), v(U, 3)), "!As%s<%s,%s>" % (N, v(T, 3), v(U, 2)), "!As%s<const %s,%s>" % (N, v(T, 2), v(U, 2)),
                       "%sAs%s<view_vector<%s,3>,basic_view<false,%s,3>>" % (s, N, T, U), "!As%s<basic_view<false,%s,3>,%s>" % (N, T, v(U, 3))]
                yield ("%s.%s,%s" % (N, T, U), " && ".join(ts), "exactly the documented right operands are accepted")


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.order", "vec3& a, const vec3& b", "a -= b;", "float* a, const float* b", "".join("a[%d]=b[%d]-a[%d]; " % (i, i, i) for i in range(3)), expect="differs"),
           Case("control.extra", "vec3& a, const vec2& b", "a.zx *= b;", "float* a, const float* b", "a[2]*=b[0]; a[0]*=b[1]; a[1]=0;", expect="differs"),
           Case("control.lane", "vec3& a, const vec2& b", "a.zx *= b;", "float* a, const float* b", "a[0]*=b[0]; a[2]*=b[1];", expect="differs"),
           Case("control.trunc", "dvec2& a, const vec2& b", "a += b;", "double* a, const float* b", "a[0]=(float)a[0]+b[0]; a[1]=(float)a[1]+b[1];", expect="differs")]
    h = c.pairs("in-place", cs + ctl, minimum=400)
    hw = c.witness("accepts", list(accepts(True)) + [("control", "AsAdd<vec2,dvec2>", "", "false")], prelude=PRE, minimum=200)
    h2 = c.pairs("operand-is-target", sorted(aliased(c), key=lambda k: k.name.split(".")[1]) + ctl, minimum=300)
    c.collect(h)
    c.collect(h2)
    c.collect_witness(hw)
