from fw import Case
from gen import *

META = dict(
    title="Assignments and scalar conversions convert each component, never silently narrow",
    statement="Assigning a vector, swizzle, view or view_vector of the same length to a vector, swizzle or view (also through a temporary view or view swizzle) stores every source component, converted to the destination's element type, in the matching logical position, changes nothing else and returns the destination. It is accepted only for writable destinations, equal lengths and non-boolean element types whose common type is the destination's. A one-component vector, swizzle or view also accepts such a scalar, converts to any scalar type as its component would; longer ones never do.",
    quant=("inputs", "all component values, element type pairs, operand forms on both sides and lengths"),
    why="A conversion through a narrower type or an accepted narrowing assignment corrupts only large or fractional values in one of hundreds of type and form combinations.",
    anchors=["include/dsga.hxx"],
    mech=[("assignment operators", "operator= of basic_vector, indexed_vector, indexed_view, basic_view; set()"), ("conversion operators", "operator T, explicit operator U of one-component classes"), ("constraint", "implicitly_convertible_to, promotes_to")],
    explanation="each assignment or conversion is lowered and the destination memory and returned address value-numbered against the per-component conversion; acceptance and implicitness decided by overload resolution",
    technique="value numbering of final memory over clang LLVM IR; overload-resolution witnesses",
)
LHS = ["vec", "swz", "view", "iview"]


def one(k, n):
    return "iview" if n == 1 and k == "vv" else k


def cases(c):
    full, deep = True, c.tier == "thorough"
    kl, kr = Rot(LHS), Rot(KINDS[1:] + ["vec"])
    for T in NUM:
        for U in NUM:
            if not implicit(U, T):
                continue
            for n in (1, 2, 3, 4):
                for l in (LHS if full or T == U else [kl(), kl()]):
                    for r in (KINDS if full else [kr(), kr()]):
                        if T == U and (l == one(r, n) or (l, r) == ("view", "vv")):
                            continue                # same type (or its base): A01, A06
                        a, b = operand(l, T, n, "a", mut=True), operand(one(r, n), U, n, "b")
                        body = a.need + b.need + "".join("%s t%d=(%s)%s; " % (T, i, T, b.lane(i)) for i in range(n)) + "".join("%s=t%d; " % (a.lane(i), i) for i in range(n))
                        yield Case("assign.%s.%s.%d.%s-%s" % (T, U, n, l, b.kind), "%s, %s" % (a.decl, b.decl), "return &(%s = %s);" % (a.expr, b.expr), "%s, %s" % (a.raw, b.raw), body + ("return (void*)&a;" if l in ("iview", "view") else "return (void*)a;"), ret="void*")
                for r in (KINDS if deep else [kr(), kr()]):
                    b = operand(one(r, n), U, n, "b")
                    body = "NEED(a); " + b.need + "".join("%s t%d=(%s)%s; " % (T, i, T, b.lane(i)) for i in range(n))
                    if not (T == U and b.kind in ("view", "iview", "vv")):
                        yield Case("temp.view.%s.%s.%d.%s" % (T, U, n, b.kind), "%s* a, %s" % (T, b.decl), "static_cast<basic_view<true,%s,%d>>(a) = %s;" % (T, n, b.expr), "%s* a, %s" % (T, b.raw), body + "".join("a[%d]=t%d; " % (i, i) for i in range(n)))
                        s, p = SWZ[n]
                        yield Case("temp.iview.%s.%s.%d.%s" % (T, U, n, b.kind), "%s* a, %s" % (T, b.decl), "basic_view<true,%s,%d>(a).%s = %s;" % (T, s, "".join(L[i] for i in p), b.expr), "%s* a, %s" % (T, b.raw), body + "".join("a[%d]=t%d; " % (p[i], i) for i in range(n)))
            for l in LHS:
                a = operand(l, T, 1, "a", mut=True)
                yield Case("scalar.%s.%s.%s" % (T, U, l), "%s, %s s" % (a.decl, U), "return &(%s = s);" % a.expr, "%s, %s s" % (a.raw, U), a.need + "%s=(%s)s; " % (a.lane(0), T) + ("return (void*)&a;" if l in ("iview", "view") else "return (void*)a;"), ret="void*")
            yield Case("scalar.temp.%s.%s" % (T, U), "%s* a, %s s" % (T, U), "static_cast<basic_view<true,%s,1>>(a) = s; basic_view<true,%s,3>(a).z = s;" % (T, T), "%s* a, %s s" % (T, U), "NEED(a); a[0]=(%s)s; a[2]=(%s)s;" % (T, T))
    for T in ALL:
        for k in ("vec", "swz", "view", "cview", "iview"):
            a = operand(k, T, 1)
            yield Case("to.%s.%s" % (T, k), a.decl, "return %s;" % a.expr, a.raw, a.need + "return %s;" % a.lane(0), ret=T)
            for U in ALL + ["short", "unsigned char", "long double"]:
                if U == "long double":
                    continue
                yield Case("cast.%s.%s.%s" % (T, U, k), a.decl, "return static_cast<%s>(%s);" % (U, a.expr), a.raw, a.need + "return (%s)%s;" % (U, a.lane(0)), ret=U)


PRE = "template <class A, class B> concept Set = requires(A& a, const B& b) { a = b; };\ntemplate <class A, class B> concept SetTemp = requires(const B& b) { std::declval<A>() = b; };\n"


def of(k, T, n):
    if k == "swz":
        s, p = SWZ[n]
        return "decltype(%s::%s)" % (vec(T, s), "".join(L[i] for i in p))
    if k == "iview":
        s, p = SWZ[n]
        return "decltype(basic_view<true,%s,%d>::%s)" % (T, s, "".join(L[i] for i in p))
    return {"vec": vec(T, n), "view": "basic_view<true,%s,%d>" % (T, n), "cview": "basic_view<false,%s,%d>" % (T, n), "vv": "view_vector<%s,%d>" % (T, n), "scalar": T}[k]


def accepts():
    no = lambda ok: "" if ok else "!"
    for T in ALL:
        for U in ALL:
            ts = []
            for n in (1, 2, 3, 4):
                for m in (1, 2, 3, 4):
                    for li, l in enumerate(LHS):
                        for ri, r in enumerate(("vec", "swz", "view", "cview", "iview") + (("vv",) if m > 1 else ())):
                            if n != m and (li + ri + n + m) % 3:
                                continue
                            A, B = of(l, T, n), of(r, U, m)
                            if T == U and n == m and (l == r or (l, r) == ("view", "vv")):
                                continue            # same type (or its base): A01, A06
                            ok = n == m and implicit(U, T)
                            # a one-component source is also a scalar, for one-component destinations
                            if l == "vec" and m > n and implicit(U, T) and (m >= n if n < 4 else m == 4):
                                ok = True           # through the implicit conversion of a longer vector (B05)
                            ts.append("%sSet<%s,%s>" % (no(ok), A, B))
                            if l in ("view", "iview"):
                                ts.append("%sSetTemp<%s,%s>" % (no(ok), A, B))
                            else:
                                ts.append("!SetTemp<%s,%s>" % (A, B) if l == "vec" else "true")
                for l in LHS:
                    if T != "bool" or U != "bool":
                        ts.append("%sSet<%s,%s>" % (no(n == 1 and implicit(U, T)), of(l, T, n), U))
                for l in ("cview",):
                    ts.append("!Set<%s,%s> && !Set<%s,%s>" % (of(l, T, n), vec(U, n), of(l, T, n), U))
                for k in ("vec", "swz", "view", "cview", "iview"):
                    ts.append("%sstd::is_convertible_v<const %s&,%s>" % (no(n == 1), of(k, T, n), U))
                    ts.append("%sstd::is_constructible_v<%s,const %s&>" % (no(n == 1), U, of(k, T, n)))
            yield ("accepts.%s<-%s" % (T, U), " && ".join(ts), "which assignments and conversions exist between %s and %s" % (T, U))


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.narrow", "dvec2& a, const llvec2& b", "a = b;", "double* a, const ll* b", "double p=(float)b[0],q=(float)b[1]; a[0]=p; a[1]=q;", expect="differs"),
           Case("control.position", "vec4& a, const vec2& b", "a.wy = b;", "float* a, const float* b", "float p=b[0],q=b[1]; a[1]=p; a[3]=q;", expect="differs"),
           Case("control.cast", "const vec2& a", "return static_cast<bool>(a.y);", "const float* a", "return (bool)(int)a[1];", ret="bool", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=600)
    hw = c.witness("accepts", list(accepts()) + [("control", "Set<ivec2,vec2>", "", "false")], prelude=PRE, minimum=64)
    c.collect(h)
    c.collect_witness(hw)
