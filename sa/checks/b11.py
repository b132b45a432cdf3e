from fw import Case
from gen import *

META = dict(
    title="Common functions: rounding, sign, selection, interpolation, classification",
    statement="Position by position: abs clears the sign (asserting an integer is not the most negative), sign gives -1, 0 or 1; floor, trunc, round and ceil agree with the standard library; mod is x - y*floor(x/y), modf splits into trunc(x) and the rest; min and max return an operand that bounds both, clamp the value limited to [min, max] (asserting min <= max); mix interpolates with std::lerp or selects by a boolean; step is 0 below the edge, else 1; smoothstep is t*t*(3-2t) of the clamped ratio (asserting edge0 < edge1); isnan and isinf classify. A scalar in place of a vector acts at every position, and scalar overloads agree.",
    quant=("inputs", "all component values including infinities, NaN, signed zeros and extreme integers; element types, lengths and operand forms; every position of an out-of-domain component"),
    why="Signed zeros, infinities, unordered values, equal bounds and a single out-of-domain component decide these results, at one position of one operand form at a time.",
    anchors=["include/dsga.hxx"],
    mech=[("common functions", "functions::abs … isinf"), ("scalar kernels", "cxcm::abs, floor, trunc, ceil, round, fract, isnan, isinf")],
    explanation="each function instance is lowered and each component and assertion condition value-numbered against the documented formula; min and max are decided by their defining relation",
    technique="value numbering of floating-point terms and comparison decision diagrams over clang LLVM IR; overload-resolution witnesses",
)


def store(T, n, es):
    return "".join("%s t%d=%s; " % (T, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n))


def out(T, n):
    return T if n == 1 else vec(T, n)


MIN = {"int": "(-2147483647-1)", "ll": "(-9223372036854775807LL-1)"}


def unary(T):
    if T in FLOATS:
        yield "abs", T, "std::fabs({0})", ""
        yield "sign", T, "(({0} > 0) ? (%s)1 : ({0} < 0) ? (%s)-1 : (%s)0)" % (T, T, T), ""
        for f in ("floor", "trunc", "round", "ceil"):
            yield f, T, "std::%s({0})" % f, ""
        for f in ("roundEven", "fract"):
            yield f, T, "functions::%s((%s){0})" % (f, T), ""
        yield "isnan", "bool", "({0} != {0})", ""
        yield "isinf", "bool", "(std::fabs({0}) == std::numeric_limits<%s>::infinity())" % T, ""
    elif T in MIN:
        yield "abs", T, "(({0} < 0) ? -{0} : {0})", "NEED({0} != %s); " % MIN[T]
        yield "sign", T, "(({0} > 0) ? (%s)1 : ({0} < 0) ? (%s)-1 : (%s)0)" % (T, T, T), ""


def cases(c):
    full, deep = True, c.tier == "thorough"
    ka, kb, kc = Rot(KINDS), Rot(KINDS[2:] + KINDS[:2] + ["vec"]), Rot(KINDS[4:] + ["swz", "vec"])
    sc = {"roundEven", "fract"}
    for T in NUM:
        for f, R, e, pre in unary(T):
            for n in (1, 2, 3, 4):
                for k in (KINDS if full else [ka() for _ in range(2 if n > 1 else 1)]):
                    k = "iview" if n == 1 and k == "vv" else k
                    a = operand(k, T, n)
                    ls = [a.lane(i) for i in range(n)]
                    O = out(R, n)
                    yield Case("%s.%s.%d.%s" % (f, T, n, k), "%s* o, %s" % (O, a.decl), "put<%s>(o, functions::%s(%s));" % (O, f, a.expr), "%s* o, %s" % (R, a.raw), a.need + "".join(pre.format(x) for x in ls) + store(R, n, [e.format(x) for x in ls]), anynan=True)
            if f not in sc:
                yield Case("%s.%s.scalar" % (f, T), "%s* o, %s a" % (R, T), "put<%s>(o, functions::%s(a));" % (R, f), "%s* o, %s a" % (R, T), pre.format("a") + "*o = %s;" % e.format("a"), anynan=True)
        # min / max: the defining relation, for comparable operands
        for f, op in (("min", "<="), ("max", ">=")):
            for n in (1, 2, 3, 4):
                for kinds in ([(ka(), kb()) for _ in range(16 if deep else 4)] + ([(ka(), "scalar")] if n > 1 else [])):
                    a, b = operand("swz" if n == 1 else kinds[0], T, n, "a"), operand("cview" if n == 1 else kinds[1], T, n, "b")
                    g = lambda p, i: "(%s)[%d]" % (p.expr, i) if p.kind != "scalar" else p.expr
                    r = "r[%d]" if n > 1 else "r"
                    rel = "".join("o[%d] = (%s %s %s) & (%s %s %s) & ((%s == %s) | (%s == %s)); " % (i, R, op, g(a, i), R, op, g(b, i), R, g(a, i), R, g(b, i)) for i in range(n) for R in [r % i if n > 1 else r])
                    yield Case("%s.%s.%d.%s-%s" % (f, T, n, a.kind, b.kind), "bool* o, %s, %s" % (a.decl, b.decl), "auto r = functions::%s(%s, %s); static_assert(same_type_<%s, decltype(r)>::value); %s" % (f, a.expr, b.expr, out(T, n), rel), "bool* o, %s, %s" % (a.raw, b.raw), a.need + b.need + "".join("o[%d] = true; " % i for i in range(n)), nonan=True)
            yield Case("%s.%s.scalar" % (f, T), "bool* o, %s a, %s b" % (T, T), "auto r = functions::%s(a, b); static_assert(same_type_<%s, decltype(r)>::value); *o = (r %s a) & (r %s b) & ((r == a) | (r == b));" % (f, T, op, op), "bool* o, %s a, %s b" % (T, T), "*o = true;", nonan=True)
        # clamp: the defining relation, for comparable operands
        cl = lambda r, x, lo, hi: "(%s == (%s < %s ? %s : %s < %s ? %s : %s))" % (r, x, lo, lo, hi, x, hi, x)
        g = lambda p, i: "(%s)[%d]" % (p.expr, i) if p.kind != "scalar" else p.expr
        for n in (1, 2, 3, 4):
            for form in (["vvv"] * (3 if full else 1) + (["vss"] if n > 1 else [])):
                a = operand(ka() if n > 1 else "iview", T, n, "a")
                b, d = (operand(kb() if n > 1 else "cview", T, n, "b"), operand(kc() if n > 1 else "swz", T, n, "d")) if form == "vvv" else (operand("scalar", T, n, "b"), operand("scalar", T, n, "d"))
                pre = a.need + b.need + d.need + "".join("NEED(%s <= %s); " % x for x in dict.fromkeys((b.lane(i), d.lane(i)) for i in range(n)))
                rel = "".join("o[%d] = %s; " % (i, cl("r[%d]" % i if n > 1 else "r", g(a, i), g(b, i), g(d, i))) for i in range(n))
                yield Case("clamp.%s.%d.%s-%s" % (T, n, a.kind, form), "bool* o, %s, %s, %s" % (a.decl, b.decl, d.decl), "auto r = functions::clamp(%s, %s, %s); static_assert(same_type_<%s, decltype(r)>::value); %s" % (a.expr, b.expr, d.expr, out(T, n), rel), "bool* o, %s, %s, %s" % (a.raw, b.raw, d.raw),
                           pre + "".join("o[%d] = true; " % i for i in range(n)), nonan=True)
        yield Case("clamp.%s.scalar" % T, "bool* o, %s a, %s b, %s d" % (T, T, T), "auto r = functions::clamp(a, b, d); static_assert(same_type_<%s, decltype(r)>::value); *o = %s;" % (T, cl("r", "a", "b", "d")), "bool* o, %s a, %s b, %s d" % (T, T, T), "NEED(b <= d); *o = true;", nonan=True)
    for T in FLOATS:
        tern = [("mix", "vvv", "std::lerp({0}, {1}, {2})", ""), ("mix", "vvs", "std::lerp({0}, {1}, {2})", "")]
        ss = "({0} - ({0} - {0}))"
        q = "(({2} - {0}) / ({1} - {0}))"
        t = "((%s < 0) ? (%s)0 : ((%s)1 < %s) ? (%s)1 : %s)" % (q, T, T, q, T, q)
        sm = "(%s * %s * (%s(3) - %s(2) * %s))" % (t, t, T, T, t)
        tern += [("smoothstep", "vvv", sm, "NEED({0} < {1}); "), ("smoothstep", "ssv", sm, "NEED({0} < {1}); ")]
        for f, form, e, pre in tern:
            for n in (1, 2, 3, 4):
                if n == 1 and "s" in form:
                    continue
                for _ in range(12 if deep else 3):
                    ks = [(k() if x == "v" else "scalar") for k, x in zip((ka, kb, kc), form)]
                    if n == 1:
                        ks = ["iview", "vec", "swz"]
                    ps = [operand(k, T, n, v) for k, v in zip(ks, "abd")]
                    ls = [[p.lane(i) for p in ps] for i in range(n)]
                    yield Case("%s.%s.%d.%s" % (f, T, n, "-".join(ks)), "%s* o, %s" % (out(T, n), ", ".join(p.decl for p in ps)), "put<%s>(o, functions::%s(%s));" % (out(T, n), f, ", ".join(p.expr for p in ps)), "%s* o, %s" % (T, ", ".join(p.raw for p in ps)),
                               "".join(p.need for p in ps) + "".join(dict.fromkeys(pre.format(*l) for l in ls)) + store(T, n, [e.format(*l) for l in ls]))
            if "s" not in form:
                yield Case("%s.%s.scalar" % (f, T), "%s* o, %s a, %s b, %s d" % (T, T, T, T), "put<%s>(o, functions::%s(a, b, d));" % (T, f), "%s* o, %s a, %s b, %s d" % (T, T, T, T), pre.format("a", "b", "d") + "*o = %s;" % e.format("a", "b", "d"))
        two = [("mod", "vv", "({0} - {1} * std::floor({0} / {1}))"), ("mod", "vs", "({0} - {1} * std::floor({0} / {1}))"), ("step", "vv", "(({1} < {0}) ? (%s)0 : (%s)1)" % (T, T)), ("step", "sv", "(({1} < {0}) ? (%s)0 : (%s)1)" % (T, T))]
        for f, form, e in two:
            for n in (1, 2, 3, 4):
                if n == 1 and "s" in form:
                    continue
                for _ in range(16 if deep else 4):
                    ks = [(k() if x == "v" else "scalar") for k, x in zip((ka, kb), form)]
                    if n == 1:
                        ks = ["cview", "swz"]
                    ps = [operand(k, T, n, v) for k, v in zip(ks, "ab")]
                    ls = [[p.lane(i) for p in ps] for i in range(n)]
                    yield Case("%s.%s.%d.%s" % (f, T, n, "-".join(ks)), "%s* o, %s" % (out(T, n), ", ".join(p.decl for p in ps)), "put<%s>(o, functions::%s(%s));" % (out(T, n), f, ", ".join(p.expr for p in ps)), "%s* o, %s" % (T, ", ".join(p.raw for p in ps)),
                               "".join(p.need for p in ps) + store(T, n, [e.format(*l) for l in ls]))
            if "s" not in form:
                yield Case("%s.%s.scalar" % (f, T), "%s* o, %s a, %s b" % (T, T, T), "put<%s>(o, functions::%s(a, b));" % (T, f), "%s* o, %s a, %s b" % (T, T, T), "*o = %s;" % e.format("a", "b"))
        # modf: fraction and integral part
        for n in (2, 3, 4):
            for k in ("vec", "swz", "view", "iview", "vv"):
                a, i = operand(ka(), T, n, "a"), operand(k, T, n, "i", mut=True)
                O = vec(T, n)
                ls = [a.lane(j) for j in range(n)]
                yield Case("modf.%s.%d.%s-%s" % (T, n, a.kind, k), "%s* o, %s, %s" % (O, a.decl, i.decl), "put<%s>(o, functions::modf(%s, %s));" % (O, a.expr, i.expr), "%s* o, %s, %s" % (T, a.raw, i.raw),
                           a.need + "".join("%s w%d=std::trunc(%s); %s f%d=%s-w%d; " % (T, j, x, T, j, x, j) for j, x in enumerate(ls)) + i.need + "".join("%s=w%d; " % (i.lane(j), j) for j in range(n)) + "".join("o[%d]=f%d; " % (j, j) for j in range(n)))
        yield Case("modf.%s.scalar" % T, "%s* o, %s a, %s* i" % (T, T, T), "put<%s>(o, functions::modf(a, *i));" % T, "%s* o, %s a, %s* i" % (T, T, T), "%s w=std::trunc(a); *i=w; *o=a-w;" % T)
        # no fraction beyond the precision of the type; zeros, NaN and fractions follow x - floor(x)
        big = "8388608.0f" if T == "float" else "4503599627370496.0"
        yield Case("fract.%s.large" % T, "%s* o, %s a" % (T, T), "if (std::fabs(a) >= %s && std::fabs(a) <= std::numeric_limits<%s>::max()) *o = functions::fract(a);" % (big, T), "%s* o, %s a" % (T, T), "if (std::fabs(a) >= %s && std::fabs(a) <= std::numeric_limits<%s>::max()) *o = 0;" % (big, T))
    # selection by a boolean
    for T in ALL:
        for n in (1, 2, 3, 4):
            for _ in range(16 if deep else 4):
                ks = ["view", "swz", "iview"] if n == 1 else [ka(), kb(), kc()]
                ps = [operand(ks[0], T, n, "a"), operand(ks[1], T, n, "b"), operand(ks[2], "bool", n, "d")]
                yield Case("mix.%s.%d.%s.bool" % (T, n, "-".join(ks)), "%s* o, %s" % (out(T, n), ", ".join(p.decl for p in ps)), "put<%s>(o, functions::mix(%s));" % (out(T, n), ", ".join(p.expr for p in ps)), "%s* o, %s" % (T, ", ".join(p.raw for p in ps)),
                           "".join(p.need for p in ps) + store(T, n, ["%s ? %s : %s" % (ps[2].lane(i), ps[1].lane(i), ps[0].lane(i)) for i in range(n)]))
        yield Case("mix.%s.scalar.bool" % T, "%s* o, const %s& a, const %s& b, const bool& d" % (T, T, T), "put<%s>(o, functions::mix(a, b, d));" % T, "%s* o, const %s* a, const %s* b, const bool* d" % (T, T, T), "*o = *d ? *b : *a;")


UN = ["abs", "sign", "floor", "trunc", "round", "ceil", "roundEven", "fract", "isnan", "isinf"]
BIN = ["mod", "modf", "min", "max", "step"]
TER = ["clamp", "mix", "smoothstep"]
PRE = "".join("template <class A> concept U_%s = requires(const A& a) { functions::%s(a); };\n" % (f, f) for f in UN) + \
      "".join("template <class A, class B> concept C_%s = requires(const A& a, B& b) { functions::%s(a, b); };\n" % (f, f) for f in BIN) + \
      "".join("template <class A, class B, class D> concept T_%s = requires(const A& a, const B& b, const D& d) { functions::%s(a, b, d); };\n" % (f, f) for f in TER)


def accepts():
    no = lambda ok: "" if ok else "!"
    for f in UN:
        okT = (lambda T: T in FLOATS + ["int", "ll"]) if f in ("abs", "sign") else (lambda T: T in FLOATS)
        yield (f, " && ".join("%sU_%s<%s>" % (no(okT(T)), f, vec(T, n)) for T in ALL for n in (2, 3, 4)), "operands accepted by %s" % f)
    for f in BIN:
        okT = (lambda T: T != "bool") if f in ("min", "max") else (lambda T: T in FLOATS)
        ts = ["%sC_%s<%s,%s>" % (no(okT(T)), f, vec(T, n), vec(T, n)) for T in ALL for n in (2, 3, 4)]
        ts += ["!C_%s<vec2,vec3>" % f, "!C_%s<vec2,dvec2>" % f, "!C_%s<ivec3,uvec3>" % f]
        ts += ["%sC_%s<%s,%s>" % (no(f in ("mod", "min", "max")), f, vec(T, n), T) for T in FLOATS for n in (2, 3, 4)]
        ts += ["%sC_%s<%s,%s>" % (no(f in ("step",)), f, T, vec(T, n)) for T in FLOATS for n in (2, 3, 4)]
        if f == "modf":
            ts += ["!C_modf<vec3,const vec3>", "!C_modf<vec3,basic_view<false,float,3>>", "C_modf<vec3,basic_view<true,float,3>>"]
        yield (f, " && ".join(ts), "operands accepted by %s" % f)
    for f in TER:
        okT = (lambda T: T != "bool") if f == "clamp" else (lambda T: T in FLOATS)
        ts = ["%sT_%s<%s,%s,%s>" % (no(okT(T) or (f == "mix" and T == "bool")), f, vec(T, n), vec(T, n), vec(T, n)) for T in ALL for n in (2, 3, 4)]
        ts += ["!T_%s<vec2,vec3,vec2>" % f, "!T_%s<vec2,vec2,vec3>" % f, "!T_%s<vec2,dvec2,vec2>" % f, "!T_%s<vec2,vec2,dvec2>" % f]
        ts += ["%sT_%s<%s,%s,%s>" % (no(f == "clamp"), f, vec(T, 3), T, T) for T in NUM]
        ts += ["%sT_%s<%s,%s,%s>" % (no(f == "mix" and T in FLOATS), f, vec(T, 3), vec(T, 3), T) for T in NUM]
        ts += ["%sT_%s<%s,%s,%s>" % (no(f == "smoothstep" and T in FLOATS), f, T, T, vec(T, 3)) for T in NUM]
        ts += ["%sT_%s<%s,%s,%s>" % (no(f == "mix"), f, vec(T, 3), vec(T, 3), "bvec3") for T in ALL]
        yield (f, " && ".join(ts), "operands accepted by %s" % f)


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.abs", "vec2* o, const vec2& a", "*o = functions::abs(a);", "float* o, const float* a", "float t=a[0]<0?-a[0]:a[0],u=a[1]<0?-a[1]:a[1]; o[0]=t; o[1]=u;", expect="differs"),
           Case("control.round", "vec2* o, const vec2& a", "*o = functions::round(a);", "float* o, const float* a", "float t=std::rint(a[0]),u=std::rint(a[1]); o[0]=t; o[1]=u;", expect="differs"),
           Case("control.step", "vec2* o, const vec2& a, const vec2& b", "*o = functions::step(a, b);", "float* o, const float* a, const float* b", "float t=b[0]<=a[0]?0:1,u=b[1]<=a[1]?0:1; o[0]=t; o[1]=u;", expect="differs"),
           Case("control.domain", "vec2* o, const vec2& a, const vec2& b, const vec2& d", "*o = functions::clamp(a, b, d);", "float* o, const float* a, const float* b, const float* d", "NEED(b[0]<=d[0]); NEED(b[1]<d[1]); float t=a[0]<b[0]?b[0]:d[0]<a[0]?d[0]:a[0],u=a[1]<b[1]?b[1]:d[1]<a[1]?d[1]:a[1]; o[0]=t; o[1]=u;", expect="differs"),
           Case("control.max", "bool* o, const ivec2& a, const ivec2& b", "auto r=functions::max(a,b); *o = r[0]>=a[0] && r[1]>b[1];", "bool* o, const int* a, const int* b", "*o = true;", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=350)
    hw = c.witness("accepts", list(accepts()) + [("control", "U_floor<ivec3>", "", "false")], prelude=PRE, minimum=18)
    c.collect(h)
    c.collect_witness(hw)
