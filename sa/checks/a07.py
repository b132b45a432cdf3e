from fw import Case
from gen import *

META = dict(
    title="Using a view that refers to nothing is stopped before memory is touched",
    statement="A default-constructed view, or one built from or reset to a null pointer, refers to nothing. With assertions enabled every operation that would need its storage (element access, data pointer, begin and end, comparison, conversion, arithmetic, every library function, swizzles of it, assignment, set, swap) stops at an assertion, for mutable and const views, before any element is read or written; and an operation on a view that does refer to storage never stops because of that check.",
    quant=("inputs", "all view operations, all sizes, mutable and const views, null and non-null storage pointers with any content"),
    why="Each operation aborts, so a test process cannot sample it, and one accessor missing its guard is only visible as undefined behaviour.",
    anchors=["include/dsga.hxx"],
    mech=[("null guards", "view_wrapper members; indexed_view members; indexed_view iterators")],
    explanation="each operation is lowered with the view's pointer symbolic; the condition under which control reaches the assertion must be exactly 'pointer is null', and otherwise the effects must equal those of the same operation on a vector holding the referenced elements",
    technique="value numbering of assertion reachability conditions over clang LLVM IR",
)


def ops(T, n):
    """operations usable on a view v and on an equal vector v, storing scalars to o"""
    z = "".join(reversed(L[:n]))
    lanes = lambda e: "auto r = %s; %s" % (e, " ".join("o[%d]=r[%d];" % (i, i) for i in range(n))) if n > 1 else "auto r = %s; o[0]=r;" % e
    yield "index", "".join("o[%d]=v[%d];" % (i, i) for i in range(n))
    yield "get", "".join("o[%d]=get<%d>(v);" % (i, i) for i in range(n))
    yield "copy-to-vector", "basic_vector<%s,%d> r(v); %s" % (T, n, "".join("o[%d]=r[%d];" % (i, i) for i in range(n)))
    yield "for", "int k=0; for (auto x : v) o[k++]=x;"
    yield "data", "const %s* d = v.data(); for(int i=0;i<%d;i++) o[i]=d[i];" % (T, n)
    yield "swizzle.all", "auto r = basic_vector<%s,%d>(v.%s); %s" % (T, n, z, "".join("o[%d]=r[%d];" % (i, i) for i in range(n)))
    yield "swizzle.one", "o[0] = v.%s;" % L[n - 1]
    yield "swizzle.rep", "o[0] = v.%s[1];" % (L[n - 1] * 2)
    yield "swizzle.for", "int k=0; for (auto x : v.%s) o[k++]=x;" % (L[n - 1] * 2)
    yield "swizzle.get", "o[0]=get<1>(v.%s);" % (L[n - 1] * 2)
    yield "equal", "o[0] = (v == v);"
    yield "equal.swz", "o[0] = (v.%s == v);" % z
    if T == "bool":
        yield "any", "o[0] = any(v); o[1] = all(v); o[2] = none(v);"
        yield "not", lanes("compNot(v)")
        return
    yield "neg", lanes("-v")
    yield "plus", lanes("+v")
    yield "add", lanes("v + v")
    yield "scale", lanes("v * %s(3)" % T)
    yield "scale.l", lanes("%s(3) * v" % T)
    yield "swz.add", lanes("v.%s + v" % z)
    yield "min", lanes("dsga::min(v, v)")
    yield "query.member", "o[0] = v.min() + v.max() + v.sum();"
    yield "apply", lanes("v.apply([](%s x) noexcept { return x + x; })" % T) if n > 1 else "auto r = v.apply([](%s x) noexcept { return x + x; }); o[0]=r[0];" % T
    yield "inner", "o[0] = innerProduct(v, v);"
    if T == "int":
        yield "and", lanes("v & 3")
        yield "compl", lanes("~v")
        yield "mod", lanes("v % 7")
        yield "shl", lanes("v << 1")
    else:
        yield "dot", "o[0] = dot(v, v);"
        yield "length", "o[0] = length(v);"
        yield "floor", lanes("floor(v)")
        yield "clamp", lanes("clamp(v, 0.0f, 1.0f)")
        yield "isnan", lanes("isnan(v)")
        if n > 1:
            yield "normalize", lanes("normalize(v)")
    if n == 1:
        yield "scalar", "%s s = v; o[0] = s;" % T
        yield "scalar.swz", "%s s = v.x; o[0] = s;" % T
        yield "scalar.x", "o[0] = static_cast<%s>(static_cast<double>(v));" % T


def wops(T, n):
    z = "".join(reversed(L[:n]))
    s = ",".join(["s"] * n)
    yield "set", "v.set(%s);" % s
    yield "elem", "v[%d] = s;" % (n - 1)
    yield "assign", "v = basic_vector<%s,%d>(%s);" % (T, n, s)
    yield "swz.assign", "v.%s = basic_vector<%s,%d>(%s);" % (z, T, n, s)
    yield "swz.one", "v.%s = s;" % L[n - 1]
    yield "swz.set", "v.%s.set(%s);" % (z, s)
    yield "swz.elem", "v.%s[0] = s;" % z
    yield "for", "for (auto& x : v) x = s;"
    yield "swz.for", "for (auto& x : v.%s) x = s;" % z
    yield "data", "%s* d = v.data(); d[%d] = s;" % (T, n - 1)
    yield "compound", "v += s;"
    yield "compound.v", "v *= basic_vector<%s,%d>(%s);" % (T, n, s)
    yield "compound.swz", "v.%s -= s;" % z
    yield "incr", "++v;"
    yield "decr.post", "v--;"
    if n == 1:
        yield "scalar", "v = s;"
    if T == "int":
        yield "compound.and", "v &= s;"
        yield "compound.shl", "v <<= 1;"


def run(c):
    p = []
    for T in ("float", "int", "bool"):
        for n in (1, 2, 3, 4):
            R = "double" if T == "float" else "int"
            ld = "NEED(v_); basic_vector<%s,%d> v(%s); " % (T, n, ",".join("v_[%d]" % i for i in range(n)))
            for m, q in (("true", "const "), ("true", ""), ("false", "const "), ("false", "")):
                for nm, body in ops(T, n):
                    if q == "" and m == "false" and nm not in ("index", "data", "for", "swizzle.all", "swizzle.one", "swizzle.for", "get", "scalar"):
                        continue
                    tag = "%s%d.%s%s" % (T, n, "view" if m == "true" else "cview", "" if q else ".nonconst")
                    p.append(Case("%s.%s" % (nm, tag), "%s* o, %sbasic_view<%s,%s,%d>& v" % (R, q, m, T, n), body,
                                  "%s* o, %s* const& v_" % (R, T), ld + body, mode="poly" if T == "float" else "bits"))
            if T == "bool":
                continue
            for nm, body in wops(T, n):
                p.append(Case("write.%s.%s%d" % (nm, T, n), "basic_view<true,%s,%d>& v, %s s" % (T, n, T), body,
                              "%s* const& v_, %s s" % (T, T), ld + body + " " + "".join("v_[%d]=v[%d];" % (i, i) for i in range(n)), mode="poly" if T == "float" else "bits"))
            V = "basic_view<true,%s,%d>" % (T, n)
            p.append(Case("temp.null.%s%d" % (T, n), "const basic_vector<%s,%d>& s" % (T, n), "%s() = s;" % V, "const %s* s" % T, "NEED(false);"))
            p.append(Case("temp.nullptr.%s%d" % (T, n), "const basic_vector<%s,%d>& s" % (T, n), "%s(static_cast<%s*>(nullptr)) = s;" % (V, T), "const %s* s" % T, "NEED(false);"))
            p.append(Case("reset.null.%s%d" % (T, n), "%s& v, %s* o" % (V, T), "v.reset(nullptr); o[0] = v[0];", "%s*& v, %s* o" % (T, T), "v = nullptr; NEED(false);", ) )
            z = "".join(reversed(L[:n]))
            for nm, e, off in (("begin", "v.begin()", 0), ("end", "v.end()", n), ("cbegin", "v.cbegin()", 0), ("cend", "v.cend()", n), ("rbegin", "v.rbegin().base()", n), ("rend", "v.rend().base()", 0), ("crbegin", "v.crbegin().base()", n), ("crend", "v.crend().base()", 0), ("data", "v.data()", 0)):
                for q in ("", "const "):
                    p.append(Case("%s%s.%s%d" % (nm, ".const" if q else "", T, n), "%s%s& v" % (q, V), "return %s;" % e, "%s* const& v" % T, "NEED(v); return v+%d;" % off, ret="const %s*" % T))
            for op in ("u.swap(v)", "swap(u, v)"):
                p.append(Case("swap.%s.%s%d" % (op[:2], T, n), "%s& u, %s& v" % (V, V), op + ";", "%s* const& u, %s* const& v" % (T, T),
                              "NEED(u); NEED(v); " + "if (u == v) return; "
                              + "if ((u <= v && v <= u+%d) || (v <= u && u <= v+%d)) throw std::range_error(\"\"); " % (n - 1, n - 1) + "".join("{ %s t=u[%d]; u[%d]=v[%d]; v[%d]=t; }" % (T, i, i, i, i) for i in range(n)), palign=SIZE[T]))
    ctl = [Case("control.missing", "float* o, float* const& v", "o[0]=v[0];", "float* o, float* const& v", "NEED(v); o[0]=v[0];", expect="differs"),
           Case("control.extra", "float* o, const view3& v", "o[0]=v[0];", "float* o, float* const& v", "o[0]=v[0];", expect="differs")]
    c.collect(c.pairs("null-guards", p + ctl, minimum=700))
