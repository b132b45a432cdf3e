from fw import Case
from gen import *

META = dict(
    title="A view is a handle: it acts on the storage it refers to and never re-aims",
    statement="A view refers to caller storage: constructing, copying or re-aiming a view touches no element, and reading or writing through it reads or writes that storage and nothing else. Assigning to a view (from a vector, swizzle, view or scalar, also through a temporary view) stores into the referenced elements and leaves the view pointing where it did; only reset() changes where it points. A view of const storage reads through and offers no way to write.",
    quant=("inputs", "all storage contents and pointers, all element types, sizes 1 to 4, mutable and const views, all forms of source operand"),
    why="Tests look at a few values after a few assignments; an assignment that re-aims the view instead of writing through gives the same reads and only differs for later uses of the storage.",
    anchors=["include/dsga.hxx"],
    mech=[("pointer handle", "view_wrapper::store, reset"), ("write-through assignment", "basic_view::operator=, indexed_view::operator=, set")],
    explanation="constructors, reset and every assignment form are lowered with the view object and the storage as symbolic memory; all bytes stored (including the pointer itself) are compared with the reference",
    technique="value numbering of memory effects over clang LLVM IR, and compile-fail witnesses for const views",
)


PRE = """
template <class X, class T> concept w_elem = requires(X& v, T s) { v[0] = s; };
template <class X, class T> concept w_vec = requires(X& v, T s) { v = s; };
template <class X, class T> concept w_rv = requires(X&& v, T s) { static_cast<X&&>(v) = s; };
template <class X> concept w_swap = requires(X& v) { v.swap(v); };
template <class X, class T> concept w_set1 = requires(X& v, T s) { v.set(s); };
template <class X, class T> concept w_set2 = requires(X& v, T s) { v.set(s,s); };
template <class X, class T> concept w_set3 = requires(X& v, T s) { v.set(s,s,s); };
template <class X, class T> concept w_set4 = requires(X& v, T s) { v.set(s,s,s,s); };
"""


def run(c):
    p, w = [], []
    for T in ("float", "double", "int", "ll", "unsigned", "bool"):
        for n in (1, 2, 3, 4):
            V, CV = "basic_view<true,%s,%d>" % (T, n), "basic_view<false,%s,%d>" % (T, n)
            rd = "".join("o[%d]=v[%d];" % (i, i) for i in range(n))
            sp = "NEED(p); " + "".join("o[%d]=p[%d];" % (i, i) for i in range(n))
            tag = "%s%d" % (T, n)
            o = "%s* o, %s* p" % (T, T)
            oc = "%s* o, const %s* p" % (T, T)
            p.append(Case("ctor.read." + tag, o, "%s v(p); %s" % (V, rd), o, sp))
            p.append(Case("ctor.implicit." + tag, o, "%s v = p; %s" % (V, rd), o, sp))
            p.append(Case("cview.read." + tag, oc, "%s v(p); %s" % (CV, rd), oc, sp))
            p.append(Case("cview.mutable-source." + tag, o, "%s v(p); %s" % (CV, rd), o, sp))
            p.append(Case("copy." + tag, o, "%s u(p); const %s v(u); %s" % (V, V, rd), o, sp))
            p.append(Case("move." + tag, o, "%s u(p); const %s v(std::move(u)); %s" % (V, V, rd), o, sp))
            p.append(Case("copy.cview." + tag, oc, "%s u(p); const %s v(u); %s" % (CV, CV, rd), oc, sp))
            p.append(Case("ctor.repr." + tag, "%s** o, %s* p" % (T, T), "new (o) %s(p);" % V, "%s** o, %s* p" % (T, T), "*o = p;"))
            p.append(Case("default.repr." + tag, "%s** o" % T, "new (o) %s();" % V, "%s** o" % T, "*o = nullptr;"))
            p.append(Case("default.repr.c." + tag, "%s** o" % T, "new (o) %s();" % CV, "%s** o" % T, "*o = nullptr;"))
            p.append(Case("copy.repr." + tag, "%s** o, const %s& v" % (T, V), "new (o) %s(v);" % V, "%s** o, %s* const& v" % (T, T), "*o = v;"))
            p.append(Case("reset." + tag, "%s& v, %s* p" % (V, T), "v.reset(p);", "%s*& v, %s* p" % (T, T), "v = p;"))
            p.append(Case("reset.const." + tag, "%s& v, const %s* p" % (CV, T), "v.reset(p);", "const %s*& v, const %s* p" % (T, T), "v = p;"))
            p.append(Case("reset.const.mut." + tag, "%s& v, %s* p" % (CV, T), "v.reset(p);", "%s*& v, %s* p" % (T, T), "v = p;"))
            p.append(Case("reset.then-write." + tag, "%s& v, %s* p, %s* s" % (V, T, T), "v.reset(p); v[%d] = *s;" % (n - 1), "%s*& v, %s* p, %s* s" % (T, T, T), "v = p; NEED(p); p[%d] = *s;" % (n - 1)))
            if T == "bool":
                continue
            for src in ("vec", "swz", "view", "cview", "iview", "vv"):
                if n == 1 and src in ("swz", "iview"):
                    pass
                S = "int" if T in ("double", "ll") else T
                b = operand(src, S, n, "b")
                if src in ("view", "vv") and T == S:
                    # same-type view to view assignment is deleted by design: no silent re-aiming
                    w.append(("noassign." + tag, "!std::is_assignable_v<{0}&, const {0}&> && !std::is_assignable_v<{0}&, {0}>".format(V), "assignment between views of the same type must not exist (it would be ambiguous between re-aiming and copying)"))
                    b = operand(src, "int", n, "b")
                    if T in ("int", "unsigned"):
                        continue
                sp = b.need + "NEED(v); " + " ".join("%s t%d=(%s)%s;" % (T, i, T, b.lane(i)) for i in range(n)) + " ".join("v[%d]=t%d;" % (i, i) for i in range(n))
                if not implicit(b.T, T):
                    continue
                p.append(Case("assign.%s.%s" % (src, tag), "%s& v, %s" % (V, b.decl), "v = %s;" % b.expr, "%s* const& v, %s" % (T, b.raw), sp))
                p.append(Case("assign.rvalue.%s.%s" % (src, tag), "%s* v, %s" % (T, b.decl), "static_cast<%s>(v) = %s;" % (V, b.expr), "%s* v, %s" % (T, b.raw), sp))
                p.append(Case("assign.ret.%s.%s" % (src, tag), "%s& v, %s" % (V, b.decl), "return &(v = %s);" % b.expr, "%s*& v, %s" % (T, b.raw), sp + " return (void*)&v;", ret="void*"))
            if n == 1:
                p.append(Case("scalar." + tag, "%s& v, %s s" % (V, T), "v = s;", "%s* const& v, %s s" % (T, T), "NEED(v); v[0]=s;"))
                p.append(Case("scalar.rv." + tag, "%s* v, %s s" % (T, T), "static_cast<%s>(v) = s;" % V, "%s* v, %s s" % (T, T), "NEED(v); v[0]=s;"))
                p.append(Case("toscalar." + tag, "const %s& v" % V, "return v;", "%s* const& v" % T, "NEED(v); return v[0];", ret=T))
                p.append(Case("toscalar.c." + tag, "const %s& v" % CV, "return v;", "%s* const& v" % T, "NEED(v); return v[0];", ret=T))
                p.append(Case("toscalar.x." + tag, "const %s& v" % CV, "return static_cast<double>(v);", "%s* const& v" % T, "NEED(v); return (double)v[0];", ret="double"))
    for T in ALL:
        for n in (1, 2, 3, 4):
            CV, V = "basic_view<false,%s,%d>" % (T, n), "basic_view<true,%s,%d>" % (T, n)
            w.append(("const.%s%d" % (T, n), "std::same_as<decltype(std::declval<{0}&>()[0]), const {1}&> && std::same_as<decltype(std::declval<{0}&>().data()), const {1}*> && std::same_as<decltype(std::declval<{0}&>().begin()), const {1}*> && "
                      "!w_elem<{0},{1}> && !w_vec<{0},basic_vector<{1},{2}>> && !w_swap<{0}> && !w_set{2}<{0},{1}> && !w_rv<{0},basic_vector<{1},{2}>>".format(
                          CV, T, n), "a view of const storage must not be writable"))
            w.append(("ctorargs.%s%d" % (T, n), "!std::is_constructible_v<{0}, const {2}*> && std::is_constructible_v<{1}, const {2}*> && std::is_constructible_v<{1}, {2}*> && std::is_constructible_v<{0}, {2}*> && std::is_convertible_v<{2}*, {0}>".format(V, CV, T),
                      "a mutable view must not be constructible from const storage"))
            w.append(("constobj.%s%d" % (T, n), "std::same_as<decltype(std::declval<const {0}&>()[0]), const {1}&> && std::same_as<decltype(std::declval<const {0}&>().data()), const {1}*>".format(V, T), "access through a const view object is const"))
    ctl = [Case("control.reaim", "view3& v, float* p", "v.reset(p);", "float* const& v, const float* p", "NEED(v); NEED(p); for(int i=0;i<3;i++) v[i]=p[i];", expect="differs"),
           Case("control.through", "view3& v, const vec3& b", "v = b;", "float* const& v, const float* b", "NEED(v); v[0]=b[0]; v[1]=b[1];", expect="differs")]
    h = [c.pairs("memory-effects", p + ctl, minimum=450)]
    hw = c.witness("types", w + [("control", "std::is_assignable_v<cview3&, vec3>", "", "false"),
                                 ("control2", "!(w_elem<view3,float> && w_vec<view3,vec3> && w_swap<view3> && w_set3<view3,float> && w_rv<view3,vec3>)", "", "false")], prelude=PRE, minimum=90)
    for x in h:
        c.collect(x)
    c.collect_witness(hw)
