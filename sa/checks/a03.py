from fw import Case
from gen import *

META = dict(
    title="Vectors and matrices are exactly their components, contiguous and in order",
    statement="A vector of n components occupies exactly n adjacent scalars in component order, a matrix occupies its columns one after another, and both are trivially copyable with no hidden state, so their storage can be handed to and filled from plain arrays. The data pointer of a vector, matrix, view or swizzle designates the first stored scalar, and together with the published index sequence it designates each logical component. The reported lengths and sizes are the numbers of components, columns and rows.",
    quant=("programs", "all element types, lengths 1 to 4, matrix shapes 2x2 to 4x4, all swizzles"),
    why="Tests look at a few sizes on one compiler; interoperation through raw memory needs the layout for every instantiation.",
    anchors=["include/dsga.hxx"],
    mech=[("anonymous union with the common initial storage", "basic_vector, basic_view, storage_wrapper"), ("column array", "basic_matrix::columns"), ("sequence()/offsets", "indexed_vector, indexed_view")],
    explanation="type-level layout witnesses for every instantiation, and address terms of data()/operator[] extracted from LLVM IR and compared with base+offset",
    technique="type-level layout witnesses plus address provenance by value numbering over clang LLVM IR",
)


def run(c):
    w, p = [], []
    for T in ALL:
        for n in (1, 2, 3, 4):
            V = "basic_vector<%s,%d>" % (T, n)
            w.append(("layout.%s%d" % (T, n), "sizeof(%s)==%d*sizeof(%s) && alignof(%s)==alignof(%s) && std::is_trivially_copyable_v<%s> && std::is_standard_layout_v<%s>" % (V, n, T, V, T, V, V),
                      "%s must be exactly %d adjacent scalars" % (V, n)))
            w.append(("trivial.%s%d" % (T, n), "std::is_trivially_default_constructible_v<{0}> && std::is_trivially_destructible_v<{0}> && std::is_trivially_copy_assignable_v<{0}> && std::is_trivially_copy_constructible_v<{0}>".format(V),
                      "%s must be trivial" % V))
            w.append(("size.%s%d" % (T, n), "{0}::size()=={1} && decltype(std::declval<{0}&>().size)::value=={1} && basic_view<true,{2},{1}>::size()=={1} && view_vector<{2},{1}>::size()=={1} && "
                      "std::same_as<typename {0}::value_type,{2}> && std::same_as<typename basic_view<false,{2},{1}>::value_type,{2}>".format(V, n, T), "%s::size() must be %d" % (V, n)))
            w.append(("seq.%s%d" % (T, n), "std::same_as<decltype({0}::sequence()), std::make_index_sequence<{1}>> && std::same_as<decltype(basic_view<false,{2},{1}>::sequence()), std::make_index_sequence<{1}>>".format(V, n, T),
                      "the index sequence of %s must be 0..%d" % (V, n - 1)))
            w.append(("viewlayout.%s%d" % (T, n), "sizeof(basic_view<true,{0},{1}>)==sizeof(void*) && std::is_standard_layout_v<basic_view<true,{0},{1}>>".format(T, n), "a view is one pointer"))
            if T in ("bool", "float", "ll"):
                raw = "const %s* a" % T
                p.append(Case("data.%s%d" % (T, n), "const %s& a" % V, "return a.data();", raw, "return a;", ret="const %s*" % T))
                p.append(Case("data.base.%s%d" % (T, n), "%s& a" % V, "return a.as_base().data();", "%s* a" % T, "return a;", ret="%s*" % T))
                p.append(Case("data.view.%s%d" % (T, n), "basic_view<true,%s,%d>& a" % (T, n), "return a.data();", "%s* const& a" % T, "NEED(a); return a;", ret="%s*" % T))
                p.append(Case("data.cview.%s%d" % (T, n), "const basic_view<false,%s,%d>& a" % (T, n), "return a.data();", "const %s* const& a" % T, "NEED(a); return a;", ret="const %s*" % T))
                p.append(Case("data.vv.%s%d" % (T, n), "view_vector<%s,%d>& a" % (T, n), "return a.data();", "%s* const& a" % T, "NEED(a); return a;", ret="%s*" % T))
                p.append(Case("length.%s%d" % (T, n), "const %s& a" % V, "return a.length();", raw, "return %d;" % n, ret="int"))
                p.append(Case("length.base.%s%d" % (T, n), "const %s& a" % V, "return a.as_base().length();", raw, "return %d;" % n, ret="int"))
                p.append(Case("length.view.%s%d" % (T, n), "const basic_view<true,%s,%d>& a" % (T, n), "return a.length();", "const %s* const& a" % T, "return %d;" % n, ret="int"))
                for i in range(n):
                    p.append(Case("elem.%s%d.%d" % (T, n, i), "%s& a" % V, "return &a[%d];" % i, "%s* a" % T, "return a+%d;" % i, ret="%s*" % T))
                    p.append(Case("elem.view.%s%d.%d" % (T, n, i), "basic_view<true,%s,%d>& a" % (T, n), "return &a[%d];" % i, "%s* const& a" % T, "NEED(a); return a+%d;" % i, ret="%s*" % T))
    for size in (1, 2, 3, 4):
        for nm, t in names(size):
            n = len(t)
            for obj in ("basic_vector<float,%d>" % size, "basic_view<true,float,%d>" % size):
                S = "std::remove_cvref_t<decltype(std::declval<%s&>().%s)>" % (obj, nm)
                w.append(("swz.%s.%s" % (obj[6:10] + str(size), nm), "std::same_as<decltype({0}::sequence()), std::index_sequence<{1}>> && {0}::size()=={2} && {0}::offsets == std::array<std::size_t,{2}>{{{1}}} && std::same_as<typename {0}::value_type,float>".format(
                    S, ",".join(map(str, t)), n), "index sequence of %s.%s must be (%s)" % (obj, nm, ",".join(map(str, t)))))
            if n > 1 and (size < 4 or distinct(t)):
                p.append(Case("swzdata.%d.%s" % (size, nm), "const basic_vector<float,%d>& a" % size, "return a.%s.data();" % nm, "const float* a", "return a;", ret="const float*"))
                p.append(Case("swzdata.view%d.%s" % (size, nm), "const basic_view<false,float,%d>& a" % size, "return a.%s.data();" % nm, "const float* const& a", "NEED(a); return a;", ret="const float*"))
                p.append(Case("swzlen.%d.%s" % (size, nm), "const basic_vector<float,%d>& a" % size, "return a.%s.length();" % nm, "const float* a", "return %d;" % n, ret="int"))
    for T in FLOATS:
        for C in (2, 3, 4):
            for R in (2, 3, 4):
                M = "basic_matrix<%s,%d,%d>" % (T, C, R)
                w.append(("mlayout.%s%dx%d" % (T, C, R), "sizeof({0})=={1}*sizeof({2}) && alignof({0})==alignof({2}) && std::is_trivially_copyable_v<{0}> && std::is_standard_layout_v<{0}> && std::is_trivially_default_constructible_v<{0}> && std::is_trivially_copy_assignable_v<{0}>".format(M, C * R, T),
                          "%s must be %d adjacent scalars" % (M, C * R)))
                w.append(("msize.%s%dx%d" % (T, C, R), "{0}::size()=={1} && {0}::column_size()=={2} && {0}::ComponentCount=={3}".format(M, C, R, C * R), "sizes of %s" % M))
                p.append(Case("mlen.%s%dx%d" % (T, C, R), "const %s& m" % M, "return m.length()*16+m.column_length();", "const %s* m" % T, "return %d;" % (C * 16 + R), ret="int"))
                p.append(Case("mdata.%s%dx%d" % (T, C, R), "const %s& m" % M, "return m.data()->data();", "const %s* m" % T, "return m;", ret="const %s*" % T))
                for cc in range(C):
                    for r in range(R):
                        p.append(Case("melem.%s%dx%d.%d.%d" % (T, C, R, cc, r), "%s& m" % M, "return &m[%d][%d];" % (cc, r), "%s* m" % T, "return m+%d;" % (cc * R + r), ret="%s*" % T))
                        p.append(Case("mdatae.%s%dx%d.%d.%d" % (T, C, R, cc, r), "%s& m" % M, "return &m.data()[%d].data()[%d];" % (cc, r), "%s* m" % T, "return m+%d;" % (cc * R + r), ret="%s*" % T))
    ctl = [("control", "sizeof(vec3)==4*sizeof(float)", "", "false")]
    h = c.pairs("addresses", p + [Case("control", "vec3& a", "return &a[1];", "float* a", "return a+2;", ret="float*", expect="differs")], minimum=800, shard=170)
    hw = c.witness("layout", w + ctl, minimum=1000)
    c.collect(h)
    c.collect_witness(hw)
