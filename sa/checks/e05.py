from gen import *

META = dict(
    title="Type names, deduction, concepts and constants mean what they say",
    statement="Every published alias names the type its spelling promises: prefix gives the element type (b, i, u, ll, ull, none or f, d), scal/vecN the vector, matCxR and matN the matrix, viewN the mutable and c...viewN the constant view. Class template argument deduction gives the first argument's type and the argument count, or the source's element type and length. The element-type, size and conversion concepts accept exactly the documented types; Size, Count, Writable, Mutable, offsets, size, value_type and iterator types agree with the object; the sequence helpers give the documented ranges.",
    quant=("programs", "all aliases, all deduction guides, all concepts over the fundamental types and their qualified forms, all lengths and sequences up to length six"),
    why="Names are what every program is written with; a wrong one compiles, and only misbehaves where the types differ.",
    anchors=["include/dsga.hxx"],
    mech=[("aliases", "bscal … dview4, cbview1 … cdview4"), ("deduction guides", "basic_vector, view_vector, storage_wrapper"), ("concepts", "bool_scalar … dimensional_storage, promotes_to, implicitly_convertible_to, indexable"), ("sequences", "make_index_range, make_closed_index_range, make_reverse_sequence, make_array_sequence, make_sequence_array")],
    explanation="each name, deduction, concept and constant is compared with an independently generated table by the compiler's type checker",
    technique="type-level witnesses (type identity and concept satisfaction decided by the compiler)",
)
PREFIX = {"b": "bool", "i": "int", "u": "unsigned", "ll": "long long", "ull": "unsigned long long", "": "float", "f": "float", "d": "double"}
FUND = ["bool", "char", "signed char", "unsigned char", "wchar_t", "char8_t", "char16_t", "char32_t", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double", "void", "std::nullptr_t", "std::byte", "int*", "int[2]"]
SIGNED, UNSIGNED, FP = {"int", "long long"}, {"unsigned", "unsigned long long", "unsigned long"}, {"float", "double"}
CONCEPTS = {"bool_scalar": {"bool"}, "signed_scalar": SIGNED, "unsigned_scalar": UNSIGNED, "numeric_integral_scalar": SIGNED | UNSIGNED, "floating_point_scalar": FP,
            "non_bool_scalar": SIGNED | UNSIGNED | FP, "dimensional_scalar": SIGNED | UNSIGNED | FP | {"bool"}}
CPP = {"ll": "long long", "ull": "unsigned long long", "size_t": "unsigned long"}
PRE = """template <class A, class B> constexpr bool same = std::is_same_v<A, B>;
template <class A, std::size_t N> concept MakesVector = requires { typename basic_vector<A, N>; };
template <class A, std::size_t N> concept MakesView = requires { typename basic_view<true, A, N>; typename basic_view<false, A, N>; };
template <class A, std::size_t N> concept MakesOwner = requires { typename view_vector<A, N>; };
template <class A, std::size_t C, std::size_t R> concept MakesMatrix = requires { typename basic_matrix<A, C, R>; };
template <std::size_t... I> using seq = std::index_sequence<I...>;
"""


def items():
    for p, T in PREFIX.items():
        for n in (1, 2, 3, 4):
            for nm, t in (("%sscal" % p if n == 1 else "%svec%d" % (p, n), vec(T, n)), ("%sview%d" % (p, n), "basic_view<true,%s,%d>" % (T, n)), ("c%sview%d" % (p, n), "basic_view<false,%s,%d>" % (T, n))):
                yield "alias." + nm, "same<dsga::%s, %s>" % (nm, t), "%s is %s" % (nm, t)
    for p, T in (("", "float"), ("d", "double")):
        for C in (2, 3, 4):
            yield "alias.%smat%d" % (p, C), "same<dsga::%smat%d, basic_matrix<%s,%d,%d>>" % (p, C, T, C, C), "%smat%d is a %dx%d matrix of %s" % (p, C, C, C, T)
            for R in (2, 3, 4):
                yield "alias.%smat%dx%d" % (p, C, R), "same<dsga::%smat%dx%d, basic_matrix<%s,%d,%d>>" % (p, C, R, T, C, R), "%smat%dx%d has %d columns and %d rows of %s" % (p, C, R, C, R, T)
    for k, ok in CONCEPTS.items():
        for T in FUND:
            ts = ["%s%s<%s>" % ("" if T in ok else "!", k, T), "!%s<const std::type_identity_t<%s>>" % (k, T), "!%s<volatile std::type_identity_t<%s>>" % (k, T)]
            if T != "void":
                ts += ["!%s<std::type_identity_t<%s>&>" % (k, T), "!%s<std::type_identity_t<%s>&&>" % (k, T)]
            yield "concept.%s.%s" % (k, T), " && ".join(ts), "%s accepts exactly the documented plain types" % k
    for T in FUND:
        if T in ("void", "int[2]"):
            continue
        ok = T in CONCEPTS["dimensional_scalar"]
        for n in range(7):
            s = "" if ok and 1 <= n <= 4 else "!"
            yield "storage.%s.%d" % (T, n), "%sdimensional_storage<%s,%d> && %sMakesVector<%s,%d> && %sMakesView<%s,%d> && %sMakesOwner<%s,%d>" % (s, T, n, s, T, n, s, T, n, s, T, n), "vectors exist for the documented element types and lengths only"
    for T in FUND:
        if T in ("void", "int[2]"):
            continue
        for C in range(6):
            for R in range(6) if T in ("float", "int") else ((C + 1) % 6, C):
                s = "" if T in FP and 2 <= C <= 4 and 2 <= R <= 4 else "!"
                yield "matrix.%s.%d.%d" % (T, C, R), "%sMakesMatrix<%s,%d,%d>" % (s, T, C, R), "matrices exist for float and double with 2 to 4 columns and rows only"
    for n in range(7):
        yield "size.%d" % n, ("" if 1 <= n <= 4 else "!") + "dimensional_size<%d>" % n, "sizes are 1 to 4"
    for T in ALL:
        for U in ALL:
            a, b = CPP.get(T, T), CPP.get(U, U)
            yield "implicit.%s,%s" % (T, U), "%simplicitly_convertible_to<%s,%s>" % ("" if implicit(T, U) else "!", a, b), "implicit conversion exists exactly when nothing of the common type is lost"
            yield "promotes.%s,%s" % (T, U), "%spromotes_to<%s,%s> && %spromotes_to<const %s&,%s>" % ("" if common(T, U) == U else "!", a, b, "" if common(T, U) == U else "!", a, b), "promotes_to compares with the common type"
    # deduction
    for T in ALL:
        for U in ALL:
            if T == U:
                continue
            t, v, w = CPP.get(T, T), "std::declval<%s>()" % CPP.get(T, T), "std::declval<%s>()" % CPP.get(U, U)
            yield "deduce.mixed.%s,%s" % (T, U), " && ".join("same<decltype(%s(%s)), %s<%s,%d>>" % (C, ", ".join(a), C, t, len(a)) for C in ("basic_vector", "view_vector") for a in ((v, w), (v, w, w), (v, w, v), (v, v, w, v))), "the first of several arguments gives the element type"
    for T in ALL:
        t = CPP.get(T, T)
        v = "std::declval<%s>()" % t
        for n in (1, 2, 3, 4):
            for C in ("basic_vector", "view_vector"):
                yield "deduce.%s.%s.%d" % (C, T, n), "same<decltype(%s{%s}), %s<%s,%d>> && same<decltype(%s(std::declval<const basic_vector<%s,%d>&>())), %s<%s,%d>>" % (C, ", ".join([v] * n), C, t, n, C, t, n, C, t, n), "deduction gives the arguments' type and number"
                yield "deduce.from.%s.%s.%d" % (C, T, n), "same<decltype(%s(std::declval<const basic_view<true,%s,%d>&>())), %s<%s,%d>> && same<decltype(%s(std::declval<const basic_view<false,%s,%d>&>())), %s<%s,%d>>" % (C, t, n, C, t, n, C, t, n, C, t, n), "deduction from a view gives a vector of its length"
                s, p = SWZ[n]
                nm = "".join("xyzw"[i] for i in p)
                yield "deduce.swz.%s.%s.%d" % (C, T, n), "same<decltype(%s(std::declval<basic_vector<%s,%d>&>().%s)), %s<%s,%d>> && same<decltype(%s(std::declval<basic_view<true,%s,%d>&>().%s)), %s<%s,%d>>" % (C, t, s, nm, C, t, n, C, t, s, nm, C, t, n), "deduction from a swizzle gives a vector of the number of names"
            # constants and member types
            for C, t2, w, mu in (("basic_vector<%s,%d>" % (t, n), t, 1, 1), ("basic_view<true,%s,%d>" % (t, n), t, 1, 1), ("basic_view<false,%s,%d>" % (t, n), t, 0, 0), ("view_vector<%s,%d>" % (t, n), t, 1, 1)):
                b = "true" if mu else "false"
                ts = ["%s::Size == %d" % (C, n), "%s::Count == %d" % (C, n), "%s::Mutable == %s" % (C, b), "%s::size() == %d" % (C, n),
                      "same<%s::value_type, %s>" % (C, t), "same<decltype(%s::sequence()), std::make_index_sequence<%d>>" % (C, n), "same<decltype(std::declval<const %s&>().length()), int>" % C,
                      "same<decltype(*std::declval<const %s&>().begin()), const %s&>" % (C, t), "same<decltype(std::declval<const %s&>()[0]), const %s&>" % (C, t), "same<decltype(std::declval<const %s&>().data()), const %s*>" % (C, t)]
                if mu:
                    ts += ["same<decltype(*std::declval<%s&>().begin()), %s&>" % (C, t), "same<decltype(std::declval<%s&>()[0]), %s&>" % (C, t), "same<decltype(std::declval<%s&>().data()), %s*>" % (C, t)]
                yield "member.%s" % C, " && ".join(ts), "published constants and member types agree with the object"
    # swizzle types
    for size in (1, 2, 3, 4):
        for nm, idx in names(size):
            w = "true" if distinct(idx) else "false"
            for own, K, mu in (("basic_vector<float,%d>" % size, "indexed_vector<true,float", "true"), ("basic_view<true,float,%d>" % size, "indexed_view<true,float", "true"), ("basic_view<false,float,%d>" % size, "indexed_view<false,float", "false")):
                S = "std::remove_cvref_t<decltype(std::declval<%s&>().%s)>" % (own, nm)
                if len(nm) + size > 5 and K.startswith("indexed_view<f") and not distinct(idx):
                    continue
                yield "swizzle.%s.%s" % (own, nm), "%s::size() == %d && %s::Writable == %s && %s::Mutable == %s && same<%s::value_type, float> && same<decltype(%s::sequence()), seq<%s>> && %s::offsets == std::array<std::size_t,%d>{%s}" % (
                    S, len(nm), S, w, S, mu, S, S, ",".join(map(str, idx)), S, len(nm), ",".join(map(str, idx))), "swizzle %s publishes its component list" % nm
    # sequences
    for a in range(7):
        for b in range(7):
            h = list(range(a, b)) if a <= b else list(range(a, b, -1))
            k = list(range(a, b + 1)) if a <= b else list(range(a, b - 1, -1))
            yield "range.%d.%d" % (a, b), "same<make_index_range<%d,%d>, seq<%s>> && same<make_closed_index_range<%d,%d>, seq<%s>>" % (a, b, ",".join(map(str, h)), a, b, ",".join(map(str, k))), "index ranges run from the start towards the end"
    for sq in ([], [0], [3, 1], [2, 0, 1], [0, 0, 5, 2], [4, 3, 2, 1, 0], [9, 1, 8, 2, 7, 3]):
        s = ",".join(map(str, sq))
        r = ",".join(map(str, sq[::-1]))
        if sq:
            yield "sequence." + s, "make_sequence_array(seq<%s>{}) == std::array<std::size_t,%d>{%s} && same<decltype(make_reverse_sequence(seq<%s>{})), seq<%s>> && same<make_array_sequence<std::array<std::size_t,%d>{%s}>, seq<%s>>" % (s, len(sq), s, s, r, len(sq), s, s), "sequence helpers keep, or reverse, the listed indexes"
    for size in range(1, 5):
        for nm, idx in names(4):
            inr = all(i < size for i in idx)
            c = ",".join(map(str, idx))
            if (sum(idx) + len(idx)) % 3 and len(idx) == 4 and inr:
                continue
            yield "indexable.%d.%s" % (size, nm), "%sindexable<%d,%d,%s> && !indexable<%d,%d,%s>" % ("" if inr else "!", size, len(idx), c, size, len(idx) % 4 + 1, c) + (" && writable_swizzle<%d,%d,%s> == %s" % (size, len(idx), c, "true" if distinct(idx) else "false") if inr else ""), "index lists are valid exactly inside the vector"


def run(c):
    it = list(items())
    ctl = [("control.alias", "same<dsga::vec3, basic_vector<double,3>>", "", "false"), ("control.concept", "floating_point_scalar<long double>", "", "false"), ("control.matrix", "MakesMatrix<int,2,2>", "", "false")]
    h = c.witness("names", it + ctl, prelude=PRE, minimum=1200)
    c.collect_witness(h)
