from gen import *

META = dict(
    title="Only distinct, mutable, non-const swizzles can be written through",
    statement="A swizzle can be written through (assigned, compound-assigned, incremented, set, or modified by element, pointer or iterator) exactly when its component names are all distinct and the object it belongs to is mutable: never for a name with a repeated component, never through a const vector or const view, and never through a view of const data. Programs that attempt a forbidden write do not compile; reading is always allowed. A temporary vector cannot be assigned to, while a temporary view of mutable data can.",
    quant=("programs", "all programs that form a write expression through any of the swizzle names of any vector or view"),
    why="Tests cannot contain programs that must fail to compile; they check a handful of writable names and no forbidden ones.",
    anchors=["include/dsga.hxx"],
    mech=[("writable_swizzle / Writable / Mutable constraints", "indexed_vector, indexed_view, vector_base, basic_view"), ("non-const operator[] overload guards", "storage_wrapper, view_wrapper")],
    explanation="for each swizzle name of each vector and view size, every way to write is asked of the compiler's overload resolution as a requires-expression; its verdict must equal distinct(name) && mutable && !const",
    technique="type-level witnesses: overload-resolution queries decided by the compiler for every swizzle name and write form",
)

PRE = r'''
template <class X> using lv = X&;
template <class S> concept WIdx = requires(S s) { requires std::is_assignable_v<decltype((s[0])), int>; };
template <class S> concept WData = requires(S s) { requires std::is_assignable_v<decltype((*s.data())), int>; };
template <class S> concept WBegin = requires(S s) { requires std::is_assignable_v<decltype((*s.begin())), int>; };
template <class S> concept WRev = requires(S s) { requires std::is_assignable_v<decltype((*s.rbegin())), int>; };
template <class S, class V> concept WAssign = requires(S s, const V& v) { s = v; };
template <class S, class V> concept WAdd = requires(S s, const V& v) { s += v; };
template <class S> concept WMulS = requires(S s) { s *= 2; };
template <class S> concept WInc = requires(S s) { ++s; };
template <class S> concept WPInc = requires(S s) { s++; };
template <class S> concept WDec = requires(S s) { --s; };
template <class S> concept WPDec = requires(S s) { s--; };
template <class S> concept WShl = requires(S s) { s <<= 1; };
template <class S> concept WSet1 = requires(S s) { s.set(1); };
template <class S> concept WSet2 = requires(S s) { s.set(1,2); };
template <class S> concept WSet3 = requires(S s) { s.set(1,2,3); };
template <class S> concept WSet4 = requires(S s) { s.set(1,2,3,4); };
template <class S, class V> concept Reads = requires(S s) { V(s); requires std::convertible_to<decltype(s[0]), int>; s.cbegin(); s.crbegin(); std::as_const(s).data(); requires std::convertible_to<decltype(get<0>(std::as_const(s))), int>; };
template <class S> concept WBaseIdx = requires(S s) { requires std::is_assignable_v<decltype((s.as_base()[0])), int>; };
template <class S> concept WGet = requires(S s) { requires std::is_assignable_v<decltype((get<0>(s))), int>; };
#define CT(...) template <class X> using
'''
WAYS = [("assign", "WAssign<%s,basic_vector<int,{n}>>"), ("compound", "WAdd<%s,basic_vector<int,{n}>>"), ("scalar-compound", "WMulS<%s>"), ("++", "WInc<%s>"), ("post++", "WPInc<%s>"),
        ("--", "WDec<%s>"), ("post--", "WPDec<%s>"), ("<<=", "WShl<%s>"), ("set", "WSet{n}<%s>"), ("[]", "WIdx<%s>"), ("data", "WData<%s>"), ("begin", "WBegin<%s>"), ("rbegin", "WRev<%s>"),
        ("base[]", "WBaseIdx<%s>"), ("get", "WGet<%s>")]


def run(c):
    items, same, whole = [], [], []
    objs = [("vector", "basic_vector<int,%d>", "&", True), ("const vector", "const basic_vector<int,%d>", "&", False),
            ("view", "basic_view<true,int,%d>", "&", True), ("const view", "const basic_view<true,int,%d>", "&", False), ("view of const", "basic_view<false,int,%d>", "&", False),
            ("view_vector", "view_vector<int,%d>", "&", True), ("const view_vector", "const view_vector<int,%d>", "&", False)]
    if c.tier == "quick":
        few = {"const vector", "const view", "view of const", "view_vector", "const view_vector"}
    else:
        few = set()
    for what, ty, ref, mut in objs:
        for size in (1, 2, 3, 4):
            for nm, t in names(size):
                if what in few and size == 4 and len(t) == 4 and not distinct(t) and sum(t) % 5:
                    continue
                n = len(t)
                S = "decltype((std::declval<%s&>().%s))" % (ty % size, nm)
                want = distinct(t) and mut
                terms = [("" if want else "!") + w.format(n=n) % S for _, w in WAYS]
                items.append(("%s%d.%s" % (what, size, nm), " && ".join("(%s)" % x for x in terms),
                              "every write form through %s<%d>.%s must be %s" % (what, size, nm, "accepted" if want else "rejected")))
                items.append(("read.%s%d.%s" % (what, size, nm), "Reads<%s,basic_vector<int,%d>>" % (S, n), "reading %s<%d>.%s must compile" % (what, size, nm)))
                if what in ("vector", "view") and not distinct(t):
                    same.append(("%s%d.%s" % (what, size, nm), "!std::is_assignable_v<%s, %s>" % (S, S), "u.%s = v.%s for u, v of the same type must be rejected" % (nm, nm)))
    # whole objects
    for size in (1, 2, 3, 4):
        for what, ty, ref, mut in objs:
            S = (ty % size) + "&"
            ways = [w for w in WAYS]
            whole.append(("%s%d" % (what, size), " && ".join("(%s%s)" % ("" if mut else "!", w.format(n=size) % S) for _, w in ways),
                          "every write form of %s<%d> must be %s" % (what, size, "accepted" if mut else "rejected")))
        V = "basic_vector<int,%d>" % size
        whole.append(("temporary vector%d" % size, "!std::is_assignable_v<%s, %s> && !std::is_assignable_v<%s, basic_vector<short_,%d>>" % (V, V, V, size) if False else
                      "!std::is_assignable_v<%s, %s>" % (V, V), "a temporary vector must not be assignable"))
        whole.append(("temporary view%d" % size, "std::is_assignable_v<basic_view<true,int,%d>, %s> && !std::is_assignable_v<basic_view<false,int,%d>, %s>" % (size, V, size, V),
                      "a temporary view is assignable exactly if its data is mutable"))
        for m2 in ("true", "false"):
            whole.append(("view from const%d.%s" % (size, m2), "std::is_constructible_v<basic_view<%s,int,%d>, const int*> == %s && std::is_constructible_v<basic_view<%s,int,%d>, int*>" % (
                m2, size, "true" if m2 == "false" else "false", m2, size), "a view of mutable data cannot be made from a pointer to const"))
            whole.append(("reset const%d.%s" % (size, m2), "CanReset<basic_view<%s,int,%d>, const int*> == %s && CanReset<basic_view<%s,int,%d>, int*>" % (
                m2, size, "true" if m2 == "false" else "false", m2, size), "a view of mutable data cannot be reset to a pointer to const"))
        whole.append(("view wrap%d" % size, "!std::is_copy_assignable_v<basic_view<true,int,%d>> && !std::is_move_assignable_v<basic_view<true,int,%d>>" % (size, size),
                      "views are not re-seated by assignment"))
    pre = PRE.replace("#define CT(...) template <class X> using\n", "") + "template <class V, class P> concept CanReset = requires(V v, P p) { v.reset(p); };\n"
    ctl = [("control.accept", "WAssign<decltype((std::declval<const ivec3&>().xy)), ivec2>", "", "false"), ("control.reject", "!WInc<decltype((std::declval<ivec3&>().zx))>", "", "false")]
    hs = [c.witness("swizzle-writes", items + ctl, prelude=pre, minimum=1000), c.witness("whole-object", whole + ctl, prelude=pre, minimum=50),
          c.witness("same-read-only", same + ctl, prelude=pre, minimum=300)]
    for h in hs:
        c.collect_witness(h)
