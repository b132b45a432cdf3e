from fw import Case
from gen import *

META = dict(
    title="A view_vector owns its storage: value semantics over a view interface",
    statement="A view_vector always refers to its own storage. Default construction gives zeros; constructing, copying, moving and assigning copy the component values, after which source and destination are independent, including after moves, self-assignment, swaps and returns by value. No sequence of these makes one view_vector refer to another's storage or to storage that no longer exists.",
    quant=("histories", "all component values; chains of construction, copy, move, assignment, swap, pass and return by value, element writes after each"),
    why="A copied internal pointer gives right answers until the source changes or dies; tests check values right after the copy.",
    anchors=["include/dsga.hxx"],
    mech=[("owning view", "view_vector constructors and assignment operators: base pointer set to own store, values copied")],
    explanation="programs of two or three operations over local view_vectors are lowered; the base pointer of each object is a known storage location in the IR, so value numbering of the final components decides independence; references outliving storage would show as a read of another object",
    technique="points-to and value numbering over clang LLVM IR of operation chains, compared with independent arrays",
)


def run(c):
    p, w = [], []
    for T in ("float", "int", "double", "bool"):
        for n in (1, 2, 3, 4):
            VV, V = "view_vector<%s,%d>" % (T, n), "basic_vector<%s,%d>" % (T, n)
            sig = "%s* o, const %s* a, const %s* b, %s s" % (T, T, T, T)
            if T == "bool":
                sig = "bool* o, const bool* a, const bool* b, const bool* s_"
            S = "const %s s = *s_; " % T if T == "bool" else ""
            A = "%s u{%s}; " % (VV, "a[0]" if n == 1 else ",".join("a[%d]" % i for i in range(n)))
            B = "%s v{%s}; " % (VV, "b[0]" if n == 1 else ",".join("b[%d]" % i for i in range(n)))
            ra = "%s u[%d]={%s}; " % (T, n, ",".join("a[%d]" % i for i in range(n)))
            rb = "%s v[%d]={%s}; " % (T, n, ",".join("b[%d]" % i for i in range(n)))
            st = lambda *xs: "".join("o[%d]=%s[%d];" % (k * n + i, x, i) for k, x in enumerate(xs) for i in range(n))
            cp = lambda d, s_: "for(int i=0;i<%d;i++) %s[i]=%s[i]; " % (n, d, s_)
            new = lambda d, s_: "%s %s[%d]; " % (T, d, n) + cp(d, s_)
            k = n - 1
            wr = lambda x: "%s[%d]=s; " % (x, k)

            def add(nm, impl, spec):
                p.append(Case("%s.%s%d" % (nm, T, n), sig, S + impl, sig, S + spec))
            add("default", "%s u; %s" % (VV, st("u")), "%s u[%d]={}; %s" % (T, n, st("u")))
            add("init", A + st("u"), ra + st("u"))
            add("copy", A + "%s v(u); " % VV + wr("u") + st("u", "v"), ra + new("v", "u") + wr("u") + st("u", "v"))
            add("copy.write", A + "%s v(u); " % VV + wr("v") + st("u", "v"), ra + new("v", "u") + wr("v") + st("u", "v"))
            add("move", A + "%s v(std::move(u)); " % VV + wr("u") + st("v"), ra + new("v", "u") + st("v"))
            add("move.write", A + "%s v(std::move(u)); " % VV + wr("v") + st("v"), ra + new("v", "u") + wr("v") + st("v"))
            add("assign", A + B + "u = v; " + wr("v") + st("u", "v"), ra + rb + cp("u", "v") + wr("v") + st("u", "v"))
            add("assign.write", A + B + "u = v; " + wr("u") + st("u", "v"), ra + rb + cp("u", "v") + wr("u") + st("u", "v"))
            add("assign.move", A + B + "u = std::move(v); " + wr("v") + st("u"), ra + rb + cp("u", "v") + st("u"))
            add("assign.self", A + "auto& q = u; u = q; " + wr("u") + st("u"), ra + wr("u") + st("u"))
            add("assign.temp", A + "u = %s{%s}; " % (VV, ",".join("b[%d]" % i for i in range(n))) + wr("u") + st("u"), ra + cp("u", "b") + wr("u") + st("u"))
            add("from-vector", "%s q{%s}; " % (V, ",".join("a[%d]" % i for i in range(n))) + "%s u(q); q[%d]=s; " % (VV, k) + st("u"), ra + st("u"))
            add("swap.member", A + B + "u.swap(v); " + wr("u") + st("u", "v"), ra + rb + "for(int i=0;i<%d;i++){ %s t=u[i]; u[i]=v[i]; v[i]=t; } " % (n, T) + wr("u") + st("u", "v"))
            add("swap.free", A + B + "swap(u, v); " + wr("u") + st("u", "v"), ra + rb + "for(int i=0;i<%d;i++){ %s t=u[i]; u[i]=v[i]; v[i]=t; } " % (n, T) + wr("u") + st("u", "v"))
            add("swap.std", A + B + "std::swap(u, v); " + wr("v") + st("u", "v"), ra + rb + "for(int i=0;i<%d;i++){ %s t=u[i]; u[i]=v[i]; v[i]=t; } " % (n, T) + wr("v") + st("u", "v"))
            add("return", "auto f=[&]{ %s u{%s}; %s w(u); w[%d]=s; return w; }; %s v = f(); %s w(v); %s" % (VV, ",".join("a[%d]" % i for i in range(n)), VV, k, VV, VV, st("v", "w")),
                ra + wr("u") + st("u", "u"))
            add("return.param", A + "auto f=[](%s q) { return q; }; %s v = f(u); %s" % (VV, VV, wr("u") + st("u", "v")), ra + new("v", "u") + wr("u") + st("u", "v"))
            add("array", A + B + "%s q[2] = { u, v }; std::swap(q[0], q[1]); %s" % (VV, wr("u") + st("q[0]", "q[1]")), ra + rb + st("v", "u"))
            add("chain", A + B + "%s q(u); q = v; v = u; u = q; %s" % (VV, wr("q") + st("u", "v", "q")), ra + rb + new("q", "v") + cp("v", "u") + cp("u", "q") + wr("q") + st("u", "v", "q"))
            add("own.data", A + "%s v(u); bool z = u.data()!=v.data() && u.data()==&u.store[0] && v.data()==&v.store[0] && &u[0]==&u.store[0]; v=u; z = z && u.data()!=v.data(); o[0]=z;" % VV, "o[0]=true;")
            add("view-of", A + "basic_view<true,%s,%d> q(u); q[%d]=s; %s" % (T, n, k, st("u", "q")), ra + wr("u") + st("u", "u"))
            if T != "bool":
                add("scalar", "%s u(s); %s" % (VV, st("u")), "%s u[%d]; for(auto& x:u) x=s; %s" % (T, n, st("u")))
                add("from-swizzle", "basic_vector<%s,4> q{b[0],a[0],b[0],a[0]}; %s u(q.%s); q.x=s; q.y=s; %s" % (T, VV, "yxwz"[:n], st("u")),
                    "%s u[%d]={%s}; %s" % (T, n, ",".join(["a[0]", "b[0]", "a[0]", "b[0]"][:n]), st("u")))
                add("assign.vector", A + "%s q{%s}; u = q; q[%d]=s; %s" % (V, ",".join("b[%d]" % i for i in range(n)), k, st("u")), rb + st("v"))
                add("assign.view", A + "%s q[%d]={%s}; basic_view<true,%s,%d> z(q); u = z.%s; q[%d]=s; %s" % (T, n, ",".join("b[%d]" % i for i in range(n)), T, n, "xyzw"[:n], k, st("u")), rb + st("v"))
                n > 1 and add("assign.expr", A + B + "u = u + v; " + wr("v") + st("u"), ra + rb + "for(int i=0;i<%d;i++) u[i]=u[i]+v[i]; " % n + st("u"))
                add("incr", A + "%s v(u); ++u; %s" % (VV, st("u", "v")), ra + new("v", "u") + "for(auto& x:u) x = x + 1; " + st("u", "v"))
                add("compound", A + B + "u += v; " + wr("v") + st("u"), ra + rb + "for(int i=0;i<%d;i++) u[i]=u[i]+v[i]; " % n + st("u"))
                add("assign.chain", A + B + "%s q; (q = u) = v; %s" % (VV, wr("v") + st("q", "u")), ra + rb + st("v", "u").replace("v[%d]" % 0, "v[0]"))
                for S2 in ("int", "float"):
                    if S2 != T and implicit(S2, T):
                        p.append(Case("convert.%s.%s%d" % (S2, T, n), "%s* o, const basic_vector<%s,%d>& a" % (T, S2, n), "%s u(a); %s v; v = a; %s" % (VV, VV, st("u", "v")),
                                      "%s* o, const %s* a" % (T, S2), "".join("o[%d]=o[%d]=(%s)a[%d];" % (i, i + n, T, i) for i in range(n))))
            w.append(("traits.%s%d" % (T, n), "std::is_nothrow_copy_constructible_v<{0}> && std::is_nothrow_move_constructible_v<{0}> && std::is_copy_assignable_v<{0}> && std::is_move_assignable_v<{0}> && std::is_default_constructible_v<{0}> && !std::is_trivially_copyable_v<{0}> && std::is_base_of_v<basic_view<true,{1},{2}>,{0}> && std::is_convertible_v<{0}*,basic_view<true,{1},{2}>*> && !std::is_convertible_v<{1}*,{0}> && (std::same_as<{1},bool> || !std::is_constructible_v<{0},{1}*>)".format(VV, T, n),
                      "view_vector must be a regular value type that never adopts a caller's pointer"))
    ctl = [Case("control.shared", "float* o, const float* a, float s", "view_vector<float,2> u{a[0],a[1]}; basic_view<true,float,2> v(u); u[0]=s; o[0]=v[0];", "float* o, const float* a, float s", "o[0]=a[0];", expect="differs")]
    h = c.pairs("value-semantics", p + ctl, minimum=350)
    hw = c.witness("types", w, minimum=16)
    c.collect(h)
    c.collect_witness(hw)
