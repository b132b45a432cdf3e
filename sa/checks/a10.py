from fw import Case
from gen import *

META = dict(
    title="swap exchanges all components, and refuses overlapping views unharmed",
    statement="Swapping two vectors, matrices, view_vectors or views (member or free function) exchanges every component and nothing else, and swapping an object with itself changes nothing. Swapping two views exchanges the elements they refer to, not the pointers; when the two ranges overlap without being the same the swap raises range_error and leaves every element as it was, and two ranges that merely touch are exchanged normally.",
    quant=("inputs", "all component values, all relative positions of two views, all sizes and shapes"),
    why="The boundary between overlapping and adjacent ranges depends on size and on which view is first; tests use one or two placements.",
    anchors=["include/dsga.hxx"],
    mech=[("overlap test", "view_wrapper::swap"), ("swap members and free swap()", "storage_wrapper, basic_vector, basic_view, basic_matrix")],
    explanation="both swap forms are lowered for symbolic, for every constant relative position, and for identical operands; the throw condition, the stored bytes, and (through a catching caller) the bytes after a throw are compared with the reference",
    technique="value numbering of exchange permutations and of the throw condition over clang LLVM IR",
)


def sw(a, b, n, T):
    return "".join("{ %s t=%s[%d]; %s[%d]=%s[%d]; %s[%d]=t; }" % (T, a, i, a, i, b, i, b, i) for i in range(n))


def run(c):
    p, w = [], []
    for T in ("float", "bool", "ll", "int", "double"):
        for n in (1, 2, 3, 4):
            V, W, VV = "basic_vector<%s,%d>" % (T, n), "basic_view<true,%s,%d>" % (T, n), "view_vector<%s,%d>" % (T, n)
            for nm, cls, raw in (("vec", V, "%s* u, %s* v" % (T, T)), ("storage", "storage_wrapper<true,%s,%d>" % (T, n), "%s* u, %s* v" % (T, T))):
                for op, ex in (("member", "u.swap(v);"), ("free", "swap(u, v);"), ("adl", "using std::swap; swap(u, v);")):
                    p.append(Case("%s.%s.%s%d" % (nm, op, T, n), "%s& u, %s& v" % (cls, cls), ex, raw, sw("u", "v", n, T)))
                p.append(Case("%s.self.%s%d" % (nm, T, n), "%s& u" % cls, "u.swap(u); swap(u, u);", "%s* u" % T, ""))
            cond = "if (u == v) return; if ((u <= v && v <= u+%d) || (v <= u && u <= v+%d)) throw std::range_error(\"\"); " % (n - 1, n - 1)
            for nm, cls in (("view", W), ("vwrap", "view_wrapper<true,%s,%d>" % (T, n)), ("vv", VV)):
                raw = "%s* const& u, %s* const& v" % (T, T)
                for op, ex in (("member", "u.swap(v);"), ("free", "swap(u, v);")):
                    if not (nm == "vv" and op == "free"):
                        p.append(Case("%s.%s.%s%d" % (nm, op, T, n), "%s& u, %s& v" % (cls, cls), ex, raw, "NEED(u); NEED(v); " + cond + sw("u", "v", n, T), palign=SIZE[T]))
                p.append(Case("%s.self.%s%d" % (nm, T, n), "%s& u" % cls, "u.swap(u);", "%s* const& u" % T, "NEED(u);"))
            # every relative position, and the state after a refused swap
            for d in range(-n - 1, n + 2):
                a, b = max(-d, 0), max(d, 0)
                s = "u_=p+%d; v_=p+%d" % (a, b)
                ov = 0 < abs(d) < n
                for nm, cls in (("view", W), ("vwrap", "view_wrapper<true,%s,%d>" % (T, n))):
                    for op, ex in (("m", "u.swap(v);"), ("f", "swap(u, v);")):
                        if nm == "vwrap" and T != "float":
                            continue
                        impl = "%s* p = p_.data(); %s u(p+%d), v(p+%d); try { %s r[0]=0; } catch (const std::range_error&) { r[0]=1; }" % (T, cls, a, b, ex)
                        spec = ("r[0]=1;" if ov else ("r[0]=0;" if d == 0 else "%s* u=p+%d; %s* v=p+%d; " % (T, a, T, b) + sw("u", "v", n, T) + " r[0]=0;"))
                        p.append(Case("place.%s.%s.%s%d.%+d" % (nm, op, T, n, d), "std::array<%s,12>& p_, int* r" % T, impl, "%s* p, int* r" % T, spec))
            w.append(("noexcept.%s%d" % (T, n), "noexcept(std::declval<{0}&>().swap(std::declval<{0}&>())) && noexcept(swap(std::declval<{0}&>(),std::declval<{0}&>())) && !noexcept(std::declval<{1}&>().swap(std::declval<{1}&>())) && !noexcept(swap(std::declval<{1}&>(),std::declval<{1}&>())) && "
                      "!noexcept(swap(std::declval<view_wrapper<true,{2},{3}>&>(),std::declval<view_wrapper<true,{2},{3}>&>()))".format(V, W, T, n), "vector swap cannot throw; view swap must let range_error out"))
            w.append(("swappable.%s%d" % (T, n), "std::is_swappable_v<{0}> && std::is_swappable_v<{1}> && std::is_swappable_v<{2}>".format(V, W, VV), "swappable through ADL"))
    for T in FLOATS:
        for C in (2, 3, 4):
            for R in (2, 3, 4):
                M = "basic_matrix<%s,%d,%d>" % (T, C, R)
                for op, ex in (("member", "u.swap(v);"), ("free", "swap(u, v);")):
                    p.append(Case("mat.%s.%s%dx%d" % (op, T, C, R), "%s& u, %s& v" % (M, M), ex, "%s* u, %s* v" % (T, T), sw("u", "v", C * R, T)))
                p.append(Case("mat.self.%s%dx%d" % (T, C, R), "%s& u" % M, "u.swap(u);", "%s* u" % T, ""))
                p.append(Case("mat.cols.%s%dx%d" % (T, C, R), "%s& u" % M, "swap(u[0], u[%d]);" % (C - 1), "%s* u" % T, sw("u", "(u+%d)" % ((C - 1) * R), R, T)))
    ctl = [Case("control.perm", "vec2& u, vec2& v", "u.swap(v);", "float* u, float* v", "float t=u[0]; u[0]=v[0]; v[0]=t;", expect="differs"),
           Case("control.bound", "view2& u, view2& v", "u.swap(v);", "float* const& u, float* const& v", "NEED(u); NEED(v); if (u==v) return; if ((u<=v && v<=u+2) || (v<=u && u<=v+1)) throw std::range_error(\"\"); " + sw("u", "v", 2, "float"), expect="differs", palign=4)]
    h = c.pairs("exchange", p + ctl, minimum=600)
    hw = c.witness("types", w, minimum=40)
    c.collect(h)
    c.collect_witness(hw)
