from fw import Case
from gen import *

META = dict(
    title="Iterators walk every component once, in order, and stop at the ends",
    statement="Iterating a vector, swizzle, view or matrix forwards visits its components (columns) in logical order exactly once, and reverse iteration visits them in the opposite order. Swizzle iterators behave as random-access positions 0..n: moving by any distance that stays within 0..n, measuring distances and comparing agree with integer positions, begin advanced by n equals end, and dereferencing position i designates component i for reading and, for writable swizzles, for writing. Moving outside 0..n or dereferencing outside 0..n-1 is stopped by an assertion.",
    quant=("histories", "all sequences of iterator movements and all symbolic offsets, all swizzle lengths, vectors and views"),
    why="Tests iterate with range-for and a few constant offsets; the assertion bounds and arithmetic must be right for every position and offset, including the end position.",
    anchors=["include/dsga.hxx"],
    mech=[("iterator arithmetic and range assertions", "indexed_vector_const_iterator, indexed_vector_iterator, indexed_view_const_iterator, indexed_view_iterator"), ("begin/end/rbegin/rend", "storage_wrapper, view_wrapper, indexed_vector, indexed_view, basic_matrix")],
    explanation="iterator expressions are lowered with symbolic offsets; assertion conditions, designated addresses, distances and comparison results are compared with integer positions in 0..n",
    technique="value numbering with symbolic positions over clang LLVM IR, interval case analysis of assertion conditions",
)


def run(c):
    p, w = [], []
    forms = [("vec", "swz", False), ("vec", "swz", True), ("view", "iview", False), ("view", "iview", True)]
    for base, k, mut in forms:
        for n in (1, 2, 3, 4):
            for T in (["int"] if n != 3 else ["int", "double"]):
                o = operand(k, T, n, "a", mut)
                s, perm = SWZ[n]
                tag = "%s%d%s%s" % (k, n, T, ".mut" if mut else "")
                q = "" if mut else "const "
                R = "%s%s*" % (q, T)
                sel = "".join("if(i==%d) return a+%d; " % (j, v) for j, v in enumerate(perm)) + "return a;"
                rng, inr = "NEED(i>=0&&i<=%d); " % n, "NEED(i>=0&&i<%d); " % n
                e = o.expr
                I = o.raw + ", int i"
                D = o.decl + ", int i"
                rsel = "".join("if(i==%d) return a+%d; " % (j, v) for j, v in enumerate(reversed(perm))) + "return a;"
                N = o.need
                p += [
                    Case(tag + ".*(begin+i)", D, "return &*(%s.begin()+i);" % e, I, inr + N + sel, ret=R),
                    Case(tag + ".*(i+begin)", D, "return &*(i+%s.begin());" % e, I, inr + N + sel, ret=R),
                    Case(tag + ".begin[i]", D, "return &%s.begin()[i];" % e, I, inr + N + sel, ret=R),
                    Case(tag + ".*(end-i)", D, "return &*(%s.end()-i);" % e, I, "NEED(i>=1&&i<=%d); i=%d-i; " % (n, n) + N + sel, ret=R),
                    Case(tag + ".*(begin+=i)", D, "auto it=%s.begin(); it+=i; return &*it;" % e, I, inr + N + sel, ret=R),
                    Case(tag + ".*(end-=i)", D, "auto it=%s.end(); it-=i; return &*it;" % e, I, "NEED(i>=1&&i<=%d); i=%d-i; " % (n, n) + N + sel, ret=R),
                    Case(tag + ".rbegin[i]", D, "return &*(%s.rbegin()+i);" % e, I, inr + N + rsel, ret=R),
                    Case(tag + ".*(cbegin+i)", D, "return &*(%s.cbegin()+i);" % e, I, inr + N + sel.replace("a+", "a+"), ret="const %s*" % T),
                    Case(tag + ".arrow", D, "return (%s.begin()+i).operator->();" % e, I, inr + N + sel, ret=R),
                    Case(tag + ".distance", o.decl + ", int i, int j", "return (int)((%s.begin()+i)-(%s.begin()+j));" % (e, e), o.raw + ", int i, int j", rng + rng.replace("i>=0&&i", "j>=0&&j") + "return i-j;", ret="int"),
                    Case(tag + ".end-begin", o.decl, "return (int)(%s.end()-%s.begin());" % (e, e), o.raw, "return %d;" % n, ret="int"),
                    Case(tag + ".begin+n==end", "bool* o, " + o.decl, "put(o, bool(%s.begin()+%d==%s.end() && %s.end()-%d==%s.begin()));" % (e, n, e, e, n, e), "bool* o, " + o.raw, "*o=true;"),
                ]
                for op in ("==", "!=", "<", "<=", ">", ">="):
                    p.append(Case(tag + ".cmp" + op, "bool* o, " + o.decl + ", int i, int j", "put(o, bool((%s.begin()+i) %s (%s.begin()+j)));" % (e, op, e), "bool* o, " + o.raw + ", int i, int j",
                                  rng + rng.replace("i>=0&&i", "j>=0&&j") + "*o = i %s j;" % op))
                p += [
                    Case(tag + ".++", D, "auto it=%s.begin()+i; ++it; return (int)(it-%s.begin());" % (e, e), I, inr + "return i+1;", ret="int"),
                    Case(tag + ".post++", D, "auto it=%s.begin()+i; auto b=it++; return (int)(it-%s.begin())*16+(int)(b-%s.begin());" % (e, e, e), I, inr + "return (i+1)*16+i;", ret="int"),
                    Case(tag + ".--", D, "auto it=%s.begin()+i; --it; return (int)(it-%s.begin());" % (e, e), I, "NEED(i>=1&&i<=%d); return i-1;" % n, ret="int"),
                    Case(tag + ".post--", D, "auto it=%s.begin()+i; auto b=it--; return (int)(it-%s.begin())*16+(int)(b-%s.begin());" % (e, e, e), I, "NEED(i>=1&&i<=%d); return (i-1)*16+i;" % n, ret="int"),
                    Case(tag + ".+-", o.decl + ", int i, int j", "auto it=%s.begin(); it+=i; it-=j; return (int)(it-%s.begin());" % (e, e), o.raw + ", int i, int j", rng + "NEED(i-j>=0 && i-j<=%d && j>=-4&&j<=4); return i-j;" % n, ret="int") if False else
                    Case(tag + ".walk", "%s* o, " % T + o.decl, "for (auto it=%s.cbegin(); it!=%s.cend(); ++it) *o++ = *it;" % (e, e), "%s* o, " % T + o.raw, N + "".join("o[%d]=a[%d];" % (j, v) for j, v in enumerate(perm))),
                    Case(tag + ".for", "%s* o, " % T + o.decl, "for (auto x : %s) *o++ = x;" % e, "%s* o, " % T + o.raw, N + "".join("o[%d]=a[%d];" % (j, v) for j, v in enumerate(perm))),
                    Case(tag + ".rwalk", "%s* o, " % T + o.decl, "for (auto it=%s.rbegin(); it!=%s.rend(); ++it) *o++ = *it;" % (e, e), "%s* o, " % T + o.raw, N + "".join("o[%d]=a[%d];" % (j, v) for j, v in enumerate(reversed(perm)))),
                    Case(tag + ".crwalk", "%s* o, " % T + o.decl, "for (auto it=%s.crbegin(); it!=%s.crend(); ++it) *o++ = *it;" % (e, e), "%s* o, " % T + o.raw, N + "".join("o[%d]=a[%d];" % (j, v) for j, v in enumerate(reversed(perm)))),
                    Case(tag + ".basefor", "%s* o, " % T + o.decl, "for (auto x : %s.as_base()) *o++ = x;" % e, "%s* o, " % T + o.raw, N + "".join("o[%d]=a[%d];" % (j, v) for j, v in enumerate(perm))),
                ]
                if mut:
                    p.append(Case(tag + ".fill", o.decl + ", const %s* b" % T, "for (auto& x : %s) x = *b++;" % e, o.raw + ", const %s* b" % T, N + "".join("a[%d]=b[%d];" % (v, j) for j, v in enumerate(perm))))
                    p.append(Case(tag + ".rfill", o.decl + ", const %s* b" % T, "for (auto it=%s.rbegin(); it!=%s.rend(); it++) *it = *b++;" % (e, e), o.raw + ", const %s* b" % T,
                                  N + "".join("a[%d]=b[%d];" % (v, j) for j, v in enumerate(reversed(perm)))))
    # whole vectors, views, matrices
    for n in (1, 2, 3, 4):
        for k in ("vec", "view", "cview", "vv"):
            for mut in ((False, True) if k != "cview" else (False,)):
                T = "float"
                o = operand(k, T, n, "a", mut)
                q = "" if (mut) else "const "
                tag = "%s%d%s" % (k, n, ".mut" if mut else "")
                R = "%s%s*" % (q, T)
                N, e = o.need, o.expr
                cp = "".join("o[%d]=a[%d];" % (j, j) for j in range(n))
                rv = "".join("o[%d]=a[%d];" % (j, n - 1 - j) for j in range(n))
                for base in ("", ".as_base()"):
                    x = e + base
                    p += [Case(tag + base + ".begin", o.decl, "return std::to_address(%s.begin());" % x, o.raw, N + "return a;", ret=R),
                          Case(tag + base + ".end", o.decl, "return std::to_address(%s.end());" % x, o.raw, N + "return a+%d;" % n, ret=R),
                          Case(tag + base + ".cbegin", o.decl, "return std::to_address(%s.cbegin());" % x, o.raw, N + "return a;", ret="const float*"),
                          Case(tag + base + ".cend", o.decl, "return std::to_address(%s.cend());" % x, o.raw, N + "return a+%d;" % n, ret="const float*"),
                          Case(tag + base + ".for", "float* o, " + o.decl, "for (auto v : %s) *o++ = v;" % x, "float* o, " + o.raw, N + cp),
                          Case(tag + base + ".rev", "float* o, " + o.decl, "for (auto it=%s.rbegin(); it!=%s.rend(); ++it) *o++ = *it;" % (x, x), "float* o, " + o.raw, N + rv),
                          Case(tag + base + ".crev", "float* o, " + o.decl, "for (auto it=%s.crbegin(); it!=%s.crend(); ++it) *o++ = *it;" % (x, x), "float* o, " + o.raw, N + rv)]
                if mut:
                    p.append(Case(tag + ".fill", o.decl + ", const float* b", "for (auto& v : %s) v = *b++;" % e, o.raw + ", const float* b", N + "".join("a[%d]=b[%d];" % (j, j) for j in range(n))))
    for T in FLOATS:
        for C in (2, 3, 4):
            for R in (2, 3, 4):
                M = "basic_matrix<%s,%d,%d>" % (T, C, R)
                for cq in ("", "const "):
                    tag = "mat%dx%d%s%s" % (C, R, T, cq.strip())
                    p += [Case(tag + ".for", "%s* o, %s%s& m" % (T, cq, M), "for (auto& col : m) for (auto v : col) *o++ = v;", "%s* o, const %s* m" % (T, T), "for(int i=0;i<%d;i++) o[i]=m[i];" % (C * R)),
                          Case(tag + ".rev", "%s* o, %s%s& m" % (T, cq, M), "for (auto it=m.rbegin(); it!=m.rend(); ++it) for (auto v : *it) *o++ = v;", "%s* o, const %s* m" % (T, T),
                               "".join("o[%d]=m[%d];" % (i * R + j, (C - 1 - i) * R + j) for i in range(C) for j in range(R))),
                          Case(tag + ".crev", "%s* o, %s%s& m" % (T, cq, M), "for (auto it=m.crbegin(); it!=m.crend(); ++it) for (auto v : *it) *o++ = v;", "%s* o, const %s* m" % (T, T),
                               "".join("o[%d]=m[%d];" % (i * R + j, (C - 1 - i) * R + j) for i in range(C) for j in range(R))),
                          Case(tag + ".end-begin", "%s%s& m" % (cq, M), "return (int)(m.end()-m.begin());", "const %s* m" % T, "return %d;" % C, ret="int"),
                          Case(tag + ".cend-cbegin", "%s%s& m" % (cq, M), "return (int)(m.cend()-m.cbegin());", "const %s* m" % T, "return %d;" % C, ret="int")]
    for n in (2, 3, 4):
        for V in ("basic_vector<int,4>", "basic_view<true,int,4>"):
            nm = "".join(L[i] for i in SWZ[n][1])
            S = "decltype(std::declval<%s&>().%s)" % (V, nm)
            w.append(("category.%s.%s" % (V[6:10], nm), "std::random_access_iterator<decltype(std::declval<{0}&>().begin())> && std::random_access_iterator<decltype(std::declval<const {0}&>().begin())> && std::same_as<std::iter_reference_t<decltype(std::declval<{0}&>().begin())>, int&> && std::same_as<std::iter_reference_t<decltype(std::declval<const {0}&>().begin())>, const int&>".format(S),
                      "swizzle iterators must be random access with the right constness"))
    for V, kind in (("basic_vector<int,3>", "contiguous"), ("basic_view<true,int,3>", "contiguous"), ("basic_matrix<float,3,2>", "contiguous")):
        w.append(("contiguous." + V, "std::contiguous_iterator<decltype(std::declval<{0}&>().begin())> && std::contiguous_iterator<decltype(std::declval<const {0}&>().begin())> && std::is_const_v<std::remove_reference_t<decltype(*std::declval<const {0}&>().begin())>>".format(V),
                  V + " iterators must be contiguous and const-correct"))
    ctl = [Case("control.offby1", "const vec3& a, int i", "return &*(a.zyx.begin()+i);", "const float* a, int i", "NEED(i>=0&&i<=3); return a+(2-i);", ret="const float*", expect="differs"),
           Case("control.dir", "float* o, const vec3& a", "for (auto it=a.zyx.rbegin(); it!=a.zyx.rend(); ++it) *o++ = *it;", "float* o, const float* a", "o[0]=a[2];o[1]=a[1];o[2]=a[0];", expect="differs")]
    h = c.pairs("iterators", p + ctl, minimum=600, shard=60)
    hw = c.witness("category", w, minimum=8)
    c.collect(h)
    c.collect_witness(hw)
