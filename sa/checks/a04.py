from fw import Case
from gen import *

META = dict(
    title="Indexing returns the named component and never leaves the object",
    statement="Indexing a vector, swizzle, view or matrix with a value i designates the component (or column) at logical position i, for reading and for writing, for every integer index type. With assertions enabled, every index outside the object is stopped by an assertion before any memory is touched, including negative ones and ones larger than any size. Compile-time element access, row extraction and structured bindings designate the same components.",
    quant=("inputs", "all index values of every integer index type, all sizes and forms of vectors, swizzles, views, matrices"),
    why="A test cannot check that out-of-range indexing aborts without dying, and samples only a few in-range indexes.",
    anchors=["include/dsga.hxx"],
    mech=[("index assertions", "operator[] of storage_wrapper, view_wrapper, indexed_vector, indexed_view, basic_matrix; basic_matrix::row"), ("get<N>", "get overloads for vector_base and basic_matrix")],
    explanation="each operator[] is lowered with a symbolic index; the condition under which control reaches the assertion, and the address returned otherwise, are compared with 0<=i<n and base+offset[i] by case analysis over the index's intervals",
    technique="value numbering with a symbolic index and interval case analysis over clang LLVM IR: assertion condition and returned address",
)
ITYPES = ["int", "unsigned", "ll", "size_t", "ull"]


def need(it, n):
    return "NEED(i>=0 && i<%d); " % n if it in ("int", "ll") else "NEED(i<%d); " % n


def run(c):
    p, g = [], []
    for n in (1, 2, 3, 4):
        for it in ITYPES:
            for T in (["double"] if it != "int" else ["double", "bool", "int", "float"]):
                for k in ("vec", "swz", "view", "cview", "iview", "vv"):
                    if n == 1 and k in ("swz", "iview"):
                        continue
                    for mut in ((False, True) if k != "cview" else (False,)):
                        if mut and T not in ("double", "bool"):
                            continue
                        o = operand(k, T, n, "a", mut)
                        cq = "" if mut else "const "
                        if k in ("swz", "iview"):
                            s, perm = SWZ[n]
                            body = "".join("if(i==%d) return a+%d; " % (j, v) for j, v in enumerate(perm)) + "return a;"
                        else:
                            body = "return a+i;"
                        for how, ex in (("", o.expr), (".base", o.expr + ".as_base()")):
                            if how and T != "double":
                                continue
                            p.append(Case("%s%s%d[%s]%s%s" % (k, T, n, it, "" if mut else ".const", how), o.decl + ", %s i" % it, "return &%s[i];" % ex,
                                          o.raw + ", %s i" % it, o.need + need(it, n) + body, ret="%s%s*" % (cq, T)))
            # raw wrappers that back the vectors and views
            p.append(Case("wrapper%d[%s]" % (n, it), "const storage_wrapper<true,float,%d>& a, %s i" % (n, it), "return &a[i];", "const float* a, %s i" % it, need(it, n) + "return a+i;", ret="const float*"))
            p.append(Case("vwrapper%d[%s]" % (n, it), "view_wrapper<true,float,%d>& a, %s i" % (n, it), "return &a[i];", "float* const& a, %s i" % it, "NEED(a);" + need(it, n) + "return a+i;", ret="float*"))
        for T in ("float", "bool"):
            for k in ("vec", "swz", "view", "cview", "iview", "vv"):
                for mut in (False, True):
                    if (k == "cview" and mut):
                        continue
                    o = operand(k, T, n, "a", mut)
                    for i in range(n):
                        g.append(Case("get<%d>.%s%s%d%s" % (i, k, T, n, "" if mut else ".const"), o.decl, "return &get<%d>(%s);" % (i, o.expr), o.raw, o.need + "return &%s;" % o.lane(i), ret="%s%s*" % ("" if mut else "const ", T)))
        g.append(Case("binding%d" % n, "float* o, const basic_vector<float,%d>& a" % n, "auto& [%s] = a; %s" % (",".join("q%d" % i for i in range(n)), "".join("o[%d]=q%d;" % (i, i) for i in range(n))),
                      "float* o, const float* a", "".join("o[%d]=a[%d];" % (i, i) for i in range(n))) if False else
                 Case("set%d" % n, "basic_vector<float,%d>& a, %s" % (n, ",".join("float s%d" % i for i in range(n))), "a.as_base().set(%s);" % ",".join("s%d" % i for i in range(n)),
                      "float* a, %s" % ",".join("float s%d" % i for i in range(n)), "".join("a[%d]=s%d;" % (i, i) for i in range(n))))
        g.append(Case("set.conv%d" % n, "basic_vector<float,%d>& a, %s" % (n, ",".join("int s%d" % i for i in range(n))), "a.set(%s);" % ",".join("s%d" % i for i in range(n)),
                      "float* a, %s" % ",".join("int s%d" % i for i in range(n)), "".join("a[%d]=(float)s%d;" % (i, i) for i in range(n))))
        g.append(Case("set.view%d" % n, "basic_view<true,float,%d>& a, %s" % (n, ",".join("float s%d" % i for i in range(n))), "a.set(%s);" % ",".join("s%d" % i for i in range(n)),
                      "float* const& a, %s" % ",".join("float s%d" % i for i in range(n)), "NEED(a); " + "".join("a[%d]=s%d;" % (i, i) for i in range(n))))
    for T in FLOATS:
        for C in (2, 3, 4):
            for R in (2, 3, 4):
                M = "basic_matrix<%s,%d,%d>" % (T, C, R)
                for it in (ITYPES if T == "float" else ["int"]):
                    for cq in ("", "const "):
                        p.append(Case("mat%dx%d%s[%s]%s" % (C, R, T, it, cq), "%s%s& m, %s i" % (cq, M, it), "return m[i].data();", "%s%s* m, %s i" % (cq, T, it), need(it, C) + "return m+i*%d;" % R, ret="%s%s*" % (cq, T)))
                    p.append(Case("mat%dx%d%s.row(%s)" % (C, R, T, it), "basic_vector<%s,%d>* o, const %s& m, %s i" % (T, C, M, it), "put(o, m.row(i));", "%s* o, const %s* m, %s i" % (T, T, it),
                                  need(it, R) + " ".join("o[%d]=m[%d+i];" % (k, k * R) for k in range(C)), budget=200000))
                for i in range(C):
                    g.append(Case("mget<%d>.%dx%d%s" % (i, C, R, T), "%s& m" % M, "return get<%d>(m).data();" % i, "%s* m" % T, "return m+%d;" % (i * R), ret="%s*" % T))
                    g.append(Case("mget<%d>.const.%dx%d%s" % (i, C, R, T), "const %s& m" % M, "return get<%d>(m).data();" % i, "const %s* m" % T, "return m+%d;" % (i * R), ret="const %s*" % T))
                    g.append(Case("mget<%d>.rv.%dx%d%s" % (i, C, R, T), "%s& m" % M, "auto&& q = get<%d>(std::move(m)); return q.data();" % i, "%s* m" % T, "return m+%d;" % (i * R), ret="%s*" % T))
    for n in (2, 3, 4):
        for k, d in (("vec", "basic_vector<double,%d>" % n), ("view", "basic_view<true,double,%d>" % n)):
            nd = "NEED(a); " if k == "view" else ""
            raw = "const double* const& a" if k == "view" else "const double* a"
            g.append(Case("binding.%s%d" % (k, n), "double* o, const %s& a" % d, "const auto& [%s] = a; %s" % (",".join("q%d" % i for i in range(n)), "".join("o[%d]=q%d;" % (i, i) for i in range(n))),
                          "double* o, " + raw, nd + "".join("o[%d]=a[%d];" % (i, i) for i in range(n))))
        M = "basic_matrix<float,%d,2>" % n
        g.append(Case("binding.mat%d" % n, "float* o, const %s& a" % M, "const auto& [%s] = a; %s" % (",".join("q%d" % i for i in range(n)), "".join("o[%d]=q%d[0];o[%d]=q%d[1];" % (2 * i, i, 2 * i + 1, i) for i in range(n))),
                      "float* o, const float* a", "".join("o[%d]=a[%d];" % (i, i) for i in range(2 * n))))
    ctl = [Case("control.bound", "const vec3& a, int i", "return &a[i];", "const float* a, int i", "NEED(i>=0 && i<4); return a+i;", ret="const float*", expect="differs"),
           Case("control.neg", "const vec3& a, int i", "return &a[i];", "const float* a, int i", "NEED(i<3); return a+i;", ret="const float*", expect="differs"),
           Case("control.addr", "const vec3& a, int i", "return &a.zyx[i];", "const float* a, int i", "NEED(i>=0 && i<3); return a+i;", ret="const float*", expect="differs")]
    hs = [c.pairs("symbolic-index", p + ctl, minimum=250), c.pairs("static-index", g + ctl, minimum=150, shard=60)]
    for h in hs:
        c.collect(h)
