from fw import Case
from gen import *

META = dict(
    title="Assignments read every operand before they overwrite any of it",
    statement="When source and destination share storage, the result is the one obtained by reading all source components first: assigning a vector, view, view_vector or any swizzle from a swizzle of itself, compound assignment with a swizzle or component of itself, set() with its own components, views that overlap at any distance, matrix columns and rows of the same matrix, and output parameters that are also inputs.",
    quant=("inputs", "all component values, all pairs of swizzles over one object, all overlap distances of two views"),
    why="There are hundreds of overlapping pairs; each gives a wrong answer only for that pair and only when components differ.",
    anchors=["include/dsga.hxx"],
    mech=[("by-value argument packs", "indexed_vector::operator= / set, basic_view::operator= / set, apply_*_modify"), ("copy before write", "view_vector::operator=, modf")],
    explanation="each self-referential statement is lowered and every stored component is traced by value numbering to the input components it is computed from; it must equal the read-all-then-write reference",
    technique="dependence (value-numbering) analysis of aliased stores over clang LLVM IR",
)
OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]


def run(c):
    p, q, m = [], [], []

    def ref(T, size, dst, src, op=None, a="a"):
        """read-all-then-write"""
        s = "".join("%s t%d=%s[%d]; " % (T, k, a, i) for k, i in enumerate(src))
        for k, i in enumerate(dst):
            e = "t%d" % (k if len(src) > 1 or len(dst) == 1 else 0)
            s += "%s[%d]=%s; " % (a, i, e if not op else "u%d%s%s" % (k, op, e)) if not op else ""
        if op:
            s += "".join("%s u%d=%s[%d]; " % (T, k, a, i) for k, i in enumerate(dst))
            s += "".join("%s[%d]=u%d%st%d; " % (a, i, k, op, k if len(src) > 1 or len(dst) == 1 else 0) for k, i in enumerate(dst))
        return s

    T = "int"
    for size in (2, 3, 4):
        V, W = "basic_vector<int,%d>" % size, "basic_view<true,int,%d>" % size
        VV = "view_vector<int,%d>" % size
        for n in range(2, size + 1):
            D = [(nm, t) for nm, t in names(size, (n,)) if distinct(t)]
            A = list(names(size, (n,)))
            if c.tier == "quick" and n == 4:
                srcs = [x for x in A if distinct(x[1])][::1]
            else:
                srcs = A
            for di, (dn, d) in enumerate(D):
                for si, (sn, s) in enumerate(srcs):
                    if c.tier == "quick" and n >= 3 and size == 4 and (di * 7 + si) % (6 if n == 3 else 5):
                        continue
                    if dn != sn:
                        p.append(Case("v%d.%s=%s" % (size, dn, sn), "%s& a" % V, "a.%s = a.%s;" % (dn, sn), "int* a", ref(T, size, d, s)))
                        if (di + si) % 2 == 0:
                            p.append(Case("view%d.%s=%s" % (size, dn, sn), "%s& a" % W, "a.%s = a.%s;" % (dn, sn), "int* const& a", "NEED(a); " + ref(T, size, d, s)))
                    op = OPS[(di * 3 + si) % 4]
                    cop = "/" if op == "/" else op
                    if cop == "/":
                        cop = "-"
                    if (di + si) % 2 == 1 or n == 2:
                        p.append(Case("v%d.%s%s=%s" % (size, dn, cop, sn), "%s& a" % V, "a.%s %s= a.%s;" % (dn, cop, sn), "int* a", ref(T, size, d, s, cop), mode="bits"))
                        p.append(Case("view%d.%s%s=%s" % (size, dn, cop, sn), "%s& a" % W, "a.%s %s= a.%s;" % (dn, cop, sn), "int* const& a", "NEED(a); " + ref(T, size, d, s, cop)))
        full = tuple(range(size))
        for si, (sn, s) in enumerate(names(size, (size,))):
            if size == 4 and c.tier == "quick" and not distinct(s) and si % 11:
                continue
            q.append(Case("V%d=%s" % (size, sn), "%s& a" % V, "a = a.%s;" % sn, "int* a", ref(T, size, full, s)))
            q.append(Case("V%d+=%s" % (size, sn), "%s& a" % V, "a += a.%s;" % sn, "int* a", ref(T, size, full, s, "+")))
            q.append(Case("View%d=%s" % (size, sn), "%s& a" % W, "a = a.%s;" % sn, "int* const& a", "NEED(a); " + ref(T, size, full, s)))
            q.append(Case("View%d*=%s" % (size, sn), "%s& a" % W, "a *= a.%s;" % sn, "int* const& a", "NEED(a); " + ref(T, size, full, s, "*")))
            loc = "%s u{%s}; %%s %s" % (VV, ",".join("a[%d]" % i for i in full), "".join("o[%d]=u[%d];" % (i, i) for i in full))
            rl = "int u[%d]={%s}; %s %s" % (size, ",".join("a[%d]" % i for i in full), "%s", "".join("o[%d]=u[%d];" % (i, i) for i in full))
            for nm, st, rf in (("=", "u = u.%s;" % sn, ref(T, size, full, s, None, "u")), ("=move", "u = std::move(u.%s);" % sn, ref(T, size, full, s, None, "u")), ("-=", "u -= u.%s;" % sn, ref(T, size, full, s, "-", "u"))):
                q.append(Case("vv%d%s%s" % (size, nm, sn), "int* o, const int* a", loc % st, "int* o, const int* a", rl.replace("int u[", "int u[") % rf))
            av = ",".join("a.%s" % L[i] for i in s)
            at = ",".join("a[%d]" % i for i in s)
            for nm, args in (("swz", av), ("elem", at)):
                q.append(Case("set.%s.V%d.%s" % (nm, size, sn), "%s& a" % V, "a.set(%s);" % args, "int* a", ref(T, size, full, s)))
                q.append(Case("set.%s.View%d.%s" % (nm, size, sn), "%s& a" % W, "a.set(%s);" % args, "int* const& a", "NEED(a); " + ref(T, size, full, s)))
                q.append(Case("set.%s.base%d.%s" % (nm, size, sn), "%s& a" % W, "a.as_base().set(%s);" % args, "int* const& a", "NEED(a); " + ref(T, size, full, s)))
            z = full[::-1]
            zn = "".join(L[i] for i in z)
            q.append(Case("set.swz%d.%s" % (size, sn), "%s& a" % V, "a.%s.set(%s);" % (zn, av), "int* a", ref(T, size, z, s)))
            q.append(Case("set.iview%d.%s" % (size, sn), "%s& a" % W, "a.%s.set(%s);" % (zn, av), "int* const& a", "NEED(a); " + ref(T, size, z, s)))
            # a vector seen through a view of itself
            vw = "%s w(a.data()); " % W
            wv = ",".join("w.%s" % L[i] for i in s)
            q.append(Case("through.V%d=%s" % (size, sn), "%s& a" % V, vw + "a = w.%s;" % sn, "int* a", ref(T, size, full, s)))
            q.append(Case("through.W%d=%s" % (size, sn), "%s& a" % V, vw + "w = a.%s;" % sn, "int* a", ref(T, size, full, s)))
            q.append(Case("through.swz%d=%s" % (size, sn), "%s& a" % V, vw + "a.%s = w.%s;" % (zn, sn), "int* a", ref(T, size, z, s)))
            q.append(Case("through.wswz%d=%s" % (size, sn), "%s& a" % V, vw + "w.%s -= a.%s;" % (zn, sn), "int* a", ref(T, size, z, s, "-")))
            q.append(Case("through.set%d=%s" % (size, sn), "%s& a" % V, vw + "a.set(%s);" % wv, "int* a", ref(T, size, full, s)))
            q.append(Case("through.swzset%d=%s" % (size, sn), "%s& a" % V, vw + "a.%s.set(%s);" % (zn, wv), "int* a", ref(T, size, z, s)))
            q.append(Case("through.wrap%d=%s" % (size, sn), "storage_wrapper<true,int,%d>& a" % size, "view_wrapper<true,int,%d> w(a.data()); %s w2(a.data()); a.set(%s);" % (size, W, wv.replace("w.", "w2.")), "int* a", ref(T, size, full, s)))
            q.append(Case("through.vwrap%d=%s" % (size, sn), "int* a", "view_wrapper<true,int,%d> w(a); %s w2(a); w.set(%s);" % (size, W, wv.replace("w.", "w2.")), "int* a", "NEED(a); " + ref(T, size, full, s)))
        # compound with one of its own components, as scalar and as one-component swizzle
        for i in range(size):
            for op in OPS:
                for F in (["int"] if op in "%&|^<<>>" else ["float", "int"]):
                    s = "const %s t=a[%d]; " % (F, i) + ("NEED(t != 0); " if op == "%" else "") + "".join("%s u%d=a[%d]%st; " % (F, k, k, op) for k in full) + "".join("a[%d]=u%d; " % (k, k) for k in full)
                    for nm, e in (("swz", "a.%s" % L[i]), ("elem", "a[%d]" % i)):
                        q.append(Case("own%d.%s.%s%s=%d" % (size, nm, F, op, i), "basic_vector<%s,%d>& a" % (F, size), "a %s= %s;" % (op, e), "%s* a" % F, s))
                        q.append(Case("ownview%d.%s.%s%s=%d" % (size, nm, F, op, i), "basic_view<true,%s,%d>& a" % (F, size), "a %s= %s;" % (op, e), "%s* const& a" % F, "NEED(a); " + s))
        # overlapping views, all distances
        for d in range(-(size - 1), size):
            for cq in ("true", "false"):
                off = lambda i: "p[%d]" % (i + max(-d, 0))
                src = lambda i: "p[%d]" % (i + max(d, 0))
                decl = "%s u(p+%d); basic_view<%s,int,%d> w(p+%d); " % (W, max(-d, 0), cq, size, max(d, 0))
                rd = "".join("int t%d=%s; " % (i, src(i)) for i in full)
                z = full[::-1]
                zn = "".join(L[i] for i in z)
                for nm, st, idx in ((("=", "u = w;", full),) if cq == "false" else ()) + (("=swz", "u = w.%s;" % zn, z), ("swz=", "u.%s = w;" % zn, None), ("set", "u.set(%s);" % ",".join("w.%s" % L[i] for i in full), full), ("+=", "u += w;", "+")):
                    if idx is None:
                        s = "".join("%s=t%d; " % (off(z[k]), k) for k in full)
                    elif idx == "+":
                        s = "".join("int u%d=%s; " % (k, off(k)) for k in full) + "".join("%s=u%d+t%d; " % (off(k), k, k) for k in full)
                    else:
                        s = "".join("%s=t%d; " % (off(k), idx[k]) for k in full)
                    # the guards look at p+k: never null with p non-null
                    q.append(Case("overlap%d.%+d.%s.%s" % (size, d, cq, nm), "std::array<int,8>& p_", "int* p = p_.data(); " + decl + st, "int* p", rd + s))
        # output parameters that are also inputs
        for F in FLOATS:
            VF = "basic_vector<%s,%d>" % (F, size)
            fr = lambda s_: "".join("%s t%d=a[%d], f%d=t%d-std::trunc(t%d); " % (F, k, k, k, s_[k], s_[k]) for k in ()) + "".join("%s t%d=a[%d]; " % (F, k, k) for k in full) + "".join("%s w%d=std::trunc(t%d); " % (F, k, s_[k]) for k in full) + "".join("a[%d]=w%d; o[%d]=t%d-w%d; " % (k, k, k, s_[k], k) for k in full)
            for sn, s in ((("xyzw"[:size]), full), ("".join(L[i] for i in full[::-1]), full[::-1])):
                q.append(Case("modf%d.%s.%s" % (size, F, sn), "%s* o, %s& a" % (VF, VF), "auto r = modf(a.%s, a); *o = r;" % sn, "%s* o, %s* a" % (F, F), fr(s)))
                q.append(Case("modf.view%d.%s.%s" % (size, F, sn), "%s* o, basic_view<true,%s,%d>& a" % (VF, F, size), "auto r = modf(a.%s, a); *o = r;" % sn, "%s* o, %s* const& a" % (F, F), "NEED(a); " + fr(s)))
            q.append(Case("modf.same%d.%s" % (size, F), "%s* o, %s& a" % (VF, VF), "auto r = modf(a, a); *o = r;", "%s* o, %s* a" % (F, F), fr(full)))
    for F in FLOATS:
        q.append(Case("modf.scalar.%s" % F, "%s* o, %s* a" % (F, F), "*o = modf(*a, *a);", "%s* o, %s* a" % (F, F), "%s t=*a; *a=std::trunc(t); *o=t-*a;" % F))
    # matrices
    for C in (2, 3, 4):
        for R in (2, 3, 4):
            M = "basic_matrix<float,%d,%d>" % (C, R)
            cp = "float t[%d]; for(int i=0;i<%d;i++) t[i]=m[i]; " % (C * R, C * R)
            wr = lambda f: "".join("m[%d]=t[%d]; " % (k * R + r, f(k, r)) for k in range(C) for r in range(R))
            m.append(Case("m%dx%d.reverse" % (C, R), "%s& m" % M, "m = %s(%s);" % (M, ",".join("m[%d]" % k for k in reversed(range(C)))), "float* m", cp + wr(lambda k, r: (C - 1 - k) * R + r)))
            m.append(Case("m%dx%d.swzcols" % (C, R), "%s& m" % M, "m = %s(%s);" % (M, ",".join("m[%d].%s" % (k, "wzyx"[4 - R:]) for k in reversed(range(C)))), "float* m", cp + wr(lambda k, r: (C - 1 - k) * R + R - 1 - r)))
            m.append(Case("m%dx%d.col=swz" % (C, R), "%s& m" % M, "m[0] = m[%d].%s; m[1] = m[1].%s;" % (C - 1, "wzyx"[4 - R:], "wzyx"[4 - R:]), "float* m",
                          cp + "".join("m[%d]=t[%d]; m[%d]=t[%d]; " % (r, (C - 1) * R + R - 1 - r if C > 1 else 0, R + r, R + R - 1 - r) for r in range(R))))
            m.append(Case("m%dx%d.self" % (C, R), "%s& m" % M, "auto& q = m; m = q;", "float* m", ""))
            if C == R:
                m.append(Case("m%d.transpose" % C, "%s& m" % M, "m = transpose(m);", "float* m", cp + wr(lambda k, r: r * R + k)))
                m.append(Case("m%d.rows" % C, "%s& m" % M, "m = %s(%s);" % (M, ",".join("m.row(%d)" % k for k in range(C))), "float* m", cp + wr(lambda k, r: r * R + k)))
                m.append(Case("m%d*self" % C, "%s& m" % M, "m = m * m;", "float* m", cp + "".join("m[%d]=%s; " % (k * R + r, "+".join("t[%d]*t[%d]" % (j * R + r, k * R + j) for j in range(C))) for k in range(C) for r in range(R)), mode="poly"))
                m.append(Case("m%d*col" % C, "%s& m" % M, "m[0] = m * m[0];", "float* m", cp + "".join("m[%d]=%s; " % (r, "+".join("t[%d]*t[%d]" % (j * R + r, j) for j in range(C))) for r in range(R)), mode="poly"))
            m.append(Case("m%dx%d.div" % (C, R), "%s& m" % M, "m = m / m[0][0];", "float* m", cp + "".join("m[%d]=t[%d]/t[0]; " % (i, i) for i in range(C * R))))
            m.append(Case("m%dx%d.coldiv" % (C, R), "%s& m" % M, "m[1] /= m[1].x;", "float* m", cp + "".join("m[%d]=t[%d]/t[%d]; " % (R + r, R + r, R) for r in range(R))))
    ctl = [Case("control.order", "ivec2& a", "a[0] = a[1]; a[1] = a[0];", "int* a", "int t=a[0]; a[0]=a[1]; a[1]=t;", expect="differs")]
    hs = [c.pairs("swizzle-pairs", p + ctl, minimum=600), c.pairs("self-reference", q + ctl, minimum=500), c.pairs("matrix", m, minimum=50)]
    for h in hs:
        c.collect(h)
