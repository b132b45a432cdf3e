import os
import re

from fw import Case, PRELUDE, attribute_errors, gimple
from gen import *

META = dict(
    title="valarray-style members: shift, cshift, apply, query, min, max, sum",
    statement="v.shift(k) moves components k places towards the front (negative k: towards the back), filling with zero, and returns all zeros for any |k| >= the length; v.cshift(k) rotates by k modulo the length, in either direction. apply(f) and query(f) call f once per component, in order, and collect the results; min() and max() return a component no other is below or above; sum() adds every component once. All work on every operand form, use its logical component order, and leave it unchanged.",
    quant=("inputs", "all component values; every shift distance up to twice the length and extreme distances; element types, lengths and operand forms"),
    why="Distances beyond the length, negative distances and extreme values, and swizzles whose logical and physical orders differ are where off-by-one errors hide.",
    anchors=["include/dsga.hxx"],
    mech=[("members", "vector_base::shift, cshift, apply, query, min, max, sum")],
    explanation="each member instance is lowered and every result component is traced by value numbering to the component (or zero) that belongs there; the order of the calls apply and query make, which C++ may leave to the compiler, is read off the GIMPLE of g++ as well; extrema are decided by their defining relation",
    technique="value numbering per member instantiation over clang LLVM IR; call sequence over g++ GIMPLE",
)


def cases(c):
    full, deep = True, c.tier == "thorough"
    knd = Rot(KINDS)
    typ = Rot(ALL)
    sz = lambda n: list(range(-2 * n - 1, 2 * n + 2))
    big = [-2147483648, -2147483647, -1000003, 1000003, 2147483646, 2147483647]
    for n in (1, 2, 3, 4):
        for k in sz(n) + big:
            for rep in range(16 if deep else 4):
                T = typ()
                a = operand(knd(), T, n)
                if n == 1 and a.kind == "vv":
                    a = operand("iview", T, n)
                V = vec(T, n)
                ks = "(-2147483647-1)" if k == -2147483648 else str(k)
                src = lambda j: a.lane(j) if 0 <= j < n else "(%s)0" % T
                st = lambda es: a.pre + "".join("%s t%d=%s; " % (T, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n))
                yield Case("shift.%s.%d.%s.%d" % (T, n, a.kind, k), "%s* o, %s" % (V, a.decl), "put<%s>(o, (%s).shift(%s));" % (V, a.expr, ks), "%s* o, %s" % (T, a.raw), st([src(i + k) for i in range(n)]))
                import math
                r = int(math.fmod(k, n))
                yield Case("cshift.%s.%d.%s.%d" % (T, n, a.kind, k), "%s* o, %s" % (V, a.decl), "put<%s>(o, (%s).cshift(%s));" % (V, a.expr, ks), "%s* o, %s" % (T, a.raw), st([a.lane((i + r) % n) for i in range(n)]))
    for T in ALL:
        for n in (1, 2, 3, 4):
            for k in (KINDS if full else (knd(), knd())):
                if k == "vv" and n == 1:
                    continue
                a = operand(k, T, n)
                V = vec(T, n)
                ls = [a.lane(i) for i in range(n)]
                # every far distance
                for cond, tag in (("by > %d" % n, "far+"), ("by < -%d" % n, "far-")):
                    yield Case("shift.%s.%d.%s.%s" % (T, n, k, tag), "%s* o, %s, int by" % (V, a.decl), "if (%s) put<%s>(o, (%s).shift(by));" % (cond, V, a.expr), "%s* o, %s, int by" % (T, a.raw),
                               "if (%s) { %s%s }" % (cond, a.pre, "".join("o[%d]=(%s)0; " % (i, T) for i in range(n))))
                st = lambda t, es: a.need + "".join("%s t%d=%s; " % (t, i, e) for i, e in enumerate(es)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n))
                # the function sees the components in order: a counter makes each call distinct
                f = "(%s)(x + (%s)k++)" % (T, T) if T != "bool" else "(bool)(x ^ (bool)(k++ & 1))"
                g = lambda i: "(%s)(%s + (%s)%d)" % (T, ls[i], T, i) if T != "bool" else "(bool)(%s ^ (bool)%d)" % (ls[i], i & 1)
                yield Case("apply.%s.%d.%s" % (T, n, k), "%s* o, %s, int* calls" % (V, a.decl), "int k = 0; put<%s>(o, (%s).apply([&k](%s x) -> %s { return %s; })); *calls = k;" % (V, a.expr, T, T, f), "%s* o, %s, int* calls" % (T, a.raw), st(T, [g(i) for i in range(n)]) + "*calls = %d;" % n)
                yield Case("query.%s.%d.%s" % (T, n, k), "%s* o, %s, int* calls" % (vec("bool", n), a.decl), "int k = 0; put<%s>(o, (%s).query([&k](const %s& x) -> bool { return x == (%s)(k++); })); *calls = k;" % (vec("bool", n), a.expr, T, T), "bool* o, %s, int* calls" % a.raw,
                           st("bool", ["%s == (%s)%d" % (ls[i], T, i) for i in range(n)]) + "*calls = %d;" % n)
                if T == "bool":
                    continue
                for f, op in (("min", "<"), ("max", ">")):
                    rel = "(%s) & !(%s)" % (" | ".join("(r == %s[%d])" % ("(%s)" % a.expr, i) for i in range(n)), " | ".join("((%s)[%d] %s r)" % (a.expr, i, op) for i in range(n)))
                    yield Case("%s.%s.%d.%s" % (f, T, n, k), "bool* o, %s" % a.decl, "auto r = (%s).%s(); static_assert(same_type_<%s, decltype(r)>::value); *o = %s;" % (a.expr, f, T, rel), "bool* o, %s" % a.raw, a.need + "*o = true;", nonan=True)
                yield Case("sum.%s.%d.%s" % (T, n, k), "%s* o, %s" % (T, a.decl), "put<%s>(o, (%s).sum());" % (T, a.expr), "%s* o, %s" % (T, a.raw), a.need + "*o = %s;" % "+".join(ls), mode="poly" if T in FLOATS else "bits")


def order(c):
    """the calls apply and query make, in the order the project's own compiler makes them"""
    L = []
    typ = Rot(["int", "float", "ll", "double", "unsigned"])
    for n in (1, 2, 3, 4):
        for kind in ("vec", "swz", "view", "iview"):
            s, p = SWZ[n] if kind in ("swz", "iview") else (n, tuple(range(n)))
            sel = "." + "".join("xyzw"[i] for i in p) if kind in ("swz", "iview") else ""
            decl = {"view": "basic_view<true,T,%d> v(a.data());" % s, "iview": "basic_view<true,T,%d> v(a.data());" % s}.get(kind, "")
            e = ("v" if decl else "a") + sel
            for f in ("apply", "query"):
                for T in (("int", "float", "double", "ll") if c.tier == "thorough" else (typ(),)):
                    R = T if f == "apply" else "bool"
                    k = len(L)
                    L.append((f, T, n, kind, p, s, e,
                              'W void o_%d(basic_vector<%s,%d>* o%s) { using T = %s; basic_vector<T,%d> a(%s); %s *o = (%s).%s([](T x) -> %s { return F_%s_%s(x); }); }' % (
                                  k, R, n, "".join(", %s x%d" % (T, i) for i in range(s)), T, s, ", ".join("x%d" % i for i in range(s)), decl, e, f, R, f, T)))
    src = os.path.join(c.tmp, "order.cpp")
    head = PRELUDE + "".join('extern "C" %s F_%s_%s(%s) noexcept;\n' % (t if f == "apply" else "bool", f, t, t) for f in ("apply", "query") for t in ("int", "float", "ll", "double", "unsigned"))
    # control: the opposite order
    ctl = len(L)
    body = [x[-1] for x in L] + ["W void o_%d(basic_vector<int,2>* o, int x0, int x1) { int b = F_apply_int(x1); o->set(F_apply_int(x0), b); }" % ctl]
    L.append(("control", "int", 2, "vec", (0, 1), 2, "a", ""))
    live = list(range(len(L)))
    g = c.cov["groups"].setdefault("call-order", {"obligations": 0, "held": 0})
    for attempt in range(3):
        lines, owner = head.split("\n"), {}
        for k in live:
            lines.append(body[k])
            owner[len(lines)] = k
        open(src, "w").write("\n".join(lines) + "\n")
        fns, text = gimple(src)
        if fns is not None:
            break
        errs, un = attribute_errors(text, src, owner, True)
        bad = {owner[l]: m for l, m in errs.items() if l in owner}
        if not bad:
            c.broken.append("call-order: driver does not compile: " + "; ".join(un[:3] or text.split("\n")[:3]))
            return
        for k, m in bad.items():
            c.report("call-order/%s.%s.%d.%s" % L[k][:4], "does not compile: " + m)
        live = [k for k in live if k not in bad]
    c.cov["translation_units"] += 1
    for k in live:
        f, T, n, kind, p, s, e = L[k][:7]
        st = fns.get("o_%d" % k)
        name = "call-order/%s.%s.%d.%s" % (f, T, n, kind)
        g["obligations"] += 1
        c.cov["obligations"] += 1
        c.cov["functions_analysed"] += 1
        c.cov["ir_instructions"] += len(st or ())
        seq, odd = [], []
        for x in st or ():
            m = re.match(r"(?:\w+ = )?F_\w+ \(x(\d)_\d+\(D\)\);", x)
            if m:
                seq.append(int(m.group(1)))
            elif re.search(r"F_\w+ \(", x):
                odd.append(x)           # called on something else than a component
        if not st or odd or len(seq) == 0:
            c.broken.append("%s: calls not recognised: %s" % (name, (odd or st or ["no body"])[0]))
            continue
        if f == "control":
            if seq == [0, 1]:
                c.broken.append("call-order: control not told apart")
                continue
        elif seq != list(p):
            c.report(name, "(%s).%s(f): g++ calls f on components %s; documented order: %s" % (e, f, [L_(p, i) for i in seq], list(range(n))))
            continue
        g["held"] += 1
        c.cov["discharged"] += 1


def L_(p, i):
    return p.index(i) if i in p else "component %d of the owner" % i


def run(c):
    cs = sorted(cases(c), key=lambda k: k.name.split(".")[1])
    ctl = [Case("control.dir", "ivec3* o, const ivec3& a", "*o = a.shift(1);", "int* o, const int* a", "int x=a[0],y=a[1]; o[0]=0; o[1]=x; o[2]=y;", expect="differs"),
           Case("control.rot", "ivec3* o, const ivec3& a", "*o = a.cshift(4);", "int* o, const int* a", "int x=a[0],y=a[1],z=a[2]; o[0]=z; o[1]=x; o[2]=y;", expect="differs"),
           Case("control.min", "bool* o, const ivec3& a", "auto r=a.min(); *o = r <= a[0] && r <= a[1] && r < a[2];", "bool* o, const int* a", "*o = true;", expect="differs"),
           Case("control.sum", "float* o, const vec3& a", "*o = a.sum();", "float* o, const float* a", "*o = a[0]+a[1]+a[1];", mode="poly", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=400)
    order(c)
    c.collect(h)
