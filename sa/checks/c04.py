import itertools
from fw import Case
from gen import *
from checks.c01 import SHAPES, mt, mop

META = dict(
    title="determinant and inverse are the exact algebraic formulas for 2x2 to 4x4",
    statement="For every square matrix, determinant is the signed sum over permutations, and inverse is the adjugate divided by the determinant, so that over exact arithmetic M*inverse(M) and inverse(M)*M are the identity and det(A*B) = det(A)det(B); nothing is special-cased for singular or structured matrices. determinant of a transpose is unchanged, and both functions refuse non-square matrices.",
    quant=("inputs", "all element values of 2x2, 3x3 and 4x4 matrices of both element types, as exact-arithmetic formulas"),
    why="The 4x4 formulas have over a hundred signed products written out by hand; identity-like or sparse samples multiply most of them by zero.",
    anchors=["include/dsga.hxx"],
    mech=[("determinant and inverse", "functions::determinant (3 overloads), functions::inverse (3 overloads)")],
    explanation="each function is lowered and each result normalised to a rational function of the elements, compared with the permutation expansion generated independently; matrix identities are decided the same way",
    technique="value numbering to rational functions over clang LLVM IR",
)


def sign(p):
    return -1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 else 1


def det(rows, cols, e):
    """signed permutation expansion of the minor with the given rows and columns"""
    if not rows:
        return "1"
    return " ".join("%s %s" % ("+" if sign(p) > 0 else "-", "*".join(e(cols[i], rows[p[i]]) for i in range(len(rows)))) for p in itertools.permutations(range(len(rows))))


def cases(c):
    for T in FLOATS:
        for n in (2, 3, 4):
            m, M = mop(T, n, n, "m"), mt(T, n, n)
            e = lambda x, y: "m[%d]" % (x * n + y)
            r = list(range(n))
            D = "%s D = %s; " % (T, det(r, r, e))
            b = dict(mode="poly", budget=100000)
            yield Case("det.%s.%d" % (T, n), "%s* o, %s" % (T, m.decl), "put<%s>(o, functions::determinant(m));" % T, "%s* o, %s" % (T, m.raw), D + "*o = D;", **b)
            yield Case("det-transpose.%s.%d" % (T, n), "%s* o, %s" % (T, m.decl), "*o = functions::determinant(functions::transpose(m));", "%s* o, %s" % (T, m.raw), D + "*o = D;", **b)
            adj = []
            for x in range(n):
                for y in range(n):
                    # element in column x, row y of the inverse: cofactor of column y, row x
                    s = "" if (x + y) % 2 == 0 else "-"
                    adj.append("%s(%s)" % (s, det([q for q in r if q != x], [q for q in r if q != y], e)))
            yield Case("inverse.%s.%d" % (T, n), "%s* o, %s" % (M, m.decl), "put<%s>(o, functions::inverse(m));" % M, "%s* o, %s" % (T, m.raw), D + "".join("%s t%d=(%s)/D; " % (T, i, a) for i, a in enumerate(adj)) + "".join("o[%d]=t%d; " % (i, i) for i in range(n * n)), **b)
            ident = "".join("o[%d]=%d; " % (x * n + y, x == y) for x in range(n) for y in range(n))
            yield Case("m*inverse.%s.%d" % (T, n), "%s* o, %s" % (M, m.decl), "*o = m * functions::inverse(m);", "%s* o, %s" % (T, m.raw), ident, **b)
            yield Case("inverse*m.%s.%d" % (T, n), "%s* o, %s" % (M, m.decl), "*o = functions::inverse(m) * m;", "%s* o, %s" % (T, m.raw), ident, **b)
            k = mop(T, n, n, "k")
            f = lambda v: lambda x, y: "%s[%d]" % (v, x * n + y)
            yield Case("det-product.%s.%d" % (T, n), "%s* o, %s, %s" % (T, m.decl, k.decl), "*o = functions::determinant(m * k);", "%s* o, %s, %s" % (T, m.raw, k.raw), "%s D = %s, E = %s; *o = D * E;" % (T, det(r, r, f("m")), det(r, r, f("k"))), **b)


PRE = "".join("template <class A> concept U_%s = requires(const A& a) { functions::%s(a); };\n" % (f, f) for f in ("determinant", "inverse"))


def run(c):
    ctl = [Case("control.det", "float* o, const mat3& m", "*o = functions::determinant(m);", "float* o, const float* m", "*o = m[0]*m[4]*m[8] + m[3]*m[7]*m[2] + m[6]*m[1]*m[5] - m[6]*m[4]*m[2] - m[3]*m[1]*m[8] + m[0]*m[7]*m[5];", mode="poly", expect="differs"),
           Case("control.inverse", "mat2* o, const mat2& m", "*o = functions::inverse(m);", "float* o, const float* m", "float d=m[0]*m[3]-m[1]*m[2],p=m[3]/d,q=-m[2]/d,r=-m[1]/d,s=m[0]/d; o[0]=p;o[1]=q;o[2]=r;o[3]=s;", mode="poly", expect="differs")]
    h = c.pairs("values", list(cases(c)) + ctl, minimum=20)
    w = [("square.%s" % f, " && ".join("%sU_%s<%s>" % ("" if s[0] == s[1] else "!", f, mt(T, *s)) for s in SHAPES for T in FLOATS), f + " takes square matrices only") for f in ("determinant", "inverse")]
    hw = c.witness("accepts", w + [("control", "U_inverse<mat2x3>", "", "false")], prelude=PRE, minimum=2)
    c.collect(h)
    c.collect_witness(hw)
