from gen import *
from checks.c01 import SHAPES, mt

META = dict(
    title="Nothing throws except the documented three, and nothing else says it might",
    statement="Every operation of the library (construction, conversion, assignment, element and iterator access, set, operators, comparisons, functions, matrix algebra, array conversions, swap of vectors and matrices) is noexcept, so that it can be used in noexcept code and containers may move vectors and matrices. Also apply and query, whatever the callable. The exceptions are swizzle() (it throws for an index out of range), building a matrix from a pointer, and swapping views; these are not noexcept.",
    quant=("programs", "every operation for every element type, length, shape and operand form"),
    why="noexcept is decided overload by overload at compile time; a missing one changes which code containers run, a wrong one turns an exception into termination.",
    anchors=["include/dsga.hxx"],
    mech=[("exception specifications", "every function of the library"), ("throw sites", "swizzle(), basic_matrix(const U *), view_wrapper::swap")],
    explanation="the compiler is asked for the exception specification of each operation's expression, per type and form; the value obligations of the other properties separately decide under which condition control leaves by an exception",
    technique="type-level witnesses (noexcept operator)",
)
PRE = """template <class T> T& lv() noexcept;
template <class T> const T& cl() noexcept;
template <class T> T rv() noexcept;
"""


def operands(T, n, k):
    t = {"vec": vec(T, n), "view": "basic_view<true,%s,%d>" % (T, n), "cview": "basic_view<false,%s,%d>" % (T, n), "vv": "view_vector<%s,%d>" % (T, n)}.get(k)
    if t:
        return "cl<%s>()" % t, "lv<%s>()" % t, t
    s, p = SWZ[n]
    nm = "".join("xyzw"[i] for i in p)
    o = vec(T, s) if k == "swz" else "basic_view<true,%s,%d>" % (T, s)
    return "cl<%s>().%s" % (o, nm), "lv<%s>().%s" % (o, nm), None


def exprs(T, n, k):
    a, m, t = operands(T, n, k)
    b = "cl<%s>()" % vec(T, n)
    s = "rv<%s>()" % T
    w = k != "cview"
    yield "access", ["%s[0]" % a, "%s[0u]" % a, "%s.begin()" % a, "%s.end()" % a, "%s.cbegin()" % a, "%s.rbegin()" % a, "%s.rend()" % a, "%s.crend()" % a, "*%s.begin()" % a, "++lv<decltype(%s.begin())>()" % a, "%s.begin() + 1" % a, "%s.end() - %s.begin()" % (a, a), "%s.begin() == %s.end()" % (a, a), "%s.data()" % a, "%s.length()" % a, "%s.size()" % a, "%s.sequence()" % a] + (["get<0>(%s)" % a])
    if w:
        yield "write", ["%s[0]" % m, "%s.begin()" % m, "%s.rend()" % m, "%s.data()" % m, "%s.set(%s)" % (m, ", ".join([s] * n)), "*%s.begin() = %s" % (m, s)]
        if T != "bool":
            yield "assign", ["%s = %s" % (m, b)] + (["%s = %s" % (m, s)] if n == 1 and k not in ("vv",) else [])
    if t:
        yield "special", ["%s()" % t, "%s(%s)" % (t, a), "%s(rv<%s>())" % (t, t)] + (["lv<%s>() = %s" % (t, a), "lv<%s>() = rv<%s>()" % (t, t)] if k in ("vec", "vv") else [])
    yield "convert", ["%s(%s)" % (vec("double", n), a), "%s(%s)" % (vec("bool", n), a), "basic_vector<float,4>(%s)" % ", ".join([a] + ["1"] * (4 - n))] + (["static_cast<%s>(%s)" % (T, a), "static_cast<double>(%s)" % a] if n == 1 else []) + ["to_array(%s)" % a]
    yield "compare", ["%s == %s" % (a, b), "%s != %s" % (a, b), "functions::equal(%s, %s)" % (a, b), "functions::notEqual(%s, %s)" % (a, b)] + ([] if T == "bool" else ["functions::%s(%s, %s)" % (f, a, b) for f in ("lessThan", "lessThanEqual", "greaterThan", "greaterThanEqual")])
    yield "members", ["%s.shift(1)" % a, "%s.cshift(1)" % a, "%s.apply(std::declval<%s (*)(%s)>())" % (a, T, T), "%s.query(std::declval<bool (*)(%s)>())" % (a, T)]
    if T == "bool":
        yield "logic", ["functions::%s(%s)" % (f, a) for f in ("any", "all", "none", "compNot", "logicalNot")] + ["functions::%s(%s, %s)" % (f, a, b) for f in ("compAnd", "compOr")]
        return
    yield "members2", ["%s.min()" % a, "%s.max()" % a, "%s.sum()" % a]
    for op in OPS:
        if arith_ok(op, T, T):
            yield "op" + op, ["%s %s %s" % (a, op, b), "%s %s %s" % (b, op, a), "%s %s %s" % (a, op, s), "%s %s %s" % (s, op, a)] + (["%s %s= %s" % (m, op, b), "%s %s= %s" % (m, op, s)] if w else [])
    yield "unary", ["+" + a, "-" + a] + (["~" + a] if T in INTS else []) + (["++" + m, "--" + m, m + "++", m + "--"] if w else [])
    yield "common", ["functions::min(%s, %s)" % (a, b), "functions::max(%s, %s)" % (a, s), "functions::clamp(%s, %s, %s)" % (a, b, b), "functions::clamp(%s, %s, %s)" % (a, s, s), "functions::innerProduct(%s, %s)" % (a, b)]
    if T in INTS:
        yield "int", ["functions::byteswap(%s)" % a] + (["functions::abs(%s)" % a, "functions::sign(%s)" % a] if T in ("int", "ll") else [])
        return
    F = "functions::"
    un = ["radians", "degrees", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "exp2", "log2", "sqrt", "inversesqrt", "fast_inversesqrt", "abs", "sign", "floor", "trunc", "round", "roundEven", "ceil", "fract", "isnan", "isinf"]
    yield "float.unary", [F + "%s(%s)" % (f, a) for f in un]
    yield "float.scalar", [F + "%s(%s)" % (f, s) for f in un]
    bits = ("floatBitsToInt", "floatBitsToUint") if T == "float" else ("doubleBitsToLongLong", "doubleBitsToUlongLong")
    yield "float.more", [F + "atan(%s, %s)" % (a, b), F + "pow(%s, %s)" % (a, b), F + "mod(%s, %s)" % (a, b), F + "mod(%s, %s)" % (a, s), F + "mix(%s, %s, %s)" % (a, b, b), F + "mix(%s, %s, %s)" % (a, b, s), F + "mix(%s, %s, cl<%s>())" % (a, b, vec("bool", n)), F + "step(%s, %s)" % (a, b), F + "step(%s, %s)" % (s, a), F + "smoothstep(%s, %s, %s)" % (a, b, b),
                         F + "smoothstep(%s, %s, %s)" % (s, s, a), F + "fma(%s, %s, %s)" % (a, b, b), F + "ldexp(%s, cl<%s>())" % (a, vec("int", n)), F + "frexp(%s, lv<%s>())" % (a, vec("int", n)), F + "modf(%s, lv<%s>())" % (a, vec(T, n))] + [F + "%s(%s)" % (f, a) for f in bits]
    yield "geometric", [F + "dot(%s, %s)" % (a, b), F + "length(%s)" % a, F + "distance(%s, %s)" % (a, b)] + ([] if n == 1 else [F + "normalize(%s)" % a, F + "faceforward(%s, %s, %s)" % (a, b, b), F + "reflect(%s, %s)" % (a, b), F + "refract(%s, %s, %s)" % (a, b, s)]) + ([F + "cross(%s, %s)" % (a, b)] if n == 3 else [])


def matrices(T, C, R):
    M = mt(T, C, R)
    a, m = "cl<%s>()" % M, "lv<%s>()" % M
    col, row, s = "cl<%s>()" % vec(T, R), "cl<%s>()" % vec(T, C), "rv<%s>()" % T
    N = mt("double" if T == "float" else "float", C, R)
    yield "make", ["%s()" % M, "%s(%s)" % (M, a), "%s(%s)" % (N, a), "%s(%s)" % (M, ", ".join([col] * C)), "%s = %s" % (m, a), "%s = rv<%s>()" % (m, M), "basic_matrix<%s,4,4>(%s)" % (T, a)] + (["%s(%s)" % (M, s)] if C == R else [])
    yield "access", ["%s[0]" % a, "%s[0]" % m, "%s.row(0)" % a, "%s.size()" % a, "%s.column_size()" % a, "%s.data()" % a, "%s.begin()" % a, "%s.end()" % m, "%s.rbegin()" % a, "get<0>(%s)" % a, "to_array(%s)" % a, "to_matrix<%d,%d>(cl<std::array<%s,%d>>())" % (C, R, T, C * R), "%s.swap(%s)" % (m, m), "swap(%s, %s)" % (m, m)]
    yield "arith", ["%s %s %s" % (a, op, x) for op in "+-/" for x in (a, s)] + ["%s %s %s" % (s, op, a) for op in "+-*/"] + ["%s * %s" % (a, s), "+" + a, "-" + a, "++" + m, m + "++", "--" + m, m + "--", "%s == %s" % (a, a), "%s != %s" % (a, a)]
    yield "product", ["%s * %s" % (a, row), "%s * %s" % (col, a), "transpose(%s)" % a, "%s * transpose(%s)" % (a, a), "matrixCompMult(%s, %s)" % (a, a), "outerProduct(%s, %s)" % (col, row)] + (["determinant(%s)" % a, "inverse(%s)" % a, "diagonal_matrix(%s)" % col] if C == R else []) + (["cross_matrix(%s)" % col] if C == R == 3 else [])


def items(full):
    for j, T in enumerate(ALL):
        for n in (1, 2, 3, 4):
            for i, k in enumerate(KINDS):
                if n == 1 and k == "vv" or not full and (i + j + n) % 2 and (T not in ("int", "float") or n % 2):
                    continue
                for nm, es in exprs(T, n, k):
                    for i, e in enumerate(es):
                        yield "%s.%s.%d.%s.%d" % (nm, T, n, k, i), "noexcept(%s)" % e, "%s is noexcept" % e
            V = vec(T, n)
            yield "traits.%s.%d" % (T, n), " && ".join("std::is_nothrow_%s_v<%s>" % (q, x) for x in (V, "view_vector<%s,%d>" % (T, n)) for q in ("default_constructible", "copy_constructible", "move_constructible", "copy_assignable", "move_assignable", "destructible")) + " && std::is_nothrow_swappable_v<%s>" % V, "vectors are nothrow movable and swappable"
            yield "views.%s.%d" % (T, n), " && ".join("std::is_nothrow_%s_v<basic_view<%s,%s,%d>>" % (q, b, T, n) for b in ("true", "false") for q in ("default_constructible", "copy_constructible", "move_constructible", "destructible")) + " && noexcept(lv<basic_view<true,%s,%d>>().reset(rv<%s*>()))" % (T, n, T), "views are nothrow copyable"
            yield "throwing.%s.%d" % (T, n), "!noexcept(swizzle(cl<{0}>(), 0)) && !noexcept(swizzle(cl<{0}>(), 0, 0)) && !noexcept(swizzle(cl<{0}>(), 0, 0, 0, 0)) && !noexcept(lv<{1}>().swap(lv<{1}>())) && !noexcept(swap(lv<{1}>(), lv<{1}>()))".format(V, "basic_view<true,%s,%d>" % (T, n)), "what documents an exception is not noexcept"
            yield "toarray.%s.%d" % (T, n), "noexcept(to_vector(cl<std::array<%s,%d>>())) && noexcept(to_vector(lv<%s[%d]>()))" % (T, n, T, n), "to_vector is noexcept"
    for T in FLOATS:
        for C, R in SHAPES:
            for nm, es in matrices(T, C, R):
                for i, e in enumerate(es):
                    yield "matrix.%s.%s.%dx%d.%d" % (nm, T, C, R, i), "noexcept(%s)" % e, "%s is noexcept" % e
            M = mt(T, C, R)
            yield "matrix.traits.%s.%dx%d" % (T, C, R), " && ".join("std::is_nothrow_%s_v<%s>" % (q, M) for q in ("default_constructible", "copy_constructible", "move_constructible", "copy_assignable", "move_assignable", "destructible", "swappable")) + " && !noexcept(%s(rv<const float*>()))" % M, "matrices are nothrow movable; import from a pointer may throw"


def run(c):
    it = sorted(items(c.tier == "thorough"), key=lambda x: x[0])
    ctl = [("control.throws", "noexcept(swizzle(cl<vec3>(), 0))", "", "false"), ("control.vector", "noexcept(std::vector<int>(3))", "", "false")]
    h = c.witness("noexcept", it + ctl, prelude="#include <vector>\n" + PRE, minimum=3000)
    c.collect_witness(h)
