from gen import *
from checks.c01 import SHAPES, mt

META = dict(
    title="All but the run-time-only functions work, and are checked, at compile time",
    statement="Construction, assignment, element access, iteration, set and swap, operators, conversions, comparisons and every function but the trigonometric, hyperbolic, exponential, fma, frexp and ldexp ones and the swizzle() function are constant expressions for every element type, length and shape and for vectors, views and view_vectors alike (swizzle members are union members, which the language does not let constant evaluation read). In constant evaluation a violated precondition - an index or iterator out of range, a null view, an inverted clamp or smoothstep range, an integral division by zero or overflow - makes the program fail to compile instead of yielding a value.",
    quant=("types and forms", "every element type, length, matrix shape and operand form, per operation; every documented precondition"),
    why="A function that loses constexpr, or calls something that is not, for one element type or overload compiles and passes until somebody evaluates that very instantiation at compile time; an assertion skipped in constant evaluation turns a compile error into a wrong constant.",
    anchors=["include/dsga.hxx"],
    mech=[("constant expressions", "every constexpr function of the library and the constant branch of its cxcm kernels"), ("compile-time assertions", "dsga_constexpr_assert, cxcm_constexpr_assert")],
    explanation="each operation and type is put where the language requires a constant expression, so that the compiler rejects the unit if it is not one; each violated precondition is put where the requirement must fail to be satisfied",
    technique="type-level witnesses and compile-fail witnesses (constant-expression requirement)",
)

PRE = "template <class F> concept Const = requires { typename std::bool_constant<((void)F{}(), true)>; };\n"


def mk(kind, T, n, v, vals):
    """statements creating an operand of the given kind"""
    vs = ", ".join("%s(%s)" % (T if T != "unsigned" else "uint_", x) for x in vals)
    if kind == "vec":
        return "basic_vector<%s,%d> %s(%s); " % (T, n, v, vs)
    if kind == "view":
        return "%s %s_[]{%s}; basic_view<true,%s,%d> %s(%s_); " % (T, v, vs, T, n, v, v)
    if kind == "cview":
        return "const %s %s_[]{%s}; basic_view<false,%s,%d> %s(%s_); " % (T, v, vs, T, n, v, v)
    if kind == "vv":
        return "view_vector<%s,%d> %s(%s); " % (T, n, v, vs)
    if kind == "scalar":
        return "%s %s(%s); " % (T, v, vals[0])
    raise ValueError(kind)


FORMS = ["vec", "view", "cview", "vv"]


def exprs(T, n, k):
    """(name, statements) over operands a, b of length n, d with larger elements, s scalar"""
    scal = "%s(2)" % (T if T != "unsigned" else "uint_")
    w = k != "cview"
    U = T if T != "unsigned" else "uint_"
    yield "index", "U r = a[0]; for (std::size_t i = 0; i < a.size(); ++i) r = a[i];".replace("U", T, 1)
    yield "iterate", "%s r{}; for (auto x : a) r = x; for (auto it = a.rbegin(); it != a.rend(); ++it) r = *it; auto q = a.end() - a.begin(); auto z = a.cbegin()[0];" % T
    yield "data", "auto p = a.data(); auto q = a.sequence(); auto z = a.length();"
    yield "get", "auto r = get<%d>(a);" % (n - 1)
    yield "to_array", "auto r = to_array(a); auto s2 = to_vector(r);"
    yield "copy", "basic_vector<%s,%d> r(a); r = b; basic_vector<double,%d> q(r); basic_vector<int,%d> i(a); basic_vector<bool,%d> z(a);" % (T, n, n, n, n)
    if n > 1:
        yield "bind", "%sauto& [%s] = a;" % ("const " if k == "cview" else "", ",".join("pqrs"[:n]))
    yield "equal", "auto r = (a == b), q = (a != b);"
    if w:
        yield "write", "a[0] = b[0]; a.set(%s); " % ", ".join(["b[0]"] * n) + ("a.swap(c); " if k == "vec" else "") + "for (auto& x : a) x = b[0]; *a.begin() = b[0];"
        if T != "bool" or k == "vec":
            yield "assign", "a = b;" if k != "view" else "a = basic_vector<%s,%d>(b);" % (T, n)
        if T != "bool":
            yield "assign.scalar", "a = %s;" % scal if n == 1 and k in ("vec", "view") else "(void)0;"
    yield "compare", "auto r = functions::notEqual(a, b); auto q = functions::equal(a, b);" + ("" if T == "bool" else "auto w1 = functions::lessThan(a, b); auto x = functions::lessThanEqual(a, b); auto y = functions::greaterThan(a, b); auto z = functions::greaterThanEqual(a, b);")
    if T == "bool":
        yield "logic", "auto r = functions::any(a); auto q = functions::all(a); auto x = functions::none(a); auto y = functions::compNot(a); auto z = functions::compAnd(a, b); auto u = functions::compOr(a, b);"
        return
    for op in OPS:
        if arith_ok(op, T, T):
            yield "op" + op, "auto r = a %s b; auto x = a %s %s; auto y = %s %s b;" % (op, op, scal, scal, op)
            if w:
                yield "op%s=" % op, "a %s= b; a %s= %s;" % (op, op, scal)
    yield "unary", "auto r = +a; auto q = -a;" + ("auto z = ~a;" if T in INTS else "")
    if w:
        yield "incdec", "++a; --a; a++; a--;"
    yield "minmax", "auto r = functions::min(a, b); auto q = functions::max(a, b); auto x = functions::clamp(a, b, d); auto y = functions::min(a, {0}); auto z = functions::clamp(a, {0}, {0} + {0}); auto u = functions::max({0}, {0});".format(scal)
    yield "dot", "auto r = functions::innerProduct(a, b);"
    if T in INTS:
        yield "byteswap", "auto r = functions::byteswap(a);"
        if T in ("int", "ll"):
            yield "abs", "auto r = functions::abs(a); auto q = functions::sign(a);"
    if T in FLOATS:
        for f in ("abs", "sign", "floor", "trunc", "round", "roundEven", "ceil", "fract", "isnan", "isinf", "radians", "degrees", "sqrt", "inversesqrt", "fast_inversesqrt"):
            yield f, "auto r = functions::%s(a); auto q = functions::%s(%s);" % (f, f, scal)
        yield "mod", "auto r = functions::mod(a, b); auto q = functions::mod(a, {0}); auto x = functions::mod({0}, {0});".format(scal)
        yield "mix", "auto r = functions::mix(a, b, a); auto q = functions::mix(a, b, {0}); auto x = functions::mix({0}, {0}, {0}); auto y = functions::step(a, b); auto z = functions::step({0}, b); auto u = functions::smoothstep(b, d, a); auto v = functions::smoothstep({0}, {0} * 2, a);".format(scal)
        if T == "float":
            yield "bits", "auto r = functions::floatBitsToInt(a); auto q = functions::floatBitsToUint(a); auto x = functions::intBitsToFloat(r); auto y = functions::uintBitsToFloat(q);"
        else:
            yield "bits", "auto r = functions::doubleBitsToLongLong(a); auto q = functions::doubleBitsToUlongLong(a); auto x = functions::longLongBitsToDouble(r); auto y = functions::ulongLongBitsToDouble(q);"
        if n == 1:
            return
        yield "geometric", "auto r = functions::dot(a, b); auto q = functions::faceforward(a, b, b); auto x = functions::reflect(a, b);"
        yield "length", "auto r = functions::length(a); auto q = functions::distance(a, b); auto x = functions::normalize(a); auto y = functions::refract(a, functions::normalize(b), {0} / 4);".format(scal)
        if n == 3:
            yield "cross", "auto r = functions::cross(a, b);"


def matrices(T, C, R):
    M = mt(T, C, R)
    n = C * R
    el = ", ".join("%s(%d)" % (T, (i * 7 + 3) % 11 + 1) for i in range(n))
    d = "%s m(%s), w(%s); basic_vector<%s,%d> col(%s); basic_vector<%s,%d> row(%s); " % (M, el, el, T, R, ",".join(["1"] * R), T, C, ",".join(["1"] * C))
    yield "make", "%s a{}; %s e(m); %s f(%s); basic_matrix<%s,%d,%d> g(m);" % (M, M, M, ",".join(["col"] * C), "double" if T == "float" else "float", C, R), d
    yield "access", "auto x = m[0]; m[%d] = col; auto z = m[0][%d]; auto r = m.row(0); auto q = m.size(); auto s2 = m.column_size(); auto p = m.data(); for (auto& y : m) y = col; auto u = get<0>(m); auto v = to_array(m); auto t = to_matrix<%d,%d>(v);" % (C - 1, R - 1, C, R), d
    yield "arith", "auto a = m + w; auto b = m - w; auto e = m + T(2); auto f = T(2) + m; auto g = m * T(2); auto h = T(2) * m; auto i = m / T(2); auto j = -m; auto k = +m; ++m; --m; m++; m--; auto o = (m == w), p = (m != w); m.swap(w);".replace("T(", T + "("), d
    yield "product", "auto a = m * row; auto b = col * m; auto x = transpose(m); auto e = m * x; auto f = matrixCompMult(m, w); auto g = outerProduct(col, row); auto h = (m / w);", d
    if C == R:
        yield "square", "%s s(%s(2)); auto a = determinant(s); auto b = inverse(s);" % (M, T), d


def rejected():
    for T in NUM:
        lit = lambda x: "%s(%s)" % ("uint_" if T == "unsigned" else T, x)
        for n in (1, 2, 3, 4):
            for k in FORMS:
                if n == 1 and k == "vv":
                    continue
                dcl = mk(k, T, n, "a", range(1, n + 1)) + mk("vec", T, n, "b", range(2, n + 2))
                bad = [("index", "auto r = a[%d];" % n), ("negative", "auto r = a[-1];"), ("end", "auto r = *a.end();"), ("past", "auto it = a.end(); ++it; auto r = *it;"), ("before", "auto it = a.begin(); --it; auto r = *it;"), ("offset", "auto it = a.begin() + %d;  auto r = *it;" % (n + 1)), ("subscript", "auto r = a.begin()[%d];" % n)]
                good = [("index", "auto r = a[%d];" % (n - 1)), ("end", "auto r = *(a.end() - 1);"), ("subscript", "auto r = a.begin()[%d];" % (n - 1))]
                if T in INTS:
                    bad += [("zero%s" % op, "auto r = a %s (b - b);" % op) for op in "/%"] + [("scalar0", "auto r = a / %s;" % lit(0))]
                    good += [("nonzero", "auto r = a / b;")]
                if T in ("int", "ll"):
                    bad += [("overflow", "auto r = a + std::numeric_limits<%s>::max();" % T), ("negate", "auto r = -(a - a + std::numeric_limits<%s>::min());" % T)]
                bad += [("clamp", "auto r = functions::clamp(a, basic_vector<%s,%d>(b + b), b);" % (T, n)), ("clamp.s", "auto r = functions::clamp(a, %s, %s);" % (lit(3), lit(2)))]
                if T in FLOATS:
                    bad += [("smoothstep", "auto r = functions::smoothstep(basic_vector<%s,%d>(b + b), b, a);" % (T, n)), ("smoothstep.s", "auto r = functions::smoothstep(%s, %s, a);" % (lit(3), lit(2)))]
                for nm, st in bad:
                    yield "%s.%d.%s.%s" % (T, n, k, nm), dcl + st, False
                for nm, st in good:
                    yield "%s.%d.%s.%s" % (T, n, k, nm), dcl + st, True
                if k in ("view", "cview"):
                    nul = "basic_view<%s,%s,%d> a(%snullptr); " % ("true" if k == "view" else "false", T, n, "")
                    nul = "basic_view<%s,%s,%d> a; " % ("true" if k == "view" else "false", T, n)
                    for nm, st in (("null.index", "auto r = a[0];"), ("null.op", "auto r = a + a;"), ("null.copy", "basic_vector<%s,%d> r(a);" % (T, n)), ("null.iterate", "auto r = *a.begin();")) + ((("null.set", "a.set(%s);" % ", ".join([lit(1)] * n)), ("null.assign", "a = basic_vector<%s,%d>(%s);" % (T, n, ", ".join([lit(1)] * n)))) if k == "view" else ()):
                        yield "%s.%d.%s.%s" % (T, n, k, nm), nul + st, False
    for T in FLOATS:
        for C, R in SHAPES:
            M = mt(T, C, R)
            for nm, st, ok in (("index", "auto r = m[%d];" % C, False), ("row", "auto r = m.row(%d);" % R, False), ("elem", "auto r = m[0][%d];" % R, False), ("in", "auto r = m[%d]; auto q = m.row(%d); auto e = m[0][%d];" % (C - 1, R - 1, R - 1), True)):
                yield "%s.%dx%d.%s" % (T, C, R, nm), "%s m{}; " % M + st, ok


def items():
    for T in ALL:
        for n in (1, 2, 3, 4):
            for k in FORMS:
                if n == 1 and k == "vv":
                    continue
                for nm, st in exprs(T, n, k):
                    dcl = mk(k, T, n, "a", range(1, n + 1)) + mk("vec", T, n, "b", range(2, n + 2)) + mk("vec", T, n, "d", range(9, n + 9)) + (mk(k, T, n, "c", range(3, n + 3)) if nm == "write" else "")
                    yield "%s.%d.%s.%s" % (nm, n, T, k), "[]{ %s%s return true; }()" % (dcl, st), "%s of %s %s,%d is a constant expression" % (nm, k, T, n)
    for T in FLOATS:
        for C, R in SHAPES:
            for nm, st, d in matrices(T, C, R):
                yield "matrix.%s.%dx%d.%s" % (nm, C, R, T), "[]{ %s%s return true; }()" % (d, st), "%s of a %dx%d matrix of %s is a constant expression" % (nm, C, R, T)
    yield "scalar", "[]{ enum class E : short { a = 3 }; auto r = functions::to_underlying(E::a); auto q = functions::byteswap(3); return true; }()", "scalar helpers are constant expressions"


def run(c):
    it = sorted(items(), key=lambda x: x[0])
    rej = [("reject." + nm if not ok else "accept." + nm, "%sConst<decltype([]{ %s })>" % ("" if ok else "!", st), "%s in constant evaluation: %s" % ("valid use" if ok else "violated precondition", st[:160])) for nm, st, ok in rejected()]
    ctl = [("control.runtime", "[]{ basic_vector<float,2> a(1.f, 2.f); auto r = functions::sin(a); return true; }()", "", "false"), ("control.reject", "!Const<decltype([]{ basic_vector<int,2> a(1, 2); auto r = a[1]; })>", "", "false"),
           ("control.accept", "Const<decltype([]{ int a[2]{}; auto r = a[2]; })>", "", "false")]
    h = [c.witness("constant", it + ctl, prelude=PRE, flags=["gcc"], minimum=1200), c.witness("misuse", rej + ctl, prelude=PRE, flags=["gcc"], minimum=1000)]
    for x in h:
        c.collect_witness(x)
