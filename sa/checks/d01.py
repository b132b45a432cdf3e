from fw import Case, CONSTEVAL
from gen import *

META = dict(
    title="Compile-time rounding and classification agree with run time, for every value",
    statement="Evaluated at compile time, cxcm's trunc, floor, ceil, round, abs, fabs and fract give, for every finite, infinite or zero argument, the mathematical result the standard library gives at run time (the sign of a zero result aside); roundEven and fract, which have no standard counterpart, do so at run time too. NaN arguments give NaN, and out-of-domain arguments of fmod, sqrt and the reciprocal square roots give the IEEE special result. No integer conversion inside them is ever applied to a value the integer type cannot hold. isnan, isinf, isfinite, isnormal, fpclassify, signbit and copysign are exact.",
    quant=("inputs", "every float and double value, including values just below one half, the largest values with a fraction, values beyond any integer type, subnormals, zeros, infinities and NaN"),
    why="The compile-time kernels are separate code from the run-time ones, go through integers and add one half, which is wrong or undefined only for particular magnitudes.",
    anchors=["include/dsga.hxx"],
    mech=[("compile-time kernels", "cxcm::relaxed and cxcm::strict::detail: trunc, floor, ceil, round, round_even, fract, fmod, abs, constexpr_*"), ("classification", "cxcm::isnan … copysign")],
    explanation="each kernel is lowered with constant evaluation forced and compared, region by region of its argument, with the integral-part normal form of the mathematical function; an integer conversion counts as undefined outside the range of its type",
    technique="value numbering with range facts on floating-point thresholds (compile-time branch selected) over clang LLVM IR",
    assumptions=["x - trunc(x) and trunc(x) +- 1 are exact for the values that have a fraction (IEEE 754)", "the sign of a zero result is not compared where an integer conversion is involved", "the value of the compile-time fmod between its special cases (an approximation) is not covered", "accuracy of the iterative square roots is not covered (only their special cases)"],
)


def rnd(T, a):
    return "%s t = std::trunc(%s), f = %s - t; *o = (f >= (%s)0.5) ? t + 1 : (f <= (%s)-0.5) ? t - 1 : t;" % (T, a, a, T, T)


def even(T, a):
    odd = "(t - std::trunc(t / 2) * 2 != 0)"
    return "%s t = std::trunc(%s), f = %s - t; *o = (f > (%s)0.5 || (f == (%s)0.5 && %s)) ? t + 1 : (f < (%s)-0.5 || (f == (%s)-0.5 && %s)) ? t - 1 : t;" % (T, a, a, T, T, odd, T, T, odd)


def cases(consteval):
    for T in FLOATS:
        inf = "std::numeric_limits<%s>::infinity()" % T
        kw = dict(mode="poly", anynan=True, rounding=True)
        I = "%s* o, %s a" % (T, T)
        fin = "(std::fabs(a) <= std::numeric_limits<%s>::max())" % T
        both = [("round_even", even(T, "a")), ("fract", "if (%s) *o = a - std::floor(a); else *o = a;" % fin)]
        only = [("trunc", "*o = std::trunc(a);"), ("floor", "*o = std::floor(a);"), ("ceil", "*o = std::ceil(a);"), ("round", rnd(T, "a")), ("abs", "*o = std::fabs(a);"), ("fabs", "*o = std::fabs(a);")]
        for f, spec in both + (only if consteval else []):
            yield Case("%s.%s" % (f, T), I, "put<%s>(o, cxcm::%s(a));" % (T, f), I, spec, **kw)
        I2, fl = "%s* o, %s a, %s b" % (T, T, T), "std::fabs(%%s) < %s" % inf
        g = "if (!(%s && %s) || a == 0 || b == 0) " % (fl % "a", fl % "b")
        yield Case("fmod.%s.special" % T, I2, g + "put<%s>(o, cxcm::fmod(a, b));" % T, I2, g + "*o = (a != a || b != b || !(%s) || b == 0) ? std::numeric_limits<%s>::quiet_NaN() : a;" % (fl % "a", T) if consteval else g + "*o = std::fmod(a, b);", anynan=True, rounding=True)
        nanv = "std::numeric_limits<%s>::quiet_NaN()" % T
        for f, z, pinf in (("sqrt", "a", inf), ("rsqrt", inf, "0"), ("fast_rsqrt", inf, "0")):
            if f == "sqrt" and not consteval:
                continue
            g = "if (!(a > 0) || a == %s) " % inf
            yield Case("%s.%s.special" % (f, T), I, g + "*o = cxcm::%s(a);" % f, I, g + "*o = (a != a || a < 0) ? %s : (a == 0) ? %s : %s;" % (nanv, z, pinf), anynan=True, rounding=True)
        B = "bool* o, %s a" % T
        for f, e in (("isnan", "a != a"), ("isinf", "std::fabs(a) == " + inf), ("isfinite", "std::fabs(a) < " + inf), ("isnormal", "std::fabs(a) < %s && std::fabs(a) >= std::numeric_limits<%s>::min()" % (inf, T))):
            yield Case("%s.%s" % (f, T), B, "put<bool>(o, cxcm::%s(a));" % f, B, "*o = %s;" % e, rounding=True)
        u = "unsigned" if T == "float" else "ull"
        yield Case("signbit.%s" % T, B, "put<bool>(o, cxcm::signbit(a));", "bool* o, %s a" % T, "*o = (std::bit_cast<%s>(a) >> %d) != 0;" % (u, 31 if T == "float" else 63))
        yield Case("copysign.%s" % T, "%s* o, %s a, %s b" % (T, T, T), "put<%s>(o, cxcm::copysign(a, b));" % T, "%s* o, %s a, %s b" % (T, T, T), "*o = __builtin_copysign%s(a, b);" % ("f" if T == "float" else ""))
        yield Case("fpclassify.%s" % T, "int* o, %s a" % T, "put<int>(o, cxcm::fpclassify(a));", "int* o, %s a" % T,
                   "%s m = std::fabs(a); *o = (a != a) ? FP_NAN : (m == %s) ? FP_INFINITE : (m == 0) ? FP_ZERO : (m < std::numeric_limits<%s>::min()) ? FP_SUBNORMAL : FP_NORMAL;" % (T, inf, T), rounding=True)


def integers():
    for T in INTS:
        I = "double* o, %s a" % T
        for f, e in (("trunc", "(double)a"), ("floor", "(double)a"), ("ceil", "(double)a"), ("round", "(double)a"), ("round_even", "(double)a"), ("fract", "0.0")):
            yield Case("%s.%s" % (f, T), I, "put<double>(o, cxcm::%s(a));" % f, I, "*o = %s;" % e)
        lo = "NEED(a != std::numeric_limits<%s>::min()); " % T
        m = "(a < 0 ? -a : a)" if T in ("int", "ll") else "a"
        if T in ("int", "ll"):
            yield Case("abs.%s" % T, "%s* o, %s a" % (T, T), "put<%s>(o, cxcm::abs(a));" % T, "%s* o, %s a" % (T, T), lo + "*o = %s;" % m)
            yield Case("fabs.%s" % T, I, "put<double>(o, cxcm::fabs(a));", I, lo + "*o = (double)%s;" % m)


def run(c):
    h = []
    for ce in (True, False):
        cs = list(cases(ce)) + list(integers())
        kw = dict(mode="poly", anynan=True, rounding=True, expect="differs")
        ctl = [Case("control.away", "float* o, float a", "*o = cxcm::floor(a);" if ce else "*o = cxcm::fract(a);", "float* o, float a", "*o = std::ceil(a);" if ce else "*o = a - std::trunc(a);", **kw),
               Case("control.half", "float* o, float a", "*o = (float)(int)(a + 0.5f);", "float* o, float a", rnd("float", "a"), **kw),
               Case("control.range", "float* o, float a", "*o = (float)(int)a;", "float* o, float a", "*o = std::trunc(a);", **kw)]
        h.append(c.pairs("compile-time" if ce else "run-time", cs + ctl, flags=CONSTEVAL if ce else [], minimum=18))
    for x in h:
        c.collect(x)
