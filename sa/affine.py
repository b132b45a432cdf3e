"""Rounding-error analysis of a scalar floating-point kernel (abstract interpretation of its value graph).

A value is  s^p * (c + sum of coefficient * noise monomial),  where s = sqrt(x) for the argument x, p is an exact rational
power ("unit"), and every noise symbol ranges over [-1, 1].  Coefficients are arrays over a partition of the significand of x
(in [1, 4)); they do not depend on the exponent of x, because every operation is homogeneous in s.  Every rounding adds a
fresh symbol of the size the IEEE format allows; products of symbols are kept as monomials while they matter, so the
error-free transformations of double-double arithmetic cancel as they do on paper.  The exponent of x enters through its
zone [lo, hi]: a value that can overflow there is a violation, and one that can underflow gets the absolute rounding error of
the subnormals."""
import math
import struct
from fractions import Fraction
import numpy as np
import terms as T
from terms import NODES, WIDTH

LD = np.longdouble
PRUNE = 2.0 ** -78
EPS = {64: 2.0 ** -53, 32: 2.0 ** -24}
ETA = {64: -1075, 32: -150}          # log2 of half the smallest subnormal
BIG = {64: 1024.0, 32: 128.0}        # log2 of the overflow threshold
TINY = {64: -1022, 32: -126}


class Violation(Exception):
    pass


class Cannot(Exception):
    pass


def fval(n):
    w, b = WIDTH[n], T.cval(n)
    return struct.unpack("<d", struct.pack("<Q", b))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", b))[0]


class AF:
    __slots__ = ("p", "c", "n", "exact")

    def __init__(self, p, c, n=None, exact=False):
        self.p, self.c, self.n = Fraction(p), c, n or {}
        self.exact = exact           # the value is exactly c * s^p, with c one power of two

    def rad(self):
        r = LD(0)
        for v in self.n.values():
            r = r + np.abs(v)
        return r + 0 * self.c

    def mag(self):
        return np.abs(self.c) + self.rad()


class IV:
    """integer: a * bits(x) + [lo, hi]"""

    def __init__(self, a, lo, hi, width):
        self.a, self.lo, self.hi, self.w = Fraction(a), lo, hi, width


class Analysis:
    def __init__(self, arg, lo, hi, bins):
        """arg: the argument term, a floating-point number in [lo, hi]"""
        self.arg, self.lo, self.hi = arg, lo, hi
        e = np.array([(Fraction(1) + Fraction(3 * i, bins)) for i in range(bins + 1)], dtype=object)
        self.mlo = np.array([LD(x.numerator) / LD(x.denominator) for x in e[:-1]])
        self.mhi = np.array([LD(x.numerator) / LD(x.denominator) for x in e[1:]])
        self.one = np.ones(bins, dtype=LD)
        self.sym = 0
        self.memo = {}
        self.nops = 0
        # log2 of the range of s, widened a little
        self.ls = (math.log2(lo) / 2 - 1e-9, math.log2(hi) / 2 + 1e-9)

    # ------------------------------------------------------------------ ranges
    def l2range(self, v):
        """bounds of log2 |value| over the zone: (of the largest magnitude, of s^p alone)"""
        p = float(v.p)
        ends = (p * self.ls[0], p * self.ls[1])
        m = float(np.max(v.mag()))
        lm = math.log2(m) if m > 0 else -1e9
        return lm + max(ends), min(ends)

    def noise(self, v, size):
        self.sym += 1
        v.n[(self.sym,)] = size
        return v

    def rounded(self, v, w, what, mul):
        """the result of one operation in the format of width w"""
        self.nops += 1
        v.exact = False
        top, smin = self.l2range(v)
        if top >= BIG[w]:
            raise Violation("%s can overflow: it reaches 2^%.1f for an argument in [%g, %g]" % (what, top, self.lo, self.hi))
        size = v.mag() * LD(EPS[w] * (1 + 2.0 ** -6)) + np.max(v.mag()) * LD(2.0 ** -90)
        if mul:
            # absolute error of a subnormal result
            u = ETA[w] - smin
            if u > -900:
                size = size + LD(2.0) ** LD(u)
        return self.noise(v, size)

    # ------------------------------------------------------------------ arithmetic on forms
    def add(self, a, b):
        z = lambda v: not v.n and not np.any(v.c)
        if z(a):
            return AF(b.p, b.c, dict(b.n), b.exact)
        if z(b):
            return AF(a.p, a.c, dict(a.n), a.exact)
        if a.p != b.p:
            raise Violation("adds a quantity that scales as x^(%s) to one that scales as x^(%s)" % (a.p / 2, b.p / 2))
        n = dict(a.n)
        for k, v in b.n.items():
            n[k] = n[k] + v if k in n else v
        return AF(a.p, a.c + b.c, {k: v for k, v in n.items() if np.any(v)})

    def scale(self, a, k):
        return AF(a.p, a.c * k, {s: v * k for s, v in a.n.items()}, a.exact)

    def mul(self, a, b):
        p, c = a.p + b.p, a.c * b.c
        n = {}

        def put(k, v):
            n[k] = n[k] + v if k in n else v
        for k, v in a.n.items():
            put(k, v * b.c)
        for k, v in b.n.items():
            put(k, v * a.c)
        if a.n and b.n:
            # the scale of the result decides what is negligible
            ref = float(np.max(np.abs(c))) or float(np.max(a.mag() * b.mag())) or 1.0
            am = sorted(((float(np.max(np.abs(v))), k) for k, v in a.n.items()), reverse=True)
            bm = sorted(((float(np.max(np.abs(v))), k) for k, v in b.n.items()), reverse=True)
            rest = a.rad() * b.rad()
            for x, ka in am:
                if x * bm[0][0] < PRUNE * ref:
                    break
                for y, kb in bm:
                    if x * y < PRUNE * ref:
                        break
                    if len(ka) + len(kb) > 4:
                        continue
                    t = a.n[ka] * b.n[kb]
                    put(tuple(sorted(ka + kb)), t)
                    rest = rest - np.abs(t)
            rest = np.maximum(rest, LD(0)) + np.abs(c) * LD(2.0 ** -100)
            r = AF(p, c, n)
            return self.noise(r, rest)
        return AF(p, c, n)

    def sqr_bounds(self, v):
        lo, hi = v.c - v.rad(), v.c + v.rad()
        return lo, hi

    def unary(self, v, p, f, d1, d2, what):
        """f(value) by its first-order expansion at the centre, second-order remainder bounded"""
        lo, hi = self.sqr_bounds(v)
        if not np.all(lo > 0):
            raise Violation("%s of a quantity that is not shown to be positive" % what)
        r = v.rad()
        n = {k: x * d1(v.c) for k, x in v.n.items()}
        out = AF(p, f(v.c), n)
        return self.noise(out, LD(0.5) * np.maximum(np.abs(d2(lo)), np.abs(d2(hi))) * r * r + np.abs(out.c) * LD(2.0 ** -62))

    def recip(self, v):
        neg = bool(np.all(v.c < 0))
        if neg:
            v = self.scale(v, LD(-1))
        o = self.unary(v, -v.p, lambda t: 1 / t, lambda t: -1 / (t * t), lambda t: 2 / (t * t * t), "division")
        return self.scale(o, LD(-1)) if neg else o

    # ------------------------------------------------------------------ conditions
    def cond(self, n):
        nd = NODES[n]
        if n == T.TRUE:
            return True
        if n == T.FALSE:
            return False
        if nd[0] == "ite":
            return self.cond(nd[2]) if self.cond(nd[1]) else self.cond(nd[3])
        if nd[0] == "nan":
            self.val(nd[1])
            return False
        if nd[0] in ("flt", "eq"):
            x, y = self.known(nd[1]), self.known(nd[2])
            if nd[0] == "flt":
                if x[1] < y[0]:
                    return True
                if x[0] >= y[1]:
                    return False
            else:
                if x[1] < y[0] or y[1] < x[0]:
                    return False
                if x[0] == x[1] == y[0] == y[1]:
                    return True
        if nd[0] in ("slt", "thr", "ult"):
            # integer comparisons of the bit pattern: positive numbers are ordered as their bits
            w = WIDTH[nd[1]]
            pat = lambda n: (T.sval(n), T.sval(n)) if T.is_c(n) else tuple(int(np.array(x, dtype="f8" if w == 64 else "f4").view("i8" if w == 64 else "i4")) for x in self.known(n))
            x, y = pat(nd[1]), ((nd[2], nd[2]) if nd[0] == "thr" else pat(nd[2]))
            if x[1] < y[0]:
                return True
            if x[0] >= y[1]:
                return False
        raise Cannot("condition %s for an argument in [%g, %g]" % (T.show(n), self.lo, self.hi))

    def known(self, n):
        """interval of an exactly known quantity: a constant or a power-of-two multiple of the argument"""
        if T.is_c(n):
            v = fval(n)
            return v, v
        a = self.val(n)
        if isinstance(a, AF) and a.exact and a.p == 2:
            k = float(a.c[0])
            return sorted((self.lo * k, self.hi * k))
        if isinstance(a, AF) and a.p == 0:
            r = a.rad()
            return float(np.min(a.c - r)), float(np.max(a.c + r))
        raise Cannot("comparison with %s" % T.show(n))

    # ------------------------------------------------------------------ evaluation
    def val(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self.eval(n)
        return r

    def flt(self, n):
        v = self.val(n)
        if isinstance(v, IV):
            return self.tofloat(v, n)
        return v

    def eval(self, n):
        nd, w = NODES[n], WIDTH[n]
        op = nd[0]
        if n == self.arg:
            return AF(2, self.one * 1, exact=True)
        if op == "ite":
            return self.val(nd[2] if self.cond(nd[1]) else nd[3])
        if T.is_c(n):
            v = fval(n)
            if v != v or math.isinf(v):
                raise Violation("the result can be %r for an argument in [%g, %g]" % (v, self.lo, self.hi))
            return AF(0, self.one * LD(v), exact=v != 0 and math.frexp(abs(v))[0] == 0.5)
        if op == "fneg":
            return self.scale(self.flt(nd[1]), LD(-1))
        if op == "fabs":
            v = self.flt(nd[1])
            lo, hi = self.sqr_bounds(v)
            if np.all(lo >= 0):
                return v
            if np.all(hi <= 0):
                return self.scale(v, LD(-1))
            raise Cannot("absolute value of a quantity of unknown sign")
        if op == "fpext":
            v = self.flt(nd[1])
            return AF(v.p, v.c, dict(v.n), v.exact)
        if op == "fptrunc":
            v = self.flt(nd[1])
            return self.rounded(AF(v.p, v.c, dict(v.n)), w, "the narrowed value", True)
        if op in ("fadd", "fsub"):
            a, b = self.flt(nd[1]), self.flt(nd[2])
            if op == "fsub":
                b = self.scale(b, LD(-1))
            for x, y in ((a, b), (b, a)):
                if not x.n and not np.any(x.c):
                    return y
            return self.rounded(self.add(a, b), w, "sum " + T.show(n, 3), False)
        if op == "fmul":
            a, b = self.flt(nd[1]), self.flt(nd[2])
            if any(not v.n and not np.any(v.c) for v in (a, b)):
                return AF(a.p + b.p, self.one * 0)
            if a.exact and b.exact and self.inrange(a, b, w):
                return AF(a.p + b.p, a.c * b.c, exact=True)
            for x, y in ((a, b), (b, a)):
                if x.exact and x.p == 0 and not y.exact:
                    r = self.scale(y, x.c)
                    r.exact = False
                    if self.subnormal(r, w):
                        return self.rounded(r, w, "product " + T.show(n, 3), True)
                    return r
            return self.rounded(self.mul(a, b), w, "product " + T.show(n, 3), True)
        if op == "fdiv":
            a, b = self.flt(nd[1]), self.flt(nd[2])
            return self.rounded(self.mul(a, self.recip(b)), w, "quotient " + T.show(n, 3), True)
        if op == "fma" or (op in ("call", "opq") and "fma" in str(nd[1])):
            xs = [self.flt(x) for x in T.children(n)]
            return self.rounded(self.add(self.mul(xs[0], xs[1]), xs[2]), w, "fma " + T.show(n, 3), True)
        if op in ("call", "opq") and str(nd[1]).startswith("sqrt"):
            v = self.flt(T.children(n)[0])
            return self.rounded(self.unary(v, v.p / 2, np.sqrt, lambda t: LD(0.5) / np.sqrt(t), lambda t: LD(-0.25) / (t * np.sqrt(t)), "square root"), w, "square root", True)
        if op in ("ashr", "lshr", "mul", "add", "sub", "shl", "udiv"):
            return self.integer(n, nd, w)
        raise Cannot("operation %s" % T.show(n, 3))

    def inrange(self, a, b, w):
        r = AF(a.p + b.p, a.c * b.c)
        top, smin = self.l2range(r)
        if top >= BIG[w]:
            raise Violation("a product can overflow: it reaches 2^%.1f for an argument in [%g, %g]" % (top, self.lo, self.hi))
        return not self.subnormal(r, w)

    def subnormal(self, v, w):
        top, smin = self.l2range(v)
        low = np.min(np.abs(v.c) - v.rad())
        if low <= 0:
            # only rounding terms: exact unless they can be subnormal themselves; the caller adds the absolute error
            return smin + math.log2(max(float(np.max(v.mag())), 1e-300)) < TINY[w] + 120
        return math.log2(float(low)) + smin < TINY[w]

    # ------------------------------------------------------------------ bit patterns
    def toint(self, n):
        """the bits of a floating-point term, or an integer term"""
        if T.is_c(n):
            v = T.sval(n)
            return IV(0, v, v, WIDTH[n])
        v = self.val(n)
        if isinstance(v, IV):
            return v
        w = WIDTH[n]
        if v.exact and v.p == 2 and np.all(v.c == v.c[0]) and v.c[0] > 0:
            k = int(round(math.log2(float(v.c[0]))))
            if self.lo * 2.0 ** k < 2.0 ** TINY[w]:
                raise Violation("takes the bit pattern of a subnormal number for an argument in [%g, %g]" % (self.lo, self.hi))
            off = k << (52 if w == 64 else 23)
            return IV(1, off, off, w)
        raise Cannot("the bits of %s" % T.show(n, 3))

    def integer(self, n, nd, w):
        self.nops += 1
        op = nd[0]
        a, b = self.toint(nd[1]), self.toint(nd[2])
        if op in ("ashr", "lshr", "udiv") and b.a == 0 and b.lo == b.hi:
            d = 1 << b.lo if op != "udiv" else b.lo
            return IV(a.a / d, Fraction(a.lo, d) - Fraction(d - 1, d), Fraction(a.hi, d), w)
        if op == "shl" and b.a == 0 and b.lo == b.hi:
            return IV(a.a * (1 << b.lo), a.lo << b.lo, a.hi << b.lo, w)
        if op == "add":
            return IV(a.a + b.a, a.lo + b.lo, a.hi + b.hi, w)
        if op == "sub":
            return IV(a.a - b.a, a.lo - b.hi, a.hi - b.lo, w)
        if op == "mul":
            if a.a == 0 and a.lo == a.hi:
                a, b = b, a
            if b.a == 0 and b.lo == b.hi:
                k = b.lo
                x, y = a.lo * k, a.hi * k
                return IV(a.a * k, min(x, y), max(x, y), w)
        raise Cannot("integer operation %s" % T.show(n, 3))

    def tofloat(self, v, n):
        """the number whose bits are a * bits(x) + [lo, hi]"""
        mant = 52 if v.w == 64 else 23
        if (2 * v.a).denominator != 1:
            raise Violation("the bit pattern %s does not scale with the exponent" % T.show(n, 3))
        ty = np.float64 if v.w == 64 else np.float32
        it = np.int64 if v.w == 64 else np.int32
        bits = lambda m: [int(x) for x in m.astype(ty).view(it)]
        lo_b, hi_b = bits(self.mlo), [b + 1 for b in bits(self.mhi)]
        L, H = [], []
        for x, y in zip(lo_b, hi_b):
            e = sorted((v.a * x, v.a * y))
            L.append(math.floor(e[0] + v.lo))
            H.append(math.ceil(e[1] + v.hi))
        lim = 0x7ff0000000000000 if v.w == 64 else 0x7f800000
        if min(L) <= 0 or max(H) >= lim:
            raise Violation("the bit pattern %s leaves the positive numbers" % T.show(n, 3))
        lo = np.array(L, dtype=it).view(ty).astype(LD)
        hi = np.array(H, dtype=it).view(ty).astype(LD)
        p = 2 * v.a
        # c = y / s^p with s = sqrt(significand)
        f = lambda m: np.power(np.sqrt(m), LD(float(-p)))
        s1, s2 = f(self.mlo), f(self.mhi)
        slo, shi = np.minimum(s1, s2) * (1 - LD(2.0 ** -60)), np.maximum(s1, s2) * (1 + LD(2.0 ** -60))
        clo, chi = lo * slo, hi * shi
        r = AF(p, (clo + chi) / 2)
        self.noise(r, (chi - clo) / 2 * (1 + LD(2.0 ** -50)))
        top, smin = self.l2range(r)
        if top >= BIG[v.w] or smin + math.log2(float(np.min(clo))) < TINY[v.w]:
            raise Violation("the bit pattern %s is not a normal number for an argument in [%g, %g]" % (T.show(n, 3), self.lo, self.hi))
        return r


def thresholds(term, arg):
    """argument values at which the kernel's conditions change"""
    out, seen, todo = set(), set(), [term]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        nd = NODES[n]
        if nd[0] in ("flt", "eq") and (T.is_c(nd[1]) or T.is_c(nd[2])):
            for x in nd[1:3]:
                if T.is_c(x) and WIDTH[x] in (32, 64):
                    v = abs(fval(x))
                    if v == v and 0 < v < math.inf:
                        out.add(v)
        if nd[0] in ("thr",) and WIDTH[nd[1]] in (32, 64) and nd[2] > 0:
            v = fval(T.C(WIDTH[nd[1]], nd[2]))
            if v == v and 0 < v < math.inf:
                out.add(v)
        todo.extend(T.children(n))
    return out


def nxt(v, w, up):
    f = np.float64 if w == 64 else np.float32
    return float(np.nextafter(f(v), f(math.inf if up else 0)))


def zones(cuts, lo, hi, w):
    """closed intervals of representable numbers that cover [lo, hi], cut at every threshold"""
    pts = sorted(c for c in set(cuts) if lo <= c <= hi and float(np.float32(c) if w == 32 else c) == c)
    out, a = [], lo
    for c in pts:
        if a < c:
            out.append((a, nxt(c, w, False)))
        out.append((c, c))
        a = nxt(c, w, True)
    if a <= hi:
        out.append((a, hi))
    return out


def analyse(term, arg, lo, hi, power, bins, limit, jobs=None):
    """worst relative error of term against x^(power/2) for x in [lo, hi]: [(zone, bound, worst bin)]; a zone whose bound
    exceeds the limit, or whose analysis fails, is cut in two by exponent until it spans less than two octaves of s"""
    w = WIDTH[arg]
    todo = zones(thresholds(term, arg), lo, hi, w)
    res, nops = [], 0
    while todo:
        z = todo.pop()
        try:
            an = Analysis(arg, z[0], z[1], bins)
            v = an.flt(term)
            if v.p != power:
                raise Violation("the result scales as x^(%s) instead of x^(%s)" % (v.p / 2, Fraction(power, 2)))
            err = np.abs(v.c - 1) + v.rad()
            i = int(np.argmax(err))
            b = float(err[i]) * 1.0001
            nops += an.nops
            if not b <= limit:
                raise Violation("the relative error is only bounded by 2^%.2f, not 2^%.2f, for an argument in [%g, %g] (worst near significand %.4f)"
                                % (math.log2(b), math.log2(limit), z[0], z[1], float(an.mlo[i])))
            res.append((z, b, (float(an.mlo[i]), float(an.mhi[i]))))
        except (Violation, Cannot):
            l0, l1 = math.log2(z[0]), math.log2(z[1])
            if l1 - l0 < 4:
                raise
            m = 2.0 ** round((l0 + l1) / 2)
            todo += [(m, z[1]), (z[0], nxt(m, w, False))]
    return sorted(res), nops
