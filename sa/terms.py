"""Hash-consed value terms: the abstract domain for value numbering.

A term describes which inputs, combined by which operations, a value is made of.  Smart
constructors keep terms in a normal form that does not depend on how the source was
written (operand order, order of tests, helper functions, temporaries, memory copies):
  * boolean conditions are ordered decision diagrams over comparison atoms,
  * values chosen by conditions are multi-terminal decision diagrams,
  * integer arithmetic is compared as polynomials mod 2^w, floating point either up to
    IEEE-exact rewrites ('bits') or as rational functions over the reals ('poly'),
  * bytes in memory carry their provenance, so copies of any width cancel out.
"""
from fractions import Fraction
import math
import struct

PALIGN = 1          # known alignment of the pointers compared
ROUND = False       # rounding functions in one normal form (see rnd_trunc)
NODES = []          # id -> tuple
INDEX = {}          # tuple -> id
WIDTH = []          # id -> bits (0 = n/a)


def mk(node, w):
    k = INDEX.get(node)
    if k is None:
        k = len(NODES)
        INDEX[node] = k
        NODES.append(node)
        WIDTH.append(w)
    return k


def reset():
    NODES.clear(); INDEX.clear(); WIDTH.clear(); NONNULL.clear()
    _init()


def C(w, v):
    return mk(("c", w, v & ((1 << w) - 1)), w)


def undef(w):
    return mk(("undef", w), w)


def is_c(n):
    return NODES[n][0] == "c"


def cval(n):
    return NODES[n][2]


def sval(n):
    v, w = NODES[n][2], NODES[n][1]
    return v - (1 << w) if v >> (w - 1) else v


def _init():
    global TRUE, FALSE
    FALSE = C(1, 0)
    TRUE = C(1, 1)
    _memo_ite.clear()
    _memo_restrict.clear()


_memo_ite = {}
_memo_restrict = {}
NONNULL = set()         # argument bases that cannot be null (C++ references)
BOOLBASES = set()       # bases whose bytes are C++ bools


# ------------------------------------------------------------------ fp constants
def fbits(w, x):
    if w == 32:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def fval(n):
    w, v = NODES[n][1], NODES[n][2]
    if w == 32:
        return struct.unpack("<f", struct.pack("<I", v))[0]
    if w == 64:
        return struct.unpack("<d", struct.pack("<Q", v))[0]
    raise ValueError


def FC(w, x):
    return C(w, fbits(w, x))


# ------------------------------------------------------------------ bytes
def ld(base, off, n):
    if base in BOOLBASES:
        if n == 1:
            b = mk(("bool", mk(("ld", base, off, 1), 8)), 1)
            return zext(b, 8)
        return cat([ld(base, off + i, 1) for i in range(n)])
    return mk(("ld", base, off, n), 8 * n)


def ldx(base, off, sym, n):
    """load from base + off + sum(scale*term)"""
    x = mk(("ldx", base, off, sym, n), 8 * n)
    return zext(mk(("bool", x), 1), 8) if base in BOOLBASES and n == 1 else x


def ext(x, off, n):
    w = WIDTH[x]
    if off == 0 and 8 * n == w:
        return x
    nd = NODES[x]
    op = nd[0]
    if op == "c":
        return C(8 * n, nd[2] >> (8 * off))
    if op == "undef":
        return undef(8 * n)
    if op == "ld":
        return ld(nd[1], nd[2] + off, n)
    if op == "ext":
        return ext(nd[1], nd[2] + off, n)
    if op == "zext":
        iw = WIDTH[nd[1]]
        if iw % 8 == 0:
            if 8 * (off + n) <= iw:
                return ext(nd[1], off, n)
            if 8 * off >= iw:
                return C(8 * n, 0)
            k = iw // 8 - off
            return zext(ext(nd[1], off, k), 8 * n)
        if iw < 8:
            if off > 0:
                return C(8 * n, 0)
            return zext(nd[1], 8 * n)
    if op == "sext" and WIDTH[nd[1]] % 8 == 0 and 8 * (off + n) <= WIDTH[nd[1]]:
        return ext(nd[1], off, n)
    if op == "cat":
        parts, p = [], 0
        need0, need1 = off, off + n
        for y in nd[1:]:
            k = WIDTH[y] // 8
            a, b = max(p, need0), min(p + k, need1)
            if a < b:
                parts.append(ext(y, a - p, b - a))
            p += k
        return cat(parts)
    if op == "vec":
        if all(WIDTH[y] % 8 == 0 for y in nd[1:]):
            return ext(cat(list(nd[1:])), off, n)
    if op == "ite":
        a, b = ext(nd[2], off, n), ext(nd[3], off, n)
        return ite(nd[1], a, b)
    if op == "mul" and _bytes_known(x):
        k = (cval(nd[2]).bit_length() - 1) // 8
        return ext(cat([C(8 * k, 0), ext(nd[1], 0, w // 8 - k)]), off, n)
    if op in ("mul", "add"):
        # a value shifted by whole bytes, with another below it
        for m, r in ((x, None),) if op == "mul" else ((nd[1], nd[2]), (nd[2], nd[1])):
            k = _shifted(m)
            if k and (r is None or NODES[r][0] == "zext" and WIDTH[NODES[r][1]] <= 8 * k or is_c(r) and cval(r) >> 8 * k == 0):
                if off >= k:
                    return ext(NODES[m][1], off - k, n)
                if off + n <= k:
                    return C(8 * n, 0) if r is None else ext(r, off, n)
    if off == 0 and op in ("add", "mul"):
        return binop(op, ext(nd[1], 0, n), ext(nd[2], 0, n))
    if op in ("and", "or", "xor") and is_c(nd[2]):
        ones = (1 << 8 * n) - 1
        k = (cval(nd[2]) >> 8 * off) & ones
        if k == 0:
            return C(8 * n, 0) if op == "and" else ext(nd[1], off, n)
        if k == ones and op != "xor":
            return ext(nd[1], off, n) if op == "and" else C(8 * n, ones)
    return mk(("ext", x, off, n), 8 * n)


def _byteref(x):
    """(source, offset, nbytes) for merging"""
    nd = NODES[x]
    if nd[0] == "ld":
        return ("ld", nd[1]), nd[2], nd[3]
    if nd[0] == "ext":
        return ("ext", nd[1]), nd[2], nd[3]
    return None


def cat(parts):
    flat = []
    for p in parts:
        if NODES[p][0] == "cat":
            flat.extend(NODES[p][1:])
        elif NODES[p][0] == "vec" and all(WIDTH[y] % 8 == 0 for y in NODES[p][1:]):
            flat.extend(NODES[p][1:])
        else:
            flat.append(p)
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if is_c(p) and is_c(q):
                out[-1] = C(WIDTH[q] + WIDTH[p], cval(q) | cval(p) << WIDTH[q])
                continue
            if NODES[p][0] == "undef" and NODES[q][0] == "undef":
                out[-1] = undef(WIDTH[q] + WIDTH[p])
                continue
            a, b = _byteref(q), _byteref(p)
            if a and b and a[0] == b[0] and a[1] + a[2] == b[1]:
                if a[0][0] == "ld":
                    if a[0][1] not in BOOLBASES:
                        out[-1] = ld(a[0][1], a[1], a[2] + b[2])
                        continue
                else:
                    out[-1] = ext(a[0][1], a[1], a[2] + b[2])
                    continue
            # low bytes of a sum are kept as a sum of low bytes: put the whole back together
            if b and b[0][0] != "ld" and 8 * b[1] == WIDTH[q] and ext(b[0][1], 0, b[1]) == q:
                out[-1] = ext(b[0][1], 0, b[1] + b[2])
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    # trailing zero constant => zext
    if len(out) == 2 and is_c(out[1]) and cval(out[1]) == 0 and WIDTH[out[0]] % 8 == 0:
        return zext(out[0], WIDTH[out[0]] + WIDTH[out[1]])
    return mk(("cat",) + tuple(out), sum(WIDTH[p] for p in out))


def zext(x, w):
    if WIDTH[x] == w:
        return x
    nd = NODES[x]
    if nd[0] == "c":
        return C(w, nd[2])
    if nd[0] == "zext":
        return zext(nd[1], w)
    if nd[0] == "ite" and WIDTH[x] > 1:
        return ite(nd[1], zext(nd[2], w), zext(nd[3], w))
    return mk(("zext", x, w), w)


def sext(x, w):
    if WIDTH[x] == w:
        return x
    nd = NODES[x]
    if nd[0] == "c":
        return C(w, sval(x))
    if nd[0] == "sext":
        return sext(nd[1], w)
    if nd[0] == "zext":
        return zext(nd[1], w)
    if WIDTH[x] == 1:
        return ite(x, C(w, -1), C(w, 0))
    if nd[0] == "ite":
        return ite(nd[1], sext(nd[2], w), sext(nd[3], w))
    return mk(("sext", x, w), w)


def trunc(x, w):
    if WIDTH[x] == w:
        return x
    nd = NODES[x]
    if nd[0] == "c":
        return C(w, nd[2])
    if nd[0] in ("zext", "sext"):
        if WIDTH[nd[1]] == w:
            return nd[1]
        if WIDTH[nd[1]] > w:
            return trunc(nd[1], w)
        return zext(nd[1], w) if nd[0] == "zext" else sext(nd[1], w)
    if nd[0] == "ite":
        return ite(nd[1], trunc(nd[2], w), trunc(nd[3], w))
    if w == 1 and nd[0] in ("and", "or", "xor"):
        return binop(nd[0], trunc(nd[1], 1), trunc(nd[2], 1))
    if w == 1 and nd[0] == "ext" and nd[2] == 0:
        return trunc(nd[1], 1)
    if w % 8 == 0 and WIDTH[x] % 8 == 0:
        return ext(x, 0, w // 8)
    return mk(("trunc", x, w), w)


# ------------------------------------------------------------------ decision diagrams
ATOMKIND = {"nan": 0, "eq": 1}


def akey(a):
    nd = NODES[a]
    return (ATOMKIND.get(nd[0], 2), a)


def top(n):
    nd = NODES[n]
    if nd[0] == "ite":
        return nd[1]
    return None


def cof(n, a, v):
    """cofactor of n at atom a, if a is the top atom"""
    nd = NODES[n]
    if nd[0] == "ite" and nd[1] == a:
        return nd[2] if v else nd[3]
    if n == a:
        return TRUE if v else FALSE
    return n


def _node(a, t, e):
    if t == e:
        return t
    if WIDTH[t] == 1 and t == TRUE and e == FALSE:
        return a
    return mk(("ite", a, t, e), WIDTH[t])


def ite(c, t, e):
    """decision diagram 'if c then t else e'; c is a boolean term"""
    if c == TRUE:
        return t
    if c == FALSE:
        return e
    if t == e:
        return t
    if WIDTH[c] == 1 and t == TRUE and e == FALSE and WIDTH[t] == 1:
        return c
    key = (c, t, e)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    nt, ne = NODES[t][0], NODES[e][0]
    if nt == "undef" and False:
        return e
    if nt in ("vec", "agg") and ne == nt and len(NODES[t]) == len(NODES[e]):
        r = mk((nt,) + tuple(ite(c, a, b) for a, b in zip(NODES[t][1:], NODES[e][1:])), WIDTH[t])
        _memo_ite[key] = r
        return r
    cands = []
    for x in (c, t, e):
        a = top(x)
        if a is not None:
            cands.append(a)
        elif WIDTH[x] == 1 and not is_c(x) and NODES[x][0] != "undef":
            cands.append(x)     # bare atom
    a = min(cands, key=akey)
    r = _node(a, ite(cof(c, a, 1), cof(t, a, 1), cof(e, a, 1)), ite(cof(c, a, 0), cof(t, a, 0), cof(e, a, 0)))
    _memo_ite[key] = r
    return r


def b_not(a):
    return ite(a, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def b_xor(a, b):
    return ite(a, b_not(b), b)


# ------------------------------------------------------------------ comparisons
def isnan(x):
    nd = NODES[x]
    op = nd[0]
    if op == "c":
        v = fval(x)
        return TRUE if v != v else FALSE
    if op in ("fneg", "fabs"):
        return isnan(nd[1])
    if op in ("sitofp", "uitofp"):
        return FALSE
    if op in ("fpext", "fptrunc"):
        return isnan(nd[1])
    if op == "call" and nd[1] == "ipart":
        return FALSE
    if ROUND and op in ("fmul", "fadd") and _fbound(x) < 1e30:
        return FALSE
    if ROUND and op == "fadd":
        # sums of constants, x and the integral part of x are not NaN unless x is
        vs = set()
        for z in nd[1:]:
            z = NODES[z][1] if NODES[z][0] == "fneg" else z
            if NODES[z][0] == "call" and NODES[z][1] == "ipart":
                vs.add(NODES[z][2])
            elif is_c(z) and math.isfinite(fval(z)):
                vs.add(None)
            elif NODES[z][0] in ("argv", "ld"):
                vs.add(z)
            elif NODES[z][0] == "fadd":
                vs |= {None, z}
            else:
                vs = {0, 1, 2, 3}
                break
        vs.discard(None)
        if len(vs) <= 1 and not (nd[1] in vs and nd[2] in vs):
            return isnan(vs.pop()) if vs else FALSE
    if op == "call" and nd[1] in ("floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint"):
        return isnan(nd[2])
    if op == "call" and nd[1] == "sqrt" and WIDTH[x] in (32, 64):
        return b_or(isnan(nd[2]), flt(nd[2], C(WIDTH[x], 0)))
    if op == "ite":
        return ite(nd[1], isnan(nd[2]), isnan(nd[3]))
    return mk(("nan", x), 1)


def _fbound(x):
    """a bound on the magnitude of a value built from integral parts"""
    nd = NODES[x]
    op = nd[0]
    if op == "c":
        return abs(fval(x))
    if op == "call" and nd[1] == "ipart":
        return min(_fbound(nd[2]), 2.0 ** (23 if WIDTH[x] == 32 else 52))
    if op in ("fneg", "fabs"):
        return _fbound(nd[1])
    if op == "fadd":
        return _fbound(nd[1]) + _fbound(nd[2])
    if op == "fmul":
        a, b = _fbound(nd[1]), _fbound(nd[2])
        return math.inf if math.inf in (a, b) else a * b
    return math.inf


def fnext(x):
    """the next larger floating-point constant"""
    w, v = WIDTH[x], fval(x)
    if v == 0:
        return C(w, 1)
    return C(w, cval(x) + 1) if v > 0 else C(w, cval(x) - 1)


def flt(x, y):
    """x < y, given neither is NaN"""
    if x == y:
        return FALSE
    if is_c(x) and is_c(y):
        return TRUE if fval(x) < fval(y) else FALSE
    for z, other, left in ((x, y, True), (y, x, False)):
        if NODES[z][0] == "ite":
            nd = NODES[z]
            if left:
                return ite(nd[1], flt(nd[2], y), flt(nd[3], y))
            return ite(nd[1], flt(x, nd[2]), flt(x, nd[3]))
    # -0.0 behaves as 0.0 in comparisons
    if is_c(x) and fval(x) == 0:
        x = C(WIDTH[x], 0)
    if is_c(y) and fval(y) == 0:
        y = C(WIDTH[y], 0)
    nx, ny = NODES[x], NODES[y]
    if nx[0] == "fneg" and (ny[0] == "fneg" or is_c(y)):
        return flt(ny[1] if ny[0] == "fneg" else fneg(y), nx[1])
    if ny[0] == "fneg" and is_c(x):
        return flt(ny[1], fneg(x))
    if is_c(y) and fval(y) <= 0 and nx[0] in ("fabs",):
        return FALSE
    # the square root is never below zero, and zero only at zero
    if nx[0] == "call" and nx[1] == "sqrt" and is_c(y) and fval(y) <= 0:
        return FALSE
    if ny[0] == "call" and ny[1] == "sqrt" and is_c(x) and fval(x) == 0:
        return flt(x, ny[2])
    # |x| > c  (c>=0)  ->  x<-c or x>c ;   |x| < c -> -c<x<c
    if nx[0] == "fabs" and is_c(y):
        return b_and(flt(nx[1], y), flt(fneg(y), nx[1]))
    if ny[0] == "fabs" and is_c(x):
        if fval(x) < 0:
            return TRUE
        return b_or(flt(x, ny[1]), flt(ny[1], fneg(x)))
    # comparisons with infinities: x < inf  <=> x != inf ; inf < x never
    if is_c(x) and fval(x) == math.inf:
        return FALSE
    if is_c(y) and fval(y) == -math.inf:
        return FALSE
    if ROUND and is_c(y) and not is_c(x):
        m = _fbound(x)
        if m < fval(y):
            return TRUE
        if -m >= fval(y) or fval(y) == -math.inf:
            return FALSE
    if ROUND and is_c(x) and not is_c(y):
        # c < y  <=>  not (y < next(c))
        return b_not(flt(y, fnext(x)))
    return mk(("flt", x, y), 1)


def fcmp(pred, x, y):
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    n = b_or(isnan(x), isnan(y))
    lt = flt(x, y)
    if pred in ("ord", "uno"):
        return n if pred == "uno" else b_not(n)
    gt = flt(y, x)
    base = {"lt": lt, "gt": gt, "eq": ite(lt, FALSE, b_not(gt)), "ne": b_or(lt, gt),
            "le": ite(lt, TRUE, b_not(gt)), "ge": ite(gt, TRUE, b_not(lt))}[pred[1:]]
    return ite(n, TRUE if pred[0] == "u" else FALSE, base)


def icmp(pred, x, y):
    w = WIDTH[x]
    if NODES[x][0] == "undef" or NODES[y][0] == "undef":
        return undef(1)
    if w == 1:
        e = b_not(b_xor(x, y))
        if pred == "eq":
            return e
        if pred == "ne":
            return b_not(e)
        if pred in ("ult", "sgt"):
            return b_and(b_not(x), y)
        if pred in ("ugt", "slt"):
            return b_and(x, b_not(y))
        if pred in ("ule", "sge"):
            return b_or(b_not(x), y)
        return b_or(x, b_not(y))
    if pred == "ne":
        return b_not(icmp("eq", x, y))
    if pred in ("sgt", "ugt"):
        return icmp(pred[0] + "lt", y, x)
    if pred in ("sge", "uge"):
        return b_not(icmp(pred[0] + "lt", x, y))
    if pred in ("sle", "ule"):
        return b_not(icmp(pred[0] + "lt", y, x))
    for z, left in ((x, True), (y, False)):
        if NODES[z][0] == "ite":
            nd = NODES[z]
            if left:
                return ite(nd[1], icmp(pred, nd[2], y), icmp(pred, nd[3], y))
            return ite(nd[1], icmp(pred, x, nd[2]), icmp(pred, x, nd[3]))
    if x == y:
        return TRUE if pred == "eq" else FALSE
    if is_c(x) and is_c(y):
        if pred == "eq":
            r = cval(x) == cval(y)
        elif pred == "slt":
            r = sval(x) < sval(y)
        else:
            r = cval(x) < cval(y)
        return TRUE if r else FALSE
    # pointers with a common base
    px, py = addr_of(x), addr_of(y)
    if NODES[x][0] in ("ptr", "base") or NODES[y][0] in ("ptr", "base"):
        if px[0] == py[0] and px[2] == py[2]:
            d = px[1] - py[1]
            if pred == "eq":
                return TRUE if d == 0 else FALSE
            return TRUE if d < 0 else FALSE
        bx, by = NODES[px[0]], NODES[py[0]]
        if pred == "eq":
            def known(b):
                return b[0] == "base" and b[1] in ("alloca", "glob", "arg")
            if (px[0] in NONNULL and is_c(y) and cval(y) == 0) or (py[0] in NONNULL and is_c(x) and cval(x) == 0):
                return FALSE
            if (known(bx) and is_c(y)) or (known(by) and is_c(x)):
                if (bx[0] == "base" and bx[1] in ("alloca", "glob")) or (by[0] == "base" and by[1] in ("alloca", "glob")):
                    return FALSE
            if bx[0] == "base" and by[0] == "base" and "alloca" in (bx[1], by[1]) and px[0] != py[0]:
                return FALSE
        elif pred == "ult" and px[0] != py[0] and bx[0] == "base" and by[0] == "base" and bx[1] == "alloca" and by[1] == "alloca":
            # two distinct live objects: one lies entirely before the other
            lo, hi = sorted((px[0], py[0]))
            return mk(("ult", lo, hi), 1) if px[0] == lo else b_not(mk(("ult", lo, hi), 1))
    # zext'ed bool compared to a constant
    for p, q in ((x, y), (y, x)):
        if NODES[p][0] == "zext" and is_c(q):
            iw = WIDTH[NODES[p][1]]
            if pred == "eq":
                if cval(q) >> iw:
                    return FALSE
                return icmp("eq", NODES[p][1], C(iw, cval(q)))
            if pred == "ult" or (pred == "slt" and sval(q) >= 0):
                if p == x:
                    if cval(q) >> iw:
                        return TRUE
                    return icmp("ult", NODES[p][1], C(iw, cval(q)))
                if cval(q) >> iw:
                    return FALSE
                return icmp("ult", C(iw, cval(q)), NODES[p][1])
            if pred == "slt":
                return TRUE if p == y else FALSE
        if NODES[p][0] == "sext" and is_c(q):
            iw = WIDTH[NODES[p][1]]
            lo, hi = -(1 << (iw - 1)), (1 << (iw - 1)) - 1
            if pred in ("eq", "slt") and lo <= sval(q) <= hi:
                z = C(iw, sval(q))
                return icmp(pred, NODES[p][1] if p == x else z, z if p == x else NODES[p][1])
            if pred == "ult" and p == x and 0 <= sval(q) <= hi:
                return icmp("ult", NODES[p][1], C(iw, sval(q)))
    if NODES[x][0] == "zext" and NODES[y][0] == "zext" and WIDTH[NODES[x][1]] == WIDTH[NODES[y][1]]:
        return icmp("ult" if pred == "slt" else pred, NODES[x][1], NODES[y][1])
    # constants: everything in terms of signed thresholds  x < c
    if is_c(y) and not is_c(x) and NODES[x][0] not in ("ptr", "base"):
        c = sval(y)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        nx = NODES[x]
        # range tests of several values folded into one by the optimiser
        if nx[0] == "or" and len(nx) == 3:
            if pred == "eq" and c == 0 or pred == "ult" and cval(y) and cval(y) & (cval(y) - 1) == 0:
                return b_and(icmp(pred, nx[1], y), icmp(pred, nx[2], y))
            if pred == "slt" and c == 0:
                return b_or(icmp(pred, nx[1], y), icmp(pred, nx[2], y))
        if nx[0] == "and" and len(nx) == 3 and not is_c(nx[2]) and not is_c(nx[1]) and pred == "slt" and c == 0:
            return b_and(icmp(pred, nx[1], y), icmp(pred, nx[2], y))
        # a test of the upper half of a value pieced together from two halves
        if pred == "ult" and w == 64 and cval(y) == 1 << 32 and nx[0] in ("ld", "cat"):
            return icmp("eq", ext(x, 4, 4), C(32, 0))
        if NODES[x][0] == "add" and is_c(NODES[x][2]) and pred == "eq":
            return icmp("eq", NODES[x][1], C(w, c - sval(NODES[x][2])))
        if pred == "eq":
            return b_and(b_not(thr(x, c, w)), thr(x, c + 1, w))
        if pred == "slt":
            return thr(x, c, w)
        if c >= 0:
            return b_and(b_not(thr(x, 0, w)), thr(x, c, w))
        return b_or(b_not(thr(x, 0, w)), thr(x, c, w))
    if is_c(x) and not is_c(y) and NODES[y][0] not in ("ptr", "base"):
        c = sval(x)
        if pred == "eq":
            return icmp("eq", y, x)
        if pred == "slt":
            return b_not(thr(y, c + 1, w))
        # x <u y  <=> not (y <u x or y == x) = not (y <u x+1) unless x = max
        if cval(x) == (1 << w) - 1:
            return FALSE
        return b_not(icmp("ult", y, C(w, cval(x) + 1)))
    if pred == "eq":
        if x > y:
            x, y = y, x
        return mk(("eq", x, y), 1)
    e = mk(("eq", min(x, y), max(x, y)), 1)
    if x < y:
        return ite(e, FALSE, mk((pred, x, y), 1))
    return ite(e, FALSE, b_not(mk((pred, y, x), 1)))


def pdiff(x, y):
    """x - y for two pointers into unknown storage (no wrap-around: both point into objects)"""
    px, py = addr_of(x), addr_of(y)
    k = px[1] - py[1]
    if px[0] == py[0]:
        return C(64, k)
    if px[0] < py[0]:
        d = mk(("pdiff", px[0], py[0]), 64)
    else:
        d = binop("mul", mk(("pdiff", py[0], px[0]), 64), C(64, -1))
    return binop("add", d, C(64, k))


def is_wild(x):
    """a pointer value read from memory (possibly with a constant offset)"""
    b, o, s = addr_of(x)
    return not s and NODES[b][0] in ("ld", "ldx")


def pcmp(pred, x, y):
    """comparison of two pointers"""
    for z, left in ((x, True), (y, False)):
        if NODES[z][0] == "ite":
            nd = NODES[z]
            if left:
                return ite(nd[1], pcmp(pred, nd[2], y), pcmp(pred, nd[3], y))
            return ite(nd[1], pcmp(pred, x, nd[2]), pcmp(pred, x, nd[3]))
    if not is_wild(x) or not is_wild(y):
        return icmp(pred, x, y)
    if pred == "ne":
        return b_not(pcmp("eq", x, y))
    if pred in ("ugt", "sgt"):
        return pcmp("ult", y, x)
    if pred in ("uge", "sge"):
        return b_not(pcmp("ult", x, y))
    if pred in ("ule", "sle"):
        return b_not(pcmp("ult", y, x))
    px, py = addr_of(x), addr_of(y)
    k = px[1] - py[1]                     # x - y = p - q + k
    if px[0] == py[0]:
        return TRUE if (k == 0 if pred == "eq" else k < 0) else FALSE
    if px[0] < py[0]:
        d, a, e = mk(("pdiff", px[0], py[0]), 64), -k, -k
    else:
        d, a, e = mk(("pdiff", py[0], px[0]), 64), None, k
    if pred == "eq":
        if e % PALIGN:
            return FALSE
        return b_and(b_not(thr(d, e, 64)), thr(d, e + 1, 64))
    return thr(d, a, 64) if a is not None else b_not(thr(d, k + 1, 64))


def thr(x, c, w):
    """x <s c for a constant c"""
    if PALIGN > 1 and NODES[x][0] == "pdiff":
        c = -(-c // PALIGN) * PALIGN
    if c <= -(1 << (w - 1)):
        return FALSE
    if c > (1 << (w - 1)) - 1:
        return TRUE
    return mk(("thr", x, c), 1)


# ------------------------------------------------------------------ arithmetic
COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}


def fneg(x):
    nd = NODES[x]
    if nd[0] == "c":
        return C(nd[1], nd[2] ^ (1 << (nd[1] - 1)))
    if nd[0] == "fneg":
        return nd[1]
    if nd[0] == "ite":
        return ite(nd[1], fneg(nd[2]), fneg(nd[3]))
    return mk(("fneg", x), WIDTH[x])


def fabs_(x):
    nd = NODES[x]
    if nd[0] == "c":
        return C(nd[1], nd[2] & ~(1 << (nd[1] - 1)))
    if nd[0] in ("fneg", "fabs"):
        return fabs_(nd[1])
    if nd[0] == "ite":
        return ite(nd[1], fabs_(nd[2]), fabs_(nd[3]))
    return mk(("fabs", x), WIDTH[x])


def _strip(x):
    nd = NODES[x]
    if nd[0] == "fneg":
        return nd[1], 1
    if nd[0] == "c" and nd[2] >> (nd[1] - 1):
        return fneg(x), 1
    return x, 0


def _f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def fbin(op, x, y):
    w = WIDTH[x]
    if NODES[x][0] == "undef" or NODES[y][0] == "undef":
        return undef(w)
    if op == "fsub":
        return fbin("fadd", x, fneg(y))
    if is_c(x) and is_c(y) and w in (32, 64):
        a, b = fval(x), fval(y)
        try:
            if op == "fadd":
                r = a + b
            elif op == "fmul":
                r = a * b
            elif op == "fdiv" and b != 0:
                r = a / b
            else:
                r = None
            if r is not None and r == r:
                return FC(w, _f32(r) if w == 32 else r)
        except (OverflowError, ZeroDivisionError):
            pass
    if op == "fadd":
        # x + -0 = x
        for a, b in ((x, y), (y, x)):
            if is_c(a) and cval(a) == 1 << (w - 1):
                return b
        # (-x)+(-y) = -(x+y)
        x1, sx = _strip(x)
        y1, sy = _strip(y)
        if ROUND and x1 == y1 and sx != sy and w in (32, 64):
            inf = FC(w, math.inf)
            return ite(isnan(x1), x1, ite(ite(flt(x1, inf), flt(fneg(inf), x1), FALSE), FC(w, 0.0), FC(w, math.nan)))
        if sx and sy and not (is_c(x) or is_c(y)):
            return fneg(fbin("fadd", x1, y1))
        if x > y:
            x, y = y, x
        return mk(("fadd", x, y), w)
    if op in ("fmul", "fdiv"):
        x1, sx = _strip(x)
        y1, sy = _strip(y)
        if op == "fmul":
            for a, b in ((x1, y1), (y1, x1)):
                if is_c(a) and fval(a) == 1.0:
                    return fneg(b) if sx ^ sy else b
            if x1 > y1:
                x1, y1 = y1, x1
            # x*2 == x+x
            for a, b in ((x1, y1), (y1, x1)):
                if is_c(a) and fval(a) == 2.0:
                    r = fbin("fadd", b, b)
                    return fneg(r) if sx ^ sy else r
        else:
            if is_c(y1) and fval(y1) == 1.0:
                return fneg(x1) if sx ^ sy else x1
            # division by a power of two is a multiplication
            if is_c(y1) and fval(y1) not in (0.0, math.inf) and fval(y1) == fval(y1):
                m, e = math.frexp(fval(y1))
                if m == 0.5 and abs(e) < 100:
                    r = fbin("fmul", x1, FC(w, 1.0 / fval(y1)))
                    return fneg(r) if sx ^ sy else r
        r = mk((op, x1, y1), w)
        return fneg(r) if sx ^ sy else r
    if op == "frem":
        return call("fmod", w, (x, y))
    raise ValueError(op)


def binop(op, x, y):
    w = WIDTH[x]
    if NODES[x][0] == "undef" or NODES[y][0] == "undef":
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr"):
            return undef(w)
    if NODES[x][0] == "vec":
        ys = NODES[y][1:] if NODES[y][0] == "vec" else [ext(y, i * (WIDTH[y] // 8 // (len(NODES[x]) - 1)), WIDTH[y] // 8 // (len(NODES[x]) - 1)) for i in range(len(NODES[x]) - 1)]
        return vec([binop(op, a, b) for a, b in zip(NODES[x][1:], ys)])
    if op[0] == "f":
        return fbin(op, x, y)
    if w == 1:
        if op in ("and", "mul"):
            return b_and(x, y)
        if op == "or":
            return b_or(x, y)
        if op in ("xor", "add", "sub"):
            return b_xor(x, y)
    m = (1 << w) - 1
    cx, cy = is_c(x), is_c(y)
    if cx and cy:
        a, b = cval(x), cval(y)
        if op == "add":
            return C(w, a + b)
        if op == "sub":
            return C(w, a - b)
        if op == "mul":
            return C(w, a * b)
        if op == "and":
            return C(w, a & b)
        if op == "or":
            return C(w, a | b)
        if op == "xor":
            return C(w, a ^ b)
        if op == "shl" and b < w:
            return C(w, a << b)
        if op == "lshr" and b < w:
            return C(w, a >> b)
        if op == "ashr" and b < w:
            return C(w, sval(x) >> b)
        if op == "udiv" and b:
            return C(w, a // b)
        if op == "urem" and b:
            return C(w, a % b)
        if op in ("sdiv", "srem") and b:
            p, q = sval(x), sval(y)
            d = abs(p) // abs(q)
            d = -d if (p < 0) != (q < 0) else d
            return C(w, d if op == "sdiv" else p - d * q)
    if op == "sub":
        return binop("add", x, binop("mul", y, C(w, -1)))
    # push constants to the right, sort
    if op in COMM and (cx or (not cy and x > y)):
        x, y, cx, cy = y, x, cy, cx
    if op == "add":
        if cy and cval(y) == 0:
            return x
        if cy and cval(y) == 1 << (w - 1) and NODES[x][0] in ("fabs", "fneg"):
            return fneg(x)              # the carry out of the sign bit is lost
        if cy and NODES[x][0] == "add" and is_c(NODES[x][2]):
            return binop("add", NODES[x][1], C(w, cval(y) + cval(NODES[x][2])))
    elif op == "mul":
        if cy:
            if cval(y) == 0:
                return y
            if cval(y) == 1:
                return x
            if NODES[x][0] == "zext" and cval(y) & (cval(y) - 1):
                r = _repeat(NODES[x][1], cval(y), w)
                if r is not None:
                    return r
            if NODES[x][0] == "mul" and is_c(NODES[x][2]):
                return binop("mul", NODES[x][1], C(w, cval(y) * cval(NODES[x][2])))
            if NODES[x][0] == "add" and is_c(NODES[x][2]):
                return binop("add", binop("mul", NODES[x][1], y), C(w, cval(y) * cval(NODES[x][2])))
    elif op == "and":
        if x == y:
            return x
        if cy:
            if cval(y) == m:
                return x
            if cval(y) == 0:
                return y
            k = cval(y).bit_length()
            if k % 8 == 0 and w % 8 == 0 and cval(y) == (1 << k) - 1:
                return zext(ext(x, 0, k // 8), w)
            if cval(y) == m >> 1 and w in (32, 64) and NODES[x][0] not in ("and", "or", "xor", "add"):
                return fabs_(x)
            if cval(y) == 1 << (w - 1) and w in (32, 64):
                return ite(icmp("slt", x, C(w, 0)), y, C(w, 0))
    elif op == "or":
        if x == y:
            return x
        if cy and cval(y) == 1 << (w - 1) and NODES[x][0] == "fabs":
            return fneg(x)
        if cy and cval(y) == 0:
            return x
        if cy and cval(y) == m:
            return y
    elif op == "xor":
        if x == y:
            return C(w, 0)
        if cy:
            if cval(y) == 0:
                return x
            if cval(y) == m:
                return binop("add", binop("mul", x, C(w, -1)), C(w, -1))
            if cval(y) == 1 << (w - 1) and w in (32, 64):
                return fneg(x)
    elif op in ("shl", "lshr", "ashr"):
        if cy:
            k = cval(y)
            if k == 0:
                return x
            if k == w - 1 and op != "shl" and w > 1:
                return ite(icmp("slt", x, C(w, 0)), C(w, -1 if op == "ashr" else 1), C(w, 0))
            if op == "ashr" and k % 8 == 0 and w % 8 == 0 and k < w and _bytes_known(x):
                return sext(ext(x, k // 8, (w - k) // 8), w)
            if op == "shl" and k < w and not (k % 8 == 0 and w % 8 == 0 and _bytes_known(x)):
                return binop("mul", x, C(w, 1 << k))
    elif op in ("srem", "urem") and x == y:
        return C(w, 0)          # a zero divisor has no meaning
    elif op in ("sdiv", "udiv") and x == y:
        return C(w, 1)
    elif op == "udiv":
        if cy and cval(y) and cval(y) & (cval(y) - 1) == 0:
            return binop("lshr", x, C(w, cval(y).bit_length() - 1))
    elif op == "urem":
        if cy and cval(y) and cval(y) & (cval(y) - 1) == 0:
            return binop("and", x, C(w, cval(y) - 1))
    # logic on zero-extended booleans / decisions
    if op in ("and", "or", "xor"):
        nx, ny = NODES[x], NODES[y]
        if nx[0] == "zext" and (ny[0] == "zext" and WIDTH[nx[1]] == WIDTH[ny[1]]):
            return zext(binop(op, nx[1], ny[1]), w)
        if nx[0] == "zext" and cy:
            iw = WIDTH[nx[1]]
            if op == "and" or cval(y) >> iw == 0:
                return zext(binop(op, nx[1], C(iw, cval(y))), w)
    if w % 8 == 0 and op in ("shl", "lshr", "and", "or", "xor"):
        r = _bytewise(op, x, y, w)
        if r is not None:
            return r
    if (cy and NODES[x][0] == "ite") or (cx and NODES[y][0] == "ite"):
        if NODES[x][0] == "ite":
            nd = NODES[x]
            if _small(x):
                return ite(nd[1], binop(op, nd[2], y), binop(op, nd[3], y))
        else:
            nd = NODES[y]
            if _small(y):
                return ite(nd[1], binop(op, x, nd[2]), binop(op, x, nd[3]))
    return mk((op, x, y), w)


def _repeat(x, c, w):
    """multiplication that copies x to several byte positions"""
    n = (WIDTH[x] + 7) // 8
    if WIDTH[x] % 8:
        if n > 1:
            return None
        x = zext(x, 8)
    parts, p = [], 0
    for i in range(c.bit_length()):
        if c >> i & 1:
            if i % 8 or i // 8 < p:
                return None
            if i // 8 > p:
                parts.append(C(i - 8 * p, 0))
            parts.append(x)
            p = i // 8 + n
    if 8 * p > w:
        return None
    if 8 * p < w:
        parts.append(C(w - 8 * p, 0))
    return cat(parts)


def _shifted(x):
    """number of whole bytes by which x is a shifted value"""
    nd = NODES[x]
    if nd[0] != "mul" or not is_c(nd[2]):
        return 0
    c = cval(nd[2])
    k = c.bit_length() - 1
    return k // 8 if c & (c - 1) == 0 and k % 8 == 0 else 0


def _small(x, d=0):
    if NODES[x][0] != "ite":
        return is_c(x)
    return d < 6 and _small(NODES[x][2], d + 1) and _small(NODES[x][3], d + 1)


def _bytes_known(x, d=0):
    nd = NODES[x]
    if nd[0] == "ite":
        return d < 8 and _bytes_known(nd[2], d + 1) and _bytes_known(nd[3], d + 1)
    if nd[0] == "mul" and WIDTH[x] % 8 == 0 and is_c(nd[2]):
        # shifted by whole bytes
        c = cval(nd[2])
        return c & (c - 1) == 0 and (c.bit_length() - 1) % 8 == 0 and _bytes_known(nd[1], d + 1)
    return nd[0] in ("ld", "ext", "cat", "zext", "c", "vec")


def _bytewise(op, x, y, w):
    n = w // 8
    if op in ("shl", "lshr"):
        if not is_c(y) or cval(y) % 8 or not _bytes_known(x) or cval(y) >= w:
            return None
        k = cval(y) // 8
        if op == "shl":
            return cat([C(8 * k, 0), ext(x, 0, n - k)])
        return cat([ext(x, k, n - k), C(8 * k, 0)])
    if op == "and" and is_c(y) and _bytes_known(x):
        parts = []
        for i in range(n):
            b = (cval(y) >> (8 * i)) & 255
            if b == 0:
                parts.append(C(8, 0))
            elif b == 255:
                parts.append(ext(x, i, 1))
            else:
                return None
        return cat(parts)
    if op in ("or", "xor") and _bytes_known(x) and _bytes_known(y):
        parts = []
        Z = C(8, 0)
        for i in range(n):
            a, b = ext(x, i, 1), ext(y, i, 1)
            if a == Z:
                parts.append(b)
            elif b == Z:
                parts.append(a)
            else:
                return None
        return cat(parts)
    return None


def vec(els):
    return mk(("vec",) + tuple(els), sum(WIDTH[e] for e in els))


def agg(els):
    return mk(("agg",) + tuple(els), 0)


def rnd_trunc(x):
    """truncation towards zero: x itself where there is no fraction, else an opaque integral part.
    (the sign of a zero result is left open)"""
    w = WIDTH[x]
    if is_c(x):
        v = fval(x)
        return FC(w, float(math.trunc(v))) if math.isfinite(v) else x
    k = FC(w, 2.0 ** (23 if w == 32 else 52))
    z = FC(w, 0.0)
    part = mk(("call", "ipart", x), w)
    small = ite(flt(x, k), flt(fneg(k), x), FALSE)
    nonzero = ite(flt(x, z), TRUE, flt(z, x))
    return ite(isnan(x), x, ite(small, ite(nonzero, part, x), x))


def rnd_of_int(x, iw):
    """integer conversion and back: truncation where the integer type can hold it, else undefined"""
    w = WIDTH[x]
    lim = 2.0 ** (iw - 1)
    hi, lo = FC(w, lim), FC(w, math.nextafter(-lim - 1.0, -math.inf) if iw == 64 else -lim - 1.0)
    if w == 32:
        lo = C(w, fbits(w, -lim) + 1)         # the next float below -2^(iw-1)
    ok = ite(flt(x, hi), flt(lo, x), FALSE)
    ub = mk(("argv", "undefined conversion", w), w)
    return ite(isnan(x), ub, ite(ok, rnd_trunc(x), ub))


def call(name, w, args):
    if name == "ipart" and is_c(args[0]):
        return rnd_trunc(args[0])
    if name == "copysign" and w in (32, 64) and NODES[args[0]][0] != "vec":
        m = fabs_(args[0])
        return ite(icmp("slt", args[1], C(w, 0)), fneg(m), m)
    if ROUND and name in ("trunc", "floor", "ceil", "round") and w in (32, 64) and NODES[args[0]][0] != "vec":
        x = args[0]
        t = rnd_trunc(x)
        one, half = FC(w, 1.0), FC(w, 0.5)
        if name == "trunc":
            return t
        if name == "floor":
            return ite(flt(x, t), fbin("fadd", t, fneg(one)), t)
        if name == "ceil":
            return ite(flt(t, x), fbin("fadd", t, one), t)
        f = fbin("fadd", x, fneg(t))
        return ite(flt(f, half), ite(flt(fneg(half), f), t, fbin("fadd", t, fneg(one))), fbin("fadd", t, one))
    if name == "fabs":
        return fabs_(args[0])
    if name in ("fma",):
        a, b = args[0], args[1]
        if a > b:
            args = (b, a, args[2])
    return mk(("call", name) + tuple(args), w)


def unop(op, x, w):
    """conversions"""
    nd = NODES[x]
    if nd[0] == "undef":
        return undef(w)
    if nd[0] == "vec":
        return vec([unop(op, e, w // (len(nd) - 1)) for e in nd[1:]])
    if op == "sitofp" and nd[0] == "zext":
        return unop("uitofp", nd[1], w)
    if ROUND and op == "sitofp" and nd[0] == "fptosi" and WIDTH[nd[1]] == w:
        return rnd_of_int(nd[1], WIDTH[x])
    if op in ("sitofp", "uitofp"):
        if nd[0] == "c":
            return FC(w, float(sval(x) if op == "sitofp" else cval(x)))
        if nd[0] == "zext" and op == "uitofp":
            return unop(op, nd[1], w)
        if nd[0] == "sext" and op == "sitofp":
            return unop(op, nd[1], w)
        if WIDTH[x] == 1:
            return ite(x, FC(w, 1.0 if op == "uitofp" else -1.0), FC(w, 0.0))
    if op in ("fpext", "fptrunc") and nd[0] == "c":
        v = fval(x)
        if v == v:
            return FC(w, _f32(v) if w == 32 else v)
    if op in ("fpext", "fptrunc") and nd[0] in ("fneg", "fabs"):
        f = fneg if nd[0] == "fneg" else fabs_
        return f(unop(op, nd[1], w))
    if nd[0] == "ite" and _small(x):
        return ite(nd[1], unop(op, nd[2], w), unop(op, nd[3], w))
    return mk((op, x, w), w)


# ------------------------------------------------------------------ pointers
def base(kind, name):
    return mk(("base", kind, name), 64)


def ptr(b, off, sym=()):
    if off == 0 and not sym:
        return b
    return mk(("ptr", b, off, sym), 64)


def addr_of(x):
    nd = NODES[x]
    if nd[0] == "ptr":
        return nd[1], nd[2], nd[3]
    return x, 0, ()


def gep(p, off, sym):
    if NODES[p][0] == "ite":
        nd = NODES[p]
        return ite(nd[1], gep(nd[2], off, sym), gep(nd[3], off, sym))
    b, o, s = addr_of(p)
    d = {}
    extra = 0
    for sc, t in tuple(s) + tuple(sym):
        # split constant addends out of the index
        if NODES[t][0] == "add" and is_c(NODES[t][2]):
            extra += sc * sval(NODES[t][2])
            t = NODES[t][1]
        if is_c(t):
            extra += sc * sval(t)
            continue
        if NODES[t][0] == "mul" and is_c(NODES[t][2]):
            sc, t = sc * sval(NODES[t][2]), NODES[t][1]
        d[t] = d.get(t, 0) + sc
    s2 = tuple(sorted((sc, t) for t, sc in d.items() if sc))
    return ptr(b, o + off + extra, s2)


def funnel(op, x, y, k):
    """fshl/fshr: the double-width value x:y shifted; whole-byte constant shifts move bytes"""
    w = WIDTH[x]
    if is_c(k) and w % 8 == 0:
        s = cval(k) % w
        if op == "fshr":
            s = (w - s) % w
            if s == 0:
                return y
        if s == 0:
            return x
        if s % 8 == 0:
            n, b = w // 8, s // 8
            return cat([ext(y, n - b, b), ext(x, 0, n - b)])
    return mk(("opq", op, w, x, y, k), w)


def opq(name, w, args):
    """uninterpreted function application; lookups in constant tables fold"""
    if name.startswith("tbl") and all(is_c(a) for a in args):
        t = bytes.fromhex(name[3:])
        o = sum(sval(a) for a in args)
        n = w // 8
        if 0 <= o and o + n <= len(t):
            return C(w, int.from_bytes(t[o:o + n], "little"))
        return undef(w)
    return mk(("opq", name, w) + tuple(args), w)


# ------------------------------------------------------------------ rebuild / restrict
def rebuild(nd, f):
    op = nd[0]
    if op in ("c", "undef", "base"):
        return INDEX[nd]
    if op == "ld":
        b = f(nd[1])
        if b == nd[1]:
            return INDEX[nd]
        a = addr_of(b)
        return ld(a[0], a[1] + nd[2], nd[3]) if not a[2] else mk(("ld", b, nd[2], nd[3]), 8 * nd[3])
    if op == "ldx":
        b, o, sy = addr_of(gep(f(nd[1]), nd[2], tuple((s, f(t)) for s, t in nd[3])))
        return ldx(b, o, sy, nd[4]) if sy else ld(b, o, nd[4])
    if op == "argv":
        return INDEX[nd]
    if op == "ext":
        return ext(f(nd[1]), nd[2], nd[3])
    if op == "cat":
        return cat([f(x) for x in nd[1:]])
    if op == "vec":
        return vec([f(x) for x in nd[1:]])
    if op == "agg":
        return agg([f(x) for x in nd[1:]])
    if op == "zext":
        return zext(f(nd[1]), nd[2])
    if op == "sext":
        return sext(f(nd[1]), nd[2])
    if op == "trunc":
        return trunc(f(nd[1]), nd[2])
    if op == "ite":
        return ite(f(nd[1]), f(nd[2]), f(nd[3]))
    if op == "pdiff":
        x, y = f(nd[1]), f(nd[2])
        return INDEX[nd] if x == nd[1] and y == nd[2] else pdiff(x, y)
    if op in ("nan", "flt", "eq", "slt", "ult", "thr"):
        x = f(nd[1])
        y = f(nd[2]) if op not in ("nan", "thr") else None
        if x == nd[1] and (y is None or y == nd[2]):
            return INDEX[nd]
        if op == "nan":
            return isnan(x)
        if op == "flt":
            return flt(x, y)
        if op != "thr":
            return icmp(op, x, y)
        return icmp("slt", x, C(WIDTH[x], nd[2]))
    if op == "fneg":
        return fneg(f(nd[1]))
    if op == "fabs":
        return fabs_(f(nd[1]))
    if op == "call":
        return call(nd[1], WIDTH[INDEX[nd]], tuple(f(x) for x in nd[2:]))
    if op == "ptr":
        return gep(f(nd[1]), nd[2], tuple((s, f(t)) for s, t in nd[3]))
    if op == "bool":
        if NODES[nd[1]][0] == "ld":
            return INDEX[nd]
        return trunc(f(nd[1]), 1)
    if op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
        return unop(op, f(nd[1]), nd[2])
    if op == "opq":
        if nd[1] in ("fshl", "fshr"):
            return funnel(nd[1], *[f(x) for x in nd[3:]])
        return opq(nd[1], nd[2], tuple(f(x) for x in nd[3:]))
    if len(nd) == 3:
        return binop(op, f(nd[1]), f(nd[2]))
    raise ValueError("rebuild %r" % (nd,))


ATOMS = ("nan", "flt", "eq", "slt", "ult", "thr", "bool")


def children(n):
    nd = NODES[n]
    op = nd[0]
    if op in ("c", "undef", "base", "argv"):
        return ()
    if op == "ld":
        return (nd[1],)
    if op == "ldx":
        return (nd[1],) + tuple(t for _, t in nd[3])
    if op in ("ext", "zext", "sext", "trunc", "thr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
        return (nd[1],)
    if op == "call":
        return nd[2:]
    if op == "opq":
        return nd[3:]
    if op == "ptr":
        return (nd[1],) + tuple(t for _, t in nd[3])
    return nd[1:]


def walk(n, seen):
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))


def late(a):
    """a truth value read at a computed address: decide the address first"""
    nd = NODES[a]
    return nd[0] == "bool" and NODES[nd[1]][0] == "ldx"


def first_atom(n):
    """some condition atom used inside term n (outermost first), or None"""
    seen = set()
    st = [n]
    spare = None
    while st:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        nd = NODES[x]
        hit = None
        if nd[0] == "ite":
            hit = nd[1]
        elif WIDTH[x] == 1 and (nd[0] in ATOMS or nd[0] in ("opq", "trunc", "argv")):
            hit = x
        if hit is not None:
            # descend into the atom's own operands first if they hold decisions
            for y in children(hit):
                inner = first_atom(y)
                if inner is not None:
                    hit = inner
                    break
            if not late(hit):
                return hit
            if spare is None:
                spare = hit
        st.extend(children(x))
    return spare


def restrict(n, asg, akeyv):
    """replace atoms by their assigned truth values everywhere in n"""
    memo = _memo_restrict.setdefault(akeyv, {})

    def f(x):
        r = memo.get(x)
        if r is not None:
            return r
        v = asg(x) if WIDTH[x] == 1 else None
        if v is not None:
            r = TRUE if v else FALSE
        else:
            nd = NODES[x]
            r = rebuild(nd, f)
            if r != x and WIDTH[r] == 1 and not is_c(r):
                r = f(r)
        memo[x] = r
        return r
    return f(n)


# ------------------------------------------------------------------ show
def show(n, d=0, lim=14):
    nd = NODES[n]
    op = nd[0]
    if d > lim:
        return "..."
    s = lambda x: show(x, d + 1, lim)
    if op == "c":
        w, v = nd[1], nd[2]
        if w in (32, 64):
            iv = sval(n)
            f = fval(n)
            if abs(iv) < 100000:
                return "%d" % iv
            return "%g" % f if (f == f and 1e-30 < abs(f) < 1e30) else "0x%x" % v
        return str(v)
    if op == "undef":
        return "undef"
    if op == "base":
        return "%s" % (nd[2],)
    if op == "ld":
        return "%s[%d:%d]" % (s(nd[1]), nd[2], nd[2] + nd[3])
    if op == "ldx":
        return "%s[%d+%s]" % (s(nd[1]), nd[2], "+".join("%d*%s" % (a, s(t)) for a, t in nd[3]))
    if op == "argv":
        return "arg%s" % nd[1]
    if op == "ite":
        return "(%s ? %s : %s)" % (s(nd[1]), s(nd[2]), s(nd[3]))
    if op == "fneg":
        return "-%s" % s(nd[1])
    if op in ("fadd", "add"):
        return "(%s + %s)" % (s(nd[1]), s(nd[2]))
    if op in ("fmul", "mul"):
        return "%s*%s" % (s(nd[1]), s(nd[2]))
    if op == "fdiv":
        return "(%s / %s)" % (s(nd[1]), s(nd[2]))
    if op == "call":
        return "%s(%s)" % (nd[1], ", ".join(map(s, nd[2:])))
    if op == "flt":
        return "(%s < %s)" % (s(nd[1]), s(nd[2]))
    if op == "thr":
        return "(%s < %d)" % (s(nd[1]), nd[2])
    if op == "bool":
        return s(nd[1])
    if op == "ptr":
        return "(%s+%d%s)" % (s(nd[1]), nd[2], "".join("+%d*%s" % (a, s(t)) for a, t in nd[3]))
    if op == "ext":
        return "%s.b%d:%d" % (s(nd[1]), nd[2], nd[2] + nd[3])
    if op == "pdiff":
        return "(%s - %s)" % (s(nd[1]), s(nd[2]))
    if op == "opq":
        return "%s(%s)" % (nd[1], ", ".join(map(s, nd[3:])))
    return "%s(%s)" % (op, ", ".join(s(x) for x in children(n)))


_init()
