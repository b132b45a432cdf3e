"""Equality of terms in the normal-form domain.

Terms with decisions are compared by finite case analysis over the comparison atoms that
occur in them (every consistent ordering of the compared values); without decisions they
are compared either exactly (IEEE-exact rewrites) or as rational functions over the reals.
"""
from fractions import Fraction
import math
import sys
import terms as T
from terms import NODES, WIDTH, TRUE, FALSE

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


# ---------------------------------------------------------------- theory of atoms
def norm_iv(s):
    out = []
    for lo, hi in sorted(s):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return out


def meet(a, b):
    return norm_iv([(max(l, p), min(h, q)) for l, h in a for p, q in b if max(l, p) <= min(h, q)])


def wrap(s, w):
    """map integer intervals into the signed domain of width w"""
    m, lo = 1 << w, -(1 << (w - 1))
    out = []
    for l, h in s:
        if h - l + 1 >= m:
            return [(lo, lo + m - 1)]
        l2 = (l - lo) % m + lo
        h2 = l2 + (h - l)
        if h2 < lo + m:
            out.append((l2, h2))
        else:
            out += [(l2, lo + m - 1), (lo, h2 - m)]
    return norm_iv(out)


def step(t):
    """one invertible step towards the base variable: (operand, preimage function)"""
    nd, w = NODES[t], WIDTH[t]
    if nd[0] == "add":
        k = [y for y in nd[1:3] if T.is_c(y)]
        v = [y for y in nd[1:3] if not T.is_c(y)]
        if len(k) == 1:
            c = T.sval(k[0])
            return v[0], lambda s: wrap([(l - c, h - c) for l, h in s], w)
    elif nd[0] == "mul":
        k = [y for y in nd[1:3] if T.is_c(y)]
        v = [y for y in nd[1:3] if not T.is_c(y)]
        if len(k) == 1 and T.sval(k[0]) == -1:
            return v[0], lambda s: wrap([(-h, -l) for l, h in s], w)
    elif nd[0] == "ashr" and T.is_c(nd[2]) and T.cval(nd[2]) < w:
        c, top = T.cval(nd[2]), [(-(1 << (w - 1)), (1 << (w - 1)) - 1)]
        return nd[1], lambda s: meet([(l << c, (h << c) + (1 << c) - 1) for l, h in s], top)
    elif nd[0] == "sext":
        q = WIDTH[nd[1]]
        return nd[1], lambda s: meet(s, [(-(1 << (q - 1)), (1 << (q - 1)) - 1)])
    elif nd[0] == "zext":
        q = WIDTH[nd[1]]
        if q < w:
            return nd[1], lambda s: wrap(meet(s, [(0, (1 << q) - 1)]), q)
    return None


def aligned(y, s):
    """only the multiples of the alignment can be pointer distances"""
    if T.PALIGN > 1 and NODES[y][0] == "pdiff":
        a = T.PALIGN
        return [(l, h) for l, h in ((-(-l // a) * a, h // a * a) for l, h in s) if l <= h]
    return s


def root(t):
    while True:
        s = step(t)
        if s is None:
            return t
        t = s[0]


def pre(t, s):
    """values of the base variable for which t lies in s"""
    while True:
        st = step(t)
        if st is None:
            return s
        s = st[1](s)
        t = st[0]


def natural(y):
    w, nd = WIDTH[y], NODES[y]
    if nd[0] == "and":
        ks = [T.sval(z) for z in nd[1:3] if T.is_c(z) and T.sval(z) >= 0]
        if ks:
            return [(0, min(ks))]
    return [(-(1 << (w - 1)), (1 << (w - 1)) - 1)]


class Facts:
    """a consistent assignment of atoms (immutable)"""
    __slots__ = ("asg", "key")

    def __init__(self, asg=()):
        self.asg = asg            # tuple of (atom, bool)
        self.key = tuple(sorted(asg))

    def add(self, a, v):
        return Facts(self.asg + ((a, v),))

    def lookup(self, a):
        """implied truth value of atom a, or None"""
        nd = NODES[a]
        op = nd[0]
        if op not in T.ATOMS and op not in ("opq", "trunc", "argv"):
            return None
        for b, v in self.asg:
            if a == b:
                return v
        if op == "thr":
            _, x, c = nd
            y = root(x)
            cur = self.values(y)
            lo = -(1 << (WIDTH[x] - 1))
            p = pre(x, [(lo, c - 1)])
            m = aligned(y, meet(cur, p))
            if not m:
                return False
            if m == cur:
                return True
        elif op == "flt":
            _, x, y = nd
            r = self.forder(x, y)
            if r is not None:
                return r
        elif op in ("slt", "ult", "eq"):
            if op == "eq" and (T.is_c(nd[1]) or T.is_c(nd[2])):
                t, k = (nd[2], nd[1]) if T.is_c(nd[1]) else (nd[1], nd[2])
                if not T.is_c(t):
                    cur = self.values(root(t))
                    m = meet(cur, pre(t, [(T.sval(k), T.sval(k))]))
                    if not m:
                        return False
                    if m == cur:
                        return True
            return self.iorder(op, nd[1], nd[2])
        return None

    # integer interval sets (signed, inclusive) of base variables
    def values(self, y):
        """interval set of base variable y under the facts"""
        w = WIDTH[y]
        s = natural(y)
        for b, v in self.asg:
            nb = NODES[b]
            if nb[0] == "thr":
                t, c = nb[1], nb[2]
                if root(t) != y:
                    continue
                lo, hi = -(1 << (WIDTH[t] - 1)), (1 << (WIDTH[t] - 1)) - 1
                s = meet(s, pre(t, [(lo, c - 1)] if v else [(c, hi)]))
            elif nb[0] == "eq" and (T.is_c(nb[1]) or T.is_c(nb[2])):
                t, k = (nb[2], nb[1]) if T.is_c(nb[1]) else (nb[1], nb[2])
                if T.is_c(t) or root(t) != y:
                    continue
                k = T.sval(k)
                if v:
                    s = meet(s, pre(t, [(k, k)]))
                else:
                    lo, hi = -(1 << (WIDTH[t] - 1)), (1 << (WIDTH[t] - 1)) - 1
                    s = meet(s, pre(t, [(lo, k - 1), (k + 1, hi)]))
        return aligned(y, s)

    def ranged(self):
        seen = []
        for b, v in self.asg:
            nb = NODES[b]
            if nb[0] in ("thr", "eq"):
                for t in nb[1:2] if nb[0] == "thr" else nb[1:3]:
                    if T.is_c(t) or not WIDTH[t]:
                        continue
                    y = root(t)
                    if y not in seen:
                        seen.append(y)
        return [(y, self.values(y)) for y in seen]

    # floating order (given neither is NaN): edges x<y strict, x<=y
    def edges(self):
        e = []
        for b, v in self.asg:
            nb = NODES[b]
            if nb[0] == "flt":
                if v:
                    e.append((nb[1], nb[2], 1))
                else:
                    e.append((nb[2], nb[1], 0))
            elif T.ROUND and nb[0] == "thr" and nb[2] == 0 and WIDTH[nb[1]] in (32, 64):
                z = T.C(WIDTH[nb[1]], 0)          # the sign bit
                e.append((nb[1], z, 0) if v else (z, nb[1], 0))
        return e

    def forder(self, x, y):
        e = self.edges()
        if not e:
            return None
        # constants are ordered among themselves
        nodes = {x, y}
        for p, q, _ in e:
            nodes.add(p), nodes.add(q)
        cs = sorted((n for n in nodes if T.is_c(n)), key=T.fval)
        for p, q in zip(cs, cs[1:]):
            if T.fval(p) < T.fval(q):
                e.append((p, q, 1))
            else:
                e.append((p, q, 0)), e.append((q, p, 0))
        if self.reach(e, x, y) == 1:
            return True
        if self.reach(e, y, x) is not None:      # y <= x
            return False
        return None

    @staticmethod
    def reach(e, s, t):
        """None if no path s->t, else max strictness (0/1)"""
        best = {s: 0}
        work = [s]
        while work:
            n = work.pop()
            for p, q, st in e:
                if p == n:
                    w = max(best[n], st)
                    if q not in best or best[q] < w:
                        best[q] = w
                        work.append(q)
        if s == t:
            # only meaningful for cycle checks
            for p, q, st in e:
                pass
        return best.get(t)

    def iorder(self, op, x, y):
        """integer order facts: lookup of x < y (slt, ult) or x == y"""
        for o in (op,) if op != "eq" else ("slt", "ult"):
            e, ne = [], []
            for b, v in self.asg:
                nb = NODES[b]
                if nb[0] == "eq":
                    if v:
                        e += [(nb[1], nb[2], 0), (nb[2], nb[1], 0)]
                    else:
                        ne.append((nb[1], nb[2]))
                elif nb[0] == o:
                    e.append((nb[1], nb[2], 1) if v else (nb[2], nb[1], 0))
            if not e:
                continue
            while True:                     # a <= b and a != b: a < b
                new = [(p, q, 1) for a, b in ne for p, q in ((a, b), (b, a))
                       if (p, q, 1) not in e and self.reach(e, p, q) == 0]
                if not new:
                    break
                e += new
            xy, yx = self.reach(e, x, y), self.reach(e, y, x)
            if op == "eq":
                if 1 in (xy, yx):
                    return False
                if xy == 0 and yx == 0:
                    return True
                continue
            if xy == 1:
                return True
            if yx is not None:
                return False
        return None

    def feasible(self):
        # each stored atom must not be contradicted by the others
        for i, (a, v) in enumerate(self.asg):
            o = Facts(self.asg[:i] + self.asg[i + 1:])
            r = o.lookup(a)
            if r is not None and r != v:
                return False
        for y, iv in self.ranged():
            if not iv:
                return False
        # strict float cycles
        e = self.edges()
        for p, q, st in e:
            if st and self.reach(e, q, p) is not None:
                return False
        # NaN operands have no order facts that matter
        return True

    def show(self):
        return ", ".join(("" if v else "not ") + T.show(a, 4) for a, v in self.asg) or "always"


# ---------------------------------------------------------------- polynomials
def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        n = r.get(k, 0) + s * v
        if n:
            r[k] = n
        else:
            r.pop(k, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 40000:
        raise Budget("polynomial size")
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            d = dict(k1)
            for x, e in k2:
                d[x] = d.get(x, 0) + e
            k = tuple(sorted(d.items()))
            n = r.get(k, 0) + v1 * v2
            if n:
                r[k] = n
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


class Poly:
    """rational-function view of floating terms; integer terms mod 2^w"""

    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.imemo = {}
        self.cmemo, self.cids = {}, {}

    def atom(self, n):
        return {((n, 1),): Fraction(1)}

    def rat(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._rat(n)
            self.memo[n] = r
        return r

    def _rat(self, n):
        nd = NODES[n]
        op = nd[0]
        if op == "c":
            v = T.fval(n)
            if v == v and abs(v) != float("inf"):
                return ({(): Fraction(v)} if v else {}), ONE
            return self.atom(n), ONE
        if op == "fneg":
            a, b = self.rat(nd[1])
            return {k: -v for k, v in a.items()}, b
        if op == "fadd":
            a, b = self.rat(nd[1])
            c, d = self.rat(nd[2])
            if b == d:
                return padd(a, c), b
            return padd(pmul(a, d), pmul(c, b)), pmul(b, d)
        if op == "fmul":
            a, b = self.rat(nd[1])
            c, d = self.rat(nd[2])
            return pmul(a, c), (pmul(b, d) if b is not ONE or d is not ONE else ONE)
        if op == "fdiv":
            a, b = self.rat(nd[1])
            c, d = self.rat(nd[2])
            if not c:
                return self.atom(n), ONE
            return pmul(a, d), pmul(b, c)
        if op == "call" and nd[1] == "fma":
            a, b = self.rat(nd[2])
            c, d = self.rat(nd[3])
            e, f = self.rat(nd[4])
            p, q = pmul(a, c), pmul(b, d)
            return padd(pmul(p, f), pmul(e, q)), pmul(q, f)
        return self.atom(self.norm(n)), ONE

    def norm(self, n):
        """normalise the arguments of an uninterpreted term: representative by equality"""
        nd = NODES[n]
        if nd[0] in ("ld", "argv", "base", "undef", "c", "ldx"):
            return n
        key = (nd[0],) + tuple(x if not isinstance(x, int) else None for x in nd[1:2])
        ch = T.children(n)
        cn = tuple(self.canon(x) for x in ch)
        k = ("norm", nd[0], tuple(x for i, x in enumerate(nd[1:]) if isinstance(x, str)), self._lits(nd), cn)
        return self.imemo.setdefault(k, n)

    def _lits(self, nd):
        op = nd[0]
        if op in ("ext", "thr"):
            return nd[2:]
        if op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            return (nd[2],)
        if op == "opq":
            return (nd[2],)
        if op == "ptr":
            return (nd[2], tuple(s for s, _ in nd[3]))
        return ()

    FP = {"fadd", "fmul", "fdiv", "fneg"}

    def canon(self, n):
        """canonical identity of a decision-free term"""
        r = self.cmemo.get(n)
        if r is None:
            k = self._canon(n)
            r = self.cmemo[n] = self.cids.setdefault(k, len(self.cids))
        return r

    def _canon(self, n):
        nd = NODES[n]
        op = nd[0]
        if op in ("add", "mul", "zext", "sext"):
            p = self.ipoly(n)
            return ("i", WIDTH[n], tuple(sorted(p.items())))
        if op in self.FP or (op == "call" and nd[1] == "fma" and self.mode == "poly"):
            if self.mode == "poly":
                a, b = self.rat(n)
                return ("r", tuple(sorted(a.items())), tuple(sorted(b.items())))
            cs = [self.canon(x) for x in nd[1:]]
            return ("t", op) + tuple(sorted(cs) if op in ("fadd", "fmul") else cs)
        return ("n", self.norm(n))

    def ipoly(self, n):
        r = self.imemo.get(("p", n))
        if r is None:
            r = self._ipoly(n)
            self.imemo[("p", n)] = r
        return r

    def _ipoly(self, n):
        nd = NODES[n]
        op, w = nd[0], WIDTH[n]
        m = 1 << w
        if op == "c":
            v = nd[2]
            return {(): v} if v else {}
        if op == "add":
            return {k: v % m for k, v in padd(self.ipoly(nd[1]), self.ipoly(nd[2])).items() if v % m}
        if op == "mul":
            return {k: v % m for k, v in pmul(self.ipoly(nd[1]), self.ipoly(nd[2])).items() if v % m}
        return {((self.norm(n), 1),): 1}

    def equal(self, a, b):
        if a == b:
            return True
        na, nb = NODES[a][0], NODES[b][0]
        if WIDTH[a] != WIDTH[b]:
            return False
        if na in ("vec", "agg", "cat") and nb == na and len(NODES[a]) == len(NODES[b]):
            return all(self.equal(x, y) for x, y in zip(NODES[a][1:], NODES[b][1:]))
        ints = {"add", "mul"}
        if na in ints or nb in ints:
            return self.ipoly(a) == self.ipoly(b)
        if na in self.FP or nb in self.FP or (self.mode == "poly" and ("call" in (na, nb))):
            if self.mode == "poly":
                p, q = self.rat(a)
                r, s = self.rat(b)
                if p == r and q == s:
                    return True
                return pmul(p, s) == pmul(r, q)
            return self.canon(a) == self.canon(b)
        return self.canon(a) == self.canon(b)


# ---------------------------------------------------------------- driver
class Differ:
    def __init__(self, mode="bits", nonan=False, budget=20000, assume=None, anynan=False):
        self.mode, self.nonan, self.anynan = mode, nonan, anynan
        self.budget = budget
        self.assume = assume       # optional predicate: Facts -> bool (False: skip this case)
        self.poly = Poly(mode)
        self.pmemo, self.preps, self.psign = {}, {}, {}
        self.cases = 0

    def diff(self, a, b, facts=None):
        """None if equal in every case, else a description of the first differing case"""
        self.memo = {}
        if self.mode == "poly":
            a, b = self._pnorm(a), self._pnorm(b)
        return self._diff(a, b, facts or Facts())

    def _pnorm(self, n):
        """decisions on values that are equal as rational functions become the same decision"""
        r = self.pmemo.get(n)
        if r is None:
            nd = NODES[n]
            r = T.rebuild(nd, self._pnorm)
            nr = NODES[r]
            if nr[0] == "nan":
                r = T.isnan(self._prep(nr[1]))
            elif nr[0] == "flt":
                x, y = nr[1], nr[2]
                if any(NODES[z][0] in Poly.FP for z in (x, y)) and not T.first_atom(x) and not T.first_atom(y):
                    (p, q), (u, v) = self.poly.rat(x), self.poly.rat(y)
                    d = padd(p, u, -1)
                    if q == ONE and v == ONE and d:
                        s = abs(d[min(d)])
                        k = lambda m: tuple(sorted((a, b * m / s) for a, b in d.items()))
                        if k(-1) in self.psign:
                            y, x = self.psign[k(-1)]
                        else:
                            x, y = self.psign.setdefault(k(1), (x, y))
                r = T.flt(self._prep(x), self._prep(y))
            self.pmemo[n] = r
        return r

    def _prep(self, x):
        if T.is_c(x) or T.first_atom(x) is not None:
            return x
        return self.preps.setdefault(self.poly.canon(x), x)

    def _diff(self, a, b, facts):
        if a == b:
            return None
        if NODES[a][0] == "bot" or NODES[b][0] == "bot":
            if NODES[a][0] == NODES[b][0]:
                return None
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        atom = T.first_atom(a)
        if atom is None or T.late(atom):
            other = T.first_atom(b)
            if atom is None or (other is not None and not T.late(other)):
                atom = other
        if atom is None:
            self.cases += 1
            if facts.asg and not facts.feasible():
                return None
            if self.poly.equal(a, b):
                return None
            if self.anynan and self._both_nan(a, b, facts):
                return None
            if self._eq_under(a, b, facts):
                return None
            split = self._split(facts)
            if split is None:
                return (a, b, facts)
            for v in (True, False):
                r = self._diff(a, b, facts.add(split, v))
                if r is not None:
                    return r
            return None
        if T.late(atom):
            f = self._subst(facts)[0]
            a2, b2 = (f(a), f(b)) if f else (a, b)
            if (a2, b2) != (a, b):
                return self._diff(a2, b2, facts)
            split = self._split(facts)
            if split is not None:
                atom = split
        self.budget -= 1
        if self.budget < 0:
            raise Budget("case budget")
        r = None
        for v in (True, False):
            if self.nonan and NODES[atom][0] == "nan" and v and NODES[NODES[atom][1]][0] in ("ld", "argv"):
                continue
            f2 = facts.add(atom, v)
            if len(f2.asg) > 1 and not f2.feasible():
                continue
            if self.assume and not self.assume(f2):
                continue
            x = T.restrict(a, f2.lookup, f2.key)
            y = T.restrict(b, f2.lookup, f2.key)
            if x == y:
                continue
            r = self._diff(x, y, f2)
            if r is not None:
                break
        if not facts.asg:
            self.memo[k] = r
        return r

    def _both_nan(self, a, b, facts):
        """both results are NaN in this case (which one of the NaNs is left open)"""
        known = {NODES[x][1] for x, v in facts.asg if v and NODES[x][0] == "nan"}

        def f(n):
            nd = NODES[n]
            if n in known:
                return True
            if nd[0] == "c":
                x = T.fval(n) if WIDTH[n] in (32, 64) else 0
                return x != x
            if nd[0] in ("fabs", "fneg", "fpext", "fptrunc"):
                return f(nd[1])
            if nd[0] == "or" and (T.is_c(nd[1]) or T.is_c(nd[2])):
                return f(nd[2] if T.is_c(nd[1]) else nd[1])      # setting bits keeps a NaN a NaN
            if nd[0] in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                return f(nd[1]) or f(nd[2])
            return False
        return f(a) and f(b)

    def _split(self, facts):
        """an integer known to lie in a small range: split the range into single values"""
        for x, iv in facts.ranged():
            if iv and 1 <= iv[-1][1] - iv[0][0] <= 64:
                return T.thr(x, iv[0][0] + 1, WIDTH[x])
        return None

    @staticmethod
    def _pinned(facts):
        """floating-point variables that can only have one value"""
        lo, hi = {}, {}
        for a, v in facts.asg:
            nd = NODES[a]
            if nd[0] == "flt" and T.is_c(nd[2]) and not T.is_c(nd[1]):
                x, c = nd[1], nd[2]
                if v:
                    if x not in hi or T.fval(c) < T.fval(hi[x]):
                        hi[x] = c
                elif x not in lo or T.fval(c) > T.fval(lo[x]):
                    lo[x] = c
        for x, c in lo.items():
            if NODES[x][0] in ("argv", "ld"):
                if T.fval(c) == math.inf:
                    yield x, c
                elif x in hi and T.fval(T.fnext(c)) == T.fval(hi[x]):
                    yield x, T.C(WIDTH[c], 0) if T.fval(c) == 0 else c

    def _subst(self, facts):
        """substitution by the integer equalities of the current case"""
        eqs = [(NODES[x][1], NODES[x][2]) for x, v in facts.asg if v and NODES[x][0] == "eq"]
        # intervals of one value
        for x, iv in facts.ranged():
            if len(iv) == 1 and iv[0][0] == iv[0][1]:
                if NODES[x][0] == "pdiff":
                    eqs.append((NODES[x][1], T.gep(NODES[x][2], iv[0][0], ())))
                    continue
                eqs.append((x, T.C(WIDTH[x], iv[0][0])))
        if T.ROUND:
            eqs += [(x, c) for x, c in self._pinned(facts)]
        if not eqs:
            return None, None
        # classes of equal terms; a constant represents its class
        m = {}

        def find(z):
            while z in m:
                z = m[z]
            return z
        for x, y in eqs:
            x, y = find(x), find(y)
            if x == y:
                continue
            if T.is_c(x):
                x, y = y, x
            m[x] = y
        memo = {}

        def f(n, depth=0):
            if n in memo:
                return memo[n]
            if n in m and depth < 8:
                r = f(m[n], depth + 1)
            else:
                r = T.rebuild(NODES[n], lambda z: f(z, depth))
            memo[n] = r
            return r
        return f, m

    def _eq_under(self, a, b, facts):
        """use integer equalities of the current case"""
        f, m = self._subst(facts)
        if not f:
            return False
        try:
            for x, v in facts.asg:          # the case itself must survive the substitution
                y = f(x)
                if T.is_c(y) and (y == TRUE) != v:
                    return True
            for x, y in m.items():
                if T.is_c(y) and not T.is_c(x):
                    z = T.rebuild(NODES[x], f)
                    if T.is_c(z) and z != y:
                        return True
            a2, b2 = f(a), f(b)
        except RecursionError:
            return False
        return a2 == b2 or Poly(self.mode).equal(a2, b2)
