"""Generators shared by the checks: operand flavours, element types, swizzle names."""
import itertools

L = "xyzw"
FLOATS = ["float", "double"]
INTS = ["int", "unsigned", "ll", "ull", "size_t"]
NUM = INTS + FLOATS
ALL = ["bool"] + NUM
RANK = {"bool": 0, "int": 1, "unsigned": 2, "ll": 3, "size_t": 3.5, "ull": 4, "float": 5, "double": 6}


def common(a, b):
    """std::common_type of two scalars (LP64)"""
    if a == b:
        return a
    if a == "bool":
        return b
    if b == "bool":
        return a
    if {a, b} == {"ll", "size_t"}:
        return "ull"            # neither unsigned long nor long long holds the other
    return a if RANK[a] >= RANK[b] else b


def implicit(a, b):
    """documented implicit conversion a -> b: non-bool, never loses the common type"""
    return a != "bool" and b != "bool" and common(a, b) == b


def vec(T, n):
    return "basic_vector<%s,%d>" % (T, n)


def names(size, counts=(1, 2, 3, 4)):
    """every swizzle name of a vector of the given size, with its component list"""
    for n in counts:
        for t in itertools.product(range(size), repeat=n):
            yield "".join(L[i] for i in t), t


def distinct(t):
    return len(set(t)) == len(t)


class Op:
    """an operand: C++ parameter, expression, raw parameter of the reference, lane expression"""

    def __init__(self, kind, T, n, v, decl, expr, raw, lane, need="", wlane=None):
        self.kind, self.T, self.n, self.v = kind, T, n, v
        self.decl, self.expr, self.raw, self._lane, self.need = decl, expr, raw, lane, need

    def lane(self, i):
        return self._lane(i)

    @property
    def pre(self):
        """the storage is assumed, not required, to be there"""
        return self.need.replace("NEED(", "PRE(")


SWZ = {1: (2, (1,)), 2: (3, (2, 0)), 3: (3, (2, 0, 1)), 4: (4, (3, 1, 0, 2))}


def operand(kind, T, n, v="a", mut=False):
    """kind: vec, swz (swizzle of a vector), view, cview, iview (swizzle of a view), vv (view_vector), scalar"""
    c = "" if mut else "const "
    if kind == "scalar":
        if T == "bool":
            return Op(kind, T, 1, v, "const bool& %s" % v, v, "const bool* %s" % v, lambda i: v + "[0]")
        return Op(kind, T, 1, v, "%s %s" % (T, v), v, "%s %s" % (T, v), lambda i: v)
    if kind == "vec":
        return Op(kind, T, n, v, "%sbasic_vector<%s,%d>& %s" % (c, T, n, v), v, "%s%s* %s" % (c, T, v), lambda i: "%s[%d]" % (v, i))
    if kind == "swz":
        s, p = SWZ[n]
        nm = "".join(L[i] for i in p)
        return Op(kind, T, n, v, "%sbasic_vector<%s,%d>& %s" % (c, T, s, v), "%s.%s" % (v, nm), "%s%s* %s" % (c, T, v),
                  lambda i: "%s[%d]" % (v, p[i]))
    if kind in ("view", "cview"):
        m = "true" if kind == "view" else "false"
        return Op(kind, T, n, v, "%sbasic_view<%s,%s,%d>& %s" % (c, m, T, n, v), v, "%s* const& %s" % (c + T, v),
                  lambda i: "%s[%d]" % (v, i), "NEED(%s); " % v)
    if kind == "iview":
        s, p = SWZ[n]
        nm = "".join(L[i] for i in p)
        return Op(kind, T, n, v, "%sbasic_view<true,%s,%d>& %s" % (c, T, s, v), "%s.%s" % (v, nm), "%s* const& %s" % (c + T, v),
                  lambda i: "%s[%d]" % (v, p[i]), "NEED(%s); " % v)
    if kind == "vv":
        return Op(kind, T, n, v, "%sview_vector<%s,%d>& %s" % (c, T, n, v), v, "%s* const& %s" % (c + T, v),
                  lambda i: "%s[%d]" % (v, i), "NEED(%s); " % v)
    raise ValueError(kind)


KINDS = ["vec", "swz", "view", "cview", "iview", "vv"]
OWNERS = ["vec", "swz"]


def arith_ok(op, a, b):
    """documented constraint of the binary operators on element types a and b"""
    if "bool" in (a, b) or not (implicit(a, b) or implicit(b, a)):
        return False
    if op in ("+", "-", "*", "/"):
        return True
    if a not in INTS or b not in INTS:
        return False
    return op not in ("&", "|", "^") or SIZE[a] == SIZE[b]


SIZE = {"bool": 1, "int": 4, "unsigned": 4, "float": 4, "double": 8, "ll": 8, "ull": 8, "size_t": 8}
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]


def lane_expr(op, T, U, x, y):
    """documented value of  x op y  (element types T, U), with its type"""
    if op in ("<<", ">>"):
        return T, "(%s)(%s %s %s)" % (T, x, op, y)
    O = common(T, U)
    return O, "(%s)%s %s (%s)%s" % (O, x, op, O, y)


def nonzero(op, T, U, ys):
    """the documented precondition of %"""
    if op != "%":
        return ""
    O = common(T, U)
    return "".join("NEED((%s)%s != 0); " % (O, y) for y in dict.fromkeys(ys))


class Rot:
    """deterministic rotation through a list"""

    def __init__(self, xs):
        self.xs, self.i = list(xs), -1

    def __call__(self):
        self.i = (self.i + 1) % len(self.xs)
        return self.xs[self.i]


def self_t(a):
    """type of the reference an in-place operator returns (a view_vector is used through its basic_view base)"""
    return "basic_view<true,%s,%d>&" % (a.T, a.n) if a.kind == "vv" else "decltype((%s))" % a.expr
