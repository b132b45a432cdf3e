from fw import Case
from gen import *

META = dict(
    title="Unary operators, ++ and -- act on every component of the designated operand",
    statement="Unary +, - and ~ return, lane by lane, the C++ result with the element type unchanged (a scalar for one component) and leave the operand alone. Prefix ++ and -- add or subtract one in every designated component and return the operand itself; postfix forms do the same and return an independent vector holding the old components. Only numeric element types are accepted, ~ only integral ones, and ++/-- only writable operands.",
    quant=("inputs", "all component values, element types, lengths and operand forms"),
    why="Wrap-around, negative zero, and the old value returned by postfix forms over swizzles and views are visible only for particular values and forms.",
    anchors=["include/dsga.hxx"],
    mech=[("unary operators", "operator + - ~ ++ -- (vector_base)"), ("lane machinery", "machinery::apply_make")],
    explanation="each instantiated operator is lowered and its results, stored bytes and returned reference are value-numbered against the scalar expressions",
    technique="value numbering per instantiation over clang LLVM IR; overload-resolution witnesses",
)
PRE = r'''
template <class A> concept Plus = requires(A& a) { +a; };
template <class A> concept Minus = requires(A& a) { -a; };
template <class A> concept Compl = requires(A& a) { ~a; };
template <class A> concept Inc = requires(A& a) { ++a; };
template <class A> concept IncP = requires(A& a) { a++; };
template <class A> concept Dec = requires(A& a) { --a; };
template <class A> concept DecP = requires(A& a) { a--; };
'''
MUT = ["vec", "swz", "view", "iview", "vv"]


def cases(c):
    for T in NUM:
        for n in (1, 2, 3, 4):
            for k in KINDS:
                if c.tier == "quick" and T in ("unsigned", "ull", "size_t") and (n + KINDS.index(k)) % 2:
                    continue
                a = operand(k, T, n)
                for op in ("+", "-") + (("~",) if T in INTS else ()):
                    O = T if n == 1 else vec(T, n)
                    yield Case("un%s.%s.%s%d" % (op, T, k, n), "%s* o, %s" % (O, a.decl), "put<%s>(o, %s%s);" % (O, op, a.expr), "%s* o, %s" % (T, a.raw),
                               a.need + "".join("o[%d]=%s%s; " % (i, op, a.lane(i)) for i in range(n)))
                if k not in MUT:
                    continue
                a = operand(k, T, n, mut=True)
                for op in ("+", "-"):
                    upd = "".join("%s t%d=%s; " % (T, i, a.lane(i)) for i in range(n)) + "".join("%s=t%d%s(%s)1; " % (a.lane(i), i, op, T) for i in range(n))
                    yield Case("pre%s.%s.%s%d" % (op, T, k, n), "%s, int* q" % a.decl, "auto&& r = %s%s%s; *q = (void*)&r == (void*)&(%s); static_assert(same_type_<%s, decltype((%s%s%s))>::value);" % (op, op, a.expr, a.expr, self_t(a), op, op, a.expr),
                               "%s, int* q" % a.raw, a.need + upd + "*q=1;")
                    yield Case("post%s.%s.%s%d" % (op, T, k, n), "%s* o, %s" % (vec(T, n), a.decl), "put<%s>(o, %s%s%s);" % (vec(T, n), a.expr, op, op), "%s* o, %s" % (T, a.raw),
                               a.need + upd + "".join("o[%d]=t%d; " % (i, i) for i in range(n)))


def accepts():
    for T in ALL:
        for n in (1, 2, 3, 4):
            V = vec(T, n)
            nb, it = T != "bool", T in INTS
            f = lambda b, x: ("" if b else "!") + x
            ts = []
            if n > 1 or nb:      # a one-component bool vector converts to bool, where the built-in operators take over
                ts += [f(nb, "Plus<%s>" % V), f(nb, "Minus<%s>" % V)]
            if n > 1 or it:
                ts += [f(it, "Compl<%s>" % V)]
            for nm in ("Inc", "IncP", "Dec", "DecP"):
                ts += [f(nb, "%s<%s>" % (nm, V)), "!%s<const %s>" % (nm, V), "!%s<basic_view<false,%s,%d>>" % (nm, T, n)]
                if n > 1:
                    ts += [f(nb, "%s<decltype((std::declval<%s&>().yx))>" % (nm, V)), "!%s<decltype((std::declval<%s&>().xx))>" % (nm, V), "!%s<decltype((std::declval<const %s&>().yx))>" % (nm, V)]
            yield ("%s%d" % (T, n), " && ".join(ts), "accepted operands")


def run(c):
    cs = list(cases(c))
    ctl = [Case("control.old", "ivec2* o, ivec2& a", "*o = a++;", "int* o, int* a", "o[0]=++a[0]; o[1]=++a[1];", expect="differs"),
           Case("control.neg", "vec2* o, const vec2& a", "*o = -a;", "float* o, const float* a", "o[0]=0-a[0]; o[1]=0-a[1];", expect="differs"),
           Case("control.pre", "ivec3& a", "++a.zx;", "int* a", "a[0]++; a[1]++; a[2]++;", expect="differs")]
    h = c.pairs("values", cs + ctl, minimum=500)
    hw = c.witness("accepts", list(accepts()) + [("control", "Compl<vec2>", "", "false")], prelude=PRE, minimum=32)
    c.collect(h)
    c.collect_witness(hw)
