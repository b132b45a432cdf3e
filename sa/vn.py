"""Gated value numbering over LLVM IR functions (no execution, no solver).

For every function it computes, as terms over the function's inputs,
  * the returned value,
  * the final contents of every byte it writes through a pointer,
  * under which condition control leaves normally, asserts, throws (which type) or terminates,
  * which objects it reads and writes.
"""
import re
import zlib
import terms as T
from terms import NODES, WIDTH, C, TRUE, FALSE
import ir


class Unsupported(Exception):
    pass


PURE = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
        "pow", "exp", "exp2", "exp10", "log", "log2", "log10", "log1p", "expm1", "sqrt", "cbrt", "hypot", "floor", "ceil", "trunc",
        "round", "roundeven", "rint", "nearbyint", "fmod", "remainder", "fma", "fmin", "fmax", "fdim", "copysign", "ldexp",
        "logb", "scalbn", "scalbln", "lround", "llround", "lrint", "llrint", "fabs", "nextafter", "tgamma", "lgamma", "erf",
        "erfc", "ilogb"}
EXC_CTOR = re.compile(r"^_ZNSt(\d+)([a-z_]+)C[12]E")
IGNORE = re.compile(r"^llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant|donothing|stacksave|stackrestore)")


def libm(name):
    """canonical libm name for an external function or intrinsic"""
    if name.startswith("llvm."):
        b = name[5:].split(".")
        if b[0] == "experimental":
            return None
        n = b[0]
        n = {"powi": None, "minnum": "fmin", "maxnum": "fmax", "fmuladd": None, "abs": None}.get(n, n)
        return n if n in PURE else None
    if name in PURE:
        return name
    if name.endswith("f") and name[:-1] in PURE:
        return name[:-1]
    return None


class Outcome:
    __slots__ = ("ret", "mem", "events", "retcond", "stores", "loads", "gstores", "calls", "ninst", "locs", "fn", "retloc")


class State:
    __slots__ = ("mem", "flight")

    def __init__(self, mem=None, flight=None):
        self.mem = mem if mem is not None else {}
        self.flight = flight

    def copy(self):
        return State({b: dict(d) for b, d in self.mem.items()}, self.flight)


class Eval:
    def __init__(self, mod, max_paths=2048, max_iter=300):
        self.mod = mod
        self.max_paths, self.max_iter = max_paths, max_iter
        self.uid = 0
        self.p2i = set()          # integers made from pointers
        self.bind = {}            # globals the caller gives a value

    # -------------------------------------------------------------- memory
    def store_bytes(self, st, p, v, n):
        nd = NODES[p]
        if nd[0] == "ite":
            for c, q in self.ptr_leaves(p):
                old = self.load_bytes(st, q, n)
                self.store_bytes(st, q, T.ite(c, v, old), n)
            return
        b, off, sym = T.addr_of(p)
        if sym:
            raise Unsupported("store through symbolic address %s" % T.show(p))
        self.stores.add((b, off, n, self.cur_dbg))
        d = st.mem.setdefault(b, {})
        for i in range(n):
            d[off + i] = (v, i)

    def ptr_leaves(self, p):
        out = []

        def go(x, c):
            nd = NODES[x]
            if nd[0] == "ite":
                go(nd[2], T.b_and(c, nd[1]))
                go(nd[3], T.b_and(c, T.b_not(nd[1])))
            else:
                out.append((c, x))
        go(p, TRUE)
        return out

    def load_bytes(self, st, p, n):
        nd = NODES[p]
        if nd[0] == "ite":
            return T.ite(nd[1], self.load_bytes(st, nd[2], n), self.load_bytes(st, nd[3], n))
        b, off, sym = T.addr_of(p)
        if sym:
            return self.load_sym(st, b, off, sym, n)
        self.loads.add((b, off, n))
        d = st.mem.get(b)
        nb = NODES[b]
        if nb[0] == "base" and nb[1] == "glob":
            g = self.global_bytes(nb[2])
            if g is not None:
                if off + n > len(g) or off < 0:
                    return T.undef(8 * n)
                out = []
                for x in g[off:off + n]:
                    out.append(C(8, x) if isinstance(x, int) else (T.ext(x[0], x[1], 1)))
                return T.cat(out)
        parts = []
        i = 0
        isalloca = nb[0] == "base" and nb[1] == "alloca"
        while i < n:
            r = d.get(off + i) if d else None
            if r is None:
                j = i
                while j < n and (not d or d.get(off + j) is None):
                    j += 1
                parts.append(T.undef(8 * (j - i)) if isalloca else T.ld(b, off + i, j - i))
                i = j
                continue
            v, k = r
            j = i + 1
            while j < n and d.get(off + j) == (v, k + j - i):
                j += 1
            parts.append(T.ext(v, k, j - i))
            i = j
        return T.cat(parts)

    def load_sym(self, st, b, off, sym, n):
        nb = NODES[b]
        if nb[0] == "base" and nb[1] == "glob":
            g = self.global_bytes(nb[2])
            if g is not None and all(isinstance(x, int) for x in g):
                return T.opq("tbl" + bytes(g).hex(), 8 * n, (C(64, off),) + tuple(
                    T.binop("mul", t, C(64, s)) for s, t in sym))
        if st.mem.get(b):
            # enumerate when the symbolic offset can be matched with stored cells is out of scope
            raise Unsupported("symbolic load from modified object %s" % T.show(b))
        return T.ldx(b, off, sym, n)

    def global_bytes(self, name):
        if name in self.bind:
            return self.bind[name]
        c = self.gcache.get(name)
        if c is None and name not in self.gcache:
            gi = self.mod.global_info(name)
            c = None
            if gi and gi[0] and gi[2] is not None:
                try:
                    c = self.flatten(gi[1], gi[2])
                except Unsupported:
                    c = None
            self.gcache[name] = c
        return c

    def flatten(self, ty, v):
        n = ir.sizeof(ty)
        k = v[0]
        if k in ("zero", "null"):
            return [0] * n
        if k == "undef":
            return [0] * n
        if k == "int":
            return list((v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
        if k == "fp":
            return list(v[1].to_bytes(n, "little"))
        if k == "str":
            return list(v[1])
        if k == "agg":
            if ty.k == "struct":
                out = [0] * n
                for i, (t, x) in enumerate(v[1]):
                    o = ir.field_off(ty, i)
                    f = self.flatten(t, x)
                    out[o:o + len(f)] = f
                return out
            out = []
            for t, x in v[1]:
                out += self.flatten(t, x)
            return out
        if k in ("global", "cexpr"):
            p = self.const(ty, v)
            return [(p, i) for i in range(n)]
        raise Unsupported("init " + k)

    # -------------------------------------------------------------- values
    def const(self, ty, v):
        k = v[0]
        if k == "int":
            return C(ty.n, v[1])
        if k == "fp":
            return C(ty.n, v[1])
        if k == "null":
            return C(64, 0)
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            if ty.k == "vec":
                return T.vec([self.const(ty.el, v)] * ty.n)
            if ty.k in ("arr",):
                return T.agg([self.const(ty.el, v)] * ty.n)
            if ty.k == "struct":
                return T.agg([self.const(e, v) for e in ty.el])
            return C(64 if ty.k == "ptr" else ty.n, 0)
        if k == "agg":
            els = [self.const(t, x) for t, x in v[1]]
            return T.vec(els) if ty.k == "vec" else T.agg(els)
        if k == "global":
            return T.base("glob", v[1])
        if k == "cexpr":
            if v[1] == "gep":
                bt, ops = v[2], v[3]
                return self.gep(bt, [self.const(t, x) for t, x in ops], ops)
            if v[1] in ("inttoptr", "ptrtoint", "bitcast"):
                return self.const(*v[2])
        raise Unsupported("const %r" % (v,))

    def undef(self, ty):
        if ty.k == "vec":
            return T.vec([self.undef(ty.el)] * ty.n)
        if ty.k == "arr":
            return T.agg([self.undef(ty.el)] * ty.n)
        if ty.k == "struct":
            return T.agg([self.undef(e) for e in ty.el])
        return T.undef(64 if ty.k == "ptr" else ty.n)

    def gep(self, bt, vals, ops):
        p = vals[0]
        off, sym = 0, []
        ty = None
        for i in range(1, len(vals)):
            v = vals[i]
            if i == 1:
                sz, ty = ir.sizeof(bt), bt
            elif ty.k in ("arr", "vec"):
                ty = ty.el
                sz = ir.sizeof(ty)
            elif ty.k == "struct":
                j = T.cval(v)
                off += ir.field_off(ty, j)
                ty = ty.el[j]
                continue
            else:
                raise Unsupported("gep into %r" % ty)
            if T.is_c(v):
                off += sz * T.sval(v)
            else:
                if WIDTH[v] < 64:
                    v = T.sext(v, 64)
                if NODES[v][0] == "ite" and T._small(v):
                    # few constant alternatives: distribute
                    r = None
                    rest = vals[i + 1:]
                    if not rest:
                        base_p = T.gep(p, off, sym)

                        def dist(x):
                            if T.is_c(x):
                                return T.gep(base_p, sz * T.sval(x), ())
                            nd = NODES[x]
                            return T.ite(nd[1], dist(nd[2]), dist(nd[3]))
                        return dist(v)
                sym.append((sz, v))
        return T.gep(p, off, sym)

    # -------------------------------------------------------------- functions
    def run(self, name, boolargs={}):
        self.stores, self.loads, self.calls = set(), set(), set()
        self.gcache = {}
        self.events = []          # (cond, kind, detail, dbg)
        self.thrown = []          # exceptions leaving the functions being evaluated
        self.ninst = 0
        self.cur_dbg = None
        self.locs = {}            # term -> dbg of the instruction that made it
        fn = self.mod.funcs[name].parse()
        args = []
        T.BOOLBASES.clear()
        for i, (t, nm, at) in enumerate(fn.args):
            if t.k == "ptr":
                b = T.base("arg", "a%d" % i)
                args.append(b)
                if at and ("nonnull" in at or "dereferenceable" in at):
                    T.NONNULL.add(b)
                if i in boolargs:
                    T.BOOLBASES.add(b if boolargs[i] == 1 else T.mk(("ld", b, 0, 8), 64))
            else:
                w = 64 if t.k == "ptr" else t.n
                args.append(T.mk(("argv", i, w), w))
        st = State()
        ret, st2, rc = self.exec_fn(fn, args, st, TRUE, 0)
        o = Outcome()
        o.ret, o.retcond, o.events = ret, rc, self.events
        o.mem = {b: d for b, d in (st2.mem if st2 else {}).items()
                 if not (NODES[b][0] == "base" and NODES[b][1] == "alloca")}
        o.stores = {s for s in self.stores if not (NODES[s[0]][0] == "base" and NODES[s[0]][1] == "alloca")}
        o.loads = {s for s in self.loads if not (NODES[s[0]][0] == "base" and NODES[s[0]][1] == "alloca")}
        o.calls, o.ninst, o.locs, o.fn = self.calls, self.ninst, self.locs, name
        return o

    def leave(self, cond, flight, dbg, st, depth):
        """an exception leaves the current function"""
        if depth:
            self.thrown.append((cond, flight, st.copy(), dbg))
        else:
            self.event(cond, "throw", flight, dbg)

    BASES = {"std::range_error": ("std::runtime_error",), "std::out_of_range": ("std::logic_error",),
             "std::invalid_argument": ("std::logic_error",), "std::runtime_error": (), "std::logic_error": (), "std::domain_error": ("std::logic_error",)}

    @staticmethod
    def tid(name):
        return C(32, (zlib.crc32(name.encode()) & 0x3fffffff) | 1)

    def selector(self, clauses, flight):
        """the selector value a landing pad sees for an exception of known type"""
        if flight is None or flight not in self.BASES:
            return T.mk(("argv", "sel", 32), 32)
        sup = (flight,) + self.BASES[flight] + ("std::exception",)
        cl = [str(x) for x in clauses]
        for i, x in enumerate(cl):
            if x == "catch":
                t = next((y for y in cl[i + 1:i + 4] if y.startswith("@") or y == "null"), None)
                if t == "null":
                    return self.tid("...")
                if t is not None:
                    n = self.tiname(("global", t.lstrip("@").strip('"')))
                    if n in sup:
                        return self.tid(n)
        return C(32, 0)

    def exec_fn(self, fn, args, st, cond, depth):
        """-> (ret term or None, state or None, return condition)"""
        if depth > 12:
            raise Unsupported("call depth")
        fn.parse()
        self.uid += 1
        uid = self.uid
        env = {}
        for (t, nm, at), a in zip(fn.args, args):
            env[nm] = a
        succ = {}
        for bn, insts in fn.blocks:
            succ[bn] = self.succs(insts[-1])
        entry = fn.blocks[0][0]
        order, cyc = self.topo(entry, succ)
        if cyc:
            return self.exec_paths(fn, env, st, cond, depth, uid)
        preds = {}
        for b in order:
            for s in succ[b]:
                if b not in preds.setdefault(s, []):
                    preds[s].append(b)
        idom = self.idoms(entry, order, preds)
        edgest = {}       # (from,to) -> state, where it differs from the state at the end of the block
        edgec = {}        # (from,to) -> local branch condition
        outst, rets = {}, []
        absc = {entry: cond}
        self_rel = {}

        def rel(x, d):
            if x == d:
                return TRUE
            k = (x, d)
            r = self_rel.get(k)
            if r is None:
                r = FALSE
                for p in preds[x]:
                    if p in outst:
                        r = T.b_or(r, T.b_and(rel(p, d), edgec.get((p, x), FALSE)))
                self_rel[k] = r
            return r
        ptop = sorted
        for b in order:
            if b == entry:
                s = st
                ins = []
            else:
                ps = [p for p in preds[b] if p in outst and edgec.get((p, b), FALSE) != FALSE]
                if not ps:
                    continue
                d = idom[b]
                ins = [(p, T.b_and(rel(p, d), edgec[(p, b)])) for p in ps]
                absc[b] = T.b_and(absc[d], rel(b, d)) if d in absc else cond
                s = self.merge([(edgest.get((p, b), outst[p]), c) for p, c in ins])
            s = s.copy() if b != entry or True else s
            r = self.block(fn, b, fn.bmap[b], env, s, absc[b], ins, depth, uid)
            kind = r[0]
            if kind == "ret":
                rets.append((b, r[1], s))
            elif kind == "br":
                outst[b] = s
                for tgt, es in (r[2] if len(r) > 2 else {}).items():
                    edgest[(b, tgt)] = es
                for tgt, c in r[1]:
                    edgec[(b, tgt)] = T.b_or(edgec.get((b, tgt), FALSE), c)
            # 'stop': nothing
        if not rets:
            return None, None, FALSE
        # merge returns
        rc = FALSE
        val, acc = None, None
        for b, v, s in rets:
            c = absc[b]
            rc = T.b_or(rc, c)
            if acc is None:
                val, acc = v, s
            else:
                val = T.ite(c, v, val) if v is not None else None
                acc = self.merge([(s, c), (acc, T.b_not(c))])
        return val, acc, rc

    def exec_paths(self, fn, env0, st0, cond0, depth, uid):
        """functions with loops: follow branches whose condition is a constant, fork otherwise"""
        results = []
        work = [(fn.blocks[0][0], None, dict(env0), st0.copy(), cond0, 0)]
        npaths = 0
        while work:
            b, prev, env, s, c, steps = work.pop()
            while True:
                steps += 1
                if steps > self.max_iter:
                    raise Unsupported("loop in %s does not fold" % fn.name)
                ins = [(prev, TRUE)] if prev is not None else []
                r = self.block(fn, b, fn.bmap[b], env, s, c, ins, depth, uid)
                if r[0] == "ret":
                    results.append((c, r[1], s))
                    break
                if r[0] == "stop":
                    break
                if len(r) > 2:
                    raise Unsupported("exception edge inside a loop")
                live = [(t, bc) for t, bc in r[1] if T.b_and(bc, c) != FALSE and (not T.ROUND or self.possible(T.b_and(bc, c)))]
                if not live:
                    break
                for t, bc in live[1:]:
                    npaths += 1
                    if npaths > self.max_paths:
                        raise Unsupported("too many paths in %s" % fn.name)
                    work.append((t, b, dict(env), s.copy(), T.b_and(c, bc), steps))
                c = T.b_and(c, live[0][1]) if len(live) > 1 else c
                prev, b = b, live[0][0]
        if not results:
            return None, None, FALSE
        rc, val, acc = FALSE, None, None
        for c, v, s in results:
            rc = T.b_or(rc, c)
            if acc is None:
                val, acc = v, s
            else:
                val = T.ite(c, v, val) if v is not None else None
                acc = self.merge([(s, c), (acc, T.b_not(c))])
        return val, acc, rc

    @staticmethod
    def possible(c):
        """some input satisfies the condition"""
        import cmp
        return cmp.Differ().diff(c, FALSE) is not None

    def succs(self, t):
        if t.op == "br":
            return [t.a[0]]
        if t.op == "condbr":
            return [t.a[1], t.a[2]]
        if t.op == "switch":
            return list(dict.fromkeys([t.a[1]] + [l for _, l in t.a[2]]))
        if t.op == "invoke":
            return [t.a[2], t.a[3]]
        return []

    def topo(self, entry, succ):
        state, order = {}, []
        cyc = False
        stack = [(entry, iter(succ[entry]))]
        state[entry] = 1
        while stack:
            b, it = stack[-1]
            nx = next(it, None)
            if nx is None:
                state[b] = 2
                order.append(b)
                stack.pop()
            elif state.get(nx) == 1:
                cyc = True
            elif nx not in state:
                state[nx] = 1
                stack.append((nx, iter(succ[nx])))
        order.reverse()
        return order, cyc

    def idoms(self, entry, order, preds):
        idx = {b: i for i, b in enumerate(order)}
        idom = {entry: entry}
        for b in order[1:]:
            d = None
            for p in preds[b]:
                if p not in idom:
                    continue
                if d is None:
                    d = p
                else:
                    x, y = p, d
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    d = x
            idom[b] = d
        return idom

    def merge(self, ins):
        if len(ins) == 1:
            return ins[0][0]
        out = State()
        fl = [s.flight for s, _ in ins]
        out.flight = fl[0] if all(f == fl[0] for f in fl) else "mixed:" + "|".join(sorted(str(f) for f in set(fl)))
        bases = []
        for s, _ in ins:
            for b in s.mem:
                if b not in bases:
                    bases.append(b)
        for b in bases:
            ds = [s.mem.get(b, {}) for s, _ in ins]
            keys = set()
            for d in ds:
                keys |= d.keys()
            res = {}
            diff = []
            for k in sorted(keys):
                r0 = ds[0].get(k)
                if all(d.get(k) == r0 for d in ds[1:]):
                    res[k] = r0
                else:
                    diff.append(k)
            i = 0
            while i < len(diff):
                j = i + 1
                while j < len(diff) and diff[j] == diff[j - 1] + 1 and not all(
                        d.get(diff[j]) is None or d[diff[j]][1] == 0 for d in ds):
                    j += 1
                lo, n = diff[i], diff[j - 1] + 1 - diff[i]
                p = T.ptr(b, lo)
                v = None
                sv, self.loads = self.loads, set()
                for (s, c) in reversed(ins):
                    x = self.load_bytes(s, p, n)
                    v = x if v is None else T.ite(c, x, v)
                self.loads = sv
                for q in range(n):
                    res[lo + q] = (v, q)
                i = j
            out.mem[b] = res
        return out

    # -------------------------------------------------------------- a block
    def event(self, cond, kind, detail, dbg):
        if cond != FALSE:
            self.events.append((cond, kind, detail, dbg))

    def block(self, fn, bname, insts, env, st, cond, ins, depth, uid):
        def val(tv):
            ty, v = tv
            if v[0] == "local":
                return env[v[1]]
            return self.const(ty, v)

        phis = []
        for I in insts:
            if I.op != "phi":
                break
            r = None
            pm = {}
            for v, lab in I.a:
                pm.setdefault(lab, v)
            for p, c in reversed(ins):
                x = val((I.ty, pm[p]))
                r = x if r is None else T.ite(c, x, r)
            phis.append((I.res, r))
        for k, v in phis:
            env[k] = v
        for I in insts[len(phis):]:
            self.ninst += 1
            op = I.op
            self.cur_dbg = I.dbg
            if op in ir.BINOPS:
                x, y = val(I.a[0]), val(I.a[1])
                if op == "sub" and x in self.p2i and y in self.p2i and T.is_wild(x) and T.is_wild(y):
                    r = T.pdiff(x, y)
                else:
                    r = T.binop(op, x, y)
                if "disjoint" in I.attrs and NODES[r][0] == "or":
                    r = T.binop("add", val(I.a[0]), val(I.a[1]))
            elif op == "load":
                n = (I.ty.n + 7) // 8 if I.ty.k == "int" else ir.sizeof(I.ty)
                p = val(I.a[0])
                x = self.load_bytes(st, p, n)
                r = self.typed(x, I.ty)
            elif op == "store":
                v = val(I.a[0])
                ty = I.a[0][0]
                if ty.k in ("struct", "arr"):
                    self.store_agg(st, val(I.a[1]), v, ty)
                else:
                    v = self.untyped(v, ty)
                    self.store_bytes(st, val(I.a[1]), v, (ty.n + 7) // 8 if ty.k == "int" else ir.sizeof(ty))
                continue
            elif op == "gep":
                r = self.gep(I.ty, [val(x) for x in I.a], I.a)
            elif op == "icmp":
                a, b = val(I.a[1]), val(I.a[2])
                if I.a[1][0].k == "vec":
                    r = T.vec([T.icmp(I.a[0], x, y) for x, y in zip(self.els(a, I.a[1][0]), self.els(b, I.a[1][0]))])
                elif I.a[1][0].k == "ptr":
                    r = T.pcmp(I.a[0], a, b)
                else:
                    r = T.icmp(I.a[0], a, b)
            elif op == "fcmp":
                a, b = val(I.a[1]), val(I.a[2])
                if I.a[1][0].k == "vec":
                    r = T.vec([T.fcmp(I.a[0], x, y) for x, y in zip(self.els(a, I.a[1][0]), self.els(b, I.a[1][0]))])
                else:
                    r = T.fcmp(I.a[0], a, b)
            elif op == "select":
                c, a, b = val(I.a[0]), val(I.a[1]), val(I.a[2])
                if I.a[0][0].k == "vec":
                    r = T.vec([T.ite(x, y, z) for x, y, z in zip(NODES[c][1:], self.els(a, I.ty), self.els(b, I.ty))])
                else:
                    r = T.ite(c, a, b)
            elif op == "fneg":
                a = val(I.a[0])
                r = T.vec([T.fneg(x) for x in self.els(a, I.ty)]) if I.ty.k == "vec" else T.fneg(a)
            elif op == "freeze":
                r = val(I.a[0])
            elif op in ir.CASTS:
                r = self.cast(op, val(I.a[0]), I.a[0][0], I.ty)
            elif op == "alloca":
                r = T.base("alloca", "%s.%d.%s" % (fn.name, uid, I.res))
            elif op == "extractelement":
                v, i = val(I.a[0]), val(I.a[1])
                if not T.is_c(i):
                    raise Unsupported("variable extractelement")
                r = self.els(v, I.a[0][0])[T.cval(i)]
            elif op == "insertelement":
                v, x, i = val(I.a[0]), val(I.a[1]), val(I.a[2])
                if not T.is_c(i):
                    raise Unsupported("variable insertelement")
                e = list(self.els(v, I.a[0][0]))
                e[T.cval(i)] = x
                r = T.vec(e)
            elif op == "shufflevector":
                a, b = self.els(val(I.a[0]), I.a[0][0]), self.els(val(I.a[1]), I.a[1][0])
                both = list(a) + list(b)
                m = val(I.a[2])
                out = []
                for x in NODES[m][1:]:
                    out.append(T.undef(WIDTH[both[0]]) if NODES[x][0] == "undef" else both[T.cval(x)])
                r = T.vec(out)
            elif op == "extractvalue":
                r = val(I.a[0])
                for i in I.a[1]:
                    if NODES[r][0] == "undef":
                        break
                    r = NODES[r][1 + i]
            elif op == "insertvalue":
                r = self.insv(val(I.a[0]), val(I.a[1]), I.a[2])
            elif op == "landingpad":
                r = T.agg([T.mk(("argv", "exc", 64), 64), self.selector(I.a[0], st.flight)])
            elif op == "ret":
                return ("ret", val(I.a[0]) if I.a else None)
            elif op == "br":
                return ("br", [(I.a[0], TRUE)])
            elif op == "condbr":
                c = val(I.a[0])
                return ("br", [(I.a[1], c), (I.a[2], T.b_not(c))])
            elif op == "switch":
                v = val(I.a[0])
                outs, rest = [], TRUE
                w = WIDTH[v]
                for k, lab in I.a[2]:
                    e = T.icmp("eq", v, C(w, k))
                    outs.append((lab, e))
                    rest = T.b_and(rest, T.b_not(e))
                outs.append((I.a[1], rest))
                return ("br", outs)
            elif op == "unreachable":
                self.event(cond, "unreachable", "", I.dbg)
                return ("stop",)
            elif op == "resume":
                self.leave(cond, st.flight or "?", I.dbg, st, depth)
                return ("stop",)
            elif op in ("call", "invoke"):
                res = self.call(I, val, st, cond, depth)
                if res[0] == "stop":
                    return ("stop",)
                if res[0] == "throw":
                    st.flight = res[1]
                    if op == "invoke":
                        return ("br", [(I.a[3], TRUE)])
                    self.leave(cond, res[1], I.dbg, st, depth)
                    return ("stop",)
                if res[0] == "split":
                    # the callee may throw: [(condition, exception, state, dbg)]
                    normal, thrown = res[2], res[3]
                    if op == "call":
                        for tc, fl, ts, dbg in thrown:
                            self.leave(tc, fl, dbg, ts, depth)
                        if normal is None:
                            return ("stop",)
                    else:
                        uc = FALSE
                        for tc, fl, ts, dbg in thrown:
                            uc = T.b_or(uc, tc)
                        us = self.merge([(ts, tc) for tc, fl, ts, dbg in thrown]).copy()
                        fls = {fl for tc, fl, ts, dbg in thrown}
                        us.flight = fls.pop() if len(fls) == 1 else "mixed:" + "|".join(sorted(fls))
                        if normal is None:
                            return ("br", [(I.a[3], TRUE)], {I.a[3]: us})
                        st.mem = normal.mem
                        if I.res is not None:
                            env[I.res] = res[1]
                        return ("br", [(I.a[2], T.b_not(uc)), (I.a[3], uc)], {I.a[3]: us})
                    st.mem = normal.mem
                    res = ("ok", res[1])
                if I.res is not None:
                    env[I.res] = res[1]
                    if I.dbg is not None:
                        self.locs.setdefault(res[1], I.dbg)
                if op == "invoke":
                    return ("br", [(I.a[2], TRUE)])
                continue
            else:
                raise Unsupported("instruction " + op)
            env[I.res] = r
            if I.dbg is not None:
                self.locs.setdefault(r, I.dbg)
        raise Unsupported("block without terminator")

    def insv(self, a, x, idx):
        e = list(NODES[a][1:])
        e[idx[0]] = x if len(idx) == 1 else self.insv(e[idx[0]], x, idx[1:])
        return T.agg(e)

    def els(self, v, ty):
        nd = NODES[v]
        if nd[0] == "vec":
            return nd[1:]
        if nd[0] == "ite" and ty.k == "vec":
            pass
        s = ir.sizeof(ty.el)
        return [self.typed(T.ext(v, i * s, s), ty.el) for i in range(ty.n)]

    def typed(self, x, ty):
        if ty.k == "vec":
            s = ir.sizeof(ty.el)
            return T.vec([self.typed(T.ext(x, i * s, s), ty.el) for i in range(ty.n)])
        if ty.k == "int" and ty.n != WIDTH[x]:
            return T.trunc(x, ty.n)
        if ty.k in ("struct", "arr"):
            out = []
            n = len(ty.el) if ty.k == "struct" else ty.n
            for i in range(n):
                t = ty.el[i] if ty.k == "struct" else ty.el
                o = ir.field_off(ty, i) if ty.k == "struct" else i * ir.sizeof(ty.el)
                out.append(self.typed(T.ext(x, o, ir.sizeof(t)), t))
            return T.agg(out)
        return x

    def untyped(self, v, ty):
        n = ir.sizeof(ty)
        if ty.k == "vec":
            return T.cat([self.untyped(e, ty.el) for e in NODES[v][1:]]) if NODES[v][0] == "vec" else v
        if WIDTH[v] != 8 * n:
            if WIDTH[v] > 8 * n:
                raise Unsupported("store width")
            if NODES[v][0] == "undef":
                return T.undef(8 * n)
            return T.zext(v, 8 * n)
        return v

    def store_agg(self, st, p, v, ty):
        n = len(ty.el) if ty.k == "struct" else ty.n
        for i in range(n):
            t = ty.el[i] if ty.k == "struct" else ty.el
            o = ir.field_off(ty, i) if ty.k == "struct" else i * ir.sizeof(ty.el)
            q = T.gep(p, o, ())
            x = NODES[v][1 + i] if NODES[v][0] == "agg" else T.ext(v, o, ir.sizeof(t))
            if t.k in ("struct", "arr"):
                self.store_agg(st, q, x, t)
            else:
                self.store_bytes(st, q, self.untyped(x, t), ir.sizeof(t))

    def cast(self, op, x, fr, to):
        if fr.k == "vec" and to.k == "vec" and fr.n == to.n and op != "bitcast":
            return T.vec([self.cast(op, e, fr.el, to.el) for e in self.els(x, fr)])
        if op == "bitcast":
            if fr.k == "vec" or to.k == "vec":
                y = self.untyped(x, fr) if fr.k == "vec" and fr.el.n >= 8 else x
                if fr.k == "vec" and fr.el.n == 1:
                    # <n x i1> -> iN
                    es = self.els(x, fr)
                    r = C(to.n, 0)
                    for i, e in enumerate(es):
                        r = T.binop("or", r, T.ite(e, C(to.n, 1 << i), C(to.n, 0)))
                    return r
                return self.typed(y, to)
            return x
        if op in ("inttoptr", "ptrtoint", "addrspacecast"):
            w = 64 if to.k == "ptr" else to.n
            if op == "ptrtoint":
                self.p2i.add(x)
            return T.trunc(x, w) if w < WIDTH[x] else T.zext(x, w)
        if op == "trunc":
            return T.trunc(x, to.n)
        if op == "zext":
            return T.zext(x, to.n)
        if op == "sext":
            return T.sext(x, to.n)
        return T.unop(op, x, to.n)

    # -------------------------------------------------------------- calls
    def call(self, I, val, st, cond, depth):
        callee, args = I.a[0], I.a[1]
        dbg = I.dbg
        if callee[0] != "global":
            raise Unsupported("indirect call")
        name = callee[1]
        if IGNORE.match(name):
            return ("ok", C(64, 0))
        self.calls.add(name)
        lm = libm(name)
        if lm:
            ty = I.ty
            a = [val(x) for x in args]
            if name.startswith("llvm.") and ty.k == "vec":
                xs = [self.els(v, t[0]) if t[0].k == "vec" else [v] * ty.n for v, t in zip(a, args)]
                return ("ok", T.vec([T.call(lm, ty.el.n, tuple(z)) for z in zip(*xs)]))
            return ("ok", T.call(lm, ty.n, tuple(a)))
        if name.startswith("llvm."):
            return self.intrinsic(name, I, val, st, cond)
        if name in ("__assert_fail", "__assert", "_ZSt21__glibcxx_assert_failPKciS0_S0_"):
            self.event(cond, "assert", self.strarg(args[0] if name == "__assert_fail" else args[-1], val), dbg)
            return ("stop",)
        if name == "__spec_outside":
            self.event(cond, "outside", "", dbg)
            return ("stop",)
        if name in ("__clang_call_terminate", "_ZSt9terminatev", "abort", "_Exit", "exit", "_ZSt10unexpectedv"):
            self.event(cond, "terminate", (st.flight or name), dbg)
            return ("stop",)
        if name == "__cxa_allocate_exception":
            self.uid += 1
            return ("ok", T.base("alloca", "exc%d" % self.uid))
        if EXC_CTOR.match(name) or re.match(r"^_ZNSt(\d+)([a-z_]+)D[12]Ev$", name) or name in (
                "__cxa_free_exception", "__cxa_end_catch"):
            return ("ok", C(64, 0))
        if name == "__cxa_begin_catch":
            return ("ok", C(64, 0))
        if name == "__cxa_throw":
            ti = args[1][1]
            return ("throw", self.tiname(ti))
        if name == "__cxa_rethrow":
            return ("throw", st.flight or "?")
        m = re.match(r"^_ZSt\d+__throw_([a-z_]+)", name)
        if m:
            return ("throw", "std::" + re.sub(r"(_fmt)?P?K?c?z?$", "", m.group(1)))
        if name in ("frexp", "frexpf", "modf", "modff"):
            w = I.ty.n
            x, p = val(args[0]), val(args[1])
            n = name.rstrip("f") if name != "modff" and name != "modf" else "modf"
            n = "frexp" if name.startswith("frexp") else "modf"
            ow = 32 if n == "frexp" else w
            self.store_bytes(st, p, T.mk(("call", n + ".out", x), ow), ow // 8)
            return ("ok", T.mk(("call", n, x), w))
        if name in ("memcpy", "memmove"):
            d, s, n = (val(x) for x in args[:3])
            self.copy(st, d, s, n)
            return ("ok", d)
        if name in ("memcmp", "bcmp") and T.is_c(val(args[2])):
            d, s, n = (val(x) for x in args[:3])
            n = T.cval(n)
            return ("ok", T.mk(("opq", "memcmp", 32, self.load_bytes(st, d, n), self.load_bytes(st, s, n)), 32))
        if name in ("__fpclassifyf", "__fpclassify", "__signbit", "__signbitf", "__isnan", "__isinf"):
            return ("ok", T.mk(("opq", name, 32, val(args[0])), 32))
        if name in self.mod.funcs:
            fn = self.mod.funcs[name].parse()
            mark = len(self.thrown)
            r, s2, rc = self.exec_fn(fn, [val(x) for x in args], st.copy(), cond, depth + 1)
            thrown, self.thrown[mark:] = self.thrown[mark:], []
            if thrown:
                return ("split", r if r is not None else C(64, 0), s2, thrown)
            if s2 is None:
                return ("stop",)
            st.mem = s2.mem
            return ("ok", r if r is not None else C(64, 0))
        raise Unsupported("call to " + name)

    def strarg(self, a, val):
        try:
            v = val(a)
            b, off, sym = T.addr_of(v)
            g = self.global_bytes(NODES[b][2])
            return bytes(g[off:]).split(b"\0")[0].decode("latin1")
        except Exception:
            return "?"

    def tiname(self, v):
        if v[0] == "global":
            n = v[1]
            m = re.match(r"^_ZTISt(\d+)([a-z_]+)$", n)
            if m:
                return "std::" + m.group(2)
            return n
        return "?"

    def copy(self, st, d, s, n):
        if not T.is_c(n):
            raise Unsupported("memcpy of symbolic length")
        n = T.cval(n)
        if n == 0:
            return
        if NODES[s][0] == "ite" or NODES[d][0] == "ite":
            v = self.load_bytes(st, s, n)
            self.store_bytes(st, d, v, n)
            return
        b, off, sym = T.addr_of(s)
        if sym:
            raise Unsupported("memcpy from symbolic address")
        src = st.mem.get(b, {})
        self.loads.add((b, off, n))
        # keep cell granularity
        db, doff, dsym = T.addr_of(d)
        if dsym:
            raise Unsupported("memcpy to symbolic address")
        self.stores.add((db, doff, n, self.cur_dbg))
        v = self.load_bytes(st, s, n)
        refs = []
        for i in range(n):
            r = src.get(off + i)
            refs.append(r)
        dd = st.mem.setdefault(db, {})
        for i in range(n):
            dd[doff + i] = refs[i] if refs[i] is not None else (v, i)

    def intrinsic(self, name, I, val, st, cond):
        b = name[5:].split(".")
        n = b[0]
        args = I.a[1]
        if n in ("memcpy", "memmove"):
            d, s, k = (val(x) for x in args[:3])
            self.copy(st, d, s, k)
            return ("ok", C(64, 0))
        if n == "memset":
            d, v, k = (val(x) for x in args[:3])
            if not T.is_c(k):
                raise Unsupported("memset of symbolic length")
            for i in range(T.cval(k)):
                self.store_bytes(st, T.gep(d, i, ()), v, 1)
            return ("ok", C(64, 0))
        if n == "trap":
            self.event(cond, "terminate", "trap", I.dbg)
            return ("stop",)
        ty = I.ty
        a = [val(x) for x in args]

        def lanes(f):
            if ty.k == "vec":
                xs = [self.els(v, t[0]) if t[0].k == "vec" else [v] * ty.n for v, t in zip(a, args)]
                return T.vec([f(*z) for z in zip(*xs)])
            return f(*a)
        if n in ("smin", "smax", "umin", "umax"):
            p = {"smin": "slt", "smax": "sgt", "umin": "ult", "umax": "ugt"}[n]
            return ("ok", lanes(lambda x, y: T.ite(T.icmp(p, x, y), x, y)))
        if n == "abs":
            return ("ok", lanes(lambda x, _=None: T.ite(T.icmp("slt", x, C(WIDTH[x], 0)),
                                                      T.binop("sub", C(WIDTH[x], 0), x), x)))
        if n == "bswap":
            return ("ok", lanes(lambda x: T.cat([T.ext(x, i, 1) for i in reversed(range(WIDTH[x] // 8))])))
        if n == "is" and b[1] == "fpclass":
            return ("ok", lanes(lambda x, m: self.fpclass(x, T.cval(m))))
        if n == "expect":
            return ("ok", a[0])
        if n == "fmuladd":
            return ("ok", lanes(lambda x, y, z: T.binop("fadd", T.binop("fmul", x, y), z)))
        if n == "objectsize":
            return ("ok", C(ty.n, -1))
        if n == "eh":
            return ("ok", self.tid(self.tiname(args[0][1])))
        if n == "vector" and b[1] == "reduce":
            es = self.els(a[-1], args[-1][0])
            k = b[2]
            r = es[0]
            for e in es[1:]:
                if k in ("add", "mul", "and", "or", "xor"):
                    r = T.binop(k, r, e)
                elif k in ("smin", "smax", "umin", "umax"):
                    p = {"smin": "slt", "smax": "sgt", "umin": "ult", "umax": "ugt"}[k]
                    r = T.ite(T.icmp(p, r, e), r, e)
                else:
                    raise Unsupported(name)
            return ("ok", r)
        if n in ("ctpop", "ctlz", "cttz", "bitreverse", "fshl", "fshr", "usub", "uadd", "sadd", "ssub") and b[1] != "with":
            if n in ("fshl", "fshr"):
                return ("ok", lanes(lambda *z: T.funnel(n, *z)))
            return ("ok", lanes(lambda *z: T.mk(("opq", n, WIDTH[z[0]]) + z, WIDTH[z[0]])))
        if n in ("frexp",):
            x = a[0]
            return ("ok", T.agg([T.mk(("call", "frexp", x), WIDTH[x]), T.mk(("call", "frexp.out", x), 32)]))
        if n == "sincos":
            pass
        if n in ("usub", "uadd", "umul", "sadd", "ssub", "smul"):
            o = {"sub": "sub", "add": "add", "mul": "mul"}[n[1:]]
            return ("ok", T.agg([T.binop(o, a[0], a[1]), T.mk(("opq", n + "ov", 1, a[0], a[1]), 1)]))
        if n in ("scmp", "ucmp"):
            p = n[0]
            return ("ok", T.ite(T.icmp(p + "lt", a[0], a[1]), C(ty.n, -1), T.ite(T.icmp("eq", a[0], a[1]), C(ty.n, 0), C(ty.n, 1))))
        raise Unsupported("intrinsic " + name)

    def fpclass(self, x, m):
        w = WIDTH[x]
        inf = C(w, 0x7f800000 if w == 32 else 0x7ff0000000000000)
        mn = C(w, 0x00800000 if w == 32 else 0x0010000000000000)
        Z = C(w, 0)
        neg = T.icmp("slt", x, Z)
        nan = T.isnan(x)
        ax = T.fabs_(x)
        isinf = T.fcmp("oeq", ax, inf)
        zero = T.fcmp("oeq", x, Z)
        sub = T.b_and(T.fcmp("olt", ax, mn), T.b_not(zero))
        nor = T.b_and(T.fcmp("oge", ax, mn), T.fcmp("olt", ax, inf))
        r = FALSE
        if m & 3 == 3:
            r = nan
        elif m & 3:
            raise Unsupported("fpclass qnan/snan")
        for bit_neg, bit_pos, c in ((2, 9, isinf), (3, 8, nor), (4, 7, sub), (5, 6, zero)):
            bn, bp = m >> bit_neg & 1, m >> bit_pos & 1
            if bn and bp:
                r = T.b_or(r, c)
            elif bn:
                r = T.b_or(r, T.b_and(c, neg))
            elif bp:
                r = T.b_or(r, T.b_and(c, T.b_not(neg)))
        return r
