"""Parser for the textual LLVM IR that clang-18 emits (the subset that C++ code produces).

Functions are split eagerly and parsed lazily.  Nothing is executed: the result is a
type-resolved syntax tree of the compiler's intermediate representation.
"""
import re
import struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name")

    def __init__(self, k, n=0, el=None, name=None):
        self.k, self.n, self.el, self.name = k, n, el, name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k in ("arr", "vec"):
            return "%s[%d x %r]" % (self.k, self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.el or []))
        return self.name or self.k


I1, I8, I16, I32, I64 = (Ty("int", n) for n in (1, 8, 16, 32, 64))
F32 = Ty("fp", 32, name="float")
F64 = Ty("fp", 64, name="double")
F80 = Ty("fp", 80, name="x86_fp80")
PTR = Ty("ptr")
VOID = Ty("void")
LABEL = Ty("label")
META = Ty("metadata")
TOKEN = Ty("token")

TOK = re.compile(
    r'''c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"'''
    r'''|[%@$](?:"[^"]*"|[-a-zA-Z$._0-9]+)'''
    r'''|"(?:[^"\\]|\\.)*"'''
    r'''|!(?:"[^"]*"|[-a-zA-Z$._0-9]*)'''
    r'''|\#\d+'''
    r'''|\.\.\.'''
    r'''|0x[KLMHR]?[0-9A-Fa-f]+'''
    r'''|-?\d+\.\d+(?:e[+-]?\d+)?'''
    r'''|-?\d+'''
    r'''|[a-zA-Z_][a-zA-Z_0-9.]*'''
    r'''|[()\[\]{}<>,=*:]'''
)


def tokenize(s):
    return TOK.findall(s)


class Cur:
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError("expected %r at %r" % (s, self.t[max(0, self.i - 3):self.i + 6]))

    def more(self):
        return self.i < len(self.t)


def parse_type(c):
    t = c.next()
    if re.fullmatch(r"i\d+", t):
        ty = Ty("int", int(t[1:]))
    elif t == "float":
        ty = F32
    elif t == "double":
        ty = F64
    elif t == "x86_fp80":
        ty = F80
    elif t == "ptr":
        if c.accept("addrspace"):
            c.expect("("), c.next(), c.expect(")")
        ty = PTR
    elif t == "void":
        ty = VOID
    elif t == "label":
        ty = LABEL
    elif t == "metadata":
        ty = META
    elif t == "token":
        ty = TOKEN
    elif t == "[":
        n = int(c.next())
        c.expect("x")
        el = parse_type(c)
        c.expect("]")
        ty = Ty("arr", n, el)
    elif t == "<":
        if c.peek() == "{":
            c.next()
            els = []
            while not c.accept("}"):
                els.append(parse_type(c))
                c.accept(",")
            c.expect(">")
            ty = Ty("struct", 1, els)  # packed
        else:
            n = int(c.next())
            c.expect("x")
            el = parse_type(c)
            c.expect(">")
            ty = Ty("vec", n, el)
    elif t == "{":
        els = []
        while not c.accept("}"):
            els.append(parse_type(c))
            c.accept(",")
        ty = Ty("struct", 0, els)
    elif t[0] == "%":
        ty = c.mod.named(t)
    elif t == "opaque":
        ty = Ty("opaque")
    else:
        raise IRError("type? %r in %r" % (t, c.t[:12]))
    if c.peek() == "(" and False:
        pass
    return ty


def size_align(ty):
    k = ty.k
    if k == "int":
        b = max(1, (ty.n + 7) // 8)
        # round up to power of two
        s = 1
        while s < b:
            s *= 2
        return s, min(s, 16)
    if k == "fp":
        return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[ty.n]
    if k == "ptr":
        return 8, 8
    if k == "arr":
        s, a = size_align(ty.el)
        return s * ty.n, a
    if k == "vec":
        s, a = size_align(ty.el)
        if ty.el.k == "int" and ty.el.n == 1:
            s8 = (ty.n + 7) // 8
            return s8, s8
        t = s * ty.n
        p = 1
        while p < t:
            p *= 2
        return p, p
    if k == "struct":
        off, al = 0, 1
        for e in ty.el:
            s, a = size_align(e)
            if ty.n:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise IRError("size of %r" % ty)


def sizeof(ty):
    return size_align(ty)[0]


def field_off(ty, i):
    off = 0
    for j, e in enumerate(ty.el):
        s, a = size_align(e)
        if ty.n:
            a = 1
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s
    raise IRError("field")


# ---------------------------------------------------------------- operands
# ('local', name) ('global', name) ('int', v) ('fp', bits) ('null',) ('undef',) ('zero',)
# ('agg', [(ty, val)...]) ('str', bytes) ('cexpr', op, ...)
def hexfp_bits(tok, ty):
    if tok.startswith("0xK"):
        return int(tok[3:], 16)
    v = int(tok[2:], 16)
    if ty.n == 64:
        return v
    d = struct.unpack("<d", struct.pack("<Q", v))[0]
    if d != d:
        # NaN: keep sign and top payload bits
        s = v >> 63
        return (s << 31) | 0x7F800000 | ((v >> 29) & 0x7FFFFF)
    return struct.unpack("<I", struct.pack("<f", d))[0]


def parse_value(c, ty):
    t = c.next()
    ch = t[0]
    if ch == "%":
        return ("local", t[1:].strip('"'))
    if ch == "@":
        return ("global", t[1:].strip('"'))
    if t == "true":
        return ("int", 1)
    if t == "false":
        return ("int", 0)
    if t == "null":
        return ("null",)
    if t in ("undef", "poison"):
        return ("undef",)
    if t == "zeroinitializer":
        return ("zero",)
    if t == "none":
        return ("undef",)
    if ch == "c" and t[1:2] == '"':
        s = t[2:-1]
        out, i = bytearray(), 0
        while i < len(s):
            if s[i] == "\\":
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return ("str", bytes(out))
    if ty.k == "fp":
        if t.startswith("0x"):
            return ("fp", hexfp_bits(t, ty))
        v = float(t)
        if ty.n == 32:
            return ("fp", struct.unpack("<I", struct.pack("<f", v))[0])
        if ty.n == 64:
            return ("fp", struct.unpack("<Q", struct.pack("<d", v))[0])
        raise IRError("fp const " + t)
    if re.fullmatch(r"-?\d+", t):
        return ("int", int(t))
    if t in ("[", "{", "<"):
        if t == "<" and c.peek() == "{":
            c.next()
            els = parse_elems(c, "}")
            c.expect(">")
            return ("agg", els)
        close = {"[": "]", "{": "}", "<": ">"}[t]
        return ("agg", parse_elems(c, close))
    if t == "getelementptr":
        while c.peek() in ("inbounds", "nuw", "nusw"):
            c.next()
        if c.peek() == "inrange":
            c.next()
        c.expect("(")
        bt = parse_type(c)
        c.expect(",")
        ops = []
        while True:
            c.accept("inrange")
            t2 = parse_type(c)
            ops.append((t2, parse_value(c, t2)))
            if not c.accept(","):
                break
        c.expect(")")
        return ("cexpr", "gep", bt, ops)
    if t in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
        c.expect("(")
        t2 = parse_type(c)
        v = parse_value(c, t2)
        c.expect("to")
        t3 = parse_type(c)
        c.expect(")")
        return ("cexpr", t, (t2, v), t3)
    if t in ("add", "sub", "mul", "icmp", "and", "or", "xor", "shl", "lshr"):
        while c.peek() in ("nuw", "nsw", "eq", "ne", "ult", "ugt"):
            c.next()
        c.expect("(")
        t2 = parse_type(c)
        v = parse_value(c, t2)
        c.expect(",")
        t3 = parse_type(c)
        v3 = parse_value(c, t3)
        c.expect(")")
        return ("cexpr", t, (t2, v), (t3, v3))
    raise IRError("value? %r in %r" % (t, c.t))


def parse_elems(c, close):
    els = []
    while not c.accept(close):
        t2 = parse_type(c)
        els.append((t2, parse_value(c, t2)))
        c.accept(",")
    return els


ATTR_WORDS = {
    "noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly",
    "writeonly", "readnone", "returned", "immarg", "nofree", "nest", "swiftself", "noext",
    "allocptr", "allocalign", "writable", "dead_on_unwind", "nofpclass",
}


def skip_attrs(c):
    """skip parameter/return attributes; returns dict of interesting ones"""
    out = {}
    while c.more():
        t = c.peek()
        if t in ATTR_WORDS:
            c.next()
            out[t] = True
            if c.peek() == "(":
                skip_paren(c)
        elif t == "align":
            c.next()
            c.next()
        elif t in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype",
                   "memory", "range", "captures", "initializes", "preallocated", "inalloca"):
            c.next()
            out[t] = True
            if c.peek() == "(":
                skip_paren(c)
        elif t.startswith("#"):
            c.next()
        elif t.startswith('"'):
            c.next()
            if c.accept("="):
                c.next()
        else:
            break
    return out


def skip_paren(c):
    c.expect("(")
    d = 1
    while d:
        t = c.next()
        if t == "(":
            d += 1
        elif t == ")":
            d -= 1


class Inst:
    __slots__ = ("res", "op", "ty", "a", "dbg", "attrs")

    def __init__(self, res, op, ty, a, dbg):
        self.res, self.op, self.ty, self.a, self.dbg = res, op, ty, a, dbg
        self.attrs = ()

    def __repr__(self):
        return "%s = %s %r %r" % (self.res, self.op, self.ty, self.a)


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint",
         "nneg", "inbounds", "volatile", "atomic", "samesign", "nusw"}
CASTS = {"trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast",
         "ptrtoint", "inttoptr", "addrspacecast"}
CALLCONV = {"fastcc", "coldcc", "ccc", "tailcc", "noinline", "nounwind"}


def typed(c):
    t = parse_type(c)
    skip_attrs(c)
    return (t, parse_value(c, t))


def parse_inst(line, mod):
    dbg = None
    m = re.search(r", !dbg !(\d+)", line)
    if m:
        dbg = int(m.group(1))
    # strip trailing metadata
    k = line.find(", !")
    if k >= 0 and not line.lstrip().startswith("call void @llvm.dbg"):
        line = line[:k]
    c = Cur(tokenize(line), mod)
    res = None
    if c.peek(1) == "=" and c.peek()[0] == "%":
        res = c.next()[1:].strip('"')
        c.next()
    op = c.next()
    if op in ("tail", "musttail", "notail"):
        op = c.next()
    flags = []
    while c.peek() in FLAGS and op not in ("call",):
        flags.append(c.next())
    if op in BINOPS:
        t = parse_type(c)
        a = parse_value(c, t)
        c.expect(",")
        b = parse_value(c, t)
        i = Inst(res, op, t, [(t, a), (t, b)], dbg)
        i.attrs = tuple(flags)
        return i
    if op == "fneg" or op == "freeze":
        t = parse_type(c)
        return Inst(res, op, t, [(t, parse_value(c, t))], dbg)
    if op in ("icmp", "fcmp"):
        while c.peek() in FLAGS:
            c.next()
        pred = c.next()
        t = parse_type(c)
        a = parse_value(c, t)
        c.expect(",")
        b = parse_value(c, t)
        return Inst(res, op, I1 if t.k != "vec" else Ty("vec", t.n, I1), [pred, (t, a), (t, b)], dbg)
    if op == "select":
        a = typed(c)
        c.expect(",")
        b = typed(c)
        c.expect(",")
        d = typed(c)
        return Inst(res, op, b[0], [a, b, d], dbg)
    if op == "phi":
        t = parse_type(c)
        inc = []
        while True:
            c.expect("[")
            v = parse_value(c, t)
            c.expect(",")
            lab = c.next()[1:].strip('"')
            c.expect("]")
            inc.append((v, lab))
            if not c.accept(","):
                break
        return Inst(res, op, t, inc, dbg)
    if op == "br":
        if c.peek() == "label":
            c.next()
            return Inst(None, "br", None, [c.next()[1:].strip('"')], dbg)
        cond = typed(c)
        c.expect(",")
        c.expect("label")
        a = c.next()[1:].strip('"')
        c.expect(",")
        c.expect("label")
        b = c.next()[1:].strip('"')
        return Inst(None, "condbr", None, [cond, a, b], dbg)
    if op == "switch":
        v = typed(c)
        c.expect(",")
        c.expect("label")
        d = c.next()[1:].strip('"')
        c.expect("[")
        cases = []
        while not c.accept("]"):
            t2 = parse_type(c)
            vv = parse_value(c, t2)
            c.expect(",")
            c.expect("label")
            cases.append((vv[1], c.next()[1:].strip('"')))
        return Inst(None, "switch", None, [v, d, cases], dbg)
    if op == "ret":
        t = parse_type(c)
        if t.k == "void":
            return Inst(None, "ret", t, [], dbg)
        return Inst(None, "ret", t, [(t, parse_value(c, t))], dbg)
    if op == "unreachable":
        return Inst(None, op, None, [], dbg)
    if op == "resume":
        return Inst(None, op, None, [typed(c)], dbg)
    if op == "alloca":
        t = parse_type(c)
        n = None
        if c.accept(","):
            if c.peek() != "align":
                n = typed(c)
        return Inst(res, op, t, [n], dbg)
    if op == "load":
        t = parse_type(c)
        c.expect(",")
        p = typed(c)
        i = Inst(res, op, t, [p], dbg)
        i.attrs = tuple(flags)
        return i
    if op == "store":
        v = typed(c)
        c.expect(",")
        p = typed(c)
        i = Inst(None, op, v[0], [v, p], dbg)
        i.attrs = tuple(flags)
        return i
    if op == "getelementptr":
        while c.peek() in FLAGS:
            c.next()
        t = parse_type(c)
        ops = []
        while c.accept(","):
            ops.append(typed(c))
        return Inst(res, "gep", t, ops, dbg)
    if op in CASTS:
        a = typed(c)
        c.expect("to")
        t = parse_type(c)
        return Inst(res, op, t, [a], dbg)
    if op in ("call", "invoke"):
        while c.peek() in FLAGS or c.peek() in CALLCONV or c.peek() in ("unnamed_addr",):
            c.next()
        skip_attrs(c)
        t = parse_type(c)
        if c.peek() == "(":       # function type given explicitly (varargs)
            skip_paren(c)
        callee = parse_value(c, PTR)
        c.expect("(")
        args = []
        while not c.accept(")"):
            if c.peek() == "metadata":
                # dbg intrinsics: skip all
                d = 1
                while d:
                    x = c.next()
                    d += (x == "(") - (x == ")")
                break
            args.append(typed(c))
            c.accept(",")
        skip_attrs(c)
        i = Inst(res, op, t, [callee, args], dbg)
        if op == "invoke":
            while c.peek() != "to":
                c.next()
            c.expect("to")
            c.expect("label")
            nl = c.next()[1:].strip('"')
            c.expect("unwind")
            c.expect("label")
            i.a += [nl, c.next()[1:].strip('"')]
        return i
    if op == "extractvalue":
        a = typed(c)
        idx = []
        while c.accept(","):
            idx.append(int(c.next()))
        return Inst(res, op, None, [a, idx], dbg)
    if op == "insertvalue":
        a = typed(c)
        c.expect(",")
        b = typed(c)
        idx = []
        while c.accept(","):
            idx.append(int(c.next()))
        return Inst(res, op, a[0], [a, b, idx], dbg)
    if op == "extractelement":
        a = typed(c)
        c.expect(",")
        return Inst(res, op, a[0].el, [a, typed(c)], dbg)
    if op == "insertelement":
        a = typed(c)
        c.expect(",")
        b = typed(c)
        c.expect(",")
        return Inst(res, op, a[0], [a, b, typed(c)], dbg)
    if op == "shufflevector":
        a = typed(c)
        c.expect(",")
        b = typed(c)
        c.expect(",")
        m_ = typed(c)
        return Inst(res, op, Ty("vec", m_[0].n, a[0].el), [a, b, m_], dbg)
    if op == "landingpad":
        t = parse_type(c)
        clauses = []
        while c.more():
            clauses.append(c.next())
        return Inst(res, op, t, [clauses], dbg)
    if op in ("atomicrmw", "cmpxchg", "fence", "va_arg", "indirectbr", "callbr"):
        return Inst(res, op, VOID, [], dbg)
    raise IRError("inst? " + line)


class Func:
    def __init__(self, mod, name, header, body, line0):
        self.mod, self.name, self.header, self.body_lines = mod, name, header, body
        self.blocks = None
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        hdr = self.header
        # args
        at = hdr.index("@")
        c = Cur(tokenize(hdr), self.mod)
        # find the function name token
        while not c.peek().startswith("@"):
            c.next()
        # return type is the token run before; recompute
        toks = c.t
        pre = toks[1:c.i]
        c2 = Cur(pre, self.mod)
        KW = {"dso_local", "internal", "linkonce_odr", "weak_odr", "weak", "private", "available_externally", "hidden",
              "protected", "default", "unnamed_addr", "local_unnamed_addr", "external", "linkonce", "fastcc", "coldcc"}
        while c2.peek() in KW:
            c2.next()
        self.retattrs = skip_attrs(c2)
        while c2.peek() in KW:
            c2.next()
        self.rty = parse_type(c2)
        c.next()
        c.expect("(")
        self.args = []
        n = 0
        while not c.accept(")"):
            if c.peek() == "...":
                c.next()
                continue
            t = parse_type(c)
            at = skip_attrs(c)
            if c.peek() and c.peek().startswith("%"):
                nm = c.next()[1:].strip('"')
            else:
                nm = str(n)
            n += 1
            self.args.append((t, nm, at))
            c.accept(",")
        rest = c.t[c.i:]
        self.fnattrs = rest
        blocks = []
        cur = None
        entry_name = None
        buf = None
        for ln in self.body_lines:
            s = ln.strip()
            if not s or s[0] == ";":
                continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(" "):
                cur = (m.group(1).strip('"'), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = (str(len(self.args)) if all(a[1].isdigit() for a in self.args) else "entry", [])
                blocks.append(cur)
            # multi-line constructs: switch cases and landingpad clauses
            if buf is not None:
                buf += " " + s
                if buf_end(buf):
                    cur[1].append(parse_inst(buf, self.mod))
                    buf = None
                continue
            if s.startswith("switch ") and not s.rstrip().endswith("]") and "], !" not in s:
                buf = s
                continue
            if s.startswith(("catch ", "filter ", "cleanup")):
                cur[1][-1].a[0] += tokenize(s)
                continue
            if s.startswith(("to label", )):
                # continuation of invoke
                prev = cur[1].pop()
                cur[1].append(parse_inst(prev + " " + s, self.mod))
                continue
            if re.match(r"(%\S+ = )?invoke ", s) and "to label" not in s:
                cur[1].append(s)
                continue
            cur[1].append(parse_inst(s, self.mod))
        self.blocks = blocks
        self.bmap = dict(blocks)
        return self


def buf_end(b):
    return b.rstrip().endswith("]") or "], !" in b


class Module:
    def __init__(self, path):
        self.path = path
        self.types_src, self.types = {}, {}
        self.funcs, self.decls, self.globals_src, self.globals = {}, {}, {}, {}
        self.meta_src = {}
        with open(path) as f:
            lines = f.read().split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln).group(1).strip('"')
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.funcs[nm] = Func(self, nm, ln[:ln.rindex("{")] if "{" in ln else ln, lines[i + 1:j], i + 1)
                i = j + 1
                continue
            if ln.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith("%"):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                self.types_src[m.group(1)] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.globals_src[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith("!"):
                m = re.match(r"^!(\d+) = (?:distinct )?(.*)$", ln)
                if m:
                    self.meta_src[int(m.group(1))] = m.group(2)
            i += 1

    def named(self, t):
        if t in self.types:
            return self.types[t]
        ty = Ty("struct", 0, None, t)
        self.types[t] = ty
        src = self.types_src.get(t)
        if src is None or src == "opaque":
            ty.k = "opaque"
            return ty
        p = parse_type(Cur(tokenize(src), self))
        ty.k, ty.n, ty.el = p.k, p.n, p.el
        return ty

    def global_info(self, name):
        """-> (is_constant, type, init or None, linkage-text)"""
        if name in self.globals:
            return self.globals[name]
        src = self.globals_src.get(name)
        if src is None:
            return None
        c = Cur(tokenize(re.sub(r", !dbg !\d+", "", src)), self)
        quals = []
        while c.peek() not in ("global", "constant") and c.more():
            quals.append(c.next())
        if not c.more():
            self.globals[name] = (False, None, None, quals)
            return self.globals[name]
        const = c.next() == "constant"
        ty = parse_type(c)
        init = None
        if "external" not in quals and c.more():
            try:
                init = parse_value(c, ty)
            except Exception:
                init = None
        self.globals[name] = (const, ty, init, quals)
        return self.globals[name]

    # ---- debug locations
    def loc_chain(self, dbg):
        """[(file-basename, line, function)] innermost first"""
        out = []
        seen = 0
        while dbg is not None and seen < 60:
            s = self.meta_src.get(dbg, "")
            m = re.search(r"line: (\d+)", s)
            line = int(m.group(1)) if m else 0
            sc = re.search(r"scope: !(\d+)", s)
            fn, fl = self._scope(int(sc.group(1))) if sc else ("?", "?")
            out.append((fl, line, fn))
            ia = re.search(r"inlinedAt: !(\d+)", s)
            dbg = int(ia.group(1)) if ia else None
            seen += 1
        return out

    def _scope(self, n):
        fl = None
        for _ in range(40):
            s = self.meta_src.get(n, "")
            if fl is None:
                f = re.search(r"file: !(\d+)", s)
                if f:
                    fs = self.meta_src.get(int(f.group(1)), "")
                    m = re.search(r'filename: "([^"]*)"', fs)
                    fl = m.group(1) if m else "?"
            if s.startswith("!DISubprogram"):
                m = re.search(r'name: "([^"]*)"', s)
                return (m.group(1) if m else "?"), fl
            sc = re.search(r"scope: !(\d+)", s)
            if not sc:
                return "?", fl
            n = int(sc.group(1))
        return "?", fl
