"""Check framework: generate driver translation units over /repo's headers, lower them to
LLVM IR with clang, value-number implementation and reference side by side, report."""
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next(p for p in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++", "clang++-18", "clang++") if shutil.which(p))
DEADLINE = int(os.environ.get("VERIF_DEADLINE", "780"))
CASE_SECONDS = int(os.environ.get("VERIF_CASE_SECONDS", "150"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

BASEFLAGS = ["-std=gnu++20", "-I" + REPO + "/include", "-w", "-fno-caret-diagnostics", "-ferror-limit=0",
             "-ftemplate-backtrace-limit=0", "-fconstexpr-steps=100000000"]
IRFLAGS = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-fno-strict-aliasing",
           "-fno-finite-loops", "-mllvm", "-unroll-threshold=20000", "-mllvm", "-unroll-max-count=512",
           "-gline-tables-only", "-fno-ident", "-S", "-emit-llvm"]
CONSTEVAL = ["-D__builtin_is_constant_evaluated()=true"]
# the answer is left open: "twin" obligations bind it to yes and to no and compare
CONSTOPEN = ["-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "ce.h"),
             "-D__builtin_is_constant_evaluated()=(__builtin_is_constant_evaluated() || verif_ce)"]
NOASSERT = ["-DDSGA_DISABLE_ASSERTS", "-DCXCM_DISABLE_ASSERTS"]

PRELUDE = r'''
#include "dsga.hxx"
#include <cmath>
#include <algorithm>
#include <bit>
using namespace dsga;
#define W extern "C" __attribute__((flatten))
extern "C" void __assert_fail(const char*, const char*, unsigned int, const char*) noexcept(true) __attribute__((noreturn));
extern "C" void __spec_outside() noexcept(true) __attribute__((noreturn));
#define PRE(c) do { if (!(c)) __spec_outside(); } while (0)
#define NEED(c) do { if (!(c)) __assert_fail("spec", "spec", 0u, "spec"); } while (0)
typedef long long ll; typedef unsigned int uint_; typedef unsigned long long ull;
template <class Want, class E> struct same_type_ { static_assert(std::same_as<Want, E>, "result type differs from the documented one"); static constexpr bool value = true; };
// assignment of a result of exactly the documented type
template <class Want, class E> __attribute__((always_inline)) inline void put(Want* o, const E& e) { static_assert(same_type_<Want, E>::value); *o = e; }
template <class T> __attribute__((always_inline)) inline void putv(T* o, const T& e) { *o = e; }
'''


class Broken(Exception):
    """the analysis itself cannot be carried out (exit 2)"""


class Case:
    """one obligation: implementation wrapper vs. reference wrapper over the same inputs"""
    __slots__ = ("name", "ret", "isig", "impl", "ssig", "spec", "mode", "nonan", "text", "expect", "opts")

    def __init__(self, name, isig, impl, ssig, spec, mode="bits", nonan=False, ret="void", text=None, expect="same", **opts):
        self.name, self.isig, self.impl, self.ssig, self.spec = name, isig, impl, ssig, spec
        self.mode, self.nonan, self.ret, self.text, self.expect, self.opts = mode, nonan, ret, text or impl, expect, opts

    def code(self, iname, sname):
        out = []
        out.append("W %s %s(%s) { %s }" % (self.ret, iname, self.isig, self.impl.replace("\n", " ")))
        if self.spec is not None:
            out.append("W %s %s(%s) { %s }" % (self.ret, sname, self.ssig, self.spec.replace("\n", " ")))
        if self.opts.get("known_alt"):
            out.append("W %s %s(%s) { %s }" % (self.ret, "k" + sname, self.ssig, self.opts["known_alt"].replace("\n", " ")))
        return out


GXX = "/usr/bin/g++"


def run_gcc(src, flags, timeout=600):
    """the project's own compiler, for obligations about constant expressions (clang 18 cannot fold libstdc++'s isless family)"""
    r = subprocess.run([GXX, "-std=gnu++20", "-I" + REPO + "/include", "-w", "-fno-diagnostics-show-caret", "-fmax-errors=0", "-fsyntax-only"] + flags + [src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return r.returncode, r.stdout


def run_clang(src, out, flags, timeout=600):
    r = subprocess.run([CLANG] + BASEFLAGS + flags + [src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors="replace")
    return r.returncode, r.stdout


def gimple(src, flags=(), timeout=600):
    """optimised GIMPLE of the project's own compiler: {function: [statement]} (decides what C++ leaves to the compiler)"""
    d = tempfile.mkdtemp(dir=os.path.dirname(src))
    r = subprocess.run([GXX, "-std=gnu++20", "-I" + REPO + "/include", "-w", "-fno-diagnostics-show-caret", "-O3", "-fno-tree-vectorize", "-fno-strict-aliasing", "--param", "max-completely-peeled-insns=4000",
                        "-fdump-tree-optimized=" + os.path.join(d, "o"), *flags, "-c", src, "-o", os.path.join(d, "o.o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    if r.returncode:
        return None, r.stdout
    out, cur = {}, None
    for ln in open(os.path.join(d, "o"), errors="replace"):
        m = re.match(r";; Function \S* ?\(?(\w+),|;; Function (\w+)", ln)
        if m:
            cur = out.setdefault(m.group(1) or m.group(2), [])
        elif cur is not None and ln.strip():
            cur.append(ln.strip())
    shutil.rmtree(d, ignore_errors=True)
    return out, ""


def attribute_errors(text, srcname, owner=(), gcc=False):
    """map compiler errors to lines of the generated file: {line: first message}"""
    res = {}
    pend = None
    unattr = []
    base = re.escape(os.path.basename(srcname))
    lines = text.split("\n")
    i = 0
    # clang prints  file:line:col: error: msg   followed by notes; instantiation notes carry the requesting line
    groups = []
    ahead = []
    for ln in lines:
        if gcc and re.search(r"(: In |required (from|by)|expansion of|In file included|^\s+from )", ln):
            ahead.append(ln)  # gcc prints the context before the message
        elif re.search(r":\d+:\d+: (fatal )?error: ", ln):
            groups.append([ln] + ahead)
            ahead = []
        elif groups:
            groups[-1].append(ln)
        elif re.search(r"error:", ln):
            groups.append([ln])
    for g in groups:
        hit = None
        for ln in g:
            for m in re.finditer(r"(?:^|[ /])%s:(\d+):\d+" % base, ln):
                if hit is None or (hit not in owner and int(m.group(1)) in owner):
                    hit = int(m.group(1))
        msg = re.sub(r"^\S*/", "", g[0])
        if hit is None:
            unattr.append(msg)
        else:
            res.setdefault(hit, msg)
    return res, unattr


class Slow(Exception):
    pass


def _alarm(*_):
    raise Slow("one obligation took longer than %d s" % CASE_SECONDS)


def _limits():
    """worker processes: no obligation may exhaust the machine's memory"""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _shard(job):
    """compile one shard and compare its pairs; runs in a worker process"""
    idx, cases, flags, prelude, tmp, minok = job
    import ir
    import vn
    import cmp
    import terms as T
    src = os.path.join(tmp, "d%d.cpp" % idx)
    out = os.path.join(tmp, "d%d.ll" % idx)
    live = list(range(len(cases)))
    results = [None] * len(cases)
    for attempt in range(6):
        lines = prelude.split("\n")
        owner = {}
        for k in live:
            for ln in cases[k].code("i_%d" % k, "s_%d" % k):
                lines.append(ln)
                owner[len(lines)] = k
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, text = run_clang(src, out, IRFLAGS + flags)
        if rc == 0:
            break
        errs, un = attribute_errors(text, src, owner)
        bad = {}
        for ln, msg in errs.items():
            if ln in owner:
                bad.setdefault(owner[ln], msg)
            else:
                un.append(msg)
        if not bad:
            return {"broken": "driver does not compile: " + "; ".join(un[:4] or text.split("\n")[:4])}
        for k, msg in bad.items():
            results[k] = {"status": "nocompile", "msg": msg}
        live = [k for k in live if k not in bad]
        if not live:
            break
    else:
        return {"broken": "driver does not compile after removing failing obligations"}
    ninst = nfun = 0
    ncase = 0
    if live:
        mod = ir.Module(out)
        for k in live:
            c = cases[k]
            T.reset()
            try:
                signal.signal(signal.SIGALRM, _alarm)
                signal.alarm(CASE_SECONDS)
                r = compare_pair(mod, c, "i_%d" % k, "s_%d" % k)
                ninst += r.pop("ninst", 0)
                nfun += 2
                ncase += r.pop("cases", 0)
                if r["status"] == "differs" and c.opts.get("known_alt"):
                    # the recorded defect, exactly as recorded?
                    T.reset()
                    if compare_pair(mod, c, "i_%d" % k, "ks_%d" % k)["status"] == "same":
                        r["known"] = c.opts["known_id"]
            except (vn.Unsupported, cmp.Budget, ir.IRError, RecursionError, MemoryError, Slow) as e:
                r = {"status": "unknown", "msg": "%s: %s" % (type(e).__name__, e)}
            finally:
                signal.alarm(0)
            results[k] = r
    if not os.environ.get("VERIF_KEEP"):
        for p in (src, out):
            try:
                os.unlink(p)
            except OSError:
                pass
    return {"results": results, "ninst": ninst, "nfun": nfun, "cases": ncase}


def _witness(job):
    idx, items, flags, prelude, tmp = job
    src = os.path.join(tmp, "w%d.cpp" % idx)
    results = [None] * len(items)
    live = list(range(len(items)))
    for attempt in range(4):
        lines = prelude.split("\n")
        owner = {}
        for k in live:
            lines.append("static_assert(%s);" % items[k][1].replace("\n", " "))
            owner[len(lines)] = k
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        gcc = "gcc" in flags
        fl = [f for f in flags if f != "gcc"]
        rc, text = run_gcc(src, fl) if gcc else run_clang(src, os.devnull, ["-fsyntax-only"] + fl)
        if rc == 0:
            return {"results": results}
        errs, un = attribute_errors(text, src, owner, gcc)
        bad = {}
        hard = False
        for ln, msg in errs.items():
            if ln in owner:
                bad[owner[ln]] = msg
                hard = hard or "static assertion failed" not in msg
            else:
                un.append(msg)
        if not bad:
            return {"broken": "witness unit does not compile: " + "; ".join(un[:3] or text.split("\n")[:3])}
        for k, msg in bad.items():
            results[k] = msg
        live = [k for k in live if k not in bad]
        if not live:
            return {"results": results}
    return {"broken": "witness unit does not settle"}


def bool_args(sig):
    """parameters that designate bools: {index: 1 = pointer to bool, 2 = pointer to pointer to bool}"""
    out = {}
    for i, p in enumerate(split_params(sig)):
        m = re.search(r"\bbool\b\s*(?:const\s*)?([*&][*&\s]*(?:const\s*)?[*&]?)", p)
        if m:
            k = m.group(1).count("*") + m.group(1).count("&")
            out[i] = min(k, 2)
    return out


ESZ = {"bool": 1, "char": 1, "int": 4, "unsigned": 4, "float": 4, "double": 8, "ll": 8, "ull": 8, "size_t": 8, "uint_": 4, "long": 8}


def elem_sizes(sig):
    """byte size of the scalars each pointer/reference parameter of the reference wrapper designates"""
    out = {}
    for i, p in enumerate(split_params(sig)):
        q = re.sub(r"\bconst\b|\bstd::", " ", p)
        m = re.match(r"\s*(long long|unsigned long long|unsigned int|\w+)\s*([*&\s]+)", q)
        if m and ("*" in m.group(2) or "&" in m.group(2)):
            t = {"long long": "ll", "unsigned long long": "ull", "unsigned int": "unsigned"}.get(m.group(1), m.group(1))
            stars = m.group(2).count("*")
            out["a%d" % i] = (stars, "&" in m.group(2), ESZ.get(t))
    return out


def split_params(sig):
    out, d, cur = [], 0, ""
    for ch in sig:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def where(mod, dbgs):
    for d in dbgs:
        if d is None:
            continue
        ch = mod.loc_chain(d)
        hx = ["%s:%d (%s)" % (os.path.basename(f), l, fn) for f, l, fn in ch if f.endswith("dsga.hxx")]
        if hx:
            return " <- ".join(hx[:8])
    return "?"


def kindof(e):
    cond, kind, detail, dbg = e
    if kind in ("throw", "terminate"):
        return kind + (":" + detail if kind == "throw" else "")
    return kind


def compare_pair(mod, c, iname, sname):
    import vn
    import cmp
    import terms as T
    from terms import NODES, WIDTH
    T.ROUND = bool(c.opts.get("rounding"))
    T.PALIGN = c.opts.get("palign", 1)
    ba = bool_args(c.ssig)
    ev = vn.Eval(mod)
    if not c.opts.get("twin"):
        a = ev.run(iname, ba)
    ev2 = vn.Eval(mod)
    if c.opts.get("twin"):
        # the same program, with the constant-evaluation question answered no and yes
        ev.bind, ev2.bind = {"verif_ce": [0]}, {"verif_ce": [1]}
        sname = iname
        a = ev.run(iname, ba)
    b = ev2.run(sname, ba)
    ninst = a.ninst + b.ninst
    ncases = 0

    def D():
        return cmp.Differ(c.mode, c.nonan, budget=c.opts.get("budget", 60000), anynan=c.opts.get("anynan", False))
    # 1. how control leaves
    kinds = {}
    for tag, o in ((0, a), (1, b)):
        for e in o.events:
            k = kindof(e)
            kinds.setdefault(k, [T.FALSE, T.FALSE, None])
            kinds[k][tag] = T.b_or(kinds[k][tag], e[0])
            if tag == 0:
                kinds[k][2] = e
    ignore = c.opts.get("ignore_events", ())
    outside = kinds.pop("outside", [T.FALSE, T.FALSE])[1]      # inputs the reference says nothing about
    assume_ok = T.TRUE
    for k, (x, y, e) in sorted(kinds.items()):
        if k in ignore:
            continue
        if outside != T.FALSE:
            x, y = T.ite(outside, T.FALSE, x), T.ite(outside, T.FALSE, y)
        d = D()
        r = d.diff(x, y)
        ncases += d.cases
        if r is not None:
            loc = where(mod, [e[3]]) if e else "?"
            extra = ""
            if e and e[1] == "assert":
                extra = " [%s]" % e[2][:160]
            return {"status": "differs", "ninst": ninst, "cases": ncases,
                    "msg": "control leaves by '%s'%s when %s; reference: when %s; differing case: %s" % (
                        k, extra, T.show(x, 6), T.show(y, 6), r[2].show()), "where": loc}
    rc = T.b_and(a.retcond, b.retcond) if ignore else b.retcond
    # 2. outputs
    outs = []
    if a.ret is not None and c.ret != "void":
        outs.append(("return value", a.ret, b.ret, []))
    bases = []
    for m in (a.mem, b.mem):
        for x in m:
            if x not in bases:
                bases.append(x)
    esz = elem_sizes(c.ssig)
    for bs in bases:
        nb, unit = NODES[bs], None
        if nb[0] == "base" and nb[1] == "arg":
            st_ = esz.get(nb[2])
            if st_:
                unit = 8 if st_[0] + st_[1] > 1 else st_[2]
        elif nb[0] == "ld" and NODES[nb[1]][0] == "base":
            st_ = esz.get(NODES[nb[1]][2])
            if st_:
                unit = st_[2]
        da, db = a.mem.get(bs, {}), b.mem.get(bs, {})
        offs = sorted(set(da) | set(db))
        i = 0
        while i < len(offs):
            j = i + 1
            while j < len(offs) and offs[j] == offs[j - 1] + 1 and not (unit and offs[j] % unit == 0) and not all(
                    d.get(offs[j]) is None or d[offs[j]][1] == 0 for d in (da, db)):
                j += 1
            lo, n = offs[i], offs[j - 1] + 1 - offs[i]
            p = T.ptr(bs, lo)
            ev.loads, ev2.loads = set(), set()
            va = ev.load_bytes(vn.State({bs: da}), p, n)
            vb = ev2.load_bytes(vn.State({bs: db}), p, n)
            dbgs = [s[3] for s in a.stores if s[0] == bs and s[1] <= lo < s[1] + s[2]]
            outs.append(("%s bytes %d..%d" % (T.show(bs, 2), lo, lo + n - 1), va, vb, dbgs))
            i = j
    for what, va, vb, dbgs in outs:
        if va is None or vb is None:
            return {"status": "differs", "msg": what + " missing on one side", "ninst": ninst, "where": "?"}
        if va == vb:
            continue
        w = WIDTH[va]
        if w != WIDTH[vb]:
            return {"status": "differs", "msg": "%s: width" % what, "ninst": ninst, "where": "?"}
        if rc != T.TRUE:
            bot = T.mk(("argv", "bot", w), w) if w > 1 else T.FALSE
            if NODES[va][0] in ("vec", "agg"):
                pass
            else:
                va, vb = T.ite(rc, va, bot), T.ite(rc, vb, bot)
        d = D()
        r = d.diff(va, vb)
        ncases += d.cases
        if r is not None:
            root = a.locs.get(va) or a.locs.get(r[0])
            return {"status": "differs", "ninst": ninst, "cases": ncases,
                    "msg": "%s: computed %s; expected %s; case: %s" % (what, T.show(r[0], 4), T.show(r[1], 4), r[2].show()),
                    "where": where(mod, [root] + dbgs)}
    return {"status": "same", "ninst": ninst, "cases": ncases, "nout": len(outs)}


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.deadline = DEADLINE if self.tier != "thorough" else 5 * DEADLINE
        self.violations = []
        self.findings = []
        self.broken = []
        self.cov = {"functions_analysed": 0, "ir_instructions": 0, "obligations": 0, "discharged": 0,
                    "decision_cases": 0, "translation_units": 0, "groups": {}, "samples": []}
        self.known = load_known(pid)
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.assumptions = []
        self.explanation = ""
        self.pool = ProcessPoolExecutor(JOBS, initializer=_limits)

    # ------------------------------------------------------------ value obligations
    def pairs(self, group, cases, flags=(), prelude="", shard=None, minimum=1, control=True):
        if len(cases) < minimum:
            raise Broken("%s: only %d obligations generated, %d confirmed by hand" % (group, len(cases), minimum))
        flags = list(flags)
        n = shard or max(8, min(60, (len(cases) + JOBS - 1) // JOBS))
        jobs = []
        for i in range(0, len(cases), n):
            self.cov["translation_units"] += 1
            jobs.append((self.cov["translation_units"], cases[i:i + n], flags, PRELUDE + prelude, self.tmp, 1))
        futs = [(j, self.pool.submit(_shard, j)) for j in jobs]
        return (group, futs)

    def collect(self, handle):
        group, futs = handle
        g = self.cov["groups"].setdefault(group, {"obligations": 0, "held": 0})
        tot = bad = 0
        for job, fu in futs:
            r = self.wait(fu)
            if "broken" in r:
                self.broken.append("%s: %s" % (group, r["broken"]))
                continue
            self.cov["functions_analysed"] += r["nfun"]
            self.cov["ir_instructions"] += r["ninst"]
            self.cov["decision_cases"] += r["cases"]
            for c, x in zip(job[1], r["results"]):
                tot += 1
                g["obligations"] += 1
                self.cov["obligations"] += 1
                st = x["status"]
                if c.expect == "differs":
                    # positive control: the engine must tell these apart
                    if st == "same":
                        self.broken.append("%s: control %s not told apart" % (group, c.name))
                    elif st == "unknown":
                        self.broken.append("%s: control %s: %s" % (group, c.name, x["msg"]))
                    else:
                        g["held"] += 1
                        self.cov["discharged"] += 1
                        g["controls"] = g.get("controls", 0) + 1
                    continue
                if st == "same":
                    g["held"] += 1
                    self.cov["discharged"] += 1
                    if len(self.cov["samples"]) < 12 and g["held"] % 17 == 1:
                        self.cov["samples"].append("%s: %s  ==  %s" % (c.name, c.impl[:160], (c.spec or "")[:160]))
                elif st == "unknown":
                    self.broken.append("%s: %s: %s" % (group, c.name, x["msg"]))
                else:
                    bad += 1
                    msg = x["msg"]
                    if st == "nocompile":
                        msg = "does not compile: " + msg
                    if x.get("known") and any(k["id"] == x["known"] for k in self.known):
                        self.findings.append((next(k for k in self.known if k["id"] == x["known"]), group + "/" + c.name))
                        continue
                    self.report(group + "/" + c.name, "%s | %s | at %s" % (c.text[:200], msg, x.get("where", "?")))
        if tot and bad == tot and tot > 3:
            # everything failing at once is still a verdict only if it compiled
            pass
        return g

    # ------------------------------------------------------------ type-level obligations
    def witness(self, group, items, prelude="", flags=(), minimum=1, shard=None):
        """items: (name, constant expression that must hold, text[, expect]); expect 'false' marks a control"""
        if len(items) < minimum:
            raise Broken("%s: only %d obligations generated, %d confirmed by hand" % (group, len(items), minimum))
        n = shard or max(6, min(400, (len(items) + JOBS - 1) // JOBS))
        futs = []
        for i in range(0, len(items), n):
            self.cov["translation_units"] += 1
            job = (self.cov["translation_units"], items[i:i + n], list(flags), PRELUDE + prelude, self.tmp)
            futs.append((job, self.pool.submit(_witness, job)))
        return (group, futs)

    def collect_witness(self, handle):
        group, futs = handle
        g = self.cov["groups"].setdefault(group, {"obligations": 0, "held": 0})
        for job, fu in futs:
            r = self.wait(fu)
            if "broken" in r:
                self.broken.append("%s: %s" % (group, r["broken"]))
                continue
            for it, msg in zip(job[1], r["results"]):
                ctl = len(it) > 3 and it[3] == "false"
                g["obligations"] += 1
                self.cov["obligations"] += 1
                if ctl:
                    if msg is None:
                        self.broken.append("%s: control %s accepted" % (group, it[0]))
                    else:
                        g["held"] += 1
                        g["controls"] = g.get("controls", 0) + 1
                        self.cov["discharged"] += 1
                elif msg is None:
                    g["held"] += 1
                    self.cov["discharged"] += 1
                    if g["held"] % 97 == 1 and len(self.cov["samples"]) < 12:
                        self.cov["samples"].append("%s: %s" % (it[0], it[1][:200]))
                else:
                    self.report(group + "/" + it[0], "%s | %s" % (it[2], msg))
        return g

    def wait(self, fu):
        """a unit's result, or no verdict on it: what was found elsewhere still counts"""
        try:
            return fu.result(timeout=max(1, self.t0 + self.deadline - time.time()))
        except concurrent.futures.TimeoutError:
            fu.cancel()
            self.late = True
            return {"broken": "not analysed within %d s" % self.deadline}
        except concurrent.futures.process.BrokenProcessPool:
            return {"broken": "the analysis of a unit died"}

    def run_groups(self, specs):
        hs = [self.pairs(*s[0:2], **s[2]) for s in specs]
        for h in hs:
            self.collect(h)

    def report(self, site, msg):
        for k in self.known:
            if k.get("match") and re.search(k["match"], site + " | " + msg):
                self.findings.append((k, site))
                return
        self.violations.append({"site": site, "msg": msg})

    # ------------------------------------------------------------ end
    def finish(self, level="other"):
        if getattr(self, "late", False):
            for p in list(self.pool._processes.values()):
                p.kill()
        self.pool.shutdown(cancel_futures=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        wall = time.time() - self.t0
        seen = set()
        for k, site in self.findings:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = dict(self.cov)
        cov["explanation"] = self.explanation
        cov["known_findings_matched"] = sorted(seen)
        cov["analysis_errors"] = self.broken[:10]
        json.dump({"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
                   "level": level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
                   "violations": len(self.violations)},
                  open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        rep = os.path.join(ev, self.pid + ".report.txt")
        if self.violations:
            with open(rep, "w") as f:
                f.write("property %s: %d violated obligations\n" % (self.pid, len(self.violations)))
                for v in self.violations:
                    f.write("\n[%s]\n  %s\n" % (v["site"], v["msg"]))
            for v in self.violations[:10]:
                print("  %s: %s" % (v["site"], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            sys.exit(1)
        if os.path.exists(rep):
            os.unlink(rep)
        if self.broken:
            for b in self.broken[:10]:
                print("ANALYSIS-BROKEN property=%s %s" % (self.pid, b[:500]))
            sys.exit(2)
        if self.cov["obligations"] == 0:
            print("ANALYSIS-BROKEN property=%s no obligations" % self.pid)
            sys.exit(2)
        print("OK property=%s obligations=%d functions=%d instructions=%d wall=%.1fs" % (
            self.pid, self.cov["obligations"], self.cov["functions_analysed"], self.cov["ir_instructions"], wall))
        sys.exit(0)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                k = json.loads(ln)
                if k.get("property") == pid and k.get("status") == "open":
                    out.append(k)
    return out


ASSUMPTIONS = [
    "the compiled instantiations of the header under clang 18 (C++20, x86-64 LP64) are what is analysed; the declarations of libstdc++ and the LLVM optimiser are trusted to preserve meaning",
    "distinct pointer parameters of a driver designate either the same whole object or disjoint ones, as stated per obligation",
]
