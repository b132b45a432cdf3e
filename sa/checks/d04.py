import math
import os
import sys

try:
    import numpy  # noqa: F401
except ImportError:
    _PY = "/opt/veriftools/pyvenv/bin/python3"
    if os.path.basename(sys.argv[0]) == "run.py" and os.path.exists(_PY) and os.path.realpath(sys.prefix) != "/opt/veriftools/pyvenv":
        os.execv(_PY, [_PY] + sys.argv)

from fw import CONSTEVAL, IRFLAGS, PRELUDE, run_clang

META = dict(
    title="The reciprocal square roots are accurate for every positive argument",
    statement="inversesqrt and fast_inversesqrt (and cxcm::rsqrt, cxcm::fast_rsqrt) of every positive finite argument, subnormal, ordinary or near the largest, are finite and have a relative error against 1/sqrt(x) of at most 2^-50 for double and 2^-23.5 for float; nothing they compute on the way overflows.",
    quant=("inputs", "every positive finite float and double"),
    why="The kernels start from the bit pattern of the argument and refine it in double-double arithmetic; a constant that is slightly off, a missing refinement or a product that overflows only for extreme exponents leaves sampled results within test tolerance.",
    anchors=["include/dsga.hxx"],
    mech=[("kernel", "cxcm::relaxed::detail::fast_rsqrt, inverse_sqrt; cxcm::dd_real products"), ("range handling", "cxcm::strict::detail::constexpr_rsqrt, constexpr_fast_rsqrt"), ("users", "dsga::inversesqrt, fast_inversesqrt, normalize")],
    explanation="the value graph of each kernel is evaluated in affine arithmetic over a partition of the significand, the exponent range split where its conditions change; every rounding is a noise symbol, every intermediate is checked against the overflow threshold",
    technique="abstract interpretation (affine arithmetic with rounding-error symbols) of the value graph from clang LLVM IR",
    assumptions=["rounding to nearest; the analysis itself is carried out in 80-bit arithmetic, whose own error is far below the margin between the bounds obtained and the bounds claimed"],
)

DMAX, FMAX = 1.7976931348623157e308, 3.4028234663852886e38
RANGE = {"double": (64, 2.0 ** -1074, DMAX, 2.0 ** -50), "float": (32, 2.0 ** -149, FMAX, 2.0 ** -23.5)}

CONTROL = r'''
namespace ctl {
template <int V> inline double k(double x) {
	if (V != 3 && x < 0x1p-1000) return k<3>(x * 0x1p100) * 0x1p50;
	double h = 0.5 * x;
	long long i = std::bit_cast<long long>(x);
	i = 0x5FE6ED2102DCBFDA - (i >> 1);
	double y = std::bit_cast<double>(i);
	y *= 1.50087895511633457 - h * y * y;
	y *= 1.50000057967625766 - h * y * y;
	if (V != 1) y *= 1.5000000000002520 - h * y * y;
	if (V == 2) return y * (1.5 - (h * y) * (x * y) / x);
	return y * (1.5 - h * y * y);
}
}
W double ctl_good(double a) { return ctl::k<0>(a); }
W double ctl_short(double a) { return ctl::k<1>(a); }
W double ctl_range(double a) { return ctl::k<3>(a); }
W double ctl_other(double a) { return ctl::k<2>(a); }
W double ctl_exact(double a) { return 1 / std::sqrt(a); }
'''


def obligations():
    for T in RANGE:
        for f in ("inversesqrt", "fast_inversesqrt", "cxcm::rsqrt", "cxcm::fast_rsqrt"):
            for mode, fl in (("run time", []), ("constant evaluation", CONSTEVAL)):
                yield f, T, mode, fl
        for f in ("inversesqrt", "fast_inversesqrt"):
            yield f + ".vec", T, "run time", []


def analyse(job):
    src, flags, fns, tmp, k, bins = job
    import affine
    import ir
    import terms as T
    import vn
    base = os.path.join(tmp, "d%d" % k)
    with open(base + ".cpp", "w") as f:
        f.write(PRELUDE + src)
    rc, text = run_clang(base + ".cpp", base + ".ll", IRFLAGS + flags)
    if rc != 0:
        return [("broken", "does not compile: " + text[:300], 0, 0, None)] * len(fns)
    mod = ir.Module(base + ".ll")
    out = []
    for name, (w, lo, hi, lim) in fns:
        T.reset()
        try:
            o = vn.Eval(mod).run(name, {})
            r, n = affine.analyse(o.ret, T.mk(("argv", 0, w), w), lo, hi, -1, bins, lim)
            out.append(("same", "2^%.2f" % math.log2(max(x[1] for x in r)), n, len(r), None))
        except affine.Violation as e:
            out.append(("differs", str(e)[-400:], 0, 0, None))
        except (affine.Cannot, vn.Unsupported, ir.IRError, RecursionError, MemoryError) as e:
            out.append(("unknown", "%s: %s" % (type(e).__name__, str(e)[-400:]), 0, 0, None))
    return out


def run(c):
    bins = 8192 if c.tier == "thorough" else 1024
    jobs = []
    for k, (f, T, mode, fl) in enumerate(obligations()):
        vec = f.endswith(".vec")
        e = ("dsga::%s(basic_vector<%s, 3>(a, a, a)).y" % (f[:-4], T)) if vec else "dsga::%s(a)" % f
        jobs.append((("%s.%s.%s" % (f.replace("::", "."), T, mode.split()[0]), "%s (%s, %s)" % (f, T, mode), "same"),
                     ("W %s f(%s a) { return %s; }\n" % (T, T, e), fl, [("f", RANGE[T])], c.tmp, k, bins)))
    D = RANGE["double"]
    for k, (f, want) in enumerate((("ctl_good", "same"), ("ctl_exact", "same"), ("ctl_short", "differs"), ("ctl_range", "differs"), ("ctl_other", "same"))):
        jobs.append((("control." + f, f, want), (CONTROL, [], [(f, D)], c.tmp, 100 + k, 1024)))
    futs = [(m, c.pool.submit(analyse, j)) for m, j in jobs]
    g = c.cov["groups"].setdefault("accuracy", {"obligations": 0, "held": 0, "bounds": {}})
    for (name, text, want), fu in futs:
        c.cov["obligations"] += 1
        g["obligations"] += 1
        r = c.wait(fu)
        if isinstance(r, dict):
            c.broken.append("%s: %s" % (name, r["broken"]))
            continue
        st, msg, ops, zones, _ = r[0]
        c.cov["functions_analysed"] += 1
        c.cov["ir_instructions"] += ops
        c.cov["decision_cases"] += zones
        if st in ("unknown", "broken"):
            c.broken.append("%s: %s" % (name, msg))
        elif st == want:
            g["held"] += 1
            c.cov["discharged"] += 1
            if want == "same":
                g["bounds"][name] = msg
                c.cov["samples"].append("%s: relative error <= %s over %d zones of the exponent" % (text, msg, zones))
        elif want == "differs":
            c.broken.append("control %s not told apart" % name)
        elif name.startswith("control"):
            c.broken.append("control %s not accepted: %s" % (name, msg))
        else:
            c.report("accuracy/" + name, "%s | %s" % (text, msg))
