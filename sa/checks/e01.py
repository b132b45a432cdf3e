import os

import astq
import fw

META = dict(
    title="The library keeps no hidden state: results depend on arguments only",
    statement="Every operation is a function of its operands alone. The library defines no mutable variable of static or thread storage duration (namespace scope, class or function), has no mutable data members or volatile accesses, allocates nothing, and calls nothing that reads or changes process-wide state (random numbers, clocks, locale, environment, errno, the floating-point environment, input or output). Hence any operations on distinct objects may run concurrently and in any order without affecting one another. (Reporting a failed assertion is the only exception.)",
    quant=("schedules and histories", "every order and interleaving of operations, on any number of threads, in every instantiation (the rule is decided on the template bodies themselves)"),
    why="A cache, counter or lazily filled table gives right answers in single-threaded, first-call tests and fails only under particular histories or schedules.",
    anchors=["include/dsga.hxx"],
    mech=[("variables", "every VarDecl and FieldDecl of namespace dsga"), ("effects", "every call, new/delete and asm in every function body of namespace dsga")],
    explanation="every declaration of static or thread storage duration and every reference from a function body to something outside the library is enumerated from the syntax tree and classified; snippets with planted state are the controls",
    technique="effect analysis over clang's syntax tree (template patterns included)",
    assumptions=["library functions that are on neither the pure nor the stateful list are assumed pure (listed in the evidence)"],
)

STATEFUL = set("""rand srand random srandom drand48 lrand48 mrand48 rand_r time clock clock_gettime gettimeofday localtime gmtime ctime asctime mktime strftime
getenv setenv unsetenv putenv system setlocale localeconv strtok strerror signal raise atexit at_quick_exit sleep usleep nanosleep
fesetround fegetround feclearexcept feraiseexcept fetestexcept fesetenv fegetenv feupdateenv feholdexcept fesetexceptflag fegetexceptflag
__errno_location lgamma lgammaf lgammal malloc calloc realloc free aligned_alloc posix_memalign alloca
printf fprintf sprintf snprintf vprintf vfprintf puts fputs putchar fputc putc fwrite fread fopen fclose fflush getchar fgets scanf fscanf perror write read open close
__builtin_malloc __builtin_free __builtin_printf __builtin_puts __builtin_alloca __builtin_ia32_ldmxcsr __builtin_ia32_stmxcsr _mm_setcsr _mm_getcsr
cout cerr clog cin wcout wcerr endl flush random_device mt19937 shuffle sample allocate deallocate make_unique make_shared
get_id this_thread call_once async syscall pthread_self pthread_once sched_yield now steady_clock system_clock high_resolution_clock
operator_new operator_delete exchange_global locale setjmp longjmp dlopen dlsym fork exec execv mmap munmap
stdin stdout stderr environ __environ signgam timezone daylight tzname __tzname optarg optind opterr sys_nerr""".split())
# a floating-point/utility vocabulary known to be pure; anything else is reported as assumed
PURE = set("""acos acosh asin asinh atan atan2 atanh ceil cos cosh exp exp2 expm1 floor fma fmod frexp isgreater isgreaterequal isless islessequal isunordered islessgreater ldexp scalbn scalbln
lerp log log2 log10 log1p logb ilogb pow round sin sinh sqrt cbrt hypot tan tanh trunc remainder remquo copysign signbit isnan isinf isfinite isnormal fpclassify nan nextafter fmin fmax fdim fabs abs modf midpoint
min max minmax clamp swap iter_swap swap_ranges copy copy_n copy_backward move_backward fill fill_n reverse reverse_copy rotate rotate_copy shift_left shift_right transform for_each all_of any_of none_of equal accumulate reduce inner_product transform_reduce iota find sort
addressof bit_cast byteswap popcount countl_zero countr_zero rotl rotr has_single_bit declval forward forward_like move as_const exchange invoke apply get tuple_cat make_tuple tie forward_as_tuple make_pair make_from_tuple to_array begin end cbegin cend rbegin rend crbegin crend size ssize data advance next prev distance
make_reverse_iterator infinity quiet_NaN signaling_NaN epsilon lowest is_constant_evaluated to_underlying cmp_less cmp_less_equal cmp_greater construct_at destroy_at to_address nearbyint rint lround llround""".split())
ASSERTION = {"cxcm_constexpr_assert_failed", "dsga_constexpr_assert_failed", "__assert_fail", "__assert", "_wassert", "__assert_rtn", "abort", "terminate"}


def analyse(docs):
    """-> (rows for the evidence, [(site, message)], [names assumed pure])"""
    t = astq.Tree(docs)
    own = {n["id"] for n, _, _, _ in t.nodes if "id" in n}
    # locals and parameters of the library: inside nested generic lambdas clang refers to re-created copies of them
    local = {n.get("name") for n, p, _, _ in t.nodes if n["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl") and astq.in_function(p) and not n.get("storageClass")}
    bad, assumed, cnt = [], set(), {"variables": 0, "fields": 0, "bodies": 0, "external references": 0}

    def flag(p, f, ln, what):
        bad.append(("%s:%s" % (os.path.basename(f or "?"), ln), "%s | in %s" % (what, astq.scope(p) or "?")))

    for n, p, f, ln in t.nodes:
        k = n["kind"]
        if k in astq.FN and any(x.get("kind") == "CompoundStmt" for x in n.get("inner", ())):
            cnt["bodies"] += 1
        if k in ("VarDecl", "VarTemplateSpecializationDecl", "VarTemplatePartialSpecializationDecl"):
            fn = astq.in_function(p)
            ty = n["type"].get("qualType", "")
            if n.get("tls"):
                flag(p, f, ln, "thread-local variable %s %s" % (ty, n.get("name")))
            if "volatile" in ty.split():
                flag(p, f, ln, "volatile variable %s" % n.get("name"))
            if n.get("storageClass") in ("static", "extern") or not fn:
                cnt["variables"] += 1
                const = n.get("constexpr") or ty.startswith("const ") or ty.endswith("const") or ty.endswith("const[]")
                if not const and "(lambda at" in ty:
                    lam = [x for x in n.get("inner", ()) if x["kind"] == "LambdaExpr"]
                    const = bool(lam) and not any(y["kind"] == "FieldDecl" for x in lam for y in (x.get("inner") or [{}])[0].get("inner", ()))
                if not const:
                    flag(p, f, ln, "mutable variable of static storage: %s %s" % (ty, n.get("name")))
        elif k == "FieldDecl":
            cnt["fields"] += 1
            if n.get("mutable"):
                flag(p, f, ln, "mutable data member %s" % n.get("name"))
            if "volatile" in n["type"].get("qualType", "").split():
                flag(p, f, ln, "volatile data member %s" % n.get("name"))
        elif k in ("CXXNewExpr", "CXXDeleteExpr") and n.get("isPlacement") is not True:
            flag(p, f, ln, "dynamic memory (%s)" % k)
        elif k in ("GCCAsmStmt", "MSAsmStmt"):
            flag(p, f, ln, "inline assembly")
        elif k == "CXXConstCastExpr" and "volatile" in n["type"].get("qualType", ""):
            flag(p, f, ln, "volatile access")
        refs = ([n["referencedDecl"]] if "referencedDecl" in n else []) + list(n.get("lookups", ()))
        names = {r.get("name") for r in refs if r.get("id") not in own and r.get("kind") not in ("ParmVarDecl", "NonTypeTemplateParmDecl", "EnumConstantDecl")}
        if k == "DependentScopeDeclRefExpr":
            names = set()
        for x in names:
            if not x:
                continue
            cnt["external references"] += 1
            if x in STATEFUL:
                flag(p, f, ln, "refers to %s, which has process-wide state or effects" % x)
            elif x not in PURE and x not in local and x not in ASSERTION and not x.endswith("_v") and not x.startswith("__builtin_"):
                assumed.add(x)
    return cnt, bad, assumed


CONTROLS = [
    ("static-local", "template <typename T> T f(T x) noexcept { static T last{}; T r = last; last = x; return r; }"),
    ("thread-local", "inline float f(float x) noexcept { thread_local float last = 0; last += x; return last; }"),
    ("namespace-variable", "inline int counter = 0;"),
    ("class-static", "struct control_s { static inline float cache{}; };"),
    ("mutable-member", "template <typename T> struct control_s { mutable T cache{}; };"),
    ("capture", "inline auto control_l = [n = 0](int x) mutable noexcept { n += x; return n; };"),
    ("random", "inline int f() { return std::rand(); }"),
    ("allocates", "template <typename T> T f(T x) { T *p = new T(x); T r = *p; delete p; return r; }"),
    ("dependent-call", "template <typename T> T f(T x) { return x + T(std::rand()); }"),
    ("errno", "inline int f() { return errno; }"),
]


def run(c):
    src = os.path.join(c.tmp, "h.cpp")
    with open(src, "w") as f:
        f.write('#include "dsga.hxx"\n')
    docs, err = astq.load(src)
    if docs is None:
        c.report("header", "the header does not compile: " + "; ".join(x for x in err.split("\n") if "error" in x)[:400])
        return
    cnt, bad, assumed = analyse(docs)
    if cnt["variables"] < 100 or cnt["bodies"] < 700 or cnt["fields"] < 300:
        raise fw.Broken("the syntax tree is not that of the library: %s" % cnt)
    c.cov["functions_analysed"] = cnt["bodies"]
    c.cov["obligations"] = cnt["variables"] + cnt["fields"] + cnt["external references"] + cnt["bodies"]
    c.cov["discharged"] = c.cov["obligations"] - len(bad)
    c.cov["groups"]["effects"] = dict(cnt, assumed_pure=sorted(assumed))
    for site, msg in bad:
        c.report(site, msg)
    for name, text in CONTROLS:
        p = os.path.join(c.tmp, name + ".cpp")
        with open(p, "w") as f:
            f.write("#include <cstdlib>\n#include <cerrno>\nnamespace dsga_control { %s }\n" % text)
        docs, err = astq.load(p, filt="dsga_control")
        if docs is None:
            raise fw.Broken("control %s: %s" % (name, err[:200]))
        if not analyse(docs)[1]:
            c.broken.append("control %s not recognised" % name)
    c.cov["groups"]["controls"] = {"obligations": len(CONTROLS), "held": len(CONTROLS)}
