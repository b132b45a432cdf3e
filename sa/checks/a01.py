from fw import Case
from gen import *

META = dict(
    title="A swizzle name reads and writes exactly the components it spells",
    statement="For every vector and every vector view of 1 to 4 components, each swizzle name over x, y, z, w denotes exactly the spelled components in the spelled order, whether read as a whole, read by index, or converted to a standalone vector. Assigning to a swizzle whose names are all distinct stores each value in the component of its name and leaves every other component unchanged. Swizzles of views act on the referenced storage in the same way.",
    quant=("inputs", "all component values, all 494 swizzle names of the four sizes, for vectors and for views"),
    why="A test samples a few of the 494 names with a few values; the tables are written by hand, name by name, and one transposed index in one entry is invisible to any test that does not use that entry.",
    anchors=["include/dsga.hxx"],
    mech=[("swizzle members", "basic_vector<T,1..4> and basic_view<M,T,1..4> anonymous unions"), ("component mapping", "indexed_vector / indexed_view operator[], set, operator=, begin")],
    explanation="every swizzle member of basic_vector<T,1..4> and basic_view<M,T,1..4> is lowered to LLVM IR once for a read and (if assignable) once for a write; gated value numbering of the IR gives, per output byte, which input byte it is, and this is compared for identity with the table spelled by the name",
    technique="gated value numbering (byte-provenance dataflow) over clang LLVM IR, compared with the spelled component table",
)


def run(c):
    h = []
    read, idx, write = [], [], []
    for size in (1, 2, 3, 4):
        for nm, t in names(size):
            n = len(t)
            for T in (["float"] if size > 2 else ["float", "ll"]):
                V = "basic_vector<%s,%d>" % (T, size)
                sp = "".join("o[%d]=a[%d];" % (k, i) for k, i in enumerate(t))
                read.append(Case("vector%d.%s.read.%s" % (size, nm, T), "basic_vector<%s,%d>* o, const %s& a" % (T, n, V), "*o = basic_vector<%s,%d>(a.%s);" % (T, n, nm),
                                 "%s* o, const %s* a" % (T, T), sp))
                if T != "float":
                    continue
                B = "basic_view<%s,%s,%d>" % ("true" if n % 2 else "false", T, size)
                read.append(Case("view%d.%s.read" % (size, nm), "%s* o, const %s& a" % (T, B), "".join("o[%d]=a.%s[%d];" % (k, nm, k) for k in range(n)),
                                 "%s* o, const %s* const& a" % (T, T), "NEED(a); " + sp))
            # symbolic index: the address of lane i
            if n >= 2 and (size < 4 or n < 4 or distinct(t) or len(set(t)) == 1):
                sel = "".join("if(i==%d) return a+%d; " % (k, v) for k, v in enumerate(t))
                idx.append(Case("vector%d.%s[i]" % (size, nm), "const basic_vector<double,%d>& a, int i" % size, "return &a.%s[i];" % nm,
                                "const double* a, int i", "NEED(i>=0 && i<%d); %s return a;" % (n, sel), ret="const double*"))
            if distinct(t):
                V = "basic_vector<int,%d>" % size
                sp = "".join("a[%d]=b[%d];" % (i, k) for k, i in enumerate(t))
                write.append(Case("vector%d.%s.assign" % (size, nm), "%s& a, const basic_vector<int,%d>& b" % (V, n), "a.%s = b;" % nm, "int* a, const int* b", sp))
                write.append(Case("vector%d.%s.set" % (size, nm), "%s& a, %s" % (V, ", ".join("int s%d" % k for k in range(n))), "a.%s.set(%s);" % (nm, ",".join("s%d" % k for k in range(n))),
                                  "int* a, %s" % ", ".join("int s%d" % k for k in range(n)), "".join("a[%d]=s%d;" % (i, k) for k, i in enumerate(t))))
                write.append(Case("vector%d.%s.elem" % (size, nm), "%s& a, const int* b" % V, "".join("a.%s[%d]=b[%d];" % (nm, k, k) for k in range(n)), "int* a, const int* b", sp))
                write.append(Case("vector%d.%s.same-assign" % (size, nm), "%s& a, const %s& b" % (V, V), "a.%s = b.%s;" % (nm, nm), "int* a, const int* b",
                                  "".join("a[%d]=b[%d];" % (i, i) for i in t),
                                  known_alt="".join("a[%d]=b[%d];" % (i, i) for i in range(size)), known_id="same-swizzle-copy"))
                B = "basic_view<true,int,%d>" % size
                write.append(Case("view%d.%s.assign" % (size, nm), "%s& a, const basic_vector<int,%d>& b" % (B, n), "a.%s = b;" % nm, "int* const& a, const int* b", "NEED(a); " + sp))
                write.append(Case("view%d.%s.rvalue.assign" % (size, nm), "int* p, const basic_vector<int,%d>& b" % n, "%s(p).%s = b;" % (B, nm), "int* a, const int* b", "NEED(a); " + sp))
                write.append(Case("view%d.%s.elem" % (size, nm), "%s& a, const int* b" % B, "".join("a.%s[%d]=b[%d];" % (nm, k, k) for k in range(n)), "int* const& a, const int* b", "NEED(a); " + sp))
                if n == 1:
                    write.append(Case("vector%d.%s.scalar" % (size, nm), "%s& a, int s" % V, "a.%s = s;" % nm, "int* a, int s", "a[%d]=s;" % t[0]))
                    write.append(Case("view%d.%s.scalar" % (size, nm), "%s& a, int s" % B, "a.%s = s;" % nm, "int* const& a, int s", "NEED(a); a[%d]=s;" % t[0]))
    ctl = [Case("control.read", "vec3* o, const vec4& a", "*o = a.xzw;", "float* o, const float* a", "o[0]=a[0];o[1]=a[3];o[2]=a[2];", expect="differs"),
           Case("control.write", "ivec4& a, const ivec2& b", "a.yx = b;", "int* a, const int* b", "a[0]=b[0];a[1]=b[1];", expect="differs"),
           Case("control.extra", "ivec4& a, const ivec2& b", "a.yx = b; a.w=0;", "int* a, const int* b", "a[1]=b[0];a[0]=b[1];", expect="differs")]
    for args in (("read", read, 900), ("index", idx, 200), ("write", write, 400)):
        h.append(c.pairs(args[0], args[1] + ctl, minimum=args[2], shard=90))
    for x in h:
        c.collect(x)
