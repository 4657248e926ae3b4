"""C18: generates client code over the public complex type, together with a description of what it means.

Every statement becomes C++ text (compiled by the compiler under test) and a list of steps for the
evaluator in harness/cplx_main.cpp, which follows the mathematical meaning with error bounds.

State of a program: complex variables z[0..5] and real variables d[0..3].  A location is z[i], a part of
z[i], or d[i]; temporaries exist only in the evaluator."""
import random

NZ, ND = 6, 4
# steps: op, dst, a, b with operands coded as ints: 0..5 z[i]; 100+i d[i]; 200+i z[i].Re; 300+i z[i].Im;
# 1000+i complex temporary; 2000+i real temporary; 4000+i complex output slot; 5000+i real output slot
OPS = ["mov", "add", "sub", "mul", "div", "conj", "jx", "mjx", "neg", "polar", "expj", "make", "re", "im", "norm", "abs", "arg", "const", "dadd", "dsub", "dmul", "dmov", "cplx", "zero"]
CODE = {o: i for i, o in enumerate(OPS)}


class Fn:
    def __init__(self, rnd, index, style):
        self.r, self.i, self.style = rnd, index, style
        self.steps, self.lines, self.helpers = [], [], []
        self.nt, self.nz, self.nd = 0, 0, 0
        self.consts = []
        self.alias = {}

    # ---- names of locations in the text
    def zname(self, i):
        if self.style == 1:
            return self.r.choice(["z%d" % i] + (["r%d" % i] if self.r.random() < 0.5 else []))
        return "z[%d]" % i

    def dloc(self, lvalue=False):
        """a real location: (text, code)"""
        r = self.r
        k = r.random()
        if k < 0.5:
            i = r.randrange(ND)
            return ("d%d" % i if self.style == 1 else "d[%d]" % i), 100 + i
        i = r.randrange(NZ)
        part = r.random() < 0.5
        if self.style == 1 and r.random() < 0.4:
            return ("x%d" % i if part else "y%d" % i), (200 if part else 300) + i
        return "%s.%s" % (self.zname(i), "Re" if part else "Im"), (200 if part else 300) + i

    def tmp(self, cplx):
        self.nt += 1
        return (1000 if cplx else 2000) + self.nt - 1

    def step(self, op, dst, a=-1, b=-1):
        self.steps.append((CODE[op], dst, a, b))

    def const(self):
        r = self.r
        v = r.choice([0.5, 2.0, -1.0, 3.0, -0.25, 1.5, 0.1, -7.0, round(r.uniform(-4, 4), 3)])
        self.consts.append(v)
        t = self.tmp(False)
        self.step("const", t, len(self.consts) - 1)
        return repr(v), t

    # ---- expressions: (text, code)
    def dexpr(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.35:
            return self.dloc() if r.random() < 0.8 else self.const()
        k = r.randrange(9)
        if k < 6:
            op = ["re", "im", "norm", "abs", "arg", "norm"][k]
            f = {"re": "Re", "im": "Im", "norm": "norm", "abs": "abs", "arg": "arg"}[op]
            x, c = self.zexpr(depth - 1)
            t = self.tmp(False)
            self.step(op, t, c)
            if r.random() < 0.08:
                return "(*p_%s)(%s)" % (f, x), t
            return "OTFFT::%s(%s)" % (f, x), t
        op = ["dadd", "dsub", "dmul"][k - 6]
        x, c = self.dexpr(depth - 1)
        y, e = self.dexpr(depth - 1)
        t = self.tmp(False)
        self.step(op, t, c, e)
        return "(%s %s %s)" % (x, {"dadd": "+", "dsub": "-", "dmul": "*"}[op], y), t

    def zexpr(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.3:
            i = r.randrange(NZ)
            return self.zname(i), i
        k = r.random()
        t = None
        if k < 0.5:  # binary
            op = r.choice(["add", "sub", "mul", "mul", "div"])
            s = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[op]
            form = r.randrange(5)
            if form == 0:
                x, a = self.dexpr(depth - 1)
                y, b = self.zexpr(depth - 1)
            elif form == 1:
                x, a = self.zexpr(depth - 1)
                y, b = self.dexpr(depth - 1)
            else:
                x, a = self.zexpr(depth - 1)
                y, b = self.zexpr(depth - 1)
            t = self.tmp(True)
            self.step(op, t, a, b)
            return "(%s %s %s)" % (x, s, y), t
        if k < 0.8:
            f = r.choice(["conj", "jx", "mjx", "neg"])
            x, a = self.zexpr(depth - 1)
            t = self.tmp(True)
            self.step(f, t, a)
            if r.random() < 0.08:
                return "(*p_%s)(%s)" % (f, x), t
            return "OTFFT::%s(%s)" % (f, x), t
        if k < 0.86:
            x, a = self.dexpr(depth - 1)
            y, b = self.dexpr(depth - 1)
            t = self.tmp(True)
            if r.random() < 0.5:
                self.step("polar", t, a, b)
                return "OTFFT::polar(%s, %s)" % (x, y), t
            self.step("make", t, a, b)
            return "complex_t(%s, %s)" % (x, y), t
        if k < 0.91:
            x, a = self.dexpr(depth - 1)
            t = self.tmp(True)
            self.step("expj", t, a)
            return "OTFFT::expj(%s)" % x, t
        if k < 0.94:
            x, a = self.dexpr(depth - 1)
            t = self.tmp(True)
            self.step("cplx", t, a)
            return "complex_t(%s)" % x, t
        if k < 0.95:
            t = self.tmp(True)
            self.step("zero", t)
            return "complex_t()", t
        x, a = self.zexpr(depth - 1)
        t = self.tmp(True)
        self.step("mov", t, a)
        return r.choice(["complex_t(std_of(%s))", "complex_t(std::complex<double>(%s))", "from_std(%s)"]) % x, t

    # ---- statements
    def statement(self):
        r = self.r
        k = r.random()
        depth = r.choice([1, 1, 2, 2, 3])
        if k < 0.3:
            x, c = self.zexpr(depth)
            i = r.randrange(NZ)
            self.step("mov", i, c)
            return "%s = %s;" % (self.zname(i), x)
        if k < 0.62:  # compound, often with itself or a part of itself
            i = r.randrange(NZ)
            op = r.choice(["add", "sub", "mul", "mul", "rmul", "rmul", "rdiv", "radd"])
            if op in ("add", "sub", "mul"):
                if r.random() < 0.35:
                    x, c = self.zname(i), i
                else:
                    x, c = self.zexpr(depth - 1)
            else:
                q = r.random()
                if q < 0.3:
                    x, c = "%s.Re" % self.zname(i), 200 + i
                elif q < 0.6:
                    x, c = "%s.Im" % self.zname(i), 300 + i
                else:
                    x, c = self.dexpr(depth - 1)
            real = {"add": "add", "sub": "sub", "mul": "mul", "rmul": "mul", "rdiv": "div", "radd": "add"}[op]
            s = {"add": "+=", "sub": "-=", "mul": "*=", "div": "/="}[real]
            t = self.tmp(True)
            self.step(real, t, i, c)
            self.step("mov", i, t)
            if op == "rdiv" and False:
                pass
            if r.random() < 0.15 and self.nz < 12:  # the value of the expression is the object
                self.step("mov", 4000 + self.nz, i)
                self.nz += 1
                return "oz[%d] = (%s %s %s);" % (self.nz - 1, self.zname(i), s, x)
            return "%s %s %s;" % (self.zname(i), s, x)
        if k < 0.8:  # change a real or a part
            y, c = self.dloc(True)
            x, e = self.dexpr(depth - 1)
            q = r.random()
            if q < 0.5:
                self.step("dmov", c, e)
                return "%s = %s;" % (y, x)
            op = r.choice(["dadd", "dsub", "dmul"])
            t = self.tmp(False)
            self.step(op, t, c, e)
            self.step("dmov", c, t)
            return "%s %s %s;" % (y, {"dadd": "+=", "dsub": "-=", "dmul": "*="}[op], x)
        if k < 0.9 and self.nd < 12:
            x, e = self.dexpr(depth)
            self.step("dmov", 5000 + self.nd, e)
            self.nd += 1
            return "od[%d] = %s;" % (self.nd - 1, x)
        if self.nz < 12:
            x, c = self.zexpr(depth)
            self.step("mov", 4000 + self.nz, c)
            self.nz += 1
            return "oz[%d] = %s;" % (self.nz - 1, x)
        return ";"

    def probe(self):
        """evaluate, modify the operand, evaluate the same expression again"""
        r = self.r
        out = []
        state = r.getstate()
        def observe():
            r.setstate(state)
            if self.want_d:
                x, e = self.dexpr(2)
                if self.nd < 12:
                    self.step("dmov", 5000 + self.nd, e)
                    self.nd += 1
                    out.append("od[%d] = %s;" % (self.nd - 1, x))
            else:
                x, c = self.zexpr(2)
                if self.nz < 12:
                    self.step("mov", 4000 + self.nz, c)
                    self.nz += 1
                    out.append("oz[%d] = %s;" % (self.nz - 1, x))
        self.want_d = r.random() < 0.5
        state = r.getstate()
        observe()
        r.seed(r.random())
        y, c = self.dloc(True)
        v, e = self.const()
        t = self.tmp(False)
        self.step("dadd", t, c, e)
        self.step("dmov", c, t)
        out.append("%s += %s;" % (y, v))
        after = r.getstate()
        observe()
        r.setstate(after)
        return out

    def build(self):
        r = self.r
        n = r.randint(4, 9)
        for _ in range(n):
            q = r.random()
            if q < 0.25:
                self.lines += self.probe()
            elif q < 0.35:  # a loop, unrolled for the evaluator
                first = len(self.steps)
                nz, nd = self.nz, self.nd
                body = [self.statement() for _ in range(r.randint(1, 2))]
                body_steps = self.steps[first:]
                if (self.nz, self.nd) == (nz, nd):
                    self.steps += body_steps
                    self.lines += ["for (int k = 0; k < two; k++) {"] + ["    " + b for b in body] + ["}"]
                else:
                    self.lines += body
            elif q < 0.5:  # through references that may name the same object
                self.call()
            else:
                self.lines.append(self.statement())
        return self

    def call(self):
        """a helper that cannot be inlined, with references to possibly the same objects"""
        r = self.r
        i, j, k = r.randrange(NZ), r.randrange(NZ), r.randrange(NZ)
        if r.random() < 0.4:
            j = i
        if r.random() < 0.3:
            k = i
        m = r.randrange(3)
        xcode = [100 + r.randrange(ND), 200 + i, 300 + i][m]
        xtext = ["d%s" % ("%d" % (xcode - 100) if self.style == 1 else "[%d]" % (xcode - 100)), "%s.Re" % self.zname(i), "%s.Im" % self.zname(i)][m]
        name = "h%d_%d" % (self.i, len(self.helpers))
        body = []
        for _ in range(r.randint(1, 2)):
            w = r.randrange(9)
            t = self.tmp(True)
            if w == 0:
                body.append("c = a * b;"); self.step("mul", t, i, j); self.step("mov", k, t)
            elif w == 1:
                body.append("c = a / b;"); self.step("div", t, i, j); self.step("mov", k, t)
            elif w == 2:
                body.append("a *= b;"); self.step("mul", t, i, j); self.step("mov", i, t)
            elif w == 3:
                body.append("a *= x;"); self.step("mul", t, i, xcode); self.step("mov", i, t)
            elif w == 4:
                body.append("a /= x;"); self.step("div", t, i, xcode); self.step("mov", i, t)
            elif w == 5:
                body.append("c = x * a + OTFFT::conj(b);")
                self.step("mul", t, xcode, i)
                t2, t3 = self.tmp(True), self.tmp(True)
                self.step("conj", t2, j); self.step("add", t3, t, t2); self.step("mov", k, t3)
            elif w == 6:
                body.append("a -= b; c += a;")
                self.step("sub", t, i, j); self.step("mov", i, t)
                t2 = self.tmp(True)
                self.step("add", t2, k, i); self.step("mov", k, t2)
            elif w == 7:
                td = self.tmp(False)
                body.append("x = OTFFT::norm(a); c = OTFFT::jx(b);")
                self.step("norm", td, i); self.step("dmov", xcode, td)
                self.step("jx", t, j); self.step("mov", k, t)
            else:
                body.append("c = OTFFT::mjx(a) - x;")
                self.step("mjx", t, i)
                t2 = self.tmp(True)
                self.step("sub", t2, t, xcode); self.step("mov", k, t2)
        self.helpers.append("static __attribute__((noinline)) void %s(complex_t& a, complex_t& b, complex_t& c, double& x)\n{\n    %s\n}" % (name, "\n    ".join(body)))
        self.lines.append("%s(%s, %s, %s, %s);" % (name, self.zname(i), self.zname(j), self.zname(k), xtext))

    def text(self):
        pre, post = [], []
        if self.style == 1:
            for i in range(NZ):
                pre.append("complex_t z%d = z[%d]; complex_t& r%d = z%d; double& x%d = z%d.Re; double& y%d = z%d.Im;" % (i, i, i, i, i, i, i, i))
                post.append("z[%d] = z%d;" % (i, i))
            for i in range(ND):
                pre.append("double d%d = d[%d];" % (i, i))
                post.append("d[%d] = d%d;" % (i, i))
        ar = "static const int st_%d[] = {%s};\nstatic const double co_%d[] = {%s};" % (
            self.i, ", ".join("%d, %d, %d, %d" % s for s in self.steps), self.i, ", ".join([repr(c) for c in self.consts] + ["0"]))
        return "\n".join(self.helpers + ["static void f%d(complex_t* z, double* d, complex_t* oz, double* od, int two)\n{\n    %s\n}" % (
            self.i, "\n    ".join(pre + self.lines + post)), ar])


# every operation once by itself: (evaluator's operation, operands, C++ statement)
DIRECT = [
    ("add", "zz", "*o = a + b;"), ("add", "zd", "*o = a + x;"), ("add", "dz", "*o = x + a;"),
    ("sub", "zz", "*o = a - b;"), ("sub", "zd", "*o = a - x;"), ("sub", "dz", "*o = x - a;"),
    ("mul", "zz", "*o = a * b;"), ("mul", "zd", "*o = a * x;"), ("mul", "dz", "*o = x * a;"),
    ("div", "zz", "*o = a / b;"), ("div", "zd", "*o = a / x;"), ("div", "dz", "*o = x / a;"),
    ("add", "zz", "complex_t c = a; c += b; *o = c;"), ("add", "zd", "complex_t c = a; c += x; *o = c;"),
    ("sub", "zz", "complex_t c = a; c -= b; *o = c;"), ("sub", "zd", "complex_t c = a; c -= x; *o = c;"),
    ("mul", "zz", "complex_t c = a; c *= b; *o = c;"), ("mul", "zd", "complex_t c = a; c *= x; *o = c;"),
    ("div", "zd", "complex_t c = a; c /= x; *o = c;"),
    ("mul", "zz", "complex_t c = a; *o = (c *= b);"), ("add", "zz", "complex_t c = a; *o = (c += b);"),
    ("conj", "z", "*o = OTFFT::conj(a);"), ("jx", "z", "*o = OTFFT::jx(a);"), ("mjx", "z", "*o = OTFFT::mjx(a);"), ("neg", "z", "*o = OTFFT::neg(a);"),
    ("conj", "z", "*o = p_conj(a);"), ("jx", "z", "*o = p_jx(a);"), ("mjx", "z", "*o = p_mjx(a);"), ("neg", "z", "*o = p_neg(a);"),
    ("re", "z", "*d = OTFFT::Re(a);"), ("im", "z", "*d = OTFFT::Im(a);"), ("norm", "z", "*d = OTFFT::norm(a);"), ("abs", "z", "*d = OTFFT::abs(a);"), ("arg", "z", "*d = OTFFT::arg(a);"),
    ("re", "z", "*d = p_Re(a);"), ("im", "z", "*d = p_Im(a);"), ("norm", "z", "*d = p_norm(a);"), ("abs", "z", "*d = p_abs(a);"), ("arg", "z", "*d = p_arg(a);"),
    ("polar", "de", "*o = OTFFT::polar(x, y);"), ("expj", "d", "*o = OTFFT::expj(x);"), ("cplx", "d", "*o = complex_t(x);"), ("cplx", "d", "*o = x;"), ("make", "de", "*o = complex_t(x, y);"),
    ("mov", "z", "*o = complex_t(std_of(a));"), ("mov", "z", "*o = from_std(std::complex<double>(a));"), ("mov", "z", "*o = a;"),
]


def direct():
    out = ["struct Direct { int op; int kind; void (*f)(const complex_t&, const complex_t&, double, double, complex_t*, double*); const char* text; };", 'extern "C" { extern const Direct otv_direct[]; extern const int otv_ndirect; }']
    kinds = ["z", "zz", "zd", "dz", "d", "de"]
    for i, (op, k, text) in enumerate(DIRECT):
        out.append("static __attribute__((noinline)) void dir%d(const complex_t& a, const complex_t& b, double x, double y, complex_t* o, double* d) { %s }" % (i, text))
    out.append("const Direct otv_direct[] = {\n%s\n};" % "\n".join('    {%d, %d, dir%d, "%s"},' % (CODE[op], kinds.index(k), i, text) for i, (op, k, text) in enumerate(DIRECT)))
    out.append("const int otv_ndirect = %d;" % len(DIRECT))
    return "\n".join(out)


def generate(seed, count):
    rnd = random.Random(seed)
    out = ['#include "%s"' % "otfft_complex.h", "using OTFFT::complex_t;",
           "static inline std::complex<double> std_of(const complex_t& a) { return a; }",
           "static inline complex_t from_std(const std::complex<double>& a) { complex_t b = a; return b; }"]
    for f in ("conj", "jx", "mjx", "neg"):
        out.append("static complex_t (*volatile p_%s)(const complex_t&) = &OTFFT::%s;" % (f, f))
    for f in ("Re", "Im", "norm", "abs", "arg"):
        out.append("static double (*volatile p_%s)(const complex_t&) = &OTFFT::%s;" % (f, f))
    fns = [Fn(random.Random(rnd.random()), i, i % 2).build() for i in range(count)]
    out += [f.text() for f in fns]
    out.append("struct Entry { void (*f)(complex_t*, double*, complex_t*, double*, int); const int* steps; int nsteps; const double* consts; int nt; int nz; int nd; };")
    out.append('extern "C" { extern const Entry otv_programs[]; extern const int otv_nprograms; }')
    out.append("const Entry otv_programs[] = {\n%s\n};" % "\n".join(
        "    {f%d, st_%d, %d, co_%d, %d, %d, %d}," % (f.i, f.i, len(f.steps), f.i, f.nt, f.nz, f.nd) for f in fns))
    out.append("const int otv_nprograms = %d;" % count)
    out.append(direct())
    return "\n".join(out) + "\n", fns


if __name__ == "__main__":
    import sys
    print(generate(int(sys.argv[1]), int(sys.argv[2]))[0])
