"""Which functions are mocked: exactly those of the header which the options select, each once."""
import collections
import shutil
from vlib import adaptcpp
from vlib import sysh
from common import *


class Project:
    """a header which includes others, with declarations of every kind in each of them"""

    def __init__(self, r, d, uniq):
        self.r, self.d, self.u = r, d, uniq
        self.names, self.args, self.incdirs = [], [], []
        self.late = []
        self.k = 0

    def name(self):
        self.k += 1
        n = self.r.choice(["get", "run", "Set", "x", "do_it", "cmp", "f", "open_", "on", "a", "init"]) + "%d%s" % (self.k, self.r.choice(["", "_", "X", "_s"]))
        self.names.append(n)
        return n

    def decl(self, body_ok=True):
        r = self.r
        n = self.name()
        ret = r.choice(["int", "void", "char *", "const char *", "unsigned long", "struct %s_s *" % self.u, "struct %s_v" % self.u])
        args = r.choice(["void", "int a", "int a, char *b", "struct %s_s *p" % self.u, "const char *s, unsigned n", "int (*cb)(int), void *p"])
        body = "{ return 0; }" if ret not in ("void", "struct %s_v" % self.u) else "{ }" if ret == "void" else "{ struct %s_v v = {0}; return v; }" % self.u
        sig = "%s%s%s(%s)" % (ret, "" if ret.endswith("*") else " ", n, args)
        k = r.choices(["plain", "extern", "static", "inline", "static inline", "extern inline", "static inline attr", "noreturn", "_Noreturn", "attr", "macro-alias", "macro-self", "macro-undef", "func-macro", "twice",
                       "later", "bymacro", "xmacro", "line", "local", "cond", "paren", "nest", "split", "group", "pragma", "vararg", "old-macro", "define-by", "same-line", "defined-later"],
                      [10, 4, 2, 2, 4, 1, 1, 2, 1, 2, 2, 1, 2, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 2, 2, 2])[0]
        if k in ("plain", "later"):
            if k == "later":
                self.late.append(sig + ";")
            return sig + ";"
        if k == "extern":
            return "extern " + sig + ";"
        if k == "static":
            return "static " + sig + " " + body
        if k == "inline":
            return "inline " + sig + " " + body
        if k == "static inline":
            return "static inline " + sig + "\n" + body
        if k == "extern inline":
            return "extern inline __attribute__((gnu_inline)) " + sig + " " + body
        if k == "static inline attr":
            return "static __inline__ __attribute__((always_inline, unused)) " + sig + " " + body
        if k == "noreturn":
            return "void %s(%s) __attribute__((noreturn));" % (n, args)
        if k == "_Noreturn":
            return "_Noreturn void %s(%s);" % (n, args)
        if k == "attr":
            return sig + r.choice([" __attribute__((warn_unused_result));", " __attribute__((cold, nonnull));" if "*" in args else ";", " __attribute__((deprecated));", " __attribute__((unused));"])
        if k == "macro-alias":
            return "%s;\n#define %s %s" % (sig, n, self.name())
        if k == "macro-self":
            return "%s;\n#define %s %s" % (sig, n, n)
        if k == "macro-undef":
            return "#define %s other\n#undef %s\n%s;" % (n, n, sig)
        if k == "func-macro":
            return "%s;\n#define %s(...) (0)" % (sig, n)
        if k == "twice":
            return "%s;\n%s%s;" % (sig, r.choice(["", "extern ", "\n"]), sig)
        if k == "bymacro":
            return "#ifndef DECLARE_%s\n#define DECLARE_%s(r, n, ...) r n(__VA_ARGS__)\n#endif\nDECLARE_%s(%s, %s, %s);" % (self.u, self.u, self.u, ret, n, args)
        if k == "xmacro":
            return "#define LIST_%s(X) X(%s_p) X(%s_q)\n#define DO(n) int n(int);\nLIST_%s(DO)\n#undef DO" % (n, n, n, n)
        if k == "line":
            return "#line %d \"%s\"\n%s;" % (r.randint(1, 999), r.choice(["gen.y", "../x:y.c", "main.h", self.u + ".h", "/nope/nope.c"]), sig)
        if k == "local":
            return "static inline int use_%s(void) { extern int %s(int); return %s(1); }" % (n, n, n)
        if k == "cond":
            x = r.choice(["FEATURE", "defined(FEATURE)", "!defined(FEATURE)", "FEATURE == 2", "0", "__STDC__", "defined(__cplusplus)"])
            return "#if %s\n%s;\n#else\nint not_%s(void);\n#endif" % (x, sig, n)
        if k == "paren":
            return "int (%s)(int a);" % n
        if k == "nest":
            return "#ifdef __cplusplus\nextern \"C\" {\n#endif\n%s;\n#ifdef __cplusplus\n}\n#endif" % sig
        if k == "split":
            return sig.replace("(", "\n(\n", 1).replace(",", "\n,\n") + "\n;"
        if k == "group":
            return "typedef int %s_t(int);\n%s_t %s;" % (n, n, n)
        if k == "pragma":
            return "#pragma GCC visibility push(default)\n%s;\n#pragma GCC visibility pop" % sig
        if k == "vararg":
            return "int %s(const char *fmt, ...) __attribute__((format(printf, 1, 2)));" % n
        if k == "defined-later":
            q = r.choice(["static ", "inline ", "extern __inline__ __attribute__((gnu_inline)) "])
            return "%s%s;\n%s%s %s" % (q if q == "static " else "", sig, q, sig, body)
        if k == "old-macro":
            return "#define %s_IMPL %s\nint %s_IMPL(int);" % (n, n, n)
        if k == "define-by":
            return "#define CAT_%s(a, b) a##b\nint CAT_%s(%s, _cat)(int);" % (n, n, n)
        m = self.name()
        return "%s; int %s(void);" % (sig, m)

    def header(self, name, includes, n):
        lines = ["#ifndef G_%s_%s\n#define G_%s_%s" % (self.u, re.sub(r"\W", "_", name), self.u, re.sub(r"\W", "_", name))]
        body = [self.decl() for _ in range(n)]
        late, self.late = self.late, []
        for inc in includes:
            body.insert(self.r.randint(0, len(body)), "#include " + inc)
        # a function declared again, in the header which includes it too
        self.pending = getattr(self, "pending", [])
        for p in self.pending:
            if self.r.random() < 0.3:
                body.append(p)
        self.pending += late
        x = self.r.random()
        if x < 0.6:
            body += late
        lines += ["struct %s_s; struct %s_v;" % (self.u, self.u)] + body + ["#endif"]
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        text = "\n".join(lines) + "\n"
        open(p, "w").write(text)
        return text

    def build(self):
        r = self.r
        files = {}
        types = "#ifndef T_%s\n#define T_%s\nstruct %s_s { int a; };\nstruct %s_v { int b; char c; };\n#endif\n" % (self.u, self.u, self.u, self.u)
        open(os.path.join(self.d, "types_%s.h" % self.u), "w").write(types)
        files["types_%s.h" % self.u] = types
        sub = r.choice(["sub", "a b", "x-y.z", "d:e", "deep/er"])
        tinc = '"types_%s.h"' % self.u
        sysinc = ["<%s>" % x for x in r.sample(["stddef.h", "stdint.h", "ctype.h", "strings.h", "signal.h", "time.h", "locale.h", "setjmp.h", "limits.h"], r.randint(0, 2))]
        files["c.h"] = self.header(sub + "/c.h", [], r.randint(0, 5))
        files["a.h"] = self.header(sub + "/a.h", ['"c.h"'], r.randint(0, 6))
        files["b.h"] = self.header("b.h", r.sample(sysinc, min(1, len(sysinc))), r.randint(0, 6))
        files["x.inc"] = self.header("x.inc", [], r.randint(0, 3))
        self.main = r.choice(["main.h", "my-api.h", "v1.2.h", "api/main.h"])
        up = "../" if "/" in self.main else ""
        incs = [r.choice(['"%s%s/a.h"' % (up, sub), '"%s%s/../%s/a.h"' % (up, sub.split("/")[0], sub)])]
        if r.random() < 0.7:
            incs.append(r.choice(['"%sb.h"' % up, "<b.h>"]))
        if r.random() < 0.4:
            incs.append('"%sx.inc"' % up)
        if r.random() < 0.5:
            incs += sysinc
        text = self.header(self.main, incs, r.randint(2, 14))
        # the types first
        text = '#include "%s%s"\n' % (up, tinc.strip('"')) + text
        open(os.path.join(self.d, self.main), "w").write(text)
        files[self.main] = text
        self.args = ["-I" + self.d] + r.choice([[], ["-DFEATURE"], ["-DFEATURE=2"], ["-D", "FEATURE=0"]])
        if r.random() < 0.2:
            n = r.choice(self.names)
            self.args += ["-D%s=%s_renamed" % (n, n)]
        self.files = files
        return os.path.join(self.d, self.main)


def expected(ds, macros, included, types, only, ignored):
    """(the functions which must be mocked, those left open)"""
    must, no, open_, symbols = set(), set(), set(), {}
    for x in ds:
        n = x["name"]
        symbols[n] = x["sym"]
        special = x["inline"] or x["body"] or x["storage"] == 3 or x["noreturn"]
        if x["local"]:
            open_.add(n)
        elif (included or x["main"]) and (not only or n in only) and n not in ignored and n not in macros and (types or not special):
            must.add(n)
        else:
            no.add(n)
    for n in set(must):
        if not types and any(x["name"] == n and x["body"] for x in ds):
            must.discard(n)
            no.add(n)
        # static or inline in one declaration only
        elif not types and any(x["name"] == n and (x["inline"] or x["body"] or x["storage"] == 3 or x["noreturn"]) for x in ds):
            must.discard(n)
            open_.add(n)
    return must, open_ - must, symbols


def observed(obj):
    s = set(re.findall(r" [TW] (\S+)", run2(["nm", "--defined-only", obj]).out))
    return s


def judge(chk, gen, exe, macros, ds, main, d, opts, included, types, only, ignored, parse, cflags, bad, cc="clang"):
    out = os.path.join(d, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r = run2([gen, "-i", main, "-o", out] + opts + parse, timeout=120)
    if r.rc or r.timeout:
        return bad("generate", "the header is not mocked\n" + mocks.explain("generate", r))
    base = os.path.basename(main)[:-2]
    r = run2([cc, "-std=gnu17", "-w", "-I" + FW + "/include", "-c", os.path.join(out, "easyMock_%s.c" % base), "-o", os.path.join(out, "m.o")] + cflags)
    if r.rc:
        return bad("compile", "options %s: the mock does not compile\n%s" % (opts, r.err[:2500]))
    syms = observed(os.path.join(out, "m.o"))
    must, free, symbol = expected(ds, macros, included, types, only, ignored)
    mocked = {s[:-len("_ExpectAndReturn")] for s in syms if s.endswith("_ExpectAndReturn")}
    declared = {x["name"] for x in ds}
    shared = {n for n in symbol if n != symbol[n] or n in {s for m, s in symbol.items() if m != n}}     # by way of __asm__
    missing = sorted(n for n in must if n not in mocked or (symbol[n] not in syms and n not in shared))
    own = {x["name"] for x in ds if x["body"]}         # the header defines them itself
    extra = sorted(n for n in mocked | (syms & declared - shared - own) if n not in must and n not in free)
    if missing:
        bad("missing", "options %s: not mocked: %s" % (opts, missing[:20]))
    if extra:
        bad("unwanted", "options %s: mocked without being selected: %s" % (opts, extra[:20]))
    chk.saw(("sel", len(must), len(declared), tuple(opts)))
    chk.count("functions_selected", len(must))
    chk.count("functions_not_selected", len(declared) - len(must))


def macro_names(args, main):
    r = run2(["clang", "-xc", "-std=gnu17", "-w", "-E", "-dM", main] + args)
    return set(re.findall(r"^#define (\w+)", r.out, re.M)), r


def random_projects(chk, gen, exe):
    n = 700 if chk.thorough else 140

    def one(k):
        r = rng_of(chk, "p", k)
        d = chk.dir("p%d" % k)
        p = Project(r, d, "p%d" % k)
        main = p.build()
        macros, m = macro_names(p.args, main)
        ds = sysh.decls(exe, main, p.args)
        if ds is None or m.rc:
            raise HarnessError("the project does not compile: %s" % run2([exe, main, "-xc"] + p.args).err[:1500])
        names = sorted({x["name"] for x in ds})
        runs = [[]]
        for _ in range(4):
            o = []
            if r.random() < 0.5:
                o.append("inc")
            if r.random() < 0.4:
                o.append("types")
            if r.random() < 0.5:
                o.append("only")
            if r.random() < 0.4:
                o.append("ignore")
            runs.append(o)
        for o in runs:
            only = set(r.sample(names, min(len(names), r.randint(1, 6))) + r.choice([[], ["nope"]])) if "only" in o else set()
            ign = set(r.sample(names, min(len(names), r.randint(1, 6)))) if "ignore" in o else set()
            opts = (["--generate-included-functions"] if "inc" in o else []) + (["--generate-types"] if "types" in o else [])
            opts += [a for x in sorted(only) for a in ("--mock-only", x)] + [a for x in sorted(ign) for a in ("--ignore-generation-of", x)]
            tx = "types" in o
            if tx and "inc" in o and any(not x["file"].startswith(d) for x in ds):
                continue        # the types of the system's headers
            judge(chk, gen, exe, macros, ds, main, d, opts, "inc" in o, tx, only, ign, p.args, [] if tx else ["-I" + os.path.dirname(main)] + p.args,
                  lambda key, what: chk.violation(key, what, files=p.files), r.choice(["clang", "gcc"]))
        if k < 2:
            chk.sample({"main": p.files[p.main][-600:], "args": p.args})
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))


def installed(chk, gen, exe):
    hs = sysh.standalone(chk.dir("sys"), sysh.headers())

    def one(n):
        r = rng_of(chk, "s", n)
        ds = sysh.decls(exe, hs[n])
        if not ds:
            return
        d = chk.dir("s-" + n.replace("/", "_"))
        macros, _ = macro_names([], hs[n])
        runs = [(False, set(), set())]
        names = sorted({x["name"] for x in ds})
        if chk.thorough or r.random() < 0.3:
            runs.append((True, set(), set()))
        if chk.thorough or r.random() < 0.2:
            runs.append((True, set(r.sample(names, min(4, len(names)))), set()))
        for inc, only, ign in runs:
            opts = (["--generate-included-functions"] if inc else []) + [a for x in sorted(only) for a in ("--mock-only", x)]
            judge(chk, gen, exe, macros, ds, hs[n], d, opts, inc, False, only, ign, [], ["-iquote", os.path.dirname(hs[n])],
                  lambda key, what: chk.violation("sys:%s%s:%s" % (n, ":included" if inc else "", key), what))
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, sorted(hs))


class CppProject:
    """C++ headers which include each other: functions, namespaces, classes, overloads, and what is never mocked"""

    def __init__(self, r, d, uniq):
        self.r, self.d = r, d
        self.files, self.hs, self.extra, self.macros = {}, [], [], set()
        n = r.randint(1, 4)
        for i in range(n):
            h = adaptcpp.CppGen(r, "%sh%d" % (uniq, i), r.randint(1, 7), r.choice(["h", "hpp", "hh", "hxx"]))
            h.go()
            self.hs.append(h)
        self.main = self.hs[-1]
        again = []
        for i, h in enumerate(self.hs):
            lines = list(h.body)
            own, named = [f for f in h.funcs if not f.cls and not f.scope], set()
            for f in own:
                if r.random() < 0.12 and f.fn not in named:
                    named.add(f.fn)
                    # declared again, here or in the header which includes this one
                    d2 = "extern " + f.ret.decl("%s(%s)" % (f.fn, ", ".join(t.decl(n).strip() for n, t in f.params))).strip() + ";"
                    if h is self.main or r.random() < 0.5:
                        lines.append(d2)
                    else:
                        again.append(d2)
                        self.extra.append((f.fn, len(f.params)))
                if r.random() < 0.07 and f.fn not in named:
                    named.add(f.fn)
                    lines.append("#define %s %s" % (f.fn, r.choice([f.fn + "_x", f.fn])))
                    self.macros.add(f.fn)
                    if r.random() < 0.4:
                        lines.append("#undef " + f.fn)
                        self.macros.discard(f.fn)
            for k in range(r.randint(0, 3)):
                q = "z%d_%s" % (k, h.name)
                lines.insert(r.randint(0, len(lines)), r.choice([
                    "static int %s(int a) { return a; }", "inline int %s() { return 1; }", "namespace nz_%s { inline char *%s(char *p) { return p; } }" % (q, "%s"), "constexpr int %s(int a) { return a + 1; }",
                    "struct S_%s { int %s() { return 3; } };" % (q, "%s"), "[[noreturn]] void %s(int a);", "class C_%s { public: static int %s(int a); int x; };" % (q, "%s"),
                    "namespace { inline int %s(int a) { return a; } }", "static inline const char *%s(void) { return \"\"; }", "__attribute__((always_inline)) inline void %s(int) { }",
                    "struct L_%s { int %s(int a); int y; }; inline int L_%s::%s(int a) { return a; }" % (q, "%s", q, q), "int %s(char); inline int %s(char) { return 1; }" % ("%s", q),
                    "namespace ln_%s { long %s(); } inline long ln_%s::%s() { return 1; }" % (q, "%s", q, q)]) % q)
            if i:
                inc = self.hs[i - 1]
                lines.insert(0, '#include "%s.%s"' % (inc.name, inc.ext))
                if i > 1 and r.random() < 0.5:
                    x = r.choice(self.hs[:i - 1])
                    lines.insert(r.choice([0, 1]), '#include "%s.%s"' % (x.name, x.ext))
            if h is self.main:
                lines += again
            g = "H_%s" % h.name
            text = "#ifndef %s\n#define %s\n%s\n#endif\n" % (g, g, "\n".join(lines))
            self.files["%s.%s" % (h.name, h.ext)] = text
            open(os.path.join(d, "%s.%s" % (h.name, h.ext)), "w").write(text)

    def expected(self, included, only, ignored):
        """qualified name -> how many functions of that name"""
        c = collections.Counter()
        for h in self.hs:
            for f in h.funcs:
                here = included or h is self.main or (not f.cls and not f.scope and (f.fn, len(f.params)) in self.extra)
                if here and (not only or f.fn in only) and f.fn not in ignored and f.fn not in self.macros:
                    c["::".join(list(f.scope) + ([f.cls] if f.cls else []) + [f.fn])] += 1
            for scope, cls, n in h.hidden:
                if (included or h is self.main) and (not only or n in only) and n not in ignored:
                    c["::".join(list(scope) + [cls, n])] += 1
        return c


def cpp_projects(chk, gen):
    n = 160 if chk.thorough else 36

    def one(k):
        r = rng_of(chk, "cpp", k)
        d = chk.dir("q%d" % k)
        p = CppProject(r, d, "q%d" % k)
        name = "%s.%s" % (p.main.name, p.main.ext)
        names = sorted({f.fn for h in p.hs for f in h.funcs} | {n for h in p.hs for _, _, n in h.hidden})
        runs = [(False, set(), set())]
        for _ in range(3):
            runs.append((r.random() < 0.5, set(r.sample(names, min(len(names), r.randint(1, 5)))) if r.random() < 0.5 else set(), set(r.sample(names, min(len(names), r.randint(1, 5)))) if r.random() < 0.5 else set()))
        for j, (inc, only, ign) in enumerate(runs):
            out = os.path.join(d, "o%d" % j)
            os.makedirs(out)
            opts = ["--mock-cpp"] + (["--generate-included-functions"] if inc else [])
            opts += [a for x in sorted(only) for a in ("--mock-only", x)] + [a for x in sorted(ign) for a in ("--ignore-generation-of", x)]

            def bad(key, what):
                chk.violation("cpp:" + key, "%s %s: %s" % (name, " ".join(opts), what), files=p.files)
            x = run2([gen, "-i", os.path.join(d, name), "-o", out] + opts + ["-x", "c++"], timeout=120)
            if x.rc or x.timeout:
                bad("generate", mocks.explain("generate", x))
                continue
            x = run2([r.choice(["clang++", "g++"]), "-std=c++17", "-w", "-I" + d, "-I" + FW + "/include", "-c", os.path.join(out, "easyMock_%s.cpp" % p.main.name), "-o", os.path.join(out, "m.o")], timeout=300)
            if x.rc:
                bad("compile", "the mock does not compile\n" + x.err[:2500])
                continue
            defined, expects = collections.Counter(), collections.Counter()
            for l in run2(["nm", "-C", "--defined-only", os.path.join(out, "m.o")]).out.splitlines():
                q = l.split(" ", 2)
                if len(q) < 3 or q[1] not in "TW":
                    continue
                m = re.match(r"(?:EasyMock::)?[\w:]+", q[2])
                s = m.group(0) if m else q[2]
                if s.startswith("EasyMock::"):
                    if s.endswith("::ExpectAndReturn"):
                        expects[s[10:-17]] += 1
                elif q[1] == "T" and not s.startswith("easyMock"):
                    defined[s] += 1
            want = p.expected(inc, only, ign)
            for what, got in (("defined", defined), ("ready for expectations", expects)):
                if got != want:
                    bad(what.split()[0], "%s too few times: %s, too many: %s" % (what, dict(want - got), dict(got - want)))
            chk.saw(("cpp", sum(want.values()), inc, len(only), len(ign)))
            chk.count("cpp_functions_selected", sum(want.values()))
        if not k:
            chk.sample({"cpp": p.files[name][-500:]})
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))


# (header, options, mocked functions)
CORPUS = {
    "defined-later": ("int f(int a);\ninline int f(int a) { return a; }\nint g(void);", [], {"g"}),
    "defined-later-static": ("static int f(int a);\nint g(void);\nextern int h(void);\nstatic int f(int a) { return a; }\nint h(void) { return 1; }\nint h(void);", [], {"g"}),
    "inline-spellings": ("static __inline__ int a(void) { return 0; } static __inline char *b(void) { return 0; } inline int c(void) { return 0; } static\ninline\nlong d(void) { return 0; } _Noreturn void e(void);",
                         ["--generate-types"], {"a", "b", "c", "d", "e"}),
    "noreturn": ("void a(void) __attribute__((noreturn)); _Noreturn void b(void); extern void c(void) __attribute__((__noreturn__)); int d(void (*e)(void) __attribute__((noreturn)));", [], {"d"}),
    "redefined-macro": ("#define f g\n#undef f\nint f(void);\n#define f h\n#undef f\n", [], {"f"}),
    "empty": ("#define X 1\ntypedef int t;", [], set()),
    "mock-only-unknown": ("int a(void); int ab(void); int b(void);", ["--mock-only", "ab", "--mock-only", "c", "--mock-only", "A"], {"ab"}),
    "ignore-prefix": ("int a(void); int ab(void); int b(void);", ["--ignore-generation-of", "a", "--ignore-generation-of", "bb"], {"ab", "b"}),
    "both-lists": ("int a(void); int b(void); int c(void);", ["--mock-only", "a", "--ignore-generation-of", "a", "--mock-only", "c"], {"c"}),
    "same-name-as-tag": ("struct stat { int a; }; int stat(const char *p, struct stat *s); enum e { x }; int e(enum e v); union u { int a; }; void u(union u *v);", [], {"stat", "e", "u"}),
}


def corpus(chk, gen):
    def one(k):
        text, opts, want = CORPUS[k]
        d = chk.dir("c-" + k)
        r = mocks.gen_mock(gen, None, d, opts, text="#ifndef H\n#define H\n%s\n#endif\n" % text, name="x")
        chk.saw("corpus:" + k)
        if not r.rc and not r.timeout:
            r = run2(["clang", "-std=gnu17", "-w", "-I" + FW + "/include", "-c", os.path.join(d, "easyMock_x.c"), "-o", os.path.join(d, "m.o")])
        if r.rc or r.timeout:
            return chk.violation("corpus:" + k, "%s %s\n%s" % (text, opts, mocks.explain("mock", r)))
        got = {s[:-len("_ExpectAndReturn")] for s in observed(os.path.join(d, "m.o")) if s.endswith("_ExpectAndReturn")}
        if got != want:
            chk.violation("corpus:" + k, "%s %s: mocked: %s, expected: %s" % (text, opts, sorted(got), sorted(want)))
    pmap(one, sorted(CORPUS))


def check(chk):
    gen = build.generator(chk)
    exe = sysh.decls_tool(chk.tmp)
    chk.rule = "generated projects of several headers and the installed headers; the functions the compiled mock defines against those an independent libclang reading selects; distinct by sizes and options"
    chk.assumptions = ["C headers, and C++ headers within what --mock-cpp supports"]
    corpus(chk, gen)
    cpp_projects(chk, gen)
    random_projects(chk, gen, exe)
    installed(chk, gen, exe)
