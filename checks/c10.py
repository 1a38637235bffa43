"""A generated C mock compiles, links, and offers exactly the documented interface for the exact declared types."""
import itertools, shutil
from vlib import sysh
from vlib.cmodel import *
from common import *

STD = ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "size_t", "ssize_t", "ptrdiff_t", "wchar_t", "intptr_t", "uintptr_t", "off_t", "time_t",
       "pid_t", "mode_t", "int_fast16_t", "uint_least32_t", "intmax_t"]
SPELL = ["unsigned", "long int", "short unsigned", "short int", "signed", "long unsigned int", "unsigned long int", "int long long unsigned", "char signed", "signed char", "_Bool", "long signed",
         "unsigned long long int", "long long", "short", "unsigned char", "char", "int", "double", "float", "long double", "double long", "__int128", "unsigned __int128", "__int128_t", "__uint128_t", "bool"]
PREF = ["API", "extern", "EXTERN", "__attribute__((visibility(\"default\")))", "__extension__", "extern API"]
POST = ["__attribute__((nonnull))", "__attribute__((cold))", "POSTFIX", "__attribute__((deprecated(\"old (f), use g\")))", "__attribute__((noinline, unused))"]
COMMENTS = ["/* c (x), y; */", "// d (int e);\n ", "/* int z(int *q); */", "\n", "\t", ""]


class SigGen(cgen.Gen):
    """declarations spelled in many ways, with the types and outputs they must be mocked with"""

    def base(self):
        x = self.r.random()
        if x < 0.35:
            return self.pick(SPELL)
        if x < 0.55:
            return self.pick(STD)
        if x < 0.65:
            return "MT"
        c = self.recs * 2 + self.enums + [t for t in self.tds if t.res().kind not in ("ptr", "fnptr", "arr")]
        return self.pick(c).text() if c else "int"

    def sig_param(self):
        """(declaration with @ for the name, type, output: None no, text yes, ('sized', text), '?' unspecified)"""
        x = self.r.random()
        if x < 0.22:
            b = self.base()
            q = self.pick(["", "", "const ", "IN ", "volatile ", "register "])
            return q + b + " @", b, None
        if x < 0.42:
            b = self.base()
            b = b if b != "register" else "int"
            q = self.pick(["", "", "", "const "])
            s = self.pick(["", "", "", "const ", "restrict ", "__restrict "])
            sep = self.pick([" *", "* ", "*", " * "])
            post = q and self.r.random() < 0.3
            d = ("%s const%s%s@" % (b, sep, s)) if post else "%s%s%s%s@" % (q, b, sep, s)
            if self.r.random() < 0.2:
                d = ("IN " if q else self.pick(["OUT ", "INOUT "])) + ("%s%s%s@" % (b, sep, s))
            return d, "%s%s *" % (q, b), None if q else "%s *" % b
        if x < 0.50:
            b = self.base()
            k = self.r.randint(2, 4)
            st = "*" * k
            return "%s %s@" % (b, st), "%s %s" % (b, st), "%s %s" % (b, st)
        if x < 0.55:
            b = self.base()
            return "const %s **@" % b, "const %s **" % b, None if True else ""
        if x < 0.57:
            # const at any level
            b = self.base()
            qs = [self.r.random() < 0.4 for _ in range(self.r.randint(2, 5))]
            t = self.pick(["", "const "]) + b + " " + "*".join(["", *["const " if q else "" for q in qs[:-1]], ""])
            return t + ("const @" if qs[-1] else "@"), t, "?"
        if x < 0.59:
            b = self.base()
            f = self.pick(["const %s *const *@", "%s *const *@", "const %s *const *const @", "%s **const @"])
            return f % b, f.replace("@", "").replace("*const *const ", "*const *").replace("**const ", "**") % b, "?"
        if x < 0.66:
            f = self.pick([("void *@", "void *", ("sized", "void *")), ("const void *@", "const void *", None), ("void **@", "void **", ("sized", "void **")),
                           ("FILE *@", "FILE *", "?"), ("struct tm *@", "struct tm *", "struct tm *"), ("const struct tm *@", "const struct tm *", None),
                           ("struct timespec @", "struct timespec", None), ("void *const @", "void *", ("sized", "void *"))])
            return f
        if x < 0.74:
            b = self.pick([self.base(), "char", "int"])
            n = self.pick(["", "1", "4", "N", "2 * N", "sizeof(int)", "const 3", "restrict 3", "static 2"])
            if self.r.random() < 0.25:
                return "const %s @[%s]" % (b, n), "const %s *" % b, None
            if self.r.random() < 0.2:
                return "%s *@[%s]" % (b, n), "%s **" % b, "%s **" % b
            return "%s @[%s]" % (b, n), "%s *" % b, "%s *" % b
        if x < 0.86:
            r = self.pick(["int", "void", "char *", "const char *", "unsigned long", "double", "MT"])
            a = self.pick(["void", "int", "int a, void *b", "const char *s, unsigned n", "int (*)(int)", "MT m"])
            c = self.pick(["", "", "const "])
            f = self.r.random()
            if f < 0.7:
                return "%s (*%s@)(%s)" % (r, c, a), "%s (*)(%s)" % (r, a), None
            return "fnt @" if f < 0.8 else "fnp @" if f < 0.9 else "fnt *@", "fnt *", None
        if x < 0.92 and self.fwd:
            t = self.pick(self.fwd).text()
            if self.r.random() < 0.5:
                return t + " *@", t + " *", ("sized", t + " *")
            return "const %s *@" % t, "const %s *" % t, None
        if x < 0.96:
            b = self.pick(SPELL[:6])
            return "PTR(%s) @" % b, "%s *" % b, "?"
        return "va_list @", "va_list", "?"

    def sig_ret(self):
        x = self.r.random()
        if x < 0.2:
            return "void"
        if x < 0.5:
            return self.base()
        if x < 0.75:
            return self.pick(["", "", "const "]) + self.base() + " " + "*" * self.r.choice([1, 1, 1, 2, 3])
        if x < 0.85:
            return self.pick(["void *", "const void *", "FILE *", "struct tm *", "char **", "const char *const *", "fnp", "struct timespec", "char *const"])
        if self.fwd:
            return self.pick(self.fwd).text() + " *"
        return "MT"

    def func(self, k):
        r = self.r
        name = "%s%d_%s" % (self.pick(cgen.FN), k, self.u)
        n = min(9, int(r.expovariate(0.4)))
        if r.random() < 0.02:
            n = r.randint(10, 40)
        ps = [self.sig_param() for _ in range(n)]
        names = (r.sample(cgen.PN, n) if n <= 20 else ["q%d" % i for i in range(n)])
        sp = lambda: self.pick(COMMENTS) if r.random() < 0.1 else " "
        named = r.random() < 0.85
        ret = self.sig_ret()
        decls, canon = [], []
        for i, (d, t, o) in enumerate(ps):
            un = (not named and r.random() < 0.7 and "va_list" not in d and "static" not in d and not (d.startswith("PTR") and r.random() < 2))
            txt = d.replace("@", "" if un else names[i]).strip()
            if r.random() < 0.06:
                txt = self.pick(COMMENTS) + txt
            decls.append(txt)
            canon.append((t, o, None if un else names[i]))
        if n == 0:
            args = self.pick(["void", "void", " void ", ""])
        else:
            args = ("," + sp()).join(decls)
        var = ""
        variadic = n and r.random() < 0.06 and not any("va_list" in d for d in decls)
        if variadic:
            args += ", ..."
        pre = self.pick(PREF) if r.random() < 0.3 else ""
        post = self.pick(POST) if r.random() < 0.15 else ""
        if "nonnull" in post and not any("*" in t for t, _, _ in canon):
            post = ""
        star = re.search(r"^(.*?)(\**)$", ret.strip()).groups()
        head = "%s%s%s%s%s%s" % (pre + " " if pre else "", star[0].strip(), sp(), star[1], "" if star[1] else sp() or " ", name)
        text = "%s%s(%s)%s;" % (head, self.pick(["", "", " "]) if True else "", args, " " + post if post else "")
        x = r.random()
        if x < 0.04:
            text += "\n" + text
        elif x < 0.07:
            text = "%s %s(%s);\n" % (ret, name, ", ".join(t for t, _, _ in canon) or "void") + text if not variadic and not any("(*)" in t or "va_list" in t for t, _, _ in canon) else text
        elif x < 0.09 and not variadic and "..." not in text and n and "va_list" not in text and "//" not in text and "\n" not in text:
            text = "#define DECLARE_%s(NAME) %s\nDECLARE_%s(%s)" % (name, text.replace(name + " (", "NAME (").replace(name + "(", "NAME(").rstrip(";") + ";", name, name)
        self.h.items.append(text)
        self.sigs.append((name, ret, canon, variadic, n == 0 and args == ""))

    def go(self):
        self.sigs = []
        self.h.pre = ("#include <stdbool.h>\n#include <stdint.h>\n#include <stddef.h>\n#include <stdarg.h>\n#include <stdio.h>\n#include <time.h>\n#include <sys/types.h>\n#include <wchar.h>\n"
                      "#ifdef __cplusplus\nextern \"C\" {\n#endif\n"
                      "#ifndef API\n#define API __attribute__((visibility(\"default\")))\n#define EXTERN extern\n#define POSTFIX __attribute__((unused))\n#define IN const\n#define OUT\n#define INOUT\n#define MT unsigned short\n#define N 3\n"
                      "#define PTR(T) T *\n#endif\n#ifndef FNTD\n#define FNTD\ntypedef int fnt(int, char *);\ntypedef int (*fnp)(int, char *);\n#endif\n")
        cgen.Gen.go(self)
        self.h.items.append("#ifdef __cplusplus\n}\n#endif")
        return self.h


def interface(sigs, name):
    """C assertions on the interface of one mock"""
    o = ['#include "easyMock_%s.h"' % name, "#define SAME(x, ...) __builtin_types_compatible_p(__typeof__(&x), __VA_ARGS__)"]
    for fn, ret, canon, variadic, knr in sigs:
        ts = [t for t, _, _ in canon]
        void = ret == "void"
        full = ts + ([] if void else [ret]) + ["EasyMock_Matcher"] * len(ts)
        o.append('_Static_assert(SAME(%s_ExpectAndReturn, void (*)(%s)), "wrong type: %s_ExpectAndReturn");' % (fn, ", ".join(full) or "void", fn))
        outs = [x for _, x, _ in canon if x]
        if "?" in outs:
            continue
        if outs:
            alts = []
            for st in ("unsigned int", "unsigned long"):
                extra = []
                for x in outs:
                    extra += [x[1], st] if isinstance(x, tuple) else [x]
                alts.append("SAME(%s_ExpectReturnAndOutput, void (*)(%s))" % (fn, ", ".join(full + extra)))
            o.append('_Static_assert(%s, "wrong type: %s_ExpectReturnAndOutput");' % (" || ".join(sorted(set(alts))), fn))
    o.append("int interface_of_%s;" % adapt_id(name))
    return "\n".join(o) + "\n"


def adapt_id(s):
    return re.sub(r"\W", "_", s)


NAMES = ["%s", "%s-api", "%s.gen", "lib%s_v2", "%s+x", "x.%s.y"]
NOWARN = ["-std=gnu2x", "-w"]


# single declarations; those which fail are listed one by one in known-findings.txt
CORPUS = {
    "fn-macro-first": "#define API(x) x __attribute__((visibility(\"default\")))\nAPI(int) f(int a);",
    "attributes-around": "__attribute__((cold)) int *__attribute__((nonnull(1))) f(int *a); __attribute((cold)) char g(void); unsigned __attribute__((deprecated(\"a)) b\"))) h(void); const char __attribute((cold)) *k(void);",
    "joined-names": "struct a_b { int x; }; typedef struct a { char c; long d; } b_; typedef struct { int z; } x_; struct _x { char y; }; int f(struct a_b *p, b_ *q, struct _x *r, x_ *s); void g(x_ a, struct _x b, b_ c, struct a_b d);",
    "tag-and-typedef": "struct list { int a; }; typedef struct { struct list l; char z; } list; enum e { A }; typedef enum e e; typedef int struct_z; struct z { struct_z a; }; e f(struct list *p, list *q, list r); int g(struct z *a, e b, enum e *c);",
    "white-space": "unsigned long\r\n\vlong *f(unsigned\f\tlong \\\n a, const\\\r\n cha\\\nr *b);",
    "signed-char": "signed char f(signed char a, signed char *b);",
    "bool-native": "_Bool f(_Bool a, const _Bool b, _Bool *c, const _Bool *d);",
    "storage-macro": "#define EXT extern\n#define SEXT extern __inline\nEXT unsigned f(int a);",
    "storage-like-names": "struct nonstatic { int a; }; typedef int myextern; struct nonstatic f(struct nonstatic *a); extern myextern g(int a);",
    "comments": "const /*a*/ char /*b*/ *f(/* http://x */int /**/a);",
    "redeclared": "int f(int, char *); int f(const int a, char *const b);",
    "macro-array": "#include <stdbool.h>\n#define IN const\nint f(bool a[sizeof(int)], IN int b[ 2 ]);",
    "unnamed-macro": "#include <stdbool.h>\nint f(bool *, bool, const bool *);",
    "hidden-names": "int f(int errorMessage, int curCallVal, int currentCall_ptr, int paramName);",
    "second-declarator": "int f(int), g(int);",
    "volatile-pointee": "int f(volatile int *p);",
    "pointer-to-array": "int f(int (*m)[3]);",
    "array-of-arrays": "int f(int m[2][3]);",
    "variadic-callback": "int f(int (*cb)(const char *, ...));",
    "callback-typedef-returned": "typedef void (*vfn)(int, char *); int f(vfn a, vfn *b);",
    "callback-pointer": "typedef int (*cb)(int); int f(cb *a); cb *g(void);",
    "callback-pointer-typedef": "typedef int (*cb)(int); typedef cb *cbp; int f(cbp a, const cb b); cbp g(cbp *c);",
    "function-typedef": "typedef int fn(int); fn f; fn g;",
    "asm-label": "int f(int) __asm__(\"h\"); int g(int) __asm__(\"h\");",
    "va-list-unnamed": "#include <stdarg.h>\nint f(const char *, va_list);",
    "va-list-callback": "#include <stdarg.h>\nint f(int (*cb)(const char *, va_list));",
    "array-typedef": "typedef int arr_t[4]; int f(arr_t a, arr_t *b);",
    "void-typedef": "typedef void V; V f(int a);",
    "parenthesised-name": "int *(g)(int a);",
    "va-list-in-macro": "#include <stdarg.h>\n#define DECL(n) int n(va_list x)\nDECL(f);",
    "complex": "_Complex double f(_Complex double a);",
    "float128": "__float128 f(__float128 a);",
    "vector": "typedef int v4 __attribute__((vector_size(16))); v4 f(v4 a);",
    "atomic": "int f(_Atomic int *a);",
    "parameter-to_return": "int f(int to_return);",
    "parameter-local-names": "int f(int default_res, int currentCall, int currentDataCall, int mockedData, int printCallStack, int checkCallsOrder);",
    "parameter-out_x": "int f(int *x, int *out_x);",
    "parameter-size": "int f(void *x, int *x_size);",
    "const-typedef-return": "typedef const int ci; ci f(int a);",
    "struct-const-field-return": "struct s { const int a; }; struct s f(int a);",
    "forward-enum": "enum e; int f(enum e *a);",
    "bitfield-typedef": "typedef unsigned u; typedef u v; struct s { u a : 3; v b : 2; }; int f(struct s *a);",
    "bitfield-enum": "enum e { A, B }; typedef enum e te; struct s { te a : 3; enum e b : 2; const te c : 1; }; int f(struct s *a);",
    "bitfield-const": "struct s { const unsigned a : 3; int b; }; int f(struct s *a);",
    "redeclared-typedef-pointer": "typedef int td; int f(td *a); int f(int *a);",
    "function-returns-callback": "int (*f(int a))(char);",
    "callback-returns-callback": "int f(int (*(*cb)(char))(long));",
    "pointer-to-const-typedef": "typedef const int cb; int f(cb *a);",
    "output-typedef-forward": "typedef struct fw fw_t; int f(fw_t *a);",
    "comparator-array-of-arrays": "struct s { int a[2][3]; }; int f(struct s a);",
    "comparator-anonymous-twice": "struct s { struct { int a; } x; struct { int b; } y; }; int f(struct s a);",
    "comparator-enum-dup": "enum e { A = 1, B = 1, C = -1 }; struct s { enum e v; }; enum e f(enum e a, struct s b);",
}


def corpus(chk, gen):
    def one(name):
        d = chk.dir("corpus-" + name)
        files = {"x.h": "#ifndef X_H\n#define X_H\n%s\n#endif\n" % CORPUS[name]}
        key = "corpus:" + name
        r = mocks.gen_mock(gen, None, d, ["--generate-comparator-of", "EasyMock_all_comparators"], text=files["x.h"], name="x")
        chk.saw(key)
        if r.rc or r.timeout:
            return chk.violation(key, "not mocked: %s\n%s" % (CORPUS[name], mocks.explain("generate", r)), files=files)
        open(os.path.join(d, "u.c"), "w").write('#include "easyMock_x.h"\nvoid *easymock_users[] = {%s};\n' % ", ".join(
            "(void *)%s, (void *)%s_ExpectAndReturn" % (f, f) for f in ("f", "g") if re.search(r"\b%s\)?\(" % f, CORPUS[name]) or "DECL(%s)" % f in CORPUS[name]))
        for cc in ("clang", "gcc"):
            r = run2([cc] + NOWARN + ["-fPIC", "-c", "easyMock_x.c", "u.c", "-I.", "-I" + FW + "/include"], cwd=d)
            if not r.rc:
                r = run2([cc, "-shared", "-o", "x.so", "easyMock_x.o", "u.o", "-L" + chk.fwdir, "-lEasyMockFramework", "-Wl,--no-undefined", "-lunwind", "-ldw"], cwd=d)
            if r.rc:
                return chk.violation(key, "the mock of %s does not compile\n%s" % (CORPUS[name], mocks.explain(cc, r)), files=files)
    pmap(one, sorted(CORPUS))


def one_header(chk, gen, name, text, sigs, d, opts):
    """generate, compile, compare; returns the object"""
    files = {name + ".h": text}

    def bad(key, what):
        chk.violation(key, what, files=files)
    r = mocks.gen_mock(gen, None, d, opts, text=text, name=name)
    if r.rc != 0 or r.timeout:
        bad("generate", "the header is not mocked\n" + mocks.explain("generate", r))
        return None
    for sfx in ("c", "h"):
        p = os.path.join(d, "easyMock_%s.%s" % (name, sfx))
        if not os.path.exists(p):
            bad("generate", "no %s" % p)
            return None
        files[os.path.basename(p)] = open(p, errors="replace").read()
    inc = ["-I" + d, "-I" + FW + "/include"]
    open(os.path.join(d, "if_%s.c" % name), "w").write('#include "%s.h"\n' % name + interface(sigs, name))
    files["interface.c"] = interface(sigs, name)
    obj = os.path.join(d, name + ".o")
    for cc in ("clang", "gcc"):
        r = run2([cc] + NOWARN + ["-fPIC", "-c", os.path.join(d, "easyMock_%s.c" % name), "-o", obj if cc == "clang" else obj + "g"] + inc)
        if r.rc:
            e = re.findall(r"error: .*", r.err)
            bad("compile", "the mock does not compile with %s\n%s\n%s" % (cc, "\n".join(e[:3]), r.err[:2500]))
            return None
        r = run2([cc] + NOWARN + ["-c", os.path.join(d, "if_%s.c" % name), "-o", os.path.join(d, "if.%s.o" % name)] + inc)
        if r.rc:
            m = re.search(r"wrong type: (\w+)", r.err)
            bad("interface" if m else "use", "%s: %s\n%s" % (cc, m.group(0) if m else "the mock's header cannot be used", r.err[:2500]))
            return None
        chk.count("compiled_" + cc)
    # self-contained, includable twice, from C++, and together with the mocked header in any order
    variants = [("self-contained", "clang", '#include "easyMock_%s.h"\n' % name), ("twice", "gcc", '#include "easyMock_%s.h"\n#include "easyMock_%s.h"\n' % (name, name)),
                ("after the framework", "clang", '#include <easyMock.h>\n#include "easyMock_%s.h"\n#include "%s.h"\n' % (name, name))]
    for what, cc, t in variants:
        p = os.path.join(d, "v.%s.c" % name)
        open(p, "w").write(t)
        r = run2([cc] + NOWARN + ["-fsyntax-only", p] + inc)
        if r.rc:
            bad("include", "the mock's header cannot be included (%s)\n%s" % (what, r.err[:2000]))
            return None
    p = os.path.join(d, "v.%s.cpp" % name)
    open(p, "w").write('#include "%s.h"\n' % name)
    if run2(["g++", "-std=gnu++17", "-w", "-fsyntax-only", p] + inc).rc == 0:
        fs = "\n".join("void *p%d = (void *)&%s_ExpectAndReturn;" % (i, s[0]) for i, s in enumerate(sigs))
        open(p, "w").write('#include "easyMock_%s.h"\nnamespace user_of_%s {\n%s\n}\n' % (name, adapt_id(name), fs))
        r = run2(["g++", "-std=gnu++17", "-w", "-fPIC", "-c", p, "-o", os.path.join(d, "cpp.%s.o" % name)] + inc)
        if r.rc:
            bad("include", "the mock's header cannot be included from C++\n%s" % r.err[:2000])
            return None
        chk.count("included_from_cpp")
    # symbols
    r = run2(["nm", "--defined-only", "-g", obj])
    syms = set(re.findall(r" [TDBRVWC] (\w+)", r.out))
    want = set()
    for fn, ret, canon, variadic, knr in sigs:
        want |= {fn, fn + "_ExpectAndReturn"}
        outs = [x for _, x, _ in canon if x]
        if "?" in outs:
            syms.discard(fn + "_ExpectReturnAndOutput")
        elif outs:
            want.add(fn + "_ExpectReturnAndOutput")
        chk.saw(("sig", ret, tuple(t for t, _, _ in canon), variadic))
    extra = {s for s in syms - want if not s.startswith("cmp_")}
    if want - syms:
        bad("missing", "not defined by the mock: %s" % sorted(want - syms))
        return None
    for fn, *_ in sigs:
        if fn + "_ExpectReturnAndOutput" in extra:
            bad("output-without-pointer", "%s_ExpectReturnAndOutput exists although no parameter is an output" % fn)
            return None
    return obj, files


def installed(chk, gen):
    """the headers installed on the machine: each mock compiles and has the interface which libclang's reading of the header gives it"""
    names = sysh.headers()
    hs = sysh.standalone(chk.dir("sys"), names)
    exe = sysh.decls_tool(chk.tmp)

    def one(n):
        key, p = "sys:" + n, hs[n]
        ds = sysh.decls(exe, p)
        if ds is None:
            return
        d = chk.dir("sys-" + n.replace("/", "_"))
        try:
            chk.saw(key)
            r = run2([gen, "-i", p, "-o", d], timeout=120)
            if r.rc or r.timeout:
                return chk.violation(key, "%s is not mocked\n%s" % (n, mocks.explain("generate", r)))
            b = os.path.basename(p)[:-2]
            files = {x: open(os.path.join(d, x), errors="replace").read() for x in os.listdir(d)}
            fl = ["-std=gnu17", "-w", "-I" + d, "-I" + FW + "/include", "-iquote", os.path.dirname(p)]
            r = run2(["clang"] + fl + ["-c", os.path.join(d, "easyMock_%s.c" % b), "-o", os.path.join(d, "m.o")])
            if r.rc:
                return chk.violation(key, "the mock of %s does not compile\n%s" % (n, r.err[:2500]), files=files)
            syms = set(re.findall(r" T (\w+)", run2(["nm", "--defined-only", "-g", os.path.join(d, "m.o")]).out))
            o = ['#include "easyMock_%s.h"' % b, "#define SAME(x, ...) __builtin_types_compatible_p(__typeof__(&x), __VA_ARGS__)"]
            last = {}
            for x in ds:
                if x["name"] + "_ExpectAndReturn" in syms and x["proto"]:
                    last.setdefault(x["name"], x)
            for fn, x in last.items():
                ret = [] if x["cret"] == "void" else [x["ret"]]
                for a in x["args"]:
                    a[0] = re.sub(r"\[[^]]*\]", "[]", re.sub(r"struct __va_list_tag ?\*", "__builtin_va_list", a[0]), 1)
                full = [a[0] for a in x["args"]] + ret + ["EasyMock_Matcher"] * len(x["args"])
                o.append('_Static_assert(SAME(%s_ExpectAndReturn, void (*)(%s)), "wrong type: %s_ExpectAndReturn");' % (fn, ", ".join(full) or "void", fn))
                # typedef'd pointers are not looked through
                ptrs = [a for a in x["args"] if a[3]]
                if all(re.sub(r"\(.*", "", a[0]).count("*") + a[0].count("[") == a[3] and a[2] != "?" and "va_list" not in a[0] + a[1] for a in ptrs):
                    outs = [a for a in ptrs if a[2] in "pvi"]
                    if bool(outs) != (fn + "_ExpectReturnAndOutput" in syms):
                        chk.violation(key, "%s: %s: %s_ExpectReturnAndOutput is %s" % (n, x["pretty"], fn, "missing" if outs else "there although no parameter is an output"), files=files)
                    elif outs:
                        for a in outs:
                            full += [a[0]] + ([] if a[2] == "p" else ["easyMock_size_t"])
                        o.append('_Static_assert(SAME(%s_ExpectReturnAndOutput, void (*)(%s)), "wrong type: %s_ExpectReturnAndOutput");' % (fn, ", ".join(full), fn))
                chk.distinct.add("sysfun:" + fn)
            chk.count("functions_of_installed_headers", len(last))
            q = os.path.join(d, "if.c")
            open(q, "w").write("\n".join(o) + "\n")
            r = run2(["clang"] + fl + ["-fsyntax-only", "-ferror-limit=0", q])
            if r.rc:
                chk.violation(key, "%s: %s" % (n, "\n".join(re.findall(r"error: .*", r.err)[:5])), files=dict(files, **{"interface.c": open(q).read()}))
        finally:
            if not chk.keep:
                shutil.rmtree(d, ignore_errors=True)
    pmap(one, sorted(hs))


def with_comparators(chk, gen, fw):
    """mocks of different types, each with its comparators, in one program"""
    import c11

    def group(k):
        r = rng_of(chk, "w", k)
        objs, files = [], {}
        for i in range(5):
            name = "w%d_%d" % (k, i)
            h = c11.CmpGen(r, name, nfuncs=0, ntypes=r.randint(3, 9), uniq=name, shared=True).go()
            d = chk.dir(name)
            files[name + ".h"] = h.text()
            g = mocks.gen_mock(gen, h, d, ["--generate-comparator-of", "EasyMock_all_comparators"])
            if g.rc or g.timeout:
                return chk.violation("comparators:generate", mocks.explain("generate", g), files={name + ".h": h.text()})
            g = run2(["gcc", "-std=gnu11", "-w", "-fPIC", "-c", os.path.join(d, "easyMock_%s.c" % name), "-o", os.path.join(d, "m.o"), "-I" + d, "-I" + FW + "/include"])
            if g.rc:
                return chk.violation("comparators:compile", mocks.explain("gcc", g), files={name + ".h": h.text()})
            objs.append(os.path.join(d, "m.o"))
        g = run2(["gcc", "-shared", "-o", os.path.join(chk.tmp, "w%d.so" % k), "-Wl,--no-undefined"] + objs + ["-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw, "-lunwind", "-ldw"])
        chk.saw(("comparators-linked", k))
        if g.rc:
            chk.violation("comparators:link", "the mocks of different types cannot be linked together\n" + g.err[:2500], files=files)
        chk.count("linked_together_with_comparators", len(objs))
    pmap(group, range(40 if chk.thorough else 6))


def check(chk):
    gen, fw = pmap(lambda k: build.generator(chk) if k == "g" else build.framework(chk, san=False), ["g", "f"], 2)
    chk.rule = "random headers which spell declarations in many ways; each mock compiled by gcc and clang, its interface compared with the declared types by the compilers; distinct by signature"
    chk.assumptions = ["x86-64 Linux"]
    chk.fwdir = fw
    corpus(chk, gen)
    installed(chk, gen)
    n = 2000 if chk.thorough else 160

    def one(k):
        r = rng_of(chk, k)
        d = chk.dir("h%d" % k)
        g = SigGen(r, "h%d" % k, nfuncs=r.randint(1, 14), uniq="h%d" % k)
        h = g.go()
        name = NAMES[k % len(NAMES)] % ("h%d" % k)
        h.name = name
        opts = [[], ["--generate-comparator-of", "EasyMock_all_comparators"]][r.randrange(2)]
        x = one_header(chk, gen, name, h.text(), g.sigs, d, opts)
        if k < 2:
            chk.sample({"header_tail": h.text()[-500:], "options": opts})
        return x and x + (name, d, bool(opts))
    done = [x for x in pmap(one, range(n)) if x]
    with_comparators(chk, gen, fw)
    # all the mocks of a project go in one program
    done = [x for x in done if not x[4]]     # comparators of one type in two mocks are documented to clash
    if not chk.violations:
        for i in range(0, len(done), 10):
            grp = done[i:i + 10]
            cpp = [os.path.join(x[3], "cpp.%s.o" % x[2]) for x in grp]
            so = os.path.join(chk.tmp, "all%d.so" % i)
            r = run2(["gcc", "-shared", "-o", so, "-Wl,--no-undefined"] + [x[0] for x in grp] + [c for c in cpp if os.path.exists(c)] + ["-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw, "-lunwind", "-ldw"])
            if r.rc:
                f = {}
                for x in grp:
                    f.update(x[1])
                chk.violation("link", "the mocks of %s cannot be linked together\n%s" % ([x[2] for x in grp], r.err[:2500]), files=f)
            else:
                t = os.path.join(chk.tmp, "two%d.c" % i)
                open(t, "w").write("".join('#include "easyMock_%s.h"\n' % x[2] for x in grp))
                r = run2(["clang"] + NOWARN + ["-fsyntax-only", t, "-I" + FW + "/include"] + ["-I" + x[3] for x in grp])
                if r.rc:
                    chk.violation("include", "the headers of several mocks cannot be included together\n" + r.err[:2500])
                chk.count("linked_together", len(grp))
