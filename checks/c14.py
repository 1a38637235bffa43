"""--generate-attribute: the mock's functions carry exactly the selected attributes of the header's."""
import shutil
from vlib import sysh
from common import *

#                needs of the function -> attribute texts
ANY = ["unused", "cold", "hot", "noinline", "weak", "used", "visibility(\"hidden\")", "visibility(\"protected\")", "visibility(\"default\")", "deprecated", "deprecated(\"use it no more\")", "nothrow",
       "section(\".text.moved\")", "section(\".mine\")", "no_instrument_function", "flatten", "leaf", "aligned(64)", "__cold__", "__unused__", "__noinline__", "__nothrow__",
       "__weak__", "__visibility__(\"hidden\")", "error(\"not this one\")", "warning(\"a, b\")", "no_stack_protector", "minsize", "optnone, noinline", "constructor(2000)", "destructor", "annotate(\"x\")",
       "section ( \".text.spaced\" )", "aligned (\n 16 )", "__section__(\".text.under\")", "always_inline"]
RESULT = ["warn_unused_result", "pure", "const", "__warn_unused_result__", "__pure__", "__const__"]
PTR = ["nonnull", "nonnull(1)", "nonnull( 1 )", "__nonnull__(1)"]
PTR2 = ["nonnull(1, 2)", "nonnull(2,1)", "nonnull ( 1 ,2 )"]
RPTR = ["malloc", "returns_nonnull", "alloc_size(2)", "alloc_size(2, 3)", "assume_aligned(16)", "assume_aligned( 32,8 )", "alloc_align(2)", "__malloc__", "__returns_nonnull__", "__alloc_size__(2)"]
FMT = ["format(printf, 1, 2)", "format (scanf,1,2)", "__format__(__printf__, 1, 2)", "format(printf, 1, 0)", "format(strftime, 1, 0)", "nonnull(1)"]
SENT = ["sentinel", "sentinel(1)", "sentinel(0)"]
CLASH = [{"cold", "hot"}, {"pure", "const"}, {"always_inline", "noinline"}, {"always_inline", "optnone"}, {"optnone", "minsize"}, {"error", "warning"}, {"always_inline", "flatten"}]


def name_of(t):
    n = re.match(r"\w+", t).group(0)
    return "noreturn" if n == "__noreturn__" else n     # part of the type: one name for all its spellings


def kind(t):
    return name_of(t).strip("_")


def split(t):
    return ["optnone", "noinline"] if t == "optnone, noinline" else [t]


class Fun:
    def __init__(self, r, n, u):
        self.name = "%s_f%d" % (u, n)
        sh = r.choice(["any", "any", "result", "ptr", "ptr2", "rptr", "fmt", "sent", "noreturn"])
        self.pool = list(ANY)
        p, ret = r.choice(["void", "int a"]), "void"
        if sh != "any":
            self.pool += RESULT if sh in ("result", "ptr", "ptr2", "rptr") else []
            ret = "int"
        if sh == "ptr":
            p = "char *p"
            self.pool += PTR * 3
        if sh == "ptr2":
            p = "char *p, const int *q"
            self.pool += PTR2 * 3 + PTR
        if sh == "rptr":
            ret, p = r.choice([("void *", "void *o, unsigned long n, unsigned long m"), ("char *", "int o, unsigned long n, unsigned long m")])
            self.pool += RPTR * 3
        if sh == "fmt":
            p = "const char *f, ..."
            self.pool += FMT * 4
        if sh == "sent":
            p = "const char *f, ..."
            self.pool += SENT * 5
        self.ret, self.params = ret, p
        self.attrs = []
        for t in r.sample(self.pool, r.randint(0, 4)):
            if kind(t) in [kind(x) for y in self.attrs for x in split(y)]:
                continue
            ks = {kind(x) for y in self.attrs + [t] for x in split(y)}
            if any(len(c & ks) > 1 for c in CLASH) or (kind(t) == "noinline" and "optnone, noinline" in self.attrs):
                continue
            self.attrs.append(t)
        if sh == "noreturn":
            self.ret = "void"
            self.attrs = [a for a in self.attrs if kind(a) in ("cold", "weak", "unused", "section")] + [r.choice(["noreturn", "__noreturn__"])]

    def text(self, r):
        macros, groups, x = [], [], list(self.attrs)
        r.shuffle(x)
        while x:
            k = r.choice([1, 1, 2, len(x)])
            g, x = x[:k], x[k:]
            groups.append(g)
        before, after = [], []
        for i, g in enumerate(groups):
            t = "%s((%s))" % (r.choice(["__attribute__", "__attribute__", "__attribute", "__attribute__ "]), r.choice([", ", ",", " , "]).join(g))
            m = r.random()
            if m < 0.25:
                macros.append("#define %s_M%d %s" % (self.name, i, t.replace("\n", " ")))
                t = "%s_M%d" % (self.name, i)
            (before if r.random() < 0.4 else after).append(t)
        ret = self.ret if self.ret.endswith("*") else self.ret + " "
        pos = r.random()
        if before and pos < 0.3 and not ret.endswith("*"):
            d = "%s%s %s(%s)" % (ret, " ".join(before), self.name, self.params)
        elif before:
            d = "%s %s%s(%s)" % (" ".join(before), ret, self.name, self.params)
        else:
            d = "%s%s(%s)" % (ret, self.name, self.params)
        if r.random() < 0.2:
            d = "extern " + d
        return "\n".join(macros + [d + ("" if not after else " ") + r.choice([" ", "\n  "]).join(after) + ";"])

    def wanted(self, sel):
        a = [x for y in self.attrs for x in split(y) if name_of(x) in sel]
        ret = self.ret if self.ret.endswith("*") else self.ret + " "
        return a, "%s%s(%s)%s" % (ret, self.name, self.params, "".join(" __attribute__((%s))" % x for x in a))


def attrs_of(d):
    """the attributes libclang sees on a declaration"""
    return sorted(re.sub(r"\s+", "", x).replace("__", "") for x in re.findall(r"__attribute__\(\((.*?)\)\)(?=\s|$|;|_)", d["pretty"])) + (["noreturn"] if d["noreturn"] else [])


def symbols(obj):
    """{function: binding, visibility, section}"""
    secs, res = {}, {}
    for l in run2(["readelf", "-S", "-W", obj]).out.splitlines():
        m = re.match(r"\s*\[\s*(\d+)\]\s+(\S+)", l)
        if m:
            secs[m.group(1)] = m.group(2)
    for l in run2(["readelf", "-s", "-W", obj]).out.splitlines():
        f = l.split()
        if len(f) >= 8 and f[3] == "FUNC":
            res[f[7]] = (f[4], f[5], secs.get(f[6], f[6]))
    return res


BODY = "#include <stdlib.h>\n"


def one(chk, gen, exe, r, d, text, funs, key):
    os.makedirs(d, exist_ok=True)
    h = os.path.join(d, "h.h")
    open(h, "w").write(text)
    files = {"h.h": text}
    names = sorted({name_of(x) for f in funs for y in f.attrs for x in split(y)})
    if sysh.decls(exe, h) is None:
        raise HarnessError("attributes: the header does not parse: " + text)
    runs = [(True, set(names)), (True, set()), (False, set(names) - {"noreturn"})] + [(r.random() < 0.7, set(r.sample(names, r.randint(0, len(names))))) for _ in range(2)]
    for types, sel in runs:
        out = os.path.join(d, "out")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        opts = (["--generate-types"] if types else []) + [a for n in r.sample(sorted(sel), len(sel)) + r.choice([[], ["nope", "form"]]) for a in ("--generate-attribute", n)]
        bad = lambda k, w: chk.violation("%s:%s" % (key, k) if not key.startswith("corpus") else key, "options %s\n%s" % (opts, w), files=dict(files, **{x: open(os.path.join(out, x)).read() for x in os.listdir(out) if x.endswith((".h", ".c"))}))
        g = run2([gen, "-i", h, "-o", out] + opts, timeout=60)
        if g.rc or g.timeout:
            bad("generate", mocks.explain("generate", g))
            continue
        cc = r.choice(["clang", "gcc"])
        if any(kind(x) in ("optnone", "minsize", "error") for f in funs for y in f.attrs for x in split(y)):
            cc = "clang"
        c = run2([cc, "-std=gnu17", "-w", "-fno-inline", "-I" + FW + "/include", "-c", os.path.join(out, "easyMock_h.c"), "-o", os.path.join(out, "m.o")] + ([] if types else ["-I" + d]))
        if c.rc:
            bad("compile", "the mock does not compile with %s\n%s" % (cc, c.err[:2500]))
            continue
        mocked = [f for f in funs if types or not any(kind(x) == "noreturn" for x in f.attrs)]
        want = os.path.join(d, "want.h")
        open(want, "w").write("".join(f.wanted(sel if types else {name_of(x) for y in f.attrs for x in split(y)})[1] + ";\n" for f in mocked))
        w = {x["name"]: attrs_of(x) for x in sysh.decls(exe, want) or []}
        if len(w) != len(mocked):
            raise HarnessError("attributes: the expected header does not parse")
        ds = sysh.decls(exe, os.path.join(out, "easyMock_h.h"), ["-I" + FW + "/include", "-I" + d])
        if ds is None:
            bad("header", "the header of the mock does not compile")
            continue
        for f in mocked:
            got = [attrs_of(x) for x in ds if x["name"] == f.name]
            if not got:
                bad("missing", "%s is not declared by the mock's header" % f.name)
            elif any(sorted(set(x)) != sorted(set(w[f.name])) for x in got):
                bad("attributes", "%s is declared with %s and generated with %s" % (f.wanted(sel)[1], w[f.name], got))
            chk.saw(("attr", tuple(sorted(w[f.name])), types))
            chk.count("attributes_expected", len(w[f.name]))
            chk.count("attributes_not_selected", len([x for y in f.attrs for x in split(y)]) - len(w[f.name]))
        # the function itself
        stub = os.path.join(d, "stub.c")
        open(stub, "w").write('#include "want.h"\n' + "".join(
            "%s%s(%s) { %s }\n" % (f.ret + " ", f.name, f.params, "for(;;);" if any(kind(x) == "noreturn" for x in f.attrs) else "" if f.ret == "void" else "return 0;") for f in mocked))
        c = run2([cc, "-std=gnu17", "-w", "-fno-inline", "-c", stub, "-o", os.path.join(d, "stub.o")])
        if c.rc:
            raise HarnessError("attributes: the stub does not compile: " + c.err[:1500])
        a, b = symbols(os.path.join(d, "stub.o")), symbols(os.path.join(out, "m.o"))
        for f in mocked:
            if a.get(f.name) != b.get(f.name):
                bad("symbol", "%s: symbol of the mock is %s, expected %s" % (f.wanted(sel)[1], b.get(f.name), a.get(f.name)))
            chk.count("symbols_compared")


class Given(Fun):
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.attrs = name, ret, params, attrs


CORPUS = {
    "macro-arguments": ("#define NN(...) __attribute__((nonnull(__VA_ARGS__)))\nint f(char *a, char *b) NN(1, 2);", [("f", "int", "char *a, char *b", ["nonnull(1, 2)"])]),
    "macro-format": ("#define FMT(a, b) __attribute__((format(printf, a, b)))\nint f(const char *a, ...) FMT(1, 2);", [("f", "int", "const char *a, ...", ["format(printf, 1, 2)"])]),
    "macro-section": ("#define SEC(S) __attribute__((section(#S)))\nint f(int a) SEC(.text.x);", [("f", "int", "int a", ['section(".text.x")'])]),
    "macro-list": ("#define MANY __attribute__((cold, nonnull(1), warn_unused_result))\nMANY int f(int *x);\nint g(int *x) MANY;", [(n, "int", "int *x", ["cold", "nonnull(1)", "warn_unused_result"]) for n in "fg"]),
    "macro-of-macro": ("#define A cold\n#define B __attribute__((A))\n#define C B\nC int f(int *x);", [("f", "int", "int *x", ["cold"])]),
    "comma-in-string": ('int f(void) __attribute__((deprecated("a, b")));', [("f", "int", "void", ['deprecated("a, b")'])]),
    "redeclared": ("int f(char *a);\nint f(char *a) __attribute__((nonnull(1)));", [("f", "int", "char *a", ["nonnull(1)"])]),
    "nested-parentheses": ("int f(char *a) __attribute__((nonnull((1))));", [("f", "int", "char *a", ["nonnull(1)"])]),
    "expression": ("enum { one = 1 };\nint f(char *a) __attribute__((nonnull(1 + 0)));", [("f", "int", "char *a", ["nonnull(1)"])]),
    "escapes": ('int f(void) __attribute__((deprecated("\\"a\\" \\\\ b %d\\n")));', [("f", "int", "void", ['deprecated("\\"a\\" \\\\ b %d\\n")'])]),
    "two-formats": ("int f(const char *a, const char *b, ...) __attribute__((format(printf, 1, 3), format(scanf, 2, 3)));", [("f", "int", "const char *a, const char *b, ...", ["format(printf, 1, 3)", "format(scanf, 2, 3)"])]),
    "format-arg": ("const char *f(const char *a) __attribute__((format_arg(1)));", [("f", "const char *", "const char *a", ["format_arg(1)"])]),
    "_Noreturn": ("_Noreturn void f(int a);", []),
}


def check(chk):
    gen = build.generator(chk)
    exe = sysh.decls_tool(chk.tmp)
    chk.rule = "functions with random attributes written in random ways x random selections; attributes of the mock's declaration read by libclang, binding, visibility and section of its symbol, against a header written with the selected attributes only; distinct by attributes expected"
    chk.assumptions = ["C headers", "attributes which clang 18 and the generator's clang 14 know"]

    def corpus(k):
        text, fs = CORPUS[k]
        one(chk, gen, exe, rng_of(chk, "c", k), chk.dir("c-" + k), "#ifndef H\n#define H\n%s\n#endif\n" % text, [Given(*f) for f in fs], "corpus:" + k)
        chk.saw("corpus:" + k)

    def rnd(k):
        r = rng_of(chk, "a", k)
        funs = [Fun(r, i, "a%d" % k) for i in range(r.randint(1, 9))]
        d = chk.dir("a%d" % k)
        text = "#ifndef H\n#define H\n%s\n#endif\n" % "\n".join(f.text(r) for f in funs)
        one(chk, gen, exe, r, d, text, funs, "attr")
        if k < 2:
            chk.sample(text[:500])
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(corpus, sorted(CORPUS))
    pmap(rnd, range(3000 if chk.thorough else 300))
