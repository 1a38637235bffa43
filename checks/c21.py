"""The macros of a header in the mock header which stands in for it (--generate-types)."""
import shutil
from common import *

TOK = re.compile(r'\s+|(?:u8|u|U|L)?"(?:\\.|[^"\\])*"|(?:u8|u|U|L)?\'(?:\\.|[^\'\\])*\'|\.?\d(?:[eEpP][+-]|[\w.])*|\w+|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|.', re.S)
NAMES = ["M_%s" % w for w in "A B C D E F G H K L N P Q R S T U V W X Y Z LONG_NAME lower b2 _x x_ int1 END".split()]
ARGS = ["1", "x", "a + b", "", "(1, 2)", "\"s, t\"", "'c'", "f(x, y)", "-1", "0x1fUL", "1.5e-3", "a[2]", "->m", "{ 1 }", "x y"]
WORDS = ["int", "const", "x1", "foo", "unsigned", "static", "struct s", "return", "sizeof", "__attribute__", "_Bool", "do", "while"]
LITS = ["0", "1", "42", "0x7fU", "1.5", "2e+3", ".5f", "077", "'a'", "'\\n'", "'\\''", "\"\"", "\"text\"", "\"two  words\"", "\"a\\\"b\"", "\"// no comment\"", "L\"wide\"", "u8\"u\"", "\"%d\\n\"", "100000000000LL", "0b101", "'\\\\'", "\"tab\\t\"", "\"/* no */\"", "\"{{X}}\"", "\"a,b)\""]
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "~", "!", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "=", "+=", "->", ".", "?", ":", ",", ";", "++", "--", "-=", "<<=", "..."]


class M:
    def __init__(self, name, params, variadic, body, paste=False):
        self.name, self.params, self.variadic, self.body, self.paste = name, params, variadic, body, paste


def body(r, params, va, others, paste):
    def unit(depth=0):
        x = r.random()
        if x < 0.22 and params:
            return [r.choice(params)]
        if x < 0.27 and va:
            return [va]
        if x < 0.31 and va == "__VA_ARGS__":
            return [",", "##", va]
        if x < 0.36 and params:
            return ["#", r.choice(params)]
        if x < 0.38 and va:
            return ["#", va]
        if x < 0.50 and others:
            m = r.choice(others)
            if m.params is None:
                return [m.name]
            if m.paste and not (params and paste):
                n = [r.choice(["q", "w2", "7"]) for _ in m.params]
            else:
                n = [r.choice((params or ["x"]) + ["1", "y"]) for _ in m.params]
            if m.variadic:
                n += [r.choice(["1", "y"]) for _ in range(r.randint(1, 2))]
            out = [m.name, "("]
            for i, a in enumerate(n):
                out += ([","] if i else []) + [a]
            return out + [")"]
        if x < 0.56 and depth < 3:
            o, c = r.choice([("(", ")"), ("[", "]"), ("{", "}")])
            return [o] + [t for _ in range(r.randint(0, 3)) for t in unit(depth + 1)] + [c]
        if x < 0.70:
            return [r.choice(LITS)]
        if x < 0.82:
            return r.choice(WORDS).split()
        return [r.choice(OPS)]
    if r.random() < 0.08:
        return []
    out = [t for _ in range(r.choice([1, 1, 2, 3, 4, 6, 12, 30])) for t in unit()]
    if paste and params:
        p = r.choice(params)
        out += r.choice([[p, "##", "_sfx"], ["pre_", "##", p], [p, "##", r.choice(params)], ["L", "##", "_", "##", p, "##", "9"]])
    if not params and va is None:
        out = [t for t in out if t != "#"]
    return out


def spell(r, toks):
    """the tokens as text: spaces, comments and splices between them"""
    out = ""
    for i, t in enumerate(toks):
        if i:
            x = r.random()
            tight = not (re.match(r"[\w\"'.]", t[0]) and re.match(r"[\w\"'.]", out[-1])) and (t[0] in "()[]{},;" or out[-1] in "()[]{},;") and t != "..." and out[-1] != "."
            out += "" if tight and x < 0.6 else " " if x < 0.75 else "  " if x < 0.8 else "\t" if x < 0.84 else " /* c */ " if x < 0.9 else " \\\n  "
        out += t
    return out


def define(r, m):
    t = r.choice(["#define ", "#define ", "# define ", "#  define\t", " #define "]) + m.name
    if m.params is not None:
        p = list(m.params)
        if m.variadic == "__VA_ARGS__":
            p.append("...")
        elif m.variadic:
            p.append(m.variadic + r.choice(["...", " ..."]))
        t += "(" + r.choice(["", " "]) + r.choice([",", ", ", " , "]).join(p) + r.choice(["", " "]) + ")"
    b = spell(r, m.body)
    return t + (" " + b if b else r.choice(["", " ", " /* nothing */"])) + r.choice(["", "", " // the end", " /* the end */"])


class Macros:
    def __init__(self, r, tag, redefine=False):
        self.r, self.live = r, {}
        self.files = {}
        names = r.sample(NAMES, r.randint(3, len(NAMES)))
        nfiles = r.choice([1, 1, 2, 3])
        parts = [[] for _ in range(nfiles)]
        order = list(range(nfiles))
        gone = []
        # what is included comes first: the files are written in the order in which they are read
        for f in order:
            for _ in range(r.randint(2, 14)):
                x = r.random()
                if x < 0.12 and self.live:
                    n = r.choice(sorted(self.live))
                    parts[f].append("#undef " + n)
                    gone.append(n)
                    del self.live[n]
                elif x < 0.18:
                    parts[f].append(r.choice(["#undef M_NEVER", "#ifdef M_NEVER\n#define M_DEAD%d 1\n#endif" % r.randint(1, 9), "#if 0\n#define M_DEAD 2\n#undef M_A\n#endif",
                                              "/* #define M_COMMENTED 1 */", "// #define M_COMMENTED 2", "#pragma once" if f < nfiles - 1 else "#pragma GCC poison m_poisoned"]))
                elif x < 0.30 and self.live and not redefine:
                    # the same once more, which says nothing new
                    m = self.live[r.choice(sorted(self.live))]
                    parts[f].append("#ifndef %s\n#define %s other\n#endif" % (m.name, m.name))
                else:
                    n = r.choice(names)
                    m = self.macro(n)
                    if n in self.live:
                        if not redefine or r.random() < 0.5:
                            parts[f].append("#undef " + n)
                    d = define(r, m)
                    parts[f].append(d if r.random() < 0.85 else "#if 1\n%s\n#else\n#define %s wrong\n#endif" % (d, n))
                    self.live[n] = m
                    if n in gone:
                        gone.remove(n)
        self.gone = set(gone) - set(self.live)
        fn = "int fun_%s(int a);\n" % tag
        text = fn
        for f in range(nfiles - 1):
            name = "inc%d_%s.h" % (f, tag)
            guard = "INC%d_%s" % (f, tag)
            self.files[name] = "\n".join(parts[f]) + "\n"
            if "#pragma once" not in self.files[name]:
                self.files[name] = "#ifndef %s\n#define %s\n%s#endif\n" % (guard, guard, self.files[name])
                self.live[guard] = M(guard, None, None, [])
        main = "".join('#include "%s"\n' % n for n in self.files)
        guard = "HDR_%s" % tag
        self.text = "#ifndef %s\n#define %s\n%s%s\n%s#endif\n" % (guard, guard, main, "\n".join(parts[-1]), fn)
        self.live[guard] = M(guard, None, None, [])

    def macro(self, n):
        r = self.r
        others = [m for m in self.live.values() if m.name != n]
        x = r.random()
        if x < 0.4:
            return M(n, None, None, body(r, [], None, others, False))
        np = r.choice([0, 0, 1, 1, 1, 2, 2, 3, 5])
        params = r.sample(["a", "b", "x", "y", "arg", "_p", "int_", "M", "fmt"], np)
        va = None
        if r.random() < 0.3:
            va = r.choice(["__VA_ARGS__", "__VA_ARGS__", "args", "rest"])
        paste = np > 0 and r.random() < 0.25
        return M(n, params, va, body(r, params, va, others, paste), paste)

    def uses(self):
        """[text] invocations"""
        r, out = self.r, []
        for n in sorted(self.live):
            m = self.live[n]
            if m.params is None:
                out += [n, "%s(1)" % n, "-%s-" % n]
                continue
            out.append(n + ";")
            for _ in range(4):
                a = [r.choice(["q", "w2", "7", "id_"]) if m.paste else r.choice(ARGS + sorted(self.live)[:3]) for _ in m.params]
                if m.variadic:
                    a += [r.choice(ARGS) for _ in range(r.randint(0, 3))]
                out.append("%s%s(%s)" % (n, r.choice(["", " "]), ", ".join(a)))
            if not m.params:
                out.append("%s() ( %s ) [%s]" % (n, n, n))
        return out + sorted(self.gone)


def toks(t):
    return [x for x in TOK.findall(t) if not x.isspace()]


def loose(t):
    """the text without white space: what # makes of the spaces between tokens is left out, and gcc leaves the space out after some pasted tokens"""
    return re.sub(r"\s+", "", t)


def macros_of(text):
    out = {}
    for l in text.splitlines():
        m = re.match(r"#define (\w+)(\([^)]*\))?(?: (.*))?$", l)
        if m:
            out[m.group(1)] = (None if m.group(2) is None else re.sub(r"\s+", "", m.group(2)), toks(m.group(3) or ""))
    return out


def preprocess(cc, d, inc, extra, text, fw, flags):
    p = os.path.join(d, "use.c")
    open(p, "w").write('#include "%s"\n%s' % (inc, text))
    return run([cc, "-P" if extra != ["-dM"] else "-w", "-E", "-w", "-I" + d, "-I" + fw + "/include"] + extra + flags + [p], timeout=60)


def accepted(d, inc, uses, fw, flags):
    """the uses which the compiler does not refuse, and what it makes of them"""
    lines = list(uses)
    for _ in range(6):
        a = preprocess("gcc", d, inc, [], "".join("@%d@ %s @\n" % (i, u) for i, u in enumerate(lines)), fw, flags)
        if a.rc == 0:
            return lines, a
        bad = {int(x) - 2 for x in re.findall(r"use\.c:(\d+):\d+: (?:error|fatal)", a.err)}
        lines = [u for i, u in enumerate(lines) if i not in bad] if bad else []
    return [], preprocess("gcc", d, inc, [], "", fw, flags)


CORPUS = [
    ("guards", "#ifndef G_H\n#define G_H\n#define M_A 1\nint f(int a);\n#endif\n"),
    ("no-parameter", "#define M_A() 7\n#define M_B( ) M_A()\n#define M_C() \nint f(int a);\n"),
    ("gnu-variadic", "#define M_A(a, b...) f(a, ##b)\n#define M_B(all...) all\nint f(int a);\n"),
    ("variadic", "#define M_A(a, ...) f(a, __VA_ARGS__)\n#define M_B(...) #__VA_ARGS__\nint f(int a);\n"),
    ("object-with-parentheses", "#define M_A (x)\n#define M_B (a, b) a\n#define M_C(a) (a)\nint f(int a);\n"),
    ("last-definition", "#define M_A 1\n#define M_A 2\n#define M_B(a) a\n#define M_B b\nint f(int a);\n"),
    ("undefined", "#define M_A 1\n#undef M_A\n#define M_B 1\n#undef M_B\n#define M_B 2\nint f(int a);\n"),
    ("after-the-functions", "int f(int a);\n#define M_A 1\n#define f f\n"),
    ("push-macro", "#define M_A 1\n#pragma push_macro(\"M_A\")\n#undef M_A\n#define M_A 2\n#pragma pop_macro(\"M_A\")\nint f(int a);\n"),
    ("hidden-function", "int f(int a);\n#define f(x) (f)(x)\n#define M_A f\n"),
    ("template-text", "#define M_A \"{{MOCKED_HEADER_FILENAME}}\"\n#define M_B {{ 1 }}\n#define M_C {{#X}}\nint f(int a);\n"),
    ("paste", "#define M_A(a, b) a ## b\n#define M_B(a) x##a##_y\n#define M_C(a) #a #a\nint f(int a);\n"),
    ("keywords", "#define M_inline inline\n#define M_A __inline__ __attribute__((unused))\n#define M_B _Alignas(16)\nint f(int a);\n"),
    ("typed", "#define M_T unsigned long\n#define M_P(t) t *\ntypedef M_T u_t;\nu_t f(M_P(char) a);\n"),
]


def check(chk):
    gen, fw = tools(chk)[0], FW
    chk.rule = "headers with object-like, function-like and variadic macros (defined, undefined, defined again, in included files and conditions), mocked with --generate-types; distinct by shapes of macros seen"
    chk.assumptions = ["the macros which the files of the header define, not those which the parser of the generator predefines", "white space aside: the documented format puts a space between all tokens of a macro"]

    def one(name, text, files, uses, opts, flags, live=None, gone=()):
        key = name if live is None else "macros"
        d = chk.dir(name)
        o = os.path.join(d, "o")
        os.mkdir(o)
        allf = dict(files)
        allf["x_%s.h" % name] = text
        for n, t in allf.items():
            open(os.path.join(d, n), "w").write(t)
        inc = "x_%s.h" % name
        # what the header means, to the compiler
        ref = preprocess("gcc", d, inc, ["-dM"], "", fw, flags)
        base = preprocess("gcc", d, "/dev/null", ["-dM"], "", fw, flags)
        if ref.rc or base.rc:
            raise HarnessError("the header is not fine: " + ref.err[:600] + text)
        lines, a = accepted(d, inc, uses, fw, flags)
        r = run2([gen, "-i", os.path.join(d, inc), "-o", o, "--generate-types"] + opts + flags, timeout=60)
        mock = os.path.join(o, "easyMock_" + inc)
        if r.rc or r.timeout or not os.path.exists(mock):
            chk.violation(key + ":refused", "the header is not mocked\n%s\n%s" % (mocks.explain("generate", r), text), files=allf)
            return
        allf["easyMock_" + inc] = open(mock).read()
        got = preprocess("gcc", o, "easyMock_" + inc, ["-dM"], "", fw, [])
        b = preprocess("gcc", o, "easyMock_" + inc, [], "".join("@%d@ %s @\n" % (i, u) for i, u in enumerate(lines)), fw, [])
        if got.rc or b.rc:
            chk.violation(key + ":mock", "the mock header can't be preprocessed\n%s\n%s" % ((got.err + b.err)[:800], text), files=allf)
            return
        want, have, pre = macros_of(ref.out), macros_of(got.out), macros_of(base.out)
        for n in sorted(want):
            if n in pre and pre[n] == want[n]:
                continue
            p, t = want[n]
            kind = "object" if p is None else "variadic" if "..." in p else "no-parameter" if p == "()" else "function"
            chk.count("macros compared")
            chk.saw("%s, %s tokens%s%s" % (kind, min(len(t), 12), ", #" if "#" in t else "", ", ##" if "##" in t else ""))
            if n not in have:
                chk.violation("%s:missing" % key, "macro %s of the header is not defined by the mock header\n%s" % (n, text[:3000]), files=allf)
            elif have[n] != want[n]:
                chk.violation("%s:%s-differs" % (key, kind), "macro %s\nof the header %s %s\nof the mock   %s %s\n%s" % (n, p, " ".join(t), have[n][0], " ".join(have[n][1]), text[:3000]), files=allf)
        for n in sorted(set(have) - set(want) - set(pre)):
            if n.startswith("M_"):
                chk.violation("%s:defined" % key, "macro %s is defined by the mock header, and is not once the header is read\n%s" % (n, text[:3000]), files=allf)
        chk.count("macros which must not be defined", len(gone))
        pa, pb = [dict(re.findall(r"@(\d+)@(.*?)@(?=\s*(?:@\d+@|\Z))", x, re.S)) for x in (a.out, b.out)]
        for i, u in enumerate(lines):
            if str(i) not in pa:
                continue
            chk.count("uses expanded")
            if str(i) not in pb or loose(pa[str(i)]) != loose(pb[str(i)]):
                chk.violation("%s:expansion" % key, "%s\nexpands to  %s\nwith the mock to %s\n%s" % (u, pa[str(i)].strip(), (pb.get(str(i)) or "nothing").strip(), text[:3000]), files=allf)
        if live is not None and r.out:
            chk.count("headers")
        if live is not None and name in ("t0", "t1", "t2"):
            chk.sample({"header": text[:400], "uses": lines[:4]})
        shutil.rmtree(d)

    for name, text in CORPUS:
        names = sorted(set(re.findall(r"\bM_\w+|\bf\b", text)))
        one(name.replace("-", "_"), text, {}, [u for n in names for u in (n, n + "()", n + "(1)", n + "(a, b)", n + "(a, b, c)", n + " (x y)")], [], [])

    n = 6000 if chk.thorough else 1500

    def rnd(k):
        r = rng_of(chk, k)
        h = Macros(r, "t%d" % k, redefine=r.random() < 0.2)
        one("t%d" % k, h.text, h.files, h.uses(), r.choice([[], [], ["--generate-comparator-of", "EasyMock_all_comparators"], ["--generate-included-functions"]]),
            [], h.live, h.gone)
    pmap(rnd, range(n))

    # what stands on the command line counts like what stands in the header
    def cmdline(k):
        r = rng_of(chk, "d", k)
        v = r.choice(["1", "x", "a+b", "\"s\"", ""])
        text = "#ifdef M_D\n#define M_A M_D\n#else\n#define M_A none\n#endif\n#if defined(M_E) && M_E > 2\n#define M_B(a) a M_E\n#endif\nint f(int a);\n"
        fl = r.choice([["-DM_D=" + v], ["-DM_E=3"], ["-DM_E=2", "-DM_D"], [], ["-DM_D(a)=a"], ["-DM_D=1", "-UM_D"]])
        one("d%d" % k, text, {}, ["M_A", "M_B(1)", "M_D", "M_D(2)", "M_E"], [], fl, live={}, gone=())
    pmap(cmdline, range(60 if chk.thorough else 12))

    # the mocks of two headers which share a third
    def pair(k):
        r = rng_of(chk, "p", k)
        d = chk.dir("p%d" % k)
        h = Macros(r, "s%d" % k)
        shared = h.text.replace("int fun_s%d(int a);\n" % k, "")
        files = dict(h.files)
        files["shared.h"] = shared
        for x in "ab":
            files["%s.h" % x] = '#include "shared.h"\n#define M_ONLY_%s 1\nint fun_%s(int a);\n' % (x, x)
        for n_, t in files.items():
            open(os.path.join(d, n_), "w").write(t)
        o = os.path.join(d, "o")
        os.mkdir(o)
        for x in "ab":
            q = run2([gen, "-i", os.path.join(d, x + ".h"), "-o", o, "--generate-types"], timeout=60)
            if q.rc or not os.path.exists(os.path.join(o, "easyMock_%s.h" % x)):
                chk.violation("pair:refused", mocks.explain("generate", q), files=files)
                return
            files["easyMock_%s.h" % x] = open(os.path.join(o, "easyMock_%s.h" % x)).read()
        open(os.path.join(d, "ab.h"), "w").write('#include "a.h"\n#include "b.h"\n')
        open(os.path.join(o, "ab.h"), "w").write('#include "easyMock_a.h"\n#include "easyMock_b.h"\n')
        lines, ref = accepted(d, "ab.h", h.uses(), fw, [])
        if ref.rc:
            raise HarnessError("pair: " + ref.err[:500])
        got = preprocess("gcc", o, "ab.h", [], "".join("@%d@ %s @\n" % (i, u) for i, u in enumerate(lines)), fw, [])
        if got.rc or "redefined" in got.err:
            chk.violation("pair:redefined", "the mock headers of two headers which share a third\n%s" % got.err[:1500], files=files)
        pa, pb = [dict(re.findall(r"@(\d+)@(.*?)@(?=\s*(?:@\d+@|\Z))", x, re.S)) for x in (ref.out, got.out)]
        for i, t in enumerate(lines):
            if str(i) in pa and loose(pa[str(i)]) != loose(pb.get(str(i), "")):
                chk.violation("pair:expansion", "%s expands to %s, with the two mocks to %s" % (t, pa[str(i)], pb.get(str(i))), files=files)
        chk.count("pairs of mock headers")
        shutil.rmtree(d)
    pmap(pair, range(300 if chk.thorough else 24))
