"""The mock depends on nothing but the declarations and the options, and making it changes nothing else."""
import shutil
from vlib import adaptcpp
from common import *

TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|\.\.\.|->|<<|>>|##|::|.', re.S)
COMMENTS = ["/* c */", "/**/", "/* int f(void); */", "// x\n", "/* \"quoted\" */", "/* a\n * b\n */", "/* it's */", "/* * / */", "// http://x\n", "/*struct*/"]
SPACES = [" ", "  ", "\n", "\t", "\n\n", " \\\n ", "\r\n", "\v", "\f"]


def layout(r, text, comments=True):
    """the same tokens, laid out otherwise"""
    out = []
    for line in text.split("\n"):
        if line.startswith("#"):
            out.append("\n" + r.choice(["", " "]) + line + r.choice(["", " /* d */", "\t"]) + "\n")
            continue
        prev = ""
        for t in TOKEN.findall(line + "\n"):
            if t.isspace():
                t = ""
            if not t:
                if r.random() < 0.7:
                    out.append(r.choice(SPACES))
                else:
                    out.append(" ")
                continue
            out.append(t)
            x = r.random()
            if comments and x < 0.06:
                out.append(r.choice(COMMENTS))
            elif x < 0.2 and not (t in "<>.-+&|=" or t == "##"):
                out.append(r.choice(SPACES))
    return "".join(out)


MACRO = re.compile(r"^#ifndef (\w+)\n+#define \1\b.*?\n#endif *// *macro \1$", re.S | re.M)


def normal(text, rename=True):
    text = re.sub(r"^// from: .*$", "", text, flags=re.M)
    text = re.sub(r"^(\s*)//\S*:\d+:\d+.*$", "", text, flags=re.M)
    text = text[text.find("*/") + 2:] if text.startswith("/*") else text
    # the macros come in the order of a hash table
    blocks = []
    text = MACRO.sub(lambda m: blocks.append(m.group(0)) or "", text)
    text += "\n".join(sorted(b for b in blocks if not re.search(r"^#define (HDR_\w+|YES)\b", b, re.M)))
    anon = {}
    if rename:
        text = re.sub(r"(easymock_generated_anonymous_type_hash_)(\d+)", lambda m: m.group(1) + "n%d" % anon.setdefault(m.group(2), len(anon)), text)
    text = re.sub(r"\s+", " ", text)
    return re.sub(r" ?([^\w\s]) ?", r"\1", text)


CONST = re.compile(r"\bconst ((?:struct |union |enum )?\w+(?: (?:int|char|long|short|double))*)(?= [&*\w])")

SPELL = {"unsigned long long": ["long unsigned long int", "unsigned long long int", "long long unsigned"], "unsigned long": ["long unsigned", "unsigned long int", "long int unsigned"], "unsigned short": ["short unsigned int", "unsigned short int"],
         "unsigned int": ["unsigned", "int unsigned"], "long long": ["long long int", "signed long long", "long signed long"], "long": ["long int", "signed long", "int long"], "short": ["short int", "signed short int"], "int": ["signed", "signed int", "int signed"],
         "unsigned char": ["char unsigned"], "long double": ["double long"]}


def respell(r, text):
    """the built-in types by their other names"""
    return re.sub(r"(?<![\w#] )\b(?<!long )(?<!signed )(unsigned (?:long long|long|short|int|char)|long double|long long|long|short|int)\b(?! (?:long|int|double|signed|unsigned|char)\b)",
                  lambda m: r.choice(SPELL[m.group(1)]) if r.random() < 0.5 else m.group(0), text)


CONST_ANY = re.compile(CONST.pattern[:CONST.pattern.rindex("(?=")] + "(?=[ &*])")


def canonical(text):
    """one name for each built-in type, const after its type"""
    def one(m):
        w = sorted(m.group(0).split(), key=lambda x: (x == "const", x))
        w = [x for x in w if x not in ("signed", "int") or x == "signed" and "char" in w]
        return " ".join(w if [x for x in w if x != "const"] else ["int"] + w)
    text = re.sub(r"\b(?:const )?(?:unsigned|signed|long|short|int|char|double)(?: (?:unsigned|signed|long|short|int|char|double|const))*\b", one, text)
    return CONST_ANY.sub(r"\1 const", text)


def cpp_transforms(r, h):
    """as transforms, of C++ headers"""
    def whole(body):
        return "#ifndef HDR_X\n#define HDR_X\n%s\n#endif\n" % "\n".join(body)
    for x in transforms(r, h):
        if x[0] not in ("extern-c", "twice", "types-apart"):
            yield x
    own = ["class not_used_%s { public: int m_%s(int a) { return a; } int v; };" % (h.name, h.name), "namespace nu_%s { typedef int t; constexpr int c = 3; }" % h.name, "static inline int not_here_%s(int a) { return a; }" % h.name]
    body = list(h.body)
    for o in own:
        body.insert(r.randint(0, len(body)), o)
    yield "unused-cpp", whole(body), {}, []
    # namespaces one by one or in one, each function with its own
    body = []
    for e in h.body:
        m = re.match(r"namespace ([\w:]+) \{\n(.*)\n\}$", e, re.S)
        n = re.match(r"((?:namespace \w+ \{ )+)\n(.*)\n\}+$", e, re.S)
        names = m.group(1).split("::") if m else re.findall(r"namespace (\w+)", n.group(1)) if n else None
        if not names:
            body.append(e)
            continue
        inner = (m or n).group(2)
        parts = inner.split("\n") if re.match(r"  [^\n]*;(\n  [^\n]*;)*$", inner) and r.random() < 0.6 else [inner]
        for i in parts:
            body.append("namespace %s {\n%s\n}" % ("::".join(names), i) if not m or len(names) == 1 or r.random() < 0.3 else "".join("namespace %s\n{\n" % x for x in names) + i + "\n" + "}" * len(names))
    yield "namespaces", whole(body), {}, []
    yield "using", re.sub(r"^typedef ([\w ]+) (\w+);$", r"using \2 = \1;", h.text(), flags=re.M), {}, []
    body = list(h.body)
    for i, e in reversed(list(enumerate(h.body))):
        m = re.match(r"(struct|class) (\w+)\b[^;]*\{", e)
        if m and r.random() < 0.6:
            body.insert(r.randint(0, i), "%s %s;" % (m.group(1), m.group(2)))
        elif re.match(r"(\[\[nodiscard\]\] )?(?!static|inline|namespace|extern|typedef|struct|class|enum)\w.*\);$", e) and "\n" not in e and "=" not in e and r.random() < 0.5:
            body.append("extern " + re.sub(r"^\[\[nodiscard\]\] ", "", e))
    yield "declared-twice", whole(body), {}, []
    body, run = [], []
    for e in h.body + [""]:
        if re.match(r"(\[\[nodiscard\]\] )?(?!static|inline|namespace|typedef|class)(extern )?(?!\")\w[^{}]*\);$", e) and "\n" not in e and r.random() < 0.8:
            run.append(e)
            continue
        if run:
            body.append("namespace un_%s { }\nextern \"C++\" {\n%s\n}" % (h.name, "\n".join(run)))
        body += [e]
        run = []
    yield "extern-cpp", whole(body), {}, []


def transforms(r, h):
    """[(name, main text, other files, options)] of headers which declare the same"""
    t = h.text()
    lines = t.split("\n")
    body = [l for l in lines if not re.match(r"#(ifndef|define)\b", l) or "HDR_" not in l]
    last = max(i for i, l in enumerate(body) if l.startswith("#endif"))
    body = body[:last] + body[last + 1:]
    head, tail = t[:t.rindex("#endif")], t[t.rindex("#endif"):]
    inc = [l for l in body if l.startswith("#include")]
    rest = [l for l in body if not l.startswith("#include")]
    yield "layout", layout(r, t), {}, []
    yield "spaces", layout(r, t, False), {}, []
    yield "pragma-once", "#pragma once\n" + "\n".join(body), {}, []
    yield "no-guard", "\n".join(body), {}, []
    yield "if", "#define YES 1\n#if YES && !defined(NO)\n%s\n#else\nint not_this(void);\n#endif\n" % "\n".join(body), {}, []
    yield "extern-c", "\n".join(inc) + "\n#ifdef __cplusplus\nextern \"C\" {\n#endif\n%s\n#ifdef __cplusplus\n}\n#endif\n" % "\n".join(rest), {}, []
    yield "trailing", t.rstrip("\n"), {}, []
    yield "bom", "\ufeff" + t, {}, []
    yield "crlf", t.replace("\n", "\r\n"), {}, []
    yield "unused", head + "struct not_used_%s { int a; };\nenum not_used_e_%s { NU_%s };\ntypedef int not_used_t_%s;\nextern int not_a_function_%s;\nstatic inline int not_mocked_%s(int a) { return a; }\n" % ((h.name,) * 6) + tail, {}, []
    yield "twice", head + "\n".join(l for l in body if re.match(r".*\b(%s)\(.*;$" % "|".join(f.name for f in h.funcs), l)) + "\n" + tail, {}, []
    yield "included", '#include "%s_all.h"\n' % h.name, {"%s_all.h" % h.name: t}, ["--generate-included-functions"]
    yield "included-twice", '#include "%s_all.h"\n#include "%s_all.h"\n' % (h.name, h.name), {"%s_all.h" % h.name: t}, ["--generate-included-functions"]
    yield "const-after", CONST.sub(r"\1 const", t), {}, []
    yield "spelling", respell(r, t), {}, []
    cut = [i for i, l in enumerate(rest) if re.match(r"^\w.*\b(%s)\(.*;$" % "|".join(f.name for f in h.funcs), l)]
    if cut:
        yield "types-apart", "\n".join(inc) + '\n#include "%s_types.h"\n%s\n' % (h.name, "\n".join(rest[cut[0]:])), {"%s_types.h" % h.name: "\n".join(inc) + "\n" + "\n".join(rest[:cut[0]])}, []
    yield "splice", re.sub(r"\b(\w{4,})\b(?=[^\n]*;)", lambda m: m.group(0)[:2] + "\\\n" + m.group(0)[2:] if r.random() < 0.1 else m.group(0), t), {}, []


OPTS = [[], [], ["--generate-types"], ["--generate-comparator-of", "EasyMock_all_comparators"], ["--generate-types", "--generate-comparator-of", "EasyMock_all_comparators"]]


def outputs(d, name, cpp=False):
    res = []
    for e in ("cpp" if cpp else "c", "h"):
        p = os.path.join(d, "easyMock_%s.%s" % (name, e))
        if not os.path.exists(p):
            return None
        res.append(open(p, encoding="utf-8", errors="replace").read())
    return res


def diff(a, b):
    import difflib
    for x, y in zip(a, b):
        if x != y:
            lines = [re.sub(r"([;{}])", r"\1\n", z).replace("#", "\n#").splitlines() for z in (x, y)]
            return "\n".join(l[:300] for l in list(difflib.unified_diff(*lines, lineterm="", n=1))[:30])
    return ""


def same_declarations(chk, gen, cpp=False):
    n = (300 if chk.thorough else 100) // (2 if cpp else 1)
    pre = "cpp:" if cpp else ""

    def one(k):
        r = rng_of(chk, pre + "t", k)
        h = (adaptcpp.CppGen if cpp else cgen.Gen)(r, "x", nfuncs=r.randint(1, 7)).go()
        d = chk.dir("%st%d" % (pre[:1], k))
        opts = ["--mock-cpp", "-x", "c++"] if cpp else r.choice(OPTS)
        ref = None
        for i, (name, text, files, extra) in enumerate([("reference", h.text(), {}, [])] + list((cpp_transforms if cpp else transforms)(r, h))):
            w = os.path.join(d, name)
            os.makedirs(w)
            for f, x in list(files.items()) + [("x.h", text)]:
                open(os.path.join(w, f), "w", encoding="utf-8", newline="").write(x)
            g = run2([gen, "-i", os.path.join(w, "x.h"), "-o", w] + extra + opts, timeout=60)
            o = outputs(w, "x", cpp)
            fs = dict(files, **{"x.h": text, "reference.h": h.text()})
            if g.rc or g.timeout or o is None:
                if ref is None and not i:
                    chk.violation(pre + "reference:generate", mocks.explain("generate", g), files=fs)
                    break
                c = run2(["clang", "-fsyntax-only", "-w", "-xc++" if cpp else "-xc", os.path.join(w, "x.h")])
                if c.rc:
                    raise HarnessError("transformation %s: %s" % (name, c.err[:1500]))
                chk.violation(pre + "%s:generate" % name, mocks.explain("generate", g), files=fs)
                continue
            o = [normal(x) for x in o]
            if name in ("included", "included-twice") and "--generate-types" not in opts:
                pass
            if name == "unused" and "--generate-types" in opts:
                # functions which are not mocked otherwise are so with the types
                continue
            if ref is None:
                ref = o
            elif name in ("const-after", "spelling"):
                # results and fields are spelled as in the header
                o, was = [[canonical(x) for x in y] for y in (o, ref)]
                if o != was:
                    chk.violation(pre + "%s:differs" % name, "options %s: a type spelled otherwise gives another mock\n%s" % (opts + extra, diff(was, o)), files=fs)
            elif o != ref:
                chk.violation(pre + "%s:differs" % name, "options %s: the same declarations, written otherwise, give another mock\n%s" % (opts + extra, diff(ref, o)), files=fs)
            chk.saw(("same", pre + name, tuple(opts)))
            chk.count("equivalent_headers")
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))


def sections(text):
    """{function: its section of the mock}"""
    res = {}
    for m in re.finditer(r"/\*-+ GENERATING '(.*?)' -+\*/(.*?)/\*-+ END GENERATION '", text, re.S):
        res[m.group(1)] = normal(m.group(2), False)
    for m in re.finditer(r"^int (cmp_\w+) ?\([^;{]*\)\s*\{.*?^\}$", text, re.S | re.M):
        if "_anonymous_type_hash_" not in m.group(1):    # in which words the types are named inside is not looked at
            res["comparator " + m.group(1)] = ""
    return res


def locality(chk, gen):
    """the mock of a function does not depend on the others"""
    n = 300 if chk.thorough else 100

    def one(k):
        r = rng_of(chk, "l", k)
        h = cgen.Gen(r, "x", nfuncs=r.randint(2, 9)).go()
        d = chk.dir("l%d" % k)
        opts = r.choice(OPTS[:2] + OPTS[3:4])
        g = mocks.gen_mock(gen, h, d, opts)
        o = outputs(d, "x")
        if g.rc or o is None:
            return chk.violation("locality:generate", mocks.explain("generate", g), files={"x.h": h.text()})
        whole = [sections(x) for x in o]
        for f in r.sample(h.funcs, min(3, len(h.funcs))):
            w = os.path.join(d, f.name)
            os.makedirs(w)
            only = r.random() < 0.5
            x = ["--mock-only", f.name] if only else [a for y in h.funcs if y is not f and r.random() < 0.7 for a in ("--ignore-generation-of", y.name)]
            g = run2([gen, "-i", os.path.join(d, "x.h"), "-o", w] + opts + x, timeout=60)
            o = outputs(w, "x")
            if g.rc or o is None:
                chk.violation("locality:generate", mocks.explain("generate", g), files={"x.h": h.text()})
                continue
            part = [sections(y) for y in o]
            for a, b in zip(whole, part):
                for key, sec in b.items():
                    if a.get(key) != sec:
                        chk.violation("locality:differs", "options %s: the mock of %s is another one when the other functions are not mocked\n%s" % (opts + x, key, diff([a.get(key, "")], [sec])), files={"x.h": h.text()})
                if only and len([x for x in b if not x.startswith("comparator ")]) != 1 or not only and not any(f.name + "(" in s for s in b):
                    chk.violation("locality:selection", "options %s: sections %s" % (opts + x, sorted(b)), files={"x.h": h.text()})
                chk.count("sections_compared", len(b))
            chk.saw(("local", only, len(x), tuple(opts)))
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))


WRITING = re.compile(r"^\d+\s+(\w+)\((.*)$")


def effects(chk, gen):
    """what the generator does to the system, and what of the system has an influence"""
    n = 200 if chk.thorough else 60

    def one(k):
        r = rng_of(chk, "e", k)
        d = chk.dir("e%d" % k)
        h = cgen.Gen(r, "x", nfuncs=r.randint(1, 8)).go()
        cpp = False
        opts = r.choice(OPTS)
        out, log = os.path.join(d, "out"), os.path.join(d, "log")
        os.makedirs(out)
        open(os.path.join(d, "x.h"), "w").write(h.text())
        cmd = [gen, "-i", os.path.join(d, "x.h"), "-o", out] + opts
        g = run2(["strace", "-f", "-qq", "-s", "300", "-o", log, "-e", "trace=file,network,process,kill,fchmod,fchown,ftruncate,write,pwrite64,writev"] + cmd, timeout=120)
        ref = outputs(out, "x")
        if g.rc or ref is None:
            return chk.violation("effects:generate", mocks.explain("generate", g), files={"x.h": h.text()})
        ours = {os.path.join(out, "easyMock_x." + e) for e in ("c", "h")}
        for line in open(log, errors="replace"):
            m = WRITING.match(line)
            if not m:
                continue
            call, rest = m.group(1), m.group(2)
            path = re.search(r'"((?:[^"\\]|\\.)*)"', rest)
            path = path.group(1) if path else ""
            chk.count("system_calls_seen")
            bad = None
            if call in ("open", "openat", "creat", "openat2"):
                if re.search(r"O_(WRONLY|RDWR|CREAT|TRUNC|APPEND)", rest) and os.path.normpath(path) not in ours and path not in ("/dev/tty", "/dev/null"):
                    bad = "opens %s for writing" % path
            elif call in ("unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "link", "linkat", "symlink", "symlinkat", "chmod", "fchmodat", "chown", "lchown", "fchownat", "truncate", "mknod", "mknodat", "setxattr", "utimensat", "utime"):
                allowed = path and os.path.normpath(path) in ours or os.path.dirname(os.path.normpath(path)) == out
                if not allowed:
                    bad = "%s of %s" % (call, path)
            elif call in ("socket", "connect", "bind", "kill", "tkill", "tgkill", "fork", "vfork"):
                bad = call
            elif call in ("execve", "execveat") and path != gen:
                bad = "starts " + path
            if bad:
                chk.violation("effects:%s" % call, "the generator %s\n%s" % (bad, line[:500]), files={"x.h": h.text()})
        if set(os.listdir(out)) != {"easyMock_x.c", "easyMock_x.h"} or set(os.listdir(d)) != {"out", "log", "x.h"} or open(os.path.join(d, "x.h")).read() != h.text():
            chk.violation("effects:files", "files left: %s %s" % (os.listdir(out), os.listdir(d)), files={"x.h": h.text()})
        chk.saw(("effects", tuple(opts)))
        # surroundings
        for i in range(6):
            env = r.choice([{"LC_ALL": "C", "LANG": "C"}, {"LC_ALL": "tr_TR.UTF-8"}, {"HOME": "/nonexistent", "TMPDIR": "/nonexistent"}, {"MALLOC_PERTURB_": str(r.randint(1, 255))}, {"X" * 50: "y" * r.randint(1, 90000)}, {"TZ": "Asia/Tokyo", "SOURCE_DATE_EPOCH": "1"},
                            {"COLUMNS": "20", "TERM": "dumb"}, {"MALLOC_ARENA_MAX": "1", "GLIBCXX_FORCE_NEW": "1"}, {"LC_NUMERIC": "de_DE.UTF-8"}, {"USER": "x", "PWD": "/nowhere"}, {"CFLAGS": "-DX", "CC": "false"}])
            pre = r.choice([[], [], ["setarch", "-R"], ["nice"], ["env", "-i"]])
            start = r.choice(["/", d, out, "/tmp"])

            def limit(x=r.random()):
                import resource
                if x < 0.3:
                    resource.setrlimit(resource.RLIMIT_STACK, (4 << 20, 8 << 20))
                if x > 0.7:
                    os.umask(0o077)
            w = os.path.join(d, "again%d" % i)
            os.makedirs(w)
            g = run2(pre + [gen, "-i", os.path.join(d, "x.h"), "-o", w] + opts, env=env, cwd=start, preexec=limit, timeout=60)
            o = outputs(w, "x")
            if pre and g.rc in (125, 126, 127):
                continue
            if g.rc or o is None:
                chk.violation("again:generate", "%s %s\n%s" % (env, pre, mocks.explain("generate", g)), files={"x.h": h.text()})
            elif o != ref:
                chk.violation("again:differs", "%s %s %s: another mock\n%s" % (env, pre, start, diff(ref, o)), files={"x.h": h.text()})
            chk.saw(("again", tuple(env), tuple(pre), tuple(opts)))
            chk.count("runs_repeated")
        if k < 2:
            chk.sample({"header": h.text()[:300], "opts": opts})
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))


def together(chk, gen):
    """generators at work in the same directory at the same time"""
    for k in range(12 if chk.thorough else 3):
        r = rng_of(chk, "m", k)
        d, o1, o2 = chk.dir("m%d" % k), chk.dir("m%d/one" % k), chk.dir("m%d/all" % k)
        hs = [cgen.Gen(r, "m%d" % i, nfuncs=r.randint(1, 6)).go() for i in range(16)]
        for h in hs:
            open(os.path.join(d, h.name + ".h"), "w").write(h.text())
        cmd = lambda h, o: [gen, "-i", os.path.join(d, h.name + ".h"), "-o", o]
        for h in hs:
            run2(cmd(h, o1))
        pmap(lambda h: run2(cmd(h, o2)), [h for h in hs for _ in range(2)], 16)
        for h in hs:
            a, b = outputs(o1, h.name), outputs(o2, h.name)
            chk.saw(("together", k, h.name))
            if a is None or a != b:
                chk.violation("together", "mocks made at the same time differ from those made one by one: %s" % h.name, files={"x.h": h.text()})
        shutil.rmtree(d, ignore_errors=True)


def check(chk):
    gen = build.generator(chk)
    chk.rule = "random headers rewritten in ways which declare the same, mocked as a whole and in part, again in other surroundings, and under strace; texts of the mocks compared, system calls that change anything outside the two files reported; distinct by transformation, option and surrounding"
    chk.assumptions = ["comments of the mock which say where a declaration comes from may differ"]
    same_declarations(chk, gen)
    same_declarations(chk, gen, True)
    locality(chk, gen)
    effects(chk, gen)
    together(chk, gen)
