"""The command line: what is asked for is done, in any order, from any directory; the rest is refused."""
import shutil
from vlib import sysh
from common import *
import c13

OPTS = ["-i", "-o", "--mock-cpp", "--cwd", "--mock-only", "--generate-types", "--generate-included-functions", "--generate-comparator-of", "--generate-attribute",
        "--ignore-parser-error", "--ignore-generation-of", "--ignore-field-generation-of", "-h", "--help"]
WITH_VALUE = ["--mock-only", "--cwd", "--generate-comparator-of", "--generate-attribute", "--ignore-generation-of", "--ignore-field-generation-of"]
DIRS = ["inc", "a b", "x-y", "v1.2", "ünï", "per%cent", "ha#sh", "pl+us", "(paren)", "a'b", "se;mi", "a&b", "$HOME", "{b}", "co,mma", "a=b", "at@", "~", "_", "0", "D", "I", "nested/more"]


class World:
    """a tree of directories with headers whose declarations depend on the options of the parser"""

    def __init__(self, r, root):
        self.r, self.root = r, root
        ds = r.sample(DIRS, 4)
        self.incs = ds[:3]
        self.hdir, self.odir, self.wdir = r.choice(ds), r.choice(["out", "o u t", "out-1.2", "deep/er/out", "üt"]), r.choice(["work", "w o/rk", "inc"])
        self.name = r.choice(["api", "my-api", "a.b", "api_2", "_", "x y", "Main", "é", "a+b", "n%d", "0start", "h"])
        self.ext = r.choice([".h", ".h", ".h", ".hh", ".hpp", ".inc.h", ".H"])
        if self.ext in (".hh", ".hpp", ".H"):
            self.ext = ".h"
        for d in ds + [self.odir, self.wdir, "empty"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for k, d in enumerate(self.incs):
            self.put(d + "/dep.h", "#ifndef DEP\n#define DEP\n#define FROM %d\nint dep_%d(int a);\n#endif\n" % (k, k))
            self.put(d + "/only%d.h" % k, "int only_%d(void);\n#define HAS_ONLY%d\n" % (k, k))
        self.put("pre.h", "#define PRE 1\nint pre(void);\n")
        self.put(self.incs[0] + "/pre.h", "#define PRE 2\nint pre(void);\n")
        L = ["#pragma once" if r.random() < 0.4 else "", '#if __has_include("dep.h")\n#include "dep.h"\n#endif']
        L += ["#if __has_include(<only%d.h>)\n#include <only%d.h>\n#endif\n#ifdef HAS_ONLY%d\nint got_only%d(void);\n#endif" % (k, k, k, k) for k in range(3)]
        L += ["#if defined(FROM) && FROM == %d\nint from_%d(struct rec *p);\n#endif" % (k, k) for k in range(3)]
        L.insert(1, "struct rec { int a; char b[3]; }; union un { int x; float y; };\ntypedef struct { long z; } anon_t;")
        L += ["#ifdef A\nint with_A(int a);\n#else\nint without_A(int a);\n#endif", "#if defined(B) && B + 0 == 2\nint with_B2(char *p) __attribute__((nonnull(1)));\n#endif",
              "#if defined(B) && B + 0 != 2\nint with_other_B(void);\n#endif", "#ifdef NAME\nint NAME(union un *u);\n#endif", "#ifdef FN\nint FN(called)(void);\n#endif",
              "#ifdef TYPE\nTYPE with_type(TYPE a, TYPE *b);\n#endif", "#ifdef PRE\nint pre_seen(void);\n#if PRE == 2\nint pre_two(void);\n#endif\n#endif",
              "#ifndef __OPTIMIZE__\nint not_optimized(void);\n#else\nint optimized(void);\n#endif", "#if __STDC_VERSION__ >= 201112L\nint c11(void);\n#else\nint older(void);\n#endif",
              "#ifdef __STRICT_ANSI__\nint strict(void);\n#endif", "#ifdef __unix__\nint on_unix(void);\n#endif", "#ifdef __CHAR_UNSIGNED__\nint uchar(void);\n#endif",
              "int always(struct rec *p, const char *f, anon_t v) __attribute__((format_arg(2))) __attribute__((cold));".replace(" __attribute__((format_arg(2)))", ""),
              "int always2(int a, ...);", "static inline int inlined(void) { return 0; }"]
        self.text = "\n".join(L) + "\n"
        self.header = self.hdir + "/" + self.name + self.ext
        self.put(self.header, self.text)

    def put(self, rel, text):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text)

    def parser_units(self):
        """options of the parser, in an order which counts"""
        r = self.r
        u = []
        for d in r.sample(self.incs, r.randint(0, 3)):
            u.append(("path", r.choice(["-I", "-I", "-I", "-iquote", "-isystem", "-idirafter"]), d))
        if not any(f == "-I" for _, f, _ in u):
            u.append(("path", "-I", "empty"))
        for x in r.sample(["-DA", "-DB=2", "-DB=3", "-DB", "-UA", "-DNAME=renamed", "-DFN(x)=fn_##x", "-DTYPE=unsigned long", "-DTYPE=const char *", "-Dalways2=other", "-DA=\"a b\""], r.randint(0, 3)):
            u.append(("def", x[:2], x[2:]))
        seen, v = set(), []
        for x in u:
            n = re.split(r"[=(]", x[2])[0] if x[0] == "def" else x
            if n not in seen:
                v.append(x)
                seen.add(n)
        u = v
        if r.random() < 0.3:
            u.append(("path", "-include", "pre.h"))
        for x in r.sample(["-std=c99", "-std=gnu17", "-O2", "-funsigned-char", "-Wall", "-Wextra", "-Wno-everything", "-g", "-fPIC", "-pthread", "-std=c11", "-w", "-fno-builtin"], r.randint(0, 2)):
            if not (x.startswith("-std") and any(y[2].startswith("-std") for y in u)):
                u.append(("flag", "", x))
        r.shuffle(u)
        return u

    def spell(self, u, base, absolute, joined):
        k, f, x = u
        if k == "flag":
            return [x]
        if k == "path":
            p = os.path.join(self.root, x)
            x = p if absolute else os.path.relpath(p, base)
        return [f + x] if joined and f in ("-I", "-D", "-U", "-isystem", "-iquote", "-idirafter") else [f, x]


def snapshot(d, skip=None):
    res = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in ds:
            res[os.path.relpath(os.path.join(b, x), d) + "/"] = b""
    return res


def normal(text):
    text = re.sub(r"^// from: .*$", "// from", text, flags=re.M)
    return re.sub(r"^(\s*)//\S*:\d+:\d+.*$", r"\1// loc", text, flags=re.M)


def select(w, r):
    o = []
    if r.random() < 0.3:
        o.append(["--generate-types"])
    if r.random() < 0.4:
        o.append(["--generate-included-functions"])
    fun = ["always", "with_A", "without_A", "from_0", "dep_1", "called", "fn_called", "renamed", "not_optimized", "nope", "inlined", "with_type", "other", "always2"]
    if r.random() < 0.35:
        o += [["--mock-only", x] for x in r.sample(fun, r.randint(1, 5))]
    if r.random() < 0.35:
        o += [["--ignore-generation-of", x] for x in r.sample(fun, r.randint(1, 5))]
    if r.random() < 0.4:
        o += [["--generate-comparator-of", x] for x in r.sample(["EasyMock_all_comparators", "struct rec", "union un", "anon_t", "nothing"], r.randint(1, 2))]
    if r.random() < 0.3:
        o += [["--generate-attribute", x] for x in r.sample(["cold", "nonnull", "format"], r.randint(1, 2))]
    if r.random() < 0.2:
        o.append(["--ignore-parser-error"])
    if r.random() < 0.2:
        o.append(["--ignore-field-generation-of", r.choice(["nothing", "recX"])])
    return o


def command(w, r, wanted, parser, mode):
    """(arguments, directory to run in)"""
    use_cwd = mode != "plain" and r.random() < 0.75
    start = r.choice([w.root, os.path.join(w.root, w.wdir), "/", os.path.join(w.root, w.hdir)])
    base = start
    units = [list(x) for x in wanted]
    if use_cwd:
        base = os.path.join(w.root, r.choice([w.wdir, w.hdir, w.odir, "."]))
        base = os.path.normpath(base)
        c = base if r.random() < 0.5 else os.path.relpath(base, start)
        if c.startswith("-"):
            c = "./" + c
        if r.random() < 0.2:
            c += "/"
        units.append(["--cwd", c])

    def p(x, slash=False):
        q = os.path.join(w.root, x)
        if mode != "absolute" and r.random() < 0.6:
            q = os.path.relpath(q, base)
            if r.random() < 0.2:
                q = "./" + q
        if r.random() < 0.15:
            q = os.path.join(os.path.dirname(q) or ".", ".", os.path.basename(q))
        return q + ("/" if slash and r.random() < 0.2 else "")
    units += [["-i", p(w.header)], ["-o", p(w.odir, True)]]
    ps = [w.spell(u, base, r.random() < 0.4, r.random() < 0.6) for u in parser]
    # the parser's options keep their order between themselves, everything else goes anywhere
    r.shuffle(units)
    slots = sorted(r.randint(0, len(units)) for _ in ps)
    out = []
    for i in range(len(units) + 1):
        for s, q in zip(slots, ps):
            if s == i:
                out += q
        if i < len(units):
            out += units[i]
    return out, start


def files_of(d):
    return {k: v for k, v in snapshot(d).items() if not k.endswith("/")}


def runs(chk, gen, exe):
    n = 6000 if chk.thorough else 600

    def one(k):
        r = rng_of(chk, "w", k)
        root = chk.dir("w%d/%s" % (k, r.choice(["r", "r o", "ré", "a.b", "-dash"])))
        w = World(r, root)
        out = os.path.join(root, w.odir)
        wanted, parser = select(w, r), w.parser_units()
        abs_parser = [a for u in parser for a in w.spell(u, root, True, True)]
        ref = None
        H = os.path.join(root, w.header)
        for v in range(4):
            args, start = command(w, r, wanted, parser, ["absolute", "any", "any", "plain"][v])
            before = snapshot(root)
            g = run2([gen] + args, cwd=start, timeout=60)
            after = snapshot(root)
            bad = lambda key, what: chk.violation(key, "%s\nin %s\n%s" % (" ".join(map(repr, args)), start, what + "\n" + g.out[-500:] + g.err[-1500:]), files={"header.h": w.text, "args.txt": "\n".join(args)})
            if g.rc or g.timeout:
                bad("refused", "exit %s%s" % (g.rc, " TIMEOUT" if g.timeout else ""))
                continue
            base = w.name + w.ext[:-2]
            want = {os.path.join(w.odir, "easyMock_%s.%s" % (base, e)) for e in ("c", "h")}
            new = {x for x in after if x not in before or after[x] != before[x]}
            if not {x for x in want} <= set(after) or (v == 0 and new != want) or not new <= want or set(before) - set(after):
                bad("files", "written: %s, expected: %s" % (sorted(new), sorted(want)))
                continue
            got = tuple(normal(after[x].decode("utf-8", "replace")) for x in sorted(want))
            chk.saw(("run", tuple(a[0] for a in wanted), len(parser), v))
            chk.count("command_lines_run")
            if ref is None:
                ref = got
                ds = sysh.decls(exe, H, abs_parser)
                if ds is None:
                    raise HarnessError("command line: the header does not parse")
                macros, m = c13.macro_names(abs_parser, H)
                flat = {a for x in wanted for a in x}
                opt = lambda n: {x[1] for x in wanted if x[0] == n}
                must, free, _ = c13.expected(ds, macros, "--generate-included-functions" in flat, "--generate-types" in flat, opt("--mock-only"), opt("--ignore-generation-of"))
                mocked = set(re.findall(r"\b(\w+)_ExpectAndReturn\s*\(", got[1]))
                if mocked - free != must:
                    bad("selection", "mocked: %s, expected: %s" % (sorted(mocked), sorted(must)))
                # the header includes the mocked one, unless its types are generated
                inc = re.findall(r'^#include [<"](.*?)[>"]', got[1], re.M)
                if (w.name + w.ext in [os.path.basename(x) for x in inc]) == ("--generate-types" in flat):
                    bad("include", "includes: %s" % inc)
                comps = opt("--generate-comparator-of")
                wantc = {"cmp_struct_rec": "struct rec", "cmp_union_un": "union un", "cmp_anon_t": "anon_t"}
                for c, t in wantc.items():
                    has = re.search(r"\b%s\s*\(" % c, got[1]) is not None
                    # a comparator exists for the types which are used
                    if has and not (t in comps or "EasyMock_all_comparators" in comps or t.replace(" ", "_") in comps):
                        bad("comparator", "%s was not asked for" % c)
                    if not has and "EasyMock_all_comparators" in comps and c == "cmp_struct_rec" and "always" in must:
                        bad("comparator", "%s is missing" % c)
                chk.count("functions_expected", len(must))
                chk.distinct.add("sel%r" % (sorted(must),))
            elif got != ref:
                i = next(i for i in range(2) if got[i] != ref[i])
                import difflib
                bad("differs", "the mock differs from the one of the same options in another order or directory\n" + "\n".join(list(difflib.unified_diff(ref[i].splitlines(), got[i].splitlines(), lineterm="", n=1))[:40]))
        if k < 2:
            chk.sample({"args": args, "dir": start})
        if not chk.keep:
            shutil.rmtree(chk.dir("w%d" % k), ignore_errors=True)
    pmap(one, range(n))


def refused(chk, gen):
    """command lines which cannot be obeyed"""
    n = 6000 if chk.thorough else 600

    def one(k):
        r = rng_of(chk, "e", k)
        root = chk.dir("e%d/r" % k)
        w = World(r, root)
        H, O = os.path.join(root, w.header), os.path.join(root, w.odir)
        open(os.path.join(root, "other.h"), "w").write("int other(void);\n")
        open(os.path.join(root, "afile"), "w").write("x")
        wanted = select(w, r)
        kind = r.choice(["no-i", "no-o", "two-i", "two-o", "i-missing", "i-dir", "o-missing", "o-file", "last-value", "dash-value", "two-cwd", "cwd-missing", "cwd-file", "bad-option", "bad-language",
                         "missing-include", "nothing", "i-last", "o-last", "empty-i", "empty-o", "no-value-i", "no-value-o", "cwd-moves-i", "cwd-moves-o", "i-unreadable-dir", "i-loop"])
        i, o, extra, tail, start = [["-i", H]], [["-o", O]], [], [], root
        if kind == "no-i":
            i = []
        elif kind == "no-o":
            o = []
        elif kind == "two-i":
            i.append(["-i", r.choice([H, os.path.join(root, "other.h")])])
        elif kind == "two-o":
            o.append(["-o", r.choice([O, os.path.join(root, "empty")])])
        elif kind == "i-missing":
            i = [["-i", H + r.choice(["x", "/x", ".h", " "])]]
        elif kind == "i-dir":
            i = [["-i", r.choice([root, O, "."])]]
        elif kind == "o-missing":
            o = [["-o", O + r.choice(["x", "/x"])]]
        elif kind == "o-file":
            o = [["-o", r.choice([H, os.path.join(root, "afile")])]]
        elif kind == "last-value":
            tail = [r.choice(WITH_VALUE)]
        elif kind == "dash-value":
            extra = [[r.choice(WITH_VALUE), r.choice(["-x", "--generate-types", "-", "--mock-only"])]]
        elif kind == "two-cwd":
            extra = [["--cwd", root], ["--cwd", r.choice([root, O])]]
        elif kind == "cwd-missing":
            extra = [["--cwd", root + "/nope"]]
        elif kind == "cwd-file":
            extra = [["--cwd", os.path.join(root, "afile")]]
        elif kind == "bad-option":
            extra = [[r.choice(["--no-such-option", "-fno-such-thing", "--generate-type", "--Mock-only", "-mbogus", "--generate-included-function", "--ignore-parser-errors"])]]
        elif kind == "bad-language":
            extra = [[r.choice(["-std=c1", "-std=gnu0", "-xnothing"])]]
        elif kind == "missing-include":
            extra = [["-include", "nope.h"]]
        elif kind == "nothing":
            i, o, wanted = [], [], []
        elif kind == "i-last":
            i, tail = [], ["-i"]
        elif kind == "o-last":
            o, tail = [], ["-o"]
        elif kind == "empty-i":
            i = [["-i", ""]]
        elif kind == "empty-o":
            o = [["-o", ""]]
        elif kind == "no-value-i":
            i, tail = [], ["-i", "-DA"]
        elif kind == "no-value-o":
            o, tail = [], ["-o", "-DA"]
        elif kind == "cwd-moves-i":
            i, extra = [["-i", os.path.relpath(H, root)]], [["--cwd", os.path.join(root, "empty")]]
        elif kind == "cwd-moves-o":
            os.makedirs(os.path.join(root, "here"))
            o, extra = [["-o", "here"]], [["--cwd", os.path.join(root, "empty")]]
        elif kind == "i-unreadable-dir":
            i = [["-i", os.path.join(root, "afile", "x.h")]]
        elif kind == "i-loop":
            os.symlink("loop.h", os.path.join(root, "loop.h"))
            i = [["-i", os.path.join(root, "loop.h")]]
        if kind in ("bad-option", "bad-language", "missing-include"):
            wanted = [x for x in wanted if x[0] != "--ignore-parser-error"]
        units = i + o + extra + wanted
        r.shuffle(units)
        args = [a for u in units for a in u] + tail
        before = files_of(root) if kind != "i-loop" else None
        g = run2([gen] + args, cwd=start, timeout=60)
        bad = lambda key, what: chk.violation("%s:%s" % (kind, key), "%s\n%s\nexit %s%s\n%s\n%s" % (" ".join(map(repr, args)), what, g.rc, " TIMEOUT" if g.timeout else "", g.out[-800:], g.err[-1500:]))
        if g.timeout or g.rc is None or g.rc < 0 or SAN_RE_ABORT.search(g.err):
            bad("crash", "the generator does not end properly")
        elif g.rc == 0:
            bad("accepted", "a command line which cannot be obeyed is a success")
        elif not g.err.strip():
            bad("silent", "nothing is reported on the standard error")
        if before is not None and files_of(root) != before:
            bad("written", "files were written")
        chk.saw(("refused", kind, len(args)))
        chk.count("command_lines_refused")
        if not chk.keep:
            shutil.rmtree(chk.dir("e%d" % k), ignore_errors=True)
    pmap(one, range(n))


SAN_RE_ABORT = re.compile(r"Assertion .* failed|terminate called|PLEASE submit a bug report")


def helped(chk, gen):
    root = chk.dir("h")
    for k in range(60):
        r = rng_of(chk, "h", k)
        w = World(r, os.path.join(root, "w%d" % k))
        h = r.choice(["-h", "--help"])
        units = [["-i", os.path.join(w.root, w.header)], ["-o", os.path.join(w.root, w.odir)]] + select(w, r)
        units = r.sample(units, r.randint(0, len(units)))
        units.insert(r.randint(0, len(units)), [h])
        args = [a for u in units for a in u]
        before = files_of(w.root)
        g = run2([gen] + args, cwd=w.root, timeout=60)
        missing = [o for o in OPTS if o not in g.out]
        if g.rc != 0 or missing or g.err.strip() or files_of(w.root) != before:
            chk.violation("help", "%s\nexit %s, options not described: %s\n%s" % (args, g.rc, missing, g.err[-800:]))
        chk.saw(("help", tuple(sorted(u[0] for u in units))))
    shutil.rmtree(root, ignore_errors=True)


def check(chk):
    gen = build.generator(chk)
    exe = sysh.decls_tool(chk.tmp)
    chk.rule = "random command lines over random trees: the same options in other orders, directories and spellings must give the same mock, of the functions an independent reading selects; command lines which cannot be obeyed must fail, say why and write nothing; distinct by options"
    chk.assumptions = ["-i and -o followed by another option are not given a second time", "headers of C"]
    helped(chk, gen)
    runs(chk, gen, exe)
    refused(chk, gen)
