"""Failures: success means complete files, everything else is reported and leaves what was there."""
import shutil
from vlib import adaptcpp
from vlib import sysh
from common import *

CRASH = re.compile(r"Assertion .* failed|PLEASE submit a bug report|Stack dump")

# (text, fatal: what follows is lost, functions of the header may be lost all the same)
ERRORS = {
    "unknown-type": ("unknown_type_t bad_%d(int a);", 0), "unknown-param": ("int bad_%d(unknown_type_t a);", 0), "error-directive": ("#error not this way", 0), "redefined-struct": ("struct twice_%d { int a; };\nstruct twice_%d { int a; };", 0),
    "redefined-typedef": ("typedef int tt_%d;\ntypedef long tt_%d;", 0), "conflicting": ("int bad_%d(int a);\nlong bad_%d(int a);", 0), "missing-include": ("#include <nothing/there_%d.h>", 1), "missing-include2": ("#include \"nothing_there_%d.h\"", 1),
    "unknown-struct-value": ("struct incomplete_%d;\nextern int bad_%d[sizeof(struct incomplete_%d)];", 0), "static-assert": ("_Static_assert(sizeof(int) == 3, \"no\");", 0), "negative-array": ("typedef int bad_%d[-1];", 0),
    "bad-bitfield": ("struct bad_%d { int a : 99; };", 0), "bad-directive": ("#iff FOO", 0), "bad-if": ("#if 1 +\n#endif", 0), "two-types": ("int float bad_%d(void);", 0), "stray": ("@ ;", 0), "missing-name": ("int (;", 0),
    "duplicate-member": ("struct bad_%d { int a; int a; };", 0), "bad-macro": ("#define M_%d(", 0), "macro-arguments": ("#define M_%d(a) a\nint bad_%d M_%d(1, 2);", 0), "void-param": ("int bad_%d(void, int);", 0),
    "array-return": ("int bad_%d(void)[3];", 0), "redefined-param": ("int bad_%d(int a, int a);", 0), "enum-twice": ("enum bad_%d { EE_%d, EE_%d };", 0), "unterminated-if": ("#ifdef SOMETHING", 2), "elseless": ("#endif", 3),
    "open-brace": ("struct bad_%d {", 2), "close-brace": ("}", 4), "open-paren": ("int bad_%d(int a;", 0), "open-comment": ("/* never closed", 2), "open-string": ("#include \"open", 4), "werror": ("#pragma GCC error \"stop\"", 0),
}
WARNINGS = ["#warning mind this", "static int unused_%d;", "#pragma nothing to see", "int wa_%d();", "typedef int;", "extern int wx_%d;;", "#define WM_%d 1\n#define WM_%d 2", "#define __STDC_HOSTED__ 1", "struct we_%d { };", "int wb_%d(const volatile int a);",
            "/* /* */", "int wd_%d(int a) __attribute__((nothing_known));", "enum wf_%d { wg_%d = 0x80000000u };", "#ident \"x\"", "extern inline int wh_%d(void);", "_Static_assert(1, \"\");", "long long long_%d;", "int wi_%d(struct nowhere_%d *p);"]


def subst(t, k):
    return t.replace("%d", str(k))


def points(text):
    """lines before which a declaration can be inserted"""
    depth, res, lines = 0, [], text.split("\n")
    seen = False
    for i, l in enumerate(lines):
        if depth == 0 and seen and re.match(r"(\w|#|$)", l) and (lines[i - 1].endswith((";", "}", ">")) or i == 2):
            res.append(i)
        depth += l.count("{") - l.count("}")
        seen = seen or l.startswith("#define HDR")
    return res


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}


def header(r, k):
    return cgen.Gen(r, "h%d" % k, nfuncs=r.randint(1, 6)).go()


def parser_errors(chk, gen):
    n = 8000 if chk.thorough else 900

    def one(k):
        r = rng_of(chk, "p", k)
        h = header(r, k)
        text = h.text()
        lines = text.split("\n")
        pts = points(text)
        if not pts:
            return
        name = sorted(ERRORS)[k % len(ERRORS)]
        t, lost = ERRORS[name]
        at = r.choice(pts)
        snippet = subst(t, k)
        bad_text = "\n".join(lines[:at] + [snippet] + lines[at:])
        where = r.choice(["main", "main", "included", "included-twice"])
        d = chk.dir("p%d" % k)
        out = os.path.join(d, "out")
        os.makedirs(out)
        inc = "inc_%d.h" % k
        if where == "main":
            main, files = bad_text, {}
        else:
            main, files = '#include "%s"\nint own_%d(int a);\n' % (inc, k), {inc: bad_text}
            if where == "included-twice":
                main, files["mid.h"] = main.replace(inc, "mid.h"), '#include "%s"\n' % inc
        for f, x in list(files.items()) + [("x.h", main)]:
            open(os.path.join(d, f), "w").write(x)
        old = {}
        if r.random() < 0.7:
            old = {"easyMock_x.h": b"old header " * r.randint(1, 9000), "easyMock_x.c": b"old source"}
            for f, x in old.items():
                open(os.path.join(out, f), "wb").write(x)
        opts = ["--generate-included-functions"] if where != "main" and r.random() < 0.6 else []
        opts += ["--generate-types"] if r.random() < 0.3 else []
        args = [gen, "-i", os.path.join(d, "x.h"), "-o", out] + opts
        g = run2(args, timeout=60)
        bad = lambda key, what: chk.violation("%s:%s" % (name, key), "%s (%s, line %d)\n%s\nexit %s%s\n%s\n%s" % (snippet, where, at + 1, what, g.rc, " TIMEOUT" if g.timeout else "", g.out[-500:], g.err[-2500:]), files=dict(files, **{"x.h": main}))
        if g.timeout or g.rc is None or g.rc < 0 or CRASH.search(g.err):
            bad("crash", "the generator does not end properly")
        elif g.rc == 0:
            bad("accepted", "a header with an error is a success")
        else:
            fname = "x.h" if where == "main" else inc
            # what is never closed may be missed by the includer
            if not re.search((r"\b(x|mid|inc_\d+)\.h" if lost == 2 else re.escape(fname)) + r":\d+:\d+: (fatal )?error: ", g.err):
                bad("location", "the error is not reported where it is")
        if snapshot(out) != old:
            bad("written", "the mock of before was changed: %s" % sorted(snapshot(out)))
        if k < 3:
            chk.sample({"error": name, "in": where, "reported": g.err[:200]})
        chk.saw(("error", name, where, bool(old), tuple(opts)))
        chk.count("headers_with_errors")
        # all the same
        if where != "main" and not opts:
            opts.append("--generate-included-functions")
        if "--generate-types" not in opts:
            g = run2(args[:5] + opts + ["--ignore-parser-error"], timeout=60)
            files_now = snapshot(out)
            if g.timeout or g.rc is None or g.rc < 0 or CRASH.search(g.err):
                bad("ignore:crash", "with --ignore-parser-error the generator does not end properly")
            elif g.rc != 0:
                bad("ignore:failed", "with --ignore-parser-error the mock is not made")
            elif not re.search(r"error: ", g.err):
                bad("ignore:silent", "with --ignore-parser-error the error is not reported")
            else:
                got = set(re.findall(r"\b(\w+)_ExpectAndReturn\s*\(", files_now["easyMock_x.h"].decode()))
                own = {"own_%d" % k} if where != "main" else set()
                before = {f.name for f in h.funcs if re.search(r"\b%s\(" % f.name, "\n".join(lines[:at]))}
                want = (before | own if lost != 1 else before) if lost else {f.name for f in h.funcs} | own
                if lost == 2:
                    want = before
                if lost in (3, 4):
                    want = before
                if not want <= got:
                    bad("ignore:lost", "with --ignore-parser-error not mocked: %s" % sorted(want - got))
                chk.count("functions_mocked_despite_errors", len(want))
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))


# errors of C++
CPP_ERRORS = {
    "base": "class bad_%d : public nosuch_%d { };", "class-twice": "class bad_%d { };\nclass bad_%d { int a; };", "type": "nosuch_t bad_%d(int a);", "method-twice": "class bad_%d { public: int m(); int m(); };",
    "result-alone": "int bad_%d(int);\nlong bad_%d(int);", "include": '#include "nosuch_%d.h"', "default": "int bad_%d(int a = 0, int b);", "assert": 'static_assert(sizeof(int) == 1, "no");',
    "namespace-as-type": "namespace bad_%d { }\nbad_%d fbad_%d();", "scope": "int nosuch_%d::f();", "directive": "#error not like this", "not-a-member": "class bad_%d { public: int m(); };\nint bad_%d::n();",
    "template": "template <class T> class tbad_%d;\ntbad_%d<> fbad_%d();", "deleted": "struct dbad_%d { dbad_%d() = delete; };\ninline int use_%d() { dbad_%d a; return 0; }", "private": "class pbad_%d { int x; };\ninline int pb_%d(pbad_%d &p) { return p.x; }",
    "no-semicolon": "class sbad_%d { int a; }\n;int nbad_%d(nosuch);", "const-method": "class cbad_%d { int x; int set() const { x = 1; return 0; } };", "enum-scope": "enum class ebad_%d { A };\nenum ebad_%d ef_%d();\nint ebv_%d = A;",
    "access": "class abad_%d { protected public: int a; };", "using": "using ubad_%d = nosuch_%d;", "using-namespace": "using namespace nosuch_%d;", "auto": "auto aubad_%d;", "reference": "int &rbad_%d;", "this": "inline int tbad_%d() { return this->x; }",
}


def cpp_parser_errors(chk, gen):
    """C++ headers with one error, between any two declarations"""
    n = 1500 if chk.thorough else 240

    def one(k):
        r = rng_of(chk, "cpp", k)
        h = adaptcpp.CppGen(r, "h%d" % k, nfuncs=r.randint(1, 6)).go()
        name = sorted(CPP_ERRORS)[k % len(CPP_ERRORS)]
        at = r.randint(0, len(h.body))
        body = h.body[:at] + [subst(CPP_ERRORS[name], k)] + h.body[at:]
        text = "#ifndef H_%d\n#define H_%d\n%s\n#endif\n" % (k, k, "\n".join(body))
        inside = r.random() < 0.35
        d = chk.dir("cp%d" % k)
        out = os.path.join(d, "out")
        os.makedirs(out)
        files = {"inc.hpp": text, "x.h": '#include "inc.hpp"\nint own_%d(int a);\n' % k} if inside else {"x.h": text}
        for f, x in files.items():
            open(os.path.join(d, f), "w").write(x)
        old = {}
        if r.random() < 0.7:
            old = {"easyMock_x.h": b"old header " * r.randint(1, 9000), "easyMock_x.cpp": b"old source", "easyMock_x.c": b"another"}
            for f, x in old.items():
                open(os.path.join(out, f), "wb").write(x)
        opts = ["--mock-cpp"] + (["--generate-included-functions"] if inside and r.random() < 0.6 else []) + ["-x", "c++"]
        args = [gen, "-i", os.path.join(d, "x.h"), "-o", out]
        g = run2(args + opts, timeout=60)
        bad = lambda key, what: chk.violation("cpp:%s:%s" % (name, key), "%s\n%s\nexit %s%s\n%s\n%s" % (CPP_ERRORS[name], what, g.rc, " TIMEOUT" if g.timeout else "", g.out[-500:], g.err[-2500:]), files=files)
        if g.timeout or g.rc is None or g.rc < 0 or CRASH.search(g.err):
            bad("crash", "the generator does not end properly")
        elif g.rc == 0:
            bad("accepted", "a header with an error is a success")
        elif not re.search((r"inc\.hpp" if inside else r"x\.h") + r":\d+:\d+: (fatal )?error: ", g.err):
            bad("location", "the error is not reported where it is")
        if snapshot(out) != old:
            bad("written", "the mock of before was changed: %s" % sorted(snapshot(out)))
        chk.saw(("cpp-error", name, inside, bool(old)))
        chk.count("cpp_headers_with_errors")
        if name == "include":
            return          # nothing is read after it
        if inside and len(opts) < 4:
            opts.insert(1, "--generate-included-functions")
        g = run2(args + ["--ignore-parser-error"] + opts, timeout=60)
        now = snapshot(out)
        if g.timeout or g.rc is None or g.rc < 0 or CRASH.search(g.err):
            bad("ignore:crash", "with --ignore-parser-error the generator does not end properly")
        elif g.rc:
            bad("ignore:failed", "with --ignore-parser-error the mock is not made")
        elif "error: " not in g.err:
            bad("ignore:silent", "with --ignore-parser-error the error is not reported")
        else:
            got = set(re.findall(r"(\w+)\([^\n]*\)(?: const)?' -+\*/", now.get("easyMock_x.h", b"").decode()))
            lost = sorted({f.fn for f in h.funcs} - got)
            if lost:
                bad("ignore:lost", "with --ignore-parser-error not mocked: %s" % lost)
            chk.count("functions_mocked_despite_errors", len(h.funcs))
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))


def parser_warnings(chk, gen):
    def one(k):
        r = rng_of(chk, "w", k)
        h = header(r, k)
        lines = h.text().split("\n")
        pts = points(h.text())
        if not pts:
            return
        w = sorted(r.sample(range(len(WARNINGS)), 3))
        for i in w:
            lines.insert(pts[0], subst(WARNINGS[i], k))
        d = chk.dir("w%d" % k)
        flags = r.choice([[], ["-Wall", "-Wextra"], ["-Weverything"], ["-pedantic"]])
        r2 = mocks.gen_mock(gen, None, d, flags, text="\n".join(lines), name="x")
        got = set()
        p = os.path.join(d, "easyMock_x.h")
        if os.path.exists(p):
            got = set(re.findall(r"\b(\w+)_ExpectAndReturn\s*\(", open(p).read()))
        if r2.rc or r2.timeout or not {f.name for f in h.funcs} <= got:
            chk.violation("warning:%s" % "+".join(map(str, w)), "a header with warnings only is not mocked\n%s" % mocks.explain("generate", r2), files={"x.h": "\n".join(lines)})
        chk.saw(("warning", tuple(w)))
        chk.count("headers_with_warnings")
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(2000 if chk.thorough else 200))


def faults(chk, gen):
    """system calls which fail, one at a time, at every place where they can"""
    n = 100 if chk.thorough else 16
    probe = run2(["strace", "-o", "/dev/null", "-e", "inject=getppid:error=EIO", "true"])
    if probe.rc:
        raise HarnessError("strace does not work here: " + probe.err[:500])

    def prepare(k):
        r = rng_of(chk, "f", k)
        d = chk.dir("f%d" % k)
        cpp = k % 4 == 3
        h = (adaptcpp.CppGen if cpp else cgen.Gen)(r, "f%d" % k, nfuncs=r.choice([1, 3, 12, 30])).go()
        open(os.path.join(d, "dep.h"), "w").write(h.text())
        open(os.path.join(d, "x.h"), "w").write('#include "dep.h"\n%s\nint own_%d(int a);\n' % ("/* %s */" % ("long " * 3000) if r.random() < 0.5 else "", k))
        ref = os.path.join(d, "ref")
        os.makedirs(ref)
        opts = ["--generate-included-functions"] + (["--mock-cpp", "-x", "c++"] if cpp else ["--generate-types"] if r.random() < 0.5 else [])
        g = run2([gen, "-i", os.path.join(d, "x.h"), "-o", ref] + opts, timeout=60)
        if g.rc:
            chk.violation("fault:reference", "a header without an error is not mocked\n" + mocks.explain("generate", g))
            return []
        want = snapshot(ref)
        tasks = []
        for f in sorted(want):
            writes = len(want[f]) // 4096 + 2
            for call, errs, nth in [("openat", ["ENOSPC", "EACCES", "EMFILE", "EROFS", "EINTR", "EISDIR"], [1]), ("write", ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"], range(1, writes + 1)), ("close", ["EIO", "ENOSPC", "EDQUOT"], [1]),
                                    ("fstat,newfstatat,statx", ["EIO"], [1])]:
                ns = list(nth)
                if len(ns) > 4 and not chk.thorough:
                    ns = [1, 2] + r.sample(ns[2:-1], 1) + ns[-1:]
                for i in ns:
                    for e in errs if chk.thorough else r.sample(errs, min(2, len(errs))):
                        tasks.append((k, d, opts, want, "out/" + f, call, e, str(i)))
                if call == "write":
                    tasks.append((k, d, opts, want, "out/" + f, call, r.choice(errs), "%d+" % r.choice(ns)))
        for f in ("x.h", "dep.h"):
            for call, errs, nth in [("openat", ["EACCES", "EIO", "EMFILE", "ELOOP"], [1, 2, 3]), ("read,pread64,mmap", ["EIO", "EAGAIN"], [1, 2]), ("newfstatat,fstat,statx,stat,lstat", ["EIO", "EACCES"], [1, 2, 3])]:
                for i in nth:
                    tasks.append((k, d, opts, want, f, call, r.choice(errs), "%d+" % i if call != "openat" and r.random() < 0.5 else str(i)))
        return tasks
    tasks = [t for ts in pmap(prepare, range(n)) for t in ts]

    def one(t):
        k, d, opts, want, f, call, err, when = t
        r = rng_of(chk, "ff", *map(str, t[4:]))
        w = os.path.join(d, "run-%s-%s-%s-%s" % (f.replace("/", "_"), call.replace(",", "_"), err, when))
        out = os.path.join(w, "out")
        os.makedirs(out)
        for x in ("x.h", "dep.h"):
            shutil.copy(os.path.join(d, x), w)
        if r.random() < 0.5:
            for x in want:
                open(os.path.join(out, x), "wb").write(b"stale " * r.randint(1, 20000))
        log = os.path.join(w, "log")
        g = run2(["strace", "-f", "-qq", "-o", log, "-P", os.path.join(w, f), "-e", "trace=" + call, "-e", "inject=%s:error=%s:when=%s" % (call, err, when),
                  gen, "-i", os.path.join(w, "x.h"), "-o", out] + opts, timeout=60)
        hit = open(log).read().count("INJECTED") if os.path.exists(log) else 0
        key = "fault:%s:%s:%s" % (os.path.splitext(f)[1] if f.startswith("out") else f, call, err)
        bad = lambda kk, what: chk.violation(key + ":" + kk, "%s of %s fails with %s (call %s)\n%s\nexit %s\n%s\n%s" % (call, f, err, when, what, g.rc, g.out[-300:], g.err[-1500:]))
        if g.timeout:
            bad("hang", "the generator does not end")
        elif g.rc == 0:
            now = snapshot(out)
            norm = lambda s: {x: re.sub(rb"^(// from: ).*/", rb"\1", re.sub(rb"^(\s*//)/.*/", rb"\1", v, flags=re.M), flags=re.M) for x, v in s.items()}
            if norm(now) != norm(want):
                bad("incomplete", "success, and the files are not those written without the failure")
        elif not g.err.strip():
            bad("silent", "the failure is not reported")
        elif not hit:
            bad("alone", "the generator fails without a failing call")
        chk.saw(("fault", os.path.splitext(f)[1], call, err, when) if hit else None)
        chk.count("system_calls_failed", hit)
        chk.count("runs_failed_by_a_fault", int(g.rc != 0))
        chk.count("runs_unharmed", int(g.rc == 0))
        if not chk.keep:
            shutil.rmtree(w, ignore_errors=True)
    pmap(one, tasks)


def places(chk, gen):
    """output directories in every state"""
    def one(k):
        r = rng_of(chk, "o", k)
        d = chk.dir("o%d" % k)
        h = header(r, k)
        ref, out = os.path.join(d, "ref"), os.path.join(d, "out")
        os.makedirs(ref)
        os.makedirs(out)
        open(os.path.join(d, "x.h"), "w").write(h.text())
        args = lambda o: [gen, "-i", os.path.join(d, "x.h"), "-o", o]
        if run2(args(ref)).rc:
            return chk.violation("reference", "header not mocked", files={"x.h": h.text()})
        want = snapshot(ref)
        f = r.choice(["easyMock_x.h", "easyMock_x.c"])
        p = os.path.join(out, f)
        kind = ["stale-long", "stale-short", "directory", "full", "link-out", "dangling", "fsize", "fifo-closed", "readonly-file", "two-at-once", "killed", "hardlink", "link-loop", "nonempty-directory", "user", "user-readonly"][k % 16]
        pre, ok, others, cmd = None, True, {}, args(out)
        if kind == "stale-long":
            for x in want:
                open(os.path.join(out, x), "wb").write(want[x] + b"\n#error stale\n" * 999)
        elif kind == "stale-short":
            for x in want:
                open(os.path.join(out, x), "wb").write(want[x][:r.randint(0, 300)])
        elif kind == "directory":
            os.makedirs(p)
            ok = False
        elif kind == "nonempty-directory":
            os.makedirs(p)
            open(os.path.join(p, "mine"), "w").write("x")
            ok = False
        elif kind == "full":
            os.symlink("/dev/full", p)
            ok = False
        elif kind == "link-loop":
            os.symlink(f, p)
            ok = False
        elif kind == "link-out":
            os.symlink(os.path.join(d, "elsewhere"), p)
        elif kind == "dangling":
            os.symlink(os.path.join(d, "nowhere", "f"), p)
            ok = False
        elif kind == "fsize":
            import resource, signal
            lim = r.choice([0, 1, 100, 4096, 5000, len(want["easyMock_x.c"]) - 1])

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            ok = lim >= max(map(len, want.values()))
        elif kind == "readonly-file":
            open(p, "w").write("x")
            os.chmod(p, 0o444)
            ok = None
        elif kind == "hardlink":
            open(os.path.join(d, "other"), "w").write("x" * 100000)
            os.link(os.path.join(d, "other"), p)
        elif kind in ("user", "user-readonly"):
            # somebody who may not write there
            os.chmod(out, 0o755 if kind == "user-readonly" else 0o777)
            ok = kind == "user"

            def pre():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
        elif kind == "killed":
            # whatever a run which was stopped leaves, the next run replaces
            import signal, subprocess, time
            p2 = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            time.sleep(r.random() * 0.12)
            p2.send_signal(signal.SIGKILL)
            p2.wait()
        if kind == "fifo-closed":
            os.makedirs(os.path.join(out, "sub"))
            open(os.path.join(out, "sub", "keep"), "w").write("x")
            open(os.path.join(out, "easyMock_x.hpp"), "w").write("mine")
            open(os.path.join(out, "x.h"), "w").write("mine")
            others = {"easyMock_x.hpp": b"mine", "x.h": b"mine"}
        before = None
        if kind == "two-at-once":
            rs = pmap(lambda i: run2(cmd), range(3), 3)
            g = next((x for x in rs if x.rc), rs[0])
        else:
            g = run2(cmd, preexec=pre, timeout=60)
        bad = lambda kk, what: chk.violation("place:%s:%s" % (kind, kk), "%s %s\n%s\nexit %s\n%s\n%s" % (kind, f, what, g.rc, g.out[-300:], g.err[-1000:]))
        now = snapshot(out)
        if g.timeout or g.rc is None or g.rc < 0 or CRASH.search(g.err):
            bad("crash", "the generator does not end properly")
        elif g.rc == 0 and ok is False:
            bad("accepted", "the mock cannot be written, which is a success")
        elif g.rc != 0 and ok is True:
            bad("failed", "the mock could be written, and is not")
        elif g.rc != 0 and not g.err.strip():
            bad("silent", "the failure is not reported")
        elif g.rc == 0 and now != dict(want, **others):
            bad("incomplete", "the files are not those of an empty directory")
        if kind == "nonempty-directory" and not os.path.exists(os.path.join(p, "mine")):
            bad("removed", "a file was removed")
        chk.saw(("place", kind, f, g.rc))
        chk.count("output_places")
        if not chk.keep:
            shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(1600 if chk.thorough else 240))


def check(chk):
    gen = build.generator(chk)
    os.chmod(gen, 0o755)
    chk.rule = "random headers with one error of each kind at a random place, system calls failing one at a time under strace, output directories in every state; distinct by kind of failure and place"
    chk.assumptions = ["errors the C standard requires to be diagnosed", "strace can inject failures in its own children"]
    parser_errors(chk, gen)
    cpp_parser_errors(chk, gen)
    parser_warnings(chk, gen)
    places(chk, gen)
    faults(chk, gen)
