"""The generator on whatever it is given: no memory error, no undefined behaviour, no crash, no hang."""
import shutil
from vlib import hostile, sysh
from common import *

ENV = dict(SAN_ENV)
# the parser's libraries are not instrumented: what they put into containers of ours is not annotated
ENV["ASAN_OPTIONS"] = "detect_leaks=0:handle_abort=0:abort_on_error=0:exitcode=99:detect_container_overflow=0:detect_odr_violation=0:detect_stack_use_after_return=1:strict_string_checks=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ALL = ["--generate-comparator-of", "EasyMock_all_comparators", "--generate-attribute", "EasyMock_all_attributes"]
CXX_HEADERS = ["string", "vector", "map", "functional", "memory", "iostream", "algorithm", "thread", "regex", "tuple", "cmath", "cstdio", "complex", "bitset", "exception", "new"]


def outcome(r):
    """-> (violation key or None, class of the outcome)"""
    if r.timeout:
        return "hang", "hang"
    e = r.err
    if core.SAN_RE.search(e):
        m = re.search(r"ERROR: \w+Sanitizer: ([\w-]+)|runtime error: ([a-z ]+)", e)
        return "memory:" + (m.group(1) or m.group(2)).strip().replace(" ", "-"), "sanitizer"
    if "terminate called" in e:
        return "exception:" + "".join(re.findall(r"instance of '([^']*)'", e)[:1]), "exception"
    if "Assertion" in e:
        line = [l for l in e.split("\n") if "Assertion" in l][0]
        if re.match(r"\S*/c\+\+/", line):
            return "container:" + e[e.index("Assertion"):][:60].replace(" ", "_"), "container"
        return None, "assertion"
    if r.rc and r.rc < 0:
        return "signal:%d" % -r.rc, "signal"
    if r.rc and not e.strip():
        return "silent", "silent"
    return None, "mocked" if r.rc == 0 else "refused"


def shrink(still, text, budget=60):
    """removes lines, then tokens, while the outcome stays"""
    for split in (lambda t: t.splitlines(True), lambda t: hostile.TOKEN.findall(t)):
        parts = split(text)
        size = max(1, len(parts) // 2)
        while size and budget > 0:
            i = 0
            while i < len(parts) and budget > 0:
                cand = parts[:i] + parts[i + size:]
                budget -= 1
                if cand and still("".join(cand)):
                    parts = cand
                else:
                    i += size
            size //= 2
        text = "".join(parts)
    return text


def judge(chk, gen, d, text, opts, what, prefix="", must=False, path=None, env=ENV, cmd=(), timeout=60):
    def once(t):
        p = path
        if p is None:
            p = os.path.join(d, "x.h")
            with open(p, "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape"))
        return run(list(cmd) + [gen, "-i", p, "-o", d] + opts, env=env, cwd=d, timeout=timeout)
    r = once(text)
    if r.timeout:
        r = run2(r.cmd, env=env, cwd=d, timeout=2 * timeout)
    key, cls = outcome(r)
    if must and cls != "mocked" and not key:
        key = "refused"
    chk.count(cls)
    f = sorted(x for x in os.listdir(d) if x.startswith("easyMock_"))
    diag = re.sub(r"[\w./-]*x\.h:\d+:\d+|\d+|'[^']*'", "", " ".join(sorted(set(re.findall(r"(?:error|warning|Assertion|Unexpected|unexpected)[^\n]*", r.err)))))[:300]
    chk.saw("%s/%s/%s/%s" % (what, cls, len(f), diag))
    if key:
        small = text
        if path is None and isinstance(text, str) and key != "hang":
            small = shrink(lambda t: outcome(once(t))[0] == key, text)
        m = re.search(r"(ERROR: \w+Sanitizer|runtime error|terminate called|.*Assertion)", r.err)
        chk.violation((prefix + ":" if prefix else "") + key, "%s (%s) ends with %s\noptions: %s\n%s\n%s" % (
            what, cls, "a hang" if r.timeout else "status %s" % r.rc, opts, small[:1500] if small else path, r.err[m.start():][:1500] if m else r.err[-1500:]),
            files={"x.h": text or "", "small.h": small or "", "stderr.txt": r.err[:20000], "command.txt": " ".join(map(repr, r.cmd))})
    return r


def check(chk):
    b = pmap(lambda s: build.generator(chk, san=s), [True, False], 2)
    gen, plain = b
    chk.rule = "runs of the generator built with AddressSanitizer and UndefinedBehaviorSanitizer (and some under valgrind memcheck) on ordinary, odd, mutated, truncated and extreme headers, with all options; distinct by kind of header, outcome and diagnostics"
    chk.assumptions = ["the libraries of the parser are not instrumented", "an assertion of the generator is a diagnostic (what it does not support), except on ordinary headers", "nesting and sizes which the compiler itself accepts"]

    # every odd construct alone, as C and as C++
    jobs = []
    for cxx, ps in ((False, hostile.C_PIECES), (True, hostile.CXX_PIECES), (True, hostile.C_PIECES)):
        for i, p in enumerate(ps):
            for o in ([], ["--generate-types"]) if not chk.thorough else ([], ["--generate-types"], ["--generate-included-functions"], ["--ignore-parser-error", "--generate-types"]):
                jobs.append((cxx, i, p, o))

    def piece(j):
        cxx, i, p, o = j
        r = rng_of(chk, "p", cxx, i)
        d = chk.dir("p%d_%d_%d" % (cxx, i, jobs.index(j)))
        text = hostile.expand(p, "1")
        if text.startswith("#if"):
            text += "\nint f1(int a);\n#endif\n"
        judge(chk, gen, d, text + "\n", (["--mock-cpp"] if cxx else []) + ALL + o, "piece")
        shutil.rmtree(d)
    pmap(piece, jobs)

    # installed headers
    hs = sysh.headers()
    names = sorted(hs)
    r = rng_of(chk, "sys")
    if not chk.thorough:
        names = r.sample(names, min(60, len(names)))

    def system(n):
        rr = rng_of(chk, "s", n)
        d = chk.dir("s_" + n.replace("/", "_"))
        judge(chk, gen, d, None, ALL + rr.choice([[], ["--generate-types"], ["--generate-included-functions"]]) + rr.choice([[], ["--mock-cpp"], ["--ignore-parser-error"]]), "installed header", path=hs[n])
        shutil.rmtree(d)
    pmap(system, names)

    def cxxstd(n):
        d = chk.dir("cxx_" + n)
        rr = rng_of(chk, "cxx", n)
        judge(chk, gen, d, "#include <%s>\nint f(int a);\nclass c { public: int m(int a); };\n" % n, ["--mock-cpp"] + (["--generate-included-functions"] if rr.random() < 0.4 else []) + (["--generate-types"] if rr.random() < 0.4 else []), "C++ library")
        shutil.rmtree(d)
    pmap(cxxstd, CXX_HEADERS)

    # random
    n = 60000 if chk.thorough else 8000

    def one(k):
        rr = rng_of(chk, "r", k)
        d = chk.dir("r%d" % k)
        text, cxx, what = hostile.header(rr, k)
        o = hostile.options(rr, cxx)
        ordinary = what == "ordinary" and not cxx and not any(x in ("", "--") or (x.startswith("-") and not x.startswith("--")) for x in o)
        if rr.random() < 0.04:
            text, what, ordinary = hostile.garbage(rr, text), "bytes", False
        judge(chk, gen, d, text, o, what + (", C++" if cxx else ""), must=ordinary)
        if k < 4:
            chk.sample({"header": (text if isinstance(text, str) else repr(text))[:300], "options": o})
        shutil.rmtree(d)
    pmap(one, range(n))

    # memcheck: reads of memory never written, which the sanitizers above do not see
    nv = 400 if chk.thorough else 32

    def vg(k):
        rr = rng_of(chk, "v", k)
        d = chk.dir("v%d" % k)
        text, cxx, what = hostile.header(rr, k)
        o = hostile.options(rr, cxx)
        log = os.path.join(d, "valgrind.log")
        rv = judge(chk, plain, d, text, o, "memcheck " + what, path=None, cmd=["valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "--log-file=" + log, "--child-silent-after-fork=yes"], timeout=240)
        t = open(log).read() if os.path.exists(log) else ""
        if "uninitialised" in t or "Invalid" in t:
            chk.violation("memcheck", "memcheck reports on the generator\noptions %s\n%s\n%s" % (o, text[:1500], t[:2500]), files={"x.h": text, "valgrind.log": t})
        chk.count("memcheck runs")
        shutil.rmtree(d)
    pmap(vg, range(nv))
