"""Generate mocks with the real generator, compile them with the adapters, link the history driver."""
import os, re
from .core import run, run2, HarnessError, REPO, VERIF, pmap
from . import adapt
from .build import FW, SAN

CSAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=function,vptr", "-fno-omit-frame-pointer"]
HX = os.path.join(VERIF, "harness")


class GenFail(Exception):
    def __init__(self, stage, what, files):
        Exception.__init__(self, what)
        self.stage, self.what, self.files = stage, what, files


def gen_mock(gen, hdr, d, opts=(), parse_opts=(), timeout=60, text=None, name=None, env=None):
    """writes the header in d and runs the generator; returns the run's result"""
    name = name or hdr.name
    p = os.path.join(d, name + ".h")
    if text is None and hdr is not None:
        text = hdr.text()
    if text is not None:
        with open(p, "w") as f:
            f.write(text)
    return run2([gen, "-i", p, "-o", d] + list(opts) + list(parse_opts), timeout=timeout, env=env)


def explain(stage, r):
    return "%s: %s (exit %s%s)\n%s\n%s" % (stage, " ".join(r.cmd), r.rc, " TIMEOUT" if r.timeout else "", r.out[-1500:], r.err[-3000:])


def cc(args, what, files, timeout=300, compiler="clang"):
    r = run2([compiler] + args, timeout=timeout)
    if r.rc != 0:
        raise GenFail(what, explain(what, r), files)
    return r


def c_objects(gen, a, d, opts, flags, comparators, compiler):
    """the objects of one C mock and of its adapter; the files of the mock"""
    h = a.h
    r = gen_mock(gen, h, d, list(opts))
    files = {h.name + ".h": h.text()}
    if r.rc != 0 or r.timeout:
        raise GenFail("generate", explain("generate", r), files)
    for sfx in (".c", ".h"):
        p = os.path.join(d, "easyMock_%s%s" % (h.name, sfx))
        if not os.path.exists(p):
            raise GenFail("generate", "no %s was written\n" % p + explain("generate", r), files)
        files["easyMock_%s%s" % (h.name, sfx)] = open(p).read()
    if comparators:
        a.comparators = sorted(set(re.findall(r"\b(cmp_\w+)\s*\(", files["easyMock_%s.h" % h.name])))
    mk, calls, exps = a.emit()
    if a.missing:
        raise GenFail("comparators", "no comparator is declared: " + "; ".join(a.missing), files)
    n = h.name
    open(os.path.join(d, "mk_%s.h" % n), "w").write(mk)
    open(os.path.join(d, "call_%s.c" % n), "w").write('#include "%s.h"\n#include "mk_%s.h"\n%s\n' % (n, n, calls))
    open(os.path.join(d, "exp_%s.c" % n), "w").write('#include "easyMock_%s.h"\n#include "mk_%s.h"\n%s\n' % (n, n, exps))
    # the adapters' own view of the header must be fine, else the harness is at fault
    r = run2([compiler] + flags + [os.path.join(d, "call_%s.c" % n), "-o", os.path.join(d, "call_%s.o" % n)], timeout=300)
    if r.rc != 0:
        raise HarnessError("harness call adapter does not compile\n" + explain("cc", r))
    cc(flags + [os.path.join(d, "easyMock_%s.c" % n), "-o", os.path.join(d, "mock_%s.o" % n)], "compile-mock", files, compiler=compiler)
    cc(flags + [os.path.join(d, "exp_%s.c" % n), "-o", os.path.join(d, "exp_%s.o" % n)], "compile-user-of-mock", files, compiler=compiler)
    return files


def shared(adapters, dl, d, fwdir, san, files, compiler):
    """every mock in a shared object of its own; the objects of the indices in dl exist twice"""
    libs, metas = [], []
    for k, a in list(enumerate(adapters)) + [(k, a) for k, a in enumerate(adapters) if k in dl]:
        so = os.path.join(d, "lib%d_%s.so" % (len(libs), a.h.name))
        cc(list(san) + ["-shared", "-o", so] + [os.path.join(d, "%s_%s.o" % (x, a.h.name)) for x in ("call", "exp", "mock")]
           + ["-L" + fwdir, "-lEasyMockFramework", "-Wl,-rpath," + fwdir], "link-shared", files, compiler=compiler)
        metas += [dict(m, lib=len(libs)) for m in a.meta]
        libs.append((so, [f.name for f in a.h.funcs]))
    open(os.path.join(d, "hx_table.c"), "w").write(adapt.table_dl(libs))
    return metas


def build_history_exe(chk, gen, fwdir, hdrs, d, opts=("--generate-comparator-of", "EasyMock_all_comparators"), genopts=(),
                      cflags=(), san=CSAN, comparators=True, main="hx_main.c", compiler="clang", jobs=8, dl=None):
    """returns (exe, metas).  Raises GenFail when a header inside the supported subset cannot be mocked and linked."""
    adapters, base = [], 0
    for h in hdrs:
        a = adapt.Adapter(h, base)
        base += len(h.funcs)
        adapters.append(a)
    inc = ["-I" + d, "-I" + HX, "-I" + FW + "/include"]
    flags = ["-std=gnu11", "-w", "-O1", "-g", "-c", "-fno-optimize-sibling-calls"] + (["-gdwarf-aranges"] if compiler == "clang" else []) + list(san) + list(cflags) + inc + (["-fPIC"] if dl else [])

    def one(a):
        return c_objects(gen, a, d, list(opts) + list(genopts), flags, comparators, compiler)
    res = []

    def guarded(a):
        try:
            return one(a)
        except (GenFail, HarnessError) as ex:
            return ex
    res = pmap(guarded, adapters, jobs)
    for x in res:
        if isinstance(x, HarnessError):
            raise x
    for x in res:
        if isinstance(x, GenFail):
            raise x
    files = {}
    for x in res:
        files.update(x)
    if dl:
        metas = shared(adapters, dl, d, fwdir, san, files, compiler)
        flags.append("-DHX_DL")
    else:
        open(os.path.join(d, "hx_table.c"), "w").write(adapt.table(adapters))
    cc(flags + [os.path.join(d, "hx_table.c"), "-o", os.path.join(d, "hx_table.o")], "harness-table", files, compiler=compiler)
    r = run2([compiler] + flags + [os.path.join(HX, main), "-o", os.path.join(d, "hx_main.o")])
    if r.rc != 0:
        raise HarnessError(explain("driver", r))
    objs = [os.path.join(d, x) for x in ["hx_table.o", "hx_main.o"]]
    for a in [] if dl else adapters:
        objs += [os.path.join(d, "%s_%s.o" % (k, a.h.name)) for k in ("call", "exp", "mock")]
    exe = os.path.join(d, "hx")
    cc(list(san) + objs + ["-o", exe, "-L" + fwdir, "-lEasyMockFramework", "-Wl,-rpath," + fwdir] + (["-rdynamic", "-ldl"] if dl else []), "link", files, compiler=compiler)
    if not dl:
        metas = [m for a in adapters for m in a.meta]
    return exe, metas, files
