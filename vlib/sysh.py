"""The C headers installed on the machine, as realistic input."""
import glob, os
from .core import run2, pmap

ROOTS = ["/usr/include/*.h", "/usr/include/x86_64-linux-gnu/*.h"]
SUBS = ["linux", "asm-generic", "x86_64-linux-gnu/sys", "x86_64-linux-gnu/bits", "x86_64-linux-gnu/asm", "arpa", "netinet", "net", "rpc", "protocols", "openssl", "valgrind", "python3.12", "x86_64-linux-gnu/openssl"]


def headers():
    """{name: path} of every installed C header looked at"""
    res = {}
    for g in ROOTS + ["/usr/include/%s/*.h" % s for s in SUBS]:
        for p in sorted(glob.glob(g)):
            n = p.replace("/usr/include/", "").replace("x86_64-linux-gnu/", "")
            res.setdefault(n, p)
    return res


def standalone(d, names):
    """those which compile on their own"""
    hs = headers()

    def one(n):
        p = os.path.join(d, n.replace("/", "_") + ".c")
        open(p, "w").write('#include "%s"\n' % hs[n])
        r = run2(["clang", "-std=gnu17", "-fsyntax-only", "-w", p])
        os.unlink(p)
        return r.rc == 0
    names = list(names)
    return {n: hs[n] for n, ok in zip(names, pmap(one, names)) if ok}


def decls_tool(d):
    """the independent reader of declarations"""
    from .core import VERIF, HarnessError
    exe = os.path.join(d, "decls")
    r = run2(["clang", "-w", "-O1", os.path.join(VERIF, "harness", "decls.c"), "-o", exe, "-I/usr/lib/llvm-18/include", "-L/usr/lib/llvm-18/lib", "-lclang-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
    if r.rc:
        raise HarnessError("decls.c: " + r.err[:2000])
    return exe


def decls(exe, header, args=(), cwd=None):
    """[declaration] in the order of the header, None when it does not parse"""
    import json
    r = run2([exe, header, "-xc", "-std=gnu17", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + list(args), cwd=cwd)
    if r.rc:
        return None
    return [json.loads(l) for l in r.out.splitlines()]
