"""Builds /repo's generator and framework from the current working tree, outside /repo."""
import glob, hashlib, os, shutil, subprocess
from .core import REPO, VERIF, JOBS, HarnessError, run, pmap

GEN_DEFS = ['-DC_IMPLICIT_INCLUDE_DIRECTORIES="%s"' % ":".join([
    "/usr/lib/gcc/x86_64-linux-gnu/13/include", "/usr/local/include", "/usr/include/x86_64-linux-gnu", "/usr/include"]),
    "-DBACKTRACE_SUPPORT"]
GEN_LIBS = ["-L/usr/lib/llvm-14/lib", "-lctemplate", "-lboost_filesystem", "-lboost_system", "-lclang-cpp", "-lLLVM",
            "-lpthread", "-lunwind", "-ldw", "-lelf"]
FW = REPO + "/src/easyMockFramework"
GEN = REPO + "/src/easyMockGenerate"
GSAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function", "-fno-omit-frame-pointer"]


def _tree_hash(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for root in paths:
        fs = sorted(glob.glob(root + "/**/*", recursive=True))
        for f in fs:
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def _cache(key):
    # Only a convenience while developing; keyed by the content of every source, so it can never be stale.
    if os.environ.get("VERIF_NOCACHE"):
        return None
    d = os.path.join(VERIF, ".cache")
    if not os.path.isdir(d):
        return None
    return os.path.join(d, key)


def _compile(cmd):
    r = run(cmd, timeout=600)
    if r.rc != 0:
        raise HarnessError("the repository does not build: %s\n%s" % (" ".join(cmd[-3:]), r.err[:3000]))


def generator(chk, san=False):
    """returns the path of an EasyMockGenerate built from /repo's tree."""
    flags = ["-std=gnu++17", "-w", "-fPIC"] + GEN_DEFS + ["-I/usr/lib/llvm-14/include", "-I" + GEN + "/include", "-I" + FW + "/include"]
    if san:
        flags += ["-O1", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS"] + SAN
    else:
        flags += ["-O0"]
    srcs = sorted(glob.glob(GEN + "/src/**/*.cpp", recursive=True))
    if not srcs:
        raise HarnessError("no generator sources")
    # biggest first
    srcs.sort(key=lambda s: -os.path.getsize(s))
    key = "gen-%s-%s" % ("san" if san else "plain", _tree_hash([GEN, FW + "/include"], flags))
    c = _cache(key)
    if c and os.path.exists(c):
        return c
    d = chk.dir("build-gen-san" if san else "build-gen")
    # file-level include directories, as CMake gives them
    incs = sorted({"-I" + os.path.dirname(s) for s in srcs})
    objs = [os.path.join(d, "%d.o" % i) for i in range(len(srcs))]
    pmap(lambda so: _compile(["clang++"] + flags + incs + ["-c", so[0], "-o", so[1]]), list(zip(srcs, objs)))
    exe = os.path.join(d, "EasyMockGenerate")
    _compile(["clang++"] + (SAN if san else []) + objs + ["-o", exe] + GEN_LIBS)
    for o in objs:
        os.unlink(o)
    if c:
        shutil.copy2(exe, c + ".tmp%d" % os.getpid())
        os.rename(c + ".tmp%d" % os.getpid(), c)
    return exe


def framework(chk, san=True, cc="clang", extra=(), tag=""):
    """returns the directory holding libEasyMockFramework.so built from /repo's tree."""
    flags = ["-w", "-fPIC", "-g"] + (["-gdwarf-aranges"] if cc == "clang" else []) + ["-DBACKTRACE_SUPPORT", "-I" + FW + "/include"] + list(extra)
    if san:
        flags += ["-O1"] + (SAN if cc == "clang" else GSAN)
    else:
        flags += ["-O1"]
    srcs = sorted(glob.glob(FW + "/src/**/*.c", recursive=True) + glob.glob(FW + "/src/**/*.cpp", recursive=True))
    if not srcs:
        raise HarnessError("no framework sources")
    d = chk.dir("build-fw-%s%s" % ("san" if san else "plain", tag))
    cxx = {"clang": "clang++", "gcc": "g++"}[cc]
    objs = [os.path.join(d, os.path.basename(s) + ".o") for s in srcs]

    def one(so):
        s, o = so
        if s.endswith(".c"):
            _compile([cc, "-std=gnu11"] + flags + ["-c", s, "-o", o])
        else:
            _compile([cxx, "-std=gnu++17"] + flags + ["-c", s, "-o", o])
    pmap(one, list(zip(srcs, objs)))
    so = os.path.join(d, "libEasyMockFramework.so")
    link = [cxx, "-shared"] + [f for f in flags if f.startswith("-fsan") or f.startswith("-fno-san")] + objs + ["-o", so, "-lunwind", "-ldw"]
    if san and cc == "clang":
        link.insert(1, "-shared-libsan") if False else None
    _compile(link)
    return d
