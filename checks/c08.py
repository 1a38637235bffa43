"""cstring behaves as a growing string whatever its length, and leaks nothing."""
from common import *


def check(chk):
    d = chk.dir("c")
    chk.rule = "random sequences of append, new, free, compare and copy on six strings, lengths around the in-place size; in-place sizes 256, 8, 1; distinct by (compiler, size, seed)"
    chk.assumptions = ["the appended text is not the string itself"]
    jobs = []
    variants = [("clang", 256), ("gcc", 256), ("clang", 8), ("clang", 1), ("gcc", 33)]
    if chk.thorough:
        variants += [("clang", k) for k in (2, 3, 16, 64, 255, 257, 1024)]

    def build1(v):
        cc, size = v
        extra = [] if size == 256 else ["-DCSTRING_MAX_STACK_SIZE=%d" % size]
        fw = build.framework(chk, cc=cc, extra=extra, tag="%s%d" % v)
        exe = os.path.join(d, "c_%s%d" % v)
        r = run2([cc, "-std=gnu11", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + extra + ["-I" + FW + "/include", os.path.join(core.VERIF, "harness/cstr.c"),
                  "-o", exe, "-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw])
        if r.rc:
            chk.violation("unusable:" + cc, "cstring.h cannot be used\n" + r.err[-3000:])
            return None
        return exe, v
    exes = [x for x in pmap(build1, variants, 4) if x]

    def one(j):
        (exe, v), k = j
        seed = rng_of(chk, v, k).getrandbits(40)
        n = 60000 if chk.thorough else 12000
        res = run2([exe, str(seed), str(n)], env=SAN_ENV, timeout=200)
        m = re.search(r"N (\d+) BAD (\d+)", res.out)
        if not m or res.rc or m.group(2) != "0":
            chk.violation("cstring:%s" % ("died" if not m else "wrong" if m.group(2) != "0" else "leak"), "in-place size %d, %s, seed %d, exit %s\n%s\n%s" % (
                v[1], v[0], seed, res.rc, res.out[-1500:], res.err[-3000:]))
            return
        chk.saw((v, seed), int(m.group(1)))
    pmap(one, [(e, k) for e in exes for k in range(40 if chk.thorough else 6)])
    chk.sample({"variants": variants})
