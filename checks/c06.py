"""Capacity: every expectation up to the limit counts, one more never passes silently, and functions do not share the limit."""
from common import *


def overflow(chk, group, cap, k, tag):
    metas = group[1]
    nf = len(metas)
    s = history.Script(rng_of(chk, tag, cap, k), metas)
    s.limit = cap
    r = s.r
    s.init()
    s.set_order(r.randrange(2))
    g = k % nf
    # other functions, already full, half full, or used up
    others = [x for x in r.sample(range(nf), min(nf, 3)) if x != g]
    for rnd in range(r.randrange(3)):
        for x in [g] + others:
            for _ in range(r.choice((cap, cap - 1, 1)) or 1):
                s.expect(x)
            for _ in range(r.choice((0, cap, 1))):
                s.call(x)
        s.check()
        s.init()
    plan = [g] * cap + [x for x in others for _ in range(r.choice((0, 1, cap)))]
    r.shuffle(plan)
    used = r.randrange(3)
    for x in plan:
        s.expect(x)
        if used and r.random() < 0.3 and s.n.get(x, 0) < len(s.q[x]):
            s.call(x)
    while used == 2 and s.n.get(g, 0) < cap:
        s.call(g)     # consumed expectations do not make room: the limit is per test case
    ok = len(s.text)
    s.limit = cap + 1
    s.expect(g)
    exe, _, files, d = group
    p = os.path.join(d, "%s-%d-%d.txt" % (tag, cap, k))
    open(p, "w").write(s.body())
    res = run2([exe, p], timeout=60, env=dict(SAN_ENV, ASAN_OPTIONS=SAN_ENV["ASAN_OPTIONS"].replace("handle_abort=1", "handle_abort=0")))
    what = None
    recs, ended = history.parse(res.out)
    if core.SAN_RE.search(res.err):
        what = "sanitizer report instead of an orderly end"
    elif res.timeout:
        what = "hang"
    elif ended or len(recs) > ok:
        what = "the expectation beyond the limit of %d was accepted silently" % cap
    elif res.rc == 0 or res.rc in (-11, -4, -7, -8):
        what = "the process ended with status %s" % res.rc
    elif not res.err.strip():
        what = "the process ended without a message"
    elif len(recs) < ok:
        what = "the process ended at operation %d (%s), the limit is exceeded only at operation %d" % (len(recs), s.text[len(recs)][:60], ok)
    chk.saw(("overflow", cap, k % nf, used))
    chk.count("overflows")
    os.unlink(p)
    if what:
        chk.violation("overflow:%d" % cap, what + "\n" + res.err[-2000:], files=dict(files, **{"history.txt": s.body(), "output.txt": res.out[-4000:]}))


def full(cap):
    def style(s, nf):
        """exactly up to the limit, in one function or several, several times over"""
        r = s.r
        s.limit = cap
        for _ in range(r.randint(1, 4)):
            s.init()
            s.set_order(r.randrange(2))
            fs = r.sample(range(nf), min(nf, r.randint(1, 3)))
            plan = [g for g in fs for _ in range(r.choice((cap, cap, cap - 1, cap // 2)))]
            if r.random() < 0.4:
                r.shuffle(plan)
            calls = list(plan)
            for g in plan:
                s.expect(g)
            for _ in range(r.randrange(3)):
                calls.append(fs[0])
            for g in calls:
                s.call(g, diff=0.05)
            s.check()
            s.geterr()
    style.__name__ = "full%d" % cap
    return style


CPP = r"""
#include <cstdio>
#include "easyMock_cap.h"
#include <easyMock.h>
int main() {
  for (int round = 0; round < 3; round++) {
    easyMock_init();
    unsigned n = 300 + 900 * round;
    for (unsigned i = 0; i < n; i++) EasyMock::cap::ExpectAndReturn((int)i, (long)i * 7, EasyMock::cmp<int>);
    for (unsigned i = 0; i < n; i++) { long r = cap((int)i); if (r != (long)i * 7) { std::printf("FAIL value %u of %u: %ld\n", i, n, r); return 0; } }
    if (easyMock_check() != 1) { std::printf("FAIL check after %u: %s\n", n, easyMock_getErrorStr()); return 0; }
    easyMock_setPrintCallStack(0);
    cap(1);
    if (easyMock_check() != 0) { std::printf("FAIL call %u accepted\n", n + 1); return 0; }
    std::printf("round %u\n", n);
  }
  easyMock_init();
  std::printf("END\n");
}
"""


def cpp(chk, gen, fw):
    """C++ mocks take any number of expectations"""
    d = chk.dir("cpp")
    r = mocks.gen_mock(gen, None, d, ["--mock-cpp"], text="long cap(int a);\n", name="cap")
    files = {"cap.h": "long cap(int a);\n"}
    try:
        if r.rc:
            raise mocks.GenFail("generate", mocks.explain("generate", r), files)
        open(os.path.join(d, "main.cpp"), "w").write(CPP)
        fl = ["-std=gnu++17", "-w", "-g", "-O1"] + mocks.CSAN + ["-I" + d, "-I" + FW + "/include"]
        exe = os.path.join(d, "cap")
        mocks.cc(fl + [os.path.join(d, "main.cpp"), os.path.join(d, "easyMock_cap.cpp" if os.path.exists(os.path.join(d, "easyMock_cap.cpp")) else "easyMock_cap.cc"),
                       "-o", exe, "-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw], "cpp", files, compiler="clang++")
    except mocks.GenFail as ex:
        report_genfail(chk, ex)
        return
    res = run2([exe], timeout=120, env=SAN_ENV)
    chk.saw("cpp", 3)
    if "END" not in res.out or res.rc:
        chk.violation("cpp-capacity", "C++ mock with 300, 1200 and 2100 expectations: exit %s\n%s\n%s" % (res.rc, res.out[-500:], res.err[-2500:]), files={"main.cpp": CPP})


def check(chk):
    gen = build.generator(chk)
    caps = [256, 3, 1] if not chk.thorough else [256, 1, 2, 3, 17, 255, 1000]
    chk.rule = "for every driven function: histories exactly at the limit, and one expectation beyond it; limits as compiled in; distinct by (limit, function, how many were used up)"
    chk.assumptions = ["the limit is EASYMOCK_MAX_MOCKED_CALL (256 by default) for C mocks"]

    def one(cap):
        extra = ["-DEASYMOCK_MAX_MOCKED_CALL=%d" % cap] if cap != 256 else []
        fw = build.framework(chk, extra=extra, tag="cap%d" % cap)
        gs = build_groups(chk, gen, fw, 2 if chk.thorough else 1, nheaders=2, nfuncs=5, tag="c%d_" % cap, cflags=extra)
        per = 20 if chk.thorough else 8
        drive(chk, gs, [full(cap)], per, tag="f%d" % cap)
        nf = len(gs[0][1]) if gs else 0
        pmap(lambda j: overflow(chk, j[0], cap, j[1], "o"), [(g, k) for g in gs for k in range(nf * (4 if chk.thorough else 2))])
        drop(gs)
    pmap(one, caps, 2)
    cpp(chk, gen, build.framework(chk, tag="cpp"))
