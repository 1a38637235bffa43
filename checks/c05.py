"""A mock takes part in init() and check() exactly while its object is loaded."""
from common import *


def check(chk):
    gen, fw = tools(chk)
    n = 20 if chk.thorough else 6
    per = 200 if chk.thorough else 120
    chk.rule = "mocks in shared objects loaded and unloaded between operations, two objects twice; distinct by (function, parameter, matcher, outcome) and check result"
    chk.assumptions = ["what the recorded call order means for a mock already unloaded is not specified", "memory of expectations pending at unload is not judged"]
    for b in range(0, n, 3):
        gs = build_groups(chk, gen, fw, min(3, n - b), nheaders=5, nfuncs=4, tag="d%d_" % b, dl={0, 3})
        for gi, g in enumerate(gs):
            drive(chk, [g], [comings([m["lib"] for m in g[1]])], per, tag="s%d_%d" % (b, gi), env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")})
        drop(gs)
    # a project of many mocks
    gs = build_groups(chk, gen, fw, 1, nheaders=45, nfuncs=1, tag="large", dl={0, 3})
    for g in gs:
        drive(chk, [g], [comings([m["lib"] for m in g[1]])], per // 2, tag="large", env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")})
    drop(gs)
