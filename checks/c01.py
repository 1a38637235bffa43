"""Calls consume expectations: reference-model monitoring of histories on mocks of random headers."""
from common import *


def check(chk):
    gen, fw = tools(chk)
    n = 60 if chk.thorough else 10
    per = 30 if chk.thorough else 8
    chk.rule = "random histories (styles polite, clean, hostile) on mocks of random headers; a case is distinct by (function, parameter, matcher kind, outcome)"
    chk.assumptions = ["one thread drives the mocks", "headers stay in the supported subset of DESIGN.md"]
    for b in range(0, n, 6):
        gs = build_groups(chk, gen, fw, min(6, n - b), tag="g%d_" % b)
        drive(chk, gs, ["polite", "clean", "hostile", "nested"], per, tag="s%d" % b)
        for g in gs:
            import shutil
            shutil.rmtree(g[3], ignore_errors=True)
    large(chk, gen, fw, 4)
