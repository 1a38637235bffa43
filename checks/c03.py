"""Error reporting: check(), getErrorArr() and getErrorStr() tell the same, complete and stable story."""
from common import *


def storm(s, nf):
    """very many errors, read back at every stage"""
    r = s.r
    s.init()
    s.geterr()
    s.set_order(r.randrange(2))
    few = [r.randrange(nf) for _ in range(3)]
    for _ in range(r.choice((3, 40, 400))):
        x = r.random()
        g = few[r.randrange(3)]
        if x < 0.3 and len(s.q.get(g, [])) < 250:
            s.expect(g)
        else:
            s.call(g, diff=0.7)
        if x > 0.97:
            s.check()
        elif x > 0.9:
            s.geterr()
    s.check()
    s.geterr()
    s.check()
    s.init()
    s.geterr()
    s.check()


def counts(s, nf):
    """only call counts differ: too few, too many, none, in several functions"""
    r = s.r
    for _ in range(6):
        s.init()
        s.set_order(0)
        for g in r.sample(range(nf), min(nf, r.randint(1, 6))):
            e, c = r.choice(((0, 1), (1, 0), (2, 1), (1, 2), (3, 3), (0, 4), (5, 0), (1, 1)))
            for _ in range(e):
                s.expect(g, matchers=lambda p: 0)
            for _ in range(c):
                s.call(g, diff=0)
        s.check()
        s.geterr()
        if r.random() < 0.5:
            s.check()
            s.geterr()


def stacks(s, nf):
    """the call stack can be switched on and off at any time and only adds to the messages"""
    r = s.r
    s.init()
    s.set_order(r.randrange(2))
    few = [r.randrange(nf) for _ in range(3)]
    for _ in range(r.randint(6, 14)):
        x = r.random()
        if x < 0.3:
            s.stack(r.randrange(2))
        g = few[r.randrange(3)]
        if r.random() < 0.5:
            s.expect(g)
        s.call(g, diff=0.8)
        if x > 0.8:
            s.geterr()
    s.stack(0)
    s.check()
    s.geterr()


def check(chk):
    gen, fw = tools(chk)
    n = 24 if chk.thorough else 7
    per = 40 if chk.thorough else 10
    chk.rule = "histories rich in errors, read through both interfaces after every step; distinct by (function, parameter, matcher, outcome) and by check result"
    chk.assumptions = ["one thread drives the mocks"]
    for b in range(0, n, 4):
        gs = build_groups(chk, gen, fw, min(4, n - b), nheaders=5, nfuncs=6, tag="e%d_" % b)
        drive(chk, gs, ["hostile", storm, counts], per, tag="s%d" % b, quiet=True)
        drive(chk, gs, [stacks], max(2, per // 5), tag="k%d" % b, quiet=True)
    large(chk, gen, fw, 3, quiet=True)
