"""Call order: the kth accepted call is compared with the kth recorded expectation, and only deviations are reported."""
from common import *


def ring(s, nf):
    """few functions, long sequences, single deviations at a random place: insertions, deletions, swaps, rotations"""
    r = s.r
    for _ in range(5):
        s.init()
        if r.random() < 0.5:
            s.set_order(1)
        elif not s.order:
            s.set_order(r.randrange(2))
        fs = [r.randrange(nf) for _ in range(r.randint(2, 4))]
        seq = [fs[r.randrange(len(fs))] for _ in range(r.randint(5, 60))]
        quiet = lambda p: 0
        for g in seq:
            s.expect(g, matchers=quiet)
        p = list(seq)
        i = r.randrange(len(p))
        k = r.randrange(6)
        if k == 0:
            p[i:] = p[i + 1:] + p[i:i + 1]
        elif k == 1:
            del p[i]
        elif k == 2:
            p.insert(i, fs[r.randrange(len(fs))])
        elif k == 3:
            j = r.randrange(len(p))
            p[i], p[j] = p[j], p[i]
        elif k == 4:
            p.reverse()
        for n, g in enumerate(p):
            s.call(g, diff=0)
            if r.random() < 0.03:
                s.set_order(1 - int(s.order))
            if r.random() < 0.05:
                s.expect(fs[r.randrange(len(fs))], matchers=quiet)
        s.check()
        s.geterr()


def default_order(s, nf):
    """a fresh process checks the order without being told to"""
    r = s.r
    if r.random() < 0.5:
        s.init()
    a, b = r.sample(range(nf), 2)
    seq = [a, b] + [r.choice((a, b)) for _ in range(r.randrange(4))]
    for g in seq:
        s.expect(g, matchers=lambda p: 0)
    r.shuffle(seq)
    for g in seq:
        s.call(g, diff=0)
    s.check()


def headers(r, b, k):
    """short prototypes, prototypes beyond the 256 characters a cstring keeps in place, and names sharing hundreds of characters"""
    u = "o%d_%d_" % (b, k)
    return [cgen.Gen(r, u + "0", nfuncs=8).go(), cgen.Gen(r, u + "1", nfuncs=8).go(),
            cgen.Gen(r, u + "2", nfuncs=6, maxp=16, lam=0.09).go(),
            cgen.Gen(r, u + "3", nfuncs=4, namelen=r.choice((230, 240, 250, 260, 300, 520))).go()]


def check(chk):
    gen, fw = tools(chk)
    n = 30 if chk.thorough else 6
    per = 60 if chk.thorough else 24
    chk.rule = "recorded sequences replayed in permuted, shortened, lengthened and rotated orders; distinct by (calls, expectations, queue, order flag, order broken)"
    chk.assumptions = ["one thread drives the mocks"]
    for b in range(0, n, 3):
        # functions whose prototypes share prefixes and names, several headers in one program
        gs = build_groups(chk, gen, fw, min(3, n - b), tag="o%d_" % b, mk=lambda r, k: headers(r, b, k))
        drive(chk, gs, ["permuted", ring, default_order], per, tag="s%d" % b)
    large(chk, gen, fw, 4)
