"""init() starts from nothing: what happened before it has no influence and keeps no memory."""
import re
from common import *


def norm(out):
    return re.sub(r"0x[0-9a-f]+|\(nil\)", "PTR", out)


def mess(s, nf):
    """an abandoned test: expectations left over, unexpected calls, errors, order broken half-way"""
    r = s.r
    for _ in range(r.randint(1, 40)):
        x = r.random()
        g = r.randrange(nf)
        if x < 0.6:
            for _ in range(r.choice((1, 1, 1, 2, 5))):
                s.expect(g)
        elif x < 0.9:
            s.call(g)
        elif x < 0.95:
            s.check()
        else:
            s.geterr()
    if r.random() < 0.15:
        g = r.randrange(nf)
        while len(s.q.get(g, [])) < 256:
            s.expect(g)


def pair(chk, group, k, tag):
    """B after A and init answers exactly as B in a fresh process"""
    metas = group[1]
    nf = len(metas)
    order = rng_of(chk, tag, "o", k).randrange(2)

    def b(s):
        s.init()
        s.set_order(order)
        st = [x for x in ("hostile", "permuted", "polite", "clean")][k % 4]
        history.STYLES[st](s, nf) if st == "hostile" else history.STYLES[st](s, nf, 2)
    alone = history.Script(rng_of(chk, tag, "b", k), metas)
    b(alone)
    after = history.Script(rng_of(chk, tag, "a", k), metas)
    for _ in range(after.r.randint(1, 4)):
        mess(after, nf)
        if after.r.random() < 0.5:
            after.init()
    cut = len(after.text)
    after.r = rng_of(chk, tag, "b", k)
    b(after)
    if after.text[cut:] != alone.text:
        raise HarnessError("the two scripts differ")
    outs = {}

    def keep(name):
        def post(j, res, bad):
            outs[name] = res.out
        return post
    ok = run_script(chk, group, alone, "%s-b%d" % (tag, k), post=keep("alone"))
    ok = run_script(chk, group, after, "%s-a%d" % (tag, k), post=keep("after")) and ok
    if not ok:
        return
    # A's share of the output: cut+1 records (the teardown's END is common)
    la, lb = outs["after"].splitlines(), outs["alone"].splitlines()
    tail = la[len(la) - len(lb):]
    chk.count("pairs_compared")
    if norm("\n".join(tail)) != norm("\n".join(lb)):
        d = [(x, y) for x, y in zip(map(norm, lb), map(norm, tail)) if x != y][:3]
        chk.violation("history-shows-through", "the same operations after init answer differently when another history came before: (alone, after) %r" % d,
                      files=dict(group[2], **{"alone.txt": alone.body(), "after.txt": after.body(), "alone.out": outs["alone"], "after.out": outs["after"]}))


def growth(chk, group, k, tag):
    metas = group[1]
    nf = len(metas)
    reps = 60
    s = history.Script(rng_of(chk, tag, "g", k), metas)
    s.init()
    fs = [s.r.randrange(nf) for _ in range(6)]
    for _ in range(4):
        mess(s, nf)
        s.init()
    for i in range(reps):
        for g in fs:
            for _ in range(3):
                s.expect(g)
        for g in fs[:3] + [s.r.randrange(nf)]:
            s.call(g)
        s.check()
        s.geterr()
        s.mem()

    def post(j, res, bad):
        if len(j.mem) != reps:
            return
        late = j.mem[reps // 2:]
        up = sum(1 for x, y in zip(late, late[1:]) if y > x)
        chk.count("memory_series")
        # every round abandons at least 14 expectations: what is not given back adds up in every round
        if up > len(late) * 3 // 4:
            bad("memory-grows", "more bytes are held after every round of record/call/check/init: %r" % j.mem)
    run_script(chk, group, s, "%s-g%d" % (tag, k), post=post)


def check(chk):
    gen, fw = tools(chk)
    n = 24 if chk.thorough else 7
    per = 40 if chk.thorough else 16
    chk.rule = "B run after an arbitrary A and init, against B in a fresh process; bytes held after init over 60 rounds; distinct by (function, parameter, matcher, outcome)"
    chk.assumptions = ["addresses in messages are not compared", "one thread drives the mocks"]
    for b in range(0, n, 4):
        gs = build_groups(chk, gen, fw, min(4, n - b), tag="i%d_" % b)
        pmap(lambda j: pair(chk, j[0], j[1], "p%d" % b), [(g, k) for g in gs for k in range(per)])
        pmap(lambda j: growth(chk, j[0], j[1], "m%d" % b), [(g, k) for g in gs for k in range(max(2, per // 8))])
        drop(gs)
    large(chk, gen, fw, 3)
