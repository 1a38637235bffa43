"""Shared by the checks that drive generated mocks with histories."""
import os, random, re
from vlib import core, build, cgen, mocks, history
from vlib.core import HarnessError, pmap, run, run2, SAN_ENV

FW = build.FW


def rng_of(chk, *parts):
    return random.Random("%s/%d/%s" % (chk.pid, chk.seed, "/".join(map(str, parts))))


def tools(chk, san_gen=False):
    """the generator and the framework, built side by side"""
    r = pmap(lambda k: build.generator(chk, san=san_gen) if k == "g" else build.framework(chk), ["g", "f"], 2)
    return r[0], r[1]


def report_genfail(chk, ex, key="unusable-mock"):
    errs = "\n".join(l for l in ex.what.splitlines() if "error" in l or "undefined" in l or "Assert" in l)[:1200]
    chk.violation("%s:%s" % (key, ex.stage), "a header of the supported subset could not be mocked, stage %s\n%s\n\n%s" % (
        ex.stage, errs, ex.what[:3000]), files=ex.files)


def build_groups(chk, gen, fw, ngroups, nheaders=6, nfuncs=8, mk=None, tag="g", **kw):
    """[(exe, metas, files, dir)] for random groups of headers; a header that cannot be mocked is a violation"""
    def one(k):
        r = rng_of(chk, tag, k)
        if mk:
            hs = mk(r, k)
        else:
            hs = [cgen.Gen(r, "%s%d_%d" % (tag, k, i), nfuncs=nfuncs).go() for i in range(nheaders)]
        d = chk.dir("%s%d" % (tag, k))
        try:
            exe, metas, files = mocks.build_history_exe(chk, gen, fw, hs, d, jobs=4, **kw)
            return exe, metas, files, d
        except mocks.GenFail as ex:
            report_genfail(chk, ex)
            return None
    return [x for x in pmap(one, range(ngroups), 3) if x]


def run_script(chk, group, script, name, prefix="", timeout=60, env=None, post=None, quiet=False):
    exe, metas, files, d = group
    p = os.path.join(d, name + ".txt")
    with open(p, "w") as f:
        f.write(script.body())
    res = run2([exe, p], timeout=timeout, env=dict(SAN_ENV, **(env or {})))
    bad = []
    j = history.Judge(metas, lambda k, t: bad.append((k, t)), chk.saw, chk.count)
    j.run(script, res)
    if post and not bad:
        post(j, res, lambda k, t: bad.append((k, t)))
    chk.count("histories")
    chk.count("operations", len(script.ops))
    for st in script.nstates:
        chk.distinct.add("state%r" % (st,))
    for k, t in bad:
        if k == "driver":
            raise HarnessError("history driver: " + t)
        chk.violation(prefix + k, t, files=dict(files, **{"history.txt": script.body(), "output.txt": res.out[-20000:], "stderr.txt": res.err[-8000:]}))
    if quiet and not bad:
        # the same history, the errors being read by check and at the explicit readings only
        mode = script.r.choice((1, 2))
        res2 = run2([exe, p], timeout=timeout, env=dict(SAN_ENV, HX_READ=str(mode), **(env or {})))
        why = history.same_read(res, res2, mode)
        chk.count("histories_read_seldom")
        if why:
            bad.append("read")
            chk.violation(prefix + "read-seldom", "errors read only now and then (%s): %s" % (("array", "string")[mode - 1], why), files=dict(files, **{"history.txt": script.body(), "output.txt": res.out[-20000:], "output2.txt": res2.out[-20000:], "stderr.txt": res2.err[-8000:]}))
    os.unlink(p)
    return not bad


def drive(chk, groups, styles, per, tag="s", script=history.Script, **kw):
    jobs = [(gi, st, k) for gi in range(len(groups)) for st in styles for k in range(per)]

    def one(j):
        gi, st, k = j
        g = groups[gi]
        s = script(rng_of(chk, tag, gi, st if isinstance(st, str) else st.__name__, k), g[1])
        (history.STYLES[st] if isinstance(st, str) else st)(s, len(g[1]))
        run_script(chk, g, s, "%s-%s-%d" % (tag, st if isinstance(st, str) else st.__name__, k), **kw)
        if k == 0 and gi == 0:
            chk.sample({"style": st if isinstance(st, str) else st.__name__, "history_head": s.body()[:300]})
    pmap(one, jobs)


def comings(libs):
    """mocks in shared objects which are loaded and unloaded between the operations"""
    def style(s, nf):
        r = s.r
        nl = max(libs) + 1
        s.lib = libs
        s.init()
        for l in r.sample(range(nl), r.randint(1, nl)):
            s.load(l)
        for _ in range(90):
            live = [g for g in range(nf) if libs[g] in s.loaded]
            x = r.random()
            if x < 0.10:
                cand = [l for l in range(nl) if l not in s.loaded]
                if cand:
                    s.load(r.choice(cand))
            elif x < 0.19:
                if s.loaded:
                    s.unload(r.choice(sorted(s.loaded)), libs)
            elif x < 0.27:
                s.check()
            elif x < 0.31:
                s.init()
            elif x < 0.34:
                if not s.lock_order:
                    s.set_order(r.randrange(2))
            elif x < 0.36:
                s.geterr()
            elif live:
                g = live[r.randrange(min(4, len(live)))] if r.random() < 0.6 else r.choice(live)
                if r.random() < 0.55:
                    s.expect(g)
                else:
                    s.call(g)
        s.check()
        if r.random() < 0.5:
            for l in sorted(s.loaded):
                s.unload(l, libs)
            s.check()
            s.init()
            s.check()
    style.__name__ = "comings"
    return style


def sweep(s, nf):
    """every function of a large project takes part"""
    r = s.r
    for _ in range(3):
        s.init()
        s.set_order(r.randrange(2))
        seq = list(range(nf)) * r.choice([1, 1, 2])
        r.shuffle(seq)
        for g in seq:
            s.expect(g)
        if r.random() < 0.3:
            s.check()
        k = r.randrange(4)
        calls = list(seq)
        if k == 1:
            del calls[r.randrange(1, len(calls)):]
        elif k == 2:
            for _ in range(r.randint(1, 6)):
                calls.insert(r.randrange(len(calls)), r.randrange(nf))
        elif k == 3:
            i, j = r.randrange(nf), r.randrange(nf)
            calls[i], calls[j] = calls[j], calls[i]
        for g in calls:
            s.call(g, 0.02)
        s.check()
        s.geterr()
        if r.random() < 0.5:
            g = r.randrange(nf)
            s.call(g)
            s.check()
    s.init()
    s.check()


def large(chk, gen, fw, per, **kw):
    """projects with hundreds of mocked functions and files"""
    def mk(r, k):
        hs = [cgen.Gen(r, "wide%d" % k, nfuncs=r.choice([257, 300, 520]), ntypes=2, maxp=2, rich=False).go()]
        return hs + [cgen.Gen(r, "many%d_%d" % (k, i), nfuncs=1, ntypes=1, maxp=1, rich=False).go() for i in range(r.choice([40, 70, 140]))]
    gs = build_groups(chk, gen, fw, 2 if chk.thorough else 1, mk=mk, tag="large")
    drive(chk, gs, [sweep], per, tag="large", **kw)
    chk.count("functions_of_large_projects", sum(len(g[1]) for g in gs))
    drop(gs)


def drop(groups):
    import shutil
    for g in groups:
        shutil.rmtree(g[3], ignore_errors=True)
