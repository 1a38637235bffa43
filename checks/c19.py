"""C++ mocks: histories on mocks of functions, functions in namespaces, methods, with references and instances."""
import shutil
from common import *
from vlib import adaptcpp


class CppScript(history.Script):
    """methods are recorded for any instance or for one, and called on one"""

    def __init__(self, rng, metas):
        history.Script.__init__(self, rng, metas, cpp=True)

    def expect(self, gid, matchers=None, useout=None, inst=0):
        if self.metas[gid].get("cls"):
            inst = self.r.choice([0, 0, 1, 2, 3])
        return history.Script.expect(self, gid, matchers, useout, inst)

    def call(self, gid, diff=0.25, inst=0, **k):
        q, n = self.q.get(gid, []), self.n.get(gid, 0)
        e = q[n] if n < len(q) else None
        if self.metas[gid].get("cls"):
            inst = self.r.randrange(3)
            if e and e["inst"] and (diff == 0 or self.r.random() > 0.15):
                inst = e["inst"] - 1
        res = history.Script.call(self, gid, diff, inst, **k)
        self.ops[-1]["inst"] = inst
        if e and e["inst"] and e["inst"] - 1 != inst:
            self.errs += 1
        return res


def check(chk):
    gen, fw = tools(chk)
    chk.rule = "random histories on C++ mocks of random headers (functions, namespaces, methods of classes, references, instances); distinct by (function, parameter, matcher kind, outcome)"
    chk.assumptions = ["one thread drives the mocks", "headers stay in the C++ subset of DESIGN.md"]
    fws = {"clang++": fw, "g++": build.framework(chk, cc="gcc", tag="g")}
    n = 40 if chk.thorough else 4
    for b in range(0, n, 4):
        def one(k):
            r = rng_of(chk, "g", k)
            hs = [adaptcpp.CppGen(r, "x%d_%d" % (k, i), nfuncs=9, ext=r.choice(["h", "h", "hpp", "hh"])).go() for i in range(5)]
            d = chk.dir("g%d" % k)
            try:
                cxx, std = ("g++" if k % 4 == 3 else "clang++"), r.choice(["-std=c++17", "-std=c++17", "-std=gnu++20"])
                exe, metas, files = adaptcpp.build_cpp_exe(chk, gen, fws[cxx], hs, d, cxx=cxx, std=std, jobs=4,
                                                           san_=mocks.CSAN if cxx == "clang++" else build.GSAN)
            except mocks.GenFail as ex:
                report_genfail(chk, ex)
                return None
            return exe, metas, files, d
        gs = [g for g in pmap(one, range(b, b + 4), 4) if g]
        drive(chk, gs, ["polite", "clean", "hostile", "nested", "permuted", long_run, stacks], 12 if chk.thorough else 8, tag="s%d" % b, script=CppScript)
        drop(gs)
    other_programs(chk, gen, fws)


def other_programs(chk, gen, fws):
    """mocks of both languages in one program, and in shared objects which come and go"""
    n = 24 if chk.thorough else 4

    def one(k):
        r = rng_of(chk, "mix", k)
        cxx = "g++" if k % 4 == 3 else "clang++"
        dl = None if k % 2 == 0 else {0, 2}
        cs = [cgen.Gen(r, "y%d_%d" % (k, i), nfuncs=4).go() for i in range(r.randint(1, 3) if not dl else 1)]
        hs = [adaptcpp.CppGen(r, "z%d_%d" % (k, i), nfuncs=5).go() for i in range(3)]
        d = chk.dir("mix%d" % k)
        try:
            exe, metas, files = adaptcpp.build_cpp_exe(chk, gen, fws[cxx], hs, d, cxx=cxx, jobs=4, san_=mocks.CSAN if cxx == "clang++" else build.GSAN, chdrs=cs, dl=dl)
        except mocks.GenFail as ex:
            report_genfail(chk, ex)
            return None
        chk.count("programs_with_c_mocks_too" if not dl else "programs_of_shared_objects")
        return exe, metas, files, d, dl
    for b in range(0, n, 4):
        gs = [g for g in pmap(one, range(b, b + 4), 4) if g]
        drive(chk, [g[:4] for g in gs if not g[4]], ["polite", "clean", "hostile", "nested", "permuted", long_run, stacks], 10 if chk.thorough else 6, tag="mix%d" % b, script=CppScript)
        for i, g in enumerate(gs):
            if g[4]:
                drive(chk, [g[:4]], [comings([m["lib"] for m in g[1]])], 100 if chk.thorough else 50, tag="dl%d_%d" % (b, i), script=CppScript,
                      env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")})
        drop([g[:4] for g in gs])


def long_run(s, nf):
    """more expectations of one function than a C mock can hold"""
    history.burst(s, nf, limit=s.r.choice([300, 600, 1500]))


def stacks(s, nf):
    """messages with and without the call stack"""
    r = s.r
    for _ in range(2):
        s.init()
        s.set_order(r.randrange(2))
        for _ in range(25):
            x = r.random()
            g = r.randrange(nf)
            if x < 0.15:
                s.stack(r.randrange(2))
            elif x < 0.5:
                s.expect(g)
            else:
                s.call(g, diff=0.5)
        s.check()
