"""--ignore-field-generation-of T: the fields of T are left out of comparators and generated types, and nothing else is."""
import c11
import c12
from vlib.cmodel import *
from common import *


class IgnGen(c12.TypeGen):
    """records, and functions which use each of them by value and through pointers"""

    def func(self, k):
        self.h.funcs.append(None)

    union_fields = c11.CmpGen.union_fields
    go = c11.CmpGen.go


def inside(t, ign, seen=()):
    """does the type hold, by value, one of the ignored records"""
    r = t.res()
    while r.kind == "arr":
        r = r.el.res()
    return r.kind == "rec" and (r in ign or any(inside(f.ty, ign) for f in r.fields))


def stripped(d, name):
    """the two generated files"""
    return [open(os.path.join(d, "easyMock_%s%s" % (name, s))).read() for s in (".h", ".c")]


def check(chk):
    gen, fw = tools(chk)
    chk.fwg = build.framework(chk, cc="gcc", tag="g")
    chk.rule = "headers mocked with randomly chosen records ignored: pairs of records compared, verdict recomputed over the leaves outside ignored records; layouts of the other types; files with and without the option; distinct by leaf or layout fact"
    chk.assumptions = ["the ignored type is named by its tag, or by the only typedef of an untagged record"]
    n = 240 if chk.thorough else 60
    rounds = 40 if chk.thorough else 10

    def one(k):
        r = rng_of(chk, k)
        name = "c22x%d" % k
        g = IgnGen(r, name, nfuncs=0, ntypes=r.randint(4, 12), uniq=name, shared=True)
        h = g.go()
        tagged = [t for t in g.recs if t.tag]
        if not tagged:
            return
        r.shuffle(tagged)
        for a, b in zip(tagged[::2], tagged[1::2]):      # names which resemble each other
            x = r.random()
            if x < 0.3:
                b.tag = a.tag + r.choice(["_x", "0x", "T"])
            elif x < 0.4:
                b.tag = r.choice(["x_", "struct_", "T"]) + a.tag
            elif x < 0.5:
                b.tag = a.tag.swapcase()
        ign = r.sample(tagged, r.randint(1, min(3, len(tagged))))
        d = chk.dir(name)
        files = {name + ".h": h.text()}
        iopts = [x for t in ign for x in ("--ignore-field-generation-of", t.tag)]
        files["options.txt"] = " ".join(iopts)

        def bad(key, what):
            chk.violation(key, "%s\nignored: %s" % (what, [t.text() for t in ign]), files=files)

        # alone, the option changes nothing
        outs = []
        for tag, o in (("plain", []), ("ign", iopts)):
            p = os.path.join(d, tag)
            os.makedirs(p)
            res = mocks.gen_mock(gen, h, p, o)
            if res.rc or res.timeout:
                return bad("generate", mocks.explain("generate", res))
            outs.append([x.replace(p, "") for x in stripped(p, name)])
        chk.saw(None)
        if outs[0] != outs[1]:
            bad("plain-mock-changed", "without comparators or generated types the mock changes with --ignore-field-generation-of")

        # comparators, over the header's own types
        p = os.path.join(d, "cmp")
        os.makedirs(p)
        order = [iopts, ["--generate-comparator-of", "EasyMock_all_comparators"]]
        r.shuffle(order)
        res = mocks.gen_mock(gen, h, p, order[0] + order[1])
        if res.rc or res.timeout:
            return bad("generate-cmp", mocks.explain("generate", res))
        files["easyMock_%s.h" % name], files["easyMock_%s.c" % name] = stripped(p, name)
        decl = set(re.findall(r"\b(cmp_\w+)\s*\(", files["easyMock_%s.h" % name]))
        names = {id(t): [x for x in (t.tag, t.tdname) if x] + [q.name for q in g.tds if q.res() is t] for t in g.recs}
        comps = []
        for t in g.recs:
            cand = {"cmp_" + ("%s_%s" % (t.kwd, t.tag) if t.tag and x == t.tag else x) for x in names[id(t)]}
            f = sorted(cand & decl)
            if not f and c11.full_leaves(t, "x", []):
                return bad("missing", "no comparator %s of %s is declared; declared: %s" % (sorted(cand), t.text(), sorted(decl)))
            for x in f:
                y = "cmp_deref_ptr_" + x[4:]
                if y not in decl:
                    return bad("missing", "%s is declared, %s is not" % (x, y))
                comps.append((t, x, y))
        files["h.c"] = c11.harness(h, comps, True, set(ign))
        q = os.path.join(p, "h.c")
        open(q, "w").write(files["h.c"])
        comp = ["clang", "gcc"][k % 2]
        base = [comp, "-std=gnu11", "-w", "-g", "-O%d" % r.choice([0, 1, 2]), "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
                "-I" + p, "-I" + mocks.HX, "-I" + FW + "/include"]
        rr = run2(base + ["-c", os.path.join(p, "easyMock_%s.c" % name), "-o", os.path.join(p, "m.o")])
        if rr.rc:
            return bad("compile", mocks.explain("cc", rr))
        rr = run2(base + ["-c", q, "-o", os.path.join(p, "h.o")])
        if rr.rc:
            return bad("compile-user", "what uses the mock's header does not compile\n" + mocks.explain("cc", rr))
        fwd = fw if comp == "clang" else chk.fwg
        rr = run2(base + [os.path.join(p, "m.o"), os.path.join(p, "h.o"), "-o", os.path.join(p, "h"), "-L" + fwd, "-lEasyMockFramework", "-Wl,-rpath," + fwd])
        if rr.rc:
            return bad("link", mocks.explain("link", rr))
        res = run2([os.path.join(p, "h"), str(r.getrandbits(31)), str(rounds)], env=SAN_ENV, timeout=120)
        files["stderr.txt"], files["stdout.txt"] = res.err[-6000:], res.out[-6000:]
        for line in res.out.splitlines():
            if line.startswith("BAD "):
                f = line.split("\t")
                bad(f[1], "comparator of %s, leaf %s: %s" % (f[2], f[3], "\t".join(f[4:])))
            elif line.startswith("N "):
                f = line.split()
                chk.saw(None, int(f[1]))
                chk.count("equal_pairs", int(f[2]))
                chk.count("different_pairs", int(f[3]))
        if res.rc or "END" not in res.out:
            return bad("died", "exit %s\n%s" % (res.rc, res.err[-3000:]))
        chk.count("comparators", len(comps))
        chk.count("ignored_types", len(ign))
        chk.count("comparators_of_ignored_types", sum(t in ign for t, _, _ in comps))
        chk.count("comparators_of_types_holding_one", sum(t not in ign and inside(t, ign) for t, _, _ in comps))
        for t, _, _ in comps:
            for l in c11.full_leaves(t, "x", [], ign=ign):
                chk.distinct.add("%s/%s/%s" % (l.kind, l.ty.text(), len(l.path)))

        # generated types
        p = os.path.join(d, "types")
        os.makedirs(p)
        order = [iopts, ["--generate-types"], ["--generate-comparator-of", "EasyMock_all_comparators"] if r.random() < 0.5 else []]
        r.shuffle(order)
        res = mocks.gen_mock(gen, h, p, sum(order, []))
        if res.rc or res.timeout:
            return bad("generate-types", mocks.explain("generate", res))
        files["easyMock_%s.h" % name], files["easyMock_%s.c" % name] = stripped(p, name)
        os.makedirs(os.path.join(p, "alone"))
        for s in (".c", ".h"):
            os.link(os.path.join(p, "easyMock_%s%s" % (name, s)), os.path.join(p, "alone", "easyMock_%s%s" % (name, s)))
        rr = run2([comp, "-std=gnu11", "-w", "-c", "easyMock_%s.c" % name, "-o", "m.o", "-I" + FW + "/include"], cwd=os.path.join(p, "alone"))
        if rr.rc:
            return bad("compile-types", mocks.explain("cc", rr))
        types, enums = c12.used(h, ign)
        types = [t for t in types if c11.full_leaves(t, "x", []) and not inside(t, ign)]
        c12.layouts(chk, p, name, comp, types, enums, files, bad)
        chk.count("types_compared", len(types))
        # the ignored types are there, without fields
        q = os.path.join(p, "sz.c")
        open(q, "w").write('#include "easyMock_%s.h"\n' % name + "\n".join("typedef char z%d[sizeof(%s) == 0 ? 1 : -1];" % (i, t.text()) for i, t in enumerate(ign)) + "\n")
        rr = run2([comp, "-std=gnu11", "-w", "-c", q, "-o", q[:-1] + "o", "-I" + p, "-I" + FW + "/include"])
        if rr.rc:
            bad("fields-generated", "the ignored types are not declared without fields\n" + mocks.explain("cc", rr))
        if k < 2:
            chk.sample({"ignored": [t.define()[:300] for t in ign], "comparators": [c for _, c, _ in comps][:6]})
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))

