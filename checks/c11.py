"""Generated comparators: equal iff every field is equal, whatever the padding; a mismatch names the field and gives both values."""
from vlib import adapt
from vlib.cmodel import *
from common import *

FMT = {"short": "%hd", "unsigned short": "%hu", "int": "%d", "unsigned int": "%u", "long": "%ld", "unsigned long": "%lu", "long long": "%lld", "unsigned long long": "%llu"}


class CmpGen(cgen.Gen):
    """records with mixed unions, arrays of everything, and functions which make every comparator exist"""

    def union_fields(self, suf=""):
        c = [CHAR, UCHAR, SHORT, INT, UINT, LONG, ULLONG, FLOAT, DOUBLE, Ptr(VOID), Ptr(CHAR, True), self.fnptr(), Arr(UCHAR, 4), Arr(INT, 2), Arr(Ptr(INT), 2)]
        c += [e for e in self.enums] + [t for t in self.recs if len(full_leaves(t, "x", [])) <= 8 and not any(l.kind in ("bool",) or l.ty.res() is LDOUBLE for l in full_leaves(t, "x", []))][:2]
        return [Field("u%d%s" % (i, suf), t) for i, t in enumerate(self.r.sample(c, self.r.randint(1, 4)))]

    def field_ty(self, depth=0):
        x = self.r.random()
        if x < 0.12:
            el = self.pick([BOOL, FLOAT, DOUBLE, LDOUBLE, LONG, UCHAR, CHAR, Ptr(CHAR), Ptr(Ptr(VOID))] + self.enums + [t for t in self.tds if t.res().kind != "rec"])
            return Arr(el, self.r.randint(1, 5))
        return cgen.Gen.field_ty(self, depth)

    def func(self, k):
        self.h.funcs.append(None)

    def go(self):
        cgen.Gen.go(self)
        self.h.funcs = []
        for k, t in enumerate(self.recs):
            f = Func("use%d_%s" % (k, self.u), VOID, [("a", t), ("b", Ptr(t)), ("c", Ptr(t, True))] if self.r.random() < 0.7 else [("b", Ptr(t))])
            self.h.funcs.append(f)
        for k, t in enumerate(x for x in self.tds if spelled(x)):
            if self.r.random() < 0.6:
                self.h.funcs.append(Func("use_td%d_%s" % (k, self.u), VOID, [("b", t if t.res().kind == "ptr" or self.r.random() < 0.4 else Ptr(t))]))
        self.r.shuffle(self.h.funcs)
        self.h.items += self.h.funcs
        return self.h


def spelled(t):
    """(name of the comparator of the record as it is spelled, record), or None"""
    if t.kind == "rec":
        return ("%s_%s" % (t.kwd, t.tag) if t.tag else t.tdname), t
    if t.kind == "ptr":
        return spelled(t.to)
    if t.kind == "typedef":
        u = t
        while u.kind == "typedef":
            u = u.target
        return (t.name, u) if u.kind == "rec" else spelled(u)


class FL:
    def __init__(self, expr, ty, kind, bits, bf, path):
        self.expr, self.ty, self.kind, self.bits, self.bf, self.path = expr, ty, kind, bits, bf, path


def full_leaves(t, expr, out, bf=None, path=(), idx=None, ign=()):
    """every scalar, of every member of every union, outside the ignored records"""
    r = t.res()
    if r in ign:
        return out
    if r.kind == "scalar":
        out.append(FL(expr, t, r.leaf, r.bits, bf, path + (idx,)))
    elif r.kind in ("enum", "ptr", "fnptr"):
        out.append(FL(expr, t, {"enum": "enum", "ptr": "ptr", "fnptr": "fptr"}[r.kind], 64, bf, path + (idx,)))
    elif r.kind == "arr":
        for i in range(r.n):
            full_leaves(r.el, "%s[%d]" % (expr, i), out, None, path, i, ign)
    else:
        for f in r.fields:
            if f.bits is not None and not f.name:
                continue
            full_leaves(f.ty, "%s.%s" % (expr, f.name) if f.name else expr, out, f if f.bits is not None else None, path + ((f.name,) if f.name else ()), None, ign)
    return out


def harness(h, comps, skip128, ign=()):
    """C program: exercises the comparators of the records of one header"""
    o = ['#include "easyMock_%s.h"' % h.name, '#include "cmpgen.h"']
    tab = []
    for k, (t, cv, cd) in enumerate(comps):
        ls = full_leaves(t, "(*p)", [], ign=ign)
        T = t.text()
        o.append("static void mk%d(void *v, uint32_t s) { %s *p = v; (void)s; (void)p;" % (k, T))
        plain = leaves(t, "(*p)", [])
        inu = {l.expr for l in ls} - {l.expr for l in plain_leaves(t, "(*p)", [])}
        for i, l in enumerate(plain):
            if l.expr not in inu and (not ign or l.expr in {x.expr for x in ls}):
                o.append("  " + adapt.leaf_assign(l, i, len(plain)))
        o.append("}\nstatic void cp%d(void *v, const void *w) { %s *p = v; const %s *q = w; (void)p; (void)q;" % (k, T, T))
        for l in ls:
            o.append("  %s = %s;" % (l.expr, l.expr.replace("(*p)", "(*q)")))
        o.append("}\nstatic int df%d(const void *v, const void *w, int leaf) { const %s *p = v; const %s *q = w; (void)p; (void)q; switch(leaf) {" % (k, T, T))
        for i, l in enumerate(ls):
            o.append("  case %d: return !(%s == %s);" % (i, l.expr, l.expr.replace("(*p)", "(*q)")))
        o.append("} return 0; }\nstatic void fl%d(void *v, int leaf, uint64_t r) { %s *p = v; (void)p; switch(leaf) {" % (k, T))
        for i, l in enumerate(ls):
            e, c = l.expr, l.ty.text()
            if l.kind in ("int", "i128", "enum"):
                b = l.bf.bits if l.bf else 32 if l.kind == "enum" else l.bits
                ut = "unsigned __int128" if l.kind == "i128" else "uint64_t"
                x = "%s = (%s)(%s ^ ((%s)1 << (r %% %d)));" % (e, c, e, ut, b)
            elif l.kind == "bool":
                x = "%s = !%s;" % (e, e)
            elif l.kind == "float":
                x = "switch(r %% 5) { case 0: %s += 1; break; case 1: %s = -%s; break; case 2: %s = (%s)__builtin_nan(\"\"); break; case 3: %s = %s * (1 + (%s)1 / 4194304); break; default: %s = %s == 0 ? 1 : 0; }" % (e, e, e, e, c, e, e, c, e, e)
            elif l.kind == "ptr":
                x = "%s = (%s)((uintptr_t)%s ^ ((uint64_t)1 << (r %% 64)));" % (e, Ptr(l.ty.res().to, l.ty.res().const).text(), e)
            else:
                x = "%s = (void *)((uintptr_t)%s ^ ((uint64_t)1 << (r %% 64)));" % (e, e)
            o.append("  case %d: %s break;" % (i, x))
        o.append("} }\nstatic void tx%d(const void *v, int leaf, char *b) { const %s *p = v; (void)p; *b = 0; switch(leaf) {" % (k, T))
        for i, l in enumerate(ls):
            f = None
            if l.kind == "int":
                f = FMT.get(l.ty.res().c)
            elif l.kind == "enum":
                f = "%d"
            elif l.kind == "bool":
                f = "%d"
            elif l.kind in ("ptr", "fptr"):
                f = "%p"
            elif l.kind == "i128":
                o.append('  case %d: { unsigned __int128 w = %s; sprintf(b, "w%%llx:%%llx", (unsigned long long)(w >> 64), (unsigned long long)w); break; }' % (i, l.expr))
            if f:
                o.append('  case %d: sprintf(b, "%s", %s); break;' % (i, f, "(void *)" + l.expr if f == "%p" else l.expr if not l.bf else "(%s)%s" % (l.ty.text(), l.expr)))
        o.append("} }")
        rows = []
        for l in ls:
            comp = [x for x in l.path if isinstance(x, str)]
            rows.append('{"%s", "%s", %d}' % (comp[-1], "/".join(comp[:-1]), -1 if l.path[-1] is None else l.path[-1]))
        o.append("static const struct leaf lf%d[] = {%s};" % (k, ", ".join(rows)))
        tab.append('{"%s", sizeof(%s), %d, lf%d, mk%d, cp%d, df%d, fl%d, tx%d, %s, %s}' % (T, T, len(ls), k, k, k, k, k, k, cv, cd))
    o.append("const struct rec recs[] = {%s};\nconst int nrecs = %d;" % (",\n".join(tab), len(tab)))
    o.append('#include "cmpgen_main.h"')
    return "\n".join(o)


def plain_leaves(t, expr, out):
    """the leaves outside any union"""
    r = t.res()
    if r.kind == "arr":
        for i in range(r.n):
            plain_leaves(r.el, "%s[%d]" % (expr, i), out)
    elif r.kind == "rec":
        if not r.union:
            for f in r.fields:
                if f.bits is not None and not f.name:
                    continue
                if f.bits is not None:
                    out.append(FL("%s.%s" % (expr, f.name), f.ty, "", 0, f, ()))
                else:
                    plain_leaves(f.ty, "%s.%s" % (expr, f.name) if f.name else expr, out)
    else:
        out.append(FL(expr, t, "", 0, None, ()))
    return out


CORPUS = {     # records whose layout hangs on attributes inside them: fields which must count, one by one
    "packed-record-inside": ("struct __attribute__((packed)) in { char a; int b; }; typedef struct { int x; struct { char c; struct in y; int z; } h; } t;", ["x", "h.c", "h.y.a", "h.y.b", "h.z"]),
    "pragma-pack-record-inside": ("#pragma pack(push, 2)\nstruct in { char a; int b; };\n#pragma pack(pop)\ntypedef struct { struct { struct { char c; struct in y[2]; int z; } s; } h; } t;", ["h.s.c", "h.s.y[0].a", "h.s.y[0].b", "h.s.y[1].a", "h.s.y[1].b", "h.s.z"]),
    "aligned-record-inside": ("struct in { char a; int b; } __attribute__((aligned(32))); typedef struct { int x; struct { char c; struct in y; int z; } h; } t;", ["x", "h.c", "h.y.a", "h.y.b", "h.z"]),
    "packed-named": ("typedef struct __attribute__((packed)) { char a; long b; } t;", ["a", "b"]),
    "aligned-field-named": ("typedef struct { char a; int b __attribute__((aligned(16))); char c; } t;", ["a", "b", "c"]),
    "packed-anonymous": ("typedef struct { int x; struct { char a; int b; char c; } __attribute__((packed)) h; } t;", ["x", "h.a", "h.b", "h.c"]),
    "aligned-field-anonymous": ("typedef struct { int x; struct { char a; int b __attribute__((aligned(16))); char c; } h; } t;", ["x", "h.a", "h.b", "h.c"]),
    "pragma-pack-anonymous": ("#pragma pack(push, 1)\ntypedef struct { char x; struct { char a; int b; char c; } h; } t;\n#pragma pack(pop)", ["x", "h.a", "h.b", "h.c"]),
}


def corpus(chk, gen, fw):
    def one(name):
        d = chk.dir("corpus-" + name)
        text, leaf = CORPUS[name]
        files = {"x.h": "#ifndef X_H\n#define X_H\n%s\nint f(t *p);\n#endif\n" % text}
        key = "corpus:" + name
        chk.saw(key)
        r = mocks.gen_mock(gen, None, d, ["--generate-comparator-of", "EasyMock_all_comparators"], text=files["x.h"], name="x")
        if r.rc or r.timeout:
            return chk.violation(key, "not mocked: %s\n%s" % (text, mocks.explain("generate", r)), files=files)
        o = ['#include "easyMock_x.h"', "#include <stdio.h>", "#include <string.h>",
             "int main(void) { static t x, y; char m[256]; unsigned k;",
             "for (k = 0; k < 256; k += 85) {",
             "memset(&x, 0, sizeof x); memset(&y, k, sizeof y); " + " ".join("x.%s = y.%s = %d;" % (l, l, i + 1) for i, l in enumerate(leaf)),
             'if (cmp_t(&x, &y, "p", m)) printf("BAD equal values are reported as different: %s\\n", m);']
        for l in leaf:
            o.append('x.%s ^= 64; if (!cmp_t(&x, &y, "p", m)) printf("BAD different values of %s are reported as equal\\n"); x.%s ^= 64;' % (l, l, l))
        o.append('} puts("END"); return 0; }')
        files["m.c"] = "\n".join(o) + "\n"
        open(os.path.join(d, "m.c"), "w").write(files["m.c"])
        r = run2(["clang", "-std=gnu11", "-w", "-g", "-fsanitize=address", "m.c", "easyMock_x.c", "-o", "m", "-I.", "-I" + FW + "/include", "-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw], cwd=d)
        if r.rc:
            return chk.violation(key, "the comparators of %s do not compile\n%s" % (text, mocks.explain("clang", r)), files=files)
        r = run2([os.path.join(d, "m")], env=SAN_ENV, timeout=60)
        if r.rc or "BAD" in r.out or "END" not in r.out:
            chk.violation(key, "comparator of %s\n%s" % (text, (r.out + r.err)[:1500]), files=files)
    pmap(one, sorted(CORPUS))


def check(chk):
    gen, fw = tools(chk)
    chk.rule = "pairs of records: same fields with other padding, one or two leaves changed, unrelated; the verdict is recomputed leaf by leaf; distinct by (record, leaf, verdict)"
    chk.assumptions = ["of floating point and char fields the values are not looked for in the message", "x86-64 layouts"]
    n = 400 if chk.thorough else 120
    rounds = 60 if chk.thorough else 12

    def one(k):
        r = rng_of(chk, k)
        name = "c%d" % k
        g = CmpGen(r, name, nfuncs=0, ntypes=r.randint(4, 12), uniq=name, shared=True)
        h = g.go()
        if not g.recs:
            return
        d = chk.dir(name)
        explicit = r.random() < 0.3
        files = {name + ".h": h.text()}
        names = {}
        for t in g.recs:
            names[id(t)] = [x for x in (t.tag, t.tdname) if x] + [q.name for q in g.tds if q.res() is t]
        opts = ["--generate-comparator-of", "EasyMock_all_comparators"]
        chosen = g.recs
        if explicit:
            once = [t for t in g.recs if not any(x in names[id(q)] for q in g.recs if q is not t for x in names[id(t)])]      # a name may be the one of two types
            chosen = [t for t in once if r.random() < 0.5]
            for t in chosen:
                chosen += [q for q in held(t) if q in g.recs and q not in chosen]      # those of the types it holds have to be asked for
            chosen = [t for t in chosen if t in once and all(q in once or q not in g.recs for q in held(t, True))]
            opts = [x for t in chosen for nm in names[id(t)] for x in ("--generate-comparator-of", nm)]
            opts += [x for t in chosen for q in held(t, True) if q.tag and q not in g.recs for x in ("--generate-comparator-of", q.tag)]
        res = mocks.gen_mock(gen, h, d, opts)

        def bad(key, what):
            chk.violation(key, what, files=files)
        if res.rc or res.timeout:
            return bad("generate", mocks.explain("generate", res))
        for s in (".c", ".h"):
            files["easyMock_%s%s" % (name, s)] = open(os.path.join(d, "easyMock_%s%s" % (name, s))).read()
        decl = set(re.findall(r"\b(cmp_\w+)\s*\(", files["easyMock_%s.h" % name]))
        comps, want = [], set()
        for t in chosen:
            c = {}
            for p in ("cmp_", "cmp_deref_ptr_"):
                cand = {p + x for x in [t.tdname] + [q.name for q in g.tds if q.res() is t] if x} | {p + "%s_%s" % (t.kwd, t.tag) for _ in [0] if t.tag}
                f = sorted(cand & decl)
                if not f:
                    if zero(t):
                        break
                    return bad("missing", "no comparator %s of %s is declared; declared: %s" % (sorted(cand), t.text(), sorted(decl)))
                c[p] = f
            else:
                for x in c["cmp_"]:      # a type with several names may have a comparator under each
                    y = "cmp_deref_ptr_" + x[4:]
                    if y not in c["cmp_deref_ptr_"]:
                        return bad("missing", "%s is declared, %s is not" % (x, y))
                    comps.append((t, x, y))
                    want |= {x, y}
        for f in h.funcs:
            for _, t in f.params:
                q = spelled(t)
                if q and q[1] in chosen and not zero(q[1]) and "cmp_" + q[0] not in decl:
                    return bad("missing-name", "no comparator cmp_%s is declared for %s; declared: %s" % (q[0], f.decl(), sorted(decl)))
        extra = decl - want
        extra = {x for x in extra if "anonymous_type_hash" not in x and not any(q.tag and q not in g.recs and x.endswith("_%s_%s" % (q.kwd, q.tag)) for t in chosen for q in held(t, True))}
        if explicit and extra:
            return bad("unasked", "comparators which were not asked for: %s (asked for %s)" % (sorted(extra), opts))
        files["h.c"] = harness(h, comps, True)
        if not comps:
            return
        p = os.path.join(d, "h.c")
        open(p, "w").write(files["h.c"])
        exe = os.path.join(d, "h")
        inc = ["-I" + d, "-I" + mocks.HX, "-I" + FW + "/include"]
        comp = ["clang", "gcc"][k % 2]
        base = [comp, "-std=gnu11", "-w", "-g", "-O%d" % r.choice([0, 1, 2])] + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + inc
        # clang's framework has its own runtime: compile its matchers in
        rr = run2(base + ["-c", os.path.join(d, "easyMock_%s.c" % name), "-o", os.path.join(d, "m.o")])
        if rr.rc:
            return bad("compile", mocks.explain("cc", rr))
        rr = run2(base + ["-c", p, "-o", os.path.join(d, "h.o")])
        if rr.rc:
            return bad("compile-user", "what uses the mock's header does not compile\n" + mocks.explain("cc", rr))
        fwd = fw if comp == "clang" else chk.fwg
        rr = run2(base + [os.path.join(d, "m.o"), os.path.join(d, "h.o"), "-o", exe, "-L" + fwd, "-lEasyMockFramework", "-Wl,-rpath," + fwd])
        if rr.rc:
            return bad("link", mocks.explain("link", rr))
        res = run2([exe, str(r.getrandbits(31)), str(rounds)], env=SAN_ENV, timeout=120)
        files["stderr.txt"] = res.err[-6000:]
        files["stdout.txt"] = res.out[-6000:]
        for line in res.out.splitlines():
            if line.startswith("BAD "):
                f = line.split("\t")
                bad("%s" % f[1], "comparator of %s, leaf %s: %s" % (f[2], f[3], "\t".join(f[4:])))
            elif line.startswith("N "):
                f = line.split()
                chk.saw(None, int(f[1]))
                chk.count("equal_pairs", int(f[2]))
                chk.count("different_pairs", int(f[3]))
                chk.count("messages_read", int(f[4]))
        if res.rc or "END" not in res.out:
            return bad("died", "exit %s\n%s" % (res.rc, res.err[-3000:]))
        for t, a, b in comps:
            for l in full_leaves(t, "x", []):
                chk.distinct.add("%s/%s/%s/%s" % (l.kind, l.ty.text(), l.bf and l.bf.bits, len(l.path)))
        chk.count("comparators", len(comps))
        if k < 2:
            chk.sample({"record": comps[0][0].define()[:500], "comparator": comps[0][1]})
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    chk.fwg = build.framework(chk, cc="gcc", tag="g")
    corpus(chk, gen, fw)
    pmap(one, range(n))


def held(t, deep=False):
    """the records inside a record"""
    res = []
    for f in t.fields:
        r = f.ty.res()
        while r.kind == "arr":
            r = r.el.res()
        if r.kind == "rec":
            res += [r] + (held(r, True) if deep or r.tag is None and not r.tdname else [])
    return res


def zero(t):
    return not full_leaves(t, "x", [])
