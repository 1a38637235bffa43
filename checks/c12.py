"""--generate-types: the generated types are the header's types: same layout, same constants, same calls."""
from vlib import adapt
from vlib.cmodel import *
from common import *
from c11 import full_leaves

CORPUS = {
    "plain": "struct s { int a; char b; }; int f(struct s *p);",
    "enum-values": "enum e { A = 5, B, C = 5000 }; int f(enum e v);",
    "packed": "struct __attribute__((packed)) s { char a; int b; }; int f(struct s *p);",
    "aligned": "struct __attribute__((aligned(32))) s { char a; }; int f(struct s *p);",
    "aligned-field": "struct s { char a; int b __attribute__((aligned(16))); }; int f(struct s *p);",
    "pragma-pack": "#pragma pack(push, 1)\nstruct s { char a; int b; };\n#pragma pack(pop)\nint f(struct s *p);",
    "packed-anonymous": "typedef struct { char a; struct { char b; int c; } __attribute__((packed)) d; } s; int f(s *p);",
    "array-typedef": "typedef int arr[3]; struct s { arr a; }; int f(struct s *p);",
    "pointer-to-array": "struct s { int (*a)[3]; }; int f(struct s *p);",
    "array-of-arrays": "struct s { int a[2][3]; }; int f(struct s *p);",
    "array-of-callbacks": "struct s { int (*a[2])(int); }; int f(struct s *p);",
    "flexible-array": "struct s { int n; char a[]; }; int f(struct s *p);",
    "flexible-array-of-records": "struct s { int n; struct { short a; } b[]; }; struct t { char c; struct in { int z; } d[]; }; int f(struct s *p, struct t *q);",
    "pointer-to-anonymous": "typedef struct { int a; } *sp; typedef const union { int b; char c; } *up; int f(sp p, up q);",
    "pointer-to-typedef": "typedef struct { int a; } s; typedef const s *csp; typedef csp *cspp; typedef enum { A, B } e; typedef e *ep; int f(cspp p, ep q);",
    "typedef-of-typedef": "typedef int a; typedef a b; struct s { b x; a y; }; b f(struct s *p);",
    "typedef-of-anonymous-pointer": "typedef struct { int a; } s; typedef s *sp; int f(sp p);",
    "typedef-enum-bitfield": "typedef enum { A, B } e; struct s { e x : 2; }; int f(struct s *p);",
    "enum-duplicates": "enum e { A = 1, B = 1, C }; int f(enum e v);",
    "enum-negative": "enum e { A = -5, B }; int f(enum e v);",
    "enum-wide": "enum e { A = 0x80000000u, B }; int f(enum e v);",
    "recursive": "struct t; struct s { struct t *x; struct s *next; }; struct t { struct s *y; int v; }; int f(struct s *p, struct t *q);",
    "recursive-typedef": "typedef struct s s_t; struct s { s_t *next; int (*cb)(s_t *, int); }; int f(s_t *p);",
    "nested-named": "struct s { struct in { int a; } x; struct in *y; union { int b; char c; } z; }; int f(struct s *p, struct in *q);",
    "const-fields": "struct s { const int a; int *const b; const char *const *c; }; int f(struct s *p);",
    "volatile-fields": "struct s { volatile int a; volatile char *b; }; int f(struct s *p);",
    "forward-only": "struct fw; typedef struct fw2 fw_t; int f(struct fw *p, fw_t *q);",
    "union-bits": "union u { struct { unsigned a : 3, : 2, b : 11; } x; unsigned char y[7]; }; int f(union u v);",
    "standard-types": "#include <stdint.h>\n#include <stddef.h>\nstruct s { uint8_t a; size_t b; int64_t c; }; size_t f(struct s p, uint16_t v);",
    "libc-types": "#include <stdio.h>\n#include <time.h>\nint f(FILE *a, struct tm *b, time_t c);",
    "va-list": "#include <stdarg.h>\nint f(const char *s, va_list ap);",
    "callbacks": "typedef void (*cb)(int, void *); struct s { cb c; void (*d)(struct s *); }; int f(cb a, struct s *p);",
    "parameter-array": "int f(int a[4], char *const b[]);",
    "callback-pointer-typedef": "typedef int (*c)(int); typedef c *d; struct s { d x; c *y[2]; }; d f(d *x, struct s *z);",
    "const-typedef": "typedef const int ci; struct s { ci *x; }; int f(ci *a, struct s *b);",
    "function-typedef": "typedef int fn(int); struct s { fn *x; }; int f(fn *a, struct s *b);",
    "joined-names": "struct a_b { int x; }; typedef struct a { char c; long d; } b_; typedef struct { int z; } x_; struct _x { char y; }; int f(struct a_b *p, b_ *q, struct _x *r, x_ *s);",
    "tag-and-typedef": "struct list { int a; }; typedef struct { struct list l; char z; } list; enum e { A }; typedef enum e e; typedef int struct_z; struct z { struct_z a; }; e f(struct list *p, list *q, struct z *r, enum e s);",
    "unnamed-bitfields": "struct s { unsigned char a : 3; unsigned char : 0; unsigned char b : 4; int : 5; short c : 3; long : 0; unsigned d : 7; }; int f(struct s *a);",
    "zero-length-array": "struct s { int a; char pad[0]; int b; }; struct t { int a[0]; }; union u { char a[0]; long b; }; int f(struct s *p, struct t *q, union u *r);",
    "bool": "#include <stdbool.h>\nstruct s { bool a; _Bool b : 1; }; bool f(struct s p, bool q);",
    "pointer-typedefs": "struct s { int a; }; typedef struct s *sp; typedef const struct s *csp; sp f(csp a, sp b);",
}


def layout_program(inc, types, enums):
    """prints the layout of the types as seen through one header"""
    o = ["#include <stdio.h>", "#include <string.h>", "#include <stddef.h>", '#include "%s"' % inc, "int main(void) { size_t i;"]
    for k, t in enumerate(types):
        T = t.text()
        o.append('printf("%s size %%zu align %%zu\\n", sizeof(%s), _Alignof(%s));' % (T, T, T))
        for l in full_leaves(t, "x", []):
            e = l.expr
            if l.bf:
                o.append('{ %s x; unsigned char *b = (void *)&x; memset(&x, 0, sizeof x); %s = (%s)-1; printf("%s %s bits");'
                         ' for (i = 0; i < sizeof x; i++) if (b[i]) printf(" %%zu:%%02x", i, b[i]); printf(" %%d\\n", %s < 0); }' % (T, e, l.ty.text(), T, e[1:], e))
            else:
                o.append('{ %s x; memset(&x, 0, sizeof x); printf("%s %s at %%zu size %%zu class %%d\\n", (size_t)((char *)&%s - (char *)&x), sizeof(%s), __builtin_classify_type(%s)); }' % (T, T, e[1:], e, e, e))
    for e in enums:
        for n, _ in e.items:
            o.append('printf("%s = %%lld\\n", (long long)%s);' % (n, n))
    o.append("return 0; }")
    return "\n".join(o) + "\n"


def used(h, ign=()):
    """records and enums which the functions use by value or through one pointer"""
    recs, enums, seen = [], [], []

    def walk(t, deep):
        r = t.res()
        if r.kind in ("ptr", "arr"):
            walk(r.to if r.kind == "ptr" else r.el, deep)
        elif r.kind == "enum":
            if r not in enums:
                enums.append(r)
        elif r.kind == "rec" and not r.incomplete and r not in seen:
            seen.append(r)
            recs.append(t)      # under the name it is used by
            for f in r.fields if r not in ign else ():
                n = f.ty
                while n.res().kind == "arr":
                    n = n.res().el
                q = n.res()
                if q.kind == "enum" or (q.kind == "rec" and (q.tag or q.tdname)):
                    walk(n, deep)
                elif q.kind == "rec":
                    for g in q.fields if q not in ign else ():
                        if g.ty.res().kind in ("enum", "rec", "arr"):
                            walk(g.ty, deep)
    for f in h.funcs:
        for _, t in f.params + [(None, f.ret)]:
            walk(t, False)
    return [t for t in recs if t.res().tag or t.res().tdname], enums


class TypeGen(cgen.Gen):
    """without packing (known-findings.txt), with more enums"""

    def enum(self):
        cgen.Gen.enum(self)
        e = self.enums[-1]
        x = self.r.random()
        if x < 0.3:
            e.items.append((e.items[0][0] + "_NEG", -self.r.choice([1, 5, 2 ** 31])))
        if x > 0.15 and x < 0.5:
            e.items.append((e.items[0][0] + "_DUP", e.items[0][0]))

    def rec(self):
        n = len(self.recs)
        cgen.Gen.rec(self)
        for t in self.recs[n:]:
            t.attr = ""


def layouts(chk, d, name, cc, types, enums, files, bad):
    outs = []
    for tag, inc in (("orig", name + ".h"), ("mock", "easyMock_%s.h" % name)):
        p = os.path.join(d, "lay_%s.c" % tag)
        open(p, "w").write(layout_program(inc, types, enums))
        r = run2([cc, "-std=gnu11", "-w", p, "-o", p[:-2], "-I" + d, "-I" + FW + "/include"])
        if r.rc:
            if tag == "orig":
                raise HarnessError("layout program: " + r.err[:2000])
            bad("types-missing", "a type or constant of the header is not declared by the mock\n" + "\n".join(l for l in r.err.splitlines() if "error" in l)[:2000])
            return
        r = run2([p[:-2]])
        outs.append(r.out)
    if outs[0] != outs[1]:
        diff = [(a, b) for a, b in zip(outs[0].splitlines(), outs[1].splitlines()) if a != b]
        bad("layout", "the generated types differ (header / mock): %s" % diff[:6])
    chk.saw(None, outs[0].count("\n"))
    for l in outs[0].splitlines():
        chk.distinct.add(re.sub(r"c12\w*|\d{4,}", "", l)[-60:])


def corpus(chk, gen):
    def one(name):
        d = chk.dir("corpus-" + name)
        text = CORPUS[name]
        files = {"x.h": "#ifndef X_H\n#define X_H\n%s\n#endif\n" % text}
        key = "corpus:" + name
        chk.saw(key)
        r = mocks.gen_mock(gen, None, d, ["--generate-types"], text=files["x.h"], name="x")
        if r.rc or r.timeout:
            return chk.violation(key, "not mocked: %s\n%s" % (text, mocks.explain("generate", r)), files=files)
        files["easyMock_x.h"] = open(os.path.join(d, "easyMock_x.h")).read()
        objs = []
        # the type information of both views, as the compiler records it
        for tag, inc in (("orig", "x.h"), ("mock", "easyMock_x.h")):
            p = os.path.join(d, tag + ".c")
            open(p, "w").write('#include "%s"\n__typeof__(&f) easymock_use_f = f;\n' % inc)
            r = run2(["clang", "-std=gnu11", "-w", "-g", "-c", p, "-o", p[:-1] + "o", "-I" + d, "-I" + FW + "/include"])
            if r.rc:
                return chk.violation(key, "with --generate-types, the mock of %s does not compile\n%s" % (text, mocks.explain("clang", r)), files=files)
            objs.append(dwarf_types(p[:-1] + "o"))
        p = os.path.join(d, "easyMock_x.c")
        os.unlink(os.path.join(d, "x.h"))
        r = run2(["clang", "-std=gnu11", "-w", "-c", p, "-o", os.path.join(d, "m.o"), "-I" + d, "-I" + FW + "/include"])
        if r.rc:
            return chk.violation(key, "the mock of %s does not compile without the header\n%s" % (text, mocks.explain("clang", r)), files=files)
        if objs[0] != objs[1]:
            chk.violation(key, "the types of %s differ:\nheader: %s\nmock:   %s" % (text, objs[0], objs[1]), files=files)
    pmap(one, sorted(CORPUS))


def dwarf_types(obj):
    """a normal form of the type of f, read from the debug information: layouts, names of fields and tags, constants"""
    out = run2(["llvm-dwarfdump-18", "--debug-info", obj]).out
    dies, stack = {}, []
    cur = None
    for line in out.splitlines():
        m = re.match(r"0x([0-9a-f]+):( +)(DW_TAG_\w+|NULL)", line)
        if m:
            depth = len(m.group(2))
            while stack and stack[-1][0] >= depth:
                stack.pop()
            if m.group(3) == "NULL":
                cur = None
                continue
            cur = {"tag": m.group(3)[7:], "at": {}, "ch": []}
            dies[m.group(1)] = cur
            if stack:
                stack[-1][1]["ch"].append(cur)
            stack.append((depth, cur))
            continue
        m = re.match(r" +DW_AT_(\w+)\t?\s*\((.*?)\)?$", line)
        if m and cur is not None:
            cur["at"][m.group(1)] = m.group(2)

    def norm(ref, seen, depth=0):
        m = re.match(r"0x([0-9a-f]+)", ref or "")
        if not m:
            return "void"
        d = dies.get(m.group(1))
        t, a = d["tag"], d["at"]
        nm = (a.get("name") or "").strip('"')
        nm = "" if "easymock_generated" in nm else nm
        if t == "typedef":
            return norm(a.get("type"), seen, depth)
        if t in ("pointer_type", "const_type", "volatile_type", "restrict_type", "atomic_type"):
            q = {"pointer_type": "*", "const_type": "const ", "volatile_type": "volatile ", "restrict_type": "", "atomic_type": "_Atomic "}[t]
            return q + norm(a.get("type"), seen, depth)
        if t == "base_type":
            return nm
        if t == "array_type":
            return "[%s]%s" % (",".join(c["at"].get("count", "0x00") for c in d["ch"]), norm(a.get("type"), seen, depth))
        if t == "subroutine_type":
            return "(%s)->%s" % (",".join(norm(c["at"].get("type"), seen, depth) if c["tag"] == "formal_parameter" else "..." for c in d["ch"]), norm(a.get("type"), seen, depth))
        if t == "enumeration_type":
            return "enum %s{%s}/%s" % ("", ",".join("%s=%s" % (c["at"].get("name"), c["at"].get("const_value")) for c in d["ch"]), a.get("byte_size"))
        if t in ("structure_type", "union_type", "class_type"):
            if a.get("declaration"):
                return "%s declared" % t
            if id(d) in seen:
                return "%s again" % t
            seen = seen | {id(d)}
            return "%s{%s}/%s/%s" % (t, ";".join("%s:%s:%s:%s@%s" % (c["at"].get("name", ""), norm(c["at"].get("type"), seen, depth + 1), c["at"].get("bit_size", ""), c["at"].get("data_bit_offset", ""), c["at"].get("data_member_location", ""))
                                                           for c in d["ch"] if c["tag"] == "member"), a.get("byte_size"), a.get("alignment", ""))
        return t
    for d in dies.values():
        if d["tag"] == "variable" and d["at"].get("name") == '"easymock_use_f"':
            return norm(d["at"].get("type"), frozenset())
    return "nothing in " + os.path.basename(obj)


def check(chk):
    gen, fw = tools(chk)
    chk.rule = "headers mocked with --generate-types: sizes, alignments, offsets, bit positions and constants compared between the header and the generated types; histories whose callers see the header and whose mocks do not; distinct by layout fact"
    chk.assumptions = ["types reached from the mocked functions", "x86-64 layouts"]
    corpus(chk, gen)
    n = 400 if chk.thorough else 120

    def one(k):
        r = rng_of(chk, "l", k)
        name = "c12l%d" % k
        g = TypeGen(r, name, nfuncs=r.randint(3, 10), ntypes=r.randint(3, 12), uniq=name, shared=True)
        h = g.go()
        d = chk.dir(name)
        files = {name + ".h": h.text()}

        def bad(key, what):
            chk.violation(key, what, files=files)
        cc = ["clang", "gcc"][k % 2]
        res = mocks.gen_mock(gen, h, d, ["--generate-types"] + (["--generate-comparator-of", "EasyMock_all_comparators"] if r.random() < 0.4 else []))
        if res.rc or res.timeout:
            return bad("generate", mocks.explain("generate", res))
        mh = files["easyMock_%s.h" % name] = open(os.path.join(d, "easyMock_%s.h" % name)).read()
        if re.search(r'#\s*include\s*[<"][^>"\n]*\b%s\.h[>"]' % name, mh):
            return bad("includes-header", "the mock still includes the header it replaces")
        types, enums = used(h)
        types = [t for t in types if full_leaves(t, "x", [])]
        os.makedirs(os.path.join(d, "alone"))
        for s in (".c", ".h"):
            os.link(os.path.join(d, "easyMock_%s%s" % (name, s)), os.path.join(d, "alone", "easyMock_%s%s" % (name, s)))
        rr = run2([cc, "-std=gnu11", "-w", "-c", "easyMock_%s.c" % name, "-o", "m.o", "-I" + FW + "/include"], cwd=os.path.join(d, "alone"))
        if rr.rc:
            return bad("compile", mocks.explain("cc", rr))
        layouts(chk, d, name, cc, types, enums, files, bad)
        if k < 2:
            chk.sample({"types": [t.define()[:200] for t in types[:3]], "enums": [e.define() for e in enums[:2]]})
    pmap(one, range(n))

    def mk(r, k):
        return [TypeGen(r, "c12h%d_%d" % (k, i), nfuncs=8).go() for i in range(5)]
    ng = 20 if chk.thorough else 3
    groups = build_groups(chk, gen, fw, ng, mk=mk, tag="c12h", opts=("--generate-types", "--generate-comparator-of", "EasyMock_all_comparators"))
    drive(chk, groups, ["polite", "permuted", "hostile"], 60 if chk.thorough else 12)
