"""C++ headers (functions, namespaces, classes, references) and their adapters for the history driver."""
from .cmodel import *
from . import adapt
from .adapt import leaves, unions_in, san
import os, re
from .core import run, run2, HarnessError, pmap
from .build import FW
from . import mocks
from .mocks import gen_mock, explain, cc, GenFail, CSAN, HX


class Ref(Ty):
    kind = "ref"

    def __init__(self, to, const):
        self.to, self.const = to, const

    def decl(self, d):
        if self.const and self.to.kind == "ptr":
            return self.to.decl("const &" + d)
        return ("const " if self.const else "") + self.to.decl("&" + d)


class ScopedEnum(Enum):
    def __init__(self, tag, items, under):
        Enum.__init__(self, tag, items, kw=False)
        self.under, self.scope = under, tag + "::"

    def body(self):
        return Enum.body(self).replace("enum ", "enum class ", 1).replace("{", (": %s {" % self.under) if self.under else "{", 1)


class CppGen:
    """a random C++ header inside what --mock-cpp supports"""

    def __init__(self, r, name, nfuncs=10, ext="h"):
        self.r, self.name, self.nfuncs, self.ext = r, name, nfuncs, ext
        self.types, self.funcs, self.classes = [], [], []
        self.used = {}          # scope and class -> name -> numbers of parameters
        self.cnames = []
        self.hidden = []        # the methods which are private or protected
        self.k = 0

    def fresh(self, p):
        self.k += 1
        return "%s%d_%s" % (p, self.k, self.name)

    def scalar(self):
        return self.r.choice(SCALARS + [BOOL, INT, UCHAR, DOUBLE])

    def make_types(self):
        r = self.r
        for _ in range(r.randint(1, 3)):
            t = self.fresh("e")
            self.types.append((Enum if r.random() < 0.7 else lambda t, i: ScopedEnum(t, i, r.choice(["", "int", "unsigned char", "long"])))(t, [("%s_%d" % (t, i), v) for i, v in enumerate(sorted(r.sample(range(0, 90), r.randint(1, 5))))]))
        for _ in range(r.randint(1, 4)):
            fs = []
            for i in range(r.randint(1, 6)):
                x = r.random()
                recs = [t for t in self.types if t.kind == "rec"]
                if x < 0.55:
                    t = self.scalar()
                elif x < 0.65:
                    t = Ptr(self.scalar(), const=r.random() < 0.4)
                elif x < 0.75:
                    t = Arr(self.scalar(), r.randint(1, 4))
                elif x < 0.85 and recs:
                    t = r.choice(recs)
                else:
                    t = r.choice([t for t in self.types if t.kind == "enum"])
                fs.append(Field("m%d" % i, t))
            self.types.append(Rec(self.fresh("s"), fs))
        for _ in range(r.randint(0, 3)):
            self.types.append(Typedef(self.fresh("t"), r.choice(self.types[:]) if r.random() < 0.4 else self.scalar()))
        if r.random() < 0.6:
            self.types.append(Typedef(self.fresh("fp"), FnPtr(INT, [INT, Ptr(CHAR, const=True)])))

    def value(self):
        x = self.r.random()
        return self.scalar() if x < 0.45 else self.r.choice(self.types)

    def obj(self):
        """what a pointer or a reference may go to"""
        while 1:
            t = self.value()
            if t.res().kind != "fnptr":
                return t

    def param(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            return self.value()
        if x < 0.68:
            y = r.random()
            if y < 0.12:
                return Ptr(VOID, const=r.random() < 0.5)
            if y < 0.22:
                return Ptr(Ptr(self.scalar()), const=False)
            return Ptr(self.obj(), const=r.random() < 0.45)
        return Ref(self.obj() if r.random() < 0.9 else Ptr(self.scalar()), r.random() < 0.5)

    def ret(self):
        r = self.r
        x = r.random()
        if x < 0.22:
            return VOID
        if x < 0.62:
            return self.value()
        if x < 0.8:
            return Ptr(self.obj(), const=r.random() < 0.4)
        return Ref(self.obj(), r.random() < 0.5)

    def func(self, cls=None, scope=(), alone=False):
        r = self.r
        name = self.fresh("f" if not cls else "m")
        np = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        fn, here = name, self.used.setdefault((tuple(scope), cls), {})
        old = sorted({n for u in self.used.values() for n in u})
        if old and not alone and r.random() < 0.4:
            # the name of a function of another scope, or of one which takes other parameters
            fn = r.choice(old)
            free = [k for k in range(6) if k not in here.get(fn, ())]
            np = r.choice(free) if free else np
            fn = fn if free else name
        if not alone:
            here.setdefault(fn, []).append(np)
        pn = r.sample(["a", "b", "value", "ptr", "x", "y", "n", "data", "len", "cb", "r", "q"], np)
        f = Func(name, self.ret(), [(n, self.param()) for n in pn])
        f.cls, f.scope, f.fn = cls, tuple(scope), fn
        f.const = bool(cls) and r.random() < 0.35
        self.funcs.append(f)
        return f

    def scopes(self):
        r = self.r
        old = sorted({s for s, c in self.used if s}, key=str)
        if old and r.random() < 0.4:
            return list(r.choice(old))
        return [self.fresh("n") for _ in range(r.choice([1, 1, 2, 3]))]

    def within(self, scope, body):
        r = self.r
        if not scope:
            return body
        if r.random() < 0.3:
            return "namespace %s {\n%s\n}" % ("::".join(scope), body)
        return "".join("namespace %s { " % s for s in scope) + "\n" + body + "\n" + "}" * len(scope)

    def cdecl(self, scope):
        """a class whose public methods are mocked"""
        r = self.r
        c = self.fresh("K")
        old = [n for s, n in self.cnames if (tuple(scope), n) not in self.cnames]
        if old and r.random() < 0.3:
            c = r.choice(old)
        base = [n for s, n in self.cnames if s == tuple(scope) and n not in old]
        self.cnames.append((tuple(scope), c))
        self.classes.append((tuple(scope), c))
        body = ["  " + self.fdecl(self.func(cls=c, scope=scope)) for _ in range(r.randint(1, 4))]
        if r.random() < 0.3:
            body.insert(r.randint(0, len(body)), "  int %s(int x) { return x; }" % self.fresh("i"))
        if r.random() < 0.2:
            body.insert(r.randint(0, len(body)), "  static int %s(int x);" % self.fresh("st"))
        if r.random() < 0.25:
            self.hidden.append((tuple(scope), c, self.fresh("hidden")))
            body.append("%s:\n  int %s(int x);" % (r.choice(["private", "protected"]), self.hidden[-1][2]))
        pre = r.choice(["", "  int field;\n", "private:\n  int field;\n  double other;\npublic:\n"])
        kw, acc = r.choice([("class", "public:\n"), ("class", "public:\n"), ("struct", "")])
        inh = " : public %s" % r.choice(base) if base and r.random() < 0.3 else ""
        return "%s %s%s {\n%s%s%s\n};" % (kw, c, inh, acc, pre, "\n".join(body))

    def go(self):
        r = self.r
        self.make_types()
        out = [t.define() for t in self.types]
        while len(self.funcs) < self.nfuncs:
            x = r.random()
            if x < 0.3:
                out.append(self.fdecl(self.func()))
            elif x < 0.55:
                scope = self.scopes()
                out.append(self.within(scope, "\n".join("  " + self.fdecl(self.func(scope=scope)) for _ in range(r.randint(1, 3)))))
            elif x < 0.63:
                out.append('extern "C" {\n%s\n}' % self.fdecl(self.func(alone=True)))
            elif x < 0.67:
                out.append(r.choice(["static int %s(int a) { return a; }", "inline int %s(int a) { return a; }", "static inline int %s() { return 3; }"]) % self.fresh("own"))
            else:
                scope = self.scopes() if r.random() < 0.4 else []
                out.append(self.within(scope, self.cdecl(scope)))
        self.body = out
        return self

    def fdecl(self, f):
        r = self.r
        ps = [t.decl(n).strip() for n, t in f.params]
        if ps and r.random() < 0.15:
            t = f.params[-1][1]
            if t.res().kind in ("scalar", "ptr") and t.kind != "ref":
                ps[-1] += " = 0"
        pre = r.choice(["[[nodiscard]] ", "extern "] if not f.cls else ["[[nodiscard]] "]) if r.random() < 0.1 else ""
        if pre == "[[nodiscard]] " and f.ret is VOID:
            pre = ""
        return pre + f.ret.decl("%s(%s)" % (f.fn, ", ".join(ps))).strip() + (" const" if f.const else "") + ";"

    def text(self):
        g = "HDR_%s_H" % san(self.name).upper()
        return "#ifndef %s\n#define %s\n%s\n#endif\n" % (g, g, "\n".join(self.body))


class CppAdapter:
    def __init__(self, h, base):
        self.h, self.base = h, base
        self.ids, self.mk, self.meta = {}, [], []

    tid = adapt.Adapter.tid
    T = adapt.Adapter.T

    def matchers(self, t):
        r = t.res()
        if r.kind == "ref":
            r = r.to.res()
        if r.kind == "ptr":
            el = r.to.res()
            return [] if el.kind == "scalar" and el.bits == 8 else [("v", None)]
        if r.kind in ("scalar", "enum", "fnptr"):
            return [("v", None)]
        if r.kind == "rec":
            return [("v", None)]
        return []

    def emit(self):
        calls, exps = [], []
        for k, f in enumerate(self.h.funcs):
            self.func(self.base + k, f, calls, exps)
        ops = []
        for t in self.h.types:
            if isinstance(t, ScopedEnum):
                ops.append("static inline std::ostream &operator<<(std::ostream &o, %s v) { return o << (long)v; }" % t.tag)
            if t.kind == "rec":
                ops.append("static inline bool operator==(const %s &a, const %s &b) { return eq_%s(&a, &b); }\nstatic inline std::ostream &operator<<(std::ostream &o, const %s &) { return o << \"%s\"; }" % (
                    t.text(), t.text(), self.T(t), t.text(), t.text()))
        mk = ["#ifndef MK_%s" % san(self.h.name), "#define MK_%s" % san(self.h.name), "#include <cstring>", "#include <map>", "#include <sstream>", "#include <string>", '#include "hx.h"', '#include "hx_cpp.h"'] + self.mk + ops + ["#endif"]
        cs = [("::".join(("",) + s + (c,)), "_".join(s + (c,))) for s, c in self.h.classes]
        return "\n".join(mk), "\n".join(["%s hxi_%s[3];" % c for c in cs] + calls), "\n".join(["extern %s hxi_%s[3];" % c for c in cs] + exps)

    def func(self, gid, f, calls, exps):
        n, np = f.name, len(f.params)
        name = "%s::%s" % (f.cls, f.fn) if f.cls else f.fn
        # functions are told apart by their name and the number of their parameters
        pat = re.compile(r"(?<![\w~:])%s\s*\(%s\)" % (re.escape(name), "[^,()]+" + "," .join([""] + ["[^,()]+"] * (np - 1)) if np else r"\s*(?:void)?\s*"))
        cq, ci = "::".join(("",) + f.scope + (f.cls or "",)), "_".join(f.scope + (f.cls or "",))
        meta = {"name": n, "pat": pat, "key": (name, f.ret.text(), tuple((p, t.text()) for p, t in f.params), f.const), "fn": f.fn, "np": np, "params": [], "ret": f.ret is not VOID, "gid": gid, "header": self.h.name, "cls": f.cls, "cpp": True}
        cmk, emk, args, peq, pmk, deq, fills, post, sup, pts = [], [], [], [], [], [], [], [], [], []
        for i, (pn, t) in enumerate(f.params):
            r = t.res()
            pm = {"name": pn, "out": False, "sized": False, "matchers": [("n", None), ("p", None), ("f", None), ("e", None)] + self.matchers(t)}
            pid = "%s_%d" % (n, i)
            pts.append(t.text())
            if r.kind == "ptr" and t.kind != "typedef":
                el = r.to
                elr = el.res()
                void = elr is VOID
                out, sized = is_out(t), is_sized(t)
                pm["out"], pm["sized"] = out, sized
                fs = "((%du + (idx == 3 ? 0 : idx)) << 16)" % (100 + 7 * i)
                E = "unsigned char" if void else "T_" + self.T(el)
                cnt = 64 if void else 1
                sup.append("static inline %s *pool_%s(unsigned idx) { return (%s *)hx_pool(%d,%d,idx,sizeof(%s)*%d); }" % (E, pid, E, gid, i, E, cnt))
                mkb = "hx_mkbytes(b,64,%s)" if void else "mk_%s(b, %%s)" % self.T(el)
                sup.append("static inline void fmk_%s(%s *b, unsigned idx) { %s; }" % (pid, E, mkb % fs))
                sup.append("static inline void fill_%s(void) { unsigned idx; for(idx=0;idx<HX_NPOOL;idx++) fmk_%s(pool_%s(idx), idx); }" % (pid, pid, pid))
                deq.append("0" if void else "veq_%s" % self.T(el))
                fills.append("fill_%s();" % pid)
                ptxt = t.text()
                for l, src in ((cmk, "c"), (emk, "e")):
                    l.append("%s = (%s)pool_%s(hx_idx(%s->s[%d]));" % (t.decl("a%d" % i), ptxt, pid, src, i))
                sup.append("static inline void ppmk_%s(void *b, uint32_t s) { *(void **)b = (void *)pool_%s(hx_idx(s)); }" % (pid, pid))
                sup.append("static inline int ppeq_%s(const void *a, const void *b) { return *(void *const *)a == *(void *const *)b; }" % pid)
                pmk.append("ppmk_" + pid)
                peq.append("ppeq_" + pid)
                hit = "%d && c->e && c->e->useout && c->e->o[%d] && idx == hx_idx(c->s[%d])" % (1 if out else 0, i, i)
                if void:
                    post.append("{ unsigned idx; int ok = 1; for(idx=0;idx<HX_NPOOL;idx++) { unsigned char x[64]; fmk_%s(x, idx); if (%s) { unsigned char y[64]; hx_mkbytes(y, 64, c->e->os[%d]); memcpy(x, y, c->e->os[%d] %% 65); } if (memcmp(x, pool_%s(idx), 64)) ok = 0; } o->out_ok[%d] = ok; }" % (pid, hit, i, i, pid, i))
                    pm["outdecl"] = "unsigned char *b%d = (unsigned char *)hx_outbuf(e->os[%d] %% 65); { unsigned char y[64]; hx_mkbytes(y,64,e->os[%d]); memcpy(b%d, y, e->os[%d] %% 65); }" % (i, i, i, i, i)
                    pm["outsize"] = "e->os[%d] %% 65" % i
                else:
                    T = self.T(el)
                    post.append("{ unsigned idx; int ok = 1; for(idx=0;idx<HX_NPOOL;idx++) { T_%s x; fmk_%s(&x, idx); if (%s) mk_%s(&x, c->e->os[%d]); if (!eq_%s(&x, pool_%s(idx))) ok = 0; } o->out_ok[%d] = ok; }" % (T, pid, hit, T, i, T, pid, i))
                    pm["outdecl"] = "T_%s *b%d = (T_%s *)hx_outbuf(sizeof *b%d); mk_%s(b%d, e->os[%d]);" % (T, i, T, i, T, i, i)
                    pm["outsize"] = "sizeof(T_%s)" % T
                pm["outcast"] = ptxt
            else:
                T = self.T(r.to if r.kind == "ref" else t)
                cmk.append("T_%s a%d; mk_%s(&a%d, c->s[%d]);" % (T, i, T, i, i))
                if r.kind == "ref":
                    # what a recorded reference goes to lives as long as the expectation
                    emk.append("T_%s &a%d = *(T_%s *)hx_outbuf(sizeof(T_%s)); mk_%s(&a%d, e->s[%d]);" % (T, i, T, T, T, i, i))
                    post.append("{ T_%s x; mk_%s(&x, c->s[%d]); o->out_ok[%d] = eq_%s(&x, &a%d); }" % (T, T, i, i, T, i))
                else:
                    emk.append("T_%s a%d; mk_%s(&a%d, e->s[%d]);" % (T, i, T, i, i))
                pmk.append("vmk_" + T)
                peq.append("veq_" + T)
                deq.append("0")
            args.append("a%d" % i)
            meta["params"].append(pm)
        self.mk.append("\n".join(sup))
        q = "::".join(list(f.scope) + [f.fn])
        c = ["static void fill_all_%s(void) { %s }" % (n, " ".join(fills)),
             "static void call_%s(const struct hx_call *c, struct hx_obs *o) {" % n, "  (void)c; (void)o;"]
        c += ["  " + m for m in cmk]
        callee = "hxi_%s[c->inst %% 3].%s" % (ci, f.fn) if f.cls else "::" + q
        if f.const:
            callee = "((const %s &)hxi_%s[c->inst %% 3]).%s" % (cq, ci, f.fn)
        if f.ret is VOID:
            c.append("  %s(%s);" % (callee, ", ".join(args)))
        elif f.ret.res().kind == "ref":
            R = self.T(f.ret.res().to)
            c.append("  %s = %s(%s);" % (f.ret.decl("r"), callee, ", ".join(args)))
            # the very object which was recorded
            c.append("  if (c->e) { T_%s x; mk_%s(&x, c->e->ret); o->ret_ok = (const void *)&r == hx_refs[c->e] && eq_%s(&x, &r); }" % (R, R, R))
            c.append("  else { volatile unsigned char k = *(const volatile unsigned char *)&r; (void)k; }")
        else:
            R = self.T(f.ret)
            c.append("  T_%s r = %s(%s);" % (R, callee, ", ".join(args)))
            c.append("  if (c->e) { T_%s x; mk_%s(&x, c->e->ret); o->ret_ok = eq_%s(&x, &r); }" % (R, R, R))
        c += ["  " + p for p in post]
        c.append("}")
        P = "_%s" % n
        c.append("static const char *const pn%s[] = {%s};" % (P, ", ".join('"%s"' % p for p, _ in f.params) or "NULL"))
        c.append("static void (*const pm%s[])(void *, uint32_t) = {%s};" % (P, ", ".join(pmk) or "NULL"))
        c.append("static int (*const pe%s[])(const void *, const void *) = {%s};" % (P, ", ".join(peq) or "NULL"))
        c.append("static int (*const pd%s[])(const void *, const void *) = {%s};" % (P, ", ".join(deq) or "NULL"))
        c.append("extern \"C\" void hxe_%s(const struct hx_exp *);" % n)
        c.append("extern \"C\" const struct hx_fn hxf_%s; const struct hx_fn hxf_%s = { \"%s\", %d, pn%s, hxe_%s, call_%s, pm%s, pe%s, pd%s, fill_all_%s };" % (n, n, n, np, P, n, n, P, P, P, n))
        calls.append("\n".join(c))
        e = []
        for i, pm in enumerate(meta["params"]):
            base = {"n": "NULL", "p": "hxpp_pass<%s>" % pts[i], "f": "hxpp_fail<%s>" % pts[i], "e": "hxpp_eqv<%s>" % pts[i], "v": "&::EasyMock::cmp<%s>" % pts[i]}
            e.append("static const ::EasyMock::EasyMock_Matcher_Cpp<%s> mt_%s_%d[] = {%s};" % (pts[i], n, i, ", ".join(base[k] for k, _ in pm["matchers"])))
        e.append("extern \"C\" void hxe_%s(const struct hx_exp *e) {" % n)
        e.append("  (void)e;")
        e += ["  " + m for m in emk]
        ret = []
        if f.ret.res().kind == "ref":
            e.append("  T_%s &r = *(T_%s *)hx_outbuf(sizeof(T_%s)); mk_%s(&r, e->ret); hx_refs[e] = &r;" % (R, R, R, R))
            ret = ["r"]
        elif f.ret is not VOID:
            e.append("  T_%s r; mk_%s(&r, e->ret);" % (R, R))
            ret = ["r"]
        ms = ["mt_%s_%d[e->m[%d]]" % (n, i, i) for i in range(np)]
        inst = ["e->inst ? &hxi_%s[(e->inst - 1) %% 3] : NULL" % ci] if f.cls else []
        ns = "::EasyMock::" + "::".join(list(f.scope) + ([f.cls] if f.cls else []) + [f.fn])
        meta["anyout"] = any(p["out"] for p in meta["params"])
        if meta["anyout"]:
            oa = []
            e.append("  if (e->useout) {")
            for i, pm in enumerate(meta["params"]):
                if pm["out"]:
                    e.append("    " + pm["outdecl"])
                    oa.append("e->o[%d] ? (%s)(void *)b%d : NULL" % (i, pm["outcast"], i))
                    if pm["sized"]:
                        oa.append(pm["outsize"])
            e.append("    %s::ExpectReturnAndOutput(%s);" % (ns, ", ".join(inst + args + ret + ms + oa)))
            e.append("    return; }")
        e.append("  %s::ExpectAndReturn(%s);" % (ns, ", ".join(inst + args + ret + ms)))
        e.append("}")
        exps.append("\n".join(e))
        self.meta.append(meta)


def build_cpp_exe(chk, gen, fwdir, hdrs, d, opts=(), cxx="clang++", san_=CSAN, std="-std=c++17", jobs=8, chdrs=(), dl=None):
    """the history driver linked with C++ mocks of the headers, and C mocks of chdrs: (exe, metas, files)"""
    adapters, base = [], 0
    for h in chdrs:
        adapters.append(adapt.Adapter(h, base))
        base += len(h.funcs)
    for h in hdrs:
        adapters.append(CppAdapter(h, base))
        base += len(h.funcs)
    comp = {"clang++": "clang", "g++": "gcc"}[cxx]
    inc = ["-I" + d, "-I" + HX, "-I" + FW + "/include"]
    base_flags = ["-w", "-O1", "-g", "-c", "-fno-optimize-sibling-calls"] + (["-gdwarf-aranges"] if cxx == "clang++" else []) + list(san_) + inc + (["-fPIC", "-fno-gnu-unique"][:1 + (cxx == "g++")] if dl else [])
    flags = [std] + base_flags

    def one(a):
        h = a.h
        if not isinstance(a, CppAdapter):
            return mocks.c_objects(gen, a, d, ["--generate-comparator-of", "EasyMock_all_comparators"], ["-std=gnu11"] + base_flags, True, comp)
        name = h.name + "." + h.ext
        open(os.path.join(d, name), "w").write(h.text())
        files = {name: h.text()}
        r = run2([gen, "-i", os.path.join(d, name), "-o", d, "--mock-cpp"] + list(opts) + ["-x", "c++"], timeout=60)
        if r.rc or r.timeout:
            raise GenFail("generate", explain("generate", r), files)
        for p in ("easyMock_%s.cpp" % h.name, "easyMock_%s.h" % h.name):
            if not os.path.exists(os.path.join(d, p)):
                raise GenFail("generate", "no %s was written\n" % p + explain("generate", r), files)
            files[p] = open(os.path.join(d, p)).read()
        mk, calls, exps = a.emit()
        n = h.name
        open(os.path.join(d, "mk_%s.h" % n), "w").write(mk)
        open(os.path.join(d, "call_%s.cpp" % n), "w").write('#include "%s"\n#include "mk_%s.h"\n%s\n' % (name, n, calls))
        open(os.path.join(d, "exp_%s.cpp" % n), "w").write('#include "easyMock_%s.h"\n#include "mk_%s.h"\n%s\n' % (n, n, exps))
        r = run2([cxx] + flags + [os.path.join(d, "call_%s.cpp" % n), "-o", os.path.join(d, "call_%s.o" % n)], timeout=300)
        if r.rc:
            raise HarnessError("harness call adapter does not compile\n" + explain("c++", r))
        cc(flags + [os.path.join(d, "easyMock_%s.cpp" % n), "-o", os.path.join(d, "mock_%s.o" % n)], "compile-mock", files, compiler=cxx)
        cc(flags + [os.path.join(d, "exp_%s.cpp" % n), "-o", os.path.join(d, "exp_%s.o" % n)], "compile-user-of-mock", files, compiler=cxx)
        return files

    def guarded(a):
        try:
            return one(a)
        except (GenFail, HarnessError) as ex:
            return ex
    res = pmap(guarded, adapters, jobs)
    for kind in (HarnessError, GenFail):
        for x in res:
            if isinstance(x, kind):
                raise x
    files = {}
    for x in res:
        files.update(x)
    cflags = ["-std=gnu11"] + base_flags + (["-DHX_DL"] if dl else [])
    if dl:
        metas = mocks.shared(adapters, dl, d, fwdir, san_, files, cxx)
    else:
        metas = [m for a in adapters for m in a.meta]
        open(os.path.join(d, "hx_table.c"), "w").write(adapt.table(adapters))
    cc(cflags + [os.path.join(d, "hx_table.c"), "-o", os.path.join(d, "hx_table.o")], "harness-table", files, compiler=comp)
    r = run2([comp] + cflags + [os.path.join(HX, "hx_main.c"), "-o", os.path.join(d, "hx_main.o")])
    if r.rc:
        raise HarnessError(explain("driver", r))
    r = run2([cxx] + flags + [os.path.join(HX, "hx_cpp.cpp"), "-o", os.path.join(d, "hx_cpp.o")])
    if r.rc:
        raise HarnessError(explain("driver", r))
    objs = [os.path.join(d, x) for x in ["hx_table.o", "hx_main.o", "hx_cpp.o"]]
    for a in [] if dl else adapters:
        objs += [os.path.join(d, "%s_%s.o" % (k, a.h.name)) for k in ("call", "exp", "mock")]
    exe = os.path.join(d, "hx")
    cc(list(san_) + objs + ["-o", exe, "-L" + fwdir, "-lEasyMockFramework", "-Wl,-rpath," + fwdir] + (["-rdynamic", "-ldl"] if dl else []), "link", files, compiler=cxx)
    return exe, metas, files
