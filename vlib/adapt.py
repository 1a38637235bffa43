"""Generates the C adapters (make values, compare values, record an expectation, make a call) for a modelled header."""
import re
from .cmodel import *



def leaf_assign(l, i, n, enums=None):
    e = l.expr
    if l.kind == "int":
        if l.bf is not None:
            return "%s = (%s)hx_v(s,%d,%d,%d);" % (e, l.ty.text(), i, n, l.bf.bits)
        return "%s = (%s)hx_v(s,%d,%d,%d);" % (e, l.ty.text(), i, n, l.bits)
    if l.kind == "bool":
        return "%s = (hx_h(s,%d) + hx_d(s,%d,%d)) & 1;" % (e, i, i, n)
    if l.kind == "enum":
        en = l.ty.res()
        return "{ static const %s k[] = {%s}; %s = k[(hx_h(s,%d) + hx_d(s,%d,%d)) %% %d]; }" % (
            en.text(), ", ".join(getattr(en, "scope", "") + nm for nm, _ in en.items), e, i, i, n, len(en.items))
    if l.kind == "float":
        return "%s = (%s)hx_f(s,%d,%d);" % (e, l.ty.text(), i, n)
    if l.kind == "i128":
        return "%s = (%s)hx_w(s,%d,%d);" % (e, l.ty.text(), i, n)
    if l.kind == "ptr":
        return "%s = (%s)hx_p(s,%d,%d);" % (e, l.ty.text(), i, n)
    if l.kind == "fptr":
        return "%s = (%s)hx_fp(s,%d,%d);" % (e, l.ty.text(), i, n)
    raise ValueError(l.kind)


def zero_size(t):
    return not leaves(t, "x", [])


class Adapter:
    """One header.  Emits text for mk_<h>.h, exp_<h>.c and call_<h>.c"""

    def __init__(self, hdr, base, comparators=None, cpp=False):
        # comparators: the names the generated header declares, None when they are not to be used
        self.h, self.base, self.comparators, self.cpp = hdr, base, comparators, cpp
        self.missing = []
        self.ids = {}
        self.mk = []
        self.meta = []      # per function: dict for the Python model

    def tid(self, t):
        key = t.text()
        if key in self.ids:
            return self.ids[key]
        k = self.ids[key] = len(self.ids)
        T = t.text()
        pre = "%s_%d" % (san(self.h.name), k)
        ls = leaves(t, "(*p)", [])
        o = ["typedef %s;" % t.decl("T_%s" % pre).strip() if not isinstance(t, Scalar) else "typedef %s T_%s;" % (T, pre)]
        o.append("static inline void mk_%s(T_%s *p, uint32_t s) { (void)s; memset((void*)p, hx_pad, sizeof *p);" % (pre, pre))
        for u in unions_in(t, "(*p)", []):
            o.append("  memset((void*)&%s, 0, sizeof %s);" % (u, u))
        for i, l in enumerate(ls):
            o.append("  " + leaf_assign(l, i, len(ls)))
        o.append("}")
        o.append("static inline int eq_%s(const T_%s *a, const T_%s *b) { (void)a; (void)b; return 1" % (pre, pre, pre))
        for l in ls:
            ea, eb = l.expr.replace("(*p)", "(*a)"), l.expr.replace("(*p)", "(*b)")
            o.append("    && %s == %s" % (ea, eb))
        o.append("; }")
        o.append("static inline void vmk_%s(void *p, uint32_t s) { mk_%s((T_%s *)p, s); }" % (pre, pre, pre))
        o.append("static inline int veq_%s(const void *a, const void *b) { T_%s x, y; memcpy((void*)&x, a, sizeof x); memcpy((void*)&y, b, sizeof y); return eq_%s(&x, &y); }" % (pre, pre, pre))
        self.mk.append("\n".join(o))
        return k

    def T(self, t):
        return "%s_%d" % (san(self.h.name), self.tid(t))

    # -- matchers -------------------------------------------------------
    def matchers(self, t):
        """[(kind, C expression)], kinds: v value compare, d pointee compare, s string compare"""
        r = t.res()
        out = []
        if r.kind == "scalar" and r.cmp:
            out.append(("v", "cmp_" + r.cmp))
        elif r.kind == "enum":
            out.append(("v", "cmp_int"))
        elif r.kind in ("ptr", "arr"):
            out.append(("v", "cmp_pointer"))
            el = (r.to if r.kind == "ptr" else r.el).res()
            if el.kind == "scalar" and el.cmp and el.leaf != "void":
                if "128" not in el.cmp:
                    out.append(("d", "cmp_deref_ptr_" + el.cmp))
            if el.kind == "rec" and not el.incomplete and not zero_size(el):
                out += [("d", c) for c in self.comparator(el, "cmp_deref_ptr_")]
        elif r.kind == "fnptr":
            out.append(("v", "cmp_pointer"))
        elif r.kind == "rec" and not zero_size(r):
            out += [("v", c) for c in self.comparator(r, "cmp_")]
        return out

    def comparator(self, rec, prefix):
        """the generated comparator of a record, under whichever of the type's own names the generator picked"""
        if self.comparators is None:
            return []
        names = set()
        if rec.tag:
            names.add("%s_%s" % (rec.kwd, rec.tag))
        if rec.tdname:
            names.add(rec.tdname)
        names |= {t.name for t in self.h.types if t.kind == "typedef" and t.res() is rec}
        found = [c for c in self.comparators if c.startswith(prefix) and re.sub(r"^_+", "", c[len(prefix):]) in names]
        if not found:
            self.missing.append("%s* of %s (looked for %s)" % (prefix, rec.text(), ", ".join(sorted(names))))
        return found[:1]

    def emit(self):
        calls, exps, tab = [], [], []
        for k, f in enumerate(self.h.funcs):
            self.func(self.base + k, f, calls, exps)
        names = sorted({m for f in self.meta for p in f["params"] for _, m in p["matchers"] if m})
        scal = {t.cmp for t in SCALARS + [I128, U128]}
        pre = []
        for m in names:    # easyMock.h leaves these to the user to declare
            if m.startswith("cmp_deref_ptr_") and m[14:] in scal:
                pre.append("DECLARE_DEREF_PTR_MATCHER(%s);" % m[14:])
            elif m in ("cmp_int128", "cmp_uint128"):
                pre.append("DECLARE_MATCHER(%s);" % m[4:])
        exps = pre + exps
        mk = ["#ifndef MK_%s" % san(self.h.name), "#define MK_%s" % san(self.h.name), '#include "hx.h"'] + self.mk + ["#endif"]
        return "\n".join(mk), "\n".join(calls), "\n".join(exps)

    def func(self, gid, f, calls, exps):
        n = f.name
        np = len(f.params)
        meta = {"name": n, "np": np, "params": [], "ret": f.ret.res() is not VOID, "gid": gid, "header": self.h.name}
        mkx, args, peq, pmk, deq, fills, post = [], [], [], [], [], [], []
        sup = []
        for i, (pn, t) in enumerate(f.params):
            r = t.res()
            pm = {"name": pn, "out": False, "sized": False, "matchers": [("n", None), ("p", None), ("f", None), ("e", None)]}
            if pn is None:
                pm["matchers"] = [("n", None), ("p", None), ("f", None)]
            pm["matchers"] += [(a, b) for a, b in self.matchers(t)]
            pid = "%s_%d" % (n, i)
            if r.kind in ("ptr", "arr"):
                el = r.to if r.kind == "ptr" else r.el
                cnt = 1 if r.kind == "ptr" else (r.n or 3)
                elr = el.res()
                bytes_ = elr is VOID or (elr.kind == "rec" and (elr.incomplete or zero_size(elr)))
                out = is_out(t) and not (elr.kind == "rec" and not elr.incomplete and zero_size(elr))
                sized = is_sized(t)
                pm["out"], pm["sized"] = out, sized
                fillseed = "((%du + (idx == 3 ? 0 : idx)) << 16)" % (100 + 7 * i)
                if bytes_:
                    sup.append("static inline void *pool_%s(unsigned idx) { return hx_pool(%d,%d,idx,64); }" % (pid, gid, i))
                    sup.append("static inline void fill_%s(void) { unsigned idx; for(idx=0;idx<HX_NPOOL;idx++) hx_mkbytes(pool_%s(idx),64,%s); }" % (pid, pid, fillseed))
                    sup.append("static inline void fmk_%s(void *b, unsigned idx) { hx_mkbytes(b,64,%s); }" % (pid, fillseed))
                    esz = "64"
                    deq.append("0")
                else:
                    T = self.T(el)
                    sup.append("static inline T_%s *pool_%s(unsigned idx) { return (T_%s *)hx_pool(%d,%d,idx,sizeof(T_%s)*%d); }" % (T, pid, T, gid, i, T, cnt))
                    term = ""
                    if elr is CHAR or elr is UCHAR:
                        pass
                    sup.append("static inline void fmk_%s(T_%s *b, unsigned idx) { unsigned k; for(k=0;k<%d;k++) mk_%s(&b[k], %s + (k<<16)*977); }" % (pid, T, cnt, T, fillseed))
                    sup.append("static inline void fill_%s(void) { unsigned idx; for(idx=0;idx<HX_NPOOL;idx++) fmk_%s(pool_%s(idx), idx); }" % (pid, pid, pid))
                    deq.append("veq_%s" % T)
                fills.append("fill_%s();" % pid)
                ptxt = Ptr(el, getattr(r, "const", False)).text() if r.kind == "ptr" else Ptr(el).text()
                if r.kind == "ptr" and r.restrict:
                    ptxt = Ptr(el, r.const).text()
                mkx.append("%s = (%s)pool_%s(hx_idx(@->s[%d]));" % (Ptr(el, getattr(r, "const", False)).decl("a%d" % i), ptxt, pid, i))
                sup.append("static inline void ppmk_%s(void *b, uint32_t s) { *(void **)b = (void *)pool_%s(hx_idx(s)); }" % (pid, pid))
                sup.append("static inline int ppeq_%s(const void *a, const void *b) { return *(void *const *)a == *(void *const *)b; }" % pid)
                pmk.append("ppmk_" + pid)
                peq.append("ppeq_" + pid)
                # after the call
                if bytes_ or sized:
                    if bytes_:
                        sz = 64
                        post.append("{ unsigned idx; int ok = 1; for(idx=0;idx<HX_NPOOL;idx++) { unsigned char x[64]; fmk_%s(x, idx); if (c->e && c->e->useout && c->e->o[%d] && idx == hx_idx(c->s[%d])) { unsigned char y[64]; hx_mkbytes(y, 64, c->e->os[%d]); memcpy(x, y, c->e->os[%d] %% 65); } if (memcmp(x, pool_%s(idx), 64)) ok = 0; } o->out_ok[%d] = ok; }" % (pid, i, i, i, i, pid, i))
                        outdecl = "unsigned char *b%d = (unsigned char *)hx_outbuf(e->os[%d] %% 65); { unsigned char y[64]; hx_mkbytes(y,64,e->os[%d]); memcpy(b%d, y, e->os[%d] %% 65); }" % (i, i, i, i, i)
                        pm["outsize"] = "e->os[%d] %% 65" % i
                    else:   # pointer to pointer to void: an explicit size, up to one pointer
                        post.append("{ unsigned idx; int ok = 1; for(idx=0;idx<HX_NPOOL;idx++) { T_%s x[%d]; fmk_%s(x, idx); if (c->e && c->e->useout && c->e->o[%d] && idx == hx_idx(c->s[%d])) { mk_%s(x, c->e->os[%d]); } if (memcmp(x, pool_%s(idx), sizeof x)) ok = 0; } o->out_ok[%d] = ok; }" % (T, cnt, pid, i, i, T, i, pid, i))
                        outdecl = "T_%s *b%d = (T_%s *)hx_outbuf(sizeof *b%d); mk_%s(b%d, e->os[%d]);" % (T, i, T, i, T, i, i)
                        pm["outsize"] = "sizeof(T_%s)" % T
                else:
                    post.append("{ unsigned idx, k; int ok = 1; for(idx=0;idx<HX_NPOOL;idx++) { T_%s x[%d]; fmk_%s(x, idx); if (%d && c->e && c->e->useout && c->e->o[%d] && idx == hx_idx(c->s[%d])) mk_%s(&x[0], c->e->os[%d]); for(k=0;k<%d;k++) if (!eq_%s(&x[k], &pool_%s(idx)[k])) ok = 0; } o->out_ok[%d] = ok; }" % (T, cnt, pid, 1 if out else 0, i, i, T, i, cnt, T, pid, i))
                    outdecl = "T_%s *b%d = (T_%s *)hx_outbuf(sizeof *b%d); mk_%s(b%d, e->os[%d]);" % (T, i, T, i, T, i, i)
                pm["outdecl"] = outdecl if out else None
                pm["outcast"] = ptxt
            else:
                T = self.T(t)
                mkx.append("T_%s a%d; mk_%s(&a%d, @->s[%d]);" % (T, i, T, i, i))
                pmk.append("vmk_" + T)
                peq.append("veq_" + T)
                deq.append("0")
            args.append("a%d" % i)
            meta["params"].append(pm)
        self.mk.append("\n".join(sup))
        # call
        c = ["static void fill_all_%s(void) { %s }" % (n, " ".join(fills)),
             "static void call_%s(const struct hx_call *c, struct hx_obs *o) {" % n, "  (void)c; (void)o;"]
        for m in mkx:
            c.append("  " + m.replace("@", "c"))
        extra = ", 1, 2.0" if f.variadic else ""
        if meta["ret"]:
            R = self.T(f.ret)
            c.append("  T_%s r = %s(%s%s);" % (R, n, ", ".join(args), extra))
            c.append("  if (c->e) { T_%s x; mk_%s(&x, c->e->ret); o->ret_ok = eq_%s(&x, &r); }" % (R, R, R))
        else:
            c.append("  %s(%s%s);" % (n, ", ".join(args), extra))
        c += ["  " + p for p in post]
        c.append("}")
        P = "_%s" % n
        c.append("static const char *const pn%s[] = {%s};" % (P, ", ".join('"%s"' % p if p else "NULL" for p, _ in f.params) or "NULL"))
        c.append("static void (*const pm%s[])(void *, uint32_t) = {%s};" % (P, ", ".join(pmk) or "NULL"))
        c.append("static int (*const pe%s[])(const void *, const void *) = {%s};" % (P, ", ".join(peq) or "NULL"))
        c.append("static int (*const pd%s[])(const void *, const void *) = {%s};" % (P, ", ".join(deq) or "NULL"))
        c.append("void hxe_%s(const struct hx_exp *);" % n)
        c.append("const struct hx_fn hxf_%s = { \"%s\", %d, pn%s, hxe_%s, call_%s, pm%s, pe%s, pd%s, fill_all_%s };" % (n, n, np, P, n, n, P, P, P, n))
        calls.append("\n".join(c))
        # expect
        e = []
        for i, pm in enumerate(meta["params"]):
            base = {"n": "0", "p": "hx_pass", "f": "hx_fail", "e": "hx_eqv"}
            e.append("static const EasyMock_Matcher mt_%s_%d[] = {%s};" % (n, i, ", ".join(base.get(k) or x for k, x in pm["matchers"])))
        e.append("void hxe_%s(const struct hx_exp *e) {" % n)
        e.append("  (void)e;")
        for m in mkx:
            e.append("  " + m.replace("@", "e"))
        if meta["ret"]:
            e.append("  T_%s r; mk_%s(&r, e->ret);" % (R, R))
        ms = ["mt_%s_%d[e->m[%d]]" % (n, i, i) for i in range(np)]
        ret = ["r"] if meta["ret"] else []
        anyout = any(p["out"] for p in meta["params"])
        meta["anyout"] = anyout
        if anyout:
            oa = []
            e.append("  if (e->useout) {")
            for i, pm in enumerate(meta["params"]):
                if pm["out"]:
                    e.append("    " + pm["outdecl"])
                    oa.append("e->o[%d] ? (%s)(void *)b%d : NULL" % (i, pm["outcast"], i))
                    if pm["sized"]:
                        oa.append(pm["outsize"])
            e.append("    %s_ExpectReturnAndOutput(%s);" % (n, ", ".join(args + ret + ms + oa)))
            e.append("    return; }")
        e.append("  %s_ExpectAndReturn(%s);" % (n, ", ".join(args + ret + ms)))
        e.append("}")
        exps.append("\n".join(e))
        self.meta.append(meta)


def san(s):
    return "".join(c if c.isalnum() else "_" for c in s)


def table(adapters):
    names = [f.name for a in adapters for f in a.h.funcs]
    return "#include \"hx.h\"\n" + "\n".join("extern const struct hx_fn hxf_%s;" % n for n in names) + \
        "\nconst struct hx_fn *const hx_table[] = {%s};\nconst int hx_ntable = %d;\n" % (", ".join("&hxf_" + n for n in names), len(names))


def table_dl(libs):
    """libs: [(path of the shared object, [function names])]"""
    syms = [(n, k) for k, (_, ns) in enumerate(libs) for n in ns]
    return "#include <stddef.h>\nconst char *const hx_libs[] = {%s};\nconst int hx_nlibs = %d;\nconst char *const hx_syms[] = {%s, NULL};\nconst int hx_symlib[] = {%s};\n" % (
        ", ".join('"%s"' % p for p, _ in libs), len(libs), ", ".join('"hxf_%s"' % n for n, _ in syms), ", ".join(str(k) for _, k in syms))
