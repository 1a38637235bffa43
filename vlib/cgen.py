"""Random C headers inside the documented/supported subset."""
from .cmodel import *

PN = ["a", "b", "c", "ptr", "len", "size", "buf", "data", "ctx", "name", "idx", "cb", "out", "in", "flags", "value", "val", "x", "y",
      "key", "count", "state", "str", "p1", "p2", "error", "res", "result", "f", "i", "n", "call", "param", "instance", "rv", "fmt",
      "type", "self", "dst", "src", "mock", "match", "expected", "actual", "match_a", "returnValue"]
FN = ["get", "set", "open", "close", "read", "write", "init", "reset", "update", "send", "recv", "foo", "bar", "find", "add", "del", "poll"]
MN = ["m", "id", "k", "v", "next", "prev", "cnt", "mode", "flag", "w", "h", "lo", "hi", "tag", "r", "g", "bb", "alpha", "off", "len_", "cap", "pos", "kind", "hook", "raw"]


class Gen:
    def __init__(self, rng, name, nfuncs=8, rt=True, i128=True, ntypes=None, rich=True, maxp=7, unnamed=True, uniq=None, lam=0.45, namelen=0, shared=False):
        self.lam, self.namelen, self.shared = lam, namelen, shared
        self.joins, self.tags, self.names = [], [], []
        self.r, self.name, self.nf = rng, name, nfuncs
        self.h = Header(name)
        self.h.pre = "#include <stdbool.h>\n"
        self.n = 0
        self.recs, self.enums, self.tds, self.fwd = [], [], [], []
        self.nt = ntypes if ntypes is not None else rng.randint(3, 8)
        self.i128, self.rich, self.maxp, self.unnamed = i128, rich, maxp, unnamed
        self.u = uniq or name

    def nm(self, p):
        self.n += 1
        return "%s_%s%d" % (p, self.u, self.n)

    def tag(self, p):
        """a tag: new, one which reads like the names of another type joined, or (not for C++) the name of a typedef"""
        x = self.r.random()
        if x < 0.3 and self.joins:
            t = self.joins.pop()
        elif x < 0.45 and self.shared and [n for n in self.names if n not in self.tags]:
            t = self.pick([n for n in self.names if n not in self.tags])
        else:
            t = self.nm(p)
        self.tags.append(t)
        return t

    def tdn(self, p, tag=None):
        """the name of a typedef; that of its own tag, or (not for C++) of another one"""
        x = self.r.random()
        if tag and x < 0.2 and tag not in self.names:
            t = tag
        elif tag and x < 0.45:
            t = self.nm(p) + "_"
            self.joins.append(tag + "_" + t[:-1])
        elif self.shared and x > 0.85 and [n for n in self.tags if n not in self.names]:
            t = self.pick([n for n in self.tags if n not in self.names])
        else:
            t = self.nm(p)
        self.names.append(t)
        return t

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    # ---- types
    def scalar(self):
        x = self.r.random()
        if x < 0.08:
            return BOOL
        if x < 0.14 and self.i128:
            return self.pick([I128, U128])
        return self.pick(SCALARS)

    def fnptr(self):
        ret = self.pick([VOID, INT, CHAR, Ptr(VOID), ULONG])
        return FnPtr(ret, [self.pick([INT, CHAR, Ptr(INT), Ptr(CHAR, True), DOUBLE, UCHAR, Ptr(VOID)]) for _ in range(self.r.randint(0, 3))])

    def field_ty(self, depth=0):
        x = self.r.random()
        if x < 0.40:
            return self.scalar()
        if x < 0.50 and self.enums:
            return self.pick(self.enums)
        if x < 0.60:
            return Ptr(self.pick([INT, CHAR, VOID, UCHAR, DOUBLE] + self.recs), self.r.random() < 0.3)
        if x < 0.66:
            return Arr(self.pick([CHAR, INT, UCHAR, SHORT, ULONG]), self.r.randint(1, 4))
        if x < 0.70 and self.tds:
            return self.pick(self.tds)
        if x < 0.76:
            return self.fnptr()
        if x < 0.92 and self.recs:
            c = [q for q in self.recs if len(leaves(q, "x", [])) <= 12]
            k = [q for q in c if self.packed_inside(q)]
            if depth and k and self.r.random() < 0.6:
                c = k
            if c:
                t = self.pick(c)
                return Arr(t, self.r.randint(1, 2)) if self.r.random() < 0.25 and len(leaves(t, "x", [])) <= 6 else t
        return self.scalar()

    def union_fields(self, suf=""):
        ts = self.r.sample([CHAR, UCHAR, SHORT, INT, UINT, LONG, ULLONG, Arr(UCHAR, 4), Arr(INT, 2)], self.r.randint(2, 4))
        return [Field("u%d%s" % (i, suf), t) for i, t in enumerate(ts)]

    def fields(self, depth=0, suf=""):
        out = []
        names = self.r.sample(MN, len(MN))
        n = self.r.randint(1, 6)
        for i in range(n):
            x = self.r.random()
            nm = names[i] + suf
            if x < 0.14:
                k = self.r.randint(1, 3)
                for j in range(k):
                    td = [q for q in self.tds if q.res().kind == "scalar" and q.res().leaf == "int"]
                    t = self.pick([INT, UINT, UCHAR, USHORT, ULONG, LLONG, CHAR, SHORT] + self.enums[:1] + td[:2])
                    bits = 32 if t.res().kind == "enum" else t.res().bits
                    out.append(Field(nm + str(j), t, self.r.choice([1, bits, self.r.randint(1, min(bits, 17)), self.r.randint(1, bits)])))
                if self.r.random() < 0.5:      # unnamed: padding bits, or none: what follows starts a new unit
                    t = self.pick([INT, INT, UCHAR, SHORT, ULONG, UINT])
                    out.insert(len(out) - self.r.randint(0, k - 1), Field(None, t, self.r.choice([0, 0, 3, min(9, t.res().bits)])))
            elif x < 0.20 and depth < 2 and self.rich:
                out.append(Field(nm, Rec(None, self.fields(depth + 1, "_" + self.u))))
            elif x < 0.24 and depth < 2 and self.rich:
                out.append(Field(nm, Rec(None, self.union_fields("_" + self.u), union=True)))
            elif x < 0.27 and depth < 2 and self.rich:
                # C11 anonymous member
                inner = Rec(None, [Field(f.name and nm + "_" + f.name, f.ty, f.bits) for f in self.fields(2, suf or "_" + self.u)])
                out.append(Field(None, inner))
            elif x < 0.29 and depth < 2 and self.rich:
                inner = Rec(None, [Field(f.name and nm + "_" + f.name, f.ty, f.bits) for f in self.union_fields(suf or "_" + self.u)], union=True)
                out.append(Field(None, inner))
            else:
                out.append(Field(nm, self.field_ty(depth)))
        return out

    def packed_inside(self, t):
        r = t.res()
        if r.kind == "arr":
            return self.packed_inside(r.el)
        return r.kind == "rec" and (bool(r.attr) or any(self.packed_inside(f.ty) for f in r.fields))

    def has_rec(self, t):
        r = t.res()
        return r.kind == "rec" or (r.kind == "arr" and self.has_rec(r.el))

    def rec(self):
        x = self.r.random()
        if x < 0.18:
            t = Rec(self.tag("un"), self.union_fields(), union=True)
        elif x < 0.24:
            t = Rec(None, self.union_fields(), union=True, tdname=self.tdn("tun"))
        elif x < 0.60:
            tag = self.tag("st")
            fs = self.fields()
            t = Rec(tag, fs)
            if self.r.random() < 0.25:
                fs.append(Field("self_", Ptr(t)))
            if self.r.random() < 0.3 and not any(self.has_rec(f.ty) for f in fs):
                t.attr = "__attribute__((packed))"
        elif x < 0.82:
            t = Rec(None, self.fields(), tdname=self.tdn("tst"))
        else:
            tag = self.tag("st")
            t = Rec(tag, self.fields(), tdname=self.tdn("tst", tag))
        if len(leaves(t, "x", [])) > 60:
            return
        self.recs.append(t)
        self.h.items.append(t)
        self.h.types.append(t)
        if t.tag and t.tdname:
            self.tds.append(Typedef(t.tdname, t))      # its other name

    def enum(self):
        k = self.r.randint(1, 6)
        items, v = [], 0
        p = self.nm("E").upper()
        for i in range(k):
            if self.r.random() < 0.4:
                v += self.r.randint(1, 1000)
                items.append(("%s_%d" % (p, i), v))
            else:
                items.append(("%s_%d" % (p, i), None))
            v += 1
        e = Enum(self.tag("en"), items) if self.r.random() < 0.6 else Enum(None, items, tdname=self.tdn("ten"))
        self.enums.append(e)
        self.h.items.append(e)
        self.h.types.append(e)

    def typedef(self):
        x = self.r.random()
        base = self.pick(SCALARS + ([BOOL])) if x < 0.5 or not self.recs else self.pick(self.recs) if x < 0.7 else \
            Ptr(self.pick([INT, CHAR] + self.recs)) if x < 0.85 else self.fnptr()
        t = Typedef(self.tdn("td", base.tag if base.kind == "rec" else None), base)
        self.tds.append(t)
        self.h.items.append(t)
        self.h.types.append(t)

    def forward(self):
        t = Rec(self.nm("fw"), [], incomplete=True)
        t.union = self.r.random() < 0.2
        self.h.items.append(t)
        if self.r.random() < 0.5:
            t = Typedef(self.nm("tfw"), t)
            self.h.items.append(t)
        self.fwd.append(t)

    # ---- functions
    def param_ty(self, ret=False):
        x = self.r.random()
        if x < 0.30:
            t = self.scalar()
        elif x < 0.38 and self.enums:
            t = self.pick(self.enums)
        elif x < 0.46 and self.tds:
            t = self.pick(self.tds)
        elif x < 0.58 and self.recs:
            t = self.pick(self.recs)
        elif x < 0.63:
            t = self.fnptr() if not ret else self.scalar()
        elif x < 0.68:
            t = Ptr(VOID, self.r.random() < 0.4)
        elif x < 0.72 and self.fwd:
            t = Ptr(self.pick(self.fwd), self.r.random() < 0.3)
        elif x < 0.76:
            t = Ptr(Ptr(self.pick([INT, CHAR, UCHAR, VOID] + self.recs), self.r.random() < 0.3))
        elif x < 0.81 and not ret:
            t = Arr(self.pick([CHAR, INT, UCHAR, DOUBLE] + self.recs[:2]), self.pick([None, 1, 3, 4]))
        else:
            t = Ptr(self.pick([s for s in SCALARS] + self.enums + self.recs * 2), self.r.random() < 0.35)
            if self.r.random() < 0.06 and not ret:
                t.restrict = True
        return t

    def func(self, k):
        name = "%s_%s" % (self.pick(FN), self.u)
        if any(f.name == name for f in self.h.funcs):
            name = "%s%d" % (name, k) if self.r.random() < 0.5 else "%s_%d" % (name, k)
        if self.namelen:
            name = "%s%s_%d" % ("long_name_" * (self.namelen // 10), self.u, k)
        np = min(self.maxp, int(self.r.expovariate(self.lam)))
        names = self.r.sample(PN, np)
        ps = []
        for i in range(np):
            ps.append((None if self.unnamed and self.r.random() < 0.06 else names[i], self.param_ty()))
        ret = VOID if self.r.random() < 0.2 else self.param_ty(ret=True)
        f = Func(name, ret, ps)
        if np and self.r.random() < 0.07:
            f.variadic = True
        self.h.items.append(f)
        self.h.funcs.append(f)

    def go(self):
        for _ in range(self.nt):
            x = self.r.random()
            if x < 0.2:
                self.enum()
            elif x < 0.8:
                self.rec()
            elif x < 0.92:
                self.typedef()
            else:
                self.forward()
        for k in range(self.nf):
            self.func(k)
        return self.h
