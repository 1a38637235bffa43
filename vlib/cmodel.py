"""A small model of C declarations: random headers in the supported subset, and the facts the oracles need
(declaration text, leaves, natural matchers, output parameters).  Nothing here reads the code under test."""


class Ty:
    kind = "?"

    def res(self):
        return self

    def text(self):
        return self.decl("").strip()

    def decl(self, d):
        raise NotImplementedError

    def tags(self, out):
        pass


class Scalar(Ty):
    kind = "scalar"

    def __init__(self, c, leaf, bits, signed, cmp):
        self.c, self.leaf, self.bits, self.signed, self.cmp = c, leaf, bits, signed, cmp

    def decl(self, d):
        return "%s %s" % (self.c, d)


VOID = Scalar("void", "void", 0, False, None)
CHAR = Scalar("char", "int", 8, True, "char")
UCHAR = Scalar("unsigned char", "int", 8, False, "u_char")
SHORT = Scalar("short", "int", 16, True, "short")
USHORT = Scalar("unsigned short", "int", 16, False, "u_short")
INT = Scalar("int", "int", 32, True, "int")
UINT = Scalar("unsigned int", "int", 32, False, "u_int")
LONG = Scalar("long", "int", 64, True, "long")
ULONG = Scalar("unsigned long", "int", 64, False, "u_long")
LLONG = Scalar("long long", "int", 64, True, "long_long")
ULLONG = Scalar("unsigned long long", "int", 64, False, "u_long_long")
FLOAT = Scalar("float", "float", 32, True, "float")
DOUBLE = Scalar("double", "float", 64, True, "double")
LDOUBLE = Scalar("long double", "float", 80, True, "long_double")
I128 = Scalar("__int128", "i128", 128, True, "int128")
U128 = Scalar("unsigned __int128", "i128", 128, False, "uint128")
BOOL = Scalar("bool", "bool", 1, False, None)
SCALARS = [CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG, FLOAT, DOUBLE, LDOUBLE]


class Typedef(Ty):
    kind = "typedef"

    def __init__(self, name, target):
        self.name, self.target = name, target

    def res(self):
        return self.target.res()

    def decl(self, d):
        return "%s %s" % (self.name, d)

    def define(self):
        return "typedef %s;" % self.target.decl(self.name).strip()


class Enum(Ty):
    kind = "enum"

    def __init__(self, tag, items, tdname=None, kw=True):
        # items: [(name, value-or-None)]
        self.tag, self.items, self.tdname = tag, items, tdname
        self.kw = kw

    def decl(self, d):
        if self.tdname:
            return "%s %s" % (self.tdname, d)
        return "%s%s %s" % ("enum " if self.kw else "", self.tag, d)

    def body(self):
        return "enum %s { %s }" % (self.tag or "", ", ".join(n if v is None else "%s = %s" % (n, v) for n, v in self.items))

    def define(self):
        if self.tdname:
            return "typedef %s %s;" % (self.body(), self.tdname)
        return self.body() + ";"


class Ptr(Ty):
    kind = "ptr"

    def __init__(self, to, const=False, restrict=False):
        self.to, self.const, self.restrict = to, const, restrict  # const: the pointee is const

    def decl(self, d, selfconst=False):
        q = ("const " if selfconst else "") + ("restrict " if self.restrict and d else "")
        inner = "*%s%s" % (q, d)
        if isinstance(self.to, Arr):
            inner = "(%s)" % inner
        if not self.const:
            return self.to.decl(inner)
        if isinstance(self.to, Ptr):
            return self.to.decl(inner, True)
        return "const " + self.to.decl(inner)


class Arr(Ty):
    kind = "arr"

    def __init__(self, el, n):
        self.el, self.n = el, n

    def decl(self, d):
        return self.el.decl("%s[%s]" % (d, "" if self.n is None else self.n))


class FnPtr(Ty):
    kind = "fnptr"

    def __init__(self, ret, params):
        self.ret, self.params = ret, params

    def decl(self, d):
        return self.ret.decl("(*%s)(%s)" % (d, ", ".join(p.text() for p in self.params) or "void"))


class Field:
    def __init__(self, name, ty, bits=None):
        self.name, self.ty, self.bits = name, ty, bits


class Rec(Ty):
    """struct or union"""
    kind = "rec"

    def __init__(self, tag, fields, union=False, tdname=None, attr="", incomplete=False, opaque=None, kw=True):
        self.tag, self.fields, self.union, self.tdname, self.attr = tag, fields, union, tdname, attr
        self.incomplete = incomplete
        self.kw = kw   # False in C++ headers: refer without struct/union keyword

    @property
    def kwd(self):
        return "union" if self.union else "struct"

    def decl(self, d):
        if self.tdname and not self.tag:
            return "%s %s" % (self.tdname, d)
        if not self.kw:
            return "%s %s" % (self.tag, d)
        return "%s %s %s" % (self.kwd, self.tag, d)

    def body(self, ind="  "):
        s = "%s %s%s{\n" % (self.kwd, (self.attr + " ") if self.attr else "", (self.tag + " ") if self.tag else "")
        for f in self.fields:
            s += ind + field_decl(f, ind) + "\n"
        return s + ind[2:] + "}"

    def define(self):
        if self.incomplete:
            return "%s %s;" % (self.kwd, self.tag)
        if self.tdname:
            return "typedef %s %s;" % (self.body(), self.tdname)
        return self.body() + ";"

    def cmpname(self):
        return "%s_%s" % (self.kwd, self.tag) if self.tag else self.tdname


def field_decl(f, ind):
    if isinstance(f.ty, Rec) and not f.ty.tag and not f.ty.tdname:  # anonymous, in place
        return "%s %s;" % (f.ty.body(ind + "  "), f.name or "")
    if isinstance(f.ty, Rec) and getattr(f.ty, "inplace", False):
        return "%s %s;" % (f.ty.body(ind + "  "), f.name or "")
    if isinstance(f.ty, Arr) and isinstance(f.ty.el, Rec) and not f.ty.el.tag and not f.ty.el.tdname:
        return "%s %s[%d];" % (f.ty.el.body(ind + "  "), f.name, f.ty.n)
    if f.bits is not None:
        return "%s : %d;" % (f.ty.decl(f.name or "").strip(), f.bits)
    return "%s;" % f.ty.decl(f.name)


class Func:
    def __init__(self, name, ret, params, variadic=False, pre="", post=""):
        # params: [(name or None, Ty)]
        self.name, self.ret, self.params, self.variadic, self.pre, self.post = name, ret, params, variadic, pre, post
        self.eligible = True
        self.body = None

    def proto(self, named=True):
        ps = [t.decl(n or "").strip() if named else t.text() for n, t in self.params]
        if self.variadic:
            ps.append("...")
        return "%s" % self.ret.decl("%s(%s)" % (self.name, ", ".join(ps) or "void")).strip()

    def decl(self):
        s = self.pre + (" " if self.pre else "") + self.proto() + ((" " + self.post) if self.post else "")
        return s + (self.body if self.body else ";")


def most_pointed(t):
    t = t.res()
    const = False
    while t.kind == "ptr" or t.kind == "arr":
        if t.kind == "ptr":
            const = t.const
            t = t.to
        else:
            t = t.el
        t = t.res()
    return t, const


def is_out(t):
    """does the function have an output slot for a parameter of this type?"""
    r = t.res()
    if r.kind not in ("ptr", "arr") or t.kind == "typedef":   # a typedef hiding the pointer: no slot (left unspecified)
        return False
    mp, const = most_pointed(t)
    return not const and mp.kind != "fnptr" and mp is not VALIST


def is_sized(t):
    mp, _ = most_pointed(t)
    return mp is VOID or (mp.kind == "rec" and mp.incomplete)


VALIST = Scalar("va_list", "valist", 0, False, None)


class Header:
    def __init__(self, name):
        self.name = name            # base name without .h
        self.items = []             # text chunks / definitions, in order
        self.funcs = []             # eligible functions to drive
        self.other = []             # functions which must not be mocked
        self.types = []             # records/enums/typedefs defined here
        self.pre = ""

    def text(self):
        g = "HDR_%s_H" % "".join(c if c.isalnum() else "_" for c in self.name).upper()
        return "#ifndef %s\n#define %s\n%s\n%s\n#endif\n" % (g, g, self.pre, "\n".join(
            i if isinstance(i, str) else (i.define() if hasattr(i, "define") else i.decl()) for i in self.items))


# ------------------------------------------------------------------ leaves
class Leaf:
    def __init__(self, expr, ty, kind, bits, bf=None):
        self.expr, self.ty, self.kind, self.bits, self.bf = expr, ty, kind, bits, bf


def leaves(t, expr, out, field=None, path=()):
    """all scalar leaves below an lvalue expression; unions contribute their widest integer member"""
    r = t.res()
    if r.kind == "scalar":
        out.append(Leaf(expr, t, r.leaf, r.bits, field))
    elif r.kind == "enum":
        out.append(Leaf(expr, t, "enum", 32, field))
    elif r.kind == "ptr":
        out.append(Leaf(expr, t, "ptr", 64))
    elif r.kind == "fnptr":
        out.append(Leaf(expr, t, "fptr", 64))
    elif r.kind == "arr":
        if r.n:
            for i in range(r.n):
                leaves(r.el, "%s[%d]" % (expr, i), out)
    elif r.kind == "rec":
        if r.union:
            leaves_union(r, expr, out)
        else:
            for f in r.fields:
                if f.bits is not None and not f.name:
                    continue
                leaves(f.ty, ("%s.%s" % (expr, f.name)) if f.name else expr, out, f if f.bits is not None else None)
    return out


def size_bits(t):
    r = t.res()
    if r.kind == "scalar":
        return {"i128": 128}.get(r.leaf, 8 if r.leaf == "bool" else r.bits)
    if r.kind == "enum":
        return 32
    if r.kind in ("ptr", "fnptr"):
        return 64
    if r.kind == "arr":
        return (r.n or 0) * size_bits(r.el)
    if r.kind == "rec":
        bs = [size_bits(f.ty) for f in r.fields]
        return (max(bs) if r.union else sum(bs)) if bs else 0
    return 0


def leaves_union(r, expr, out):
    best = max(r.fields, key=lambda f: size_bits(f.ty))
    leaves(best.ty, "%s.%s" % (expr, best.name), out)


def unions_in(t, expr, out):
    r = t.res()
    if r.kind == "arr" and r.n:
        for i in range(r.n):
            unions_in(r.el, "%s[%d]" % (expr, i), out)
    elif r.kind == "rec":
        if r.union:
            out.append(expr)
        else:
            for f in r.fields:
                if f.name:
                    unions_in(f.ty, "%s.%s" % (expr, f.name), out)
                elif f.bits is None and f.ty.res().kind == "rec":
                    if f.ty.res().union:
                        # anonymous union: clear through its widest member
                        b = max(f.ty.res().fields, key=lambda x: size_bits(x.ty))
                        out.append("%s.%s" % (expr, b.name))
                    else:
                        unions_in(f.ty, expr, out)
    return out
