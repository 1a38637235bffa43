"""Headers nobody tests with: odd constructs, mutated and truncated headers, extreme sizes."""
import re
from . import cgen

C_PIECES = r'''
int f#(int v __attribute__((unused)), ...);
int (*f#(int a))(int, char);
int (*(*f#(void))[3])(int);
void f#(int (*cb)(int (*)(void), void (*)(char *)), void *ctx);
int f#();
int f#(a, b) int a; char *b; { return a + *b; }
typedef int v#_t __attribute__((vector_size(16))); v#_t f#(v#_t a, v#_t *b);
int f#(int n, int a[n]);
int f#(int n, int a[*]);
int f#(int a[static 4], int b[const], int c[restrict static const 2]);
int f#(int a[2][3][4], int (*b)[5], int *c[6]);
_Complex double f#(_Complex float a, double _Complex *b);
_Atomic int g#; int f#(_Atomic int a, _Atomic(int) *b, int *_Atomic c);
__float128 f#(__float128 a); _Float16 g#(_Float16 *b);
enum e#; enum e# { E#A = -1, E#B = 0x7fffffffffffffffLL, E#C = 'c', E#D = sizeof(long), E#E = E#A + 1 }; enum e# f#(enum e# a, enum e# *b);
enum { ONLY# } f#(void);
struct { int a; } f#(struct { int b; } *p);
struct s#; union u#; struct s# *f#(struct s# **a, const union u# *b, struct only_here# *c);
struct s# { unsigned : 0; int a : 1; const unsigned b : 7; _Bool c : 1; long long d : 64; enum { X# } e : 2; unsigned __int128 f : 100; }; int f#(struct s# *a, struct s# b);
struct s# { int n; struct s# *next; struct s# (*cb)(struct s# *); struct { struct s# *up; union { int i; float f; }; } in[3]; char tail[]; }; int f#(struct s# *a);
union u# { struct { char a, b; }; short c; union u# *d; } __attribute__((packed, aligned(8))); union u# f#(union u# a);
struct s# {}; union u# {}; int f#(struct s# a, struct s# *b, union u# c);
typedef struct s# s#; struct s# { s# *a; }; typedef s# *s#p; typedef const s#p s#cp; s#cp f#(s#cp a, s#p b, const s# *const volatile *restrict c);
typedef struct { int a; } t#, *t#p, t#a[3]; t# f#(t#p a, t#a b, const t# c);
typedef int fn#(int), *pfn#(char); fn# f#; pfn# g#; int h#(fn# a, pfn# *b, fn# **c);
typedef void v#; v# f#(v# *a); int g#(v#);
typedef const volatile int cv#; cv# f#(cv# a, volatile cv# *b);
__typeof__(int *) f#(__typeof__(sizeof(int)) a, __typeof__(*(char *)0) b);
extern int f#(int), g#(char), *h#(void), (*var#)(int);
extern int f#(int); extern int f#(int a); int f#(const int b); int (f#)(int); int ((f#))(int c);
static int f#(int a); static inline int g#(int a) { return a; } extern inline int h#(int); inline int i#(void);
_Noreturn void f#(int); __attribute__((noreturn)) void g#(void); void h#(void) __attribute__((__noreturn__));
void f#(const char *, ...) __attribute__((format(printf, 1, 2), nonnull)); void g#(char *s) __attribute__((nonnull(1), cold, deprecated("no, (really) \"not\"")));
int f#(int) __asm__("g#_asm"); int g#(int) __attribute__((alias("f#"))); int h#(int) __attribute__((weak, visibility("hidden"), section(".text.x,y")));
__attribute__((warning("a(b"))) int f#(int); __attribute__((error(")b"))) int g#(int); int h#(int) __attribute__((annotate("*+[^"), assume_aligned(4, 2), alloc_size(1)));
int f#(int a, int b) __attribute__((availability(macos, introduced=10.4, deprecated=10.6))); int g#(int) __attribute__((enable_if(1, "x")));
__attribute__((overloadable)) int f#(int); __attribute__((overloadable)) int f#(char *);
#define F#(x, ...) int x(__VA_ARGS__)
F#(f#, int a, char *b); F#(g#, void);
#define EMPTY#
#define DECL#(r, n) r EMPTY# n EMPTY# (
DECL#(int, f#) int a EMPTY#);
#define ATTR# __attribute__((deprecated("*a+b?[c]{d}|^$\\.")))
ATTR# int f#(int a); int g#(int a) ATTR#;
#define T# unsigned long /* ( */ int
T# f#(T# a, const T# *b, T# (*c)(T#));
#define PASTE#(a, b) a##b
#define STR#(a) #a
int PASTE#(f, #)(int PASTE#(pa, ram)); char PASTE#(g#, _x)[sizeof STR#(a "b" \ )];
#define VA#(...) __VA_ARGS__
VA#(int VA#(f#(int VA#(a), VA#(char) b)));
int\
 f#\
(in\
t a??/
);
int /* a */ f# /* b( */ ( /* ) */ int /* "x */ a // ' ; )
 , char b /* , int c */ );
int f#(int class, int new, int template, int this, int operator, int private);
int f#(int cmp_int, int easyMock_init, int malloc, int memcpy, int f#_ExpectAndReturn);
int f#(const char *s, int d = 0);
int f#(int a, int a);
int f#(undeclared# a, struct { undeclared2# b; } c);
int \u00e9f#(int \u00e8); int féé#(int àà, char *日本);
int $f#$(int $a); int f$#(struct s$# { int $x; } *p);
_Static_assert(sizeof(int) == 4, "int");
_Pragma("pack(push, 1)") struct s# { char a; int b; } ; _Pragma("pack(pop)") int f#(struct s# a);
#pragma GCC visibility push(hidden)
int f#(int);
#pragma GCC visibility pop
#pragma redefine_extname f# g#
#pragma weak f#
#line 1 "other file.h"
#line 4294967295
# 7 "x y.h" 1 3 4
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include_next <limits.h>
#include "x.h"
#include "missing#.h"
#if 0
#if __has_include(<stdio.h>) && defined(X)
#else
#endif
#ifdef __COUNTER__
#undef F#
#define __VA_OPT__# x
#define M#() nothing
#define M2#( a , b ... ) a b
#define M3#(...) #__VA_ARGS__
#define M4# "str" 'c' L"w" u8"x" 0x1p-3 @ ` \
#error stop #
#warning w #
#if __COUNTER__ < 150
#include __FILE__
#endif
int f#(va_list a, va_list *b, __builtin_va_list c);
int f#(wchar_t a, ptrdiff_t b, max_align_t *c);
int f#(int (*)[*], int (*a)(void)[3]);
int f#(void (^block)(int));
int f#(_Nonnull int *a, int *_Nullable b);
__extension__ int f#(__extension__ int a); __extension__ typedef long long ll#;
int f#(register int a, int b) __attribute__((regparm(1))) __attribute__((stdcall));
[[deprecated]] int f#(int a); [[gnu::cold, nodiscard("a(b")]] int g#(int [[maybe_unused]] a);
_BitInt(7) f#(_BitInt(129) a, unsigned _BitInt(3) *b);
int f#(int a) { int g(int b); return g(a); } int f2#(int);
int *f#(int *(*(*a)(int *(*)(int *)))(void))  ;
_Thread_local extern int tl#; extern int arr#[]; int x# = sizeof(int(*)(void)); 
struct s# { int (*a[2][3])(int); char b[2][3]; int (*c)[4]; struct s# *d[5]; volatile int e; const char *const f; int (*(*g)(void))[2]; } ; int f#(struct s# a, const struct s# *b);
struct s# { char a[0]; struct {} b; long double c; unsigned __int128 d; _Complex float e; } ; void f#(struct s# *a);
struct s# { _Alignas(64) char a; int b __attribute__((aligned(16), packed)); } f#(struct s# v);
typedef enum { V#_A, V#_B } __attribute__((packed)) ve#; ve# f#(ve# a, ve# *b);
typedef union __attribute__((transparent_union)) { int *a; char *b; } tu#; int f#(tu# a);
typedef __builtin_va_list my_va#; int f#(const char *a, my_va# b);
typedef struct u_s# *opaque#; opaque# f#(opaque# a, opaque# *b, const opaque# c);
typedef int arr#[4]; typedef arr# arr2#[2]; int f#(arr# a, arr2# b, const arr# *c); struct s# { arr# a; arr2# b; } ; int g#(struct s# a);
'''.strip("\n").split("\n")

CXX_PIECES = r'''
namespace n# { int f#(int a); namespace { int g#(); } inline namespace v1 { int h#(int *p); } namespace m { struct s { int a; }; s k#(s a, s &b, const s *c); } }
namespace a::b::c# { int f#(int a); } namespace z# = a::b::c#;
class c# { public: c#(); c#(const c# &); c#(c# &&) noexcept; ~c#(); int m(int a) const; virtual int v(char *b) = 0; static int s(int); int operator+(int) const; operator int() const; template<class T> T t(T a); private: int x; protected: int y() volatile &; };
struct s# : c# { using c#::m; int m(int) const override; int v(char *b) final; struct in { int q(in *); } i; };
class d# { public: int m(int a); int m(char a); int m(int a, int b = 3) const; void n() noexcept(true); auto o() -> int; friend int fr#(d# &); };
class e# { int p(e# *a, const e# &b, e# c); protected: void r(); public: enum k { A, B }; k s(k a); typedef int t; t u(t a); };
template<class T> T f#(T a); template<> int f#<int>(int a); template int f#<int>(int); extern template long f#<long>(long);
template<class T, int N = 3> struct t# { T a[N]; T m(T *b); }; int f#(t#<int> a, t#<char, 5> *b, const t#<t#<int>> &c);
template<class... T> int f#(T... a); template<template<class> class X> int g#(X<int> a);
int f#(int &a, const int &b, int &&c, int *&d, int (&e)[3], int (&&g)(int));
int f#(int a, int b = 3, const char *c = "x,)(");
int f#(int); int f#(char); int f#(int, int); int f#(const char *); int f#(double) noexcept;
enum class ec# : unsigned char { A, B = 7 }; ec# f#(ec# a, ec# *b, const ec# &c); enum ue# : long; int g#(ue#);
extern "C" { int f#(int a); namespace x# { int g#(int); } } extern "C++" int h#(int);
constexpr int f#(int a) { return a; } inline int g#(int a) { return a; } static int h#(int); consteval int i#() { return 1; }
auto f#(int a) -> decltype(a); decltype(auto) g#(); decltype(nullptr) h#(decltype(sizeof(0)) a); auto k#(auto a);
int f#(int c#::*a); int g#(int (c#::*a)(char) const); int h#(int (*&a)(int)); void k#(void (*a)(int) noexcept);
using t# = int (*)(int); t# f#(t# a); template<class T> using al# = T *; al#<int> g#(al#<char> a);
bool f#(bool a, wchar_t b, char16_t c, char32_t d, signed char e, unsigned char g, long double h, __int128 i);
struct s# { int a; union { int b; float c; }; int d : 3; mutable int e; static int f; int g = 4; bool operator==(const s# &) const; }; s# f#(s# a, s# *b, const s# &c);
union u# { int a; s# *b; u#(); ~u#(); int m(); }; u# &f#(u# &a);
int operator+(const struct op# &a, int b); struct op# { int a; }; bool operator==(const op# &, const op# &); void *operator new(decltype(sizeof(0)), op# *); int operator""_x#(unsigned long long);
struct [[nodiscard]] s# { }; [[noreturn]] void f#(int [[maybe_unused]] a); alignas(16) int g#(); [[deprecated("x)(")]] int h#(int);
int f#(const char *s, ...) __attribute__((format(printf, 1, 2))); static_assert(sizeof(int) == 4);
#include <string>
#include <vector>
#include <functional>
std::string f#(const std::string &a, std::vector<int> b, std::function<int(int)> c);
typedef struct { int a; } ts#; ts# f#(ts# *a); typedef class tc# { int m(int); } tcc#; int g#(tcc# a);
class f#; struct f2#; enum class f3#; int g#(f# *a, f2# &b, f3# c);
namespace std { int my#(int); } int f#(::std::nullptr_t a); int ::h#(int);
struct g# { struct { int a; int m(int); } b; class { public: int n(); } c; }; int f#(g# a);
int f#(int) requires true; template<class T> concept C# = true; int g#(C# auto a);
class lg# { public: int a(int) &; int b(int) &&; int c(int) const volatile; int d(int) throw(); explicit lg#(int = 3); lg# &operator=(const lg# &) = delete; void *operator new(unsigned long); int operator()(int, char); int operator[](int); lg# *operator->(); lg# &operator++(); lg# operator++(int); };
'''.strip("\n").split("\n")

VALUES = ["", "x", "f1", "EasyMock_all_comparators", "EasyMock_all_attributes", "struct s1", "s1", "t1", "nonnull", "format", "*", "(", "a" * 5000, "é", "-", "--", "f1,f2", " ", "\\", "%s%n", "cmp_int", "noreturn", "section"]
TOKEN = re.compile(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|\w+|\s+|.', re.S)


def expand(p, k):
    """a piece with its number: # is the number, except where it begins a directive or is an operator"""
    if p.startswith(("#define PASTE", "#define STR", "#define M3")):
        return re.sub(r"(PASTE|STR|M3)#", r"\g<1>" + k, p, 1)
    if p.startswith("#"):
        return p if p.startswith("# 7") else p[0] + p[1:].replace("#", k)
    return re.sub(r"(?<!#)#(?!#)", k, p)


def pieces(r, cxx, n):
    out = []
    for _ in range(n):
        p = r.choice(CXX_PIECES if cxx and r.random() < 0.75 else C_PIECES)
        out.append(expand(p, str(r.randint(1, 4) if r.random() < 0.5 else r.randint(1, 99))))
    return "\n".join(out) + "\n"


def garbage(r, text):
    x = r.randrange(5)
    if x == 0:
        return b""
    if x == 1:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 400)))
    b = bytearray(text.encode("utf-8", "surrogateescape"))
    if x == 2:
        return b"\xef\xbb\xbf" + bytes(b)
    if x == 3:
        return text.encode("utf-16")
    for _ in range(r.randint(1, 12)):
        if b:
            b[r.randrange(len(b))] = r.randrange(256)
    return bytes(b)


def mutate(r, text, other=""):
    toks = TOKEN.findall(text)
    pool = TOKEN.findall(other) or toks
    for _ in range(r.choice([1, 1, 2, 3, 8, 25])):
        if not toks:
            break
        i = r.randrange(len(toks))
        x = r.randrange(9)
        if x == 0:
            del toks[i:i + r.randint(1, 4)]
        elif x == 1:
            toks[i:i] = toks[i:i + r.randint(1, 6)]
        elif x == 2:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x == 3:
            toks[i] = r.choice(pool)
        elif x == 4:
            j = r.randrange(len(pool))
            toks[i:i] = pool[j:j + r.randint(1, 12)]
        elif x == 5:
            toks[i:i] = [r.choice(["const ", "volatile ", "*", "&", "(", ")", "[", "]", "{", "}", ",", ";", "...", "\n#", "\\\n", "\0", "\xff", "\r", "\t", "/*", "//", '"', "'", "##", "::", "<", ">", "=", "static ", "inline ", "typedef ", "extern ",
                                   "__attribute__((", "))", "unsigned ", "struct ", "enum ", "union ", " int ", "void", "_Atomic ", "__extension__ ", "0", "99999999999999999999", "operator", "template<class T> "])]
        elif x == 6:
            toks = toks[:i + 1]
        elif x == 7:
            toks[i] = toks[i] * r.choice([2, 3, 50])
        else:
            toks[i] = r.choice(["int", "char", "x1", "f1", "void", "1", " "])
    return "".join(toks)


def extreme(r):
    """large or deep, within what the compiler itself takes"""
    x = r.randrange(14)
    n = r.choice([20, 60, 120, 200])
    if x == 0:
        return "int f(int %sp);\n" % ("*" * n)
    if x == 1:
        return "int f(%s);\n" % ", ".join("int a%d" % i for i in range(n * 5))
    if x == 2:
        return "struct s { %s }; int f(struct s *p, struct s v);\n" % " ".join("int a%d;" % i for i in range(n * 5))
    if x == 3:
        return "".join("struct s%d { %s; };\n" % (i, "struct s%d a" % (i - 1) if i else "int a") for i in range(n)) + "int f(struct s%d *p, struct s0 q);\n" % (n - 1)
    if x == 4:
        return "struct s { " * min(n, 100) + "int a; " + " ".join("} b%d;" % i for i in range(min(n, 100) - 1)) + "}; int f(struct s *p);\n"
    if x == 5:
        return "int %s(int %s);\n" % ("f" * n * 100, "p" * n * 100)
    if x == 6:
        return "typedef int t0;\n" + "".join("typedef t%d %st%d;\n" % (i, r.choice(["", "", "*"]), i + 1) for i in range(n)) + "t%d f(t%d a, t%d *b);\n" % (n, n, n)
    if x == 7:
        return "enum e { %s }; int f(enum e a);\n" % ", ".join("E%d" % i for i in range(n * 20))
    if x == 8:
        return "#define A(x) x\n" + "int " + "A(" * n + "f" + ")" * n + "(int a);\n"
    if x == 9:
        return "".join("int f%d(int a, char *b);\n" % i for i in range(n * 3))
    if x == 10:
        return "int f(int a) __attribute__((deprecated(\"%s\")));\n#define M %s\n" % ("x(),;" * n * 20, "(1 + 2) * " * n * 20 + "1")
    if x == 11:
        return "int f(%sint a%s);\n" % ("/*" + "c" * n * 500 + "*/", " " * n * 500)
    if x == 12:
        return "union u { %s }; int f(union u a, union u *b);\n" % " ".join("struct { int a%d; char b%d[%d]; };" % (i, i, i + 1) for i in range(n))
    return "void f(" + "void (*a)(" * 30 + "int" + ")" * 30 + ");\n"


def header(r, k):
    """-> (text, c++?, what it is)"""
    cxx = r.random() < 0.3
    x = r.random()
    if x < 0.10:
        t, what = extreme(r), "extreme"
        if r.random() < 0.2:
            t = mutate(r, t)
        return t, cxx, what
    if x < 0.45:
        return pieces(r, cxx, r.randint(1, 5)), cxx, "pieces"
    if x < 0.75:
        return mutate(r, pieces(r, cxx, r.randint(1, 4)), pieces(r, cxx, 2)), cxx, "mutated pieces"
    t = cgen.Gen(r, "h", nfuncs=r.randint(1, 5), ntypes=r.randint(0, 5), shared=True).go().text()
    if x < 0.82:
        return t, cxx, "ordinary"
    return mutate(r, t, pieces(r, cxx, 2)), cxx, "mutated"


def options(r, cxx):
    o = ["--mock-cpp"] if cxx else []
    if r.random() < 0.6:
        o += ["--generate-types"]
    if r.random() < 0.6:
        o += ["--generate-comparator-of", "EasyMock_all_comparators" if r.random() < 0.7 else r.choice(VALUES)]
    if r.random() < 0.4:
        o += ["--generate-attribute", "EasyMock_all_attributes" if r.random() < 0.5 else r.choice(VALUES)]
    if r.random() < 0.25:
        o += ["--generate-included-functions"]
    if r.random() < 0.35:
        o += ["--ignore-parser-error"]
    for a in ("--mock-only", "--ignore-generation-of", "--ignore-field-generation-of"):
        if r.random() < 0.08:
            o += [a, r.choice(VALUES)]
    if r.random() < 0.1:
        o += [r.choice(["-std=c89", "-std=gnu2x", "-funsigned-char", "-DX", "-Dint=long", "-DF1", "-m32", "-O2", "-w", "-Werror", "-include", "-I", "-fblocks", "-x", "-ferror-limit=0", "-E", "-###"])]
    return o
