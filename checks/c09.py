"""Outputs: exactly the recorded output reaches the caller's object, and nothing else is written."""
from vlib.cmodel import *
from common import *


class OutGen(cgen.Gen):
    """functions which are nearly all pointers"""

    def param_ty(self, ret=False):
        x = self.r.random()
        if ret or x < 0.12:
            return cgen.Gen.param_ty(self, ret)
        if x < 0.25:
            return Ptr(VOID, self.r.random() < 0.25)
        if x < 0.35 and self.fwd:
            return Ptr(self.pick(self.fwd), self.r.random() < 0.2)
        if x < 0.45:
            return Ptr(Ptr(self.pick([INT, CHAR, VOID, DOUBLE] + self.recs)))
        if x < 0.50:
            return Ptr(Ptr(Ptr(self.pick([INT, CHAR]))))
        if x < 0.62:
            return Arr(self.pick([CHAR, INT, DOUBLE, USHORT] + self.recs[:2]), self.pick([None, 1, 2, 5]))
        t = self.pick([s for s in SCALARS] + [BOOL, I128] + self.enums + self.recs * 3 + self.tds)
        r = t.res()
        if r.kind in ("ptr", "fnptr"):
            t = INT
        return Ptr(t, self.r.random() < 0.15)

    def go(self):
        for _ in range(2):
            self.forward()
        return cgen.Gen.go(self)


def outs(s, nf):
    """every output recorded, some refused parameters, now and then an order error or an unexpected call in between"""
    r = s.r
    for _ in range(5):
        s.init()
        s.set_order(r.randrange(2))
        seq = [r.randrange(nf) for _ in range(r.randint(1, 20))]
        for g in seq:
            s.expect(g, useout=r.random() < 0.85)
        if r.random() < 0.2:
            r.shuffle(seq)
        for g in seq:
            s.call(g, diff=r.choice((0, 0.3)))
        if r.random() < 0.4:
            s.call(r.randrange(nf))
        s.check()
        s.geterr()


def same_sizes(s, nf):
    """one function, many outputs, so that the sizes of memory outputs cover 0 to 64"""
    r = s.r
    s.init()
    s.set_order(0)
    g = r.randrange(nf)
    for _ in range(70):
        s.expect(g, useout=True, matchers=lambda p: 0)
        s.call(g, diff=0)
    s.check()


BIG_H = """struct fwd;
struct wide { unsigned char b[%d]; };
int big(void *p, const void *c, void *q);
void part(struct fwd *f);
void wide(struct wide *w, int last);
"""
BIG_C = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "easyMock_big.h"
#include <easyMock.h>
static const size_t sizes[] = { @SIZES@ };
static unsigned char *fresh(size_t n, unsigned seed) { unsigned char *p = malloc(n + 1); size_t i; for(i = 0; i <= n; i++) p[i] = (unsigned char)((i * 2654435761u + seed * 40503u) >> 13); return p; }
static void same(const char *what, size_t n, const unsigned char *out, const unsigned char *in, const unsigned char *old, size_t room)
{
  size_t i;
  for(i = 0; i < room; i++) if(out[i] != (i < n ? in[i] : old[i])) { printf("BAD %s: output of %zu bytes, byte %zu is %02x, expected %02x\n", what, n, i, out[i], i < n ? in[i] : old[i]); exit(1); }
  printf("OK %s %zu\n", what, n);
}
int main(void)
{
  unsigned k;
  for(k = 0; k < sizeof sizes / sizeof *sizes; k++)
  {
    size_t n = sizes[k], m = sizes[(k * 7 + 3) % (sizeof sizes / sizeof *sizes)];
    unsigned char *p = fresh(n, 1), *po = fresh(n, 2), *pi = fresh(n, 3), *q = fresh(m, 4), *qo = fresh(m, 5), *qi = fresh(m, 6);
    /* the objects of the caller are as large as the output, or 64 bytes larger */
    unsigned char *pc = malloc(n + 64), *qc = malloc(m), *old = malloc(n + 64);
    memset(old, 0x5a, n + 64);
    memcpy(pc, old, n + 64); memcpy(qc, q, m);
    easyMock_init();
    big_ExpectReturnAndOutput(p, p, q, 7, NULL, NULL, NULL, pi, n, qi, m);
    part_ExpectReturnAndOutput(NULL, NULL, (struct fwd *)po, n);
    if(big(pc, p, qc) != 7) { printf("BAD result\n"); return 1; }
    same("void", n, pc, pi, old, n + 64);
    same("void2", m, qc, qi, q, m);
    memcpy(pc, old, n + 64);
    part((struct fwd *)pc);
    same("incomplete", n, pc, po, old, n + 64);
    if(!easyMock_check()) { printf("BAD check %s\n", easyMock_getErrorStr()); return 1; }
    free(p); free(po); free(pi); free(q); free(qo); free(qi); free(pc); free(qc); free(old);
  }
  {
    struct wide *a = malloc(sizeof *a), *b = malloc(sizeof *b), *o = malloc(sizeof *o);
    unsigned char *x = fresh(sizeof *a, 9);
    memcpy(a, x, sizeof *a); memset(b, 0x5a, sizeof *b); memset(o, 0x5a, sizeof *o);
    easyMock_init();
    wide_ExpectReturnAndOutput(NULL, 3, NULL, cmp_int, a);
    wide_ExpectAndReturn(NULL, 3, NULL, cmp_int);
    wide(b, 3);
    same("wide", sizeof *a, b->b, a->b, o->b, sizeof *b);
    wide(o, 3);
    if(!easyMock_check()) return 1;
    free(a); free(b); free(o); free(x);
  }
  printf("END\n");
  return 0;
}
"""


def large(chk, gen, fw, k):
    """outputs of sizes around the limits of the integer types, up to megabytes"""
    r = rng_of(chk, "large", k)
    sizes = [0, 1, 2, 255, 256, 257, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70001, (1 << 20) + 1, r.randrange(1 << 22, 1 << 24)]
    sizes += [r.randrange(1 << r.randint(1, 20)) for _ in range(24 if chk.thorough else 8)]
    r.shuffle(sizes)
    h = BIG_H % r.choice([300, 5000, 65536, 70000, 300001])
    c = BIG_C.replace("@SIZES@", ", ".join(map(str, sizes)))
    d = chk.dir("large%d" % k)
    files = {"big.h": h, "t.c": c}
    open(d + "/t.c", "w").write(c)
    try:
        res = mocks.gen_mock(gen, None, d, text=h, name="big")
        if res.rc or res.timeout:
            raise mocks.GenFail("generate", mocks.explain("generate", res), files)
        flags = ["-std=gnu11", "-w", "-g", "-O1"] + mocks.CSAN + ["-I" + d, "-I" + FW + "/include"]
        mocks.cc(flags + [d + "/t.c", d + "/easyMock_big.c", "-o", d + "/t", "-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw], "compile-large", files)
    except mocks.GenFail as ex:
        report_genfail(chk, ex)
        return
    res = run2([d + "/t"], timeout=120, env=SAN_ENV)
    for l in res.out.splitlines():
        w = l.split()
        if w and w[0] == "OK":
            chk.count("large_outputs")
            chk.saw(("large", w[1], int(w[2]).bit_length()))
    if res.rc or "END" not in res.out:
        bad = [l for l in res.out.splitlines() if l.startswith("BAD")]
        chk.violation("large-output", "%s\n%s" % (bad[:1] or "the program ended with %s" % res.rc, res.err[-3000:]), files=files)


def check(chk):
    gen, fw = tools(chk)
    n = 40 if chk.thorough else 10
    per = 40 if chk.thorough else 14
    chk.rule = "functions taking pointers of every supported kind; distinct by (function, parameter, matcher, outcome) and (function, parameter, output recorded)"
    chk.assumptions = ["what is written when a call breaks the order is not specified", "the outputs recorded are alive when the call happens"]

    def mk(tag):
        def f(r, k):
            return [OutGen(r, "%s%d_%d" % (tag, k, i), nfuncs=7, maxp=9, lam=0.25).go() for i in range(6)]
        return f
    for k in range(12 if chk.thorough else 3):
        large(chk, gen, fw, k)
    for b in range(0, n, 5):
        gs = build_groups(chk, gen, fw, min(5, n - b), tag="w%d_" % b, mk=mk("w%d_" % b))
        drive(chk, gs, [outs, same_sizes, "hostile"], per, tag="s%d" % b)
        drop(gs)
