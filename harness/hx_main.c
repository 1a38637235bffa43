/* History driver: executes a script of expect/call/check/init operations against real mocks and records what it saw. */
#include "hx.h"
#include <stdio.h>
#include <easyMock.h>
#ifdef __has_feature
#if __has_feature(address_sanitizer)
#define HX_ASAN
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(HX_ASAN)
extern size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void) { return 0; }
#endif
#ifdef HX_DL
#include <dlfcn.h>
extern const char *const hx_libs[]; extern const int hx_nlibs;
extern const char *const hx_syms[]; extern const int hx_symlib[];
static const struct hx_fn *dl_table[1024]; static void *dl_handle[256];
#define hx_table dl_table
static int dl_load(int l)
{
  int i;
  dl_handle[l] = dlopen(hx_libs[l], RTLD_NOW | RTLD_LOCAL);
  if (!dl_handle[l]) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 0; }
  for (i = 0; hx_syms[i]; i++) if (hx_symlib[i] == l) { dl_table[i] = (const struct hx_fn *)dlsym(dl_handle[l], hx_syms[i]); if (!dl_table[i]) return 0; }
  return 1;
}
static int dl_unload(int l)
{
  int i;
  for (i = 0; hx_syms[i]; i++) if (hx_symlib[i] == l) dl_table[i] = NULL;
  return dlclose(dl_handle[l]) == 0;
}
#endif

unsigned char hx_bytes[64 * 16];
unsigned char hx_pad;
static void f0(void) {}
static void f1(void) { hx_pad++; }
static void f2(void) { hx_pad += 2; }
static void f3(void) { hx_pad += 3; }
const hx_fp_t hx_fps[5] = { f0, f1, f2, f3, NULL };

#define MAXFN 1024
static void *pool[MAXFN][HX_MAXP][HX_NPOOL];
void *hx_pool(int fn, int param, unsigned idx, size_t size)
{
  if (!pool[fn][param][idx]) pool[fn][param][idx] = malloc(size ? size : 1);
  return pool[fn][param][idx];
}
static void **outs; static size_t nouts, couts;
void *hx_outbuf(size_t n)
{
  if (nouts == couts) { couts = couts * 2 + 64; outs = (void **)realloc(outs, couts * sizeof *outs); }
  return outs[nouts++] = malloc(n ? n : 1);
}
static void free_outs(void) { while (nouts) free(outs[--nouts]); }

/* what the custom matchers must see */
static const struct hx_fn *cur_fn; static const struct hx_call *cur_call;
static int inv[HX_MAXP], inv_unnamed, bad; static char badwhy[256];
static _Alignas(64) unsigned char ba[16384], bb[16384];

static char *nested;     /* the operation which the next matcher of the driver does first */
static int step(FILE *f);
static void report_new(void);
static void nest(void)
{
  const struct hx_fn *fn = cur_fn; const struct hx_call *ca = cur_call; int in[HX_MAXP], un = inv_unnamed, b = bad, rc; char why[256], *l = nested;
  FILE *f = fmemopen(l, strlen(l), "r");
  memcpy(in, inv, sizeof in); memcpy(why, badwhy, sizeof why); nested = NULL;
  printf("N"); report_new();
  rc = step(f);
  if (rc) exit(rc < 0 ? 3 : rc);
  fclose(f); free(l);
  memcpy(inv, in, sizeof in); memcpy(badwhy, why, sizeof why); inv_unnamed = un; bad = b; cur_fn = fn; cur_call = ca;
}

static void observe(const void *c, const void *e, const char *n)
{
  int i, hit = -1, unnamed = 0;
  if (nested && cur_fn) nest();
  if (!cur_fn) { bad = 1; snprintf(badwhy, sizeof badwhy, "matcher invoked outside a call"); return; }
  for (i = 0; i < cur_fn->np; i++) {
    if (!cur_fn->pname[i]) { unnamed = 1; continue; }
    if (n && !strcmp(cur_fn->pname[i], n)) hit = i;
  }
  if (hit < 0) {
    if (!unnamed) { bad = 1; snprintf(badwhy, sizeof badwhy, "matcher got parameter name '%s' unknown to %s", n ? n : "(null)", cur_fn->name); }
    inv_unnamed++;
    return;
  }
  inv[hit]++;
  cur_fn->pmk[hit](ba, cur_call->s[hit]);
  if (!cur_fn->peq[hit](ba, c)) { bad = 1; snprintf(badwhy, sizeof badwhy, "matcher of %s.%s did not get the actual argument", cur_fn->name, n); }
  if (cur_call->e) {
    cur_fn->pmk[hit](bb, cur_call->e->s[hit]);
    if (!cur_fn->peq[hit](bb, e)) { bad = 1; snprintf(badwhy, sizeof badwhy, "matcher of %s.%s did not get the expected argument", cur_fn->name, n); }
  }
}
int hx_pass(const void *c, const void *e, const char *n, char *err) { (void)err; observe(c, e, n); return 0; }
int hx_fail(const void *c, const void *e, const char *n, char *err)
{
  char big[EASYMOCK_MAX_CMP_ERR];
  observe(c, e, n);
  memset(big, 'x', sizeof big); big[sizeof big - 1] = 0;
  snprintf(err, EASYMOCK_MAX_CMP_ERR, "Parameter '%s' refused %s", n, big);
  return 1;
}
int hx_eqv(const void *c, const void *e, const char *n, char *err)
{
  int i, r = 0;
  observe(c, e, n);
  for (i = 0; cur_fn && i < cur_fn->np; i++)
    if (cur_fn->pname[i] && !strcmp(cur_fn->pname[i], n) && !cur_fn->peq[i](c, e)) r = -7;
  if (r) snprintf(err, EASYMOCK_MAX_CMP_ERR, "Parameter '%s' differs %%s%%n%%d", n);
  return r;
}

static char **prev; static unsigned nprev;
static void drop_prev(void) { while (nprev) free(prev[--nprev]); }
static void esc(const char *s)
{
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '\\') printf("\\\\"); else if (c < 32 || c >= 127) printf("\\x%02x", c); else putchar(c);
  }
}
/* prints " n=<new>" and the new messages; checks that what was reported before is still there, unchanged */
static int quiet; /* 1: errors are read as an array by the operations K and G only, 2: as a string */
static void report_new(void)
{
  unsigned n = 12345, i; const char **a;
  if (quiet) { printf("\n"); return; }
  a = easyMock_getErrorArr(&n);
  int stable = 1;
  if (n == 0 && a) stable = 0;
  if (n && !a) { printf(" n=-1 ARRNULL\n"); return; }
  if (n < nprev) stable = 0;
  for (i = 0; i < nprev && i < n; i++) if (strcmp(a[i], prev[i])) stable = 0;
  if (n && a[n] != NULL) stable = 0;
  printf(" stable=%d n=%u\n", stable, n > nprev ? n - nprev : 0);
  prev = (char **)realloc(prev, (n + 1) * sizeof *prev);
  for (i = nprev; i < n; i++) { printf("e "); esc(a[i]); printf("\n"); prev[i] = strdup(a[i]); }
  if (n > nprev) nprev = n;
}

static void report_all(void)
{
  printf("\n");
  if (quiet == 1) {
    unsigned n = 12345, i; const char **a = easyMock_getErrorArr(&n);
    if (n && !a) { printf("d ARRNULL\n"); return; }
    if (n && a[n] != NULL) printf("d NOEND\n");
    for (i = 0; i < n; i++) { printf("d "); esc(a[i]); printf("\n"); }
  } else {
    const char *s = easyMock_getErrorStr();
    if (s) { printf("d "); esc(s); printf("\n"); }
  }
}

static struct hx_exp **exps; static int nexps, cexps, made;

static int step(FILE *f)
{
  char op[8]; int i;
  if (fscanf(f, "%7s", op) != 1) return -1;
  switch (op[0]) {
  case 'I': easyMock_init(); free_outs(); nexps = 0; drop_prev(); printf("I"); report_new(); break;
  case 'K': { int rc = easyMock_check(); printf("K rc=%d", rc); if (quiet) report_all(); else report_new(); break; }
  case 'N': { size_t z = 0; if (fgetc(f) == EOF || getline(&nested, &z, f) < 0) return 3; break; }
  case 'M': printf("M bytes=%lu\n", (unsigned long)__sanitizer_get_current_allocated_bytes()); break;
#ifdef HX_DL
  case 'L': { int l; if (fscanf(f, "%d", &l) != 1) return 3; if (!dl_load(l)) return 6; printf("L"); report_new(); break; }
  case 'U': { int l; if (fscanf(f, "%d", &l) != 1) return 3; if (!dl_unload(l)) return 6; printf("U"); report_new(); break; }
#endif
  case 'O': { int v; if (fscanf(f, "%d", &v) != 1) return 3; easyMock_setCheckCallsOrder(v); printf("O\n"); break; }
  case 'S': { int v; if (fscanf(f, "%d", &v) != 1) return 3; easyMock_setPrintCallStack(v); printf("S\n"); break; }
  case 'G': {
    if (quiet) { printf("G"); report_all(); break; }
    unsigned n = 0; const char **a = easyMock_getErrorArr(&n); const char *s; size_t tot = 0; unsigned j; int ok = 1;
    s = easyMock_getErrorStr();
    a = easyMock_getErrorArr(&n);
    if (!n) ok = (s == NULL); else if (!s) ok = 0;
    else { const char *p = s; for (j = 0; j < n; j++) { const char *q = strstr(p, a[j]); if (!q) { ok = 0; break; }
             for (const char *z = p; z < q; z++) if (*z != '\n' && *z != '\r') ok = 0;
             p = q + strlen(a[j]); tot += strlen(a[j]); }
           if (ok) for (; *p; p++) if (*p != '\n' && *p != '\r') ok = 0; }
    printf("G ok=%d n=%u len=%lu", ok, n, (unsigned long)tot); report_new(); break; }
  case 'E': {
    struct hx_exp *e; int fn, id;
    if (fscanf(f, "%d %d", &fn, &id) != 2) return 3;
    if (id != nexps) return 4;
    if (nexps == cexps) { cexps = cexps * 2 + 4096; exps = (struct hx_exp **)realloc(exps, cexps * sizeof *exps); }
    if (nexps == made) exps[made++] = (struct hx_exp *)malloc(sizeof *e);
    e = exps[nexps++]; memset(e, 0, sizeof *e); e->fn = fn;
    if (fscanf(f, "%u %d %u", &e->ret, &e->useout, &e->inst) != 3) return 3;
    for (i = 0; i < hx_table[fn]->np; i++) { unsigned m, o; if (fscanf(f, "%u %u %u %u", &e->s[i], &m, &o, &e->os[i]) != 4) return 3; e->m[i] = m; e->o[i] = o; }
    hx_pad++;
    hx_table[fn]->expect(e);
    printf("E"); report_new(); break; }
  case 'C': {
    struct hx_call c; struct hx_obs o; int fn, eid; unsigned char vd[HX_MAXP], dd[HX_MAXP];
    memset(&c, 0, sizeof c); memset(&o, 0, sizeof o); o.ret_ok = -1;
    if (fscanf(f, "%d %d %u", &fn, &eid, &c.inst) != 3) return 3;
    for (i = 0; i < hx_table[fn]->np; i++) { if (fscanf(f, "%u", &c.s[i]) != 1) return 3; o.out_ok[i] = -1; }
    c.e = eid >= 0 ? exps[eid] : NULL;
    hx_pad++;
    if (hx_table[fn]->fill) hx_table[fn]->fill();
    for (i = 0; i < hx_table[fn]->np; i++) {
      const struct hx_fn *F = hx_table[fn]; vd[i] = dd[i] = 0;
      if (!c.e) continue;
      F->pmk[i](ba, c.s[i]); F->pmk[i](bb, c.e->s[i]);
      vd[i] = !F->peq[i](ba, bb);
      if (F->deq[i]) dd[i] = !F->deq[i](*(void **)ba, *(void **)bb);
    }
    memset(inv, 0, sizeof inv); inv_unnamed = 0; bad = 0; cur_fn = hx_table[fn]; cur_call = &c;
    hx_table[fn]->call(&c, &o);
    cur_fn = NULL;
    if (nested) { free(nested); nested = NULL; printf("X"); report_new(); }
    printf("C ret=%d", o.ret_ok);
    printf(" p="); for (i = 0; i < hx_table[fn]->np; i++) printf("%d%d%c%d,", vd[i], dd[i], o.out_ok[i] < 0 ? '-' : '0' + o.out_ok[i], inv[i]);
    printf(" un=%d bad=%s", inv_unnamed, bad ? badwhy : "0"); 
    if (bad) { printf("\nB %s\nC2", badwhy); }
    report_new(); break; }
  default: return 5;
  }
  return 0;
}

int main(int argc, char **argv)
{
  FILE *f = fopen(argv[1], "r"); int i;
  (void)argc;
  if (!f) return 3;
  if (getenv("HX_READ")) quiet = atoi(getenv("HX_READ"));
  for (i = 0; i < (int)sizeof hx_bytes; i++) hx_bytes[i] = (unsigned char)i;
  easyMock_setPrintCallStack(0);
  while (!(i = step(f))) ;
  if (i > 0) return i;
  easyMock_init(); free_outs(); free(outs); drop_prev(); free(prev);
  while (made) free(exps[--made]);
  free(exps);
  printf("END\n");
  return 0;
}
