/* Feeds the built-in matchers with raw values in exactly sized heap objects and prints what they answer. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <easyMock.h>
#define TYPES(X) X(char, char) X(u_char, unsigned char) X(short, short) X(u_short, unsigned short) X(int, int) X(u_int, unsigned int) \
  X(long, long) X(u_long, unsigned long) X(long_long, long long) X(u_long_long, unsigned long long) \
  X(float, float) X(double, double) X(long_double, long double) X(int128, __int128) X(uint128, unsigned __int128)
#define ALL(X) TYPES(X) X(pointer, void *)
#define DREF(X) X(char, char) X(u_char, unsigned char) X(short, short) X(u_short, unsigned short) X(int, int) X(u_int, unsigned int) \
  X(long, long) X(u_long, unsigned long) X(long_long, long long) X(u_long_long, unsigned long long) \
  X(float, float) X(double, double) X(long_double, long double) X(pointer, void *)
#define D(n, t) DECLARE_DEREF_PTR_MATCHER(n);
DREF(D)
static const struct { const char *n; EasyMock_Matcher m, d; size_t sz; } tab[] = {
#define E(n, t) { #n, cmp_##n, NULL, sizeof(t) },
ALL(E)
#undef E
#define E(n, t) { "*" #n, cmp_deref_ptr_##n, cmp_deref_ptr_##n, sizeof(t) },
DREF(E)
};
static void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) exit(3); return p; }
static unsigned char *hex(const char *s, size_t *n)
{
  size_t l = strlen(s) / 2, i; unsigned char *p = (unsigned char *)xmalloc(l);
  for (i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = (unsigned char)v; }
  *n = l; return p;
}
static char *cstr(const char *s) /* "-" is the empty string */
{
  size_t n; unsigned char *b; char *r;
  if (!strcmp(s, "-")) s = "";
  b = hex(s, &n); r = (char *)xmalloc(n + 1); memcpy(r, b, n); r[n] = 0; free(b); return r;
}
int main(int argc, char **argv)
{
  static char line[200000]; FILE *f = fopen(argv[1], "r"); (void)argc;
  if (!f) return 3;
  while (fgets(line, sizeof line, f)) {
    char *t = strtok(line, " \n"), *a = strtok(NULL, " \n"), *e = strtok(NULL, " \n"), *n = strtok(NULL, " \n");
    unsigned k; int rc = 0, same = -1, term = 0; char *name, *err; size_t la, le, i;
    if (!n) return 3;
    name = cstr(n);
    err = (char *)xmalloc(EASYMOCK_MAX_CMP_ERR);
    memset(err, 0x5a, EASYMOCK_MAX_CMP_ERR);
    if (!strcmp(t, "str")) {
      char *x = cstr(a), *y = cstr(e); char **px = (char **)xmalloc(sizeof *px), **py = (char **)xmalloc(sizeof *py);
      *px = x; *py = y; same = strcmp(x, y) == 0;
      rc = cmp_str(px, py, name, err);
      free(x); free(y); free(px); free(py);
    } else for (k = 0; k < sizeof tab / sizeof *tab; k++) if (!strcmp(t, tab[k].n)) {
      unsigned char *x0 = hex(a, &la), *y0 = hex(e, &le); void *x = xmalloc(tab[k].sz), *y = xmalloc(tab[k].sz); void *ca, *ce;
      memset(x, 0, tab[k].sz); memset(y, 0, tab[k].sz); memcpy(x, x0, la); memcpy(y, y0, le);
      ca = xmalloc(tab[k].sz); ce = xmalloc(tab[k].sz); memcpy(ca, x, tab[k].sz); memcpy(ce, y, tab[k].sz);
      if (tab[k].d) { void **px = (void **)xmalloc(sizeof *px), **py = (void **)xmalloc(sizeof *py); *px = x; *py = y; rc = tab[k].m(px, py, name, err); if (*px != x || *py != y) printf("CHANGED "); free(px); free(py); }
      else rc = tab[k].m(x, y, name, err);
#define S(nn, tt) if (!strcmp(t[0] == '*' ? t + 1 : t, #nn)) same = *(tt *)x == *(tt *)y;
      ALL(S)
      if (memcmp(ca, x, tab[k].sz) || memcmp(ce, y, tab[k].sz)) printf("CHANGED ");
      free(x0); free(y0); free(x); free(y); free(ca); free(ce);
    }
    for (i = 0; i < EASYMOCK_MAX_CMP_ERR; i++) if (!err[i]) term = 1;
    printf("%d %d %d ", rc, same, term);
    if (rc && term) for (i = 0; err[i]; i++) printf("%02x", (unsigned char)err[i]);
    printf("\n");
    free(name); free(err);
  }
  printf("END\n");
  return 0;
}
