/* cstring against a plain model string, in exactly sized heap objects. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <cstring.h>
static uint64_t st; static unsigned rnd(void) { st = st * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(st >> 33); }
#define NS 6
static cstring *s[NS]; static char *m[NS];
static int sgn(int x) { return (x > 0) - (x < 0); }
static unsigned long evals, fails; static unsigned long hist[8];
static void bad(const char *what, int i) { if (fails++ < 5) printf("BAD %s length %lu\n", what, (unsigned long)strlen(m[i])); }
static unsigned len(void)
{
  static const int near[] = { CSTRING_MAX_STACK_SIZE - 2, CSTRING_MAX_STACK_SIZE - 1, CSTRING_MAX_STACK_SIZE, CSTRING_MAX_STACK_SIZE + 1, 2 * CSTRING_MAX_STACK_SIZE };
  switch (rnd() % 6) { case 0: return 0; case 1: return 1 + rnd() % 3; case 2: { int v = near[rnd() % 5]; return v < 0 ? 0 : (unsigned)v; }
    case 3: return rnd() % 40; case 4: return rnd() % (2 * CSTRING_MAX_STACK_SIZE + 1); default: return rnd() % 3000; }
}
static char *text(unsigned n) /* exact size, all byte values but 0 */
{
  char *p = (char *)malloc(n + 1); unsigned i, k = rnd() % 3;
  for (i = 0; i < n; i++) p[i] = (char)(k == 0 ? 'a' + (int)(rnd() % 2) : k == 1 ? 1 + (int)(rnd() % 255) : 'x');
  p[n] = 0; return p;
}
static void look(int i)
{
  const char *c = cstring_c_str(s[i]);
  evals++;
  if (!c || strcmp(c, m[i])) bad("content", i);
  else if (cstring_length(s[i]) != strlen(m[i])) bad("cstring_length", i);
}
static void auto_clean(unsigned n)
{
  char *t = text(n), *u = text(rnd() % 300);
  { CSTRING_AUTOCLEAN(a) = cstring_new_init(t); cstring_append(&a, u); evals++;
    if (cstring_length(&a) != strlen(t) + strlen(u) || strncmp(cstring_c_str(&a), t, strlen(t)) || strcmp(cstring_c_str(&a) + strlen(t), u)) { if (fails++ < 5) printf("BAD autoclean\n"); } }
  free(t); free(u);
}
int main(int argc, char **argv)
{
  unsigned long n; int i;
  st = strtoull(argv[1], NULL, 10) * 2654435761u + 12345; n = strtoul(argv[2], NULL, 10); (void)argc;
  for (i = 0; i < NS; i++) { s[i] = (cstring *)malloc(sizeof(cstring)); memset(s[i], 0x77, sizeof(cstring)); *s[i] = cstring_new(); m[i] = (char *)calloc(1, 1); look(i); }
  while (n--) {
    i = (int)(rnd() % NS);
    unsigned op = rnd() % 16; hist[op % 8]++;
    if (op < 7) { /* append */
      char *t; unsigned l = len();
      if (rnd() % 3 == 0) { size_t cur = strlen(m[i]); int want = (int)CSTRING_MAX_STACK_SIZE - 1 - (int)cur + (int)(rnd() % 3) - 1; if (want >= 0) l = (unsigned)want; }
      if (strlen(m[i]) > 20000) l = 0;
      t = text(l);
      m[i] = (char *)realloc(m[i], strlen(m[i]) + l + 1); strcat(m[i], t);
      cstring_append(s[i], t); free(t); look(i);
    } else if (op < 9) { /* start again */
      char *t = text(len());
      cstring_free(s[i]); free(m[i]); m[i] = strdup(t);
      if (rnd() % 2) { memset(s[i], 0x33, sizeof(cstring)); }
      *s[i] = cstring_new_init(t); free(t); look(i);
    } else if (op < 10) { cstring_free(s[i]); cstring_free(s[i]); free(m[i]); m[i] = (char *)calloc(1, 1); *s[i] = cstring_new(); look(i); }
    else if (op < 14) { /* compare */
      int j = (int)(rnd() % NS); const char *o = m[j]; char *t = NULL;
      if (rnd() % 3 == 0) { t = strdup(m[i]); if (*t) { size_t k = rnd() % 2 ? strlen(t) - 1 : rnd() % strlen(t); if (rnd() % 4) { t[k] = (char)(t[k] == 'b' ? 'a' : 'b'); } else t[k] = 0; } o = t; }
      evals++;
      if (sgn(cstring_compare_const_char(s[i], o)) != sgn(strcmp(m[i], o))) bad("compare_const_char", i);
      if (sgn(cstring_compare_const_cstring(s[i], s[j])) != sgn(strcmp(m[i], m[j]))) bad("compare_const_cstring", i);
      free(t); look(i);
    } else if (op < 15) { /* a copy by value of an untouched string reads the same */
      cstring c = *s[i]; evals++; if (strcmp(cstring_c_str(&c), m[i]) || cstring_length(&c) != strlen(m[i])) bad("copy", i);
    } else auto_clean(len());
  }
  for (i = 0; i < NS; i++) { cstring_free(s[i]); free(s[i]); free(m[i]); }
  printf("N %lu BAD %lu\nEND\n", evals, fails);
  return 0;
}
