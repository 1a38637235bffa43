/* included after the tables of one header */
unsigned char hx_bytes[64 * 16];
unsigned char hx_pad;
static void f0(void) {} static void f1(void) {} static void f2(void) {} static void f3(void) {} static void f4(void) {}
const hx_fp_t hx_fps[5] = { f0, f1, f2, f3, f4 };
static uint64_t st;
static uint64_t rnd(void) { return hx_mix(st++); }
static void garbage(void *p, size_t n) { size_t i; int k = rnd() % 3; for (i = 0; i < n; i++) ((unsigned char *)p)[i] = k == 0 ? 0 : k == 1 ? 0xff : (unsigned char)rnd(); }
static long neval, neq, nne, nmsg;
static void bad(const char *key, const struct rec *r, int leaf, const char *fmt, const char *a, const char *b, const char *c)
{
  printf("BAD \t%s\t%s\t%s[%d]\t", key, r->name, leaf < 0 ? "-" : r->lf[leaf].name, leaf < 0 ? 0 : r->lf[leaf].idx);
  printf(fmt, a, b, c); printf("\n");
}
static const char *word(const char *s, const char *w)
{
  size_t n = strlen(w);
  while ((s = strstr(s, w))) {
    char q = s[n];
#define W(c) ((c) == '_' || ((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
    if (!W(q) && !(s[-1] == '_' || W(s[-1]))) return s;
    s++;
  }
  return NULL;
}
static const char *num(const char *s, const char *w) /* w as a number of its own */
{
  size_t n = strlen(w);
  if (w[0] == 'w') { /* 128 bits, hexadecimal or decimal */
    unsigned long long hi, lo; unsigned __int128 v, x, y; const char *e;
    sscanf(w, "w%llx:%llx", &hi, &lo); v = ((unsigned __int128)hi << 64) | lo;
    for (; *s; s = e) {
      int neg = 0, dec = 1; e = s + 1;
      if (*s < '0' || *s > '9' || W(s[-1])) { if (!(*s >= 'a' && *s <= 'f') || W(s[-1])) continue; dec = 0; }
      neg = s[-1] == '-';
      if (s[0] == '0' && s[1] == 'x') { dec = 0; e = s + 2; } else e = s;
      for (x = y = 0; (*e >= '0' && *e <= '9') || (*e >= 'a' && *e <= 'f'); e++) { int d = *e <= '9' ? *e - '0' : *e - 'a' + 10; if (d > 9) dec = 0; x = x * 16 + d; y = y * 10 + d; }
      if (!W(*e) && (x == v || (dec && (neg ? -y : y) == v))) return e;
    }
    return NULL;
  }
  while ((s = strstr(s, w))) {
    if (!W(s[n]) && !W(s[-1]) && (w[0] == '-' || s[-1] != '-')) return s + n;
    s++;
  }
  return NULL;
}
static void eval(const struct rec *r, void *x, void *y)
{
  int i, k, any = -1, ndiff = 0;
  for (i = 0; i < r->nl; i++) if (r->df(x, y, i)) { ndiff++; any = i; }
  unsigned char *sx = malloc(r->size), *sy = malloc(r->size);
  memcpy(sx, x, r->size); memcpy(sy, y, r->size);
  for (k = 0; k < 2; k++) {
    int nl = rnd() % 8 ? 1 + rnd() % 12 : rnd() % 300, rc, j;
    char *name = malloc(nl + 1), *err = malloc(256);
    for (j = 0; j < nl; j++) name[j] = 'A' + rnd() % 26;
    name[nl] = 0;
    memset(err, 0x5a, 256);
    if (k) { void **px = malloc(sizeof(void *)), **py = malloc(sizeof(void *)); *px = x; *py = y; rc = r->dcmp(px, py, name, err); free(px); free(py); }
    else rc = r->cmp(x, y, name, err);
    neval++;
    if (memcmp(x, sx, r->size) || memcmp(y, sy, r->size)) bad("operand-changed", r, any, "a compared value was modified", 0, 0, 0);
    if (!ndiff) neq++; else nne++;
    if ((rc == 0) != (ndiff == 0)) bad(ndiff ? "missed" : "false-mismatch", r, any, ndiff ? "different values are reported as equal" : "equal values are reported as different: %.256s", rc ? err : "", "", "");
    else if (rc) {
      if (!memchr(err, 0, 256)) bad("unterminated", r, any, "the message is not terminated", 0, 0, 0);
      else {
        int ok = 0; char why[1000] = "";
        size_t el = strlen(err);
        if (el < 255 && !strstr(err, name)) bad("message-name", r, any, "message <%s> does not name the parameter %s", err, name, "");
        else if (el == 0) bad("no-message", r, any, "a mismatch without a message", 0, 0, 0);
        else if (el < 255) {
          nmsg++;
          for (i = 0; i < r->nl && !ok; i++) if (r->df(x, y, i)) {
            char a[64], b[64], ix[16]; const char *q, *after = err + nl;
            const char *w = word(after, r->lf[i].name);
            snprintf(why, sizeof why, "field %s of %s", r->lf[i].name, r->lf[i].path);
            if (!w) continue;
            if (r->lf[i].idx >= 0) { sprintf(ix, "%d", r->lf[i].idx); if (!num(w, ix)) { snprintf(why, sizeof why, "index %s of %s", ix, r->lf[i].name); continue; } }
            char path[256]; char *tok, *save = NULL; int missing = 0;
            snprintf(path, sizeof path, "%s", r->lf[i].path);
            for (tok = strtok_r(path, "/", &save); tok; tok = strtok_r(NULL, "/", &save)) if (!word(err + 1, tok)) missing = 1;
            if (missing) { snprintf(why, sizeof why, "path %s", r->lf[i].path); continue; }
            r->tx(x, i, a); r->tx(y, i, b);
            snprintf(why, sizeof why, "value %s, expected %s of %s", a, b, r->lf[i].name);
            if (a[0] && (!(q = num(w, a)) || !num(q, b))) continue;
            ok = 1;
          }
          if (!ok) bad("message", r, any, "message <%s> for a difference in %s", err, why, "");
        }
      }
    }
    free(name); free(err);
  }
  free(sx); free(sy);
}
int main(int argc, char **argv)
{
  int k, rounds = atoi(argv[2]), i, j; (void)argc;
  st = strtoull(argv[1], 0, 10) << 24;
  for (k = 0; k < nrecs; k++) for (j = 0; j < rounds; j++) {
    const struct rec *r = &recs[k];
    void *x = malloc(r->size), *y = malloc(r->size);
    garbage(x, r->size); r->mk(x, (uint32_t)rnd() & 0xffff0000u);
    garbage(y, r->size); r->cp(y, x);
    eval(r, x, y);
    for (i = 0; i < r->nl; i++) {
      garbage(y, r->size); r->cp(y, x);
      r->fl(y, i, rnd());
      eval(r, rnd() % 2 ? x : y, rnd() % 2 ? x : y);
      if (rnd() % 2) eval(r, x, y); else eval(r, y, x);
      if (rnd() % 4 == 0) { r->fl(y, rnd() % r->nl, rnd()); eval(r, x, y); }
    }
    garbage(y, r->size); r->mk(y, (uint32_t)rnd() & 0xffff0000u);
    eval(r, x, y);
    free(x); free(y);
  }
  printf("N %ld %ld %ld %ld\nEND\n", neval, neq, nne, nmsg);
  return 0;
}
