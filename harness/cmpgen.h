#include <stdio.h>
#include "hx.h"
struct leaf { const char *name, *path; int idx; };
struct rec {
  const char *name; size_t size; int nl; const struct leaf *lf;
  void (*mk)(void *, uint32_t); void (*cp)(void *, const void *); int (*df)(const void *, const void *, int);
  void (*fl)(void *, int, uint64_t); void (*tx)(const void *, int, char *);
  int (*cmp)(const void *, const void *, const char *, char *), (*dcmp)(const void *, const void *, const char *, char *);
};
