/* Shared between the generated adapters and the history driver. */
#ifndef HX_H
#define HX_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#define HX_MAXP 48
#define HX_NPOOL 5
struct hx_exp {
  uint32_t s[HX_MAXP];   /* parameter seeds */
  uint8_t m[HX_MAXP];    /* matcher index per parameter */
  uint8_t o[HX_MAXP];    /* output on/off per parameter */
  uint32_t os[HX_MAXP];  /* output seeds */
  uint32_t ret;
  int useout;
  uint32_t inst;         /* C++: 0 any, else instance index+1 */
  int fn;
};
struct hx_call {
  uint32_t s[HX_MAXP];
  const struct hx_exp *e; /* the expectation the model says this call consumes, or NULL */
  uint32_t inst;
};
struct hx_obs {
  int ret_ok;                 /* 1 same as recorded, 0 different, -1 nothing to compare */
  int out_ok[HX_MAXP];        /* 1 as expected, 0 not, per output parameter */
};
struct hx_fn {
  const char *name;
  int np;
  const char *const *pname;   /* NULL entries: unnamed in the header */
  void (*expect)(const struct hx_exp *);
  void (*call)(const struct hx_call *, struct hx_obs *);
  void (*const *pmk)(void *, uint32_t);
  int (*const *peq)(const void *, const void *);
  int (*const *deq)(const void *, const void *);  /* pointee comparison, NULL if none */
  void (*fill)(void);                             /* gives every pointee pool its initial content */
};
extern const struct hx_fn *const hx_table[];
extern const int hx_ntable;

/* value construction: seed = hi16 | leaf8 | bit8 */
static inline uint64_t hx_mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
static inline uint64_t hx_v(uint32_t s, unsigned leaf, unsigned nleaf, unsigned bits)
{
  uint64_t h = hx_mix(((uint64_t)(s >> 16) << 20) + leaf);
  uint64_t v = hx_mix(h ^ 0x1234567);
  if ((h & 7) == 0) v = h >> 62;
  if ((h & 7) == 1) v = ~(h >> 62);
  if ((s & 0xff) && ((s >> 8) & 0xff) % nleaf == leaf) v ^= 1ull << (((s & 0xff) - 1) % bits);
  return v;
}
/* small perturbation for floats, enums, pools */
static inline unsigned hx_d(uint32_t s, unsigned leaf, unsigned nleaf)
{
  return ((s & 0xff) && ((s >> 8) & 0xff) % nleaf == leaf) ? (s & 0xff) : 0;
}
static inline uint64_t hx_h(uint32_t s, unsigned leaf) { return hx_mix(((uint64_t)(s >> 16) << 20) + leaf + 77777); }
static inline double hx_f(uint32_t s, unsigned leaf, unsigned nleaf)
{
  return (double)((int)(hx_h(s, leaf) % 60001) - 30000) + hx_d(s, leaf, nleaf) / 256.0;
}
static inline unsigned __int128 hx_w(uint32_t s, unsigned leaf, unsigned nleaf)
{
  unsigned __int128 v = ((unsigned __int128)hx_mix(hx_h(s, leaf)) << 64) ^ hx_h(s, leaf);
  unsigned d = hx_d(s, leaf, nleaf);
  if (d) v ^= (unsigned __int128)1 << ((d * 37) % 128);
  return v;
}
extern unsigned char hx_bytes[64 * 16];
static inline void *hx_p(uint32_t s, unsigned leaf, unsigned nleaf)
{
  return hx_bytes + 16 * ((hx_h(s, leaf) + hx_d(s, leaf, nleaf)) % 61);
}
typedef void (*hx_fp_t)(void);
extern const hx_fp_t hx_fps[5];
static inline hx_fp_t hx_fp(uint32_t s, unsigned leaf, unsigned nleaf)
{
  return hx_fps[(hx_h(s, leaf) + hx_d(s, leaf, nleaf)) % 5];
}
static inline unsigned hx_idx(uint32_t s) { return (unsigned)((hx_h(s, 0) + (s & 0xff)) % HX_NPOOL); }
void *hx_pool(int fn, int param, unsigned idx, size_t size); /* exact-size heap object, stable address */
void *hx_outbuf(size_t size);                                /* lives until the next init */
extern unsigned char hx_pad;                                 /* changing garbage for padding bytes */
static inline void hx_mkbytes(void *p, size_t n, uint32_t s)
{
  size_t i; for (i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(hx_mix((s >> 16) + i * 131) + ((i % 8) == ((s >> 8) & 7) ? s & 0xff : 0));
}
/* strings: a byte leaf sequence that is always terminated */
int hx_pass(const void *c, const void *e, const char *n, char *err);
int hx_fail(const void *c, const void *e, const char *n, char *err);
int hx_eqv(const void *c, const void *e, const char *n, char *err);
#ifdef __cplusplus
}
#endif
#endif
