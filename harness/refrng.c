/* Reference generator, written from the published description of dSFMT-19937 (Saito & Matsumoto) and of
   Marsaglia & Bray's normal method (Ripley 1987, p. 84).  Independent of /repo; used as an oracle. */
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <stdlib.h>
#define N 191
#define POS1 117
#define SL1 19
#define SR 12
static const uint64_t MSK1 = 0x000ffafffffffb3fULL, MSK2 = 0x000ffdfffc90fffdULL;
static const uint64_t FIX1 = 0x90014964b32f4329ULL, FIX2 = 0x3b8d12ac548a7c7aULL;
static const uint64_t PCV1 = 0x3d84e1ac0dc82880ULL, PCV2 = 0x1ULL;
static const uint64_t LOW = 0x000FFFFFFFFFFFFFULL, HIGH = 0x3FF0000000000000ULL;
typedef struct { uint64_t s[N + 1][2]; int idx; } G;
static void rec(uint64_t *r, const uint64_t *a, const uint64_t *b, uint64_t *l)
{
  uint64_t t0 = a[0], t1 = a[1], l0 = l[0], l1 = l[1];
  l[0] = (t0 << SL1) ^ (l1 >> 32) ^ (l1 << 32) ^ b[0];
  l[1] = (t1 << SL1) ^ (l0 >> 32) ^ (l0 << 32) ^ b[1];
  r[0] = (l[0] >> SR) ^ (l[0] & MSK1) ^ t0;
  r[1] = (l[1] >> SR) ^ (l[1] & MSK2) ^ t1;
}
static void fill(G *g)
{
  uint64_t lung[2] = {g->s[N][0], g->s[N][1]};
  int i;
  rec(g->s[0], g->s[0], g->s[POS1], lung);
  for (i = 1; i < N - POS1; i++) rec(g->s[i], g->s[i], g->s[i + POS1], lung);
  for (; i < N; i++) rec(g->s[i], g->s[i], g->s[i + POS1 - N], lung);
  g->s[N][0] = lung[0]; g->s[N][1] = lung[1];
}
G *ref_new(uint32_t seed)
{
  G *g = malloc(sizeof(G));
  uint32_t w[(N + 1) * 4];
  int i, j;
  w[0] = seed;
  for (i = 1; i < (N + 1) * 4; i++) w[i] = 1812433253UL * (w[i - 1] ^ (w[i - 1] >> 30)) + i;
  memcpy(g->s, w, sizeof w);
  uint64_t *p = &g->s[0][0];
  for (i = 0; i < N * 2; i++) p[i] = (p[i] & LOW) | HIGH;
  uint64_t t0 = g->s[N][0] ^ FIX1, t1 = g->s[N][1] ^ FIX2;
  uint64_t in = (t0 & PCV1) ^ (t1 & PCV2);
  for (i = 32; i > 0; i >>= 1) in ^= in >> i;
  in &= 1;
  if (in != 1) {
    /* period certification: flip the lowest set bit of PCV2 (PCV2 is odd) */
    (void)j;
    g->s[N][1] ^= 1;
  }
  g->idx = N * 2;
  return g;
}
void ref_free(G *g) { free(g); }
static uint64_t next(G *g)
{
  if (g->idx >= N * 2) { fill(g); g->idx = 0; }
  return (&g->s[0][0])[g->idx++];
}
uint32_t ref_u32(G *g) { return (uint32_t)next(g); }
double ref_unif(G *g) { uint64_t x = next(g); double d; memcpy(&d, &x, 8); return d - 1.0; }
double ref_unif_open(G *g) { uint64_t x = next(g) | 1; double d; memcpy(&d, &x, 8); return d - 1.0; }
static double gfun(double x)
{
  double a = fabs(x), r = 17.49731196 * exp(-x * x / 2.0);
  if (a < 1.0) return r - 4.73570326 * (3.0 - x * x) - 2.15787544 * (1.5 - a);
  if (a < 1.5) return r - 2.36785163 * (3.0 - a) * (3.0 - a) - 2.15787544 * (1.5 - a);
  return r - 2.36785163 * (3.0 - a) * (3.0 - a);
}
double ref_norm(G *g)
{
  double u = ref_unif(g);
  if (u < 0.8638) { double a = ref_unif(g), b = ref_unif(g), c = ref_unif(g); return 2.0 * (a + b + c) - 3.0; }
  if (u < 0.9745) { double a = ref_unif(g), b = ref_unif(g); return 1.5 * (a + b - 1.0); }
  if (u < 0.9973002039) {
    for (;;) { double a = ref_unif(g), b = ref_unif(g), x = 6.0 * a - 3.0; if (!(0.358 * b > gfun(x))) return x; }
  }
  for (;;) {
    double v1, v2, w;
    do { v1 = 2.0 * ref_unif(g) - 1.0; v2 = 2.0 * ref_unif(g) - 1.0; w = v1 * v1 + v2 * v2; } while (w >= 1.0);
    double c = sqrt((9.0 - 2.0 * log(w)) / w), s = c * v1, t = c * v2;
    if (fabs(s) > 3.0) return s;
    if (fabs(t) > 3.0) return t;
  }
}
void ref_norms(G *g, double *out, long n) { for (long i = 0; i < n; i++) out[i] = ref_norm(g); }
void ref_skip_norms(G *g, long n) { for (long i = 0; i < n; i++) ref_norm(g); }
