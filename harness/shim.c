/* Linked into the application at its outer boundary (ld --wrap):
 *   gsl_rng_types_setup  – appends synthetic generators (VT_GENS) to the GSL's list,
 *   gsl_rng_set          – reports every seeding,
 *   dieharder_test_types – with VT_STUB, every registered test keeps its name, defaults
 *                          and statistics, but its p-values come from a script (VT_PVALS).
 * Events are lines "\001{json}" in stdout, in order with the program's own output. */
#include <dieharder/libdieharder.h>
#include "synth.h"

static void ev_open(void) { fflush(NULL); fputc(1, stdout); }
static void ev_close(void) { fputc('\n', stdout); fflush(stdout); }

/* ---- synthetic generators ------------------------------------------------ */
typedef struct { uint32_t s, c; int which; } sg_state;
#define MAXSG 16
static struct { uint32_t min, max, mode; } sg[MAXSG];
static gsl_rng_type sg_type[MAXSG];
static unsigned long ndraws, nbytes_logged;
static int nsg, log_draws;
static inline unsigned long sg_next(sg_state *t, int k)
{
  uint32_t x = vf_value(sg[k].min, sg[k].max, sg[k].mode, t->s, t->c++);
  ndraws++;
  return x;
}
#define SG(k) \
  static void sg_set##k(void *v, unsigned long s) { sg_state *t = v; t->s = s; t->c = 0; } \
  static unsigned long sg_get##k(void *v) { return sg_next(v, k); } \
  static double sg_getd##k(void *v) { return sg_next(v, k) / ((double) sg[k].max + 1.0); }
SG(0) SG(1) SG(2) SG(3) SG(4) SG(5) SG(6) SG(7)
#define SGE(k) {sg_set##k, sg_get##k, sg_getd##k}
static struct { void (*set)(void *, unsigned long); unsigned long (*get)(void *); double (*getd)(void *); } sgf[] =
  { SGE(0), SGE(1), SGE(2), SGE(3), SGE(4), SGE(5), SGE(6), SGE(7) };

const gsl_rng_type **__real_gsl_rng_types_setup(void);
const gsl_rng_type **__wrap_gsl_rng_types_setup(void)
{
  const gsl_rng_type **t = __real_gsl_rng_types_setup();
  static const gsl_rng_type *list[400];
  int n = 0;
  char *e = getenv("VT_GENS");
  while (t[n]) { list[n] = t[n]; n++; }
  if (e) {
    char *s = strdup(e), *p;
    for (p = strtok(s, ","); p && nsg < 8; p = strtok(NULL, ",")) {
      char name[64]; unsigned lo, hi, mode = 0;
      if (sscanf(p, "%63[^:]:%u:%u:%u", name, &lo, &hi, &mode) < 3) continue;
      sg[nsg].min = lo; sg[nsg].max = hi; sg[nsg].mode = mode;
      sg_type[nsg].name = strdup(name); sg_type[nsg].max = hi; sg_type[nsg].min = lo;
      sg_type[nsg].size = sizeof(sg_state);
      sg_type[nsg].set = sgf[nsg].set; sg_type[nsg].get = sgf[nsg].get; sg_type[nsg].get_double = sgf[nsg].getd;
      list[n++] = &sg_type[nsg++];
    }
  }
  list[n] = NULL;
  return list;
}

void __real_gsl_rng_set(const gsl_rng *r, unsigned long s);
void __wrap_gsl_rng_set(const gsl_rng *r, unsigned long s)
{
  if (getenv("VT_EV") && r == rng) {
    ev_open();
    fprintf(stdout, "{\"e\":\"set\",\"s\":\"%lu\",\"g\":\"%s\"}", s, gsl_rng_name(r));
    ev_close();
  }
  __real_gsl_rng_set(r, s);
  ndraws = 0;
}

/* ---- stub tests ----------------------------------------------------------- */
static double *pv; static size_t npv, ipv;
static void load_pvals(void)
{
  char *f = getenv("VT_PVALS"); FILE *fp; double x; size_t cap = 0;
  if (!f || !(fp = fopen(f, "r"))) return;
  while (fscanf(fp, "%lf", &x) == 1) {
    if (npv == cap) { cap = cap ? 2 * cap : 256; pv = realloc(pv, cap * sizeof *pv); }
    pv[npv++] = x;
  }
  fclose(fp);
}
static int stub(int num, Test **test, int irun)
{
  Dtest *d = dh_test_types[num];
  unsigned j;
  char *b = getenv("VT_BITS");
  ev_open();
  fprintf(stdout, "{\"e\":\"run\",\"t\":%d,\"i\":%d,\"nt\":%u,\"ts\":%u,\"p\":[", num, irun, ntuple, test[0]->tsamples);
  for (j = 0; j < d->nkps; j++) {
    double x = npv ? pv[ipv++ % npv] : (vf_mix(num * 1000 + j, irun) % 257) / 256.0;
    test[j]->pvalues[irun] = x;
    test[j]->ntuple = ntuple;
    fprintf(stdout, "%s\"%.17g\"", j ? "," : "", x);
  }
  fprintf(stdout, "]");
  if (b) {
    /* a little of the stream, the way tests take it */
    uint32_t r[4], k;
    int n = atoi(b);
    fprintf(stdout, ",\"w\":[");
    for (k = 0; k < (uint32_t) n; k++) {
      if (k % 3 == 2) { get_rand_bits(r, 4, 13, rng); fprintf(stdout, "%s\"b%u\"", k ? "," : "", r[0]); }
      else fprintf(stdout, "%s\"w%u\"", k ? "," : "", get_uint_rand(rng));
    }
    fprintf(stdout, "]");
  }
  if (getenv("VT_RAW")) {
    /* outputs of the generator itself */
    uint32_t k, n = atoi(getenv("VT_RAW"));
    fprintf(stdout, ",\"r\":[");
    for (k = 0; k < n; k++) fprintf(stdout, "%s%lu", k ? "," : "", gsl_rng_get(rng));
    fprintf(stdout, "]");
  }
  fprintf(stdout, ",\"nd\":%lu}", ndraws);
  ev_close();
  return 0;
}
#define S1(n) static int st_##n(Test **t, int i) { return stub(1##n - 1000, t, i); }
#define S10(n) S1(n##0) S1(n##1) S1(n##2) S1(n##3) S1(n##4) S1(n##5) S1(n##6) S1(n##7) S1(n##8) S1(n##9)
#define S100(n) S10(n##0) S10(n##1) S10(n##2) S10(n##3) S10(n##4) S10(n##5) S10(n##6) S10(n##7) S10(n##8) S10(n##9)
S100(0) S100(1) S100(2) S100(3) S100(4) S100(5) S100(6) S100(7) S100(8) S100(9)
#define E1(n) st_##n,
#define E10(n) E1(n##0) E1(n##1) E1(n##2) E1(n##3) E1(n##4) E1(n##5) E1(n##6) E1(n##7) E1(n##8) E1(n##9)
#define E100(n) E10(n##0) E10(n##1) E10(n##2) E10(n##3) E10(n##4) E10(n##5) E10(n##6) E10(n##7) E10(n##8) E10(n##9)
static int (*stubs[1000])(Test **, int) = { E100(0) E100(1) E100(2) E100(3) E100(4) E100(5) E100(6) E100(7) E100(8) E100(9) };

void __real_dieharder_test_types(void);
void __wrap_dieharder_test_types(void)
{
  int i, f = 1;
  __real_dieharder_test_types();
  if (getenv("VT_SMALL")) {
    unsigned ps = 2, ts = 1000;
    sscanf(getenv("VT_SMALL"), "%u,%u", &ps, &ts);
    for (i = 0; i < 1000; i++) if (dh_test_types[i]) {
      Dtest *d = malloc(sizeof *d);
      *d = *dh_test_types[i];
      if (d->psamples_std > ps) d->psamples_std = ps;
      if (d->tsamples_std > ts) d->tsamples_std = ts;
      dh_test_types[i] = d;
    }
  }
  if (!getenv("VT_STUB")) return;
  load_pvals();
  ev_open();
  fprintf(stdout, "{\"e\":\"reg\",\"t\":[");
  for (i = 0; i < 1000; i++) if (dh_test_types[i]) {
    Dtest *d = malloc(sizeof *d);
    *d = *dh_test_types[i];
    d->test = stubs[i];
    dh_test_types[i] = d;
    fprintf(stdout, "%s{\"num\":%d,\"name\":\"%s\",\"ps\":%u,\"ts\":%u,\"nk\":%u}", f ? "" : ",", i, d->sname,
            d->psamples_std, d->tsamples_std, d->nkps);
    f = 0;
  }
  fprintf(stdout, "]}");
  ev_close();
}
