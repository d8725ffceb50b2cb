/* Library calls of libdieharder driven by a script on stdin; one JSON line of
 * results per command.  Only the public headers of the library are used. */
#include <dieharder/libdieharder.h>
#include <unistd.h>
#include <fcntl.h>
#include "synth.h"
#if __has_include("static_get_bits.c")
#include "static_get_bits.c"
#define HAVE_LBITS 1
#endif

/* ---- scripted generator ------------------------------------------------ */
typedef struct { uint32_t s, c; } sg_state;
static uint32_t sg_min = 0, sg_max = 0xffffffffu, sg_mode = 0;
static uint32_t *sg_vals; static unsigned sg_nvals;
static uint32_t *draws; static size_t ndraws, cdraws; static int log_draws = 1;
static unsigned long total_draws;
static void sg_set(void *v, unsigned long s) { sg_state *t = v; t->s = s; t->c = 0; }
static uint32_t sg_next(sg_state *t)
{
  uint32_t x;
  if (sg_nvals) x = sg_vals[t->c % sg_nvals];
  else x = vf_value(sg_min, sg_max, sg_mode, t->s, t->c);
  t->c++; total_draws++;
  if (log_draws) {
    if (ndraws == cdraws) { cdraws = cdraws ? 2*cdraws : 1024; draws = realloc(draws, cdraws*sizeof *draws); }
    draws[ndraws++] = x;
  }
  return x;
}
static unsigned long sg_get(void *v) { return sg_next(v); }
static double sg_getd(void *v) { return sg_next(v) / ((double) sg_max + 1.0); }
static gsl_rng_type sg_type = {"scripted", 0xffffffffu, 0, sizeof(sg_state), sg_set, sg_get, sg_getd};

static void use_gen(uint32_t min, uint32_t max, uint32_t mode, uint32_t s)
{
  sg_min = min; sg_max = max; sg_mode = mode;
  sg_type.min = min; sg_type.max = max;
  if (rng) gsl_rng_free(rng);
  rng = gsl_rng_alloc(&sg_type);
  gsl_rng_set(rng, s);
  random_max = max; rmax = max; rmax_bits = 0; rmax_mask = 0;
  while (rmax) { rmax >>= 1; rmax_mask = (rmax_mask << 1) + 1; rmax_bits++; }
  ndraws = 0; total_draws = 0;
}

/* ---- tokens ------------------------------------------------------------- */
static char *line; static size_t lcap; static char *tok;
static char *next(void) { char *r = strtok(tok, " \n"); tok = NULL; return r; }
static long long num(void) { char *t = next(); if (!t) { fprintf(stderr,"libdrv: missing number\n"); _exit(99);} return strtoll(t, NULL, 0); }
static double dbl(void) { char *t = next(); if (!t) { fprintf(stderr,"libdrv: missing double\n"); _exit(99);} return strtod(t, NULL); }
static FILE *out;
static void put_draws(void)
{
  size_t i;
  fprintf(out, ",\"d\":[");
  for (i = 0; i < ndraws; i++) fprintf(out, "%s%u", i ? "," : "", draws[i]);
  fprintf(out, "]");
  ndraws = 0;
}
static void put_arr(const char *k, uint32_t *a, int n)
{
  int i;
  fprintf(out, "\"%s\":[", k);
  for (i = 0; i < n; i++) fprintf(out, "%s%u", i ? "," : "", a[i]);
  fprintf(out, "]");
}

extern int overlap_dummy;
#define NG 64
static gsl_rng *gen[NG];

/* ---- test objects with a scripted test function --------------------------- */
#define NT 32
static Test **tobj[NT]; static Dtest tdesc[NT];
static int *truns; static size_t ntruns, ctruns;
static uint32_t tcalls;
static unsigned tcur, tzero;
static int scripted_test(Test **t, int irun)
{
  unsigned j;
  for (j = 0; j < tdesc[tcur].nkps; j++) {
    uint32_t z = vf_mix(77, tcalls);
    /* (statistic 0 never 0: all-zero sets are the listed finding zero-restart) */
    int v = tzero ? 0 : (z % 7 == 0) ? (j == 0) : (z % 11 == 0) ? 256 : (j == 0) + vf_mix(tcalls, j) % (257 - (j == 0));
    t[j]->pvalues[irun] = v / 256.0;
    if (ntruns + 2 > ctruns) { ctruns = ctruns ? 2*ctruns : 1024; truns = realloc(truns, ctruns * sizeof *truns); }
    truns[ntruns++] = irun; truns[ntruns++] = v;
  }
  tcalls++;
  return 0;
}
static void put_test(unsigned id)
{
  Test **T = tobj[id]; size_t i; unsigned j, nk = tdesc[id].nkps;
  fprintf(out, "{\"runs\":[");
  for (i = 0; i < ntruns; i++) fprintf(out, "%s%d", i ? "," : "", truns[i]);
  fprintf(out, "],\"ps\":[");
  for (j = 0; j < nk; j++) fprintf(out, "%s%u", j ? "," : "", T[j]->psamples);
  fprintf(out, "],\"ts\":[");
  for (j = 0; j < nk; j++) fprintf(out, "%s%u", j ? "," : "", T[j]->tsamples);
  fprintf(out, "],\"ks\":[");
  for (j = 0; j < nk; j++) fprintf(out, "%s%.17g", j ? "," : "", T[j]->ks_pvalue);
  fprintf(out, "],\"pv\":[");
  for (j = 0; j < nk; j++) {
    fprintf(out, "%s[", j ? "," : "");
    for (i = 0; i < T[j]->psamples; i++) fprintf(out, "%s%.17g", i ? "," : "", T[j]->pvalues[i] * 256);
    fprintf(out, "]");
  }
  fprintf(out, "]}\n");
  ntruns = 0;
}

int main(void)
{
  /* results go to the original stdout, whatever the library prints goes to stderr */
  out = fdopen(dup(1), "w");
  dup2(2, 1);
  all = NO; multiply_p = 1; Xtrategy = 0; Xoff = 100000; Xstep = 100; Xweak = 0.005; Xfail = 1e-6;
  overlap = 1; ks_test = 0; verbose = 0; psamples = 0; tsamples = 0; ntuple = 0; Seed = 0; seed = 0;
  dieharder_rng_types();
  dieharder_test_types();
  while (getline(&line, &lcap, stdin) > 0) {
    char *c;
    tok = line;
    c = next();
    if (!c) continue;
    if (!strcmp(c, "gen")) {
      uint32_t a = num(), b = num(), m = num(), s = num();
      sg_nvals = 0; log_draws = 1;
      use_gen(a, b, m, s);
      fprintf(out, "{\"w\":%u}\n", rmax_bits);
    } else if (!strcmp(c, "vals")) {
      unsigned i; sg_nvals = num();
      sg_vals = realloc(sg_vals, (sg_nvals+1) * sizeof *sg_vals);
      for (i = 0; i < sg_nvals; i++) sg_vals[i] = num();
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "quiet")) {
      log_draws = !num(); fprintf(out, "{}\n");
    } else if (!strcmp(c, "reset")) {
      reset_bit_buffers(); fprintf(out, "{}\n");
    } else if (!strcmp(c, "uint")) {
      unsigned r = get_uint_rand(rng);
      fprintf(out, "{\"r\":[%u]", r); put_draws(); fprintf(out, "}\n");
    } else if (!strcmp(c, "bits")) {
      unsigned n = num(), rs = num(); uint32_t r[64];
      memset(r, 0xA5, sizeof r);
      get_rand_bits(r, rs * 4, n, rng);
      fprintf(out, "{"); put_arr("r", r, rs); put_draws(); fprintf(out, "}\n");
#ifdef HAVE_LBITS
    } else if (!strcmp(c, "lbits")) {
      unsigned n = num(), m = num();
      unsigned r = get_rand_bits_uint(n, m ? (n >= 32 ? 0xffffffffu : (1u << n) - 1) : 0, rng);
      fprintf(out, "{\"r\":[%u]", r); put_draws(); fprintf(out, "}\n");
    } else if (!strcmp(c, "utup")) {
      unsigned w = num(), x = num(), n = num(), o = num(), sv = rmax_bits;
      rmax_bits = w;
      fprintf(out, "{\"r\":[%u]}\n", get_bit_ntuple_from_uint(x, n, n >= 32 ? 0xffffffffu : (1u << n) - 1, o));
      rmax_bits = sv;
    } else if (!strcmp(c, "wtup")) {
      unsigned x = num(), n = num(), o = num();
      fprintf(out, "{\"r\":[%u]}\n", get_bit_ntuple_from_whole_uint(x, n, n >= 32 ? 0xffffffffu : (1u << n) - 1, o));
#endif
    } else if (!strcmp(c, "cyc")) {
      unsigned il = num(), jl = num(), n = num(), off = num(), i; uint32_t in[64], o[66];
      for (i = 0; i < il; i++) in[i] = num();
      memset(o, 0xA5, sizeof o);
      get_ntuple_cyclic(in, il, o, jl, n, off);
      fprintf(out, "{"); put_arr("r", o, jl); fprintf(out, ","); put_arr("in", in, il); fprintf(out, "}\n");
    } else if (!strcmp(c, "ntup")) {
      unsigned w = num(), len = num(), n = num(), off = num(), i; uint32_t in[64];
      unsigned sv = rmax_bits;
      for (i = 0; i < len; i++) in[i] = num();
      rmax_bits = w;
      fprintf(out, "{\"r\":[%u],", get_bit_ntuple(in, len, n, off)); put_arr("in", in, len); fprintf(out, "}\n");
      rmax_bits = sv;
    } else if (!strcmp(c, "getbit")) {
      unsigned w = num(), len = num(), n = num(), i; uint32_t in[64];
      unsigned sv = rmax_bits;
      for (i = 0; i < len; i++) in[i] = num();
      rmax_bits = w;
      fprintf(out, "{\"r\":[%d],", get_bit(in, n)); put_arr("in", in, len); fprintf(out, "}\n");
      rmax_bits = sv;
    } else if (!strcmp(c, "umask")) {
      unsigned a = num(), b = num();
      fprintf(out, "{\"r\":[%u]}\n", b_umask(a, b));
    } else if (!strcmp(c, "win")) {
      unsigned x = num(), a = num(), b = num(), o = num();
      fprintf(out, "{\"r\":[%u]}\n", b_window(x, a, b, o));
    } else if (!strcmp(c, "rotr")) {
      unsigned x = num(), a = num();
      fprintf(out, "{\"r\":[%u]}\n", b_rotate_right(x, a));
    } else if (!strcmp(c, "rotl")) {
      unsigned x = num(), a = num();
      fprintf(out, "{\"r\":[%u]}\n", b_rotate_left(x, a));
    } else if (!strcmp(c, "bit2uint")) {
      char *s = next(); unsigned n = num();
      fprintf(out, "{\"r\":[%u]}\n", bit2uint(s, n));
    } else if (!strcmp(c, "cycle")) {
      unsigned x = num(), n = num();
      cycle(&x, n);
      fprintf(out, "{\"r\":[%u]}\n", x);
    } else if (!strcmp(c, "fill")) {
      unsigned n = num(); uint32_t r[64];
      fill_uint_buffer(r, n);
      fprintf(out, "{"); put_arr("r", r, n); put_draws(); fprintf(out, "}\n");
    } else if (!strcmp(c, "rank")) {
      int m = num(), n = num(), w = (n + 31) / 32, i, j, r; unsigned **mt = malloc(m * sizeof *mt);
      for (i = 0; i < m; i++) { mt[i] = malloc((w + 1) * 4); for (j = 0; j < w; j++) mt[i][j] = num(); mt[i][w] = 0; }
      r = binary_rank(mt, m, n);
      fprintf(out, "{\"r\":[%d]}\n", r);
      for (i = 0; i < m; i++) free(mt[i]);
      free(mt);
    } else if (!strcmp(c, "ks")) {
      int kind = num(), n = num(), i; double *v = malloc((n + 1) * sizeof *v), r;
      for (i = 0; i < n; i++) v[i] = dbl();
      ks_test = kind;
      r = (kind >= 3) ? kstest_kuiper(v, n) : kstest(v, n);
      ks_test = 0;
      fprintf(out, "{\"p\":%.17g,\"v\":[", r);
      for (i = 0; i < n; i++) fprintf(out, "%s%.17g", i ? "," : "", v[i]);
      fprintf(out, "]}\n");
      free(v);
    } else if (!strcmp(c, "vtest")) {
      int n = num(), i; double cut = dbl(); int nd = num(); Vtest v;
      Vtest_create(&v, n); if (cut >= 0) v.cutoff = cut; if (nd) v.ndof = nd;
      for (i = 0; i < n; i++) v.x[i] = dbl();
      for (i = 0; i < n; i++) v.y[i] = dbl();
      Vtest_eval(&v);
      fprintf(out, "{\"ndof\":%d,\"chisq\":%.17g,\"p\":%.17g}\n", (int) v.ndof, v.chisq, v.pvalue);
      Vtest_destroy(&v);
    } else if (!strcmp(c, "xtest")) {
      Xtest x; x.npts = 0; x.p = 0; x.x = dbl(); x.y = dbl(); x.sigma = dbl(); x.pvalue = -7;
      Xtest_eval(&x);
      fprintf(out, "{\"p\":%.17g}\n", x.pvalue);
    } else if (!strcmp(c, "chisq")) {
      char *k = next(); int n = num(), i; double a = dbl(); long ns = num();
      unsigned *o = malloc(n * sizeof *o); double *d = malloc((n+1) * sizeof *d), *e = malloc((n+1) * sizeof *e), p = -7;
      int cnt = n + (!strcmp(k, "binomial") ? 1 : 0);
      for (i = 0; i < cnt; i++) { d[i] = dbl(); if (i < n) o[i] = d[i]; }
      if (!strcmp(k, "poisson")) p = chisq_poisson(o, a, n, ns);
      else if (!strcmp(k, "binomial")) p = chisq_binomial(d, a, n, ns);
      else if (!strcmp(k, "gtest")) p = chisq_uint_uniform_gtest(o, ns, n);
      else if (!strcmp(k, "pearson")) { for (i = 0; i < n; i++) e[i] = dbl(); p = chisq_pearson(d, e, n); }
      fprintf(out, "{\"p\":%.17g}\n", p);
      free(o); free(d); free(e);
    } else if (!strcmp(c, "test")) {
      /* test NUM tsamples psamples ntuple overlap : psamples runs of one registered test */
      int t = num(); unsigned ts = num(), ps = num(), nt = num(), ov = num(), i, j;
      Dtest *d = dh_test_types[t]; Test **T;
      if (!d) { fprintf(out, "{\"none\":1}\n"); fflush(out); continue; }
      tsamples = ts; psamples = ps; ntuple = nt; overlap = ov; all = NO;
      T = create_test(d, ts, ps);
      for (i = 0; i < ps; i++) d->test(T, i);
      fprintf(out, "{\"nkps\":%u,\"ntup\":[", d->nkps);
      for (j = 0; j < d->nkps; j++) fprintf(out, "%s%u", j ? "," : "", T[j]->ntuple);
      fprintf(out, "],\"p\":[");
      for (i = 0; i < ps; i++) {
        fprintf(out, "%s[", i ? "," : "");
        for (j = 0; j < d->nkps; j++) {
          double x = T[j]->pvalues[i];
          if (x != x) fprintf(out, "%snull", j ? "," : ""); else fprintf(out, "%s%.17g", j ? "," : "", x);
        }
        fprintf(out, "]");
      }
      fprintf(out, "],\"nd\":%lu", total_draws);
      total_draws = 0;
      put_draws();
      fprintf(out, "}\n");
      destroy_test(d, T);
      overlap = 1; ntuple = 0; psamples = 0; tsamples = 0;
    } else if (!strcmp(c, "opt")) {
      all = num() ? YES : NO; multiply_p = dbl(); Xtrategy = num(); Xoff = num(); Xstep = num(); psamples = num(); tsamples = num();
      ks_test = num();
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "tnew")) {
      unsigned id = num(), nk = num(), ps = num(), ts = num();
      memset(&tdesc[id], 0, sizeof tdesc[id]);
      tdesc[id].name = "scripted"; tdesc[id].sname = "scripted"; tdesc[id].description = "";
      tdesc[id].psamples_std = ps; tdesc[id].tsamples_std = ts; tdesc[id].nkps = nk; tdesc[id].test = scripted_test;
      tobj[id] = create_test(&tdesc[id], tsamples, psamples);
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "tzero")) {
      tzero = num(); fprintf(out, "{}\n");
    } else if (!strcmp(c, "tstd")) {
      unsigned id = num(); tcur = id;
      std_test(&tdesc[id], tobj[id]); put_test(id);
    } else if (!strcmp(c, "tadd")) {
      unsigned id = num(); int n = num(); tcur = id;
      add_2_test(&tdesc[id], tobj[id], n); put_test(id);
    } else if (!strcmp(c, "tclear")) {
      unsigned id = num();
      clear_test(&tdesc[id], tobj[id]); fprintf(out, "{}\n");
    } else if (!strcmp(c, "tfree")) {
      unsigned id = num();
      destroy_test(&tdesc[id], tobj[id]); tobj[id] = NULL; fprintf(out, "{}\n");
    } else if (!strcmp(c, "dtests")) {
      int i, f = 1;
      fprintf(out, "{\"t\":[");
      for (i = 0; i < 1000; i++) if (dh_test_types[i]) {
        fprintf(out, "%s{\"num\":%d,\"sname\":\"%s\",\"ps\":%u,\"ts\":%u,\"nkps\":%u}", f ? "" : ",", i,
                dh_test_types[i]->sname, dh_test_types[i]->psamples_std, dh_test_types[i]->tsamples_std, dh_test_types[i]->nkps);
        f = 0;
      }
      fprintf(out, "]}\n");
    } else if (!strcmp(c, "desc")) {
      /* descriptions of all tests, bytes in hex */
      int i, f = 1; char *s;
      fprintf(out, "{\"d\":{");
      for (i = 0; i < 1000; i++) if (dh_test_types[i]) {
        fprintf(out, "%s\"%d\":\"", f ? "" : ",", i);
        for (s = dh_test_types[i]->description; *s; s++) fprintf(out, "%02x", (unsigned char) *s);
        fprintf(out, "\"");
        f = 0;
      }
      fprintf(out, "}}\n");
    } else if (!strcmp(c, "types")) {
      int i, f = 1;
      fprintf(out, "{\"g\":[");
      for (i = 0; i < 1000; i++) if (dh_rng_types[i]) {
        fprintf(out, "%s{\"num\":%d,\"name\":\"%s\",\"max\":%lu,\"min\":%lu}", f ? "" : ",", i,
                dh_rng_types[i]->name, dh_rng_types[i]->max, dh_rng_types[i]->min);
        f = 0;
      }
      fprintf(out, "]}\n");
    } else if (!strcmp(c, "xor")) {
      /* xor n g1 .. gn : the command line "-g g0 -g g1 ..." as the parser stores it */
      unsigned i; gvcount = num();
      for (i = 0; i < gvcount; i++) gnumbs[i] = num();
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "gnew")) {
      int id = num(), n = num();
      if (gen[id]) gsl_rng_free(gen[id]);
      gen[id] = gsl_rng_alloc(dh_rng_types[n]);
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "gseed")) {
      int id = num(); unsigned long s = num();
      gsl_rng_set(gen[id], s);
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "gget")) {
      int id = num(), n = num(), i;
      fprintf(out, "{\"r\":[");
      for (i = 0; i < n; i++) fprintf(out, "%s%lu", i ? "," : "", gsl_rng_get(gen[id]));
      fprintf(out, "]}\n");
    } else if (!strcmp(c, "guni")) {
      int id = num(), n = num(), i;
      fprintf(out, "{\"r\":[");
      for (i = 0; i < n; i++) fprintf(out, "%s%.17g", i ? "," : "", gsl_rng_uniform(gen[id]));
      fprintf(out, "]}\n");
    } else if (!strcmp(c, "gskip") || !strcmp(c, "gskipu")) {
      /* n outputs, only their hash and their least and greatest value */
      int u = c[5] == 'u', id = num(); long n = num(), i;
      unsigned long long h = 1469598103934665603ull; unsigned long lo = ~0ul, hi = 0; double dlo = 1e300, dhi = -1e300; int nan = 0;
      for (i = 0; i < n; i++) {
        if (u) {
          double d = gsl_rng_uniform(gen[id]); unsigned long long b; memcpy(&b, &d, 8);
          h = (h ^ b) * 1099511628211ull;
          if (d < dlo) dlo = d; if (d > dhi) dhi = d; if (d != d) nan = 1;
        } else {
          unsigned long v = gsl_rng_get(gen[id]);
          h = (h ^ v) * 1099511628211ull;
          if (v < lo) lo = v; if (v > hi) hi = v;
        }
      }
      if (u) fprintf(out, "{\"h\":\"%016llx\",\"dlo\":%.17g,\"dhi\":%.17g,\"nan\":%d}\n", h, dlo, dhi, nan);
      else fprintf(out, "{\"h\":\"%016llx\",\"lo\":%lu,\"hi\":%lu}\n", h, lo, hi);
    } else if (!strcmp(c, "gfree")) {
      int id = num();
      if (gen[id]) gsl_rng_free(gen[id]);
      gen[id] = NULL;
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "file")) {
      char *f = next();
      if (strlen(f) >= sizeof filename) _exit(98);
      strcpy(filename, f); fromfile = 1;
      fprintf(out, "{}\n");
    } else if (!strcmp(c, "fstat")) {
      int id = num();
      fprintf(out, "{\"r\":[%lu,%u]}\n", (unsigned long) file_input_get_rtot(gen[id]), file_input_get_rewind_cnt(gen[id]));
    } else if (!strcmp(c, "nfds")) {
      int i, n = 0;
      for (i = 0; i < 512; i++) if (fcntl(i, F_GETFD) != -1) n++;
      fprintf(out, "{\"r\":[%d]}\n", n);
    } else if (!strcmp(c, "have")) {
#ifdef HAVE_LBITS
      fprintf(out, "{\"lbits\":1}\n");
#else
      fprintf(out, "{\"lbits\":0}\n");
#endif
    } else if (!strcmp(c, "sum")) {
      fprintf(out, "{\"r\":[%u,%u]}\n", rmax_bits, random_max);
    } else {
      fprintf(stderr, "libdrv: unknown command %s\n", c);
      _exit(97);
    }
    fflush(out);
  }
  return 0;
}
