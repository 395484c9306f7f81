/* Native replay of candidates found by the solver: the same harness, linked with the natively compiled code.
   usage: replay MODELFILE OUTFILE SECONDS SEED      exit 3: a mismatch was reproduced (inputs written to OUTFILE)
   MODELFILE lines: "model" starts a model; "set NAME HEX"; "uf NAME INHEX OUTHEX"; "only" = run just the models */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#ifdef CTGRIND
#include <valgrind/memcheck.h>
#endif
#ifndef ENTRY
#define ENTRY harness
#endif
void ENTRY(void);
void h_gen(const uint8_t *rnd) __attribute__((weak));
void spec_real_uf(const char *name, void *out, size_t outlen, const void *in, size_t inlen);

typedef struct { char name[64]; uint8_t *p; size_t n; } Buf;
typedef struct { char name[32]; uint8_t *in, *out; size_t inl, outl; } Uf;
typedef struct { Buf b[64]; int nb; Uf *u; int nu; } Model;
static Model models[32]; static int nmodels; static Model *useUf;
static Buf forced[64], used[64]; static int nforced, nused;
static int mism; static char first[256]; static int pattern; static uint64_t rs; static int quiet;
static char flipName[64]; static long flipBit; static int aborted;
typedef struct { char name[32]; size_t il, ol; int ph; } Call; static Call calls[4096]; static int ncalls, phase;

static uint64_t rnd64(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static Buf *findb(Buf *b, int n, const char *name) { int i; for (i = 0; i < n; i++) if (!strcmp(b[i].name, name)) return b + i; return 0; }
static void putb(Buf *b, int *n, const char *name, const void *p, size_t len) {
  Buf *x = findb(b, *n, name); if (!x) { if (*n >= 64) return; x = b + (*n)++; snprintf(x->name, 64, "%s", name); x->p = 0; }
  free(x->p); x->p = malloc(len + 1); memcpy(x->p, p, len); x->n = len;
}
void sx_set(const char *name, const void *p, size_t n) { putb(forced, &nforced, name, p, n); }
static void fill(void *p, size_t n, const char *name) {
  uint8_t *d = p; size_t i; Buf *b = findb(forced, nforced, name);
  for (i = 0; i < n; i++) d[i] = b && i < b->n ? b->p[i] : pattern == 1 ? 0 : pattern == 2 ? 0xff : (uint8_t)rnd64();
  if (flipName[0] && !strcmp(flipName, name) && flipBit / 8 < (long)n) d[flipBit / 8] ^= (uint8_t)(1u << (flipBit & 7));
  putb(used, &nused, name, p, n);
}
void sx_symbolic(void *p, size_t n, const char *name) { fill(p, n, name); }
void sx_secret(void *p, size_t n, const char *name) { fill(p, n, name);
#if defined CTGRIND && !defined VGMEM
  VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
}
void sx_public(void *p, size_t n) { (void)p; (void)n;
#ifdef CTGRIND
  VALGRIND_MAKE_MEM_DEFINED(p, n);
#endif
}
int sx_same(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
void sx_check_eq(const void *a, const void *b, size_t n, const char *label) {
  const uint8_t *x = a, *y = b; size_t i;
#ifdef CTGRIND
  return;
#endif
  for (i = 0; i < n; i++) if (x[i] != y[i]) { if (!mism) snprintf(first, 256, "%s: byte %zu is %02x, specification says %02x", label, i, x[i], y[i]); mism = 1; return; }
}
void sx_defined(const void *p, size_t n, const char *label) {
#ifdef VGMEM
  if (n && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { if (!mism) snprintf(first, 256, "%s depends on memory that was never written", label); mism = 1; }
#endif
  (void)p; (void)n; (void)label; }
void sx_assert(int c, const char *label) {
#ifdef CTGRIND
  return;
#endif
  if (!c) { if (!mism) snprintf(first, 256, "%s: does not hold", label); mism = 1; } }
void sx_assume(int c) { if (!c) aborted = 1; }
static struct { uint8_t *p, *copy; size_t n; int on; char name[32]; uint8_t *raw; } al[256]; static int nal;
void *sx_alloc(size_t n, size_t align, const char *name) {
  size_t pad = 64 + align % 64; uint8_t *raw = 0, *p;
  /* exactly `align`-aligned, ending where the block ends so that an overrun is visible to AddressSanitizer */
  if (posix_memalign((void **)&raw, 64, n + pad)) abort();
  p = raw + pad;
  if (nal < 256) { al[nal].p = p; al[nal].n = n; al[nal].on = 0; al[nal].copy = 0; al[nal].raw = raw; snprintf(al[nal].name, 32, "%s", name); nal++; }
  return p;
}
static void rocheck(int i) { if (al[i].on && al[i].copy) { if (memcmp(al[i].p, al[i].copy, al[i].n)) { if (!mism) snprintf(first, 256, "input %s was modified", al[i].name); mism = 1; } free(al[i].copy); al[i].copy = 0; al[i].on = 0; } }
void sx_readonly(void *p, int on) { int i;
#ifdef CTGRIND
  return;
#endif
  for (i = 0; i < nal; i++) if (al[i].p == p) { if (on && !al[i].on) { al[i].copy = malloc(al[i].n); memcpy(al[i].copy, p, al[i].n); al[i].on = 1; } else if (!on) rocheck(i); } }
void sx_free(void *p) { int i; for (i = nal - 1; i >= 0; i--) if (al[i].p == p) { rocheck(i); free(al[i].raw); al[i] = al[--nal]; return; } }
void sx_havoc_globals(int w) { (void)w; }
long long __attribute__((weak)) cpucycles(void) { return 0; }
int sx_is_engine(void) { return 0; }
void sx_impl(int on) { (void)on; }
void sx_mark(void) { phase++; }
void sx_note(const char *s) { (void)s; }
void sx_show(const void *p, size_t n, const char *name) { (void)p; (void)n; (void)name; }
void sx_uf(const char *name, void *out, size_t outlen, const void *in0, size_t inlen) {
  int i; static uint8_t in[1 << 16]; if (inlen > sizeof in) abort(); memcpy(in, in0, inlen);   /* calls may work in place */
#ifdef VGMEM
  sx_defined(in0, inlen, name);
#endif
#ifdef CTGRIND
  { uint8_t *c = malloc(inlen + 1); memcpy(c, in, inlen); VALGRIND_MAKE_MEM_DEFINED(c, inlen); spec_real_uf(name, out, outlen, c, inlen); free(c);
#ifndef VGMEM
    VALGRIND_MAKE_MEM_UNDEFINED(out, outlen);
#endif
    return; }
#endif
  if (ncalls < 4096) { Call *c = calls + ncalls++; snprintf(c->name, 32, "%s", name); c->il = inlen; c->ol = outlen; c->ph = phase; }
  spec_real_uf(name, out, outlen, in, inlen);
  if (useUf) for (i = 0; i < useUf->nu; i++) { Uf *u = useUf->u + i; if (!strcmp(u->name, name) && u->inl == inlen && !memcmp(u->in, in, inlen)) { memcpy(out, u->out, outlen < u->outl ? outlen : u->outl); return; } }
}
static int cmpCall(const void *a, const void *b) { const Call *x = a, *y = b; int r = strcmp(x->name, y->name); if (r) return r; if (x->il != y->il) return x->il < y->il ? -1 : 1; return x->ol < y->ol ? -1 : x->ol > y->ol; }
static int shapesMatch(void) {  /* calls made before and after sx_mark agree as multisets */
  static Call a[4096], b[4096]; int na = 0, nb = 0, i;
  for (i = 0; i < ncalls; i++) if (calls[i].ph & 1) b[nb++] = calls[i]; else a[na++] = calls[i];
  if (na != nb) return 0;
  qsort(a, na, sizeof *a, cmpCall); qsort(b, nb, sizeof *b, cmpCall);
  for (i = 0; i < na; i++) if (cmpCall(a + i, b + i)) return 0;
  return 1;
}
static uint8_t *unhex(const char *s, size_t *n) { size_t l = strlen(s) / 2, i; uint8_t *r = malloc(l + 1); unsigned v; for (i = 0; i < l; i++) { sscanf(s + 2 * i, "%2x", &v); r[i] = (uint8_t)v; } *n = l; return r; }
static int onlyModels; static const char *outFile;
static void dump(const char *how) {
  FILE *f = fopen(outFile, "w"); int i; size_t j; if (!f) return;
  fprintf(f, "# %s\n# %s\nmodel\n", how, first);
  for (i = 0; i < nused; i++) { fprintf(f, "set %s ", used[i].name); for (j = 0; j < used[i].n; j++) fprintf(f, "%02x", used[i].p[j]); fprintf(f, "\n"); }
  if (useUf) for (i = 0; i < useUf->nu; i++) { Uf *u = useUf->u + i; fprintf(f, "uf %s ", u->name); for (j = 0; j < u->inl; j++) fprintf(f, "%02x", u->in[j]); fprintf(f, " "); for (j = 0; j < u->outl; j++) fprintf(f, "%02x", u->out[j]); fprintf(f, "\n"); }
  fprintf(f, "only\n"); fclose(f);
}
static char curHow[200];
static void onsig(int s) { if (!mism) snprintf(first, 256, "the call did not return: signal %d", s); mism = 1; dump(curHow); printf("REPRODUCED %s: %s\n", curHow, first); fflush(stdout); _exit(3); }
static int trial(const char *how) {
  int i; mism = 0; aborted = 0; first[0] = 0; nused = 0; nal = 0; ncalls = 0; phase = 0; snprintf(curHow, 200, "%s", how);
  ENTRY();
  for (i = 0; i < nal; i++) { rocheck(i); free(al[i].raw); al[i].raw = 0; }
  if (aborted) return 0;
  if (mism && useUf && !shapesMatch()) { fprintf(stderr, "discarded: hash calls differ in shape\n"); mism = 0; }
  if (mism) { dump(how); printf("REPRODUCED %s: %s\n", how, first); return 1; }
  return 0;
}
static void clearForced(void) { nforced = 0; memset(forced, 0, sizeof forced); }
static void applyModel(Model *m) { int i; for (i = 0; i < m->nb; i++) sx_set(m->b[i].name, m->b[i].p, m->b[i].n); }
int main(int argc, char **argv) {
  double secs = argc > 3 ? atof(argv[3]) : 10; uint64_t seed = argc > 4 ? strtoull(argv[4], 0, 10) : 1; time_t t0 = time(0); int i, k; char how[200];
  outFile = argc > 2 ? argv[2] : "/dev/null";
  if (argc > 1 && strcmp(argv[1], "-")) {
    FILE *f = fopen(argv[1], "r"); char *line = 0; size_t cap = 0; Model *m = 0;
    while (f && getline(&line, &cap, f) > 0) {
      char *w = strtok(line, " \n"); if (!w) continue;
      if (!strcmp(w, "model")) { if (nmodels < 32) m = models + nmodels++; }
      else if (!strcmp(w, "only")) onlyModels = 1;
      else if (m && !strcmp(w, "set")) { char *n = strtok(0, " \n"), *h = strtok(0, " \n"); size_t l; if (!n || m->nb >= 64) continue; uint8_t *p = unhex(h ? h : "", &l); putb(m->b, &m->nb, n, p, l); free(p); }
      else if (m && !strcmp(w, "uf")) { char *n = strtok(0, " \n"), *a = strtok(0, " \n"), *b = strtok(0, " \n"); Uf *u; m->u = realloc(m->u, sizeof(Uf) * (m->nu + 1)); u = m->u + m->nu++; snprintf(u->name, 32, "%s", n); u->in = unhex(a ? a : "", &u->inl); u->out = unhex(b ? b : "", &u->outl); }
    }
    if (f) fclose(f);
  }
  signal(SIGABRT, onsig);
#ifndef CTGRIND
#ifndef ASAN
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig); signal(SIGFPE, onsig);
#endif
#endif
  for (i = 0; i < nmodels; i++) {
    rs = seed; clearForced(); applyModel(models + i);
    useUf = 0; snprintf(how, 200, "model %d", i); if (trial(how)) return 3;
#ifdef OVERRIDE
    rs = seed; useUf = models + i; snprintf(how, 200, "model %d with its hash values", i); if (trial(how)) return 3; useUf = 0;
#endif
  }
  if (onlyModels) return 0;
#ifdef CTGRIND
  clearForced(); rs = seed; if (trial("one run")) return 3;
  if (h_gen) { uint8_t r[512]; rs = seed * 1000; for (i = 0; i < 512; i++) r[i] = (uint8_t)rnd64(); clearForced(); h_gen(r); if (trial("honest inputs")) return 3; }
  return 0;
#endif
  for (k = 0; k == 0 || (time(0) - t0 < secs); k++) {
    for (pattern = 0; pattern < (k < 1 ? 3 : 1); pattern++) { clearForced(); rs = seed + k; snprintf(how, 200, "pattern %d seed %d", pattern, k); if (trial(how)) return 3; }
    pattern = 0;
    if (h_gen) {
      uint8_t r[512]; rs = seed * 1000 + k; for (i = 0; i < 512; i++) r[i] = (uint8_t)rnd64();
      clearForced(); h_gen(r); snprintf(how, 200, "honest inputs %d", k); if (trial(how)) return 3;
      for (i = 0; i < nmodels; i++) { int j; for (j = 0; j < models[i].nb; j++) { clearForced(); h_gen(r); sx_set(models[i].b[j].name, models[i].b[j].p, models[i].b[j].n); snprintf(how, 200, "honest inputs %d with %s of model %d", k, models[i].b[j].name, i); if (trial(how)) return 3; } }
      for (i = 0; i < 400 && time(0) - t0 < secs; i++) {
        clearForced(); h_gen(r); if (!nforced) break;
        Buf *b = forced + rnd64() % nforced; strcpy(flipName, b->name); flipBit = (long)(rnd64() % (b->n * 8));
        if (k == 0 && i < 8 * (int)64) { Buf *c = findb(forced, nforced, "ct"); if (c) { strcpy(flipName, "ct"); flipBit = (long)((i * (c->n * 8)) / 400); } }
        snprintf(how, 200, "honest inputs %d, bit %ld of %s flipped", k, flipBit, flipName);
        int r3 = trial(how); flipName[0] = 0; if (r3) return 3;
      }
    }
  }
  return 0;
}
