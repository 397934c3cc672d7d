/* fault injection and accounting for replays: linked with --wrap */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *);
static unsigned char A[4096], I[4096];
static int na, ni, live, arm;
void irsym_reset(void) { int k; na = ni = 0; arm = 0; for (k = 0; k < 4096; k++) A[k] = I[k] = 0; }
void irsym_alloc_fail(int k) { if (k >= 0 && k < 4096) A[k] = 1; arm = 1; }
void irsym_io_fail(int k) { if (k >= 0 && k < 4096) I[k] = 1; arm = 1; }
void irsym_arm(int x) { arm = x; }
int irsym_live(void) { return live; }
int irsym_nalloc(void) { return na; }
int irsym_nio(void) { return ni; }
static int bad(unsigned char *f, int *n) { int k; if (!arm) return 0; k = (*n)++; return k < 4096 && f[k]; }
void *__wrap_malloc(size_t n) { void *p; if (bad(A, &na)) return NULL; p = __real_malloc(n); if (p) live++;
#ifdef IRSYM_FILL
  if (p) memset(p, IRSYM_FILL, n);
#endif
  return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p; if (bad(A, &na)) return NULL; p = __real_calloc(a, b); if (p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f)
{ size_t r; if (n && bad(I, &ni)) { r = n > 1 ? __real_fread(p, s, n - 1, f) : 0; fseek(f, (long)s, SEEK_CUR); return r; } return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f)
{ size_t r; if (n && bad(I, &ni)) { r = n > 1 ? __real_fwrite(p, s, n - 1, f) : 0; fseek(f, (long)s, SEEK_CUR); return r; } return __real_fwrite(p, s, n, f); }
