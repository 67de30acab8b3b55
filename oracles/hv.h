/* Shared support of the cross-check harnesses: seeded choices, an operation log, allocation failure
 * injection (link with --wrap=malloc,calloc,realloc,free) and live block accounting. */
#ifndef HV_H
#define HV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t); void __real_free(void*);
/* a stream of n bytes by its size, of which only the first give can be read */
struct hv_short { const char *p; size_t n, give, at; };
static inline ssize_t hv_short_read(void *c, char *b, size_t k) { struct hv_short *s = c; size_t l = s->at < s->give? s->give - s->at : 0; if( k > l ) k = l; if( k ) memcpy(b, s->p + s->at, k); s->at += k; return (ssize_t)k; }
static inline int hv_short_seek(void *c, off64_t *o, int w) { struct hv_short *s = c; off64_t t = *o + (w==SEEK_END? (off64_t)s->n : w==SEEK_CUR? (off64_t)s->at : 0); if( t < 0 ) return -1; s->at = (size_t)t; *o = t; return 0; }
static inline FILE *hv_short_open(struct hv_short *s) { return fopencookie(s, "rb", (cookie_io_functions_t){ hv_short_read, NULL, hv_short_seek, NULL }); }
static long hv_live, hv_fail = -1, hv_failed, hv_allocs;   /* hv_fail: allocations left before one fails; -1 never */
static int  hv_fail_all;                                    /* every allocation from that one on fails */
static size_t const hv_big = (size_t)1 << 30;
static bool hv_deny(size_t n) {
	hv_allocs++;
	if( n > hv_big ) { hv_failed++; return true; }
	if( hv_fail < 0 ) return false;
	if( hv_fail-- == 0 ) { hv_failed++; if( hv_fail_all ) hv_fail = 0; return true; }
	return false;
}
void *__wrap_malloc(size_t n) { if( hv_deny(n) ) return NULL; void *p = __real_malloc(n); if( p ) { hv_live++; memset(p, 0xA5, n); } return p; }
void *__wrap_calloc(size_t a, size_t b) {
	if( b && a > SIZE_MAX / b ) { hv_allocs++; hv_failed++; return NULL; }
	if( hv_deny(a * b) ) return NULL;
	void *p = __real_calloc(a, b); if( p ) hv_live++; return p;
}
void __wrap_free(void *p) { if( p ) hv_live--; __real_free(p); }
void *__wrap_realloc(void *q, size_t n) {
	if( q && n==0 ) { __wrap_free(q); return NULL; }
	if( hv_deny(n) ) return NULL;
	/* always move, with unwritten bytes filled */
	if( q==NULL ) { void *r = __real_malloc(n); if( r ) { hv_live++; memset(r, 0xA5, n); } return r; }
	void *p = __real_malloc(n);
	if( p==NULL ) return NULL;
	extern size_t __sanitizer_get_allocated_size(const volatile void*);
	size_t o = __sanitizer_get_allocated_size(q);
	memset(p, 0xA5, n); memcpy(p, q, o < n? o : n);
	__real_free(q);
	return p;
}

static uint64_t hv_s, hv_seed, hv_iter; static const char *hv_prop = "";
static uint64_t rnd(void) { uint64_t z = (hv_s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static size_t rn(size_t n) { return n? rnd() % n : 0; }           /* 0 .. n-1 */
static size_t rsz(size_t n) { size_t k = rn(1000); return rn(k < 970? n : k < 990? n * 8 : k < 998? n * 40 : n * 400); }   /* mostly small */
static bool chance(int pct) { return rn(100) < (size_t)pct; }
static size_t rbound(size_t n) {                                   /* an interesting size around n */
	switch( rn(12) ) {
		case 0: return 0; case 1: return n; case 2: return n + 1; case 3: return n? n - 1 : 0; case 4: return SIZE_MAX;
		case 5: return SIZE_MAX - rn(8); case 6: return SIZE_MAX / 2 + rn(3); case 7: return (size_t)1 << rn(64);
		default: return rn(n + 3);
	}
}
static void rfill(void *p, size_t n) { for( size_t i=0; i < n; i++ ) ((uint8_t*)p)[i] = (uint8_t)rnd(); }
static void rfew(void *p, size_t n, int k) { for( size_t i=0; i < n; i++ ) ((uint8_t*)p)[i] = (uint8_t)rn(k); }

static char hv_log[1 << 16]; static size_t hv_logn;
static void LOGOP(const char *f, ...) {
	va_list ap; va_start(ap, f);
	if( hv_logn < sizeof hv_log - 400 ) { hv_log[hv_logn++] = ' '; hv_log[hv_logn++] = ' ';
		int k = vsnprintf(hv_log + hv_logn, 300, f, ap); if( k > 299 ) k = 299; hv_logn += k; hv_log[hv_logn++] = '\n'; hv_log[hv_logn] = 0; }
	va_end(ap);
}
static void hv_dump(void) { fprintf(stdout, "FAILING-INPUT property=%s seed=%llu iteration=%llu\noperations:\n%s", hv_prop, (unsigned long long)hv_seed, (unsigned long long)hv_iter, hv_log); fflush(stdout); }
static void FAIL(const char *f, ...) {
	va_list ap; va_start(ap, f); fprintf(stdout, "FAIL: "); vfprintf(stdout, f, ap); fprintf(stdout, "\n"); va_end(ap); hv_dump(); _exit(3);
}
#define CHECK(c, ...) do { if( !(c) ) { fprintf(stdout, "check `%s' at %s:%d\n", #c, __FILE__, __LINE__); FAIL(__VA_ARGS__); } } while( 0 )
static void hv_death(void) { fprintf(stdout, "FAIL: sanitizer report (see stderr)\n"); hv_dump(); }
static void hv_alarm(int s) { (void)s; static const char m[] = "FAIL: does not terminate\n"; (void)!write(1, m, sizeof m - 1); hv_dump(); _exit(4); }
/* an independent heap block of exactly n bytes, not counted */
static void *xalloc(size_t n) { void *p = __real_malloc(n? n : 1); if( n==0 ) __asan_poison_memory_region(p, 1); return p; }
static void xfree(void *p) { __real_free(p); }
/* a block counted as live, as if the library had allocated it */
static void *lalloc(size_t n) { long f = hv_fail; hv_fail = -1; void *p = malloc(n); hv_fail = f; return p; }
static void *xdup(const void *p, size_t n) { void *q = xalloc(n); if( n ) memcpy(q, p, n); return q; }
static int cmpn(const void *a, const void *b, size_t n) { return n? memcmp(a, b, n) : 0; }

struct hv_case { const char *prop; void (*fn)(void); };
static int hv_main(int argc, char **argv, struct hv_case const *cs) {
	/* usage: oracle PROP SEED MILLISECONDS MAXITER [ONLY-ITER] */
	hv_prop = argc > 1? argv[1] : ""; hv_seed = argc > 2? strtoull(argv[2], 0, 10) : 1;
	long ms = argc > 3? atol(argv[3]) : 1000; unsigned long long maxit = argc > 4? strtoull(argv[4], 0, 10) : ~0ull;
	unsigned long long only = argc > 5? strtoull(argv[5], 0, 10) : ~0ull;
	__sanitizer_set_death_callback(hv_death);
	signal(SIGALRM, hv_alarm);
	struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	unsigned long long n = 0; int k = 0;
	struct hv_case const *m[16]; for( ; cs->prop; cs++ ) if( !strcmp(cs->prop, hv_prop) && k < 16 ) m[k++] = cs;
	if( !k ) { printf("no such case\n"); return 2; }
	for( uint64_t it = only != ~0ull? only : 0; it < maxit; it++ ) {
		hv_iter = it; hv_s = hv_seed * 0xD1342543DE82EF95ull + it * 0x2545F4914F6CDD1Dull; rnd();
		hv_logn = 0; hv_log[0] = 0; hv_live = 0; hv_fail = -1; hv_failed = 0; hv_fail_all = 0; hv_allocs = 0;
		alarm(20);
		m[it % k]->fn();
		n++;
		if( only != ~0ull ) break;
		if( (it & 15)==0 ) { clock_gettime(CLOCK_MONOTONIC, &t); if( (t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000 >= ms ) break; }
	}
	alarm(0);
	printf("OK property=%s iterations=%llu\n", hv_prop, n);
	return 0;
}
#endif
