#include "hv.h"
#include "variant/variant.h"
extern size_t __sanitizer_get_allocated_size(const volatile void*);
static void same(struct HarbolVariant *v, uint8_t *d, size_t n, int32_t t, const char *w) {
	CHECK((d==NULL)==(v->data==NULL), "%s: data %p", w, v->data); CHECK(v->size==n, "%s: size %zu expected %zu", w, v->size, n); CHECK(v->tag==t, "%s: tag", w);
	if( d ) { CHECK(__sanitizer_get_allocated_size(v->data) >= n, "%s: storage", w); CHECK(cmpn(v->data, d, n)==0, "%s: value differs", w); }
	CHECK(harbol_variant_data(v)==v->data && harbol_variant_size(v)==v->size && harbol_variant_tag(v)==v->tag, "getters");
}
static void run(bool fault) {
	uint8_t *d = NULL; size_t n = 0; int32_t t = 0; struct HarbolVariant v = {0}, *p = NULL;
	for( int k=0; k < 8; k++ ) {
		size_t m = chance(10)? 0 : chance(5)? 60000 + rn(20000) : 1 + rn(50); uint8_t *src = xalloc(m); rfill(src, m); int32_t g = (int32_t)rnd(); bool ok; hv_failed = 0; hv_fail = fault && chance(50)? (long)rn(2) : -1;
		uint8_t *keep = xdup(src, m);
		switch( (int)rn(5) ) {
		case 0: case 1: LOGOP("set %zu", m); ok = harbol_variant_set(&v, src, m); CHECK(ok==!hv_failed, "set returned %d", ok); if( ok ) { xfree(d); d = xdup(src, m); n = m; } break;
		case 2: { harbol_variant_clear(&v); same(&v, NULL, 0, 0, "clear"); xfree(d); d = NULL; n = 0; t = 0; LOGOP("make %zu", m); if( chance(50) ) v = harbol_variant_make(src, m, g, &ok); else ok = harbol_variant_init(&v, src, m, g); CHECK(ok==!hv_failed, "make"); if( ok ) { d = xdup(src, m); n = m; t = g; } break; }
		case 3: { LOGOP("new %zu", m); p = harbol_variant_new(src, m, g); CHECK((p != NULL)==!hv_failed, "new"); if( p ) { memset(src, 0, m); same(p, keep, m, g, "new"); harbol_variant_free(&p); CHECK(p==NULL, "free"); } break; }
		case 4: if( d ) { LOGOP("set from itself"); size_t q = rn(n + 1); ok = harbol_variant_set(&v, v.data, q); CHECK(ok==!hv_failed, "set"); if( ok ) { uint8_t *e = xdup(d, q); xfree(d); d = e; n = q; } } break;
		}
		if( m ) memset(src, 0x77, m); same(&v, d, n, t, "after the operation"); xfree(src); xfree(keep);
	}
	hv_fail = -1; harbol_variant_clear(&v); CHECK(v.data==NULL && v.size==0, "clear"); harbol_variant_free(&p); xfree(d); CHECK(hv_live==0, "leak of %ld", hv_live);
}
static void c14(void) { run(chance(25)); }
static void c20(void) { run(true); }
int main(int c, char **a) { return hv_main(c, a, (struct hv_case[]){ {"C14", c14}, {"C20", c20}, {0} }); }
